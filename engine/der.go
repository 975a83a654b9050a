package main

import (
	"go/types"
	"math/big"
)

// A small DER codec for structures of integers, strings, byte strings, slices and structures.

func derLen(n int) []byte {
	if n < 128 {
		return []byte{byte(n)}
	}
	b := big.NewInt(int64(n)).Bytes()
	return append([]byte{0x80 | byte(len(b))}, b...)
}

func tlv(tag byte, body []value) []value {
	out := []value{uint64(tag)}
	out = append(out, bytesVal(derLen(len(body)))...)
	return append(out, body...)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	w, sg, ok := intInfo(s.Elem())
	return ok && w == 8 && !sg
}

func (in *Interp) derEncode(t types.Type, v value) ([]value, string) {
	if p, ok := v.(*value); ok {
		return in.derEncode(deref(t), *p)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var body []value
		for i := 0; i < u.NumFields(); i++ {
			if u.Tag(i) != "" {
				panic(unsupported("asn1 tags"))
			}
			b, err := in.derEncode(u.Field(i).Type(), v.(structure)[i])
			if err != "" {
				return nil, err
			}
			body = append(body, b...)
		}
		return tlv(0x30, body), ""
	case *types.Slice:
		if isByteSlice(t) {
			b, _ := v.([]value)
			return tlv(0x04, b), ""
		}
		var body []value
		for _, x := range v.([]value) {
			b, err := in.derEncode(u.Elem(), x)
			if err != "" {
				return nil, err
			}
			body = append(body, b...)
		}
		return tlv(0x30, body), ""
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			b := strBytes(v)
			tag := byte(0x13)
			for _, x := range b {
				c, ok := x.(uint64)
				if !ok {
					panic(unsupported("asn1 encoding of a symbolic string"))
				}
				ok = c == ' ' || c == '\'' || (c >= '(' && c <= '/' && c != '*') || (c >= '0' && c <= '9') || c == ':' || c == '=' || c == '?' || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z')
				if !ok {
					tag = 0x0c
				}
			}
			return tlv(tag, b), ""
		case u.Info()&types.IsBoolean != 0:
			x := uint64(0)
			if in.branch(in.toTerm(v)) {
				x = 255
			}
			return tlv(1, []value{x}), ""
		case u.Info()&types.IsInteger != 0:
			_, s, _ := intInfo(t)
			if !s {
				return nil, "structure error: unknown Go type"
			}
			tm := in.toTerm(v)
			c := in.c
			n := 1
			for ; n < 9; n++ {
				h := new(big.Int).Lsh(bigOne, uint(8*n-1))
				if in.branch(c.And(c.Le(c.Int(new(big.Int).Neg(h)), tm), c.Lt(tm, c.Int(h)))) {
					break
				}
			}
			m := new(big.Int).Lsh(bigOne, uint(8*n))
			return tlv(2, in.termBytes(c.Mod(tm, m), n)), ""
		}
	}
	panic(unsupported("asn1 encoding of %v", t))
}

func (in *Interp) derHeader(b []value) (tag byte, body, rest []value, err string) {
	if len(b) < 2 {
		return 0, nil, nil, "syntax error: data truncated"
	}
	u := func(x value) int {
		c, ok := x.(uint64)
		if !ok {
			t := x.(*Term)
			if _, op := in.c.byteRefs[t]; op {
				panic(unsupported("asn1 header in opaque bytes"))
			}
			return int(in.concretize(t).Int64())
		}
		return int(c)
	}
	tag = byte(u(b[0]))
	n := u(b[1])
	off := 2
	if n >= 0x80 {
		k := n & 0x7f
		if k == 0 || k > 4 || len(b) < 2+k {
			return 0, nil, nil, "syntax error: bad length"
		}
		n = 0
		for i := 0; i < k; i++ {
			x := u(b[2+i])
			if i == 0 && x == 0 {
				return 0, nil, nil, "structure error: superfluous leading zeros in length"
			}
			n = n<<8 | x
		}
		if n < 0x80 {
			return 0, nil, nil, "structure error: non-minimal length"
		}
		off += k
	}
	if len(b) < off+n {
		return 0, nil, nil, "syntax error: data truncated"
	}
	return tag, b[off : off+n], b[off+n:], ""
}

func (in *Interp) derDecode(t types.Type, p *value, b []value) (rest []value, err string) {
	tag, body, rest, err := in.derHeader(b)
	if err != "" {
		return nil, err
	}
	want := func(ts ...byte) bool {
		for _, x := range ts {
			if x == tag {
				return true
			}
		}
		return false
	}
	const mismatch = "structure error: tags don't match"
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if !want(0x30) {
			return nil, mismatch
		}
		s := (*p).(structure)
		for i := 0; i < u.NumFields(); i++ {
			if body, err = in.derDecode(u.Field(i).Type(), &s[i], body); err != "" {
				return nil, err
			}
		}
		return rest, ""
	case *types.Slice:
		if isByteSlice(t) {
			if !want(0x04) {
				return nil, mismatch
			}
			in.storeVal(p, append([]value{}, body...))
			return rest, ""
		}
		if !want(0x30) {
			return nil, mismatch
		}
		out := []value{}
		for len(body) > 0 {
			e := new(value)
			*e = zero(u.Elem())
			if body, err = in.derDecode(u.Elem(), e, body); err != "" {
				return nil, err
			}
			out = append(out, *e)
		}
		in.storeVal(p, out)
		return rest, ""
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if !want(0x13, 0x0c, 0x16) {
				return nil, mismatch
			}
			in.storeVal(p, mkStr(body))
			return rest, ""
		case u.Info()&types.IsInteger != 0:
			if !want(2) || len(body) == 0 || len(body) > 8 {
				return nil, mismatch
			}
			c := in.c
			tm := in.bytesTerm(body)
			w, _, _ := intInfo(t)
			in.storeVal(p, fromTerm(c.wrap(c.wrap(c.expand(tm), 8*len(body), true), w, true), t))
			return rest, ""
		}
	}
	panic(unsupported("asn1 decoding of %v", t))
}
