package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// value is an interpreted value: bool, int64 (signed kinds), uint64 (unsigned kinds), float64,
// string, *Term (symbolic integer or boolean), *SymStr, []value (slice), array, structure,
// *value (pointer), *hmap, iface, *closure, *ssa.Function, *ssa.Builtin, tuple, *channel,
// and pointers to modelled library objects.
type value = interface{}

type (
	array     []value
	structure []value
	tuple     []value
	iface     struct {
		t types.Type
		v value
	}
	closure struct {
		fn  *ssa.Function
		env []value
	}
	// SymStr is a string some bytes of which are symbolic.
	SymStr struct{ b []value }
	// native is a Go function used as a value.
	native struct {
		name string
		fn   func(in *Interp, args []value) value
	}
)

type hmap struct {
	idx  map[interface{}]int
	keys []value
	vals []value
	dead []bool
	n    int
	sym  bool // some key has a symbolic string
}

type ZrObj struct{ v ZVal }
type G1Obj struct{ v *G1V }
type G2Obj struct{ v *Poly }
type GtObj struct{ m, e *G1V } // Miller part and exponentiated part
type BigObj struct{ t *Term }  // exact integer
type HashObj struct {
	buf []value
	key []value // non-nil for HMAC
	mac bool
}
type ErrObj struct {
	msg  string
	wrap value
}
type RandObj struct{}
type errStr struct{ s string }

func isNil(v value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *value:
		return v == nil
	case []value:
		return v == nil
	case *hmap:
		return v == nil
	case iface:
		return v.t == nil
	case *closure:
		return v == nil
	case *ssa.Function:
		return v == nil
	case *channel:
		return v == nil
	}
	return false
}

type abort struct {
	kind string // "unsupported", "steps", "infeasible", "stop"
	msg  string
}

func unsupported(f string, a ...interface{}) abort {
	return abort{"unsupported", fmt.Sprintf(f, a...)}
}

type targetPanic struct {
	v   value
	pos string
}

func under(t types.Type) types.Type { return t.Underlying() }

func basic(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func intInfo(t types.Type) (w int, signed, ok bool) {
	b := basic(t)
	if b == nil {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return
}

func wrapI(x int64, w int) int64 {
	s := uint(64 - w)
	return x << s >> s
}

func wrapU(x uint64, w int) uint64 {
	s := uint(64 - w)
	return x << s >> s
}

func (in *Interp) toTerm(v value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case int64:
		return in.c.I(v)
	case uint64:
		return in.c.Int(new(big.Int).SetUint64(v))
	case bool:
		return in.c.Bool(v)
	}
	panic(unsupported("integer expected, got %T", v))
}

// fromTerm turns constant terms into concrete values.
func fromTerm(t *Term, ty types.Type) value {
	switch t.op {
	case OpTrue:
		return true
	case OpFalse:
		return false
	case OpConst:
		w, s, ok := intInfo(ty)
		if !ok {
			panic(unsupported("constant of type %v", ty))
		}
		if s {
			x := new(big.Int).And(t.k, new(big.Int).SetUint64(^uint64(0))).Uint64()
			return wrapI(int64(x), w)
		}
		x := new(big.Int).And(t.k, new(big.Int).SetUint64(^uint64(0))).Uint64()
		return wrapU(x, w)
	}
	return t
}

func bound(w int, signed bool) (lo, hi *big.Int) {
	if signed {
		h := new(big.Int).Lsh(bigOne, uint(w-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, bigOne)
	}
	return bigZero, new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(w)), bigOne)
}

// wrap reduces an integer term to the machine type.
func (c *Ctx) wrap(t *Term, w int, signed bool) *Term {
	lo, hi := bound(w, signed)
	if inRange(t, lo, hi) {
		return t
	}
	m := new(big.Int).Lsh(bigOne, uint(w))
	if !signed {
		return c.Mod(t, m)
	}
	h := new(big.Int).Lsh(bigOne, uint(w-1))
	return c.Sub(c.Mod(c.Add(t, c.Int(h)), m), c.Int(h))
}

func zero(t types.Type) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return false
		}
		if u.Info()&types.IsString != 0 {
			return ""
		}
		if u.Info()&types.IsFloat != 0 {
			return float64(0)
		}
		if _, s, ok := intInfo(t); ok {
			if s {
				return int64(0)
			}
			return uint64(0)
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return (*value)(nil)
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return []value(nil)
	case *types.Map:
		return (*hmap)(nil)
	case *types.Interface:
		return iface{}
	case *types.Signature:
		return (*closure)(nil)
	case *types.Chan:
		return (*channel)(nil)
	case *types.Array:
		a := make(array, u.Len())
		for i := range a {
			a[i] = zero(u.Elem())
		}
		return a
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Tuple:
		s := make(tuple, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	}
	panic(unsupported("zero value of %v", t))
}

// cp copies aggregates.
func cp(v value) value {
	switch v := v.(type) {
	case structure:
		s := make(structure, len(v))
		for i := range v {
			s[i] = cp(v[i])
		}
		return s
	case array:
		s := make(array, len(v))
		for i := range v {
			s[i] = cp(v[i])
		}
		return s
	}
	return v
}

func strBytes(v value) []value {
	switch v := v.(type) {
	case string:
		b := make([]value, len(v))
		for i := 0; i < len(v); i++ {
			b[i] = uint64(v[i])
		}
		return b
	case *SymStr:
		return v.b
	}
	panic(unsupported("string expected, got %T", v))
}

func mkStr(b []value) value {
	bs := make([]byte, len(b))
	for i, x := range b {
		u, ok := x.(uint64)
		if !ok {
			return &SymStr{append([]value(nil), b...)}
		}
		bs[i] = byte(u)
	}
	return string(bs)
}

func bytesVal(b []byte) []value {
	r := make([]value, len(b))
	for i := range b {
		r[i] = uint64(b[i])
	}
	return r
}

func concreteBytes(b []value) ([]byte, bool) {
	r := make([]byte, len(b))
	for i, x := range b {
		u, ok := x.(uint64)
		if !ok {
			return nil, false
		}
		r[i] = byte(u)
	}
	return r, true
}
