package main

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"math/bits"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the libraries at the boundary of the encoded code.

const mathlibPath = "github.com/IBM/mathlib"

func dummyNamed(name string) types.Type {
	return types.NewNamed(types.NewTypeName(0, nil, name, nil), types.NewStruct(nil, nil), nil)
}

var (
	runtimeErrType = dummyNamed("runtimeError")
	modelErrType   = dummyNamed("modelError")
	wrapErrType    = dummyNamed("modelWrapError")
	hashType       = dummyNamed("modelHash")
	randType       = dummyNamed("modelRand")
)

var allowedPkgs = map[string]bool{
	"bytes": true, "strconv": true, "errors": true, "encoding/binary": true, "encoding/hex": true, "math/bits": true,
	"strings": true, "sort": true, "slices": true, "maps": true, "cmp": true, "unicode/utf8": true, "container/list": true,
	"container/heap": true, "internal/bytealg": true, "internal/byteorder": true, "internal/stringslite": true, "iter": true, "internal/itoa": true,
}

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if fn.Parent() != nil {
		return fnPkgPath(fn.Parent())
	}
	return ""
}

func isPol(p string) bool { return p == "pol" || strings.HasPrefix(p, "pol/") }

func allowedFn(fn *ssa.Function) bool {
	p := fnPkgPath(fn)
	if isPol(p) || allowedPkgs[p] || p == "" {
		return true
	}
	if fn.Synthetic != "" && len(fn.Blocks) > 0 && fn.Synthetic != "package initializer" {
		return true // wrappers and bound methods: the callee is checked
	}
	return fn.Synthetic == "package initializer"
}

func (in *Interp) wantInit(p *ssa.Package) bool {
	return (isPol(p.Pkg.Path()) && p.Pkg.Path()+"." != ndPath) || in.initing[p]
}

var intrinsics = map[string]intrinsic{}

func lookupIntrinsic(fn *ssa.Function, name string) intrinsic {
	if i := intrinsics[name]; i != nil {
		return i
	}
	// instances of generic functions
	if o := fn.Origin(); o != nil && o != fn {
		return intrinsics[o.String()]
	}
	return nil
}

// global returns the cell of a package-level variable.
func (in *Interp) global(g *ssa.Global) value {
	path := g.Pkg.Pkg.Path()
	if isPol(path) {
		if p := in.globals[g]; p != nil {
			return p
		}
		p := in.newObj(deref(g.Type()))
		if pv, ok := p.(*value); ok {
			in.globals[g] = pv
			return pv
		}
		panic(unsupported("package variable %v", g))
	}
	if p := in.globals[g]; p != nil {
		return p
	}
	switch path + "." + g.Name() {
	case mathlibPath + ".Curves":
		return in.curves(g)
	case "crypto/rand.Reader":
		p := new(value)
		*p = iface{randType, &RandObj{}}
		in.globals[g] = p
		return p
	}
	if !allowedPkgs[path] && path != "io" {
		panic(unsupported("package variable %v", g))
	}
	if p := in.shared[g]; p != nil && in.sharedInit[g.Pkg] {
		return p
	}
	p := in.shared[g]
	if p == nil {
		p = new(value)
		*p = zero(deref(g.Type()))
		in.shared[g] = p
	}
	if !in.sharedInit[g.Pkg] {
		in.sharedInit[g.Pkg] = true
		in.initing[g.Pkg] = true
		jd, as := in.jdepth, in.assume
		in.jdepth, in.assume = 0, nil
		ms := in.maxSteps
		in.maxSteps = in.steps + 50000000
		buildPkg(g.Pkg)
		in.callFn(nil, g.Pkg.Func("init"), nil, nil)
		in.maxSteps = ms
		in.jdepth, in.assume = jd, as
	}
	return p
}

func (in *Interp) curves(g *ssa.Global) value {
	st := deref(deref(g.Type()).Underlying().(*types.Slice).Elem()).Underlying().(*types.Struct)
	var list []value
	for id := int64(0); id < 3; id++ {
		s := make(structure, st.NumFields())
		for i := range s {
			f := st.Field(i)
			switch f.Name() {
			case "GenG1":
				s[i] = &G1Obj{in.c.g1Base("G1")}
			case "GenG2":
				s[i] = &G2Obj{in.c.pOne}
			case "GenGt":
				s[i] = &GtObj{g1zero, in.c.g1Base("G1")}
			case "GroupOrder":
				s[i] = &ZrObj{in.c.zBig(P)}
			case "FieldBytes":
				s[i] = int64(32)
			case "curveID":
				s[i] = id
			default:
				s[i] = zero(f.Type())
			}
		}
		p := new(value)
		*p = s
		if id != 1 {
			p = nil // other curves are not modelled
		}
		list = append(list, p)
	}
	p := new(value)
	*p = list
	in.globals[g] = p
	return p
}

func (in *Interp) modelMethod(recv iface, name string) value {
	mk := func(f func(in *Interp, args []value) value) value { return &native{name, f} }
	switch o := recv.v.(type) {
	case *HashObj:
		switch name {
		case "Write":
			return mk(func(in *Interp, a []value) value {
				in.noMerge("hash write")
				b := a[1].([]value)
				o.buf = append(o.buf, b...)
				return tuple{int64(len(b)), iface{}}
			})
		case "WriteString":
			return mk(func(in *Interp, a []value) value {
				in.noMerge("hash write")
				b := strBytes(a[1])
				o.buf = append(o.buf, b...)
				return tuple{int64(len(b)), iface{}}
			})
		case "Sum":
			return mk(func(in *Interp, a []value) value {
				d := in.hashSum(o)
				pre, _ := a[1].([]value)
				return in.appendSlice(pre, d, types.Typ[types.Uint8])
			})
		case "Reset":
			return mk(func(in *Interp, a []value) value {
				in.noMerge("hash reset")
				o.buf = nil
				return nil
			})
		case "Size":
			return mk(func(in *Interp, a []value) value { return int64(32) })
		case "BlockSize":
			return mk(func(in *Interp, a []value) value { return int64(64) })
		}
		panic(unsupported("hash method %s", name))
	case *ErrObj:
		switch name {
		case "Error":
			return mk(func(in *Interp, a []value) value { return o.msg })
		case "Unwrap":
			return mk(func(in *Interp, a []value) value {
				if o.wrap == nil {
					return iface{}
				}
				return o.wrap
			})
		}
		panic(unsupported("error method %s", name))
	case *RandObj:
		if name == "Read" {
			return mk(func(in *Interp, a []value) value { return in.randRead(a[1].([]value)) })
		}
		panic(unsupported("random source method %s", name))
	case *ZrObj, *G1Obj, *G2Obj, *GtObj, *BigObj:
		return nil
	}
	return nil
}

func (in *Interp) randRead(b []value) value {
	in.noMerge("randomness")
	if len(b) > 0 {
		in.nrand++
		ch := in.c.chunk("rnd", fmt.Sprintf("%d.%d", in.nrand, len(b)), len(b), nil)
		for i := range b {
			in.storeVal(&b[i], ch.bytes[i])
		}
	}
	return tuple{int64(len(b)), iface{}}
}

func (in *Interp) contentKey(b []value) string {
	c := in.c
	var sb strings.Builder
	for i := 0; i < len(b); {
		switch x := b[i].(type) {
		case uint64:
			fmt.Fprintf(&sb, "%02x", x)
			i++
			continue
		case *Term:
			if r, ok := c.byteRefs[x]; ok && r.i == 0 && i+r.ch.n <= len(b) && c.asChunk(b[i:i+r.ch.n]) != nil {
				fmt.Fprintf(&sb, "[%d]", r.ch.id)
				i += r.ch.n
				continue
			}
			fmt.Fprintf(&sb, "(%d)", x.id)
			i++
			continue
		}
		panic(unsupported("hash of %T", b[i]))
	}
	return sb.String()
}

func (in *Interp) hashSum(o *HashObj) []value {
	if bs, ok := concreteBytes(o.buf); ok {
		if !o.mac {
			d := sha256.Sum256(bs)
			r := bytesVal(d[:])
			in.recHash(o, r)
			in.traceDigest(r)
			return r
		}
		if k, ok := concreteBytes(o.key); ok {
			m := hmac.New(sha256.New, k)
			m.Write(bs)
			r := bytesVal(m.Sum(nil))
			in.recHash(o, r)
			in.traceDigest(r)
			return r
		}
	}
	// a hash is a function: contents that may be equal as integers get the same digest when they are
	for _, r := range in.hashes {
		if r.mac == o.mac && len(r.buf) == len(o.buf) && len(r.key) == len(o.key) {
			e := in.intBytesEq(append(append([]value(nil), r.key...), r.buf...), append(append([]value(nil), o.key...), o.buf...))
			if e == in.c.t || (e != in.c.f && in.branch(e)) {
				in.traceDigest(r.out)
				return append([]value(nil), r.out...)
			}
		}
	}
	// so do contents that are equal by the equalities this path assumes (the same group element computed in two ways)
	if len(in.c.subst) > 0 {
		k := ""
		for _, r := range in.hashes {
			if r.mac != o.mac || len(r.buf) != len(o.buf) || len(r.key) != len(o.key) {
				continue
			}
			if k == "" {
				k = in.normKey(o.key) + "|" + in.normKey(o.buf)
			}
			if k == in.normKey(r.key)+"|"+in.normKey(r.buf) {
				in.traceDigest(r.out)
				return append([]value(nil), r.out...)
			}
		}
	}
	kind, key, obj := "sha", in.contentKey(o.buf), append([]value(nil), o.buf...)
	if o.mac {
		kind = "mac"
		key = in.contentKey(o.key) + "|" + key
		obj = append(append([]value(nil), o.key...), o.buf...)
	}
	r := append([]value(nil), in.c.chunk(kind, key, 32, obj).bytes...)
	in.traceDigest(r)
	in.recHash(o, r)
	return r
}

// normKey identifies contents up to the equalities learnt on the current path.
func (in *Interp) normKey(b []value) string {
	c := in.c
	var sb strings.Builder
	for i := 0; i < len(b); i++ {
		switch x := b[i].(type) {
		case uint64:
			fmt.Fprintf(&sb, "%02x", x)
			continue
		case *Term:
			if r, ok := c.byteRefs[x]; ok && r.i == 0 && i+r.ch.n <= len(b) && c.asChunk(b[i:i+r.ch.n]) != nil {
				if k, ok := in.normKeys[r.ch]; ok && in.normVer == in.nsubst {
					sb.WriteString(k)
					i += r.ch.n - 1
					continue
				}
				at := sb.Len()
				sb.WriteByte('[')
				switch r.ch.kind {
				case "g1":
					sb.WriteString(c.g1Key(r.ch.obj.(*G1V)))
				case "g2":
					sb.WriteString("G" + c.Norm(r.ch.obj.(*Poly)).Key())
				case "zr":
					if z := r.ch.obj.(ZVal); z.red {
						sb.WriteString("r" + c.Norm(z.p).Key())
					} else {
						sb.WriteString(r.ch.key)
					}
				case "sha", "mac":
					sb.WriteString(r.ch.kind + in.normKey(r.ch.obj.([]value)))
				default:
					sb.WriteString(r.ch.key)
				}
				sb.WriteByte(']')
				if in.normVer != in.nsubst || in.normKeys == nil {
					in.normVer, in.normKeys = in.nsubst, map[*Chunk]string{}
				}
				d := sha256.Sum256([]byte(sb.String()[at:]))
				k := "[" + string(d[:]) + "]"
				in.normKeys[r.ch] = k
				s := sb.String()[:at] + k
				sb.Reset()
				sb.WriteString(s)
				i += r.ch.n - 1
				continue
			}
			fmt.Fprintf(&sb, "(%d)", x.id)
			continue
		}
		panic(unsupported("hash of %T", b[i]))
	}
	return sb.String()
}

type hashRec struct {
	mac      bool
	key, buf []value
	out      []value
}

func (in *Interp) recHash(o *HashObj, out []value) {
	in.nhash++
	if in.maxHashes > 0 && in.nhash > in.maxHashes {
		in.notes[fmt.Sprintf("paths that need more than %d hash computations were cut", in.maxHashes)] = true
		panic(abort{"infeasible", "hash bound"})
	}
	in.hashes = append(in.hashes, hashRec{o.mac, append([]value(nil), o.key...), append([]value(nil), o.buf...), out})
}

// intBytesEq is the condition for two byte strings to be equal, taking opaque parts and
// bytes of unconstrained scalars that are not identical as different.
func (in *Interp) intBytesEq(a, b []value) *Term {
	c := in.c
	out := c.t
	for i := range a {
		if a[i] == b[i] {
			continue
		}
		ta, okA := a[i].(*Term)
		tb, okB := b[i].(*Term)
		if !okA && !okB {
			return c.f
		}
		for _, t := range []*Term{ta, tb} {
			if t != nil && in.generic(t) {
				return c.f
			}
		}
	}
	for i := range a {
		if a[i] == b[i] {
			continue
		}
		out = c.And(out, c.Eq(in.toTerm(a[i]), in.toTerm(b[i])))
		if out == c.f {
			return out
		}
	}
	return out
}

// generic: the term depends on a field element rather than on integers only.
func (in *Interp) generic(t *Term) bool {
	if g, ok := in.c.gen[t]; ok {
		return g
	}
	g := false
	if _, ok := in.c.byteRefs[t]; ok {
		g = true
	} else if _, ok := in.c.atomOf[t]; ok {
		g = true
	} else if t.op == OpPZ {
		g = true
	} else if t.op == OpVar && (strings.HasPrefix(t.name, "z:") || strings.HasPrefix(t.name, "hexof:")) {
		g = true
	}
	for _, a := range t.args {
		if g {
			break
		}
		g = in.generic(a)
	}
	in.c.gen[t] = g
	return g
}

func (in *Interp) traceDigest(d []value) {
	if in.tracing {
		in.noMerge("digest trace")
		in.trace = append(in.trace, append([]value(nil), d...))
	}
}

func (in *Interp) mkErr(msg string, wrap value) value {
	return iface{modelErrType, &ErrObj{msg: msg, wrap: wrap}}
}

func (in *Interp) panicString(tp *targetPanic) string {
	s := ""
	func() {
		defer func() {
			if recover() != nil {
				s = "?"
			}
		}()
		s = in.show(tp.v)
	}()
	if tp.pos != "" {
		s += " at " + tp.pos
	}
	return s
}

// show formats a value for messages.
func (in *Interp) show(v value) string {
	switch v := v.(type) {
	case iface:
		if v.t == nil {
			return "<nil>"
		}
		if _, ok := v.v.(*value); ok {
			if f := in.prog.LookupMethod(v.t, nil, "Error"); f != nil {
				if s, ok := in.call(nil, f, []value{v.v}).(string); ok {
					return s
				}
			}
		}
		return in.show(v.v)
	case *ErrObj:
		return v.msg
	case string:
		return v
	case *SymStr:
		return "<symbolic string>"
	case int64, uint64, bool, float64:
		return fmt.Sprint(v)
	case *Term:
		return "<symbolic>"
	case []value:
		var s []string
		for _, x := range v {
			s = append(s, in.show(x))
		}
		return "[" + strings.Join(s, " ") + "]"
	case structure:
		var s []string
		for _, x := range v {
			s = append(s, in.show(x))
		}
		return "{" + strings.Join(s, " ") + "}"
	case *ZrObj:
		if v.v.it != nil && v.v.it.isConst() {
			return v.v.it.k.Text(16)
		}
		return "<scalar>"
	}
	return fmt.Sprintf("<%T>", v)
}

// fmtArgs turns interface arguments into Go values for formatting; exact demands concrete values.
func (in *Interp) fmtArgs(args []value, exact bool) []interface{} {
	var out []interface{}
	for _, a := range args {
		i, ok := a.(iface)
		if !ok || i.t == nil {
			out = append(out, nil)
			continue
		}
		switch v := i.v.(type) {
		case int64:
			if w, _, _ := intInfo(i.t); w == 32 {
				out = append(out, int32(v))
			} else {
				out = append(out, int(v))
			}
		case uint64:
			w, _, _ := intInfo(i.t)
			if w == 8 {
				out = append(out, uint8(v))
			} else {
				out = append(out, v)
			}
		case string, bool, float64:
			out = append(out, v)
		case *Term:
			if exact && !v.isBool() {
				out = append(out, in.concretize(v))
			} else if exact {
				out = append(out, in.branch(v))
			} else {
				out = append(out, "<symbolic>")
			}
		case array:
			if b, ok := concreteBytes(v); ok && len(v) > 0 {
				if w, s, isInt := intInfo(i.t.Underlying().(*types.Array).Elem()); isInt && w == 8 && !s {
					// formatted as an array of bytes
					a := reflect.New(reflect.ArrayOf(len(b), reflect.TypeOf(byte(0)))).Elem()
					reflect.Copy(a, reflect.ValueOf(b))
					out = append(out, a.Interface())
					continue
				}
			}
			if exact {
				panic(unsupported("formatting of an array"))
			}
			out = append(out, in.show(i))
		case []value:
			if b, ok := concreteBytes(v); ok && len(v) > 0 {
				if w, _, isInt := intInfo(i.t.Underlying().(*types.Slice).Elem()); isInt && w == 8 {
					out = append(out, b)
					continue
				}
			}
			var xs []uint64
			all := true
			for _, x := range v {
				if u, ok := x.(uint64); ok {
					xs = append(xs, u)
				} else if s, ok := x.(int64); ok {
					xs = append(xs, uint64(s))
				} else {
					all = false
				}
			}
			if all {
				out = append(out, xs)
			} else if exact {
				panic(unsupported("formatting of symbolic data"))
			} else {
				out = append(out, in.show(v))
			}
		case *SymStr:
			if exact {
				panic(unsupported("formatting of a symbolic string"))
			}
			out = append(out, "<symbolic>")
		default:
			if exact {
				if _, isErr := v.(*ErrObj); !isErr {
					if z, ok := v.(*ZrObj); !ok || z.v.it == nil || !z.v.it.isConst() {
						if _, isStruct := v.(*value); isStruct {
							out = append(out, in.show(i))
							continue
						}
						panic(unsupported("formatting of %T", v))
					}
				}
			}
			out = append(out, in.show(i))
		}
	}
	return out
}

func (in *Interp) wg(p value) *gsync {
	k, ok := p.(*value)
	if !ok {
		panic(unsupported("sync object %T", p))
	}
	if k == nil {
		in.goPanic("invalid memory address or nil pointer dereference")
	}
	g := in.syncs[k]
	if g == nil {
		g = &gsync{vc: map[int]int{}}
		in.syncs[k] = g
	}
	return g
}

type gsync struct {
	n    int64
	r    int
	v    value
	set  bool
	vc   map[int]int
	once bool
}

func (in *Interp) release(g *gsync) {
	joinClock(g.vc, in.cur.clock)
	in.cur.clock[in.cur.id]++
}

func (in *Interp) acquire(g *gsync) { joinClock(in.cur.clock, g.vc) }

func (in *Interp) z(v value) *ZrObj {
	o, ok := v.(*ZrObj)
	if !ok || o == nil {
		if isNil(v) {
			in.goPanic("invalid memory address or nil pointer dereference")
		}
		panic(unsupported("scalar expected, got %T", v))
	}
	in.access2(o, false)
	return o
}

func (in *Interp) g1(v value) *G1Obj {
	o, ok := v.(*G1Obj)
	if !ok || o == nil {
		if isNil(v) {
			in.goPanic("invalid memory address or nil pointer dereference")
		}
		panic(unsupported("group element expected, got %T", v))
	}
	in.access2(o, false)
	return o
}

func (in *Interp) g2(v value) *G2Obj {
	o, ok := v.(*G2Obj)
	if !ok || o == nil {
		in.goPanic("invalid memory address or nil pointer dereference")
	}
	return o
}

func (in *Interp) gt(v value) *GtObj {
	o, ok := v.(*GtObj)
	if !ok || o == nil {
		in.goPanic("invalid memory address or nil pointer dereference")
	}
	return o
}

func (in *Interp) big(v value) *BigObj {
	o, ok := v.(*BigObj)
	if !ok || o == nil {
		if isNil(v) {
			in.goPanic("invalid memory address or nil pointer dereference")
		}
		panic(unsupported("big integer expected, got %T", v))
	}
	return o
}

func (in *Interp) isOrder(v value) bool {
	z := in.z(v).v
	return z.it != nil && z.it.isConst() && z.it.k.Cmp(P) == 0
}

// zIt returns an integer term for a scalar.
func (in *Interp) zIt(z ZVal) *Term {
	c := in.c
	if z.it != nil {
		return z.it
	}
	if !z.red {
		// an unreduced number: opaque
		return in.atom(z)
	}
	p := c.Norm(z.p)
	hasT := false
	for _, m := range p.m {
		for i, v := range c.monos[m].vars {
			if c.vars[v].class == VTrans || c.monos[m].exps[i] < 0 {
				hasT = true
			}
		}
	}
	if hasT || len(p.m) > 64 {
		return in.atom(z)
	}
	t := c.I(0)
	for i, m := range p.m {
		mi := c.monos[m]
		u := c.Int(p.c[i].SBig())
		for j, v := range mi.vars {
			for e := int32(0); e < mi.exps[j]; e++ {
				u = c.Mul(u, c.vars[v].term)
			}
		}
		t = c.Add(t, u)
	}
	return c.Mod(t, P)
}

// atom is an opaque integer with a known residue.
func (in *Interp) atom(z ZVal) *Term {
	c := in.c
	key := "num:" + c.Norm(z.p).Key()
	if !z.red {
		for _, p := range z.parts.list() {
			key += "+" + p.Key()
		}
		if z.lo == nil || z.hi == nil {
			panic(unsupported("integer value of an unreduced scalar"))
		}
	}
	if t := c.atoms[key]; t != nil {
		return t
	}
	lo, hi := z.lo, z.hi
	if z.red {
		lo, hi = bigZero, pm1
	}
	t := c.IntVar(fmt.Sprintf("atom%d", len(c.atoms)), lo, hi)
	c.atoms[key] = t
	c.atomOf[t] = z
	c.polyOf[t] = z.p
	return t
}

func (in *Interp) newZr(z ZVal) value { return &ZrObj{z} }

func (in *Interp) setZr(o *ZrObj, z ZVal) {
	in.unmerge(o)
	in.access2(o, true)
	in.jobj(o)
	o.v = z
}

func (in *Interp) setG1(o *G1Obj, v *G1V) {
	in.unmerge(o)
	in.access2(o, true)
	in.jobj(o)
	o.v = v
}

func boolVal(t *Term) value { return fromTerm(t, types.Typ[types.Bool]) }

// zFromInt builds a scalar from a machine integer.
func (in *Interp) zFromInt(v value) ZVal {
	t := in.toTerm(v)
	if z, ok := in.c.atomOf[t]; ok {
		return z
	}
	return in.c.zTerm(t)
}

func (in *Interp) zFromBig(t *Term) ZVal {
	if z, ok := in.c.atomOf[t]; ok {
		return z
	}
	z := in.c.zTerm(t)
	return z
}

func reg(name string, f intrinsic) { intrinsics[name] = f }

func zr(m string) string    { return "(*" + mathlibPath + ".Zr)." + m }
func g1m(m string) string   { return "(*" + mathlibPath + ".G1)." + m }
func g2m(m string) string   { return "(*" + mathlibPath + ".G2)." + m }
func gtm(m string) string   { return "(*" + mathlibPath + ".Gt)." + m }
func curve(m string) string { return "(*" + mathlibPath + ".Curve)." + m }
func bigm(m string) string  { return "(*math/big.Int)." + m }

func (in *Interp) freshRandom() ZVal {
	in.noMerge("randomness")
	in.nrand++
	return ZVal{p: in.c.PVarOf(fmt.Sprintf("rand%d", in.nrand), VTrans, nil), red: true, lo: bigZero, hi: pm1}
}

func (in *Interp) powMod(b, e ZVal) ZVal {
	c := in.c
	et := in.zIt(e)
	if !et.isConst() {
		if b.it != nil && b.it.isConst() && inRange(et, bigZero, big.NewInt(70)) {
			et = c.Int(in.concretize(et))
		} else {
			panic(unsupported("symbolic exponent"))
		}
	}
	if b.it != nil && b.it.isConst() {
		r := new(big.Int).Exp(b.it.k, et.k, P)
		if r == nil {
			panic(unsupported("power without a value"))
		}
		return c.zBig(new(big.Int).Mod(r, P))
	}
	if et.k.Sign() < 0 {
		in.goPanic("negative exponent")
	}
	p := c.Norm(b.p)
	if et.k.Sign() == 0 {
		return c.zBig(bigOne)
	}
	if !et.k.IsInt64() || (et.k.Int64() > 4096 && len(p.m) != 1) || et.k.Int64() > 1<<20 {
		panic(unsupported("large power of a symbolic scalar"))
	}
	return c.zRed(c.PPow(p, int(et.k.Int64())))
}

func (in *Interp) zInt(z ZVal) value {
	c := in.c
	rangeErr := func() value { return tuple{int64(0), in.mkErr("out of range", nil)} }
	if z.it == nil && z.red {
		p := c.Norm(z.p)
		generic := false
		for _, m := range p.m {
			for _, v := range c.monos[m].vars {
				if c.vars[v].class == VTrans {
					generic = true
				}
			}
		}
		if generic {
			in.notes["a generic scalar is taken not to fit 64 bits"] = true
			return rangeErr()
		}
	}
	t := in.zIt(z)
	two64 := new(big.Int).Lsh(bigOne, 64)
	if in.branch(c.And(c.Le(c.I(0), t), c.Lt(t, c.Int(two64)))) {
		return tuple{fromTerm(c.wrap(t, 64, true), types.Typ[types.Int64]), iface{}}
	}
	if in.branch(c.And(c.Lt(t, c.I(0)), c.Le(c.Int(new(big.Int).Neg(two64)), t))) {
		return tuple{fromTerm(c.wrap(t, 64, true), types.Typ[types.Int64]), iface{}}
	}
	return rangeErr()
}

func (in *Interp) mlBase(x *G1V, q *Poly) *G1V {
	c := in.c
	if q.IsZero() || len(c.g1Norm(x).b) == 0 {
		return g1zero
	}
	name := "ML|" + c.g1Key(x) + "|" + c.Norm(q).Key()
	b := c.g1Base(name)
	c.mlVals[b.b[0]] = c.g1Mul(x, q)
	return b
}

func (in *Interp) fexp(x *GtObj) *GtObj {
	c := in.c
	e := g1zero
	for i := range x.m.b {
		e = c.g1Add(e, c.g1Mul(c.mlVals[x.m.b[i]], x.m.p[i]), false)
	}
	if len(x.e.b) > 0 {
		k := c.PVarOf("(p^12-1)/r", VTrans, nil)
		e = c.g1Add(e, c.g1Mul(x.e, k), false)
	}
	return &GtObj{g1zero, e}
}

func (in *Interp) bigBytes(t *Term) []value {
	c := in.c
	if t.isConst() {
		return bytesVal(new(big.Int).Abs(t.k).Bytes())
	}
	if in.branch(c.Lt(t, c.I(0))) {
		t = c.Neg(t)
	}
	n := 0
	for ; ; n++ {
		if n > 64 {
			panic(unsupported("bytes of an unbounded integer"))
		}
		if in.branch(c.Lt(t, c.Int(new(big.Int).Lsh(bigOne, uint(8*n))))) {
			break
		}
	}
	return in.termBytes(t, n)
}

// termBytes are the big-endian bytes of 0 <= t < 256^n.
func (in *Interp) termBytes(t *Term, n int) []value {
	c := in.c
	r := make([]value, n)
	for i := range r {
		x := c.Mod(c.Div(t, new(big.Int).Lsh(bigOne, uint(8*(n-1-i)))), big.NewInt(256))
		r[i] = fromTerm(x, types.Typ[types.Uint8])
	}
	if inRange(t, bigZero, new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(8*n)), bigOne)) {
		c.byteVecs[byteKey(r)] = t
	}
	return r
}

func byteKey(b []value) string {
	var sb strings.Builder
	for _, x := range b {
		if t, ok := x.(*Term); ok {
			fmt.Fprintf(&sb, "t%d,", t.id)
		} else {
			fmt.Fprintf(&sb, "%v,", x)
		}
	}
	return sb.String()
}

func (in *Interp) parseBig(s value, base int) (*Term, bool) {
	c := in.c
	if cs, ok := s.(string); ok {
		b, ok := new(big.Int).SetString(cs, base)
		if !ok {
			return nil, false
		}
		return c.Int(b), true
	}
	bs := strBytes(s)
	if t := c.hexVecs[byteKey(bs)]; t != nil && base == 16 {
		return t, true
	}
	if len(bs) == 0 {
		return nil, false
	}
	if base < 0 || base == 1 || base > 36 {
		panic(unsupported("number base %d of a symbolic string", base))
	}
	neg := false
	if t, ok := bs[0].(*Term); ok {
		if in.branch(c.Eq(t, c.I('+'))) {
			bs = bs[1:]
		} else if in.branch(c.Eq(t, c.I('-'))) {
			neg = true
			bs = bs[1:]
		}
	} else if bs[0].(uint64) == '+' {
		bs = bs[1:]
	} else if bs[0].(uint64) == '-' {
		neg = true
		bs = bs[1:]
	}
	if len(bs) == 0 {
		return nil, false
	}
	is := func(b value, ch ...byte) bool {
		var or []*Term
		for _, x := range ch {
			or = append(or, c.Eq(in.toTerm(b), c.I(int64(x))))
		}
		return in.branch(c.Or(or...))
	}
	// base 0: the prefix says the base, and underscores may separate digits
	under, sep, last := base == 0, false, false
	if base == 0 {
		base = 10
		if is(bs[0], '0') {
			switch {
			case len(bs) >= 3 && is(bs[1], 'x', 'X'):
				base, bs, sep = 16, bs[2:], true
			case len(bs) >= 3 && is(bs[1], 'b', 'B'):
				base, bs, sep = 2, bs[2:], true
			case len(bs) >= 3 && is(bs[1], 'o', 'O'):
				base, bs, sep = 8, bs[2:], true
			case len(bs) > 1:
				base, bs, sep = 8, bs[1:], true
			}
		}
	}
	acc := c.I(0)
	for i, b := range bs {
		t := in.toTerm(b)
		if _, op := c.byteRefs[t]; op {
			panic(unsupported("number in opaque bytes"))
		}
		if under && is(b, '_') {
			// allowed after a digit or the prefix, and before a digit
			if i == len(bs)-1 || last || !(sep || i > 0) {
				return nil, false
			}
			last = true
			continue
		}
		last = false
		rng := func(lo, hi byte) *Term { return c.And(c.Le(c.I(int64(lo)), t), c.Le(t, c.I(int64(hi)))) }
		dig := rng('0', '0'+byte(min(base, 10)-1))
		valid := dig
		d := c.Sub(t, c.I('0'))
		if base > 10 {
			up, low := rng('A', 'A'+byte(base-11)), rng('a', 'a'+byte(base-11))
			valid = c.Or(dig, up, low)
			d = c.Ite(dig, d, c.Ite(up, c.Sub(t, c.I('A'-10)), c.Sub(t, c.I('a'-10))))
			if !d.isConst() {
				// digit range under the validity condition
				nm := fmt.Sprintf("digit%d.%d", base, t.id)
				v := c.IntVar(nm, bigZero, big.NewInt(int64(base-1)))
				if in.branch(valid) {
					in.addLit(c.Eq(v, d), true)
					d = v
				} else {
					return nil, false
				}
			}
		}
		if !in.branch(valid) {
			return nil, false
		}
		acc = c.Add(c.Scale(acc, big.NewInt(int64(base))), d)
	}
	if neg {
		acc = c.Neg(acc)
	}
	return acc, true
}

// hexStr is the lower-case hexadecimal text of 0 <= t < 16^n, in n digits.
func (in *Interp) hexStr(t *Term, n int) value {
	c := in.c
	r := make([]value, n)
	for i := range r {
		d := c.Mod(c.Div(t, new(big.Int).Lsh(bigOne, uint(4*(n-1-i)))), big.NewInt(16))
		r[i] = fromTerm(c.Ite(c.Lt(d, c.I(10)), c.Add(d, c.I('0')), c.Add(d, c.I('a'-10))), types.Typ[types.Uint8])
	}
	c.hexVecs[byteKey(r)] = t
	return mkStr(r)
}

// onlyPanics: the result of the call fr is executing is only used as the value of a panic.
func onlyPanics(fr *frame) bool {
	call, ok := fr.curInstr.(*ssa.Call)
	if !ok || call.Referrers() == nil || len(*call.Referrers()) == 0 {
		return false
	}
	for _, u := range *call.Referrers() {
		mi, ok := u.(*ssa.MakeInterface)
		if !ok || mi.Referrers() == nil {
			return false
		}
		for _, x := range *mi.Referrers() {
			if _, ok := x.(*ssa.Panic); !ok {
				return false
			}
		}
	}
	return true
}

func (in *Interp) divConst(a, b *Term) *big.Int {
	if !b.isConst() {
		panic(unsupported("division by a symbolic integer"))
	}
	if b.k.Sign() == 0 {
		panic(targetPanic{v: iface{runtimeErrType, &ErrObj{msg: "division by zero"}}})
	}
	if b.k.Sign() < 0 {
		panic(unsupported("division by a negative integer"))
	}
	return b.k
}

func (in *Interp) sgn(t *Term) value {
	c := in.c
	if t.isConst() {
		return int64(t.k.Sign())
	}
	return fromTerm(c.Ite(c.Eq(t, c.I(0)), c.I(0), c.Ite(c.Lt(t, c.I(0)), c.I(-1), c.I(1))), types.Typ[types.Int])
}

func init() {
	// --- scalars ---
	reg(zr("Plus"), func(in *Interp, fr *frame, a []value) value {
		return in.newZr(in.c.zAdd(in.z(a[0]).v, in.z(a[1]).v))
	})
	reg(zr("Mul"), func(in *Interp, fr *frame, a []value) value {
		return in.newZr(in.c.zMul(in.z(a[0]).v, in.z(a[1]).v))
	})
	reg(zr("Mod"), func(in *Interp, fr *frame, a []value) value {
		o := in.z(a[0])
		if in.isOrder(a[1]) {
			in.setZr(o, in.c.zMod(o.v))
			return nil
		}
		m := in.z(a[1]).v
		if m.it == nil || !m.it.isConst() || m.it.k.Sign() <= 0 {
			panic(unsupported("remainder of a symbolic modulus"))
		}
		in.setZr(o, in.c.zTerm(in.c.Mod(in.zIt(o.v), m.it.k)))
		return nil
	})
	reg(zr("PowMod"), func(in *Interp, fr *frame, a []value) value {
		return in.newZr(in.powMod(in.z(a[0]).v, in.z(a[1]).v))
	})
	reg(zr("InvModP"), func(in *Interp, fr *frame, a []value) value {
		o := in.z(a[0])
		if !in.isOrder(a[1]) {
			panic(unsupported("inverse modulo another number"))
		}
		p := in.c.Norm(o.v.p)
		if p.IsConst() {
			k := p.Const()
			if !k.IsZero() {
				in.setZr(o, in.c.zBig(feInv(k).Big()))
			}
			return nil
		}
		in.setZr(o, in.c.zRed(in.c.PInv(p)))
		return nil
	})
	reg(zr("Bytes"), func(in *Interp, fr *frame, a []value) value { return in.zrBytes(in.z(a[0]).v) })
	reg(zr("Equals"), func(in *Interp, fr *frame, a []value) value {
		return boolVal(in.zEq(in.z(a[0]).v, in.z(a[1]).v))
	})
	reg(zr("Copy"), func(in *Interp, fr *frame, a []value) value { return in.newZr(in.z(a[0]).v) })
	reg(zr("Clone"), func(in *Interp, fr *frame, a []value) value {
		v := in.z(a[1]).v
		if v.it != nil && (v.it.lo == nil || v.it.lo.Sign() < 0) {
			if in.branch(in.c.Lt(v.it, in.c.I(0))) {
				v = in.c.zTerm(in.c.Neg(v.it))
			}
		}
		in.setZr(in.z(a[0]), v)
		return nil
	})
	reg(zr("String"), func(in *Interp, fr *frame, a []value) value {
		v := in.z(a[0]).v
		if v.it != nil && v.it.isConst() {
			return v.it.k.Text(16)
		}
		panic(unsupported("text of a symbolic scalar"))
	})
	reg(zr("Int"), func(in *Interp, fr *frame, a []value) value { return in.zInt(in.z(a[0]).v) })

	// --- G1 ---
	reg(g1m("Clone"), func(in *Interp, fr *frame, a []value) value {
		in.setG1(in.g1(a[0]), in.g1(a[1]).v)
		return nil
	})
	reg(g1m("Copy"), func(in *Interp, fr *frame, a []value) value { return &G1Obj{in.g1(a[0]).v} })
	reg(g1m("Add"), func(in *Interp, fr *frame, a []value) value {
		o := in.g1(a[0])
		in.setG1(o, in.c.g1Add(o.v, in.g1(a[1]).v, false))
		return nil
	})
	reg(g1m("Sub"), func(in *Interp, fr *frame, a []value) value {
		o := in.g1(a[0])
		in.setG1(o, in.c.g1Add(o.v, in.g1(a[1]).v, true))
		return nil
	})
	reg(g1m("Mul"), func(in *Interp, fr *frame, a []value) value {
		return &G1Obj{in.c.g1Mul(in.g1(a[0]).v, in.z(a[1]).v.p)}
	})
	reg(g1m("Mul2"), func(in *Interp, fr *frame, a []value) value {
		x := in.c.g1Mul(in.g1(a[0]).v, in.z(a[1]).v.p)
		y := in.c.g1Mul(in.g1(a[2]).v, in.z(a[3]).v.p)
		return &G1Obj{in.c.g1Add(x, y, false)}
	})
	reg(g1m("Equals"), func(in *Interp, fr *frame, a []value) value {
		return boolVal(in.g1Eq(in.g1(a[0]).v, in.g1(a[1]).v))
	})
	reg(g1m("IsInfinity"), func(in *Interp, fr *frame, a []value) value {
		return boolVal(in.g1IsZero(in.g1(a[0]).v))
	})
	reg(g1m("Bytes"), func(in *Interp, fr *frame, a []value) value { return in.g1Bytes(in.g1(a[0]).v) })

	// --- G2 ---
	reg(g2m("Copy"), func(in *Interp, fr *frame, a []value) value { return &G2Obj{in.g2(a[0]).v} })
	reg(g2m("Clone"), func(in *Interp, fr *frame, a []value) value {
		in.jobj(in.g2(a[0]))
		in.g2(a[0]).v = in.g2(a[1]).v
		return nil
	})
	reg(g2m("Mul"), func(in *Interp, fr *frame, a []value) value {
		return &G2Obj{in.c.PMul(in.g2(a[0]).v, in.z(a[1]).v.p)}
	})
	reg(g2m("Add"), func(in *Interp, fr *frame, a []value) value {
		o := in.g2(a[0])
		in.jobj(o)
		o.v = in.c.PAdd(o.v, in.g2(a[1]).v)
		return nil
	})
	reg(g2m("Sub"), func(in *Interp, fr *frame, a []value) value {
		o := in.g2(a[0])
		in.jobj(o)
		o.v = in.c.PSub(o.v, in.g2(a[1]).v)
		return nil
	})
	reg(g2m("Affine"), func(in *Interp, fr *frame, a []value) value { return nil })
	reg(g2m("Equals"), func(in *Interp, fr *frame, a []value) value {
		return boolVal(in.c.PZ(in.c.PSub(in.g2(a[0]).v, in.g2(a[1]).v)))
	})
	reg(g2m("Bytes"), func(in *Interp, fr *frame, a []value) value {
		p := in.c.Norm(in.g2(a[0]).v)
		if p.IsZero() {
			return bytesVal(make([]byte, 128))
		}
		return append([]value(nil), in.c.chunk("g2", p.Key(), 128, p).bytes...)
	})

	// --- Gt ---
	reg(gtm("Mul"), func(in *Interp, fr *frame, a []value) value {
		o := in.gt(a[0])
		in.jobj(o)
		o.m, o.e = in.gtAdd(o, in.gt(a[1]))
		return nil
	})
	reg(gtm("Inverse"), func(in *Interp, fr *frame, a []value) value {
		o := in.gt(a[0])
		in.jobj(o)
		o.m, o.e = in.c.g1Mul(o.m, in.c.PConst(feMOne)), in.c.g1Mul(o.e, in.c.PConst(feMOne))
		return nil
	})
	reg(gtm("Exp"), func(in *Interp, fr *frame, a []value) value {
		o, z := in.gt(a[0]), in.z(a[1]).v
		p := z.p
		// the sign of the exponent is ignored by the library
		if z.it != nil {
			if in.branch(in.c.Lt(z.it, in.c.I(0))) {
				p = in.c.PNeg(p)
			}
		} else if z.lo == nil || z.lo.Sign() < 0 {
			panic(unsupported("exponent of unknown sign"))
		}
		return &GtObj{in.c.g1Mul(o.m, p), in.c.g1Mul(o.e, p)}
	})
	reg(gtm("Equals"), func(in *Interp, fr *frame, a []value) value {
		x, y := in.gt(a[0]), in.gt(a[1])
		m := in.g1IsZero(in.c.g1Add(x.m, y.m, true))
		if m == in.c.f {
			return false
		}
		return boolVal(in.c.And(m, in.g1Eq(x.e, y.e)))
	})
	reg(gtm("IsUnity"), func(in *Interp, fr *frame, a []value) value {
		x := in.gt(a[0])
		return boolVal(in.c.And(in.g1IsZero(x.m), in.g1Eq(x.e, g1zero)))
	})
	reg(gtm("Bytes"), func(in *Interp, fr *frame, a []value) value {
		x := in.gt(a[0])
		return append([]value(nil), in.c.chunk("gt", in.c.g1Key(x.m)+"/"+in.c.g1Key(x.e), 384, *x).bytes...)
	})

	// --- curve ---
	reg(curve("Rand"), func(in *Interp, fr *frame, a []value) value {
		return tuple{iface{randType, &RandObj{}}, iface{}}
	})
	reg(curve("NewRandomZr"), func(in *Interp, fr *frame, a []value) value { return in.newZr(in.freshRandom()) })
	reg(curve("NewZrFromBytes"), func(in *Interp, fr *frame, a []value) value {
		b, _ := a[1].([]value)
		return in.newZr(in.zrFromBytes(b))
	})
	reg(curve("NewZrFromInt"), func(in *Interp, fr *frame, a []value) value { return in.newZr(in.zFromInt(a[1])) })
	reg(curve("NewG1FromBytes"), func(in *Interp, fr *frame, a []value) value {
		b, _ := a[1].([]value)
		if ch := in.c.asChunk(b); ch != nil && ch.kind == "g1" {
			return tuple{&G1Obj{ch.obj.(*G1V)}, iface{}}
		}
		if bs, ok := concreteBytes(b); ok {
			z := true
			for _, x := range bs {
				z = z && x == 0
			}
			if z && len(bs) == 64 {
				return tuple{&G1Obj{g1zero}, iface{}}
			}
			if len(bs) < 32 {
				return tuple{(*value)(nil), in.mkErr("failure", nil)}
			}
		}
		if len(b) < 32 {
			return tuple{(*value)(nil), in.mkErr("failure", nil)}
		}
		panic(unsupported("group element from bytes that are no serialization"))
	})
	reg(curve("NewG1"), func(in *Interp, fr *frame, a []value) value { return &G1Obj{g1zero} })
	reg(curve("NewG2"), func(in *Interp, fr *frame, a []value) value { return &G2Obj{in.c.pZero} })
	reg(curve("Pairing"), func(in *Interp, fr *frame, a []value) value {
		return &GtObj{in.mlBase(in.g1(a[2]).v, in.g2(a[1]).v), g1zero}
	})
	reg(curve("Pairing2"), func(in *Interp, fr *frame, a []value) value {
		x := in.mlBase(in.g1(a[2]).v, in.g2(a[1]).v)
		y := in.mlBase(in.g1(a[4]).v, in.g2(a[3]).v)
		return &GtObj{in.c.g1Add(x, y, false), g1zero}
	})
	reg(curve("FExp"), func(in *Interp, fr *frame, a []value) value { return in.fexp(in.gt(a[1])) })
	reg(curve("HashToG1"), func(in *Interp, fr *frame, a []value) value {
		b, _ := a[1].([]value)
		return &G1Obj{in.c.g1Base("H(" + in.contentKey(b) + ")")}
	})
	reg(curve("HashToZr"), func(in *Interp, fr *frame, a []value) value {
		b, _ := a[1].([]value)
		d := in.hashSum(&HashObj{buf: b})
		return in.newZr(in.c.zMod(in.zrFromBytes(d)))
	})
	reg(curve("ModAdd"), func(in *Interp, fr *frame, a []value) value {
		if !in.isOrder(a[3]) {
			panic(unsupported("addition modulo another number"))
		}
		return in.newZr(in.c.zMod(in.c.zAdd(in.z(a[1]).v, in.z(a[2]).v)))
	})
	modNeg := func(in *Interp, x ZVal) ZVal {
		c := in.c
		r := c.zMod(x)
		if r.it != nil {
			return c.zTerm(c.Sub(c.Int(P), r.it))
		}
		z := ZVal{p: c.PNeg(r.p), lo: bigOne, hi: P}
		return z
	}
	reg(curve("ModNeg"), func(in *Interp, fr *frame, a []value) value {
		if !in.isOrder(a[2]) {
			panic(unsupported("negation modulo another number"))
		}
		z := modNeg(in, in.z(a[1]).v)
		if z.it == nil && !in.c.PZ(z.p).isTrue(in.c) {
			// non-zero values are reduced
			if in.branch(in.c.PZ(z.p)) {
				return in.newZr(in.c.zBig(P))
			}
			z = in.c.zRed(z.p)
		}
		return in.newZr(z)
	})
	reg(curve("ModSub"), func(in *Interp, fr *frame, a []value) value {
		if !in.isOrder(a[3]) {
			panic(unsupported("subtraction modulo another number"))
		}
		return in.newZr(in.c.zMod(in.c.zAdd(in.z(a[1]).v, modNeg(in, in.z(a[2]).v))))
	})
	reg(curve("ModMul"), func(in *Interp, fr *frame, a []value) value {
		if !in.isOrder(a[3]) {
			panic(unsupported("multiplication modulo another number"))
		}
		x, y := in.c.zMod(in.z(a[1]).v), in.c.zMod(in.z(a[2]).v)
		if x.it != nil && y.it != nil {
			return in.newZr(in.c.zTerm(in.c.Mul(x.it, y.it)))
		}
		hi := new(big.Int).Mul(pm1, pm1)
		return in.newZr(ZVal{p: in.c.PMul(x.p, y.p), lo: bigZero, hi: hi})
	})

	reg("github.com/IBM/mathlib/driver/common.BigToBytes", func(in *Interp, fr *frame, a []value) value {
		return in.zrBytes(in.zFromBig(in.big(a[0]).t))
	})
	reg("(*github.com/consensys/gnark-crypto/ecc/bn254/fr.Element).ToBigIntRegular", func(in *Interp, fr *frame, a []value) value {
		t := in.feRegular([]value((*(a[0].(*value))).(array)))
		o := in.big(a[1])
		in.jobj(o)
		o.t = t
		return o
	})
	reg("(github.com/consensys/gnark-crypto/ecc/bn254/fr.Element).ToBigIntRegular", func(in *Interp, fr *frame, a []value) value {
		t := in.feRegular([]value(a[0].(array)))
		o := in.big(a[1])
		in.jobj(o)
		o.t = t
		return o
	})

	// --- big integers ---
	reg("math/big.NewInt", func(in *Interp, fr *frame, a []value) value { return &BigObj{in.toTerm(a[0])} })
	set := func(in *Interp, o value, t *Term) value {
		b := in.big(o)
		in.jobj(b)
		b.t = t
		return b
	}
	bin := func(name string, f func(in *Interp, x, y *Term) *Term) {
		reg(bigm(name), func(in *Interp, fr *frame, a []value) value {
			return set(in, a[0], f(in, in.big(a[1]).t, in.big(a[2]).t))
		})
	}
	bin("Add", func(in *Interp, x, y *Term) *Term { return in.c.Add(x, y) })
	bin("Sub", func(in *Interp, x, y *Term) *Term { return in.c.Sub(x, y) })
	bin("Mul", func(in *Interp, x, y *Term) *Term { return in.c.Mul(x, y) })
	bin("Mod", func(in *Interp, x, y *Term) *Term { return in.c.Mod(x, in.divConst(x, y)) })
	bin("Div", func(in *Interp, x, y *Term) *Term { return in.c.Div(x, in.divConst(x, y)) })
	trunc := func(in *Interp, x, y *Term) (*Term, *Term) {
		k := in.divConst(x, y)
		if x.lo == nil || x.lo.Sign() < 0 {
			if in.branch(in.c.Lt(x, in.c.I(0))) {
				n := in.c.Neg(x)
				return in.c.Neg(in.c.Div(n, k)), in.c.Neg(in.c.Mod(n, k))
			}
		}
		return in.c.Div(x, k), in.c.Mod(x, k)
	}
	bin("Quo", func(in *Interp, x, y *Term) *Term { q, _ := trunc(in, x, y); return q })
	bin("Rem", func(in *Interp, x, y *Term) *Term { _, r := trunc(in, x, y); return r })
	reg(bigm("DivMod"), func(in *Interp, fr *frame, a []value) value {
		x, y := in.big(a[1]).t, in.big(a[2]).t
		k := in.divConst(x, y)
		q, r := in.c.Div(x, k), in.c.Mod(x, k)
		set(in, a[3], r)
		set(in, a[0], q)
		return tuple{a[0], a[3]}
	})
	reg(bigm("QuoRem"), func(in *Interp, fr *frame, a []value) value {
		q, r := trunc(in, in.big(a[1]).t, in.big(a[2]).t)
		set(in, a[3], r)
		set(in, a[0], q)
		return tuple{a[0], a[3]}
	})
	reg(bigm("Neg"), func(in *Interp, fr *frame, a []value) value { return set(in, a[0], in.c.Neg(in.big(a[1]).t)) })
	reg(bigm("Abs"), func(in *Interp, fr *frame, a []value) value {
		t := in.big(a[1]).t
		if in.branch(in.c.Lt(t, in.c.I(0))) {
			t = in.c.Neg(t)
		}
		return set(in, a[0], t)
	})
	reg(bigm("Set"), func(in *Interp, fr *frame, a []value) value { return set(in, a[0], in.big(a[1]).t) })
	reg(bigm("SetInt64"), func(in *Interp, fr *frame, a []value) value { return set(in, a[0], in.toTerm(a[1])) })
	reg(bigm("SetUint64"), func(in *Interp, fr *frame, a []value) value { return set(in, a[0], in.toTerm(a[1])) })
	reg(bigm("SetBytes"), func(in *Interp, fr *frame, a []value) value {
		b, _ := a[1].([]value)
		return set(in, a[0], in.zIt(in.zrFromBytes(b)))
	})
	reg(bigm("SetString"), func(in *Interp, fr *frame, a []value) value {
		t, ok := in.parseBig(a[1], int(in.cint(a[2])))
		if !ok {
			return tuple{(*value)(nil), false}
		}
		return tuple{set(in, a[0], t), true}
	})
	reg(bigm("Bytes"), func(in *Interp, fr *frame, a []value) value { return in.bigBytes(in.big(a[0]).t) })
	reg(bigm("FillBytes"), func(in *Interp, fr *frame, a []value) value {
		b := a[1].([]value)
		t := in.big(a[0]).t
		if in.branch(in.c.Lt(t, in.c.I(0))) {
			t = in.c.Neg(t)
		}
		if !in.branch(in.c.Lt(t, in.c.Int(new(big.Int).Lsh(bigOne, uint(8*len(b)))))) {
			in.goPanic("math/big: buffer too small to fit value")
		}
		for i, x := range in.termBytes(t, len(b)) {
			in.storeVal(&b[i], x)
		}
		return b
	})
	reg(bigm("Sign"), func(in *Interp, fr *frame, a []value) value { return in.sgn(in.big(a[0]).t) })
	reg(bigm("Cmp"), func(in *Interp, fr *frame, a []value) value {
		return in.sgn(in.c.Sub(in.big(a[0]).t, in.big(a[1]).t))
	})
	reg(bigm("CmpAbs"), func(in *Interp, fr *frame, a []value) value {
		x, y := in.big(a[0]).t, in.big(a[1]).t
		if in.branch(in.c.Lt(x, in.c.I(0))) {
			x = in.c.Neg(x)
		}
		if in.branch(in.c.Lt(y, in.c.I(0))) {
			y = in.c.Neg(y)
		}
		return in.sgn(in.c.Sub(x, y))
	})
	reg(bigm("Bit"), func(in *Interp, fr *frame, a []value) value {
		i := in.cint(a[1])
		t := in.big(a[0]).t
		return fromTerm(in.c.Mod(in.c.Div(t, new(big.Int).Lsh(bigOne, uint(i))), bigTwo), types.Typ[types.Uint])
	})
	reg(bigm("Rsh"), func(in *Interp, fr *frame, a []value) value {
		return set(in, a[0], in.c.Div(in.big(a[1]).t, new(big.Int).Lsh(bigOne, uint(in.cint(a[2])))))
	})
	reg(bigm("Lsh"), func(in *Interp, fr *frame, a []value) value {
		return set(in, a[0], in.c.Scale(in.big(a[1]).t, new(big.Int).Lsh(bigOne, uint(in.cint(a[2])))))
	})
	reg(bigm("And"), func(in *Interp, fr *frame, a []value) value {
		x, y := in.big(a[1]).t, in.big(a[2]).t
		if x.lo == nil || x.lo.Sign() < 0 || y.lo == nil || y.lo.Sign() < 0 {
			panic(unsupported("bitwise operation on negative integers"))
		}
		return set(in, a[0], in.c.BitOp("and", 256, x, y))
	})
	reg(bigm("Or"), func(in *Interp, fr *frame, a []value) value {
		x, y := in.big(a[1]).t, in.big(a[2]).t
		if x.lo == nil || x.lo.Sign() < 0 || y.lo == nil || y.lo.Sign() < 0 {
			panic(unsupported("bitwise operation on negative integers"))
		}
		return set(in, a[0], in.c.BitOp("or", 256, x, y))
	})
	reg(bigm("Exp"), func(in *Interp, fr *frame, a []value) value {
		x, y := in.big(a[1]).t, in.big(a[2]).t
		var m *big.Int
		if mo, ok := a[3].(*BigObj); ok && mo != nil {
			if !mo.t.isConst() {
				panic(unsupported("symbolic modulus"))
			}
			m = mo.t.k
		}
		if !x.isConst() {
			panic(unsupported("power of a symbolic integer"))
		}
		yk := in.concretize(y)
		if m == nil && yk.IsInt64() && yk.Int64()*int64(x.k.BitLen()) > 1<<22 {
			panic(unsupported("huge power"))
		}
		return set(in, a[0], in.c.Int(new(big.Int).Exp(x.k, yk, m)))
	})
	reg(bigm("ModInverse"), func(in *Interp, fr *frame, a []value) value {
		x, y := in.big(a[1]).t, in.big(a[2]).t
		if !x.isConst() || !y.isConst() {
			panic(unsupported("symbolic modular inverse"))
		}
		r := new(big.Int).ModInverse(x.k, y.k)
		if r == nil {
			return (*value)(nil)
		}
		return set(in, a[0], in.c.Int(r))
	})
	reg(bigm("Int64"), func(in *Interp, fr *frame, a []value) value {
		return fromTerm(in.c.wrap(in.big(a[0]).t, 64, true), types.Typ[types.Int64])
	})
	reg(bigm("Uint64"), func(in *Interp, fr *frame, a []value) value {
		return fromTerm(in.c.wrap(in.big(a[0]).t, 64, false), types.Typ[types.Uint64])
	})
	reg(bigm("IsInt64"), func(in *Interp, fr *frame, a []value) value {
		lo, hi := bound(64, true)
		t := in.big(a[0]).t
		return boolVal(in.c.And(in.c.Le(in.c.Int(lo), t), in.c.Le(t, in.c.Int(hi))))
	})
	reg(bigm("IsUint64"), func(in *Interp, fr *frame, a []value) value {
		lo, hi := bound(64, false)
		t := in.big(a[0]).t
		return boolVal(in.c.And(in.c.Le(in.c.Int(lo), t), in.c.Le(t, in.c.Int(hi))))
	})
	reg(bigm("BitLen"), func(in *Interp, fr *frame, a []value) value {
		t := in.big(a[0]).t
		if t.isConst() {
			return int64(t.k.BitLen())
		}
		if in.branch(in.c.Lt(t, in.c.I(0))) {
			t = in.c.Neg(t)
		}
		for n := 0; n < 520; n++ {
			if in.branch(in.c.Lt(t, in.c.Int(new(big.Int).Lsh(bigOne, uint(n))))) {
				return int64(n)
			}
		}
		panic(unsupported("bit length of an unbounded integer"))
	})
	txt := func(in *Interp, t *Term, base int) value {
		if t.isConst() {
			return t.k.Text(base)
		}
		panic(unsupported("text of a symbolic integer"))
	}
	reg(bigm("String"), func(in *Interp, fr *frame, a []value) value { return txt(in, in.big(a[0]).t, 10) })
	reg(bigm("Text"), func(in *Interp, fr *frame, a []value) value {
		return txt(in, in.big(a[0]).t, int(in.cint(a[1])))
	})

	// --- hashing and randomness ---
	newHash := func(in *Interp, fr *frame, a []value) value { return iface{hashType, &HashObj{}} }
	reg("crypto/sha256.New", newHash)
	reg("pol/zzverif/sha256.New", newHash)
	sum256 := func(in *Interp, fr *frame, a []value) value {
		b, _ := a[0].([]value)
		return array(in.hashSum(&HashObj{buf: b}))
	}
	reg("crypto/sha256.Sum256", sum256)
	newMac := func(in *Interp, fr *frame, a []value) value {
		k, _ := a[1].([]value)
		return iface{hashType, &HashObj{mac: true, key: append([]value{}, k...)}}
	}
	reg("crypto/hmac.New", newMac)
	hmEq := func(in *Interp, fr *frame, a []value) value {
		x, _ := a[0].([]value)
		y, _ := a[1].([]value)
		return boolVal(in.bytesEq(x, y))
	}
	reg("crypto/hmac.Equal", hmEq)
	reg("bytes.Equal", hmEq)
	reg("crypto/subtle.ConstantTimeCompare", func(in *Interp, fr *frame, a []value) value {
		x, _ := a[0].([]value)
		y, _ := a[1].([]value)
		return fromTerm(in.c.Ite(in.bytesEq(x, y), in.c.I(1), in.c.I(0)), types.Typ[types.Int])
	})
	reg("bytes.Compare", func(in *Interp, fr *frame, a []value) value {
		x, _ := a[0].([]value)
		y, _ := a[1].([]value)
		if in.branch(in.bytesEq(x, y)) {
			return int64(0)
		}
		bx, ok1 := concreteBytes(x)
		by, ok2 := concreteBytes(y)
		if ok1 && ok2 {
			return int64(strings.Compare(string(bx), string(by)))
		}
		return int64(1 - 2*in.choose(2))
	})
	// the assembly below strings and bytes, on concrete text
	text := func(v value) string {
		switch v := v.(type) {
		case []value:
			if b, ok := concreteBytes(v); ok {
				return string(b)
			}
		case string:
			return v
		}
		panic(unsupported("search in symbolic text"))
	}
	indexByte := func(in *Interp, fr *frame, a []value) value {
		bs, ok := a[0].([]value)
		if !ok {
			bs = strBytes(a[0])
		}
		for i, b := range bs {
			if in.branch(in.c.Eq(in.toTerm(b), in.toTerm(a[1]))) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	index := func(in *Interp, fr *frame, a []value) value {
		return int64(strings.Index(text(a[0]), text(a[1])))
	}
	count := func(in *Interp, fr *frame, a []value) value {
		n := int64(0)
		bs, ok := a[0].([]value)
		if !ok {
			bs = strBytes(a[0])
		}
		for _, b := range bs {
			if in.branch(in.c.Eq(in.toTerm(b), in.toTerm(a[1]))) {
				n++
			}
		}
		return n
	}
	for _, pkg := range []string{"internal/bytealg", "bytes", "strings"} {
		reg(pkg+".IndexByte", indexByte)
		reg(pkg+".Index", index)
	}
	reg("internal/bytealg.IndexByteString", indexByte)
	reg("internal/bytealg.IndexString", index)
	reg("internal/bytealg.Count", count)
	reg("internal/bytealg.CountString", count)
	reg("internal/bytealg.Equal", hmEq)
	reg("internal/bytealg.CompareString", func(in *Interp, fr *frame, a []value) value {
		return int64(strings.Compare(text(a[0]), text(a[1])))
	})
	reg("strings.Compare", func(in *Interp, fr *frame, a []value) value {
		return int64(strings.Compare(text(a[0]), text(a[1])))
	})
	reg("crypto/rand.Read", func(in *Interp, fr *frame, a []value) value { return in.randRead(a[0].([]value)) })
	reg("io.ReadFull", func(in *Interp, fr *frame, a []value) value { return in.randRead(a[1].([]value)) })

	// --- hex ---
	reg("encoding/hex.EncodeToString", func(in *Interp, fr *frame, a []value) value {
		b, _ := a[0].([]value)
		if bs, ok := concreteBytes(b); ok {
			return hex.EncodeToString(bs)
		}
		if in.opaque(b) {
			ch := in.c.asChunk(b)
			if ch == nil || (ch.kind != "sha" && ch.kind != "mac") {
				panic(unsupported("hexadecimal text of opaque bytes"))
			}
			// any number: what a digest is cannot be known
			return in.hexStr(in.c.IntVar("hexof:"+ch.key, bigZero, new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(8*ch.n)), bigOne)), 2*ch.n)
		}
		var out []value
		dig := func(t *Term) value {
			return fromTerm(in.c.Ite(in.c.Lt(t, in.c.I(10)), in.c.Add(t, in.c.I('0')), in.c.Add(t, in.c.I('a'-10))), types.Typ[types.Uint8])
		}
		for _, x := range b {
			t := in.toTerm(x)
			out = append(out, dig(in.c.Div(t, big.NewInt(16))), dig(in.c.Mod(t, big.NewInt(16))))
		}
		return mkStr(out)
	})

	// --- strconv ---
	number := func(signed bool) intrinsic {
		return func(in *Interp, fr *frame, a []value) value {
			c := in.c
			base, bits := 10, 64
			if len(a) == 3 {
				base, bits = int(in.cint(a[1])), int(in.cint(a[2]))
			}
			if bits == 0 {
				bits = 64
			}
			fail := func(z value, msg string) value {
				return tuple{z, iface{runtimeErrType, &ErrObj{msg: msg}}}
			}
			zero := value(uint64(0))
			if signed {
				zero = int64(0)
			}
			if cs, ok := a[0].(string); ok {
				if signed {
					x, err := strconv.ParseInt(cs, base, bits)
					if err != nil {
						return fail(x, err.Error())
					}
					return tuple{x, iface{}}
				}
				x, err := strconv.ParseUint(cs, base, bits)
				if err != nil {
					return fail(x, err.Error())
				}
				return tuple{x, iface{}}
			}
			bs := strBytes(a[0])
			if len(bs) == 0 {
				return fail(zero, "invalid syntax")
			}
			if !signed {
				for _, sign := range "+-" {
					if in.branch(c.Eq(in.toTerm(bs[0]), c.I(int64(sign)))) {
						return fail(zero, "invalid syntax")
					}
				}
			}
			t, ok := in.parseBig(a[0], base)
			if !ok {
				return fail(zero, "invalid syntax")
			}
			lo, hi := bigZero, new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(bits)), bigOne)
			typ := types.Typ[types.Uint64]
			if signed {
				lo = new(big.Int).Neg(new(big.Int).Lsh(bigOne, uint(bits-1)))
				hi = new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(bits-1)), bigOne)
				typ = types.Typ[types.Int64]
			}
			if in.branch(c.Lt(c.Int(hi), t)) {
				return fail(fromTerm(c.Int(hi), typ), "value out of range")
			}
			if in.branch(c.Lt(t, c.Int(lo))) {
				return fail(fromTerm(c.Int(lo), typ), "value out of range")
			}
			return tuple{fromTerm(t, typ), iface{}}
		}
	}
	reg("strconv.ParseUint", number(false))
	reg("strconv.ParseInt", number(true))
	reg("strconv.Atoi", number(true))
	format := func(in *Interp, fr *frame, a []value) value {
		base := 10
		if len(a) == 2 {
			base = int(in.cint(a[1]))
		}
		switch x := a[0].(type) {
		case uint64:
			return strconv.FormatUint(x, base)
		}
		return strconv.FormatInt(int64(in.cint(a[0])), base)
	}
	reg("strconv.Itoa", format)
	reg("strconv.FormatInt", format)
	reg("strconv.FormatUint", format)

	// --- formatting ---
	reg("fmt.Sprintf", func(in *Interp, fr *frame, a []value) value {
		args, _ := a[1].([]value)
		f, ok := a[0].(string)
		if !ok {
			panic(unsupported("symbolic format"))
		}
		if onlyPanics(fr) {
			return fmt.Sprintf(f, in.fmtArgs(args, false)...)
		}
		return in.sprintf(f, args)
	})
	reg("fmt.Errorf", func(in *Interp, fr *frame, a []value) value {
		args, _ := a[1].([]value)
		f, _ := a[0].(string)
		var wrap value
		wraps := strings.Contains(f, "%w")
		if wraps {
			f = strings.ReplaceAll(f, "%w", "%v")
			for _, x := range args {
				if i, ok := x.(iface); ok && i.t != nil {
					switch i.v.(type) {
					case *ErrObj, *value:
						wrap = x
					}
				}
			}
		}
		e := in.mkErr(fmt.Sprintf(f, in.fmtArgs(args, false)...), wrap)
		if i, ok := e.(iface); ok && wraps {
			// errors that wrap others have a concrete type of their own
			e = iface{wrapErrType, i.v}
		}
		return e
	})
	reg("fmt.Sprint", func(in *Interp, fr *frame, a []value) value {
		args, _ := a[0].([]value)
		return fmt.Sprint(in.fmtArgs(args, true)...)
	})
	for _, n := range []string{"Println", "Printf", "Print"} {
		reg("fmt."+n, func(in *Interp, fr *frame, a []value) value { return tuple{int64(0), iface{}} })
	}
	reg("github.com/pkg/errors.Errorf", intrinsics["fmt.Errorf"])

	// --- time and runtime ---
	reg("time.Now", func(in *Interp, fr *frame, a []value) value {
		return zero(in.prog.ImportedPackage("time").Type("Time").Type())
	})
	reg("time.Since", func(in *Interp, fr *frame, a []value) value { return int64(1) })
	reg("(time.Time).Sub", func(in *Interp, fr *frame, a []value) value { return int64(1) })
	reg("runtime.NumCPU", func(in *Interp, fr *frame, a []value) value { return int64(4) })
	reg("runtime.GOMAXPROCS", func(in *Interp, fr *frame, a []value) value { return int64(4) })
	reg("runtime.Gosched", func(in *Interp, fr *frame, a []value) value { in.yield(); return nil })
	reg("runtime.GC", func(in *Interp, fr *frame, a []value) value { return nil })
	reg("runtime.KeepAlive", func(in *Interp, fr *frame, a []value) value { return nil })

	// --- synchronization ---
	reg("(*sync.WaitGroup).Add", func(in *Interp, fr *frame, a []value) value {
		in.noMerge("sync")
		g := in.wg(a[0])
		in.release(g)
		g.n += in.cint(a[1])
		if g.n < 0 {
			panic(targetPanic{v: iface{runtimeErrType, &ErrObj{msg: "sync: negative WaitGroup counter"}}})
		}
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(in *Interp, fr *frame, a []value) value {
		in.noMerge("sync")
		g := in.wg(a[0])
		in.release(g)
		g.n--
		if g.n < 0 {
			panic(targetPanic{v: iface{runtimeErrType, &ErrObj{msg: "sync: negative WaitGroup counter"}}})
		}
		in.yield()
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(in *Interp, fr *frame, a []value) value {
		g := in.wg(a[0])
		in.block(func() bool { return g.n == 0 })
		in.acquire(g)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(in *Interp, fr *frame, a []value) value {
		in.noMerge("sync")
		g := in.wg(a[0])
		g.n++
		f := a[1]
		in.spawn(fr, &native{"wg.Go", func(in *Interp, _ []value) value {
			in.call(nil, f, nil)
			in.release(g)
			g.n--
			return nil
		}}, nil)
		return nil
	})
	lock := func(in *Interp, fr *frame, a []value) value {
		g := in.wg(a[0])
		in.yield()
		in.block(func() bool { return g.n == 0 && g.r == 0 })
		g.n = 1
		in.acquire(g)
		return nil
	}
	unlock := func(in *Interp, fr *frame, a []value) value {
		in.noMerge("sync")
		g := in.wg(a[0])
		if g.n == 0 {
			panic(abort{"crash", "fatal error: sync: unlock of unlocked mutex"})
		}
		g.n = 0
		in.release(g)
		in.yield()
		return nil
	}
	reg("(*sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.RWMutex).Lock", lock)
	reg("(*sync.RWMutex).Unlock", unlock)
	reg("(*sync.RWMutex).RLock", func(in *Interp, fr *frame, a []value) value {
		g := in.wg(a[0])
		in.block(func() bool { return g.n == 0 })
		g.r++
		in.acquire(g)
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(in *Interp, fr *frame, a []value) value {
		in.noMerge("sync")
		g := in.wg(a[0])
		g.r--
		in.release(g)
		return nil
	})
	astore := func(in *Interp, fr *frame, a []value) value {
		in.noMerge("atomic")
		g := in.wg(a[0])
		in.release(g)
		in.acquire(g)
		g.v, g.set = a[1], true
		in.yield()
		return nil
	}
	reg("(*sync/atomic.Value).Store", func(in *Interp, fr *frame, a []value) value {
		if i, ok := a[1].(iface); ok && i.t == nil {
			panic(targetPanic{v: iface{runtimeErrType, &ErrObj{msg: "sync/atomic: store of nil value into Value"}}})
		}
		g := in.wg(a[0])
		if o, ok := g.v.(iface); ok && g.set && !types.Identical(o.t, a[1].(iface).t) {
			panic(targetPanic{v: iface{runtimeErrType, &ErrObj{msg: "sync/atomic: store of inconsistently typed value into Value"}}})
		}
		return astore(in, fr, a)
	})
	reg("(*sync/atomic.Value).Load", func(in *Interp, fr *frame, a []value) value {
		in.noMerge("atomic")
		in.yield()
		g := in.wg(a[0])
		in.acquire(g)
		if !g.set {
			return iface{}
		}
		return g.v
	})
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Bool"} {
		ty := ty
		zv := func() value {
			switch ty {
			case "Bool":
				return false
			case "Int32", "Int64":
				return int64(0)
			}
			return uint64(0)
		}
		get := func(in *Interp, p value) *gsync {
			in.noMerge("atomic")
			g := in.wg(p)
			if !g.set {
				g.v, g.set = zv(), true
			}
			return g
		}
		m := func(n string) string { return "(*sync/atomic." + ty + ")." + n }
		reg(m("Load"), func(in *Interp, fr *frame, a []value) value {
			in.yield()
			g := get(in, a[0])
			in.acquire(g)
			return g.v
		})
		reg(m("Store"), astore)
		reg(m("Add"), func(in *Interp, fr *frame, a []value) value {
			g := get(in, a[0])
			in.release(g)
			in.acquire(g)
			switch x := g.v.(type) {
			case int64:
				g.v = x + in.cint(a[1])
			case uint64:
				g.v = x + uint64(in.cint(a[1]))
			}
			in.yield()
			return g.v
		})
		reg(m("CompareAndSwap"), func(in *Interp, fr *frame, a []value) value {
			g := get(in, a[0])
			in.release(g)
			in.acquire(g)
			ok := g.v == a[1]
			if ok {
				g.v = a[2]
			}
			in.yield()
			return ok
		})
		reg(m("Swap"), func(in *Interp, fr *frame, a []value) value {
			g := get(in, a[0])
			in.release(g)
			in.acquire(g)
			o := g.v
			g.v = a[1]
			return o
		})
		// the functions operate on the addressed cell
		if ty == "Bool" {
			continue
		}
		cell := func(in *Interp, p value) (*value, *gsync) {
			in.noMerge("atomic")
			g := in.wg(p)
			in.release(g)
			in.acquire(g)
			return p.(*value), g
		}
		reg("sync/atomic.Add"+ty, func(in *Interp, fr *frame, a []value) value {
			p, _ := cell(in, a[0])
			switch x := (*p).(type) {
			case int64:
				*p = x + in.cint(a[1])
			case uint64:
				*p = x + uint64(in.cint(a[1]))
			}
			in.yield()
			return *p
		})
		reg("sync/atomic.Load"+ty, func(in *Interp, fr *frame, a []value) value {
			in.yield()
			p, _ := cell(in, a[0])
			return *p
		})
		reg("sync/atomic.Store"+ty, func(in *Interp, fr *frame, a []value) value {
			p, _ := cell(in, a[0])
			*p = a[1]
			in.yield()
			return nil
		})
		reg("sync/atomic.CompareAndSwap"+ty, func(in *Interp, fr *frame, a []value) value {
			p, _ := cell(in, a[0])
			ok := *p == a[1]
			if ok {
				*p = a[2]
			}
			in.yield()
			return ok
		})
	}

	// --- math/bits ---
	lenN := func(w int) intrinsic {
		return func(in *Interp, fr *frame, a []value) value {
			t := in.toTerm(a[0])
			if t.isConst() {
				return int64(t.k.BitLen())
			}
			for n := 0; n <= w; n++ {
				if in.branch(in.c.Lt(t, in.c.Int(new(big.Int).Lsh(bigOne, uint(n))))) {
					return int64(n)
				}
			}
			return int64(w)
		}
	}
	reg("math/bits.Len", lenN(64))
	reg("math/bits.Len64", lenN(64))
	reg("math/bits.Len32", lenN(32))
	reg("math/bits.Len16", lenN(16))
	reg("math/bits.Len8", lenN(8))
	sub64 := func(in *Interp, fr *frame, a []value) value {
		x, ok1 := a[0].(uint64)
		y, ok2 := a[1].(uint64)
		b, ok3 := a[2].(uint64)
		if ok1 && ok2 && ok3 {
			d, bo := bits.Sub64(x, y, b)
			return tuple{d, bo}
		}
		c := in.c
		t := c.Sub(c.Sub(in.toTerm(a[0]), in.toTerm(a[1])), in.toTerm(a[2]))
		q := c.Div(t, new(big.Int).Lsh(bigOne, 64))
		u := types.Typ[types.Uint64]
		return tuple{fromTerm(c.Sub(t, c.Scale(q, new(big.Int).Lsh(bigOne, 64))), u), fromTerm(c.Neg(q), u)}
	}
	reg("math/bits.Sub64", sub64)
	add64 := func(in *Interp, fr *frame, a []value) value {
		c := in.c
		t := c.Add(c.Add(in.toTerm(a[0]), in.toTerm(a[1])), in.toTerm(a[2]))
		m := new(big.Int).Lsh(bigOne, 64)
		u := types.Typ[types.Uint64]
		return tuple{fromTerm(c.Mod(t, m), u), fromTerm(c.Div(t, m), u)}
	}
	reg("math/bits.Add64", add64)

	// --- asn1 ---
	reg("encoding/asn1.Marshal", func(in *Interp, fr *frame, a []value) value {
		i := a[0].(iface)
		b, err := in.derEncode(i.t, i.v)
		if err != "" {
			return tuple{[]value(nil), in.mkErr("asn1: "+err, nil)}
		}
		return tuple{b, iface{}}
	})
	reg("encoding/asn1.Unmarshal", func(in *Interp, fr *frame, a []value) value {
		b, _ := a[0].([]value)
		i := a[1].(iface)
		p, ok := i.v.(*value)
		if !ok || p == nil {
			panic(unsupported("unmarshalling into %T", i.v))
		}
		rest, err := in.derDecode(deref(i.t), p, b)
		if err != "" {
			return tuple{[]value(nil), in.mkErr("asn1: "+err, nil)}
		}
		return tuple{rest, iface{}}
	})
}

func (t *Term) isTrue(c *Ctx) bool { return t == c.t }

// opaque tells whether some byte belongs to an opaque serialization.
func (in *Interp) opaque(b []value) bool {
	for _, x := range b {
		if t, ok := x.(*Term); ok {
			if r, ok := in.c.byteRefs[t]; ok && !r.ch.open {
				return true
			}
		}
	}
	return false
}

func (in *Interp) sprintf(f string, args []value) value {
	// symbolic strings printed with %s keep their bytes
	sym := false
	for _, a := range args {
		if i, ok := a.(iface); ok {
			switch x := i.v.(type) {
			case *SymStr:
				sym = true
			case array, []value:
				if in.hexArg(i) != nil {
					sym = true
				}
			case *Term:
				sym = sym || strings.Contains(f, "%02x")
				_ = x
			}
		}
	}
	if !sym {
		return fmt.Sprintf(f, in.fmtArgs(args, true)...)
	}
	var out []value
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, uint64(f[i]))
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if f[j] == '%' {
			out = append(out, uint64('%'))
		} else {
			i0, _ := args[k].(iface)
			hexb := in.hexArg(i0)
			t, isTerm := i0.v.(*Term)
			if (f[j] == 'x' || f[j] == 'X') && i+1 == j && hexb != nil {
				out = append(out, strBytes(in.hexOf(hexb, f[j] == 'X'))...)
			} else if f[i:j+1] == "%02x" && isTerm && inRange(t, bigZero, big.NewInt(255)) {
				out = append(out, strBytes(in.hexOf([]value{fromTerm(t, types.Typ[types.Uint8])}, false))...)
			} else if s, ok := i0.v.(*SymStr); ok {
				if f[j] != 's' && f[j] != 'v' {
					panic(unsupported("format of a symbolic string"))
				}
				out = append(out, s.b...)
			} else {
				out = append(out, bytesVal([]byte(fmt.Sprintf(f[i:j+1], in.fmtArgs(args[k:k+1], true)...)))...)
			}
			k++
		}
		i = j
	}
	return mkStr(out)
}

// hexArg is the bytes of an argument that are not all concrete, or nil.
func (in *Interp) hexArg(i iface) []value {
	var b []value
	switch x := i.v.(type) {
	case array:
		if w, s, ok := intInfo(i.t.Underlying().(*types.Array).Elem()); ok && w == 8 && !s {
			b = []value(x)
		}
	case []value:
		if sl, ok := i.t.Underlying().(*types.Slice); ok {
			if w, s, ok := intInfo(sl.Elem()); ok && w == 8 && !s {
				b = x
			}
		}
	case *SymStr:
		b = x.b
	}
	if _, conc := concreteBytes(b); conc {
		return nil
	}
	return b
}

// hexOf is the hexadecimal text of bytes.
func (in *Interp) hexOf(b []value, upper bool) value {
	s := intrinsics["encoding/hex.EncodeToString"](in, nil, []value{b})
	if upper {
		panic(unsupported("upper-case hexadecimal text of symbolic bytes"))
	}
	return s
}

// feRegular models the conversion of a Montgomery element to its value: out*R = limbs (mod p).
func (in *Interp) feRegular(l []value) *Term {
	c := in.c
	conc := true
	for _, x := range l {
		if _, ok := x.(uint64); !ok {
			conc = false
		}
	}
	rInv := feInv(feFromBig(new(big.Int).Lsh(bigOne, 256)))
	if conc {
		n := new(big.Int)
		for i := 3; i >= 0; i-- {
			n.Lsh(n, 64)
			n.Or(n, new(big.Int).SetUint64(l[i].(uint64)))
		}
		return c.Int(feMul(feFromBig(n), rInv).Big())
	}
	t := c.I(0)
	for i := 3; i >= 0; i-- {
		t = c.Add(c.Scale(t, new(big.Int).Lsh(bigOne, 64)), in.toTerm(l[i]))
	}
	if in.termOpaque(t) {
		// a hash output: generic scalar identified by the limbs
		z := ZVal{p: c.PVarOf(fmt.Sprintf("fe%d", t.id), VTrans, nil), red: true, lo: bigZero, hi: pm1}
		return in.atom(z)
	}
	// v = t*R^-1 mod p, stated as v = k*t - q*p with the exact quotient
	v := c.IntVar(fmt.Sprintf("fe%d", t.id), bigZero, pm1)
	k := rInv.Big()
	q := c.Div(c.Scale(t, k), P)
	c.residue[v] = t
	in.addLit(c.Eq(v, c.Sub(c.Scale(t, k), c.Scale(q, P))), true)
	return v
}

// termOpaque: does the term depend on opaque bytes?
func (in *Interp) termOpaque(t *Term) bool {
	c := in.c
	if v, ok := c.opq[t]; ok {
		return v
	}
	r := false
	if ref, ok := c.byteRefs[t]; ok && !ref.ch.open {
		r = true
	}
	for _, a := range t.args {
		if r {
			break
		}
		r = in.termOpaque(a)
	}
	c.opq[t] = r
	return r
}

func (in *Interp) yield() {
	if len(in.gors) == 1 || in.jdepth > 0 || in.dying {
		return
	}
	if in.sched == 2 && in.preempt > 0 {
		others := 0
		for _, g := range in.gors {
			if g != in.cur && !g.done && (g.blocked == nil || g.blocked()) {
				others++
			}
		}
		if others > 0 && in.choose(2) == 1 {
			in.preempt--
			me := in.cur
			if in.next(me) {
				in.park(me)
			}
		}
	}
}
