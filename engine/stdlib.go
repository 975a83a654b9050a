package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"
	"unicode"
)

// Models of standard-library functions that the code under test does not use today but that an edit of it may:
// they keep an edited tree decidable.

// method returns the callable that implements a method of a dynamic value, or nil.
func (in *Interp) method(recv iface, name string) value {
	if recv.t == nil {
		in.goPanic("invalid memory address or nil pointer dereference")
	}
	switch recv.v.(type) {
	case *HashObj:
		switch name {
		case "Write", "WriteString", "Sum", "Reset", "Size", "BlockSize":
			return in.modelMethod(recv, name)
		}
		return nil
	case *ErrObj:
		switch name {
		case "Error", "Unwrap":
			return in.modelMethod(recv, name)
		}
		return nil
	case *RandObj:
		return nil
	}
	ms := in.prog.MethodSets.MethodSet(recv.t)
	for i := 0; i < ms.Len(); i++ {
		if o := ms.At(i).Obj(); o.Name() == name && o.Exported() {
			if fn := in.prog.MethodValue(ms.At(i)); fn != nil {
				return fn
			}
		}
	}
	return nil
}

func isFile(t types.Type) bool { return t != nil && t.String() == "*os.File" }

// write sends bytes to an io.Writer.
func (in *Interp) write(fr *frame, w value, b []value) value {
	i, ok := w.(iface)
	if !ok {
		panic(unsupported("writer %T", w))
	}
	if isFile(i.t) {
		return tuple{int64(len(b)), iface{}}
	}
	m := in.method(i, "Write")
	if m == nil {
		panic(unsupported("writer %v", i.t))
	}
	return in.call(fr, m, []value{i.v, append([]value{}, b...)})
}

func (in *Interp) lessSwap(fr *frame, x value, less value) {
	s, ok := x.(iface).v.([]value)
	if !ok {
		panic(unsupported("sort of %T", x.(iface).v))
	}
	in.noMerge("sort")
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			r := in.call(fr, less, []value{int64(j), int64(j - 1)})
			b, ok := r.(bool)
			if !ok {
				b = in.branch(r.(*Term))
			}
			if !b {
				break
			}
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func (in *Interp) errUnwrap(fr *frame, e iface) (iface, bool) {
	m := in.method(e, "Unwrap")
	if m == nil {
		return iface{}, false
	}
	u, ok := in.call(fr, m, []value{e.v}).(iface)
	return u, ok && u.t != nil
}

func (g *gsync) table() *hmap {
	if g.v == nil {
		g.v = &hmap{idx: map[interface{}]int{}}
	}
	return g.v.(*hmap)
}

func init() {
	reg := func(n string, f intrinsic) { intrinsics[n] = f }
	reg("internal/abi.NoEscape", func(in *Interp, fr *frame, a []value) value { return a[0] })
	reg("internal/abi.Escape", func(in *Interp, fr *frame, a []value) value { return a[0] })
	reg("internal/bytealg.MakeNoZero", func(in *Interp, fr *frame, a []value) value {
		s := make([]value, in.cint(a[0]))
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	})
	reg("(*strings.Builder).copyCheck", func(in *Interp, fr *frame, a []value) value { return nil })
	reg("(*strings.Builder).String", func(in *Interp, fr *frame, a []value) value {
		st, ok := in.load(a[0], in.prog.ImportedPackage("strings").Type("Builder").Type()).(structure)
		if !ok {
			panic(unsupported("strings.Builder"))
		}
		b, _ := st[1].([]value)
		return mkStr(append([]value{}, b...))
	})
	reg("io.WriteString", func(in *Interp, fr *frame, a []value) value {
		w := a[0].(iface)
		if !isFile(w.t) {
			if m := in.method(w, "WriteString"); m != nil {
				return in.call(fr, m, []value{w.v, a[1]})
			}
		}
		return in.write(fr, w, strBytes(a[1]))
	})

	// --- formatted output to a writer ---
	sprint := func(f func(...interface{}) string) func(in *Interp, args value) value {
		return func(in *Interp, args value) value {
			x, _ := args.([]value)
			return f(in.fmtArgs(x, true)...)
		}
	}
	for n, f := range map[string]func(...interface{}) string{"Fprint": fmt.Sprint, "Fprintln": fmt.Sprintln} {
		f := sprint(f)
		reg("fmt."+n, func(in *Interp, fr *frame, a []value) value {
			if isFile(a[0].(iface).t) {
				return tuple{int64(0), iface{}}
			}
			return in.write(fr, a[0], strBytes(f(in, a[1])))
		})
	}
	reg("fmt.Sprintln", func(in *Interp, fr *frame, a []value) value { return sprint(fmt.Sprintln)(in, a[0]) })
	reg("fmt.Fprintf", func(in *Interp, fr *frame, a []value) value {
		if isFile(a[0].(iface).t) {
			return tuple{int64(0), iface{}}
		}
		return in.write(fr, a[0], strBytes(intrinsics["fmt.Sprintf"](in, fr, a[1:])))
	})
	reg("fmt.Appendf", func(in *Interp, fr *frame, a []value) value {
		pre, _ := a[0].([]value)
		return in.appendSlice(pre, strBytes(intrinsics["fmt.Sprintf"](in, fr, a[1:])), types.Typ[types.Uint8])
	})
	for _, n := range []string{"Println", "Printf", "Print"} {
		reg("log."+n, func(in *Interp, fr *frame, a []value) value { return nil })
	}

	// --- sorting ---
	for _, n := range []string{"sort.Slice", "sort.SliceStable"} {
		reg(n, func(in *Interp, fr *frame, a []value) value { in.lessSwap(fr, a[0], a[1]); return nil })
	}

	// --- errors ---
	reg("errors.Is", func(in *Interp, fr *frame, a []value) value {
		e, _ := a[0].(iface)
		t, _ := a[1].(iface)
		for e.t != nil {
			r := in.eqValue(types.Universe.Lookup("error").Type(), e, t)
			if b, ok := r.(bool); ok && b || !ok && in.branch(r.(*Term)) {
				return true
			}
			if m := in.method(e, "Is"); m != nil {
				if b, _ := in.call(fr, m, []value{e.v, t}).(bool); b {
					return true
				}
			}
			u, ok := in.errUnwrap(fr, e)
			if !ok {
				return false
			}
			e = u
		}
		return t.t == nil
	})
	reg("errors.Unwrap", func(in *Interp, fr *frame, a []value) value {
		e, _ := a[0].(iface)
		if e.t == nil {
			return iface{}
		}
		u, ok := in.errUnwrap(fr, e)
		if !ok {
			return iface{}
		}
		return u
	})

	// --- synchronisation ---
	reg("(*sync.Once).Do", func(in *Interp, fr *frame, a []value) value {
		in.noMerge("sync")
		g := in.wg(a[0])
		in.once(fr, g, func() { in.call(fr, a[1], nil) })
		return nil
	})
	for _, n := range []string{"sync.OnceFunc", "sync.OnceValue", "sync.OnceValues"} {
		reg(n, func(in *Interp, fr *frame, a []value) value {
			f, g := a[0], &gsync{vc: map[int]int{}}
			return &native{"sync.Once", func(in *Interp, _ []value) value {
				in.noMerge("sync")
				in.once(nil, g, func() { g.v = in.call(nil, f, nil) })
				return g.v
			}}
		})
	}
	enter := func(in *Interp, p value) *gsync {
		in.noMerge("sync")
		g := in.wg(p)
		in.yield()
		in.acquire(g)
		return g
	}
	smap := func(n string) string { return "(*sync.Map)." + n }
	load := func(in *Interp, t *hmap, k value) (value, bool) {
		i, ok := in.mapFind(t, k)
		if !ok {
			return iface{}, false
		}
		return t.vals[i], true
	}
	reg(smap("Load"), func(in *Interp, fr *frame, a []value) value {
		v, ok := load(in, enter(in, a[0]).table(), a[1])
		return tuple{v, ok}
	})
	reg(smap("Store"), func(in *Interp, fr *frame, a []value) value {
		g := enter(in, a[0])
		in.mapSet(g.table(), a[1], a[2])
		in.release(g)
		return nil
	})
	reg(smap("Swap"), func(in *Interp, fr *frame, a []value) value {
		g := enter(in, a[0])
		v, ok := load(in, g.table(), a[1])
		in.mapSet(g.table(), a[1], a[2])
		in.release(g)
		return tuple{v, ok}
	})
	reg(smap("LoadOrStore"), func(in *Interp, fr *frame, a []value) value {
		g := enter(in, a[0])
		v, ok := load(in, g.table(), a[1])
		if ok {
			return tuple{v, true}
		}
		in.mapSet(g.table(), a[1], a[2])
		in.release(g)
		return tuple{a[2], false}
	})
	reg(smap("LoadAndDelete"), func(in *Interp, fr *frame, a []value) value {
		g := enter(in, a[0])
		v, ok := load(in, g.table(), a[1])
		in.mapDel(g.table(), a[1])
		in.release(g)
		return tuple{v, ok}
	})
	reg(smap("Delete"), func(in *Interp, fr *frame, a []value) value {
		g := enter(in, a[0])
		in.mapDel(g.table(), a[1])
		in.release(g)
		return nil
	})
	reg(smap("Range"), func(in *Interp, fr *frame, a []value) value {
		t := enter(in, a[0]).table()
		for i := 0; i < len(t.keys); i++ {
			if t.dead[i] {
				continue
			}
			r := in.call(fr, a[1], []value{t.keys[i], t.vals[i]})
			if b, ok := r.(bool); ok && !b || !ok && !in.branch(r.(*Term)) {
				break
			}
		}
		return nil
	})
	// A pool hands out the object put last, as the real one does to a goroutine that stays where it is.
	reg("(*sync.Pool).Get", func(in *Interp, fr *frame, a []value) value {
		g := enter(in, a[0])
		if l, _ := g.v.([]value); len(l) > 0 {
			g.v = l[:len(l)-1]
			return l[len(l)-1]
		}
		st, _ := in.load(a[0], in.prog.ImportedPackage("sync").Type("Pool").Type()).(structure)
		if st == nil || isNil(st[len(st)-1]) {
			return iface{}
		}
		return in.call(fr, st[len(st)-1], nil)
	})
	reg("(*sync.Pool).Put", func(in *Interp, fr *frame, a []value) value {
		g := enter(in, a[0])
		if i, ok := a[1].(iface); ok && i.t == nil {
			return nil
		}
		l, _ := g.v.([]value)
		g.v = append(append([]value{}, l...), a[1])
		in.release(g)
		return nil
	})

	// --- floating point ---
	for n, f := range map[string]func(float64) float64{"Log2": math.Log2, "Log": math.Log, "Log10": math.Log10, "Ceil": math.Ceil, "Floor": math.Floor, "Sqrt": math.Sqrt, "Round": math.Round, "Exp": math.Exp, "Exp2": math.Exp2, "Abs": math.Abs, "Trunc": math.Trunc} {
		f := f
		reg("math."+n, func(in *Interp, fr *frame, a []value) value {
			x, ok := a[0].(float64)
			if !ok {
				panic(unsupported("symbolic floating point"))
			}
			return f(x)
		})
	}
	for n, f := range map[string]func(x, y float64) float64{"Pow": math.Pow, "Max": math.Max, "Min": math.Min, "Mod": math.Mod} {
		f := f
		reg("math."+n, func(in *Interp, fr *frame, a []value) value {
			x, ok := a[0].(float64)
			y, ok2 := a[1].(float64)
			if !ok || !ok2 {
				panic(unsupported("symbolic floating point"))
			}
			return f(x, y)
		})
	}
	reg("strings.Clone", func(in *Interp, fr *frame, a []value) value { return a[0] })
	// classes of characters
	for n, f := range map[string]func(rune) bool{"IsSpace": unicode.IsSpace, "IsDigit": unicode.IsDigit, "IsNumber": unicode.IsNumber,
		"IsLetter": unicode.IsLetter, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsPunct": unicode.IsPunct,
		"IsControl": unicode.IsControl, "IsPrint": unicode.IsPrint, "IsGraphic": unicode.IsGraphic} {
		f := f
		reg("unicode."+n, func(in *Interp, fr *frame, a []value) value {
			t := in.toTerm(a[0])
			if t.isConst() {
				return f(rune(t.k.Int64()))
			}
			c := in.c
			top := 0x10FFFF
			if inRange(t, bigZero, big.NewInt(255)) {
				top = 255
			} else if !in.branch(c.And(c.Le(c.I(0), t), c.Le(t, c.I(int64(top))))) {
				return false
			}
			out := c.f
			for lo := 0; lo <= top; lo++ {
				if !f(rune(lo)) {
					continue
				}
				hi := lo
				for hi < top && f(rune(hi+1)) {
					hi++
				}
				out = c.Or(out, c.And(c.Le(c.I(int64(lo)), t), c.Le(t, c.I(int64(hi)))))
				lo = hi
			}
			return fromTerm(out, types.Typ[types.Bool])
		})
	}
	decode := func(in *Interp, fr *frame, a []value) value {
		b, ok := a[0].([]value)
		if !ok && a[0] != nil {
			b = strBytes(a[0])
		}
		r, w := in.decodeRune(b)
		return tuple{r, int64(w)}
	}
	reg("unicode/utf8.DecodeRune", decode)
	reg("unicode/utf8.DecodeRuneInString", decode)
	for _, f := range []string{"ToUpper", "ToLower"} {
		f := f
		reg("strings."+f, func(in *Interp, fr *frame, a []value) value {
			s, ok := a[0].(string)
			if !ok {
				c := in.c
				out := append([]value(nil), strBytes(a[0])...)
				ascii := c.t
				for _, b := range out {
					ascii = c.And(ascii, c.Le(in.toTerm(b), c.I(127)))
				}
				if !in.branch(ascii) {
					panic(unsupported("case of a symbolic string that is not ASCII"))
				}
				lo, hi, d := int64('A'), int64('Z'), int64(32)
				if f == "ToUpper" {
					lo, hi, d = 'a', 'z', -32
				}
				for i, b := range out {
					t := in.toTerm(b)
					out[i] = fromTerm(c.Ite(c.And(c.Le(c.I(lo), t), c.Le(t, c.I(hi))), c.Add(t, c.I(d)), t), types.Typ[types.Uint8])
				}
				return mkStr(out)
			}
			if f == "ToUpper" {
				return strings.ToUpper(s)
			}
			return strings.ToLower(s)
		})
	}
}

// once runs f the first time; later callers wait until it is done.
func (in *Interp) once(fr *frame, g *gsync, f func()) {
	if g.once {
		in.block(func() bool { return g.set })
		in.acquire(g)
		return
	}
	g.once = true
	defer func() {
		g.set = true
		in.release(g)
	}()
	f()
}
