package main

import (
	"fmt"
	"go/types"
	"math/big"
	"math/rand"
	"sort"
	"strings"
)

// ndVar is an input chosen by the environment.
type ndVar struct {
	name string
	kind string // zr int bool choice gen str
	t    *Term
	poly *Poly
	val  *big.Int // choices
}

// Violation is a candidate counterexample.
type Violation struct {
	Harness string            `json:"harness"`
	Params  map[string]int64  `json:"params,omitempty"`
	Msg     string            `json:"message"`
	Kind    string            `json:"kind"` // assert panic steps crash
	Assign  map[string]string `json:"assignment"`
	Path    []int             `json:"path,omitempty"`
	Native  string            `json:"native,omitempty"`
	NoModel bool              `json:"-"`
}

const ndPath = "pol/zzverif/nd."

func (in *Interp) ndAdd(v *ndVar) *ndVar {
	if o := in.ndIdx[v.name]; o != nil {
		if o.kind != v.kind || o.t != v.t {
			panic(unsupported("input %s declared twice", v.name))
		}
		return o
	}
	in.ndIdx[v.name] = v
	in.ndvars = append(in.ndvars, v)
	return v
}

func (in *Interp) ndStr(v value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported("symbolic name"))
	}
	return s
}

func (in *Interp) ndZr(name string) *ndVar {
	t := in.c.IntVar("z:"+name, bigZero, pm1)
	v := in.ndAdd(&ndVar{name: name, kind: "zr", t: t})
	if in.c.polyOf[t] == nil {
		in.c.polyOf[t] = in.c.PVarOf("z:"+name, VFree, t)
	}
	return v
}

// evaluation of terms under an assignment, modulo P for polynomials
type evaluator struct {
	in   *Interp
	vals map[string]*big.Int
	rnd  *rand.Rand
	memo map[*Term]*big.Int
	pv   map[int32]Fe
	deep int
}

func (e *evaluator) variable(t *Term) *big.Int {
	if v := e.vals[t.name]; v != nil {
		return v
	}
	if z, ok := e.in.c.atomOf[t]; ok {
		v := e.poly(z.p).Big()
		e.vals[t.name] = v
		return v
	}
	lo, hi := t.lo, t.hi
	if lo == nil {
		lo = new(big.Int).Neg(new(big.Int).Lsh(bigOne, 40))
	}
	if hi == nil {
		hi = new(big.Int).Lsh(bigOne, 40)
	}
	d := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
	var v *big.Int
	switch e.rnd.Intn(4) {
	case 0:
		v = new(big.Int).Set(lo)
	case 1:
		v = new(big.Int).Set(hi)
	case 2:
		v = new(big.Int).Add(lo, new(big.Int).Mod(big.NewInt(e.rnd.Int63n(5)), d))
	default:
		v = new(big.Int).Add(lo, new(big.Int).Rand(e.rnd, d))
	}
	e.vals[t.name] = v
	return v
}

func (e *evaluator) pvar(id int32) Fe {
	if v, ok := e.pv[id]; ok {
		return v
	}
	e.deep++
	defer func() { e.deep-- }()
	if e.deep > 200 {
		panic(unsupported("deep evaluation"))
	}
	var v Fe
	if s, ok := e.in.c.subst[id]; ok {
		v = e.poly(s)
		if t := e.in.c.vars[id].term; t != nil && t.op == OpVar {
			if e.vals[t.name] == nil {
				b := v.Big()
				if e.in.c.vars[id].class != VFree {
					b = v.SBig()
				}
				e.vals[t.name] = b
			}
		}
	} else if t := e.in.c.vars[id].term; t != nil {
		v = feFromBig(e.term(t))
	} else {
		v = feFromBig(new(big.Int).Rand(e.rnd, P))
	}
	e.pv[id] = v
	return v
}

func (e *evaluator) poly(p *Poly) Fe {
	r := feZero
	for i, m := range p.m {
		x := p.c[i]
		mi := e.in.c.monos[m]
		for j, v := range mi.vars {
			y := e.pvar(v)
			ex := mi.exps[j]
			if ex < 0 {
				y, ex = feInv(y), -ex
			}
			for ; ex > 0; ex-- {
				x = feMul(x, y)
			}
		}
		r = feAdd(r, x)
	}
	return r
}

func b2i(b bool) *big.Int {
	if b {
		return bigOne
	}
	return bigZero
}

func (e *evaluator) term(t *Term) *big.Int {
	if v := e.memo[t]; v != nil {
		return v
	}
	var r *big.Int
	switch t.op {
	case OpConst:
		r = t.k
	case OpTrue:
		r = bigOne
	case OpFalse:
		r = bigZero
	case OpVar:
		if p := e.in.c.polyOf[t]; p != nil && len(p.m) == 1 && len(e.in.c.monos[p.m[0]].vars) == 1 {
			id := e.in.c.monos[p.m[0]].vars[0]
			if _, ok := e.in.c.subst[id]; ok && e.vals[t.name] == nil {
				e.pvar(id)
			}
		}
		r = e.variable(t)
	case OpBVar:
		if e.vals[t.name] == nil {
			e.vals[t.name] = big.NewInt(int64(e.rnd.Intn(2)))
		}
		r = e.vals[t.name]
	case OpSum:
		r = new(big.Int).Set(t.k)
		for i, a := range t.args {
			r.Add(r, new(big.Int).Mul(t.coefs[i], e.term(a)))
		}
	case OpMul:
		r = new(big.Int).Mul(e.term(t.args[0]), e.term(t.args[1]))
	case OpDiv:
		r = floorDiv(e.term(t.args[0]), t.k)
	case OpMod:
		r = new(big.Int).Mod(e.term(t.args[0]), t.k)
	case OpIte:
		if e.term(t.args[0]).Sign() != 0 {
			r = e.term(t.args[1])
		} else {
			r = e.term(t.args[2])
		}
	case OpBit:
		r = new(big.Int)
		x, y := e.term(t.args[0]), e.term(t.args[1])
		switch t.name {
		case "and":
			r.And(x, y)
		case "or":
			r.Or(x, y)
		default:
			r.Xor(x, y)
		}
	case OpLe0:
		r = b2i(e.term(t.args[0]).Sign() <= 0)
	case OpEq0:
		r = b2i(e.term(t.args[0]).Sign() == 0)
	case OpPZ:
		r = b2i(e.poly(t.poly).IsZero())
	case OpNot:
		r = b2i(e.term(t.args[0]).Sign() == 0)
	case OpAnd:
		r = bigOne
		for _, a := range t.args {
			if e.term(a).Sign() == 0 {
				r = bigZero
			}
		}
	case OpOr:
		r = bigZero
		for _, a := range t.args {
			if e.term(a).Sign() != 0 {
				r = bigOne
			}
		}
	}
	e.memo[t] = r
	return r
}

// searchModel looks for an assignment of the inputs that satisfies the path and the extra conditions.
func (in *Interp) searchModel(extra ...*Term) map[string]*big.Int {
	lits := append(append([]*Term(nil), in.pc...), extra...)
	for try := 0; try < 400; try++ {
		e := &evaluator{in: in, vals: map[string]*big.Int{}, rnd: rand.New(rand.NewSource(int64(try))), memo: map[*Term]*big.Int{}, pv: map[int32]Fe{}}
		ok := true
		func() {
			defer func() {
				if recover() != nil {
					ok = false
				}
			}()
			for _, v := range in.ndvars {
				if v.t != nil {
					x := e.term(v.t)
					if (v.t.lo != nil && x.Cmp(v.t.lo) < 0) || (v.t.hi != nil && x.Cmp(v.t.hi) > 0) {
						ok = false
					}
				}
			}
			for _, l := range lits {
				if e.term(l).Sign() == 0 {
					ok = false
					return
				}
			}
		}()
		if ok {
			return e.vals
		}
	}
	return nil
}

// model returns an assignment for the path with extra conditions, or the verdict that there is none.
func (in *Interp) model(extra ...*Term) (Res, map[string]string) {
	var vars []*Term
	for _, v := range in.ndvars {
		if v.t != nil && !v.t.isConst() {
			vars = append(vars, v.t)
		}
	}
	r, m := in.s.Check(vars, extra...)
	if r == Unsat {
		return Unsat, nil
	}
	// generic quantities may make the integer model meaningless: prefer one that evaluates to true
	if s := in.searchModel(extra...); s != nil && (r != Sat || in.hasGeneric(extra)) {
		m, r = s, Sat
	} else if r == Unknown {
		return Unknown, nil
	}
	out := map[string]string{}
	for _, v := range in.ndvars {
		switch {
		case v.val != nil:
			out[v.name] = v.val.String()
		case v.t != nil && v.t.isConst():
			out[v.name] = v.t.k.String()
		case v.t != nil:
			if b := m[v.t.name]; b != nil {
				out[v.name] = b.String()
			}
		}
	}
	return Sat, out
}

func (in *Interp) hasGeneric(ts []*Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OpPZ {
			return true
		}
		if _, ok := in.c.atomOf[t]; ok {
			return true
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	for _, t := range append(append([]*Term(nil), in.pc...), ts...) {
		if walk(t) {
			return true
		}
	}
	return false
}

func (in *Interp) violate(kind, msg string, extra ...*Term) {
	r, m := in.model(extra...)
	switch r {
	case Unsat:
		return
	case Unknown:
		in.incon = append(in.incon, "undecided: "+msg)
		return
	}
	in.viols = append(in.viols, &Violation{Harness: in.w.job.Harness, Params: in.params, Kind: kind, Msg: msg, Assign: m, Path: append([]int(nil), in.decisions...)})
}

func (in *Interp) doAssert(b value, msg string) {
	in.asserts++
	switch b := b.(type) {
	case bool:
		if !b {
			in.violate("assert", msg)
			panic(abort{"stop", msg})
		}
		in.st.trivial++
		return
	case *Term:
		if k := in.known(b); k != nil && *k {
			in.st.trivial++
			return
		}
		n := len(in.viols)
		in.violate("assert", msg, in.c.Not(b))
		if len(in.viols) > n {
			panic(abort{"stop", msg})
		}
		in.addLit(b, true)
		return
	}
	panic(unsupported("assertion of %T", b))
}

func (in *Interp) doAssume(b value) {
	switch b := b.(type) {
	case bool:
		if !b {
			panic(abort{"infeasible", "assumption"})
		}
	case *Term:
		if k := in.known(b); k != nil {
			if !*k {
				panic(abort{"infeasible", "assumption"})
			}
			return
		}
		if len(in.decisions) >= len(in.prefix) {
			if r, _ := in.s.Check(nil, b); r == Unsat {
				panic(abort{"infeasible", "assumption"})
			}
		}
		in.addLit(b, true)
	}
}

type slot struct {
	p    *value
	kind string
	path string
	t    types.Type
}

// leaves enumerates the scalars, group elements, integers and byte strings of a data structure.
func (in *Interp) leaves(v value) []slot {
	var out []slot
	seen := map[*value]bool{}
	var walk func(t types.Type, p *value, path string)
	walk = func(t types.Type, p *value, path string) {
		switch typeName(deref(t)) {
		case mathlibPath + ".Zr":
			if z, ok := (*p).(*ZrObj); ok && z != nil {
				out = append(out, slot{p, "zr", path, t})
			}
			return
		case mathlibPath + ".G1":
			if z, ok := (*p).(*G1Obj); ok && z != nil {
				out = append(out, slot{p, "g1", path, t})
			}
			return
		case mathlibPath + ".G2":
			if z, ok := (*p).(*G2Obj); ok && z != nil {
				out = append(out, slot{p, "g2", path, t})
			}
			return
		case mathlibPath + ".Gt":
			if z, ok := (*p).(*GtObj); ok && z != nil {
				out = append(out, slot{p, "gt", path, t})
			}
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			q, ok := (*p).(*value)
			if !ok || q == nil || seen[q] {
				return
			}
			seen[q] = true
			walk(u.Elem(), q, path)
		case *types.Struct:
			s := (*p).(structure)
			name := ""
			if n, ok := t.(*types.Named); ok {
				name = n.Obj().Name()
			}
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type(), &s[i], path+"."+name+":"+u.Field(i).Name())
			}
		case *types.Slice:
			s, _ := (*p).([]value)
			for i := range s {
				walk(u.Elem(), &s[i], fmt.Sprintf("%s[%d]", path, i))
			}
		case *types.Array:
			s := (*p).(array)
			for i := range s {
				walk(u.Elem(), &s[i], fmt.Sprintf("%s[%d]", path, i))
			}
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				out = append(out, slot{p, "int", path, t})
			}
		}
	}
	i := v.(iface)
	cell := new(value)
	*cell = i.v
	walk(i.t, cell, "")
	return out
}

func (in *Interp) slots(a []value) []slot {
	all := in.leaves(a[0])
	skip := a[1].([]value)
	var out []slot
	for _, s := range all {
		ok := s.kind != "g2" && s.kind != "gt"
		for _, k := range skip {
			if strings.Contains(s.path, k.(string)) {
				ok = false
			}
		}
		if ok {
			out = append(out, s)
		}
	}
	return out
}

func (in *Interp) tamper(s slot, name string) {
	in.noMerge("tamper")
	c := in.c
	switch s.kind {
	case "zr":
		d := in.ndZr(name)
		in.doAssume(boolVal(c.Not(c.PZ(c.PTerm(d.t)))))
		in.store(s.p, &ZrObj{c.zMod(c.zAdd((*s.p).(*ZrObj).v, c.zTerm(d.t)))})
	case "g1":
		d := in.ndZr(name)
		in.doAssume(boolVal(c.Not(c.PZ(c.PTerm(d.t)))))
		in.store(s.p, &G1Obj{c.g1Add((*s.p).(*G1Obj).v, c.g1Mul(c.g1Base("ndG1:"+name), c.PTerm(d.t)), false)})
	case "int":
		w, sg, _ := intInfo(s.t)
		h := new(big.Int).Lsh(bigOne, uint(w-2))
		lo := new(big.Int).Neg(h)
		if !sg {
			lo = bigZero
		}
		t := c.IntVar("i:"+name, lo, h)
		in.ndAdd(&ndVar{name: name, kind: "int", t: t})
		in.doAssume(boolVal(c.Not(c.Eq(t, c.I(0)))))
		in.store(s.p, fromTerm(c.wrap(c.Add(in.toTerm(*s.p), t), w, sg), s.t))
	}
}

func init() {
	nd := func(n string, f intrinsic) { reg(ndPath+n, f) }
	nd("Zr", func(in *Interp, fr *frame, a []value) value {
		in.noMerge("input")
		v := in.ndZr(in.ndStr(a[0]))
		return in.newZr(in.c.zRed(in.c.PTerm(v.t)))
	})
	nd("Gen", func(in *Interp, fr *frame, a []value) value {
		in.noMerge("input")
		name := in.ndStr(a[0])
		in.ndAdd(&ndVar{name: name, kind: "gen"})
		return in.newZr(ZVal{p: in.c.PVarOf("gen:"+name, VTrans, nil), red: true, lo: bigZero, hi: pm1})
	})
	nd("G1", func(in *Interp, fr *frame, a []value) value {
		return &G1Obj{in.c.g1Base("ndG1:" + in.ndStr(a[0]))}
	})
	intv := func(ty types.Type) intrinsic {
		return func(in *Interp, fr *frame, a []value) value {
			in.noMerge("input")
			lo, hi := in.toTerm(a[1]).k, in.toTerm(a[2]).k
			name := in.ndStr(a[0])
			t := in.c.IntVar("i:"+name, lo, hi)
			in.ndAdd(&ndVar{name: name, kind: "int", t: t})
			return fromTerm(t, ty)
		}
	}
	nd("Int", intv(types.Typ[types.Int]))
	nd("Int64", intv(types.Typ[types.Int64]))
	nd("Uint64", intv(types.Typ[types.Uint64]))
	nd("Uint16", intv(types.Typ[types.Uint16]))
	nd("Uint8", intv(types.Typ[types.Uint8]))
	nd("ZrBits", func(in *Interp, fr *frame, a []value) value {
		in.noMerge("input")
		name := in.ndStr(a[0])
		k := int(in.cint(a[1]))
		top := in.branch(in.toTerm(a[2]))
		var ts []*Term
		var ks []*big.Int
		sum := new(big.Int)
		for i := 0; i < k; i++ {
			if top && i == k-1 {
				sum.SetBit(sum, i, 1)
				continue
			}
			n := fmt.Sprintf("%s.%d", name, i)
			t := in.c.IntVar("i:"+n, bigZero, bigOne)
			in.ndAdd(&ndVar{name: n, kind: "int", t: t})
			ts = append(ts, t)
			ks = append(ks, new(big.Int).Lsh(bigOne, uint(i)))
		}
		return in.newZr(in.c.zTerm(in.c.Lin(ts, ks, sum)))
	})
	nd("Bool", func(in *Interp, fr *frame, a []value) value {
		in.noMerge("input")
		name := in.ndStr(a[0])
		t := in.c.IntVar("i:"+name, bigZero, bigOne)
		in.ndAdd(&ndVar{name: name, kind: "int", t: t})
		return boolVal(in.c.Eq(t, in.c.I(1)))
	})
	nd("Choice", func(in *Interp, fr *frame, a []value) value {
		name := in.ndStr(a[0])
		n := int(in.cint(a[1]))
		k := in.choose(n)
		in.ndAdd(&ndVar{name: name, kind: "choice", val: big.NewInt(int64(k))})
		return int64(k)
	})
	str := func(in *Interp, a []value) []value {
		in.noMerge("input")
		name := in.ndStr(a[0])
		n := int(in.cint(a[1]))
		lo, hi := in.toTerm(a[2]).k, in.toTerm(a[3]).k
		var b []value
		for i := 0; i < n; i++ {
			nm := fmt.Sprintf("%s.%d", name, i)
			t := in.c.IntVar("i:"+nm, lo, hi)
			in.ndAdd(&ndVar{name: nm, kind: "int", t: t})
			b = append(b, fromTerm(t, types.Typ[types.Uint8]))
		}
		return b
	}
	nd("Str", func(in *Interp, fr *frame, a []value) value { return mkStr(str(in, a)) })
	nd("HexStr", func(in *Interp, fr *frame, a []value) value {
		n := int(in.cint(a[1]))
		hi := new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(4*n)), bigOne)
		name := in.ndStr(a[0])
		t := in.c.IntVar("i:"+name, bigZero, hi)
		in.ndAdd(&ndVar{name: name, kind: "int", t: t})
		return in.hexStr(t, n)
	})
	nd("Bytes", func(in *Interp, fr *frame, a []value) value {
		b := str(in, a)
		if b == nil {
			b = []value{}
		}
		return b
	})
	nd("Param", func(in *Interp, fr *frame, a []value) value {
		if v, ok := in.params[in.ndStr(a[0])]; ok {
			return v
		}
		return a[1]
	})
	nd("Assume", func(in *Interp, fr *frame, a []value) value {
		in.noMerge("assume")
		in.doAssume(a[0])
		return nil
	})
	nd("Assert", func(in *Interp, fr *frame, a []value) value {
		in.noMerge("assert")
		in.doAssert(a[0], in.show(a[1]))
		return nil
	})
	nd("Reach", func(in *Interp, fr *frame, a []value) value {
		in.noMerge("reach")
		in.reached[in.ndStr(a[0])] = true
		return nil
	})
	nd("Panics", func(in *Interp, fr *frame, a []value) (res value) {
		in.noMerge("panics")
		defer func() {
			if r := recover(); r != nil {
				if tp, ok := r.(targetPanic); ok {
					debugf("caught: %s", in.panicString(&tp))
					res = true
					return
				}
				panic(r)
			}
		}()
		in.call(fr, a[0], nil)
		return false
	})
	nd("Leaves", func(in *Interp, fr *frame, a []value) value { return int64(len(in.slots(a))) })
	nd("Tamper", func(in *Interp, fr *frame, a []value) value {
		i := in.cint(a[1])
		s := in.slots([]value{a[0], a[3]})[i]
		in.tamper(s, in.ndStr(a[2]))
		in.reached["tamper"+s.path] = true
		return s.path
	})
	nd("Changed", func(in *Interp, fr *frame, a []value) value {
		in.noMerge("changed")
		snap := func() map[string]interface{} {
			m := map[string]interface{}{}
			for i, r := range a[1].([]value) {
				for _, s := range in.leaves(r) {
					var v interface{}
					switch s.kind {
					case "zr":
						v = (*s.p).(*ZrObj).v.p
					case "g1":
						v = (*s.p).(*G1Obj).v
					case "g2":
						v = (*s.p).(*G2Obj).v
					case "gt":
						v = *(*s.p).(*GtObj)
					default:
						continue
					}
					m[fmt.Sprintf("%d%s", i, s.path)] = v
				}
			}
			return m
		}
		before := snap()
		in.call(fr, a[0], nil)
		after := snap()
		var ks []string
		for k := range before {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		c := in.c
		for _, k := range ks {
			var same *Term
			switch x := before[k].(type) {
			case *Poly:
				y, ok := after[k].(*Poly)
				if !ok {
					continue
				}
				if x == y {
					continue
				}
				same = c.PZ(c.PSub(x, y))
			case *G1V:
				y, ok := after[k].(*G1V)
				if !ok {
					continue
				}
				if x == y {
					continue
				}
				same = in.g1Eq(x, y)
			case GtObj:
				y, ok := after[k].(GtObj)
				if !ok {
					continue
				}
				if x == y {
					continue
				}
				same = c.And(in.g1IsZero(c.g1Add(x.m, y.m, true)), in.g1Eq(x.e, y.e))
			}
			if !in.branch(same) {
				return k
			}
		}
		return ""
	})
	nd("Shift", func(in *Interp, fr *frame, a []value) value {
		in.noMerge("shift")
		c := in.c
		s := in.slots([]value{a[0], a[3]})[in.cint(a[1])]
		t := in.z(a[2]).v
		switch s.kind {
		case "zr":
			in.store(s.p, &ZrObj{c.zMod(c.zAdd((*s.p).(*ZrObj).v, t))})
		case "g1":
			in.store(s.p, &G1Obj{c.g1Add((*s.p).(*G1Obj).v, c.g1Mul(c.g1Base("ndG1:shift"), t.p), false)})
		}
		return nil
	})
	nd("LeafPath", func(in *Interp, fr *frame, a []value) value {
		i := in.cint(a[1])
		return in.slots([]value{a[0], a[2]})[i].path
	})
	tracer := func(get func(in *Interp) [][]value) func(in *Interp, fr *frame, a []value) value {
		return func(in *Interp, fr *frame, a []value) value {
			in.noMerge("digest trace")
			old, oldC, oldT := in.trace, in.challenges, in.tracing
			in.trace, in.challenges, in.tracing = nil, nil, true
			in.call(fr, a[0], nil)
			out := []value{}
			for _, d := range get(in) {
				out = append(out, []value(d))
			}
			in.trace, in.challenges, in.tracing = old, oldC, oldT
			return out
		}
	}
	nd("Digests", tracer(func(in *Interp) [][]value { return in.trace }))
	nd("Challenges", tracer(func(in *Interp) [][]value { return in.challenges }))
	for _, n := range []string{"Stub", "Replace"} {
		nd(n, func(in *Interp, fr *frame, a []value) value {
			in.stubs[in.ndStr(a[0])] = a[1].(iface).v
			return nil
		})
	}
	nd("Sched", func(in *Interp, fr *frame, a []value) value {
		in.sched = int(in.cint(a[0]))
		in.preempt = int(in.cint(a[1]))
		return nil
	})
	nd("MapOrder", func(in *Interp, fr *frame, a []value) value {
		in.mapMode = int(in.cint(a[0]))
		return nil
	})
	nd("Race", func(in *Interp, fr *frame, a []value) value {
		in.raceOn = in.branch(in.toTerm(a[0]))
		return nil
	})
	nd("Races", func(in *Interp, fr *frame, a []value) value {
		var rs []string
		for r := range in.races {
			rs = append(rs, r)
		}
		sort.Strings(rs)
		if len(rs) > 4 {
			rs = rs[:4]
		}
		return strings.Join(rs, "; ")
	})
	nd("Native", func(in *Interp, fr *frame, a []value) value { return false })
	nd("MaxHashes", func(in *Interp, fr *frame, a []value) value {
		in.nhash, in.maxHashes = 0, int(in.cint(a[0]))
		return nil
	})
	nd("Note", func(in *Interp, fr *frame, a []value) value {
		in.notes[in.show(a[0])] = true
		return nil
	})
}
