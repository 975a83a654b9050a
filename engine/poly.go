package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// VClass classifies the variables of polynomials.
type VClass uint8

const (
	VTrans VClass = iota // generic: hash outputs, honest randomness, trapdoors
	VFree                // arbitrary scalar chosen by the environment
	VInt                 // integer term embedded in F_p
	VBit                 // integer term known to be 0 or 1
)

type PVar struct {
	name  string
	class VClass
	term  *Term // integer term (VFree: variable in [0,P))
}

type monoInfo struct {
	vars, exps []int32
	t, f       int32 // transcendental part and rest
}

// Poly is an immutable polynomial over F_p with integer exponents.
type Poly struct {
	m   []int32
	c   []Fe
	key string
}

type polyCtx struct {
	vars    []PVar
	varIdx  map[string]int32
	monos   []monoInfo
	monoIdx map[string]int32
	prod    map[uint64]int32
	pZero   *Poly
	pOne    *Poly
	subst   map[int32]*Poly
	ntrans  int
	polyOf  map[*Term]*Poly
	monoMul uint64
}

func (c *Ctx) initPoly() {
	c.varIdx = map[string]int32{}
	c.monoIdx = map[string]int32{}
	c.prod = map[uint64]int32{}
	c.polyOf = map[*Term]*Poly{}
	c.subst = map[int32]*Poly{}
	c.monos = append(c.monos, monoInfo{})
	c.monoIdx[""] = 0
	c.pZero = &Poly{}
	c.pOne = &Poly{m: []int32{0}, c: []Fe{feOne}}
}

func (p *Poly) IsZero() bool { return len(p.m) == 0 }
func (p *Poly) IsConst() bool {
	return len(p.m) == 0 || (len(p.m) == 1 && p.m[0] == 0)
}
func (p *Poly) Const() Fe {
	if len(p.m) == 0 {
		return feZero
	}
	return p.c[0]
}

// Key identifies the polynomial.
func (p *Poly) Key() string {
	if p.key != "" {
		return p.key
	}
	if len(p.m) <= 2 {
		var sb strings.Builder
		sb.WriteString("p")
		for i := range p.m {
			fmt.Fprintf(&sb, ",%d:%x", p.m[i], p.c[i][:])
		}
		p.key = sb.String()
		return p.key
	}
	h := sha256.New()
	var b [36]byte
	for i := range p.m {
		binary.LittleEndian.PutUint32(b[:], uint32(p.m[i]))
		for j := 0; j < 4; j++ {
			binary.LittleEndian.PutUint64(b[4+8*j:], p.c[i][j])
		}
		h.Write(b[:])
	}
	p.key = "P" + string(h.Sum(nil))
	return p.key
}

func (c *Ctx) mono(vars, exps []int32) int32 {
	b := make([]byte, 0, 8*len(vars))
	for i := range vars {
		b = binary.LittleEndian.AppendUint32(b, uint32(vars[i]))
		b = binary.LittleEndian.AppendUint32(b, uint32(exps[i]))
	}
	if id, ok := c.monoIdx[string(b)]; ok {
		return id
	}
	nt := 0
	for _, v := range vars {
		if c.vars[v].class == VTrans {
			nt++
		}
	}
	id := int32(len(c.monos))
	c.monos = append(c.monos, monoInfo{vars: vars, exps: exps})
	c.monoIdx[string(b)] = id
	switch {
	case nt == len(vars):
		c.monos[id].t, c.monos[id].f = id, 0
	case nt == 0:
		c.monos[id].t, c.monos[id].f = 0, id
	default:
		var tv, te, fv, fe []int32
		for i, v := range vars {
			if c.vars[v].class == VTrans {
				tv, te = append(tv, v), append(te, exps[i])
			} else {
				fv, fe = append(fv, v), append(fe, exps[i])
			}
		}
		t, f := c.mono(tv, te), c.mono(fv, fe)
		c.monos[id].t, c.monos[id].f = t, f
	}
	return id
}

func (c *Ctx) monoMulID(a, b int32) int32 {
	if a == 0 {
		return b
	}
	if b == 0 {
		return a
	}
	if a > b {
		a, b = b, a
	}
	k := uint64(a)<<32 | uint64(b)
	if r, ok := c.prod[k]; ok {
		return r
	}
	x, y := c.monos[a], c.monos[b]
	vars := make([]int32, 0, len(x.vars)+len(y.vars))
	exps := make([]int32, 0, len(x.vars)+len(y.vars))
	i, j := 0, 0
	for i < len(x.vars) || j < len(y.vars) {
		switch {
		case j == len(y.vars) || (i < len(x.vars) && x.vars[i] < y.vars[j]):
			vars, exps = append(vars, x.vars[i]), append(exps, x.exps[i])
			i++
		case i == len(x.vars) || y.vars[j] < x.vars[i]:
			vars, exps = append(vars, y.vars[j]), append(exps, y.exps[j])
			j++
		default:
			e := x.exps[i] + y.exps[j]
			if c.vars[x.vars[i]].class == VBit && e > 1 {
				e = 1
			}
			if e != 0 {
				vars, exps = append(vars, x.vars[i]), append(exps, e)
			}
			i++
			j++
		}
	}
	r := c.mono(vars, exps)
	if len(c.prod) > 6000000 {
		c.prod = map[uint64]int32{}
	}
	c.prod[k] = r
	return r
}

// PVarOf returns the polynomial of a variable.
func (c *Ctx) PVarOf(name string, class VClass, term *Term) *Poly {
	id, ok := c.varIdx[name]
	if !ok {
		id = int32(len(c.vars))
		c.vars = append(c.vars, PVar{name, class, term})
		c.varIdx[name] = id
	}
	return &Poly{m: []int32{c.mono([]int32{id}, []int32{1})}, c: []Fe{feOne}}
}

func (c *Ctx) PConst(f Fe) *Poly {
	if f.IsZero() {
		return c.pZero
	}
	return &Poly{m: []int32{0}, c: []Fe{f}}
}

func (c *Ctx) PAdd(a, b *Poly) *Poly { return c.padd(a, b, false) }
func (c *Ctx) PSub(a, b *Poly) *Poly { return c.padd(a, b, true) }

func (c *Ctx) padd(a, b *Poly, neg bool) *Poly {
	if b.IsZero() {
		return a
	}
	if a.IsZero() && !neg {
		return b
	}
	m := make([]int32, 0, len(a.m)+len(b.m))
	cc := make([]Fe, 0, len(a.m)+len(b.m))
	i, j := 0, 0
	if len(a.m) > 8*len(b.m) {
		// a few terms into many: the stretches between them are copied
		for j := range b.m {
			k := i + sort.Search(len(a.m)-i, func(k int) bool { return a.m[i+k] >= b.m[j] })
			m, cc = append(m, a.m[i:k]...), append(cc, a.c[i:k]...)
			i = k
			v := b.c[j]
			if neg {
				v = feNeg(v)
			}
			if i < len(a.m) && a.m[i] == b.m[j] {
				v = feAdd(a.c[i], v)
				i++
			}
			if !v.IsZero() {
				m, cc = append(m, b.m[j]), append(cc, v)
			}
		}
		return &Poly{m: append(m, a.m[i:]...), c: append(cc, a.c[i:]...)}
	}
	for i < len(a.m) || j < len(b.m) {
		switch {
		case j == len(b.m) || (i < len(a.m) && a.m[i] < b.m[j]):
			m, cc = append(m, a.m[i]), append(cc, a.c[i])
			i++
		case i == len(a.m) || b.m[j] < a.m[i]:
			v := b.c[j]
			if neg {
				v = feNeg(v)
			}
			m, cc = append(m, b.m[j]), append(cc, v)
			j++
		default:
			v := b.c[j]
			if neg {
				v = feNeg(v)
			}
			s := feAdd(a.c[i], v)
			if !s.IsZero() {
				m, cc = append(m, a.m[i]), append(cc, s)
			}
			i++
			j++
		}
	}
	return &Poly{m: m, c: cc}
}

func (c *Ctx) PScale(a *Poly, k Fe) *Poly {
	if k.IsZero() {
		return c.pZero
	}
	if k == feOne {
		return a
	}
	r := &Poly{m: a.m, c: make([]Fe, len(a.c))}
	for i := range a.c {
		r.c[i] = feMul(a.c[i], k)
	}
	return r
}

func (c *Ctx) PNeg(a *Poly) *Poly { return c.PScale(a, feMOne) }

func (c *Ctx) PMul(a, b *Poly) *Poly {
	if a.IsZero() || b.IsZero() {
		return c.pZero
	}
	if a.IsConst() {
		return c.PScale(b, a.c[0])
	}
	if b.IsConst() {
		return c.PScale(a, b.c[0])
	}
	if len(a.m) == 1 && len(b.m) == 1 {
		return &Poly{m: []int32{c.monoMulID(a.m[0], b.m[0])}, c: []Fe{feMul(a.c[0], b.c[0])}}
	}
	c.monoMul += uint64(len(a.m)) * uint64(len(b.m))
	if len(a.m)*len(b.m) > 12000000 {
		panic(unsupported("polynomial product is too large"))
	}
	acc := make(map[int32]Fe, len(a.m)+len(b.m))
	for i := range a.m {
		for j := range b.m {
			m := c.monoMulID(a.m[i], b.m[j])
			v := feMul(a.c[i], b.c[j])
			if o, ok := acc[m]; ok {
				v = feAdd(o, v)
			}
			acc[m] = v
		}
	}
	return fromAcc(acc)
}

func fromAcc(acc map[int32]Fe) *Poly {
	ms := make([]int32, 0, len(acc))
	for m, v := range acc {
		if !v.IsZero() {
			ms = append(ms, m)
		}
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i] < ms[j] })
	r := &Poly{m: ms, c: make([]Fe, len(ms))}
	for i, m := range ms {
		r.c[i] = acc[m]
	}
	return r
}

// PInv inverts a monomial of generic variables; other polynomials get a fresh generic inverse.
func (c *Ctx) PInv(a *Poly) *Poly {
	if a.IsZero() {
		return a
	}
	if len(a.m) == 1 {
		mi := c.monos[a.m[0]]
		if mi.f == 0 || a.m[0] == 0 {
			ex := make([]int32, len(mi.exps))
			for i := range ex {
				ex[i] = -mi.exps[i]
			}
			return &Poly{m: []int32{c.mono(mi.vars, ex)}, c: []Fe{feInv(a.c[0])}}
		}
	}
	panic(unsupported("inverse of a symbolic sum"))
}

func (c *Ctx) PPow(a *Poly, n int) *Poly {
	if len(a.m) == 1 && n > 0 {
		mi := c.monos[a.m[0]]
		ex := make([]int32, len(mi.exps))
		for i := range ex {
			ex[i] = mi.exps[i] * int32(n)
			if c.vars[mi.vars[i]].class == VBit {
				ex[i] = 1
			}
		}
		k := feOne
		b := a.c[0]
		for e := n; e > 0; e >>= 1 {
			if e&1 == 1 {
				k = feMul(k, b)
			}
			b = feMul(b, b)
		}
		return &Poly{m: []int32{c.mono(mi.vars, ex)}, c: []Fe{k}}
	}
	r := c.pOne
	for i := 0; i < n; i++ {
		r = c.PMul(r, a)
	}
	return r
}

// PTerm embeds an integer term.
func (c *Ctx) PTerm(t *Term) *Poly {
	if p := c.polyOf[t]; p != nil {
		return p
	}
	var p *Poly
	switch t.op {
	case OpConst:
		p = c.PConst(feFromBig(t.k))
	case OpSum:
		acc := map[int32]Fe{}
		if f := feFromBig(t.k); !f.IsZero() {
			acc[0] = f
		}
		for i, a := range t.args {
			q := c.PTerm(a)
			k := feFromBig(t.coefs[i])
			for j := range q.m {
				acc[q.m[j]] = feAdd(acc[q.m[j]], feMul(q.c[j], k))
			}
		}
		p = fromAcc(acc)
	case OpMul:
		p = c.PMul(c.PTerm(t.args[0]), c.PTerm(t.args[1]))
	default:
		cl := VInt
		if t.lo != nil && t.hi != nil && t.lo.Sign() == 0 && t.hi.Cmp(bigOne) == 0 {
			cl = VBit
		}
		n := t.name
		if t.op != OpVar {
			n = fmt.Sprintf("$t%d", t.id)
		}
		p = c.PVarOf(n, cl, t)
	}
	c.polyOf[t] = p
	return p
}

// Lift turns a linear polynomial in integer variables with small coefficients into an integer term.
func (c *Ctx) Lift(p *Poly) *Term {
	if len(p.m) > 4000 {
		return nil
	}
	ts := make([]*Term, 0, len(p.m))
	ks := make([]*big.Int, 0, len(p.m))
	k := new(big.Int)
	for i, m := range p.m {
		s := p.c[i].SBig()
		if s.BitLen() > 200 {
			return nil
		}
		if m == 0 {
			k = s
			continue
		}
		mi := &c.monos[m]
		if len(mi.vars) != 1 || mi.exps[0] != 1 {
			return nil
		}
		v := &c.vars[mi.vars[0]]
		if v.class != VInt && v.class != VBit {
			return nil
		}
		ts, ks = append(ts, v.term), append(ks, s)
	}
	return c.Lin(ts, ks, k)
}

// Norm applies the substitutions learnt on the current path.
func (c *Ctx) Norm(p *Poly) *Poly {
	if len(c.subst) == 0 {
		return p
	}
	hit := false
	for _, m := range p.m {
		for _, v := range c.monos[m].vars {
			if _, ok := c.subst[v]; ok {
				hit = true
			}
		}
	}
	if !hit {
		return p
	}
	r := c.pZero
	for i, m := range p.m {
		mi := c.monos[m]
		q := c.PConst(p.c[i])
		for j, v := range mi.vars {
			if s, ok := c.subst[v]; ok && mi.exps[j] > 0 {
				q = c.PMul(q, c.PPow(s, int(mi.exps[j])))
			} else {
				q = c.PMul(q, &Poly{m: []int32{c.mono([]int32{v}, []int32{mi.exps[j]})}, c: []Fe{feOne}})
			}
		}
		r = c.PAdd(r, q)
	}
	return c.Norm(r)
}

// Substitute replaces one variable.
func (c *Ctx) SubstVar(p *Poly, v int32, by *Poly) *Poly {
	old := c.subst
	c.subst = map[int32]*Poly{v: by}
	r := c.Norm(p)
	c.subst = old
	return r
}

// coefs splits q by its generic part; the result are the polynomials that all have to vanish.
func (c *Ctx) coefsByTrans(q *Poly) []*Poly {
	groups := map[int32]map[int32]Fe{}
	var order []int32
	for i, m := range q.m {
		mi := &c.monos[m]
		t, f := mi.t, mi.f
		if m == 0 {
			t, f = 0, 0
		}
		g := groups[t]
		if g == nil {
			g = map[int32]Fe{}
			groups[t] = g
			order = append(order, t)
		}
		g[f] = q.c[i]
	}
	var out []*Poly
	for _, t := range order {
		out = append(out, fromAcc(groups[t]))
	}
	return out
}

// ZeroConds are the conditions (over non-generic variables) under which q vanishes:
// nil, true means never; an empty list means always.
func (c *Ctx) ZeroConds(q *Poly) (conds []*Poly, never bool) {
	q = c.Norm(q)
	if q.IsZero() {
		return nil, false
	}
	seen := map[string]bool{}
	for _, p := range c.coefsByTrans(q) {
		if p.IsZero() {
			continue
		}
		if p.IsConst() {
			return nil, true
		}
		p = c.PScale(p, feInv(p.c[len(p.c)-1]))
		if !seen[p.Key()] {
			seen[p.Key()] = true
			conds = append(conds, p)
		}
	}
	return conds, false
}

// PZ is the boolean term q == 0.
func (c *Ctx) PZ(q *Poly) *Term {
	conds, never := c.ZeroConds(q)
	if never {
		return c.f
	}
	if len(conds) > 200 {
		conds = conds[:200]
	}
	out := c.t
	for _, p := range conds {
		a := c.pzAtom(p)
		if a == c.f {
			return a
		}
		out = c.And(out, a)
	}
	return out
}

func (c *Ctx) pzAtom(p *Poly) *Term {
	if len(p.m) == 1 {
		mi := c.monos[p.m[0]]
		out := c.f
		for i, v := range mi.vars {
			if mi.exps[i] < 0 {
				continue
			}
			pv := c.vars[v]
			if pv.class == VFree {
				q := &Poly{m: []int32{c.mono([]int32{v}, []int32{1})}, c: []Fe{feOne}}
				out = c.Or(out, c.mk(&Term{op: OpPZ, poly: q}))
			} else if inRange(pv.term, new(big.Int).Neg(pHalf), pHalf) {
				out = c.Or(out, c.eq0(pv.term))
			} else {
				out = c.Or(out, c.eq0(c.Mod(pv.term, P)))
			}
		}
		return out
	}
	lin := true
	for _, m := range p.m {
		if mi := c.monos[m]; len(mi.vars) > 1 || len(mi.vars) == 1 && (mi.exps[0] != 1 || c.vars[mi.vars[0]].term == nil) {
			lin = false
			break
		}
	}
	// try the integer reading with several scalings
	for i := len(p.c) - 1; i >= 0 && (i >= len(p.c)-3 || lin && len(p.c) <= 130); i-- {
		s := c.PScale(p, feInv(p.c[i]))
		if l := c.Lift(s); l != nil && l.lo != nil && l.hi != nil {
			if l.lo.Cmp(new(big.Int).Neg(P)) > 0 && l.hi.Cmp(P) < 0 {
				return c.eq0(l)
			}
		}
	}
	if debug {
		debugf("PZ atom %s", c.PString(p))
	}
	return c.mk(&Term{op: OpPZ, poly: p})
}

func (c *Ctx) PString(p *Poly) string {
	var s []string
	for i, m := range p.m {
		if i > 8 {
			s = append(s, fmt.Sprintf("...(%d terms)", len(p.m)))
			break
		}
		x := p.c[i].SBig().String()
		mi := c.monos[m]
		for j, v := range mi.vars {
			x += "*" + c.vars[v].name
			if mi.exps[j] != 1 {
				x += fmt.Sprintf("^%d", mi.exps[j])
			}
		}
		s = append(s, x)
	}
	return strings.Join(s, " + ")
}
