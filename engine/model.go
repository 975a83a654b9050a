package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ZVal is an integer held by a modelled scalar: p is its residue modulo the group order.
type ZVal struct {
	p      *Poly
	it     *Term // exact integer value when known as a term
	red    bool  // 0 <= value < P
	lo, hi *big.Int
	parts  *parts // value = sum of the canonical representatives of parts (unreduced sums)
}

// parts is a multiset of polynomials; a longer one may continue its array.
type parts struct {
	ps        []*Poly
	continued bool
	sorted    []*Poly
}

func (p *parts) list() []*Poly {
	if p == nil {
		return nil
	}
	if p.sorted == nil {
		p.sorted = append([]*Poly{}, p.ps...)
		sort.Slice(p.sorted, func(i, j int) bool { return p.sorted[i].Key() < p.sorted[j].Key() })
	}
	return p.sorted
}

func (p *parts) add(q *parts) *parts {
	if p.continued || cap(p.ps) == 0 {
		return &parts{ps: append(append(make([]*Poly, 0, len(p.ps)+len(q.ps)+2), p.ps...), q.ps...)}
	}
	p.continued = true
	return &parts{ps: append(p.ps, q.ps...)}
}

var pm1 = new(big.Int).Sub(P, bigOne)

func (c *Ctx) zTerm(t *Term) ZVal {
	z := ZVal{p: c.PTerm(t), it: t, lo: t.lo, hi: t.hi}
	z.red = inRange(t, bigZero, pm1)
	return z
}

func (c *Ctx) zBig(b *big.Int) ZVal { return c.zTerm(c.Int(b)) }

// zRed is the canonical representative of a residue.
func (c *Ctx) zRed(p *Poly) ZVal {
	p = c.Norm(p)
	if p.IsConst() {
		return c.zBig(p.Const().Big())
	}
	if l := c.Lift(p); l != nil && inRange(l, bigZero, pm1) {
		return ZVal{p: p, it: l, red: true, lo: l.lo, hi: l.hi}
	}
	z := ZVal{p: p, red: true, lo: bigZero, hi: pm1}
	// a single free variable is its own canonical representative
	if len(p.m) == 1 && p.c[0] == feOne {
		mi := c.monos[p.m[0]]
		if len(mi.vars) == 1 && mi.exps[0] == 1 && c.vars[mi.vars[0]].class == VFree {
			z.it = c.vars[mi.vars[0]].term
		}
	}
	return z
}

func (c *Ctx) zAdd(a, b ZVal) ZVal {
	z := ZVal{p: c.PAdd(a.p, b.p)}
	if a.it != nil && b.it != nil {
		t := c.Add(a.it, b.it)
		z.it, z.lo, z.hi = t, t.lo, t.hi
		z.red = inRange(t, bigZero, pm1)
		return z
	}
	if a.lo != nil && b.lo != nil {
		z.lo = new(big.Int).Add(a.lo, b.lo)
	}
	if a.hi != nil && b.hi != nil {
		z.hi = new(big.Int).Add(a.hi, b.hi)
	}
	pa, pb := a.getParts(), b.getParts()
	if pa != nil && pb != nil {
		z.parts = pa.add(pb)
	}
	return z
}

func (z ZVal) getParts() *parts {
	if z.parts != nil {
		return z.parts
	}
	if z.red {
		if len(z.p.m) == 0 {
			return &parts{}
		}
		return &parts{ps: []*Poly{z.p}}
	}
	return nil
}

func (c *Ctx) zMul(a, b ZVal) ZVal { return c.zRed(c.PMul(a.p, b.p)) }

// zMod reduces modulo the group order.
func (c *Ctx) zMod(a ZVal) ZVal {
	if a.red {
		return a
	}
	r := c.zRed(a.p)
	if r.it == nil && a.it != nil && !hasTransOrFree(c, a.p) {
		t := c.Mod(a.it, P)
		r.it, r.lo, r.hi = t, t.lo, t.hi
	}
	return r
}

func hasTransOrFree(c *Ctx, p *Poly) bool {
	for _, m := range p.m {
		for _, v := range c.monos[m].vars {
			if c.vars[v].class == VTrans || c.vars[v].class == VFree {
				return true
			}
		}
	}
	return false
}

func (in *Interp) zEq(a, b ZVal) *Term {
	c := in.c
	if a.it != nil && b.it != nil {
		return c.Eq(a.it, b.it)
	}
	r := c.PZ(c.PSub(a.p, b.p))
	if r == c.f || (a.red && b.red) {
		return r
	}
	pa, pb := a.getParts(), b.getParts()
	if pa != nil && pb != nil && len(pa.ps) == len(pb.ps) {
		same := true
		for i := range pa.ps {
			if pa.list()[i].Key() != pb.list()[i].Key() {
				same = false
			}
		}
		if same {
			return c.t
		}
	}
	// equal residues, unknown number of wraps
	in.nfresh++
	return c.And(r, c.BVar(fmt.Sprintf("wrap#%d", in.nfresh)))
}

// G1V is a group element: a linear combination of independent bases.
type G1V struct {
	b []int32
	p []*Poly
	// another value continues the arrays of this one
	continued bool
}

var g1zero = &G1V{}

func (c *Ctx) base(name string) int32 {
	if id, ok := c.baseIdx[name]; ok {
		return id
	}
	id := int32(len(c.bases))
	c.bases = append(c.bases, name)
	c.baseIdx[name] = id
	return id
}

func (c *Ctx) g1Base(name string) *G1V {
	return &G1V{b: []int32{c.base(name)}, p: []*Poly{c.pOne}}
}

func (c *Ctx) g1Add(x, y *G1V, sub bool) *G1V {
	if n := len(x.b); n > 16 && !x.continued && (len(y.b) == 0 || x.b[n-1] < y.b[0]) {
		// long sums are made by appending
		x.continued = true
		r := &G1V{b: append(x.b, y.b...), p: append(x.p, y.p...)}
		if sub {
			for i := range y.p {
				r.p[n+i] = c.PNeg(y.p[i])
			}
		}
		return r
	}
	r := &G1V{b: make([]int32, 0, len(x.b)+len(y.b)), p: make([]*Poly, 0, len(x.b)+len(y.b))}
	i, j := 0, 0
	for i < len(x.b) || j < len(y.b) {
		switch {
		case j == len(y.b) || (i < len(x.b) && x.b[i] < y.b[j]):
			r.b, r.p = append(r.b, x.b[i]), append(r.p, x.p[i])
			i++
		case i == len(x.b) || y.b[j] < x.b[i]:
			q := y.p[j]
			if sub {
				q = c.PNeg(q)
			}
			r.b, r.p = append(r.b, y.b[j]), append(r.p, q)
			j++
		default:
			q := c.padd(x.p[i], y.p[j], sub)
			if !q.IsZero() {
				r.b, r.p = append(r.b, x.b[i]), append(r.p, q)
			}
			i++
			j++
		}
	}
	return r
}

func (c *Ctx) g1Mul(x *G1V, s *Poly) *G1V {
	if s.IsZero() {
		return g1zero
	}
	if s.IsConst() && s.c[0] == feOne {
		return x
	}
	r := &G1V{b: make([]int32, 0, len(x.b)), p: make([]*Poly, 0, len(x.b))}
	for i := range x.b {
		q := c.PMul(x.p[i], s)
		if !q.IsZero() {
			r.b, r.p = append(r.b, x.b[i]), append(r.p, q)
		}
	}
	return r
}

func (c *Ctx) g1Norm(x *G1V) *G1V {
	if len(c.subst) == 0 {
		return x
	}
	r := &G1V{}
	for i := range x.b {
		q := c.Norm(x.p[i])
		if !q.IsZero() {
			r.b, r.p = append(r.b, x.b[i]), append(r.p, q)
		}
	}
	return r
}

func (c *Ctx) g1Key(x *G1V) string {
	x = c.g1Norm(x)
	var sb strings.Builder
	for i := range x.b {
		fmt.Fprintf(&sb, ";%d:%s", x.b[i], x.p[i].Key())
	}
	return sb.String()
}

// g1IsZero is the condition under which x is the identity.
func (in *Interp) g1IsZero(x *G1V) *Term {
	c := in.c
	out := c.t
	for i := range x.b {
		t := c.PZ(x.p[i])
		if t == c.f {
			return t
		}
		out = c.And(out, t)
		if i > 600 {
			break
		}
	}
	return out
}

func (in *Interp) g1Eq(x, y *G1V) *Term {
	in.st.groupEqs++
	d := in.c.g1Add(x, y, true)
	r := in.g1IsZero(d)
	in.recordIdentity(x, y, r)
	return r
}

// Chunk is an opaque byte string: the serialization of a modelled object.
type Chunk struct {
	id    int
	kind  string // g1 g2 gt zr sha mac rnd
	n     int
	open  bool // the bytes are real terms
	obj   interface{}
	key   string
	bytes []value
}

type byteRef struct {
	ch *Chunk
	i  int
}

func (c *Ctx) chunk(kind, key string, n int, obj interface{}) *Chunk {
	k := kind + "|" + key
	if ch := c.chunks[k]; ch != nil {
		return ch
	}
	ch := &Chunk{id: len(c.chunks), kind: kind, n: n, obj: obj, key: k}
	c.chunks[k] = ch
	for i := 0; i < n; i++ {
		t := c.IntVar(fmt.Sprintf("%s%d.%d", kind, ch.id, i), bigZero, big.NewInt(255))
		c.byteRefs[t] = byteRef{ch, i}
		ch.bytes = append(ch.bytes, t)
	}
	return ch
}

// asChunk recognizes a complete serialization.
func (c *Ctx) asChunk(b []value) *Chunk {
	if len(b) == 0 {
		return nil
	}
	t, ok := b[0].(*Term)
	if !ok {
		return nil
	}
	r, ok := c.byteRefs[t]
	if !ok || r.i != 0 || r.ch.n != len(b) {
		return nil
	}
	for i := range b {
		if b[i] != r.ch.bytes[i] {
			return nil
		}
	}
	return r.ch
}

func (in *Interp) g1Bytes(x *G1V) []value {
	c := in.c
	x = c.g1Norm(x)
	if len(x.b) == 0 {
		// gnark serializes the point at infinity as zeros
		b := make([]byte, 64)
		return bytesVal(b)
	}
	return append([]value(nil), c.chunk("g1", c.g1Key(x), 64, x).bytes...)
}

func (in *Interp) zrBytes(z ZVal) []value {
	c := in.c
	if z.it != nil && len(c.subst) > 0 && z.red {
		z = c.zRed(z.p)
	}
	if z.it != nil && z.it.isConst() {
		b := z.it.k
		if b.Sign() < 0 || b.BitLen() > 256 {
			if b.Sign() < 0 {
				m := new(big.Int).Add(new(big.Int).Lsh(bigOne, 256), b)
				if m.Sign() <= 0 {
					panic(unsupported("bytes of a large negative scalar"))
				}
				return bytesVal(m.FillBytes(make([]byte, 32)))
			}
			in.goPanic("scalar does not fit 32 bytes")
		}
		return bytesVal(b.FillBytes(make([]byte, 32)))
	}
	max := new(big.Int).Lsh(bigOne, 256)
	if z.it != nil {
		if o, ok := c.atomOf[z.it]; ok {
			z = o
		}
	}
	if z.it != nil {
		if in.branch(c.Lt(z.it, c.I(0))) {
			z = c.zTerm(c.Add(z.it, c.Int(max)))
		}
		if !inRange(z.it, bigZero, new(big.Int).Sub(max, bigOne)) && !in.branch(c.Lt(z.it, c.Int(max))) {
			in.goPanic("scalar does not fit 32 bytes")
		}
		return in.termBytes(z.it, 32)
	}
	if z.lo == nil || z.lo.Sign() < 0 || z.hi == nil || z.hi.Cmp(max) >= 0 {
		panic(unsupported("bytes of an unreduced scalar"))
	}
	key := "r"
	if !z.red {
		key = "u" + z.lo.String() + ":" + z.hi.String()
		for _, p := range z.parts.list() {
			key += p.Key()
		}
	}
	p := c.Norm(z.p)
	return append([]value(nil), c.chunk("zr", key+p.Key(), 32, z).bytes...)
}

func (in *Interp) zrFromBytes(b []value) ZVal {
	c := in.c
	if bs, ok := concreteBytes(b); ok {
		return c.zBig(new(big.Int).SetBytes(bs))
	}
	if ch := c.asChunk(b); ch != nil {
		switch ch.kind {
		case "zr":
			return ch.obj.(ZVal)
		case "sha", "mac", "rnd":
			// an opaque 256-bit number
			t := c.PVarOf("num"+ch.key, VTrans, nil)
			z := ZVal{p: t, lo: bigZero, hi: new(big.Int).Lsh(bigOne, uint(8*ch.n))}
			return z
		}
	}
	return in.zFromBig(c.expand(in.bytesTerm(b)))
}

// bytesTerm is the big-endian number.
func (in *Interp) bytesTerm(b []value) *Term {
	c := in.c
	if len(b) >= 8 {
		if t := c.byteVecs[byteKey(b)]; t != nil {
			return t
		}
	}
	ts := make([]*Term, len(b))
	ks := make([]*big.Int, len(b))
	for i, x := range b {
		t := in.toTerm(x)
		if _, op := c.byteRefs[t]; op {
			panic(unsupported("arithmetic on opaque bytes"))
		}
		ts[i] = t
		ks[i] = new(big.Int).Lsh(bigOne, uint(8*(len(b)-1-i)))
	}
	return c.Lin(ts, ks, bigZero)
}

func (in *Interp) gtAdd(x, y *GtObj) (m, e *G1V) {
	return in.c.g1Add(x.m, y.m, false), in.c.g1Add(x.e, y.e, false)
}
