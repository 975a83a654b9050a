package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Op is the operator of a Term.
type Op uint8

const (
	OpConst Op = iota // integer constant
	OpVar             // integer variable with interval
	OpSum             // k + sum coefs[i]*args[i]
	OpMul             // args[0]*args[1]
	OpDiv             // floor(args[0] / k), k > 0
	OpMod             // args[0] mod k, k > 0
	OpIte             // args[0] ? args[1] : args[2]  (integer)
	OpBit             // bitwise operation `name` of width k on non-negative args
	OpTrue
	OpFalse
	OpBVar // boolean variable
	OpLe0  // args[0] <= 0
	OpEq0  // args[0] == 0
	OpPZ   // poly == 0 in F_p
	OpNot
	OpAnd
	OpOr
)

// Term is a hash-consed integer or boolean term.
type Term struct {
	id     int
	op     Op
	args   []*Term
	coefs  []*big.Int
	k      *big.Int
	name   string
	lo, hi *big.Int // interval of integer terms, nil when unbounded
	poly   *Poly
	neg    *Term
	digits bool
	ranged bool
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isBool() bool  { return t.op >= OpTrue }

// Ctx owns the terms and polynomials of one worker.
type Ctx struct {
	terms      map[string]*Term
	nterm      int
	t, f       *Term
	consts     map[string]*Term
	expanded   map[*Term]*Term
	noContract int
	polyCtx
	bases    []string
	baseIdx  map[string]int32
	chunks   map[string]*Chunk
	byteRefs map[*Term]byteRef
	atoms    map[string]*Term
	residue  map[*Term]*Term // v -> t where v = t/2^256 mod p
	atomOf   map[*Term]ZVal
	opq      map[*Term]bool
	gen      map[*Term]bool
	byteVecs map[string]*Term
	hexVecs  map[string]*Term
	mlVals   map[int32]*G1V
}

func NewCtx() *Ctx {
	c := &Ctx{terms: map[string]*Term{}, consts: map[string]*Term{}, expanded: map[*Term]*Term{}, baseIdx: map[string]int32{}, chunks: map[string]*Chunk{}, byteRefs: map[*Term]byteRef{}, atoms: map[string]*Term{}, residue: map[*Term]*Term{}, atomOf: map[*Term]ZVal{}, opq: map[*Term]bool{}, gen: map[*Term]bool{}, byteVecs: map[string]*Term{}, hexVecs: map[string]*Term{}, mlVals: map[int32]*G1V{}}
	c.t = c.mk(&Term{op: OpTrue})
	c.f = c.mk(&Term{op: OpFalse})
	c.t.neg, c.f.neg = c.f, c.t
	c.initPoly()
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|", t.op, t.name)
	if t.k != nil {
		sb.WriteString(t.k.Text(36))
	}
	for i, a := range t.args {
		fmt.Fprintf(&sb, "|%d", a.id)
		if t.coefs != nil {
			sb.WriteByte('*')
			sb.WriteString(t.coefs[i].Text(36))
		}
	}
	if t.poly != nil {
		sb.WriteString(t.poly.Key())
	}
	key := sb.String()
	if o := c.terms[key]; o != nil {
		return o
	}
	t.id = c.nterm
	c.nterm++
	c.terms[key] = t
	return t
}

func (c *Ctx) Int(b *big.Int) *Term {
	if b.IsInt64() || true {
		s := b.String()
		if t := c.consts[s]; t != nil {
			return t
		}
		v := new(big.Int).Set(b)
		t := c.mk(&Term{op: OpConst, k: v})
		t.lo, t.hi = v, v
		c.consts[s] = t
		return t
	}
	return nil
}

func (c *Ctx) I(i int64) *Term { return c.Int(big.NewInt(i)) }

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.t
	}
	return c.f
}

// IntVar declares an integer variable lo <= v <= hi.
func (c *Ctx) IntVar(name string, lo, hi *big.Int) *Term {
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return c.Int(lo)
	}
	same := func(a, b *big.Int) bool { return a == b || a != nil && b != nil && a.Cmp(b) == 0 }
	for {
		t := c.mk(&Term{op: OpVar, name: name})
		if !t.ranged {
			t.lo, t.hi, t.ranged = lo, hi, true
		}
		if same(t.lo, lo) && same(t.hi, hi) {
			return t
		}
		// another variable: terms derived from this one rely on its range
		name += "'"
	}
}

func (c *Ctx) BVar(name string) *Term { return c.mk(&Term{op: OpBVar, name: name}) }

type lin struct {
	m map[*Term]*big.Int
	k *big.Int
}

func newLin() *lin { return &lin{map[*Term]*big.Int{}, new(big.Int)} }

func (l *lin) add(t *Term, s *big.Int) {
	if s.Sign() == 0 {
		return
	}
	switch t.op {
	case OpConst:
		l.k.Add(l.k, new(big.Int).Mul(t.k, s))
	case OpSum:
		l.k.Add(l.k, new(big.Int).Mul(t.k, s))
		for i, a := range t.args {
			l.add1(a, new(big.Int).Mul(t.coefs[i], s))
		}
	default:
		l.add1(t, s)
	}
}

func (l *lin) add1(t *Term, s *big.Int) {
	if o := l.m[t]; o != nil {
		n := new(big.Int).Add(o, s)
		if n.Sign() == 0 {
			delete(l.m, t)
		} else {
			l.m[t] = n
		}
		return
	}
	l.m[t] = new(big.Int).Set(s)
}

func (c *Ctx) fromLin(l *lin) *Term {
	if len(l.m) == 0 {
		return c.Int(l.k)
	}
	if len(l.m) == 1 && l.k.Sign() == 0 {
		for t, s := range l.m {
			if s.Cmp(bigOne) == 0 {
				return t
			}
		}
	}
	if c.noContract == 0 && c.contract(l) {
		return c.fromLin(l)
	}
	args := make([]*Term, 0, len(l.m))
	for t := range l.m {
		args = append(args, t)
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	coefs := make([]*big.Int, len(args))
	lo, hi := new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	for i, a := range args {
		s := l.m[a]
		coefs[i] = s
		al, ah := a.lo, a.hi
		if s.Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil && al != nil {
			lo.Add(lo, new(big.Int).Mul(s, al))
		} else {
			lo = nil
		}
		if hi != nil && ah != nil {
			hi.Add(hi, new(big.Int).Mul(s, ah))
		} else {
			hi = nil
		}
	}
	t := c.mk(&Term{op: OpSum, args: args, coefs: coefs, k: l.k})
	if t.lo == nil {
		t.lo = lo
	}
	if t.hi == nil {
		t.hi = hi
	}
	return t
}

// contract replaces x - k*(x div k) by x mod k.
func (c *Ctx) contract(l *lin) bool {
	var divs []*Term
	for t := range l.m {
		if t.op == OpDiv {
			divs = append(divs, t)
		}
	}
	if len(divs) == 0 || len(l.m)+len(divs) < 2 {
		return false
	}
	sort.Slice(divs, func(i, j int) bool { return divs[i].id < divs[j].id })
	for _, d := range divs {
		m := l.m[d]
		// x = y div j, d = y div (j*k)
		for _, e := range divs {
			q, r := new(big.Int).QuoRem(d.k, e.k, new(big.Int))
			if e == d || r.Sign() != 0 || q.Cmp(bigOne) <= 0 {
				continue
			}
			// the arguments may differ by a multiple of j
			diff := c.Sub(d.args[0], e.args[0])
			if !diff.isConst() {
				continue
			}
			dq, dr := new(big.Int).QuoRem(diff.k, e.k, new(big.Int))
			if dr.Sign() != 0 {
				continue
			}
			a := l.m[e]
			if new(big.Int).Add(new(big.Int).Mul(a, q), m).Sign() == 0 {
				delete(l.m, d)
				delete(l.m, e)
				l.add(c.Mod(c.Add(e, c.Int(dq)), q), a)
				l.k.Sub(l.k, new(big.Int).Mul(a, dq))
				return true
			}
		}
		x := d.args[0]
		a, r := new(big.Int).QuoRem(new(big.Int).Neg(m), d.k, new(big.Int))
		if r.Sign() != 0 {
			continue
		}
		ok := true
		if x.op == OpSum {
			for i, y := range x.args {
				if o := l.m[y]; o == nil || o.Cmp(new(big.Int).Mul(a, x.coefs[i])) != 0 {
					ok = false
					break
				}
			}
		} else {
			o := l.m[x]
			ok = o != nil && o.Cmp(a) == 0
		}
		if ok {
			delete(l.m, d)
			l.add(x, new(big.Int).Neg(a))
			l.add(c.Mod(x, d.k), a)
			return true
		}
	}
	return false
}

func (c *Ctx) Lin(ts []*Term, ks []*big.Int, k *big.Int) *Term {
	l := newLin()
	l.k.Set(k)
	for i := range ts {
		l.add(ts[i], ks[i])
	}
	return c.fromLin(l)
}

func (c *Ctx) Add(a, b *Term) *Term {
	l := newLin()
	l.add(a, bigOne)
	l.add(b, bigOne)
	return c.fromLin(l)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	l := newLin()
	l.add(a, bigOne)
	l.add(b, big.NewInt(-1))
	return c.fromLin(l)
}

func (c *Ctx) Scale(a *Term, k *big.Int) *Term {
	l := newLin()
	l.add(a, k)
	return c.fromLin(l)
}

func (c *Ctx) Neg(a *Term) *Term { return c.Scale(a, big.NewInt(-1)) }

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() {
		return c.Scale(b, a.k)
	}
	if b.isConst() {
		return c.Scale(a, b.k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := c.mk(&Term{op: OpMul, args: []*Term{a, b}})
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		for i, x := range []*big.Int{a.lo, a.hi} {
			for j, y := range []*big.Int{b.lo, b.hi} {
				p := new(big.Int).Mul(x, y)
				if i+j == 0 || p.Cmp(t.lo) < 0 {
					t.lo = p
				}
				if i+j == 0 || p.Cmp(t.hi) > 0 {
					t.hi = p
				}
			}
		}
	}
	return t
}

func floorDiv(a, k *big.Int) *big.Int { return new(big.Int).Div(a, k) } // k > 0: Euclidean = floor

// split writes a = k*q + r with the coefficients of r in [0,k).
func (c *Ctx) split(a *Term, k *big.Int) (q, r *Term) {
	lq, lr := newLin(), newLin()
	part := func(t *Term, s *big.Int) {
		m := new(big.Int)
		d := new(big.Int)
		d.DivMod(s, k, m)
		if t == nil {
			lq.k.Add(lq.k, d)
			lr.k.Add(lr.k, m)
			return
		}
		if s.Sign() < 0 { // keep the sign: quotient truncated
			d.QuoRem(s, k, m)
		}
		lq.add(t, d)
		lr.add(t, m)
	}
	switch a.op {
	case OpConst:
		part(nil, a.k)
	case OpSum:
		part(nil, a.k)
		for i, t := range a.args {
			part(t, a.coefs[i])
		}
	default:
		part(a, bigOne)
	}
	q, r = c.fromLin(lq), c.fromLin(lr)
	if r.lo != nil && r.hi != nil {
		a, b := floorDiv(r.lo, k), floorDiv(r.hi, k)
		if a.Cmp(b) == 0 && a.Sign() != 0 {
			q = c.Add(q, c.Int(a))
			r = c.Sub(r, c.Int(new(big.Int).Mul(a, k)))
		}
	}
	return
}

// splitExact writes a = k*q + r where q has the parts that are multiples of k.
func (c *Ctx) splitExact(a *Term, k *big.Int) (q, r *Term) {
	if a.op != OpSum {
		return c.I(0), a
	}
	lq, lr := newLin(), newLin()
	d, m := new(big.Int).DivMod(a.k, k, new(big.Int))
	lq.k.Set(d)
	lr.k.Set(m)
	for i, t := range a.args {
		d, m := new(big.Int).DivMod(a.coefs[i], k, new(big.Int))
		if m.Sign() == 0 {
			lq.add(t, d)
		} else {
			lr.add(t, a.coefs[i])
		}
	}
	return c.fromLin(lq), c.fromLin(lr)
}

func inRange(t *Term, lo, hi *big.Int) bool {
	return t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0
}

// Div is the floor division by a positive constant.
func (c *Ctx) Div(a *Term, k *big.Int) *Term {
	if k.Sign() <= 0 {
		panic(unsupported("division by a non-positive constant"))
	}
	if k.Cmp(bigOne) == 0 {
		return a
	}
	if a.isConst() {
		return c.Int(floorDiv(a.k, k))
	}
	q, r := c.split(a, k)
	km1 := new(big.Int).Sub(k, bigOne)
	if inRange(r, bigZero, km1) {
		return q
	}
	q, r = c.splitExact(a, k)
	var d *Term
	if r.op == OpDiv {
		d = c.Div(r.args[0], new(big.Int).Mul(r.k, k))
	} else if r.op == OpSum && len(r.args) == 1 && r.args[0].op == OpDiv && r.coefs[0].Cmp(bigOne) == 0 {
		// floor((floor(x/j)+b)/k) = floor((x+b*j)/(j*k))
		x := r.args[0]
		d = c.Div(c.Add(x.args[0], c.Int(new(big.Int).Mul(r.k, x.k))), new(big.Int).Mul(x.k, k))
	} else {
		d = c.mk(&Term{op: OpDiv, args: []*Term{r}, k: new(big.Int).Set(k)})
		if r.lo != nil {
			d.lo = floorDiv(r.lo, k)
		}
		if r.hi != nil {
			d.hi = floorDiv(r.hi, k)
		}
	}
	return c.Add(q, d)
}

// Mod is the non-negative remainder of the division by a positive constant.
func (c *Ctx) Mod(a *Term, k *big.Int) *Term {
	if k.Sign() <= 0 {
		panic(unsupported("remainder of a non-positive constant"))
	}
	if a.isConst() {
		return c.Int(new(big.Int).Mod(a.k, k))
	}
	_, r := c.split(a, k)
	km1 := new(big.Int).Sub(k, bigOne)
	if inRange(r, bigZero, km1) {
		return r
	}
	_, r = c.splitExact(a, k)
	if r.op == OpMod && new(big.Int).Mod(r.k, k).Sign() == 0 {
		return c.Mod(r.args[0], k)
	}
	t := c.mk(&Term{op: OpMod, args: []*Term{r}, k: new(big.Int).Set(k)})
	t.lo, t.hi = bigZero, km1
	return t
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond == c.t || a == b {
		return a
	}
	if cond == c.f {
		return b
	}
	if a.isBool() {
		return c.Or(c.And(cond, a), c.And(c.Not(cond), b))
	}
	if cond.op == OpNot {
		cond, a, b = cond.args[0], b, a
	}
	t := c.mk(&Term{op: OpIte, args: []*Term{cond, a, b}})
	if a.lo != nil && b.lo != nil {
		t.lo = a.lo
		if b.lo.Cmp(t.lo) < 0 {
			t.lo = b.lo
		}
	}
	if a.hi != nil && b.hi != nil {
		t.hi = a.hi
		if b.hi.Cmp(t.hi) > 0 {
			t.hi = b.hi
		}
	}
	return t
}

// BitOp is a bitwise operation on unsigned operands of the given width.
func (c *Ctx) BitOp(op string, width int, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		r := new(big.Int)
		switch op {
		case "and":
			r.And(a.k, b.k)
		case "or":
			r.Or(a.k, b.k)
		case "xor":
			r.Xor(a.k, b.k)
		}
		return c.Int(r)
	}
	if a.isConst() {
		a, b = b, a
	}
	if op == "and" && b.isConst() {
		// contiguous mask: bits [i,j)
		if b.k.Sign() == 0 {
			return b
		}
		tz := int(b.k.TrailingZeroBits())
		m := new(big.Int).Rsh(b.k, uint(tz))
		if new(big.Int).And(m, new(big.Int).Add(m, bigOne)).Sign() == 0 {
			t := c.Div(a, new(big.Int).Lsh(bigOne, uint(tz)))
			t = c.Mod(t, new(big.Int).Add(m, bigOne))
			return c.Scale(t, new(big.Int).Lsh(bigOne, uint(tz)))
		}
	}
	if op == "or" || op == "xor" {
		if b.isConst() && b.k.Sign() == 0 {
			return a
		}
		if op == "xor" && b.isConst() {
			all := new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(width)), bigOne)
			if b.k.Cmp(all) == 0 {
				return c.Sub(b, a)
			}
		}
		if c.disjoint(a, b) || c.disjoint(b, a) {
			return c.Add(a, b)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := c.mk(&Term{op: OpBit, name: op, args: []*Term{a, b}, k: big.NewInt(int64(width))})
	t.lo = bigZero
	t.hi = new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(width)), bigOne)
	if op == "and" {
		for _, x := range t.args {
			if x.hi != nil && x.hi.Cmp(t.hi) < 0 {
				t.hi = x.hi
			}
		}
	} else if a.hi != nil && b.hi != nil {
		n := a.hi.BitLen()
		if b.hi.BitLen() > n {
			n = b.hi.BitLen()
		}
		h := new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(n)), bigOne)
		if h.Cmp(t.hi) < 0 {
			t.hi = h
		}
	}
	return t
}

// disjoint: a is a multiple of 2^k and 0 <= b < 2^k.
func (c *Ctx) disjoint(a, b *Term) bool {
	if b.lo == nil || b.hi == nil || b.lo.Sign() < 0 {
		return false
	}
	k := new(big.Int).Lsh(bigOne, uint(b.hi.BitLen()))
	m := c.Mod(a, k)
	return m.isConst() && m.k.Sign() == 0
}

func (c *Ctx) Not(a *Term) *Term {
	if a.neg != nil {
		return a.neg
	}
	var t *Term
	switch a.op {
	case OpNot:
		t = a.args[0]
	case OpLe0: // !(x<=0)  <=>  1-x <= 0
		t = c.le0(c.Sub(c.I(1), a.args[0]))
	default:
		t = c.mk(&Term{op: OpNot, args: []*Term{a}})
	}
	a.neg = t
	if t.neg == nil && t.op != OpTrue && t.op != OpFalse {
		t.neg = a
	}
	return t
}

func (c *Ctx) nary(op Op, unit, zero *Term, as []*Term) *Term {
	set := map[*Term]bool{}
	var out []*Term
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == zero {
			return false
		}
		if a == unit || set[a] {
			return true
		}
		if a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if set[c.Not(a)] {
			return false
		}
		set[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(&Term{op: op, args: out})
}

func (c *Ctx) And(as ...*Term) *Term { return c.nary(OpAnd, c.t, c.f, as) }
func (c *Ctx) Or(as ...*Term) *Term  { return c.nary(OpOr, c.f, c.t, as) }

func (c *Ctx) gcdReduce(t *Term) (*Term, *big.Int, *big.Int) {
	// returns linear part divided by the gcd of its coefficients, that gcd, and the constant
	l := newLin()
	l.add(t, bigOne)
	k := new(big.Int).Set(l.k)
	l.k.SetInt64(0)
	g := new(big.Int)
	for _, s := range l.m {
		g.GCD(nil, nil, g, new(big.Int).Abs(s))
	}
	for t, s := range l.m {
		l.m[t] = new(big.Int).Quo(s, g)
	}
	return c.fromLin(l), g, k
}

func (c *Ctx) le0(t *Term) *Term {
	if t.isConst() {
		return c.Bool(t.k.Sign() <= 0)
	}
	if t.hi != nil && t.hi.Sign() <= 0 {
		return c.t
	}
	if t.lo != nil && t.lo.Sign() > 0 {
		return c.f
	}
	l, g, k := c.gcdReduce(t)
	// g*l + k <= 0  <=> l <= floor(-k/g)
	t = c.Sub(l, c.Int(floorDiv(new(big.Int).Neg(k), g)))
	if t.hi != nil && t.hi.Sign() <= 0 {
		return c.t
	}
	if t.lo != nil && t.lo.Sign() > 0 {
		return c.f
	}
	// (x div d) compared with a constant is x compared with another
	if t.op == OpDiv {
		return c.Le(t.args[0], c.Int(new(big.Int).Sub(t.k, bigOne)))
	}
	if t.op == OpSum && len(t.args) == 1 && t.args[0].op == OpDiv {
		x, b := t.args[0].args[0], new(big.Int).Neg(t.k)
		d := t.args[0].k
		if t.coefs[0].Cmp(bigOne) == 0 { // x div d <= b
			return c.Lt(x, c.Int(new(big.Int).Mul(d, b.Add(b, bigOne))))
		}
		if t.coefs[0].Cmp(big.NewInt(-1)) == 0 { // x div d >= -b
			return c.Le(c.Int(new(big.Int).Mul(d, b.Neg(b))), x)
		}
	}
	return c.mk(&Term{op: OpLe0, args: []*Term{t}})
}

// bound splits a comparison l + k <= 0 into l and -k, an upper bound of it.
func (c *Ctx) bound(t *Term) (*Term, *big.Int) {
	x := t.args[0]
	if x.op != OpSum {
		return x, bigZero
	}
	k := new(big.Int).Neg(x.k)
	return c.Add(x, c.Int(k)), k
}

func (c *Ctx) Le(a, b *Term) *Term { return c.le0(c.Sub(a, b)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.le0(c.Add(c.Sub(a, b), c.I(1))) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.t
	}
	return c.eq0(c.Sub(a, b))
}

func (c *Ctx) eq0(t *Term) *Term {
	if t.isConst() {
		return c.Bool(t.k.Sign() == 0)
	}
	mt := t
	if t.op == OpSum && len(t.args) == 1 && t.k.Sign() == 0 {
		mt = t.args[0]
	}
	if mt.op == OpMod {
		// the only multiple of the modulus within the range is zero
		if km1 := new(big.Int).Sub(mt.k, bigOne); inRange(mt.args[0], new(big.Int).Neg(km1), km1) {
			return c.eq0(mt.args[0])
		}
	}
	if t.op == OpSum && len(t.args) == 2 && t.k.Sign() == 0 && new(big.Int).Add(t.coefs[0], t.coefs[1]).Sign() == 0 {
		if x, y := c.residue[t.args[0]], c.residue[t.args[1]]; x != nil && y != nil {
			// both are the residues of the same multiple of x and y
			pm := new(big.Int).Sub(P, bigOne)
			if inRange(x, bigZero, pm) && inRange(y, bigZero, pm) {
				return c.Eq(x, y)
			}
			return c.Eq(c.Mod(c.Sub(x, y), P), c.I(0))
		}
	}
	if (t.lo != nil && t.lo.Sign() > 0) || (t.hi != nil && t.hi.Sign() < 0) {
		return c.f
	}
	if e := c.expand(t); e != t {
		if e.isConst() {
			return c.Bool(e.k.Sign() == 0)
		}
		if e.op == OpDiv || e.op == OpSum && len(e.args) == 1 && e.args[0].op == OpDiv {
			return c.eq0(e)
		}
	}
	l, g, k := c.gcdReduce(t)
	m := new(big.Int).Mod(k, g)
	if m.Sign() != 0 {
		return c.f
	}
	t = c.Add(l, c.Int(new(big.Int).Quo(k, g)))
	// canonical sign: leading coefficient positive
	if t.op == OpSum && t.coefs[0].Sign() < 0 {
		t = c.Neg(t)
	}
	// a sum of non-negative terms that is zero
	if t.op == OpSum && t.k.Sign() == 0 {
		ok := true
		for i, a := range t.args {
			if t.coefs[i].Sign() < 0 || a.lo == nil || a.lo.Sign() < 0 {
				ok = false
				break
			}
		}
		if ok {
			var cs []*Term
			for _, a := range t.args {
				cs = append(cs, c.eq0(a))
			}
			return c.And(cs...)
		}
	}
	// x div d = b
	if t.op == OpDiv {
		return c.And(c.Le(c.I(0), t.args[0]), c.Lt(t.args[0], c.Int(t.k)))
	}
	if t.op == OpSum && len(t.args) == 1 && t.args[0].op == OpDiv && t.coefs[0].Cmp(bigOne) == 0 {
		x, b, d := t.args[0].args[0], new(big.Int).Neg(t.k), t.args[0].k
		b.Mul(b, d)
		return c.And(c.Le(c.Int(b), x), c.Lt(x, c.Int(new(big.Int).Add(b, d))))
	}
	if t.op == OpMul {
		return c.Or(c.eq0(t.args[0]), c.eq0(t.args[1]))
	}
	if up, low := c.splitDigits(t); up != nil {
		return c.And(c.eq0(up), c.eq0(low))
	}
	return c.mk(&Term{op: OpEq0, args: []*Term{t}})
}

// splitDigits writes a sum as g*up + low with |low| < g, so that it is zero exactly when both are.
func (c *Ctx) splitDigits(t *Term) (up, low *Term) {
	if t.op != OpSum || len(t.args) < 2 {
		return nil, nil
	}
	n := len(t.args)
	ix := make([]int, n)
	for i := range ix {
		ix[i] = i
	}
	sort.SliceStable(ix, func(a, b int) bool { return t.coefs[ix[a]].CmpAbs(t.coefs[ix[b]]) < 0 })
	// g[i]: gcd of the coefficients ix[i:]
	g := make([]*big.Int, n+1)
	g[n] = new(big.Int)
	for i := n - 1; i >= 0; i-- {
		g[i] = new(big.Int).GCD(nil, nil, g[i+1], new(big.Int).Abs(t.coefs[ix[i]]))
	}
	lo, hi := new(big.Int).Set(t.k), new(big.Int).Set(t.k)
	for i := 0; i < n-1; i++ {
		a, s := t.args[ix[i]], t.coefs[ix[i]]
		if a.lo == nil || a.hi == nil {
			return nil, nil
		}
		x, y := new(big.Int).Mul(a.lo, s), new(big.Int).Mul(a.hi, s)
		if s.Sign() < 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
		if lo.CmpAbs(g[i+1]) < 0 && hi.CmpAbs(g[i+1]) < 0 {
			u, l := newLin(), newLin()
			l.k.Set(t.k)
			for j, x := range ix {
				if j <= i {
					l.add(t.args[x], t.coefs[x])
				} else {
					u.add(t.args[x], new(big.Int).Quo(t.coefs[x], g[i+1]))
				}
			}
			return c.fromLin(u), c.fromLin(l)
		}
	}
	return nil, nil
}

// expand replaces x mod k by x - k*(x div k) at the top of a sum, repeatedly.
func (c *Ctx) expand(t *Term) *Term {
	if e := c.expanded[t]; e != nil {
		return e
	}
	r := t
	switch t.op {
	case OpMod:
		c.noContract++
		defer func() { c.noContract-- }()
		x := c.expand(t.args[0])
		r = c.Sub(x, c.Scale(c.Div(t.args[0], t.k), t.k))
		r = c.expand(r)
	case OpSum:
		c.noContract++
		defer func() { c.noContract-- }()
		l := newLin()
		l.k.Set(t.k)
		ch := false
		for i, a := range t.args {
			e := c.expand(a)
			if e != a {
				ch = true
			}
			l.add(e, t.coefs[i])
		}
		if ch {
			r = c.fromLin(l)
			r = c.expand(r)
		}
	}
	c.expanded[t] = r
	return r
}

func (t *Term) String() string {
	switch t.op {
	case OpConst:
		return t.k.String()
	case OpVar, OpBVar:
		return t.name
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	case OpSum:
		var s []string
		for i, a := range t.args {
			if i > 6 {
				s = append(s, "...")
				break
			}
			s = append(s, t.coefs[i].String()+"*"+a.String())
		}
		if t.k.Sign() != 0 {
			s = append(s, t.k.String())
		}
		return "(" + strings.Join(s, "+") + ")"
	case OpPZ:
		return "PZ"
	}
	var s []string
	for _, a := range t.args {
		s = append(s, a.String())
	}
	n := map[Op]string{OpMul: "*", OpDiv: "div", OpMod: "mod", OpIte: "ite", OpBit: t.name, OpLe0: "<=0", OpEq0: "=0", OpNot: "not", OpAnd: "and", OpOr: "or"}[t.op]
	k := ""
	if t.k != nil {
		k = " " + t.k.String()
	}
	return "(" + n + " " + strings.Join(s, " ") + k + ")"
}
