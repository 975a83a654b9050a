package h

import (
	math "github.com/IBM/mathlib"

	"pol/common"
	"pol/zzverif/nd"
)

// HScalarOf: every digest is mapped to a canonical scalar, and those that differ early to different ones.
func HScalarOf() {
	b := nd.Bytes("b", 32, 0, 255)
	b0 := append([]byte(nil), b...)
	x := common.FieldElementFromBytes(b)
	nd.Assert(string(b) == string(b0), "the digest is changed")
	zero := common.IntToZr(0)
	y := x.Plus(zero)
	y.Mod(curve.GroupOrder)
	nd.Assert(x.Equals(y), "a digest is mapped to a scalar that is not below the group order")
	nd.Assert(common.FieldElementFromBytes(b0).Equals(x), "a digest is mapped to two scalars")
}

// HScalarInj: two digests with the same scalar agree in their first 24 bytes.
func HScalarInj() {
	b, c := nd.Bytes("b", 32, 0, 255), nd.Bytes("c", 32, 0, 255)
	x, y := common.FieldElementFromBytes(b), common.FieldElementFromBytes(c)
	if x.Equals(y) {
		nd.Assert(string(b[:24]) == string(c[:24]), "two digests that differ in their first 24 bytes share a scalar")
	}
}

// HScalarLen: other lengths are refused.
func HScalarLen() {
	n := nd.Choice("n", 40)
	b := nd.Bytes("b", n, 0, 255)
	nd.Assert(nd.Panics(func() { common.FieldElementFromBytes(b) }) == (n != 32), "a digest of another length is mapped, or one of the right length is not")
}

func two(k int) *math.Zr {
	r := common.IntToZr(1)
	for i := 0; i < k; i++ {
		r = r.Plus(r)
		r.Mod(curve.GroupOrder)
	}
	return r
}

// HBits: the bits of a number, weighted, give the number; there are at least as many as asked for.
func HBits() {
	k := nd.Choice("k", nd.Param("k", 12)+1)
	l := nd.Choice("l", nd.Param("l", 12)+1)
	x := nd.ZrBits("x", k, true)
	if k == 0 {
		x = common.IntToZr(0)
	}
	x0 := x.Copy()
	bits := common.Bits(x, l)
	nd.Assert(len(bits) >= l && len(bits) >= k, "there are fewer bits than asked for or needed")
	sum := common.IntToZr(0)
	for i, b := range bits {
		nd.Assert(b <= 1, "a bit is neither zero nor one")
		sum = sum.Plus(two(i).Mul(common.IntsToZr([]uint8{b})[0]))
		sum.Mod(curve.GroupOrder)
	}
	nd.Assert(sum.Equals(x0), "the weighted bits do not give the number")
	be := common.BitsBigEndian(x, l)
	nd.Assert(len(be) == len(bits), "the big-endian bits have another length")
	for i := range be {
		nd.Assert(be[i] == bits[len(bits)-1-i], "the big-endian bits are not the bits reversed")
	}
	nd.Assert(x.Equals(x0), "taking the bits changes the number")
}

// HVecBits: the bits of a vector are those of its entries in order.
func HVecBits() {
	n := nd.Choice("n", nd.Param("n", 3)+1)
	l := nd.Choice("l", 4) + 1
	v := make(common.Vec, n)
	var want []uint8
	for i := range v {
		v[i] = common.IntToZr(nd.Int(num("v%d", i), 0, 1<<uint(l)-1))
		want = append(want, common.Bits(v[i], l)...)
	}
	got := v.Bits(l)
	nd.Assert(len(got) == n*l && len(want) == n*l, "a vector of numbers below the bound has another number of bits")
	for i := range got {
		nd.Assert(got[i] == want[i], "the bits of a vector are not those of its entries in order")
	}
	m := nd.Choice("m", n+1)
	rev := common.ReverseBits(got[:m])
	nd.Assert(len(rev) == m, "reversing changes the length")
	for i := range rev {
		nd.Assert(rev[i] == want[m-1-i], "reversing yields something else")
	}
	for i := range got {
		nd.Assert(got[i] == want[i], "reversing changes its argument")
	}
}

// HPowers: powers of two and series of powers are what they say.
func HPowers() {
	k := nd.Choice("k", nd.Param("k", 70))
	nd.Assert(common.Pow2(k).Equals(two(k)), "a power of two is another number")
	n := nd.Choice("n", nd.Param("n", 5)+1)
	e := scalar("e")
	e0 := e.Copy()
	s := common.PowerSeries(n, e)
	nd.Assert(len(s) == n, "a power series has another length")
	want := common.IntToZr(1)
	for i := range s {
		nd.Assert(same(s[i], want), "an entry of a power series is not that power")
		want = want.Mul(e0)
	}
	nd.Assert(e.Equals(e0), "a power series changes its base")
}

// HSelect: a bit selects the entry or one; the product is the product.
func HSelect() {
	n := nd.Choice("n", nd.Param("n", 4)) + 1
	v := vec("v", n)
	v0 := copies(v)
	bits := make([]uint8, n)
	want := common.IntToZr(1)
	for i := range bits {
		bits[i] = nd.Uint8(num("b%d", i), 0, 1)
	}
	sel := v.PowBitVec(bits)
	nd.Assert(len(sel) == n, "a selection has another length")
	for i := range sel {
		if bits[i] == 1 {
			nd.Assert(sel[i].Equals(v0[i]), "a set bit does not select its entry")
			want = want.Mul(v0[i])
		} else {
			nd.Assert(sel[i].Equals(common.IntToZr(1)), "a clear bit does not select one")
		}
	}
	nd.Assert(same(sel.Product(), want), "the product of the selection is another number")
	ints := make([]uint8, n)
	for i := range ints {
		ints[i] = nd.Uint8(num("u%d", i), 0, 255)
	}
	zs := common.IntsToZr(ints)
	nd.Assert(len(zs) == n, "a conversion changes the length")
	for i := range zs {
		nd.Assert(zs[i].Equals(common.IntToZr(int(ints[i]))), "a small number is converted to another")
	}
	unchanged(v, v0, "selecting or multiplying")
}

// keeps runs f, which must leave the scalars and group elements of roots as they were.
func keeps(what string, f func(), roots ...interface{}) {
	p := nd.Changed(f, roots...)
	nd.Assert(p == "", what+" changes its parameters or arguments: "+p)
}

func copies(v common.Vec) common.Vec {
	r := make(common.Vec, len(v))
	for i := range v {
		r[i] = v[i].Copy()
	}
	return r
}

func unchanged(v, v0 common.Vec, what string) {
	nd.Assert(len(v) == len(v0), what+" changes the length of its argument")
	for i := range v {
		nd.Assert(v[i].Equals(v0[i]), what+" changes its argument")
	}
}

// entry is any scalar, with zero, one and unreduced numbers among the shapes.
func entry(name string) *math.Zr {
	switch nd.Choice(name+".shape", nd.Param("shapes", 3)) {
	case 1:
		return common.IntToZr(0)
	case 2:
		return nd.Zr(name).Plus(nd.Zr(name + "'"))
	case 3:
		return common.NegZr(common.IntToZr(0))
	}
	return nd.Zr(name)
}

func entries(name string, n int) common.Vec {
	v := make(common.Vec, n)
	for i := range v {
		v[i] = entry(num("%s%d", name, i))
	}
	return v
}

// HVecPoint: entrywise operations.
func HVecPoint() {
	n := nd.Choice("n", nd.Param("n", 2)+1)
	v, w := entries("v", n), entries("w", n)
	x := entry("x")
	v0, w0, x0 := copies(v), copies(w), x.Copy()
	for k := 0; k < 2; k++ {
		add, sub, mul, had := v.Add(w), v.Sub(w), v.Mul(x), v.HadamardProd(w)
		nd.Assert(len(add) == n && len(sub) == n && len(mul) == n && len(had) == n, "an entrywise operation changes the length")
		for i := 0; i < n; i++ {
			nd.Assert(same(add[i], v0[i].Plus(w0[i])), "an entry of a sum is not the sum of the entries")
			nd.Assert(same(sub[i].Plus(w0[i]), v0[i]), "an entry of a difference is not the difference of the entries")
			nd.Assert(same(mul[i], v0[i].Mul(x0)), "an entry of a multiple is not the multiple of the entry")
			nd.Assert(same(had[i], v0[i].Mul(w0[i])), "an entry of an entrywise product is not the product of the entries")
			// results are values of their own: working on them does not reach the arguments
			add[i].Mod(curve.GroupOrder)
			sub[i].Mod(curve.GroupOrder)
		}
		unchanged(v, v0, "an entrywise operation")
		unchanged(w, w0, "an entrywise operation")
		nd.Assert(x.Equals(x0), "an entrywise operation changes its factor")
	}
	for i := 0; i < n; i++ {
		neg := common.NegZr(v[i])
		nd.Assert(same(neg.Plus(v0[i]), common.IntToZr(0)), "a number and its negation do not cancel")
	}
	unchanged(v, v0, "negation")
}

// HVecInner: the inner product.
func HVecInner() {
	n := nd.Choice("n", nd.Param("n", 3)+1)
	v, w := entries("v", n), entries("w", n)
	v0, w0 := copies(v), copies(w)
	ip := v.InnerProd(w)
	want := common.IntToZr(0)
	for i := range v {
		want = want.Plus(v0[i].Mul(w0[i]))
	}
	want.Mod(curve.GroupOrder)
	nd.Assert(ip.Equals(want), "the inner product is not the sum of the products")
	unchanged(v, v0, "the inner product")
	unchanged(w, w0, "the inner product")
	if n > 0 {
		nd.Assert(nd.Panics(func() { v.InnerProd(w[1:]) }), "an inner product of vectors of different lengths is computed")
		nd.Assert(nd.Panics(func() { v.Add(w[1:]) }), "a sum of vectors of different lengths is computed")
		nd.Assert(nd.Panics(func() { v.Sub(w[1:]) }), "a difference of vectors of different lengths is computed")
		nd.Assert(nd.Panics(func() { v[1:].HadamardProd(w) }), "an entrywise product of vectors of different lengths is computed")
	}
}

// HVecShape: halves, reversal, concatenation, clearing.
func HVecShape() {
	n := nd.Choice("n", nd.Param("n", 6)+1)
	k := nd.Choice("k", 3)
	v, w := vec("v", n), vec("w", k)
	v0, w0 := copies(v), copies(w)
	if n%2 == 0 {
		ev, od := v.Evens(), v.Odds()
		nd.Assert(len(ev) == n/2 && len(od) == n/2, "a half of a vector has another length")
		for i := range ev {
			nd.Assert(ev[i].Equals(v0[2*i]) && od[i].Equals(v0[2*i+1]), "a half of a vector has another entry")
		}
		// the halves are copies
		for i := range ev {
			ev[i].Mod(curve.NewZrFromInt(1))
			od[i].Mod(curve.NewZrFromInt(1))
		}
		unchanged(v, v0, "changing a half")
	} else {
		nd.Assert(nd.Panics(func() { v.Evens() }) && nd.Panics(func() { v.Odds() }), "a vector of odd length is halved")
	}
	rev := v.Reverse()
	nd.Assert(len(rev) == n, "reversal changes the length")
	for i := range rev {
		nd.Assert(rev[i].Equals(v0[n-1-i]), "an entry of the reversal is another")
	}
	cat := v.Concat(w)
	nd.Assert(len(cat) == n+k, "a concatenation has another length")
	for i := range cat {
		if i < n {
			nd.Assert(cat[i].Equals(v0[i]), "an entry of the concatenation is another")
		} else {
			nd.Assert(cat[i].Equals(w0[i-n]), "an entry of the concatenation is another")
		}
	}
	rev.Zero()
	cat.Zero()
	for i := range cat {
		nd.Assert(cat[i].Equals(common.IntToZr(0)), "a cleared entry is not zero")
	}
	unchanged(v, v0, "a rearrangement")
	unchanged(w, w0, "a rearrangement")
}

// element is any group element, with the identity among the shapes.
func element(name string) *math.G1 {
	if nd.Choice(name+".id", 2) == 1 {
		g := curve.GenG1.Copy()
		g.Sub(g)
		return g
	}
	return nd.G1(name).Mul(nd.Zr(name + ".e"))
}

func elements(name string, n int) common.G1v {
	v := make(common.G1v, n)
	for i := range v {
		v[i] = element(num("%s%d", name, i))
	}
	return v
}

func g1copies(v common.G1v) common.G1v {
	r := make(common.G1v, len(v))
	for i := range v {
		r[i] = v[i].Copy()
	}
	return r
}

func g1unchanged(v, v0 common.G1v, what string) {
	nd.Assert(len(v) == len(v0), what+" changes the length of its argument")
	for i := range v {
		nd.Assert(v[i].Equals(v0[i]), what+" changes its argument")
	}
}

func identity() *math.G1 {
	g := curve.GenG1.Copy()
	g.Sub(g)
	return g
}

func g1sum(a, b *math.G1) *math.G1 {
	r := a.Copy()
	r.Add(b)
	return r
}

// HG1Point: entrywise operations on group elements.
func HG1Point() {
	n := nd.Choice("n", nd.Param("n", 2)+1)
	v, w := elements("v", n), elements("w", n)
	s := entries("s", n)
	x := entry("x")
	v0, w0, s0, x0 := g1copies(v), g1copies(w), copies(s), x.Copy()
	id := identity()
	for k := 0; k < 2; k++ {
		add, had, neg, mul, mulv := v.Add(w), v.HadamardProd(w), v.Neg(), v.Mul(x), v.MulV(s)
		nd.Assert(len(add) == n && len(had) == n && len(neg) == n && len(mul) == n && len(mulv) == n, "an entrywise operation changes the length")
		for i := 0; i < n; i++ {
			nd.Assert(add[i].Equals(g1sum(v0[i], w0[i])), "an entry of a sum is not the sum of the entries")
			nd.Assert(had[i].Equals(g1sum(v0[i], w0[i])), "an entry of an entrywise product is not the product of the entries")
			nd.Assert(g1sum(neg[i], v0[i]).Equals(id), "an element and its negation do not cancel")
			nd.Assert(mul[i].Equals(v0[i].Mul(x0)), "an entry of a power is not the power of the entry")
			nd.Assert(mulv[i].Equals(v0[i].Mul(s0[i])), "an entry of an entrywise power is not the power of the entry")
		}
		// aggregates over results do not change them or what they are made of
		if n > 0 {
			add.Sum()
			mulv.Sum()
			neg.Sum()
		}
		g1unchanged(v, v0, "an entrywise operation")
		g1unchanged(w, w0, "an entrywise operation")
		unchanged(s, s0, "an entrywise operation")
		nd.Assert(x.Equals(x0), "an entrywise operation changes its exponent")
	}
	if n > 0 {
		nd.Assert(nd.Panics(func() { v.MulV(s[1:]) }), "an entrywise power with too few exponents is computed")
	}
	// the identity that zero exponents yield is not shared state that can be damaged by summing
	if n > 0 {
		zero := make(common.Vec, n)
		for i := range zero {
			zero[i] = common.IntToZr(0)
		}
		z := v.MulV(zero)
		sum := z.Sum()
		sum.Add(curve.GenG1)
		z2 := v.MulV(zero)
		for i := range z2 {
			nd.Assert(z2[i].Equals(id), "a zero exponent does not yield the identity")
		}
	}
}

// HG1Agg: aggregates of group elements.
func HG1Agg() {
	n := nd.Choice("n", nd.Param("n", 3)) + 1
	v := elements("v", n)
	s := entries("s", n)
	v0, s0 := g1copies(v), copies(s)
	want, wexp := identity(), identity()
	for i := range v {
		want.Add(v0[i])
		wexp.Add(v0[i].Mul(s0[i]))
	}
	for k := 0; k < 2; k++ {
		sum := v.Sum()
		nd.Assert(sum.Equals(want), "the sum is not the sum of the entries")
		sum.Add(curve.GenG1)
		exp := s.Exp(v)
		nd.Assert(exp.Equals(wexp), "the multi-exponentiation is not the sum of the powers")
		exp.Add(curve.GenG1)
		g1unchanged(v, v0, "an aggregate")
		unchanged(s, s0, "an aggregate")
	}
	nd.Assert(nd.Panics(func() { s[1:].Exp(v) }), "a multi-exponentiation with too few exponents is computed")
	raw := v.Bytes()
	var cat []byte
	for i := range v0 {
		cat = append(cat, v0[i].Bytes()...)
	}
	nd.Assert(string(raw) == string(cat), "the encoding is not that of the entries in order")
	d := v[:1].Duplicate(n)
	nd.Assert(len(d) == n, "a duplication has another length")
	for i := range d {
		nd.Assert(d[i].Equals(v0[0]), "a duplicate is another element")
	}
	for i := range d {
		d[i].Add(curve.GenG1)
	}
	g1unchanged(v, v0, "changing duplicates")
	for i := range d {
		nd.Assert(d[i].Equals(g1sum(v0[0], curve.GenG1)), "duplicates share their storage")
	}
}

// HG2: operations on the second group and inner products of the two.
func HG2() {
	n := nd.Choice("n", nd.Param("n", 2)) + 1
	g := make(common.G2v, n)
	h := make(common.G2v, n)
	a, b, s := entries("a", n), entries("b", n), entries("s", n)
	for i := range g {
		g[i], h[i] = curve.GenG2.Mul(a[i]), curve.GenG2.Mul(b[i])
	}
	x := entry("x")
	s0, x0 := copies(s), x.Copy()
	sumA := common.IntToZr(0)
	for i := range g {
		sumA = sumA.Plus(a[i])
	}
	check := func(what string) {
		for i := range g {
			nd.Assert(g[i].Equals(curve.GenG2.Mul(a[i])) && h[i].Equals(curve.GenG2.Mul(b[i])), what+" changes its argument")
		}
	}
	for k := 0; k < 2; k++ {
		add, mul, mulv := g.Add(h), g.Mul(x), g.Mulv(s)
		nd.Assert(len(add) == n && len(mul) == n && len(mulv) == n, "an entrywise operation changes the length")
		for i := range g {
			nd.Assert(add[i].Equals(curve.GenG2.Mul(a[i].Plus(b[i]))), "an entry of a sum is not the sum of the entries")
			nd.Assert(mul[i].Equals(curve.GenG2.Mul(a[i].Mul(x0))), "an entry of a power is not the power of the entry")
			nd.Assert(mulv[i].Equals(curve.GenG2.Mul(a[i].Mul(s0[i]))), "an entry of an entrywise power is not the power of the entry")
		}
		check("an entrywise operation")
		sum := g.Sum()
		nd.Assert(sum.Equals(curve.GenG2.Mul(sumA)), "the sum is not the sum of the entries")
		sum.Add(curve.GenG2)
		check("an aggregate")
		d := g[:1].Duplicate(n)
		nd.Assert(len(d) == n, "a duplication has another length")
		for i := range d {
			nd.Assert(d[i].Equals(curve.GenG2.Mul(a[0])), "a duplicate is another element")
			d[i].Add(curve.GenG2)
		}
		check("changing a duplicate")
	}
	unchanged(s, s0, "an operation on the second group")
	nd.Assert(x.Equals(x0), "an operation on the second group changes its exponent")

	v := elements("v", n)
	v0 := g1copies(v)
	want := curve.FExp(curve.Pairing(curve.GenG2, identity()))
	for i := range v {
		p := curve.FExp(curve.Pairing(curve.GenG2, v0[i].Mul(a[i])))
		want.Mul(p)
	}
	ip := v.InnerProd(g)
	nd.Assert(ip.Equals(want), "the inner product is not the product of the pairings")
	nd.Assert(v.InnerProd(g).Equals(want), "the inner product is not repeatable")
	g1unchanged(v, v0, "the inner product")
	check("the inner product")
	nd.Assert(nd.Panics(func() { v.InnerProd(g[1:]) }), "an inner product of vectors of different lengths is computed")
}
