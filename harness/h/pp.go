// Package h holds the harnesses: each function states a property of the real code over symbolic inputs.
package h

import (
	"fmt"

	math "github.com/IBM/mathlib"

	"pol/common"
	"pol/pp"
	"pol/zzverif/nd"
)

var curve = math.Curves[1]

func num(format string, a ...interface{}) string { return fmt.Sprintf(format, a...) }

// scalar is any scalar a caller may pass: canonical, the unreduced sum of two canonical ones, or a negation.
func scalar(name string) *math.Zr {
	switch nd.Choice(name+".shape", nd.Param("shapes", 1)) {
	case 1:
		return nd.Zr(name).Plus(nd.Zr(name + "'"))
	case 2:
		return common.NegZr(nd.Zr(name))
	case 3:
		return curve.NewZrFromInt(nd.Int64(name+".small", -1<<62, 1<<62))
	}
	return nd.Zr(name)
}

func vec(name string, n int) common.Vec {
	v := make(common.Vec, n)
	for i := range v {
		v[i] = nd.Zr(num("%s%d", name, i))
	}
	return v
}

func same(a, b *math.Zr) bool {
	x, y := a.Copy(), b.Copy()
	x.Mod(curve.GroupOrder)
	y.Mod(curve.GroupOrder)
	return x.Equals(y)
}

// HPPOpen: every position of a committed vector opens to its value.
func HPPOpen() {
	n := nd.Param("n", 3)
	params := pp.NewPublicParams(n)
	i := nd.Choice("i", n)
	m := vec("m", n)
	m[i] = scalar("x")
	var C, π *math.G1
	var mi *math.Zr
	keeps("committing", func() { C = pp.Commit(params, m) }, params, &m)
	want := m[i].Copy()
	keeps("opening", func() { mi, π = pp.Open(params, i, m) }, params, &m)
	keeps("verifying", func() { pp.Verify(params, mi, π, C, i) }, params, mi, π, C)
	nd.Assert(mi.Equals(want), "Open returns another value than the committed one")
	nd.Assert(pp.Verify(params, mi, π, C, i) == nil, "an honest opening is rejected")
	nd.Assert(pp.Verify(params, mi, π, C, i) == nil, "verification is not repeatable")
	nd.Assert(mi.Equals(want) && C.Equals(pp.Commit(params, m)), "opening or verifying changes its arguments")
	// positions with equal values have different openings in general: an opening is only good for its position
	k := nd.Choice("k", n)
	if k != i && !same(m[k], m[i]) {
		nd.Assert(pp.Verify(params, mi, π, C, k) != nil, "an opening is accepted at another position")
	}
}

// adversarial group element: any combination of the published elements
func span(name string, params *pp.PP) *math.G1 {
	var acc *math.G1
	for j, g := range params.G1s {
		t := g.Mul(nd.Zr(num("%s%d", name, j)))
		if acc == nil {
			acc = t
		} else {
			acc.Add(t)
		}
	}
	return acc
}

// HPPBind: a commitment, however made, opens to at most one value per position.
func HPPBind() {
	n := nd.Param("n", 3)
	params := pp.NewPublicParams(n)
	i := nd.Choice("i", n)
	C := span("c", params)
	π1, π2 := span("p", params), span("q", params)
	v1, v2 := scalar("v"), nd.Zr("w")
	if pp.Verify(params, v1, π1, C, i) == nil && pp.Verify(params, v2, π2, C, i) == nil {
		nd.Reach("both accepted")
		nd.Assert(same(v1, v2), "a commitment opens to two values at one position")
	}
}

// HPPTamper: no field of an honest opening can be changed.
func HPPTamper() {
	n := nd.Param("n", 3)
	params := pp.NewPublicParams(n)
	i := nd.Choice("i", n)
	m := vec("m", n)
	C := pp.Commit(params, m)
	mi, π := pp.Open(params, i, m)
	s := struct {
		Mi   *math.Zr
		Π, C *math.G1
	}{mi.Copy(), π, C}
	k := nd.Choice("leaf", nd.Leaves(&s))
	p := nd.Tamper(&s, k, "δ")
	nd.Assert(pp.Verify(params, s.Mi, s.Π, s.C, i) != nil, "an altered opening is accepted: "+p)
}

// HPPUpdate: an incremental update gives the commitment to the updated vector.
func HPPUpdate() {
	n := nd.Param("n", 3)
	params := pp.NewPublicParams(n)
	m := vec("m", n)
	C := pp.Commit(params, m)
	for r := 0; r < nd.Param("rounds", 2); r++ {
		i := nd.Choice(num("i%d", r), n)
		x := scalar(num("x%d", r))
		m0, x0, g0 := copies(m), x.Copy(), g1copies(params.G1s)
		pp.Update(params, C, m, x, i)
		unchanged(m, m0, "an update")
		nd.Assert(x.Equals(x0), "an update changes the new value")
		g1unchanged(params.G1s, g0, "an update")
		m[i] = x
		nd.Assert(C.Equals(pp.Commit(params, m)), "an updated commitment differs from a fresh one")
	}
	j := nd.Choice("j", n)
	mj, π := pp.Open(params, j, m)
	nd.Assert(pp.Verify(params, mj, π, C, j) == nil, "an updated commitment does not open")
}

// HPPAgg: aggregated openings verify, for the default and for any other coefficients.
func HPPAgg() {
	n, k := nd.Param("n", 3), nd.Param("k", 2)
	params := pp.NewPublicParams(n)
	var cs common.G1v
	var πs []*math.G1
	var idx []int
	var vals common.Vec
	for a := 0; a < k; a++ {
		m := vec(num("m%d.", a), n)
		i := nd.Choice(num("i%d", a), n)
		cs = append(cs, pp.Commit(params, m))
		mi, π := pp.Open(params, i, m)
		πs = append(πs, π)
		vals = append(vals, mi)
		idx = append(idx, i)
	}
	ro := pp.RO
	if nd.Choice("ro", 2) == 1 {
		ro = func(_ *pp.PP, _ []*math.G1, j int) *math.Zr { return nd.Zr(num("t%d", j)) }
	}
	var π *math.G1
	keeps("aggregating", func() { π = pp.Aggregate(params, cs, πs, ro) }, params, &cs, &πs)
	Σ := common.IntToZr(0)
	for a := 0; a < k; a++ {
		Σ = Σ.Plus(vals[a].Mul(ro(params, cs, a)))
	}
	keeps("verifying", func() {
		nd.Assert(pp.VerifyAggregation(params, idx, cs, π, Σ, ro) == nil, "an honest aggregated opening is rejected")
	}, params, &cs, π, Σ)
}

// HPPAggBind: with hashed coefficients, an accepted aggregation opens every commitment at its position.
func HPPAggBind() {
	n, k := nd.Param("n", 2), nd.Param("k", 2)
	params := pp.NewPublicParams(n)
	var cs common.G1v
	var idx []int
	for a := 0; a < k; a++ {
		i := nd.Choice(num("i%d", a), n)
		idx = append(idx, i)
		cs = append(cs, span(num("c%d.", a), params))
	}
	// the values claimed are fixed before the coefficients are known
	claim := vec("v", k)
	π := span("p", params)
	Σ := common.IntToZr(0)
	for a := 0; a < k; a++ {
		Σ = Σ.Plus(claim[a].Mul(pp.RO(params, cs, a)))
	}
	if pp.VerifyAggregation(params, idx, cs, π, Σ, pp.RO) == nil {
		nd.Reach("accepted")
		for a := 0; a < k; a++ {
			c := nd.Zr(num("c%d.%d", a, idx[a]))
			nd.Assert(same(claim[a], c), "an accepted aggregation claims a value that is not the committed one")
		}
	}
}

// HPPAggTamper: no element of an honest aggregated opening can be changed.
func HPPAggTamper() {
	n, k := nd.Param("n", 2), nd.Param("k", 2)
	params := pp.NewPublicParams(n)
	var cs common.G1v
	var πs []*math.G1
	var idx []int
	var vals common.Vec
	for a := 0; a < k; a++ {
		m := vec(num("m%d.", a), n)
		i := nd.Choice(num("i%d", a), n)
		cs = append(cs, pp.Commit(params, m))
		mi, π := pp.Open(params, i, m)
		πs = append(πs, π)
		vals = append(vals, mi.Copy())
		idx = append(idx, i)
	}
	s := struct {
		Π    *math.G1
		Cs   common.G1v
		Vals common.Vec
	}{pp.Aggregate(params, cs, πs, pp.RO), append(common.G1v(nil), cs...), vals}
	p := nd.Tamper(&s, nd.Choice("leaf", nd.Leaves(&s)), "δ")
	Σ := common.IntToZr(0)
	for a := 0; a < k; a++ {
		Σ = Σ.Plus(s.Vals[a].Mul(pp.RO(params, s.Cs, a)))
	}
	nd.Assert(pp.VerifyAggregation(params, idx, s.Cs, s.Π, Σ, pp.RO) != nil, "an altered aggregated opening is accepted: "+p)
}

// HPPRO: aggregation coefficients are canonical scalars, different for different positions, and depend on everything.
func HPPRO() {
	n := 2
	params := pp.NewPublicParams(n)
	cs := common.G1v{pp.Commit(params, vec("a", n)), pp.Commit(params, vec("b", n))}
	i := nd.Int("i", 0, 1<<16)
	j := nd.Int("j", 0, 1<<16)
	x, y := pp.RO(params, cs, i), pp.RO(params, cs, j)
	nd.Assert(x.Equals(y) == (i == j), "two positions share an aggregation coefficient")
	xr := x.Copy()
	xr.Mod(curve.GroupOrder)
	nd.Assert(x.Equals(xr), "an aggregation coefficient is not canonical")
	cs2 := append(common.G1v(nil), cs...)
	p := nd.Tamper(&cs2, nd.Choice("leaf", len(cs)), "δ")
	nd.Assert(!pp.RO(params, cs2, i).Equals(x), "an aggregation coefficient does not depend on the commitments: "+p)
	other := pp.NewPublicParams(n)
	nd.Assert(!pp.RO(other, cs, i).Equals(x), "an aggregation coefficient does not depend on the parameters")
}

// HPPParams: the structure of the published parameters, observed through pairings.
func HPPParams() {
	n := nd.Param("n", 3)
	params := pp.NewPublicParams(n)
	nd.Assert(params.N == n && len(params.G1s) == 2*n && len(params.G2s) == n, "wrong number of elements")
	e := func(a *math.G1, b *math.G2) *math.Gt { return common.G1v{a}.InnerProd(common.G2v{b}) }
	for i := 0; i < n; i++ {
		// powers on both sides are of the same exponent
		nd.Assert(e(params.G1s[i], curve.GenG2).Equals(e(curve.GenG1, params.G2s[i])), "G1 and G2 powers differ")
		for j := 0; j < n; j++ {
			l := e(params.G1s[i], params.G2s[j])
			if i+j+2 == n+1 {
				nd.Assert(l.Equals(params.Gt), "the target element is not the missing power")
			} else if i+j+1 < 2*n {
				nd.Assert(l.Equals(e(params.G1s[i+j+1], curve.GenG2)), "an element is not the power its position says")
			}
		}
	}
	nd.Assert(params.G1s[n].Equals(curve.GenG1), "the element that would break binding is published")
	nd.Assert(!params.G1s[0].Equals(curve.GenG1), "the trapdoor is trivial")
	other := pp.NewPublicParams(n)
	nd.Assert(string(other.Digest) != string(params.Digest), "two setups share a digest")
	d := string(params.Digest)
	params.SetupDigest()
	nd.Assert(string(params.Digest) == d, "the digest is not a function of the parameters")
	// every element is in the digest
	p := nd.Tamper(&params.G1s, nd.Choice("leaf", 2*n), "δ")
	params.SetupDigest()
	nd.Assert(string(params.Digest) != d, "the digest does not cover "+p)
}
