package h

import (
	math "github.com/IBM/mathlib"

	"pol/common"
	"pol/sum"
	"pol/zzverif/nd"
)

// summed is a vector whose last element is the sum of the others.
func summed(name string, n int, shaped bool) common.Vec {
	v := make(common.Vec, n)
	s := common.IntToZr(0)
	for i := 0; i < n-1; i++ {
		v[i] = nd.Zr(num("%s%d", name, i))
		if shaped && i == 0 {
			v[i] = scalar(name + "0")
		}
		s = s.Plus(v[i])
	}
	v[n-1] = s
	if shaped {
		reduce(name+".last.reduced", v[n-1])
	}
	return v
}

// reduce replaces the scalar by the canonical one of the same residue, if the choice is so.
func reduce(choice string, x *math.Zr) {
	if nd.Param("shapes", 1) > 1 && nd.Choice(choice, 2) == 1 {
		x.Mod(curve.GroupOrder)
	}
}

func sumCommit(params *sum.PP, v common.Vec, r *math.Zr) *math.G1 {
	V := params.F.Mul(r)
	V.Add(params.Gs.MulV(v).Sum())
	return V
}

// HSum: a vector whose last element is the sum of the others is committed to and proved.
func HSum() {
	n := nd.Param("n", 4)
	params := sum.NewPublicParams(n)
	v := summed("v", n, true)
	r := scalar("r")
	v0, r0 := copyVec(v), r.Copy()
	arg := sum.NewCommitment(params, v, r)
	nd.Assert(arg.V.Equals(sumCommit(params, v0, r0)), "the commitment is to something else")
	V := arg.V.Copy()
	var arg2 *sum.Argument
	var proof *sum.Proof
	keeps("proving", func() { arg2, proof = sum.NewArgument(params, arg.V, v, r) }, params, arg, &v, r)
	keeps("verifying", func() { proof.Verify(params, arg) }, params, arg)
	nd.Assert(arg2.V.Equals(V), "the argument is about another commitment")
	nd.Assert(proof.Verify(params, &sum.Argument{V: V}) == nil, "an honest sum proof is rejected")
	nd.Assert(proof.Verify(params, &sum.Argument{V: V}) == nil, "verification is not repeatable")
	nd.Assert(proof.Verify(sum.NewPublicParams(n), arg2) == nil, "an honest sum proof is rejected under equal parameters")
	nd.Assert(eqVec(v, v0) && r.Equals(r0) && V.Equals(sumCommit(params, v, r)), "proving or verifying changes its arguments")
}

// HSumAgg: so are several of them at once.
func HSumAgg() {
	n, k := nd.Param("n", 2), nd.Param("k", 3)
	params := sum.NewPublicParams(n)
	var Vs common.G1v
	var vs []common.Vec
	var rs common.Vec
	for i := 0; i < k; i++ {
		v, r := summed(num("v%d.", i), n, i == 0), nd.Zr(num("r%d", i))
		Vs = append(Vs, sum.NewCommitment(params, v, r).V)
		vs, rs = append(vs, v), append(rs, r)
	}
	v0, V0, r0 := copyVec(vs[k-1]), Vs.Bytes(), copyVec(rs)
	var proof *sum.Proof
	keeps("proving", func() { proof = sum.NewAggregatedArgument(params, Vs, vs, rs) }, params, &Vs, &vs, &rs)
	keeps("verifying", func() {
		nd.Assert(proof.VerifyAggregated(params, Vs) == nil, "an honest aggregated sum proof is rejected")
	}, params, &Vs)
	nd.Assert(proof.VerifyAggregated(sum.NewPublicParams(n), Vs) == nil, "an honest aggregated sum proof is rejected under equal parameters")
	nd.Assert(eqVec(vs[k-1], v0) && string(Vs.Bytes()) == string(V0) && eqVec(rs, r0), "proving or verifying changes its arguments")
}

// HSumFalse: a vector whose last element is not the sum of the others is neither committed to nor proved.
func HSumFalse() {
	n := nd.Param("n", 4)
	params := sum.NewPublicParams(n)
	v := summed("v", n, false)
	p := nd.Tamper(&v, nd.Choice("leaf", n), "δ")
	Σ := common.IntToZr(0)
	for i := 0; i < n-1; i++ {
		Σ = Σ.Plus(v[i])
	}
	if same(Σ, v[n-1]) {
		return
	}
	r := nd.Zr("r")
	nd.Assert(nd.Panics(func() { sum.NewCommitment(params, v, r) }), "a vector is committed to whose last element is not the sum: "+p)
	V := sumCommit(params, v, r)
	accepted := false
	nd.Panics(func() {
		_, proof := sum.NewArgument(params, V, v, r)
		accepted = proof.Verify(params, &sum.Argument{V: V}) == nil
	})
	nd.Assert(!accepted, "a wrong sum is proved: "+p)
}

// HSumLie: a commitment to a wrong sum is not proved with another vector, whose sum is right.
func HSumLie() {
	n := nd.Param("n", 4)
	params := sum.NewPublicParams(n)
	v, w := summed("v", n, false), summed("v", n, false)
	p := nd.Tamper(&v, nd.Choice("leaf", n), "δ")
	r := nd.Zr("r")
	V := sumCommit(params, v, r)
	accepted := false
	nd.Panics(func() {
		_, proof := sum.NewArgument(params, V, w, r)
		accepted = proof.Verify(params, &sum.Argument{V: V}) == nil
	})
	nd.Assert(!accepted, "a sum is proved for another vector than the committed one: "+p)
}

// HSumAggFalse: errors in several vectors do not cancel out.
func HSumAggFalse() {
	n, k := nd.Param("n", 2), nd.Param("k", 3)
	params := sum.NewPublicParams(n)
	var Vs common.G1v
	var vs []common.Vec
	var rs common.Vec
	wrong := false
	for i := 0; i < k; i++ {
		v, r := summed(num("v%d.", i), n, false), nd.Zr(num("r%d", i))
		d := nd.Zr(num("d%d", i))
		v[n-1] = v[n-1].Plus(d)
		if !same(d, common.IntToZr(0)) {
			wrong = true
		}
		Vs = append(Vs, sumCommit(params, v, r))
		vs, rs = append(vs, v), append(rs, r)
	}
	accepted := false
	nd.Panics(func() { accepted = sum.NewAggregatedArgument(params, Vs, vs, rs).VerifyAggregated(params, Vs) == nil })
	nd.Assert(!(wrong && accepted), "wrong sums are proved together")
}

// HSumAggCancel: nor do opposite errors in any two of many vectors.
func HSumAggCancel() {
	n, k := nd.Param("n", 2), nd.Param("k", 20)
	params := sum.NewPublicParams(n)
	i := nd.Choice("i", k-1)
	j := i + 1 + nd.Choice("j", k-1-i)
	d := nd.Zr("d")
	var Vs common.G1v
	var vs []common.Vec
	var rs common.Vec
	for l := 0; l < k; l++ {
		v, r := summed(num("v%d.", l), n, false), nd.Zr(num("r%d", l))
		switch l {
		case i:
			v[n-1] = v[n-1].Plus(d)
		case j:
			v[n-1] = v[n-1].Plus(common.NegZr(d))
		}
		Vs = append(Vs, sumCommit(params, v, r))
		vs, rs = append(vs, v), append(rs, r)
	}
	accepted := false
	nd.Panics(func() { accepted = sum.NewAggregatedArgument(params, Vs, vs, rs).VerifyAggregated(params, Vs) == nil })
	nd.Assert(!accepted || same(d, common.IntToZr(0)), "opposite errors in two sums are proved together")
}

// HSumTamper: no element of an honest sum proof, nor the commitment, can be changed.
// The claim and commitment of the inner argument are recomputed by the verifier.
func HSumTamper() {
	n := nd.Param("n", 4)
	params := sum.NewPublicParams(n)
	v, r := summed("v", n, false), nd.Zr("r")
	s := struct {
		V     *math.G1
		Proof *sum.Proof
	}{V: sumCommit(params, v, r)}
	_, s.Proof = sum.NewArgument(params, s.V, v, r)
	skip := ippClaim
	p := nd.Tamper(&s, nd.Choice("leaf", nd.Leaves(&s, skip...)), "δ", skip...)
	nd.Assert(s.Proof.Verify(params, &sum.Argument{V: s.V}) != nil, "an altered sum proof is accepted: "+p)
}

// HSumAggTamper: an aggregated proof is about exactly the commitments it was made for.
func HSumAggTamper() {
	n, k := nd.Param("n", 2), nd.Param("k", 2)
	params := sum.NewPublicParams(n)
	var Vs common.G1v
	var vs []common.Vec
	var rs common.Vec
	for i := 0; i < k; i++ {
		v, r := summed(num("v%d.", i), n, false), nd.Zr(num("r%d", i))
		Vs = append(Vs, sumCommit(params, v, r))
		vs, rs = append(vs, v), append(rs, r)
	}
	s := struct {
		Vs    common.G1v
		Proof *sum.Proof
	}{append(common.G1v(nil), Vs...), sum.NewAggregatedArgument(params, Vs, vs, rs)}
	skip := ippClaim
	l := nd.Leaves(&s, skip...)
	how := nd.Choice("how", l+2)
	p := ""
	switch {
	case how < l:
		p = nd.Tamper(&s, how, "δ", skip...)
	case how == l:
		p = "order"
		nd.Assume(!s.Vs[0].Equals(s.Vs[1]))
		s.Vs[0], s.Vs[1] = s.Vs[1], s.Vs[0]
	default:
		p = "one more"
		s.Vs = append(s.Vs, nd.G1("T"))
	}
	nd.Assert(s.Proof.VerifyAggregated(params, s.Vs) != nil, "an altered aggregated sum proof is accepted: "+p)
}

// HSumBinding: the challenges depend on the statement and on everything sent before them.
func HSumBinding() {
	n := nd.Param("n", 2)
	params := sum.NewPublicParams(n)
	v, r := summed("v", n, false), nd.Zr("r")
	s := &struct {
		V     *math.G1
		Proof *sum.Proof
	}{V: sumCommit(params, v, r)}
	_, s.Proof = sum.NewArgument(params, s.V, v, r)
	trace := func() []string {
		return challenges(func() { s.Proof.Verify(params, &sum.Argument{V: s.V}) })
	}
	groups, own := []int{3}, []int{1} // V, W and the claim about W; the inner argument is sent later
	binding(s, trace, groups, own, ippClaim...)
}

// HSumAggBinding: likewise for several vectors, whose weights depend on all commitments in their order.
func HSumAggBinding() {
	n, k := nd.Param("n", 2), nd.Param("k", 2)
	params := sum.NewPublicParams(n)
	var vs []common.Vec
	var rs common.Vec
	s := &struct {
		V     common.G1v
		Proof *sum.Proof
	}{}
	for i := 0; i < k; i++ {
		v, r := summed(num("v%d.", i), n, false), nd.Zr(num("r%d", i))
		s.V = append(s.V, sumCommit(params, v, r))
		vs, rs = append(vs, v), append(rs, r)
	}
	s.Proof = sum.NewAggregatedArgument(params, s.V, vs, rs)
	trace := func() []string {
		return challenges(func() { s.Proof.VerifyAggregated(params, s.V) })
	}
	binding(s, trace, []int{k, 2}, []int{1, 1}, ippClaim...)
	base := trace()
	i, j := nd.Choice("i", k), nd.Choice("j", k)
	if i != j && !s.V[i].Equals(s.V[j]) {
		s.V[i], s.V[j] = s.V[j], s.V[i]
		nd.Assert(allChanged(base, trace()), "a challenge does not depend on the order of the commitments")
	}
}
