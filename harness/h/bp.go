package h

import (
	math "github.com/IBM/mathlib"

	"pol/bp"
	"pol/common"
	"pol/zzverif/nd"
)

// the claim and commitment of an inner argument are recomputed by the verifier of the outer one
var ippClaim = []string{"InnerProductProof:P", "InnerProductProof:C"}

func inner(a, b common.Vec) *math.Zr {
	s := common.IntToZr(0)
	for i := range a {
		s = s.Plus(a[i].Mul(b[i]))
	}
	return s
}

func copyVec(v common.Vec) common.Vec {
	r := make(common.Vec, len(v))
	for i := range v {
		r[i] = v[i].Copy()
	}
	return r
}

func eqVec(a, b common.Vec) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equals(b[i]) {
			return false
		}
	}
	return true
}

// HIPA: an honest inner product argument is accepted and claims the inner product of its vectors.
func HIPA() {
	n := nd.Param("n", 4)
	params := bp.NewPublicParams(n)
	a, b := vec("a", n), vec("b", n)
	if nd.Param("shapes", 1) > 1 {
		a[n-1] = scalar("ax")
	}
	a0, b0 := copyVec(a), copyVec(b)
	var arg *bp.InnerProdArgument
	keeps("committing", func() { arg = bp.NewInnerProdArgument(params, a, b) }, params, &a, &b)
	nd.Assert(same(arg.C, inner(a, b)), "the argument claims another inner product")
	var proof *bp.InnerProductProof
	keeps("proving", func() { proof = arg.Prove() }, params, arg)
	keeps("verifying", func() { proof.Verify(params) }, params, proof)
	nd.Assert(same(proof.C, inner(a, b)), "the proof claims another inner product")
	nd.Assert(proof.P.Equals(arg.P), "the proof is for another commitment")
	nd.Assert(proof.Verify(params) == nil, "an honest inner product proof is rejected")
	nd.Assert(proof.Verify(params) == nil, "verification is not repeatable")
	nd.Assert(eqVec(a, a0) && eqVec(b, b0), "proving changes the vectors")
	fresh := bp.NewPublicParams(n)
	nd.Assert(proof.Verify(fresh) == nil, "an honest inner product proof is rejected under equal parameters")
}

// HIPATamper: no element of an honest proof can be changed.
func HIPATamper() {
	n := nd.Param("n", 4)
	params := bp.NewPublicParams(n)
	proof := bp.NewInnerProdArgument(params, vec("a", n), vec("b", n)).Prove()
	k := nd.Choice("leaf", nd.Leaves(proof))
	p := nd.Tamper(proof, k, "δ")
	nd.Assert(proof.Verify(params) != nil, "an altered inner product proof is accepted: "+p)
}

// HIPAFalse: the prover cannot convince the verifier of a false claim by following the protocol.
func HIPAFalse() {
	n := nd.Param("n", 4)
	params := bp.NewPublicParams(n)
	arg := bp.NewInnerProdArgument(params, vec("a", n), vec("b", n))
	s := struct {
		C *math.Zr
		P *math.G1
	}{arg.C, arg.P}
	p := nd.Tamper(&s, nd.Choice("leaf", 2), "δ")
	arg.C, arg.P = s.C, s.P
	nd.Assert(arg.Prove().Verify(params) != nil, "a false inner product claim is accepted: "+p)
	// other parameters
	proof := bp.NewInnerProdArgument(params, vec("a", n), vec("b", n)).Prove()
	other := bp.NewPublicParams(n)
	if nd.Choice("otherpp", 2) == 1 {
		other.U = nd.G1("U")
	} else {
		other.G = append(common.G1v(nil), other.G...)
		other.G[nd.Choice("g", n)] = nd.G1("G")
	}
	other.RecomputeDigest()
	if !same(nd.Zr("a0"), common.IntToZr(0)) {
		nd.Assert(proof.Verify(other) != nil, "a proof for other parameters is accepted")
	}
}

// HIPALength: proofs of a wrong length are rejected, not crashed on.
func HIPALength() {
	n := nd.Param("n", 4)
	params := bp.NewPublicParams(n)
	proof := bp.NewInnerProdArgument(params, vec("a", n), vec("b", n)).Prove()
	all := append(append([]*math.G1(nil), proof.LRs...), nd.G1("x"), nd.G1("y"), nd.G1("z"))
	k := nd.Choice("len", len(all)+1)
	if k == len(proof.LRs) {
		return
	}
	proof.LRs = all[:k]
	nd.Assert(proof.Verify(params) != nil, "a proof of a wrong length is accepted")
}

// HIPABinding: the first challenge is a function of the commitment, the claim and the parameters;
// each further challenge of both messages of its round and of everything before.
func HIPABinding() {
	n := nd.Param("n", 4)
	params := bp.NewPublicParams(n)
	proof := bp.NewInnerProdArgument(params, vec("a", n), vec("b", n)).Prove()
	trace := func() []string { return challenges(func() { proof.Verify(params) }) }
	groups, own := []int{2}, []int{1} // commitment and claim, then the messages of each round
	for h := n / 2; h > 0; h /= 2 {
		groups, own = append(groups, 2), append(own, 1)
	}
	binding(proof, trace, groups, own)
	// parameters
	base := trace()
	g := []**math.G1{&params.U, &params.G[0], &params.G[n-1], &params.H[0], &params.H[n-1]}[nd.Choice("generator", 5)]
	*g = g1sum(*g, curve.GenG1)
	params.RecomputeDigest()
	nd.Assert(allChanged(base, trace()), "a challenge does not depend on the parameters")
}

// HIR: the iterated reduction is accepted, and both sides derive the same challenges and folded value.
func HIR() {
	n := nd.Param("n", 4)
	params := bp.NewPublicParams(n)
	v := vec("v", n)
	if nd.Param("shapes", 1) > 1 {
		v[0] = scalar("vx")
	}
	v0 := copyVec(v)
	V := params.G.MulV(v).Sum()
	var Δ [][3]*math.G1
	var xs, xs2 common.Vec
	var last, last2 *math.Zr
	var err error
	keeps("reducing", func() { Δ, xs, last = bp.IterativeReduce(params, v, V) }, params, &v, V)
	nd.Assert(V.Equals(params.G.MulV(v0).Sum()) && eqVec(v, v0), "the reduction changes its arguments")
	keeps("verifying", func() { xs2, last2, err = bp.IterativeVerify(params, V, Δ, last) }, params, V, &Δ, last)
	nd.Assert(err == nil, "an honest reduction is rejected")
	nd.Assert(eqVec(xs, xs2) && same(last, last2), "prover and verifier disagree on the challenges or on the final value")
	// the folded value is the combination of the vector that the challenges determine
	fold := v0
	for _, x := range xs {
		h := len(fold) / 2
		next := make(common.Vec, h)
		for i := range next {
			next[i] = fold[i].Plus(x.Mul(fold[h+i]))
		}
		fold = next
	}
	nd.Assert(len(fold) == 1 && same(fold[0], last), "the final value is not the folded vector")
}

// HIRTamper: no element of an honest reduction can be changed, nor the commitment.
func HIRTamper() {
	n := nd.Param("n", 4)
	params := bp.NewPublicParams(n)
	v := vec("v", n)
	V := params.G.MulV(v).Sum()
	s := struct {
		V    *math.G1
		Δ    [][3]*math.G1
		Last *math.Zr
	}{V: V}
	s.Δ, _, s.Last = bp.IterativeReduce(params, v, V)
	if nd.Choice("len", 2) == 1 {
		if nd.Choice("short", 2) == 1 {
			s.Δ = s.Δ[:len(s.Δ)-1]
		} else {
			s.Δ = append(s.Δ, [3]*math.G1{nd.G1("x"), nd.G1("y"), nd.G1("z")})
		}
		_, _, err := bp.IterativeVerify(params, s.V, s.Δ, s.Last)
		nd.Assert(err != nil, "a reduction of a wrong length is accepted")
		return
	}
	p := nd.Tamper(&s, nd.Choice("leaf", nd.Leaves(&s)), "δ")
	_, _, err := bp.IterativeVerify(params, s.V, s.Δ, s.Last)
	nd.Assert(err != nil, "an altered reduction is accepted: "+p)
}

// HIRFalse: reducing a vector that is not the committed one is rejected.
func HIRFalse() {
	n := nd.Param("n", 4)
	params := bp.NewPublicParams(n)
	v := vec("v", n)
	V := params.G.MulV(v).Sum()
	if nd.Choice("how", 2) == 0 {
		w := append(common.Vec(nil), v...)
		nd.Tamper(&w, nd.Choice("i", n), "δ")
		v = w
	} else {
		V.Add(nd.G1("T").Mul(nd.Zr("t")))
		nd.Assume(!same(nd.Zr("t"), common.IntToZr(0)))
	}
	Δ, _, last := bp.IterativeReduce(params, v, V)
	_, _, err := bp.IterativeVerify(params, V, Δ, last)
	nd.Assert(err != nil, "a reduction of another vector is accepted")
}

// padded adds rounds that do not follow, for the verifier to stop at the last one of Δ.
func padded(Δ [][3]*math.G1, n int) [][3]*math.G1 {
	r := append([][3]*math.G1(nil), Δ...)
	r[len(r)-1][2] = g1sum(curve.GenG1, curve.GenG1)
	for len(r) < n {
		r = append(r, [3]*math.G1{curve.GenG1, curve.GenG1, curve.GenG1})
	}
	return r
}

// HIRSwitch: a prover that reduces another vector from some round on is rejected, whether the commitments it sends
// follow from the round before or are those of its vector.
func HIRSwitch() {
	n := nd.Param("n", 4)
	params := bp.NewPublicParams(n)
	v := vec("v", n)
	V := params.G.MulV(v).Sum()
	G, prev := append(common.G1v(nil), params.G...), V
	rounds := 0
	for h := n / 2; h > 0; h /= 2 {
		rounds++
	}
	at := nd.Choice("at", rounds)
	var Δ [][3]*math.G1
	for r := 0; r < rounds; r++ {
		h := len(v) / 2
		if r == at {
			v = append(common.Vec(nil), v...)
			nd.Tamper(&v, nd.Choice("i", len(v)), "δ")
		}
		A, B := identity(), identity()
		for i := 0; i < h; i++ {
			A.Add(G[i].Mul(v[h+i]))
			B.Add(G[h+i].Mul(v[i]))
		}
		Δ = append(Δ, [3]*math.G1{A, B, V})
		ch := nd.Challenges(func() { bp.IterativeVerify(params, V, padded(Δ, rounds), v[0]) })
		if len(ch) <= r {
			return // rejected before this round, which changes nothing in earlier ones
		}
		x := common.FieldElementFromBytes(ch[len(ch)-1])
		y := invert(x)
		follow := A.Mul(x)
		follow.Add(B.Mul(y))
		follow.Add(prev)
		own := identity()
		for i := 0; i < h; i++ {
			G[i] = g1sum(G[i], G[h+i].Mul(y))
			v[i] = v[i].Plus(x.Mul(v[h+i]))
			own.Add(G[i].Mul(v[i]))
		}
		G, v = G[:h], v[:h]
		prev = follow
		if r >= at && nd.Choice(num("own%d", r), 2) == 1 {
			prev = own
		}
		Δ[r][2] = prev
	}
	_, _, err := bp.IterativeVerify(params, V, Δ, v[0])
	nd.Assert(err != nil, "a reduction that goes on with another vector is accepted")
}

// HIRBinding: the challenges depend on the parameters, the commitment and both messages of every round before.
func HIRBinding() {
	n := nd.Param("n", 4)
	params := bp.NewPublicParams(n)
	v := vec("v", n)
	s := &struct {
		V    *math.G1
		Δ    [][3]*math.G1
		Last *math.Zr
	}{V: params.G.MulV(v).Sum()}
	s.Δ, _, s.Last = bp.IterativeReduce(params, v, s.V)
	// rounds with the same messages have the same challenges
	Vs := common.G1v{s.V}
	for _, δ := range s.Δ {
		Vs = append(Vs, δ[2])
	}
	nd.Assume(differ(Vs))
	// the verifier stops where a round does not follow from the one before: let each follow
	trace := func() []string {
		Δ, prev := append([][3]*math.G1(nil), s.Δ...), s.V
		for k := range Δ {
			ch := nd.Challenges(func() { bp.IterativeVerify(params, s.V, padded(Δ[:k+1], len(Δ)), s.Last) })
			if len(ch) == 0 {
				break
			}
			x := common.FieldElementFromBytes(ch[len(ch)-1])
			next := Δ[k][0].Mul(x)
			next.Add(Δ[k][1].Mul(invert(x)))
			next.Add(prev)
			prev, Δ[k][2] = next, next
		}
		return challenges(func() { bp.IterativeVerify(params, s.V, Δ, s.Last) })
	}
	groups, own := []int{3}, []int{1} // the commitment and the first round, then each round
	for h := n / 4; h > 0; h /= 2 {
		groups, own = append(groups, 2), append(own, 1)
	}
	binding(s, trace, groups, own)
	// parameters
	base := trace()
	g := &params.G[[]int{0, n / 2, n - 1}[nd.Choice("generator", 3)]]
	*g = g1sum(*g, curve.GenG1)
	params.RecomputeDigest()
	nd.Assert(allChanged(base, trace()), "a challenge does not depend on the parameters")
}
