package h

import (
	"fmt"

	math "github.com/IBM/mathlib"

	"pol/bp"
	"pol/common"
	"pol/zzverif/nd"
)

// 63-bit values by the position of their top bit, 0 being the value 0.
func bounded(name string, top int) *math.Zr {
	if top == 0 {
		return common.IntToZr(0)
	}
	return nd.ZrBits(name, top, true)
}

func rangeCommit(params *bp.RangeProofPublicParams, v common.Vec, r *math.Zr) *math.G1 {
	V := params.F.Mul(r)
	V.Add(params.Gs.MulV(v).Sum())
	return V
}

// HRange: values in [0, 2^63) can be proved to be in range.
func HRange() {
	n := nd.Param("n", 2)
	params := bp.NewRangeProofPublicParams(n)
	v := make(common.Vec, n)
	step := nd.Param("step", 21)
	for i := range v {
		if i == 0 {
			v[i] = bounded("v0", nd.Choice("top0", 63/step+1)*step)
		} else {
			v[i] = bounded(num("v%d", i), 63*nd.Choice(num("top%d", i), 2))
		}
	}
	r := nd.Zr("r")
	V := rangeCommit(params, v, r)
	v0 := copyVec(v)
	var proof *bp.RangeProof
	keeps("proving", func() { proof = bp.ProveRange(params, V, v, r) }, params, V, &v, r)
	nd.Assert(eqVec(v, v0) && V.Equals(rangeCommit(params, v, r)), "proving changes its arguments")
	keeps("verifying", func() {
		nd.Assert(bp.VerifyRange(params, proof, V) == nil, "an honest range proof is rejected")
	}, params, V)
	fresh := bp.NewRangeProofPublicParams(n)
	nd.Assert(bp.VerifyRange(fresh, proof, V) == nil, "an honest range proof is rejected under equal parameters")
}

// HRangeOut: values outside [0, 2^63) are not proved to be in range.
func HRangeOut() {
	n := nd.Param("n", 2)
	params := bp.NewRangeProofPublicParams(n)
	v := make(common.Vec, n)
	for i := range v {
		v[i] = bounded(num("v%d", i), 5)
	}
	at := nd.Choice("at", n)
	switch nd.Choice("how", nd.Param("how", 3)) {
	case 0: // 64 and 65 bits
		v[at] = nd.ZrBits("w", 64+nd.Choice("more", 2), true)
	case 1: // negative
		v[at] = curve.NewZrFromInt(nd.Int64("neg", -1<<62, -1))
	case 2: // negative, canonical
		v[at] = common.NegZr(curve.NewZrFromInt(nd.Int64("neg", 1, 1<<62)))
	}
	r := nd.Zr("r")
	V := rangeCommit(params, v, r)
	accepted := false
	if !nd.Panics(func() {
		proof := bp.ProveRange(params, V, v, r)
		accepted = bp.VerifyRange(params, proof, V) == nil
	}) {
		nd.Reach("proof made")
	}
	nd.Assert(!accepted, "a value out of range is proved to be in range")
}

// HRangeBits: a prover that puts other digits in place of the bits of an entry has no proof accepted, not even when it
// moves the claimed inner product by just the amount that the final equation lacks.
func HRangeBits() {
	n := nd.Param("n", 2)
	params := bp.NewRangeProofPublicParams(n)
	v := make(common.Vec, n)
	digits := make([][]uint8, n)
	for i := range v {
		v[i] = common.IntToZr(1<<20 + i)
		digits[i] = common.Bits(v[i], 63)
	}
	top := two(62)
	how := nd.Choice("how", 5)
	switch how {
	case 0: // the low bits of a number with 64 bits
		low := nd.ZrBits("low", 4, true)
		v[0] = low.Plus(top).Plus(top)
		digits[0] = common.Bits(low, 63)
	case 1: // the absolute value of a negative number
		k := nd.ZrBits("k", 4, true)
		v[0] = mod(common.NegZr(k))
		digits[0] = common.Bits(k, 63)
	case 2: // digits that give a number out of range
		t := nd.Uint8("t", 2, 255)
		v[0] = top.Mul(common.IntsToZr([]uint8{t})[0])
		digits[0] = make([]uint8, 63)
		digits[0][62] = t
	case 3: // digits that give the number, but are not bits
		t := nd.Uint8("t", 2, 255)
		v[0] = common.IntsToZr([]uint8{t})[0]
		digits[0] = make([]uint8, 63)
		digits[0][0] = t
	case 4: // digits for any number
		v[0] = nd.Zr("v")
		for i := 1; i < n; i++ {
			nd.Assume(!same(v[0], v[i]))
		}
		digits[0] = make([]uint8, 63)
		at := 62 * nd.Choice("at", 2)
		if nd.Choice("bits", 2) == 1 {
			digits[0][at] = nd.Uint8("t", 2, 255)
			digits[0][62-at] = nd.Uint8("t'", 0, 255)
		} else {
			digits[0][at] = uint8(nd.Choice("b", 2))
			digits[0][62-at] = uint8(nd.Choice("b'", 2))
			nd.Assume(!same(v[0], digitSum(digits[0])))
		}
	}
	r := nd.Zr("r")
	V := rangeCommit(params, v, r)
	nd.Replace("pol/common.Bits", func(x *math.Zr, l int) []uint8 {
		for i := 1; i < n; i++ {
			if x.Equals(v[i]) {
				return append([]uint8(nil), digits[i]...)
			}
		}
		return append([]uint8(nil), digits[0]...)
	})
	forge := nd.Choice("forge", 2)
	accepted := false
	nd.Panics(func() {
		s := &struct{ Proof *bp.RangeProof }{}
		cs := challenges(func() { s.Proof = bp.ProveRange(params, V, v, r) })
		rounds := 0
		for 1<<rounds < n {
			rounds++
		}
		// the first challenge and those of the reduction come before
		if at := 1 + rounds; forge == 1 && len(cs) > at+1 {
			y0, y1 := common.FieldElementFromBytes([]byte(cs[at])), common.FieldElementFromBytes([]byte(cs[at+1]))
			lack := y1.Mul(y1).Mul(v[0].Plus(common.NegZr(digitSum(digits[0]))))
			y := common.IntToZr(1)
			for _, b := range common.IntsToZr(digits[0]) {
				lack = lack.Plus(common.NegZr(y.Mul(b.Mul(common.IntToZr(1).Plus(common.NegZr(b))))))
				y = y.Mul(y0)
			}
			lack.Mod(curve.GroupOrder)
			for i := 0; i < nd.Leaves(s); i++ {
				if nd.LeafPath(s, i) == ".:Proof.RangeProof:c" {
					nd.Shift(s, i, lack)
				}
			}
		}
		accepted = bp.VerifyRange(params, s.Proof, V) == nil
	})
	nd.Assert(!accepted, "digits that are not the bits of a number in range are accepted")
}

func digitSum(d []uint8) *math.Zr {
	s, w := common.IntToZr(0), common.IntToZr(1)
	for _, b := range common.IntsToZr(d) {
		s = s.Plus(w.Mul(b))
		w = w.Plus(w)
	}
	s.Mod(curve.GroupOrder)
	return s
}

// HRangeFalse: a proof about other values than the committed ones, or with another blinding factor, is rejected.
func HRangeFalse() {
	n := nd.Param("n", 2)
	params := bp.NewRangeProofPublicParams(n)
	v := make(common.Vec, n)
	for i := range v {
		v[i] = bounded(num("v%d", i), 4)
	}
	r := nd.Zr("r")
	V := rangeCommit(params, v, r)
	w := append(common.Vec(nil), v...)
	switch nd.Choice("how", 3) {
	case 0:
		i := nd.Choice("at", n)
		w[i] = bounded("w", 3)
		nd.Assume(!w[i].Equals(v[i]))
	case 1:
		r = r.Plus(nd.Zr("dr"))
		nd.Assume(!same(nd.Zr("dr"), common.IntToZr(0)))
	case 2:
		V.Add(nd.G1("T").Mul(nd.Zr("t")))
		nd.Assume(!same(nd.Zr("t"), common.IntToZr(0)))
	}
	accepted := false
	nd.Panics(func() {
		proof := bp.ProveRange(params, V, w, r)
		accepted = bp.VerifyRange(params, proof, V) == nil
	})
	nd.Assert(!accepted, "a range proof is accepted for values that are not the committed ones")
}

// HRangeTamper: no element of an honest range proof, nor the commitment, can be changed.
// The claim and commitment of the inner argument are recomputed by the verifier.
func HRangeTamper() {
	n := nd.Param("n", 2)
	params := bp.NewRangeProofPublicParams(n)
	v := make(common.Vec, n)
	for i := range v {
		v[i] = bounded(num("v%d", i), 3)
	}
	r := nd.Zr("r")
	s := struct {
		V     *math.G1
		Proof *bp.RangeProof
	}{V: rangeCommit(params, v, r)}
	s.Proof = bp.ProveRange(params, s.V, v, r)
	skip := ippClaim
	p := nd.Tamper(&s, nd.Choice("leaf", nd.Leaves(&s, skip...)), "δ", skip...)
	nd.Assert(bp.VerifyRange(params, s.Proof, s.V) != nil, "an altered range proof is accepted: "+p)
}

// HRangeBinding: the challenges depend on everything sent before them. The iterated reduction, which C07 is about, is
// replaced by fixed challenges, and the inner product argument, which C06 is about, is left out.
func HRangeBinding() {
	n := nd.Param("n", 2)
	params := bp.NewRangeProofPublicParams(n)
	v := common.Vec{bounded("v0", 2), bounded("v1", 2)}
	r := nd.Zr("r")
	s := &struct {
		V     *math.G1
		Proof *bp.RangeProof
	}{V: rangeCommit(params, v, r)}
	s.Proof = bp.ProveRange(params, s.V, v, r)
	x, u := nd.Gen("x"), nd.Gen("u")
	nd.Replace("pol/bp.IterativeVerify", func(pp *bp.PP, prevV *math.G1, Δ [][3]*math.G1, vFinal *math.Zr) (common.Vec, *math.Zr, error) {
		return common.Vec{x.Copy()}, u.Copy(), nil
	})
	nd.Replace("(*pol/bp.InnerProductProof).Verify", func(p *bp.InnerProductProof, pp *bp.PP) error { return fmt.Errorf("not looked at") })
	trace := func() []string { return challenges(func() { bp.VerifyRange(params, s.Proof, s.V) }) }
	// V, W and Q; R; C1 and C2
	binding(s, trace, []int{3, 1, 2}, []int{1, 2, 1}, append([]string{"Δ"}, ippClaim...)...)
}

// stubInner replaces the inner product argument by its contract, which C05 and C06 decide: a proof is accepted iff its
// statement is the one that its vectors satisfy.
func stubInner() {
	var a, b common.Vec
	arg := func(pp *bp.PP, x, y common.Vec) *bp.InnerProdArgument {
		a, b = copyVec(x), copyVec(y)
		return &bp.InnerProdArgument{C: x.InnerProd(y)}
	}
	prove := func(p *bp.InnerProdArgument) *bp.InnerProductProof {
		return &bp.InnerProductProof{C: p.C}
	}
	verify := func(p *bp.InnerProductProof, pp *bp.PP) error {
		P := pp.G.MulV(a).Sum()
		P.Add(pp.H.MulV(b).Sum())
		if !p.C.Equals(a.InnerProd(b)) || (p.P != nil && !p.P.Equals(P)) {
			return fmt.Errorf("invalid")
		}
		return nil
	}
	if nd.Param("native", 0) == 1 {
		nd.Replace("pol/bp.NewInnerProdArgument", arg)
		nd.Replace("(*pol/bp.InnerProdArgument).Prove", prove)
		nd.Replace("(*pol/bp.InnerProductProof).Verify", verify)
		return
	}
	nd.Stub("pol/bp.NewInnerProdArgument", arg)
	nd.Stub("(*pol/bp.InnerProdArgument).Prove", prove)
	nd.Stub("(*pol/bp.InnerProductProof).Verify", verify)
}

// HRangeWide: the proofs of many fixed values are accepted, up to the inner product argument.
func HRangeWide() {
	n := nd.Param("n", 16)
	stubInner()
	params := bp.NewRangeProofPublicParams(n)
	v := make(common.Vec, n)
	for i := range v {
		switch i % 3 {
		case 0:
			v[i] = ofInt(int64(i))
		case 1:
			v[i] = ofInt(1<<62 + int64(i))
		default:
			v[i] = ofInt(1<<63 - 1 - int64(i)*1000003)
		}
	}
	r := nd.Zr("r")
	V := rangeCommit(params, v, r)
	nd.Assert(bp.VerifyRange(params, bp.ProveRange(params, V, v, r), V) == nil, "an honest range proof is rejected")
}

// HRangeEdge: the proofs of values at the edges of the range are accepted.
func HRangeEdge() {
	n := nd.Param("n", 2)
	params := bp.NewRangeProofPublicParams(n)
	edges := []int64{0, 1<<63 - 1, 1, 1 << 62, 1<<62 - 1, 0x5555555555555555}
	v := make(common.Vec, n)
	for i := range v {
		v[i] = ofInt(edges[nd.Choice(num("v%d", i), len(edges))])
	}
	r := nd.Zr("r")
	V := rangeCommit(params, v, r)
	nd.Assert(bp.VerifyRange(params, bp.ProveRange(params, V, v, r), V) == nil, "an honest range proof is rejected")
}
