package h

import (
	math "github.com/IBM/mathlib"

	"pol/common"
	"pol/poe"
	"pol/pp"
	"pol/zzverif/nd"
)

// HEq: equal elements of two committed vectors are proved equal.
func HEq() {
	n := nd.Param("n", 3)
	params := poe.NewPublicParams(n, 2)
	I, J := nd.Choice("I", n-1), nd.Choice("J", n-1) // the last elements are blinding factors
	v, w := vec("v", n), vec("w", n)
	v[I] = scalar("x")
	w[J] = v[I].Copy()
	reduce("w.reduced", w[J])
	v0, w0 := copyVec(v), copyVec(w)
	e := &poe.Equality{RO: poe.RO, PP: params, V: pp.Commit(params.PP, v), W: pp.Commit(params.PP, w), I: I, J: J}
	V, W := e.V.Copy(), e.W.Copy()
	var proof *poe.Proof
	keeps("proving", func() { proof = e.Prove(v, w) }, e, &v, &w)
	keeps("verifying", func() {
		nd.Assert(e.Verify(proof) == nil, "an honest equality proof is rejected")
	}, e, proof)
	nd.Assert(e.Verify(proof) == nil, "verification is not repeatable")
	nd.Assert(eqVec(v, v0) && eqVec(w, w0) && e.V.Equals(V) && e.W.Equals(W), "proving or verifying changes its arguments")
}

// HEqs: so are several pairs at once.
func HEqs() {
	n, m := nd.Param("n", 3), nd.Param("m", 2)
	params := poe.NewPublicParams(n, m)
	e := &poe.Equalities{RO: poe.RO, PP: params}
	var vs, ws []common.Vec
	for k := 0; k < m; k++ {
		I, J := nd.Choice(num("I%d", k), n-1), nd.Choice(num("J%d", k), n-1)
		v, w := vec(num("v%d.", k), n), vec(num("w%d.", k), n)
		if k == 0 {
			v[I] = scalar("x")
		}
		w[J] = v[I].Copy()
		if k == 0 {
			reduce("w.reduced", w[J])
		}
		vs, ws = append(vs, v), append(ws, w)
		e.V, e.W = append(e.V, pp.Commit(params.PP, v)), append(e.W, pp.Commit(params.PP, w))
		e.I, e.J = append(e.I, I), append(e.J, J)
	}
	b := string(e.V.Bytes()) + string(e.W.Bytes())
	v0, w0 := copyVec(vs[0]), copyVec(ws[m-1])
	var proof *poe.AggregatedProof
	keeps("proving", func() { proof = e.Prove(vs, ws) }, e, &vs, &ws)
	keeps("verifying", func() {
		nd.Assert(e.Verify(proof) == nil, "an honest aggregated equality proof is rejected")
	}, e)
	nd.Assert(e.Verify(proof) == nil, "verification is not repeatable")
	nd.Assert(eqVec(vs[0], v0) && eqVec(ws[m-1], w0) && string(e.V.Bytes())+string(e.W.Bytes()) == b, "proving or verifying changes its arguments")
}

// HEqFalse: elements that are not equal are not proved equal, by lying about either vector or about none.
func HEqFalse() {
	n := nd.Param("n", 2)
	params := poe.NewPublicParams(n, 2)
	I, J := nd.Choice("I", n), nd.Choice("J", n)
	v, w := vec("v", n), vec("w", n)
	nd.Assume(!v[I].Equals(w[J]))
	e := &poe.Equality{RO: poe.RO, PP: params, V: pp.Commit(params.PP, v), W: pp.Commit(params.PP, w), I: I, J: J}
	switch nd.Choice("lie", 4) {
	case 1:
		v[I] = w[J].Copy()
	case 2:
		w[J] = v[I].Copy()
	case 3:
		v[I] = nd.Zr("u")
		w[J] = nd.Zr("u")
	}
	accepted := false
	nd.Panics(func() { accepted = e.Verify(e.Prove(v, w)) == nil })
	nd.Assert(!accepted, "different values are proved equal")
}

// HEqsFalse: differences in several pairs do not cancel out, neither in an honest run of the prover nor when the
// claimed inner product is moved by just the amount that the pairing equation lacks.
func HEqsFalse() {
	n, m := nd.Param("n", 2), nd.Param("m", 2)
	params := poe.NewPublicParams(n, m)
	var ts common.Vec
	e := &poe.Equalities{PP: params, RO: func(gs common.G1v, integers []int, digest []byte, k int) common.Vec {
		ts = poe.RO(gs, integers, digest, k)
		return append(common.Vec(nil), ts...)
	}}
	var vs, ws []common.Vec
	lack := common.IntToZr(0)
	var lacks []func() *math.Zr
	wrong := false
	lie := nd.Choice("lie", 3)
	for k := 0; k < m; k++ {
		I, J := nd.Choice(num("I%d", k), n), nd.Choice(num("J%d", k), n)
		v, w := vec(num("v%d.", k), n), vec(num("w%d.", k), n)
		w[J] = v[I].Plus(nd.Zr(num("d%d", k)))
		if !same(nd.Zr(num("d%d", k)), common.IntToZr(0)) {
			wrong = true
		}
		e.V, e.W = append(e.V, pp.Commit(params.PP, v)), append(e.W, pp.Commit(params.PP, w))
		e.I, e.J = append(e.I, I), append(e.J, J)
		vI, wJ := v[I], w[J]
		switch lie {
		case 1:
			v[I] = w[J]
		case 2:
			w[J] = v[I]
		}
		vs, ws = append(vs, v), append(ws, w)
		used, k := v[I], k
		lacks = append(lacks, func() *math.Zr {
			return ts[2*k].Mul(vI.Plus(common.NegZr(used))).Plus(ts[2*k+1].Mul(wJ.Plus(common.NegZr(used))))
		})
	}
	forge := nd.Choice("forge", 2)
	accepted := false
	nd.Panics(func() {
		s := &struct{ Proof *poe.AggregatedProof }{e.Prove(vs, ws)}
		if forge == 1 && len(ts) >= 2*m {
			for _, l := range lacks {
				lack = lack.Plus(l())
			}
			lack.Mod(curve.GroupOrder)
			for i := 0; i < nd.Leaves(s); i++ {
				if nd.LeafPath(s, i) == ".:Proof.AggregatedProof:c" {
					nd.Shift(s, i, lack)
				}
			}
		}
		accepted = e.Verify(s.Proof) == nil
	})
	nd.Assert(!(wrong && accepted), "different values are proved equal together")
}

// HEqsCancel: nor do opposite errors in any two of the many commitments to equal values.
func HEqsCancel() {
	n, m := nd.Param("n", 2), nd.Param("m", 8)
	params := poe.NewPublicParams(n, m)
	e := &poe.Equalities{PP: params, RO: poe.RO}
	i := nd.Choice("i", 2*m-1)
	j := i + 1 + nd.Choice("j", 2*m-1-i)
	d := nd.Zr("d")
	var vs, ws []common.Vec
	for k := 0; k < m; k++ {
		v, w := vec(num("v%d.", k), n), vec(num("w%d.", k), n)
		w[0] = v[0].Copy()
		for side, x := range []common.Vec{v, w} {
			y := append(common.Vec{}, x...)
			switch 2*k + side {
			case i:
				y[0] = y[0].Plus(d)
			case j:
				y[0] = y[0].Plus(common.NegZr(d))
			}
			if side == 0 {
				e.V = append(e.V, pp.Commit(params.PP, y))
			} else {
				e.W = append(e.W, pp.Commit(params.PP, y))
			}
		}
		e.I, e.J = append(e.I, 0), append(e.J, 0)
		vs, ws = append(vs, v), append(ws, w) // the prover goes on as if they were equal
	}
	accepted := false
	nd.Panics(func() { accepted = e.Verify(e.Prove(vs, ws)) == nil })
	nd.Assert(!accepted || same(d, common.IntToZr(0)), "different values are proved equal together")
}

// HEqTamper: no element of an honest equality proof, nor of the statement, can be changed.
func HEqTamper() {
	n := nd.Param("n", 3)
	params := poe.NewPublicParams(n, 2)
	I, J := nd.Choice("I", n-1), nd.Choice("J", n-1)
	v, w := vec("v", n), vec("w", n)
	w[J] = v[I].Copy()
	e := &poe.Equality{RO: poe.RO, PP: params, V: pp.Commit(params.PP, v), W: pp.Commit(params.PP, w), I: I, J: J}
	proof := e.Prove(v, w)
	s := struct {
		V, W  *math.G1
		Proof *poe.Proof
	}{e.V, e.W, proof}
	l := nd.Leaves(&s)
	how := nd.Choice("how", l+2)
	p := "positions"
	if how < l {
		p = nd.Tamper(&s, how, "δ")
		e.V, e.W = s.V, s.W
	} else if how == l {
		e.I = (e.I + 1 + nd.Choice("at", n-1)) % n
	} else {
		e.J = (e.J + 1 + nd.Choice("at", n-1)) % n
	}
	nd.Assert(e.Verify(proof) != nil, "an altered equality proof is accepted: "+p)
}

// HEqsTamper: nor of an aggregated one.
func HEqsTamper() {
	n, m := nd.Param("n", 3), nd.Param("m", 2)
	params := poe.NewPublicParams(n, m)
	e := &poe.Equalities{RO: poe.RO, PP: params}
	var vs, ws []common.Vec
	for k := 0; k < m; k++ {
		v, w := vec(num("v%d.", k), n), vec(num("w%d.", k), n)
		I, J := k%(n-1), nd.Choice(num("J%d", k), n-1)
		w[J] = v[I].Copy()
		vs, ws = append(vs, v), append(ws, w)
		e.V, e.W = append(e.V, pp.Commit(params.PP, v)), append(e.W, pp.Commit(params.PP, w))
		e.I, e.J = append(e.I, I), append(e.J, J)
	}
	proof := e.Prove(vs, ws)
	nd.Assert(e.Verify(proof) == nil, "an honest proof is rejected")
	s := struct {
		V, W  common.G1v
		Proof *poe.AggregatedProof
	}{e.V, e.W, proof}
	skip := ippClaim
	l := nd.Leaves(&s, skip...)
	how := nd.Choice("how", l+2*m)
	p := "positions"
	if how < l {
		p = nd.Tamper(&s, how, "δ", skip...)
		e.V, e.W = s.V, s.W
	} else if k := (how - l) / 2; (how-l)%2 == 0 {
		e.I[k] = (e.I[k] + 1 + nd.Choice("at", n-1)) % n
	} else {
		e.J[k] = (e.J[k] + 1 + nd.Choice("at", n-1)) % n
	}
	nd.Assert(e.Verify(proof) != nil, "an altered aggregated equality proof is accepted: "+p)
}

// HEqsLength: a proof with too few or too many commitments is rejected, not crashed on.
func HEqsLength() {
	n, m := nd.Param("n", 2), nd.Param("m", 2)
	params := poe.NewPublicParams(n, m)
	e := &poe.Equalities{RO: poe.RO, PP: params}
	var vs, ws []common.Vec
	for k := 0; k < m; k++ {
		v, w := vec(num("v%d.", k), n), vec(num("w%d.", k), n)
		w[0] = v[0].Copy()
		vs, ws = append(vs, v), append(ws, w)
		e.V, e.W = append(e.V, pp.Commit(params.PP, v)), append(e.W, pp.Commit(params.PP, w))
		e.I, e.J = append(e.I, 0), append(e.J, 0)
	}
	proof := e.Prove(vs, ws)
	nd.Assert(e.Verify(proof) == nil, "an honest proof is rejected")
	v, w := nd.Choice("v", m+3), nd.Choice("w", m+3)
	if v == m && w == m {
		return
	}
	more := common.G1v{nd.G1("x"), nd.G1("y")}
	proof.Vaggr = append(append(common.G1v{}, proof.Vaggr...), more...)[:v]
	proof.Waggr = append(append(common.G1v{}, proof.Waggr...), more...)[:w]
	nd.Assert(e.Verify(proof) != nil, "a proof with another number of commitments is accepted")
}

// HEqBind: two commitments, however made, are proved equal only if the committed elements are;
// the prover answers the challenges with anything linear in them.
func HEqBind() {
	n := nd.Param("n", 2)
	params := poe.NewPublicParams(n, 2)
	I, J := nd.Choice("I", n), nd.Choice("J", n)
	x, t0, t1 := nd.Gen("x"), nd.Gen("t0"), nd.Gen("t1")
	ro := func(gs common.G1v, ints []int, d []byte, k int) common.Vec {
		if k == 1 {
			return common.Vec{x.Copy()}
		}
		return common.Vec{t0.Copy(), t1.Copy()}
	}
	e := &poe.Equality{RO: ro, PP: params, V: span("v", params.PP), W: span("w", params.PP), I: I, J: J}
	proof := &poe.Proof{V: span("V", params.PP), W: span("W", params.PP)}
	proof.C = nd.Zr("c0").Plus(nd.Zr("c1").Mul(x))
	proof.Ω = span("o0", params.PP).Mul(t0)
	proof.Ω.Add(span("o1", params.PP).Mul(t1))
	proof.Ω.Add(span("p0", params.PP).Mul(t0.Mul(x)))
	proof.Ω.Add(span("p1", params.PP).Mul(t1.Mul(x)))
	if e.Verify(proof) == nil {
		nd.Reach("accepted")
		nd.Assert(same(nd.Zr(num("v%d", I)), nd.Zr(num("w%d", J))), "commitments to different values are proved equal")
	}
}

// HEqBinding: the challenges depend on the statement and on everything sent before them.
func HEqBinding() {
	n := nd.Param("n", 3)
	params := poe.NewPublicParams(n, 2)
	v, w := vec("v", n), vec("w", n)
	w[1] = v[0].Copy()
	e := &poe.Equality{PP: params, V: pp.Commit(params.PP, v), W: pp.Commit(params.PP, w), I: 0, J: 1, RO: poe.RO}
	s := &struct {
		V, W  *math.G1
		Proof *poe.Proof
	}{e.V, e.W, e.Prove(v, w)}
	trace := func() []string {
		e.V, e.W = s.V, s.W
		return challenges(func() { e.Verify(s.Proof) })
	}
	base := trace()
	nd.Assert(len(base) >= 3 && base[1] != base[2] && base[0] != base[1] && base[0] != base[2], "there are no three different challenges")
	binding(s, trace, []int{4, 1}, []int{1, 2})
	base = trace()
	switch nd.Choice("what", 3) {
	case 0:
		e.I = 1
	case 1:
		e.J = 0
	case 2:
		e.PP = poe.NewPublicParams(n, 2)
		nd.Assert(allChanged(base, trace()), "a challenge does not depend on the parameters")
	}
	alt := trace()
	k := 0
	for i := range base {
		if i >= len(alt) || base[i] != alt[i] {
			k++
		}
	}
	nd.Assert(k >= 2, "the second challenges do not depend on the positions")
}

// HEqsBinding: likewise for several pairs.
func HEqsBinding() {
	n, m := nd.Param("n", 3), nd.Param("m", 2)
	params := poe.NewPublicParams(n, m)
	e := &poe.Equalities{PP: params, RO: poe.RO}
	var vs, ws []common.Vec
	for k := 0; k < m; k++ {
		v, w := vec(num("v%d.", k), n), vec(num("w%d.", k), n)
		w[1] = v[0].Copy()
		vs, ws = append(vs, v), append(ws, w)
		e.V, e.W = append(e.V, pp.Commit(params.PP, v)), append(e.W, pp.Commit(params.PP, w))
		e.I, e.J = append(e.I, 0), append(e.J, 1)
	}
	s := &struct {
		V, W  common.G1v
		Proof *poe.AggregatedProof
	}{e.V, e.W, e.Prove(vs, ws)}
	trace := func() []string {
		e.V, e.W = s.V, s.W
		return challenges(func() { e.Verify(s.Proof) })
	}
	base := trace()
	nd.Assert(len(fresh(base)) >= 1+2*m, "there are not enough different challenges")
	// the commitments and the prover's first ones; then those to the values
	binding(s, trace, []int{4 * m, 2}, []int{1, 2 * m}, ippClaim...)
	base = trace()
	k := nd.Choice("k", m)
	switch nd.Choice("what", 4) {
	case 0:
		e.I[k] = 1
	case 1:
		e.J[k] = 0
	case 2:
		e.PP = poe.NewPublicParams(n, m)
	case 3:
		nd.Assume(!s.V[0].Equals(s.V[1]))
		s.V[0], s.V[1] = s.V[1], s.V[0]
	}
	nd.Assert(allChanged(base, trace()), "a challenge does not depend on the positions, the parameters or the order")
}

// HEqRO: the random oracle is a canonical injective function of its inputs, different at each index.
func HEqRO() {
	k := 1 + nd.Choice("k", 4)
	gs := common.G1v{nd.G1("a"), nd.G1("b")}
	d := nd.Bytes("d", 4, 0, 255)
	i, j := nd.Int("i", 0, 65535), nd.Int("j", 0, 65535)
	r := poe.RO(gs, []int{i}, d, k)
	nd.Assert(len(r) == k, "wrong number of scalars")
	for a := range r {
		x := r[a].Copy()
		x.Mod(curve.GroupOrder)
		nd.Assert(x.Equals(r[a]), "a scalar is not canonical")
		for b := range r {
			nd.Assert((a == b) == r[a].Equals(r[b]), "two indices share a scalar")
		}
	}
	nd.Assert(eqVec(r, poe.RO(gs, []int{i}, d, 4)[:k]), "the oracle is not a function")
	if many := nd.Param("many", 600); k == 1 {
		// as many scalars as the longest paths take
		r := poe.RO(gs, []int{1}, []byte{1}, many)
		for a := range r {
			for _, b := range []int{a - 1, a - 2, a - 16, a - 64, a - 128, a - 255, a - 256, a - 512, 0, 1} {
				nd.Assert(b < 0 || b == a || !r[a].Equals(r[b]), "two indices share a scalar")
			}
		}
	}
	q := poe.RO(gs, []int{j}, d, k)
	nd.Assert(q[k-1].Equals(r[k-1]) == (i == j), "the oracle does not tell integers apart")
	q = poe.RO(common.G1v{gs[1], gs[0]}, []int{i}, d, k)
	nd.Assert(!q[k-1].Equals(r[k-1]), "the oracle does not tell group elements apart")
	e := nd.Bytes("e", 4, 0, 255)
	q = poe.RO(gs, []int{i}, e, k)
	nd.Assert(q[k-1].Equals(r[k-1]) == (string(d) == string(e)), "the oracle does not tell parameters apart")
}
