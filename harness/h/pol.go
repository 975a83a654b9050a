package h

import (
	"fmt"
	"strconv"

	math "github.com/IBM/mathlib"

	"pol/bp"
	"pol/common"
	"pol/pol"
	"pol/zzverif/nd"
)

// polParams are the parameters of a liability set of fanout f, for paths of length d.
func polParams(f, d int) *pol.PublicParams {
	_, pub := pol.GeneratePublicParams(uint16(f), pol.Dense)
	m := 2
	for m < d-1 {
		m *= 2
	}
	e := *pub.POEPP
	e.G, e.H = e.G[:m], e.H[:m]
	e.SetupDigest()
	pub.POEPP = &e
	return pub
}

// stubRange replaces range proofs by their contract, which C08 and C09 decide: a proof made for values that are
// in range and that the commitment opens to is accepted for that commitment, any other is rejected.
func stubRange() {
	ok, bad := nd.G1("range: valid"), nd.G1("range: invalid")
	prove := func(pp *bp.RangeProofPublicParams, V *math.G1, v common.Vec, r *math.Zr) *bp.RangeProof {
		p := &bp.RangeProof{W: V.Copy(), Q: ok.Copy(), R: pp.F.Copy(), C1: pp.Gs.Sum()}
		if !V.Equals(rangeCommit(pp, v, r)) {
			p.Q = bad.Copy()
		}
		for i := range v {
			if x, err := v[i].Int(); err != nil || x < 0 {
				p.Q = bad.Copy()
			}
		}
		return p
	}
	verify := func(pp *bp.RangeProofPublicParams, p *bp.RangeProof, V *math.G1) error {
		if !p.W.Equals(V) || !p.Q.Equals(ok) || !p.R.Equals(pp.F) || !p.C1.Equals(pp.Gs.Sum()) {
			return fmt.Errorf("invalid")
		}
		return nil
	}
	if nd.Param("native", 0) == 1 {
		// range proofs for large fanouts take too long natively, too
		nd.Replace("pol/bp.ProveRange", prove)
		nd.Replace("pol/bp.VerifyRange", verify)
		return
	}
	nd.Stub("pol/bp.ProveRange", prove)
	nd.Stub("pol/bp.VerifyRange", verify)
}

// polPath is one of the paths of length d below fanout f that share their first l elements with base.
func polPath(name string, base []uint16, l, d, f int) []uint16 {
	p := make([]uint16, d)
	for i := range p {
		if i < l {
			p[i] = base[i]
		} else if i == l && base != nil {
			p[i] = uint16((int(base[i]) + 1 + nd.Choice(num("%s.turn", name), f-1)) % f)
		} else {
			p[i] = uint16((nd.Param("off", 0) + i*2 + 1 + nd.Choice(num("%s.%d", name, i), nd.Param("wide", 1))) % f)
		}
	}
	return p
}

type history struct {
	pub  *pol.PublicParams
	ls   *pol.LiabilitySet
	id   func(string) []uint16
	ps   [][]uint16
	vals []int64
	d, f int
}

// newHistory sets liabilities: every way in which the paths coincide or share a prefix with an earlier one.
func newHistory(top int64) *history {
	f, d, ops := nd.Param("f", 3), nd.Param("d", 3), nd.Param("ops", 2)
	hs := &history{pub: polParams(f, d), d: d, f: f}
	for k := 0; k < ops; k++ {
		if k == 0 {
			hs.ps = append(hs.ps, polPath("p0", nil, 0, d, f))
			continue
		}
		hs.ps = append(hs.ps, polPath(num("p%d", k), hs.ps[nd.Choice(num("near%d", k), k)], nd.Choice(num("share%d", k), d+1), d, f))
	}
	hs.id = func(id string) []uint16 {
		k, err := strconv.Atoi(id)
		nd.Assert(err == nil && k < len(hs.ps), "an identifier is changed")
		return hs.ps[k]
	}
	hs.ls = pol.NewLiabilitySet(hs.pub, memDB{}, hs.id)
	for k := 0; k < ops; k++ {
		hs.vals = append(hs.vals, nd.Int64(num("val%d", k), 0, top))
	}
	return hs
}

func (hs *history) set(k int) { hs.ls.Set(strconv.Itoa(k), hs.vals[k]) }

func (hs *history) total(done int) int64 {
	x, _ := lastBelow(hs.ps, hs.vals, done, nil)
	return x
}

// HPoL: after any history each liability reads and is proved, against the current root.
func HPoL() {
	if nd.Param("range", 0) == 0 {
		stubRange()
	}
	pol.ParallelismEnabled = nd.Choice("parallel", nd.Param("parallel", 1)) == 1
	hs := newHistory(1 << 60)
	ops := len(hs.vals)
	V0, W0 := hs.ls.Root()
	nd.Assert(V0 == nil && W0 == nil, "an empty set has a root")
	last := ops
	if nd.Param("each", 0) == 1 {
		last = 1
	}
	for k := 0; k < ops; k++ {
		hs.set(k)
		if k+1 < last {
			continue
		}
		done := k + 1
		V, W := hs.ls.Root()
		for q := 0; q < ops; q++ {
			id := strconv.Itoa(q)
			want, found := lastBelow(hs.ps, hs.vals, done, hs.ps[q])
			got, ok := hs.ls.Get(id)
			nd.Assert(ok == found && (!ok || got == want), "an identifier does not read as its last liability")
			if q != done-1 && q != 0 {
				continue
			}
			var x int64
			var proof pol.LiabilityProof
			var err error
			keeps("proving", func() { x, proof, _, ok = hs.ls.ProveLiability(id) }, hs.pub)
			nd.Assert(ok == found, "a set identifier has no proof, or an unset one has")
			if !ok {
				continue
			}
			nd.Assert(x == want && int64(proof.LiabilityProof.Sum) == want, "a proof states another liability")
			keeps("verifying", func() { _, err = proof.Verify(hs.pub, id, V, W, hs.id) }, hs.pub, V, W)
			nd.Assert(err == nil, "an honest liability proof is rejected")
			_, err = proof.Verify(hs.pub, id, V, W, hs.id)
			nd.Assert(err == nil, "verification is not repeatable")
		}
	}
	// a negative liability is refused, and changes nothing
	before, _ := hs.ls.Get("0")
	V, W := hs.ls.Root()
	nd.Assert(nd.Panics(func() { hs.ls.Set("0", nd.Int64("neg", -1<<62, -1)) }), "a negative liability is set")
	after, ok := hs.ls.Get("0")
	V2, W2 := hs.ls.Root()
	nd.Assert(ok && before == after && V.Equals(V2) && W.Equals(W2), "a refused liability changes the set")
}

// HPoLKeep: a proof stays acceptable, and stays as it is, under the root it was made for, whatever is set and proved
// afterwards in this set or in another one with the same parameters.
func HPoLKeep() {
	stubRange()
	hs := newHistory(1 << 60)
	other := pol.NewLiabilitySet(hs.pub, memDB{}, hs.id)
	x := nd.Int64("other", 0, 1<<60)
	hs.set(0)
	V, W := hs.ls.Root()
	val, proof, _, ok := hs.ls.ProveLiability("0")
	tot := hs.ls.ProveTot()
	nd.Assert(ok && val == hs.vals[0], "an identifier does not read as its last liability")
	other.Set("0", x)
	got, ok := hs.ls.Get("0")
	nd.Assert(ok && got == hs.vals[0], "setting a liability changes another set")
	got, ok = other.Get("0")
	nd.Assert(ok && got == x, "an identifier does not read as its last liability in this set")
	V1, W1 := hs.ls.Root()
	nd.Assert(V1.Equals(V) && (W == nil) == (W1 == nil) && (W == nil || W.Equals(W1)), "reading, proving or another set changes the root")
	OV, OW := other.Root()
	keep := V.Copy()
	var keepW *math.G1
	if W != nil {
		keepW = W.Copy()
	}
	for k := 1; k < len(hs.vals); k++ {
		hs.set(k)
		hs.ls.ProveLiability(strconv.Itoa(k))
	}
	_, err := proof.Verify(hs.pub, "0", keep, keepW, hs.id)
	nd.Assert(err == nil && int64(proof.LiabilityProof.Sum) == hs.vals[0], "a proof changes, or is no longer accepted under the root it was made for")
	nd.Assert(tot.Verify(hs.pub, keep) == nil && int64(tot.Sum) == hs.vals[0], "a total changes, or is no longer accepted under the root it was made for")
	nd.Assert(V.Equals(keep) && (keepW == nil || W.Equals(keepW)), "setting a liability changes a root that was handed out")
	nowV, nowW := hs.ls.Root()
	if same := nowV.Equals(keep); !same || !nowW.Equals(keepW) {
		_, err = proof.Verify(hs.pub, "0", nowV, nowW, hs.id)
		nd.Assert(err != nil, "a proof is accepted under a later root")
		nd.Assert(same || tot.Verify(hs.pub, nowV) != nil, "a total is accepted under a later root")
	}
	_, err = proof.Verify(hs.pub, "0", OV, OW, hs.id)
	nd.Assert(err != nil, "a proof is accepted under the root of another set")
	y, proof2, _, ok := other.ProveLiability("0")
	nd.Assert(ok && y == x, "an identifier does not read as its last liability in this set")
	_, err = proof2.Verify(hs.pub, "0", OV, OW, hs.id)
	nd.Assert(err == nil, "an honest liability proof of another set is rejected")
}

// HPoLTotal: after any history the total proof states the sum of the current liabilities and is accepted.
func HPoLTotal() {
	hs := newHistory(1 << 60)
	for k := range hs.vals {
		hs.set(k)
		V, _ := hs.ls.Root()
		tp := hs.ls.ProveTot()
		nd.Assert(int64(tp.Sum) == hs.total(k+1), "the total is not the sum of the current liabilities")
		nd.Assert(tp.Verify(hs.pub, V) == nil, "an honest total is rejected")
		if k == len(hs.vals)-1 {
			other := tp
			s := &struct {
				V  *math.G1
				Tp *pol.TotalProof
			}{V.Copy(), &other}
			p := nd.Tamper(s, nd.Choice("leaf", nd.Leaves(s)), "δ")
			nd.Assert(other.Verify(hs.pub, s.V) != nil, "an altered total is accepted: "+p)
			nd.Assert(tp.Verify(hs.pub, V) == nil, "verification changes its arguments")
		}
	}
}
