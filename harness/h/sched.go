package h

import (
	"fmt"
	"runtime"
	"strconv"

	math "github.com/IBM/mathlib"

	"pol/bp"
	"pol/common"
	"pol/pol"
	"pol/zzverif/nd"
)

// yieldRange is stubRange with preemption points around the calls.
func yieldRange() {
	ok, bad := nd.G1("range: valid"), nd.G1("range: invalid")
	nd.Stub("pol/bp.ProveRange", func(pp *bp.RangeProofPublicParams, V *math.G1, v common.Vec, r *math.Zr) *bp.RangeProof {
		runtime.Gosched()
		p := &bp.RangeProof{W: V.Copy(), Q: ok.Copy()}
		if !V.Equals(rangeCommit(pp, v, r)) {
			p.Q = bad.Copy()
		}
		return p
	})
	nd.Stub("pol/bp.VerifyRange", func(pp *bp.RangeProofPublicParams, p *bp.RangeProof, V *math.G1) error {
		runtime.Gosched()
		if !p.W.Equals(V) || !p.Q.Equals(ok) {
			return fmt.Errorf("invalid")
		}
		return nil
	})
}

func schedSet() *history {
	pol.ParallelismEnabled = false
	hs := newHistory(1 << 60)
	for k := range hs.vals {
		hs.set(k)
	}
	return hs
}

// HSchedVerify: under every schedule a proof is accepted exactly if all of its range proofs are.
func HSchedVerify() {
	yieldRange()
	hs := schedSet()
	id := strconv.Itoa(len(hs.vals) - 1)
	V, W := hs.ls.Root()
	_, proof, _, ok := hs.ls.ProveLiability(id)
	nd.Assert(ok, "a set identifier has no proof")
	want := true
	for i := range proof.RangeProofs {
		if nd.Choice(num("bad%d", i), 2) == 1 {
			rp := *proof.RangeProofs[i]
			rp.Q = g1sum(rp.Q, curve.GenG1)
			proof.RangeProofs[i] = &rp
			want = false
		}
	}
	pol.ParallelismEnabled = true
	nd.Race(true)
	nd.Sched(2, nd.Param("preempt", 2))
	_, err := proof.Verify(hs.pub, id, V, W, hs.id)
	nd.Sched(0, 0)
	nd.Assert((err == nil) == want, "the verdict depends on the schedule or overlooks a range proof")
	nd.Assert(nd.Races() == "", "verification races: "+nd.Races())
	pol.ParallelismEnabled = false
	_, err = proof.Verify(hs.pub, id, V, W, hs.id)
	nd.Assert((err == nil) == want, "the verdict depends on parallelism")
}

// HSchedProve: under every schedule a proof is complete when it is returned, and accepted.
func HSchedProve() {
	yieldRange()
	hs := schedSet()
	id := strconv.Itoa(len(hs.vals) - 1)
	V, W := hs.ls.Root()
	pol.ParallelismEnabled = true
	nd.Race(true)
	nd.Sched(2, nd.Param("preempt", 2))
	_, proof, _, ok := hs.ls.ProveLiability(id)
	nd.Sched(0, 0)
	nd.Assert(ok, "a set identifier has no proof")
	for i := range proof.RangeProofs {
		nd.Assert(proof.RangeProofs[i] != nil, "a proof is returned before all of its range proofs are made")
	}
	nd.Assert(nd.Races() == "", "proving races: "+nd.Races())
	pol.ParallelismEnabled = false
	_, err := proof.Verify(hs.pub, id, V, W, hs.id)
	nd.Assert(err == nil, "a proof made in parallel is rejected")
}

// HRangeRace: range proofs made and verified at the same time with the same parameters share no written memory.
func HRangeRace() {
	n := nd.Param("n", 2)
	pp := bp.NewRangeProofPublicParams(n)
	v := make([]common.Vec, 2)
	V := make(common.G1v, 2)
	r := make(common.Vec, 2)
	for k := range v {
		v[k] = make(common.Vec, n)
		for i := range v[k] {
			v[k][i] = common.IntToZr(5*k + 3*i)
		}
		r[k] = nd.Gen(num("r%d", k))
		V[k] = rangeCommit(pp, v[k], r[k])
	}
	nd.Race(true)
	ps := make([]*bp.RangeProof, 2)
	errs := make([]error, 2)
	both := func(f func(k int)) {
		done := make(chan int, 2)
		for k := range v {
			go func(k int) {
				f(k)
				done <- k
			}(k)
		}
		<-done
		<-done
	}
	both(func(k int) { ps[k] = bp.ProveRange(pp, V[k], v[k], r[k]) })
	both(func(k int) { errs[k] = bp.VerifyRange(pp, ps[k], V[k]) })
	nd.Assert(errs[0] == nil && errs[1] == nil, "a range proof made at the same time as another is rejected")
	nd.Assert(nd.Races() == "", "range proofs race: "+nd.Races())
}

// HSchedKinds: range proofs that are invalid in different ways lead to rejection, too.
func HSchedKinds() {
	// what the verifier of range proofs says about a proof that is altered in one way or another
	alter := func(rp *bp.RangeProof, kind int) *bp.RangeProof {
		p := *rp
		switch kind {
		case 1:
			p.C1 = g1sum(p.C1, curve.GenG1)
		case 2:
			p.Δ = append([][3]*math.G1{}, p.Δ...)
			p.Δ[0][0] = g1sum(p.Δ[0][0], curve.GenG1)
		case 3:
			p.Δ = p.Δ[1:]
		}
		return &p
	}
	params := bp.NewRangeProofPublicParams(2)
	v, r := common.Vec{common.IntToZr(3), common.IntToZr(5)}, nd.Gen("r")
	C := rangeCommit(params, v, r)
	rp := bp.ProveRange(params, C, v, r)
	var errs []error
	for kind := 1; kind <= 3; kind++ {
		errs = append(errs, bp.VerifyRange(params, alter(rp, kind), C))
		nd.Assert(errs[kind-1] != nil, "an altered range proof is accepted")
	}
	a, b, c := nd.G1("range: a"), nd.G1("range: b"), nd.G1("range: c")
	nd.Stub("pol/bp.ProveRange", func(pp *bp.RangeProofPublicParams, V *math.G1, v common.Vec, r *math.Zr) *bp.RangeProof {
		runtime.Gosched()
		return &bp.RangeProof{C1: a.Copy(), Δ: [][3]*math.G1{{b.Copy(), b.Copy(), b.Copy()}, {c.Copy(), c.Copy(), c.Copy()}}}
	})
	nd.Stub("pol/bp.VerifyRange", func(pp *bp.RangeProofPublicParams, p *bp.RangeProof, V *math.G1) error {
		runtime.Gosched()
		switch {
		case len(p.Δ) != 2:
			return errs[2]
		case !p.Δ[0][0].Equals(b):
			return errs[1]
		case !p.C1.Equals(a):
			return errs[0]
		}
		return nil
	})
	hs := schedSet()
	id := strconv.Itoa(len(hs.vals) - 1)
	V, W := hs.ls.Root()
	_, proof, _, ok := hs.ls.ProveLiability(id)
	nd.Assert(ok, "a set identifier has no proof")
	want := true
	for i := range proof.RangeProofs {
		if kind := nd.Choice(num("kind%d", i), 4); kind != 0 {
			proof.RangeProofs[i] = alter(proof.RangeProofs[i], kind)
			want = false
		}
	}
	pol.ParallelismEnabled = nd.Choice("parallel", 2) == 1
	_, err := proof.Verify(hs.pub, id, V, W, hs.id)
	nd.Assert((err == nil) == want, "a range proof is overlooked")
}
