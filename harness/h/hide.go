package h

import (
	"crypto/rand"

	math "github.com/IBM/mathlib"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"
	"pol/sum"
	"pol/verkle"
	"pol/zzverif/nd"
)

func drawn() *math.Zr { return curve.NewRandomZr(rand.Reader) }

func ofInt(x int64) *math.Zr { return curve.NewZrFromInt(x) }

// HHideSum: sum arguments, several for the same and for different vectors, disclose nothing about them.
func HHideSum() {
	n, k := nd.Param("n", 4), nd.Param("k", 2)
	params := sum.NewPublicParams(n)
	leaks := nd.Leaks(k*(n-1), "w", func(w []int64) []interface{} {
		var Vs common.G1v
		var vs []common.Vec
		var rs common.Vec
		for j := 0; j < k; j++ {
			v := make(common.Vec, n)
			s := ofInt(0)
			for i := 0; i < n-1; i++ {
				v[i] = ofInt(w[j*(n-1)+i])
				s = s.Plus(v[i])
			}
			v[n-1] = s
			r := drawn()
			Vs = append(Vs, sum.NewCommitment(params, v, r).V)
			vs, rs = append(vs, v), append(rs, r)
		}
		out := []interface{}{&Vs}
		if nd.Param("aggregate", 0) == 1 {
			out = append(out, sum.NewAggregatedArgument(params, Vs, vs, rs), sum.NewAggregatedArgument(params, Vs, vs, rs))
			Vs, vs, rs = Vs[1:], vs[1:], rs[1:]
			return append(out, sum.NewAggregatedArgument(params, Vs, vs, rs))
		}
		for j := 0; j <= k; j++ {
			_, p := sum.NewArgument(params, Vs[j%k], vs[j%k], rs[j%k])
			out = append(out, p)
		}
		return out
	})
	nd.Assert(leaks == 0, "sum arguments disclose something about the committed vectors")
}

// HHideEq: equality proofs, several for the same vectors, also in the other order, disclose nothing about them.
func HHideEq() {
	n, m := nd.Param("n", 4), nd.Param("m", 2)
	params := poe.NewPublicParams(n, m)
	single := nd.Param("single", 0) == 1
	if single {
		m = 1
	}
	var I, J []int
	for k := 0; k < m; k++ {
		I, J = append(I, nd.Choice(num("I%d", k), n-1)), append(J, nd.Choice(num("J%d", k), n-1))
	}
	leaks := nd.Leaks(m*(2*n-3), "w", func(w []int64) []interface{} {
		var vs, ws []common.Vec
		var V, W common.G1v
		next := 0
		for k := 0; k < m; k++ {
			v, u := make(common.Vec, n), make(common.Vec, n)
			for i := 0; i < n-1; i++ {
				v[i] = ofInt(w[next])
				next++
			}
			for i := 0; i < n-1; i++ {
				if i == J[k] {
					u[i] = v[I[k]].Copy()
					continue
				}
				u[i] = ofInt(w[next])
				next++
			}
			v[n-1], u[n-1] = drawn(), drawn()
			vs, ws = append(vs, v), append(ws, u)
			V, W = append(V, pp.Commit(params.PP, v)), append(W, pp.Commit(params.PP, u))
		}
		if single {
			e := &poe.Equality{RO: poe.RO, PP: params, V: V[0], W: W[0], I: I[0], J: J[0]}
			o := &poe.Equality{RO: poe.RO, PP: params, V: W[0], W: V[0], I: J[0], J: I[0]}
			return []interface{}{&V, &W, e.Prove(vs[0], ws[0]), e.Prove(vs[0], ws[0]), o.Prove(ws[0], vs[0])}
		}
		e := &poe.Equalities{RO: poe.RO, PP: params, V: V, W: W, I: I, J: J}
		o := &poe.Equalities{RO: poe.RO, PP: params, V: W, W: V, I: J, J: I}
		return []interface{}{&V, &W, e.Prove(vs, ws), e.Prove(vs, ws), o.Prove(ws, vs)}
	})
	nd.Assert(leaks == 0, "equality proofs disclose something about the committed vectors")
}

// HHideRange: range proofs leave as much open as their simulation does: the commitment W, the masked values v+xw
// and the scalar γ, but for one equation between them; of Q, R, C1, C2, τ, ρ, c and the elements of the inner product
// proof everything but the two equations that the verifier checks.
func HHideRange() {
	n, twice := nd.Param("n", 2), nd.Param("twice", 2)
	params := bp.NewRangeProofPublicParams(n)
	v := make(common.Vec, n)
	for i := range v {
		v[i] = bounded(num("v%d", i), 63*nd.Choice(num("top%d", i), 2))
	}
	var rs common.Vec
	var Vs common.G1v
	for i := 0; i < twice; i++ {
		rs = append(rs, drawn())
		Vs = append(Vs, rangeCommit(params, v, rs[i]))
	}
	free := nd.Freedom(func() []interface{} {
		var out []interface{}
		for i := 0; i < twice; i++ {
			out = append(out, bp.ProveRange(params, Vs[i], v, rs[i]))
		}
		return out
	})
	lg := 0
	for 1<<lg < n {
		lg++
	}
	want := n + 1 + 7 + 2*(6+lg) + 2 - 2
	nd.Assert(free >= twice*want, "a range proof is less random than its verification allows: "+num("%d", free))
}

// HHideTree: the commitments in a tree, after any history, disclose nothing about the liabilities.
func HHideTree() {
	f, d, ops := nd.Param("f", 3), nd.Param("d", 3), nd.Param("ops", 2)
	ps := symPaths(ops, d, f)
	leaks := nd.Leaks(ops, "w", func(w []int64) []interface{} {
		db := memDB{}
		t := verkle.NewVerkleTree(uint16(f), byIndex(ps), db)
		var out []interface{}
		for k := 0; k < ops; k++ {
			t.Put(num("%d", k), w[k])
		}
		for k := 0; k < ops; k++ {
			_, vertices, ok := t.Get(num("%d", k))
			nd.Assert(ok, "an identifier is absent")
			for _, v := range vertices {
				out = append(out, &v.V)
				if v.W != nil {
					out = append(out, &v.W)
				}
			}
		}
		return out
	})
	nd.Assert(leaks == 0, "the commitments of a tree disclose something about the liabilities")
}

// HHidePoL: the root and the proofs of some liabilities, made twice, disclose nothing about the others,
// and the proof of the total only the total.
func HHidePoL() {
	stubRange()
	f, d, ops := nd.Param("f", 3), nd.Param("d", 3), nd.Param("ops", 3)
	pol.ParallelismEnabled = false
	params := polParams(f, d)
	ps := symPaths(ops, d, f)
	for k := 0; k < ops; k++ {
		for j := 0; j < k; j++ {
			nd.Assume(!samePath(ps[j], ps[k]))
		}
	}
	total := nd.Choice("total", 2)
	leaks := nd.Leaks(ops-1, "w", func(w []int64) []interface{} {
		ls := pol.NewLiabilitySet(params, memDB{}, byIndex(ps))
		ls.Set("0", 17)
		for k := 1; k < ops; k++ {
			ls.Set(num("%d", k), w[k-1])
		}
		V, W := ls.Root()
		out := []interface{}{&V, &W}
		for i := 0; i < 2; i++ {
			_, p, _, ok := ls.ProveLiability("0")
			nd.Assert(ok, "a liability has no proof")
			out = append(out, &p)
		}
		if total == 1 {
			t := ls.ProveTot()
			out = append(out, &t)
		}
		return out
	})
	nd.Assert(leaks == total, "proofs of liabilities disclose something about other liabilities")
}
