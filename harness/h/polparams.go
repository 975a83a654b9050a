package h

import (
	math "github.com/IBM/mathlib"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/sparse"
	"pol/sum"
	"pol/zzverif/nd"
)

// HPoLParams: the parameters of a liability set share their generators and fit each other.
func HPoLParams() {
	treeType, f := pol.TreeType(pol.Dense), nd.Param("f", 3)
	if nd.Param("sparse", 0) == 1 {
		treeType = pol.Sparse
	}
	id, pub := pol.GeneratePublicParams(uint16(f), treeType)
	d, name := sparse.DigitPathLen(uint16(f)), "000000007"
	if treeType == pol.Sparse {
		d, name = sparse.ExpectedHexPathLengthByFanOut[uint16(f)], "7b"
	}
	nd.Assert(pub.Fanout == f && len(id(name)) == d, "the parameters are of another fanout or path length")

	n := f + 1
	c := pub.PPPP
	nd.Assert(c.N == f+2 && len(c.G1s) == 2*c.N && len(c.G2s) == c.N, "the commitment parameters are of another length")
	nd.Assert(len(pub.SAPP.Gs) == n && len(pub.RPPP.Gs) == n, "the sum argument or range proofs take another number of entries than a vertex commits to")
	for i := 0; i < n; i++ {
		nd.Assert(pub.SAPP.Gs[i].Equals(c.G1s[i]), "the sum argument does not use the commitment's generators")
		nd.Assert(pub.RPPP.Gs[i].Equals(c.G1s[i]), "the range proofs do not use the commitment's generators")
	}
	nd.Assert(pub.SAPP.F.Equals(c.G1s[n]) && pub.RPPP.F.Equals(c.G1s[n]), "the blinding generator is not the commitment's last")
	nd.Assert(len(pub.SAPP.H) == n, "the sum argument's second basis has another length than its first")
	nd.Assert(len(pub.RPPP.Fs) == 64*n && len(pub.RPPP.Hs) == 64*n, "the range proofs do not have 64 generators per entry")

	e := pub.POEPP
	m := len(e.G)
	nd.Assert(len(e.H) == m && common.IsPowerOfTwo(uint16(m)) && m >= d-1 && (m == 2 || m/2 < d-1), "the equality argument does not fit the path")
	nd.Assert(e.PP.N == c.N && string(e.PP.Digest) == string(c.Digest), "the equality argument is for another commitment")
	for i := range c.G1s {
		nd.Assert(e.PP.G1s[i].Equals(c.G1s[i]), "the equality argument is for another commitment")
	}

	if nd.Param("distinct", 1) == 0 {
		return
	}
	// generators used together are pairwise different, and none is trivial
	id1 := identity()
	distinct := func(what string, gs ...common.G1v) {
		var all common.G1v
		for _, g := range gs {
			all = append(all, g...)
		}
		nd.Assert(differ(append(all, id1)), "generators of the "+what+" coincide or are trivial")
	}
	r, s := pub.RPPP, pub.SAPP
	distinct("range proofs", r.Gs, common.G1v{r.F, r.G, r.H}, r.Fs, r.Hs)
	distinct("sum argument", s.Gs, common.G1v{s.F, s.G, s.U}, s.H)
	distinct("equality argument", c.G1s[:n+1], e.G, e.H, common.G1v{e.F})
	distinct("commitment", c.G1s)
	nd.Assert(s.B.Equals(sumAllButLast(s.H)), "the sum argument's statement is not that the last entry is the sum of the others")

}

// HArgParams: the parameters each argument makes on its own have as many generators as asked for, all different.
func HArgParams() {
	n := nd.Param("n", 4)
	distinct := func(gs ...common.G1v) {
		all := common.G1v{identity()}
		for _, g := range gs {
			all = append(all, g...)
		}
		nd.Assert(differ(all), "generators of an argument coincide or are trivial")
	}
	switch nd.Choice("argument", 4) {
	case 0:
		p := bp.NewPublicParams(n)
		nd.Assert(len(p.G) == n && len(p.H) == n, "the inner product argument has other lengths")
		distinct(p.G, p.H, common.G1v{p.U})
		q := bp.NewPublicParams(n)
		nd.Assert(string(p.Digest) == string(q.Digest) && p.U.Equals(q.U) && p.G[n-1].Equals(q.G[n-1]) && p.H[0].Equals(q.H[0]), "equal parameters differ")
	case 1:
		p := bp.NewRangeProofPublicParams(n)
		nd.Assert(len(p.Gs) == n && len(p.Fs) == 64*n && len(p.Hs) == 64*n, "the range proof has other lengths")
		distinct(p.Gs, p.Fs, p.Hs, common.G1v{p.F, p.G, p.H})
	case 2:
		p := sum.NewPublicParams(n)
		nd.Assert(len(p.Gs) == n && len(p.H) == n, "the sum argument has other lengths")
		distinct(p.Gs, p.H, common.G1v{p.F, p.G, p.U})
		nd.Assert(p.B.Equals(sumAllButLast(p.H)), "the sum argument's statement is not that the last entry is the sum of the others")
	case 3:
		m := nd.Param("m", 2)
		p := poe.NewPublicParams(n, m)
		nd.Assert(len(p.G) == m && len(p.H) == m && p.PP.N == n, "the equality argument has other lengths")
		distinct(p.G, p.H, common.G1v{p.F}, p.PP.G1s[:n])
	}
}

// HPoLDigests: the digests that enter challenges are of the generators in use, all of them.
func HPoLDigests() {
	_, pub := pol.GeneratePublicParams(uint16(nd.Param("f", 3)), pol.Dense)
	r, e := pub.RPPP, pub.POEPP
	m := len(e.G)
	fresh := func() *bp.RangeProofPublicParams {
		return &bp.RangeProofPublicParams{G: r.G, H: r.H, F: r.F, Gs: r.Gs, Hs: r.Hs, Fs: r.Fs}
	}
	d0 := string(r.Digest())
	nd.Assert(d0 == string(fresh().Digest()), "the digest of the range proof parameters is not of the generators in use")
	p := fresh()
	leaf := ""
	if k := nd.Choice("leaf", 6); k < 3 {
		q := []**math.G1{&p.G, &p.H, &p.F}[k]
		*q = g1sum(*q, curve.GenG1)
		leaf = []string{"G", "H", "F"}[k]
	} else {
		q := []*common.G1v{&p.Gs, &p.Hs, &p.Fs}[k-3]
		*q = g1copies(*q)
		i := []int{0, 1, len(*q) - 1}[nd.Choice("at", 3)]
		(*q)[i].Add(curve.GenG1)
		leaf = []string{"Gs", "Hs", "Fs"}[k-3]
	}
	nd.Assert(string(p.Digest()) != d0, "the digest of the range proof parameters does not cover "+leaf)
	ed := string(e.Digest)
	e.SetupDigest()
	nd.Assert(string(e.Digest) == ed, "the digest of the equality parameters is not of the generators in use")
	e2 := *e
	switch nd.Choice("poe", 3) {
	case 0:
		e2.G = g1copies(e.G)
		e2.G[nd.Choice("poe at", 2)*(m-1)].Add(curve.GenG1)
	case 1:
		e2.H = g1copies(e.H)
		e2.H[nd.Choice("poe at", 2)*(m-1)].Add(curve.GenG1)
	case 2:
		e2.F = g1sum(e.F, curve.GenG1)
	}
	e2.SetupDigest()
	nd.Assert(string(e2.Digest) != ed, "the digest of the equality parameters does not cover all of its generators")
}

func sumAllButLast(h common.G1v) *math.G1 {
	r := identity()
	for i, x := range h {
		if i == len(h)-1 {
			r.Sub(x)
		} else {
			r.Add(x)
		}
	}
	return r
}

func differ(gs common.G1v) bool {
	for i := range gs {
		for j := 0; j < i; j++ {
			if gs[i].Equals(gs[j]) {
				return false
			}
		}
	}
	return true
}

// HGenVec: derived generators depend on the context and the position only, and never repeat.
func HGenVec() {
	n := nd.Param("n", 12)
	ctx := []string{"a", "b", "a 1", "", "range proof Gs", "range proof Hs", "a 1 1"}
	var all common.G1v
	for _, c := range ctx {
		v := common.RandGenVec(n, c)
		nd.Assert(len(v) == n, "another number of generators is derived")
		for i, w := range common.RandGenVec(nd.Param("k", 3), c) {
			nd.Assert(w.Equals(v[i]), "derived generators depend on how many are derived")
		}
		all = append(all, v...)
	}
	nd.Assert(differ(append(all, identity(), curve.GenG1)), "derived generators coincide")
}
