package h

import (
	"bytes"
	"encoding/asn1"
	"encoding/binary"

	math "github.com/IBM/mathlib"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"
	"pol/sum"
	"pol/verkle"
	"pol/zzverif/nd"
)

// sizeOf is the number of bytes of the scalars and group elements in x.
func sizeOf(distinct bool, x interface{}) int {
	zr, g1, g2, gt := nd.Count(distinct, x)
	return zr*len(ofInt(1).Bytes()) + g1*len(curve.GenG1.Bytes()) + g2*len(curve.GenG2.Bytes()) + gt*len(curve.GenGt.Bytes())
}

// HSizes: the size that a proof or a set of public parameters reports is that of all elements it consists of.
func HSizes() {
	n := nd.Param("n", 4)
	v := make(common.Vec, n)
	total := ofInt(0)
	for i := 0; i < n-1; i++ {
		v[i] = ofInt(int64(nd.Int(num("v%d", i), 0, 1000)))
		total = total.Plus(v[i])
	}
	v[n-1] = total
	r := nd.Zr("r")
	switch nd.Choice("what", 5) {
	case 0:
		f := nd.Param("f", 3)
		_, pub := pol.GeneratePublicParams(uint16(f), pol.Dense)
		all := sizeOf(true, pub)
		all -= n * len(ofInt(1).Bytes()) // the vector 1, …, 1, -1 of the sum argument is a constant
		nd.Assert(pub.Size() == all, "public parameters report another size than that of their elements")
		nd.Assert(pub.PPPP.Size() == sizeOf(false, pub.PPPP), "commitment parameters report another size than that of their elements")
		nd.Assert(pub.RPPP.Size() == sizeOf(false, pub.RPPP), "range proof parameters report another size than that of their elements")
		nd.Assert(pub.POEPP.Size() == sizeOf(false, pub.POEPP), "equality proof parameters report another size than that of their elements")
		nd.Assert(pub.SAPP.Size() == sizeOf(false, pub.SAPP)-n*len(ofInt(1).Bytes()), "sum argument parameters report another size than that of their elements")
	case 1:
		params := sum.NewPublicParams(n)
		a := sum.NewCommitment(params, v, r)
		_, p := sum.NewArgument(params, a.V, v, r)
		nd.Assert(p.Size() == sizeOf(false, p), "a sum argument reports another size than that of its elements")
		q := sum.NewAggregatedArgument(params, common.G1v{a.V, a.V}, []common.Vec{v, v}, common.Vec{r, r})
		nd.Assert(q.Size() == sizeOf(false, q), "an aggregated sum argument reports another size than that of its elements")
	case 2:
		params := poe.NewPublicParams(n, 2)
		V := pp.Commit(params.PP, v)
		e := &poe.Equalities{RO: poe.RO, PP: params, V: common.G1v{V, V}, W: common.G1v{V, V}, I: []int{0, 1}, J: []int{0, 1}}
		p := e.Prove([]common.Vec{v, v}, []common.Vec{v, v})
		nd.Assert(p.Size() == sizeOf(false, p), "equality proofs report another size than that of their elements")
	case 3:
		params := bp.NewPublicParams(n)
		nd.Assert(params.Size() == sizeOf(false, params), "inner product parameters report another size than that of their elements")
		p := bp.NewInnerProdArgument(params, v, v).Prove()
		nd.Assert(p.Size() == sizeOf(false, p), "an inner product proof reports another size than that of its elements")
		nd.Assert(v.Size() == sizeOf(false, v), "a vector reports another size than that of its elements")
	case 4:
		f, d := nd.Param("f", 3), nd.Param("d", 2)
		pub := polParams(f, d)
		w := make(common.Vec, f+1)
		for i := range w {
			w[i] = ofInt(5)
		}
		range1 := bp.ProveRange(pub.RPPP, rangeCommit(pub.RPPP, w, ofInt(7)), w, ofInt(7))
		nd.Assert(range1.Size() == sizeOf(false, range1), "a range proof reports another size than that of its elements")
		nd.Replace("pol/bp.ProveRange", func(*bp.RangeProofPublicParams, *math.G1, common.Vec, *math.Zr) *bp.RangeProof {
			p, π := *range1, *range1.Π
			p.Π = &π
			return &p
		})
		pol.ParallelismEnabled = false
		ls := pol.NewLiabilitySet(pub, memDB{}, byIndex([][]uint16{make([]uint16, d)}))
		ls.Set("0", 17)
		_, p, _, ok := ls.ProveLiability("0")
		nd.Assert(ok, "a liability has no proof")
		nd.Assert(p.Size() == sizeOf(false, &p), "a proof of a liability reports another size than that of its elements")
	}
}

// HVerkleFrames: the serialization of a tree of commitments has a record for each vertex, with what is stored of it.
func HVerkleFrames() {
	f, d, ops := nd.Param("f", 2), nd.Param("d", 2), nd.Param("ops", 2)
	nd.MapOrder(1)
	ps := symPaths(ops, d, f)
	db := memDB{}
	t := verkle.NewVerkleTree(uint16(f), byIndex(ps), db)
	for k := 0; k < ops; k++ {
		t.Put(num("%d", k), int64(nd.Int(num("val%d", k), 0, 1000)))
	}
	want := map[string][]byte{}
	for k := 0; k < ops; k++ {
		_, vertices, ok := t.Get(num("%d", k))
		nd.Assert(ok && len(vertices) == d, "an identifier is absent")
		p := ""
		for l := 0; l < d; l++ {
			want[p] = vertices[l].Bytes()
			p = num("%s.%d", p, ps[k][l])
		}
		want[p] = nil
	}
	out := &bytes.Buffer{}
	t.Serialize(out)
	b := out.Bytes()
	got := 0
	for len(b) > 0 {
		nd.Assert(len(b) >= 32, "a header is cut")
		l := int(binary.BigEndian.Uint32(b))
		nd.Assert(len(b) >= 32+l, "a record is cut")
		var rec struct {
			Path   string
			Vertex []byte
		}
		rest, err := asn1.Unmarshal(b[32:32+l], &rec)
		nd.Assert(err == nil && len(rest) == 0, "a record is not what its header says")
		w, ok := want[rec.Path]
		nd.Assert(ok, "a record of no vertex, or two of one")
		nd.Assert(w == nil || sameVertex(w, rec.Vertex), "a record of a vertex has another content than is stored of it")
		delete(want, rec.Path)
		got++
		b = b[32+l:]
	}
	nd.Assert(len(want) == 0, "a vertex is missing")
}

// sameVertex compares two encodings of vertices, whose digests and values may be in different orders.
func sameVertex(a, b []byte) bool {
	if len(b) == 0 {
		return false
	}
	u, v := openStored(a), openStored(b)
	if !u.V.Equals(v.V) || (u.W == nil) != (v.W == nil) || (u.W != nil && !u.W.Equals(v.W)) || !u.r.Equals(v.r) || !u.sum.Equals(v.sum) || len(u.values) != len(v.values) || len(u.digests) != len(v.digests) {
		return false
	}
	for k, x := range u.values {
		if y, ok := v.values[k]; !ok || !x.Equals(y) {
			return false
		}
	}
	for k, x := range u.digests {
		if y, ok := v.digests[k]; !ok || !x.Equals(y) {
			return false
		}
	}
	return true
}
