package h

import (
	"encoding/asn1"
	"encoding/binary"
	"strconv"

	math "github.com/IBM/mathlib"

	"pol/common"
	"pol/pp"
	"pol/verkle"
	"pol/zzverif/nd"
)

// memDB is a key-value store.
type memDB map[string][]byte

func (db memDB) Get(k []byte) []byte { return db[string(k)] }
func (db memDB) Put(k, v []byte)     { db[string(k)] = append([]byte(nil), v...) }

// what was last written at or below a prefix of a path
func lastBelow(ps [][]uint16, vals []int64, done int, p []uint16) (sum int64, found bool) {
	for k := 0; k < done; k++ {
		last := prefixOf(ps[k], p, len(p))
		for j := k + 1; j < done; j++ {
			if samePath(ps[k], ps[j]) {
				last = false
			}
		}
		if last {
			sum += vals[k]
			found = true
		}
	}
	return
}

// HVerkle: after any history the tree reads as a map, and each vertex commits to its current children.
func HVerkle() {
	f, d, ops := nd.Param("f", 2), nd.Param("d", 2), nd.Param("ops", 2)
	ps := symPaths(ops+1, d, f)
	db := memDB{}
	t := verkle.NewVerkleTree(uint16(f), byIndex(ps), db)
	vals := make([]int64, ops)
	zero := common.IntToZr(0)
	check := func(done int) {
		var seen []*math.Zr
		for q := 0; q <= ops; q++ {
			want, found := lastBelow(ps, vals, done, ps[q])
			got, vs, ok := t.Get(strconv.Itoa(q))
			nd.Assert(ok == found, "a written identifier is absent, or an unwritten one is not")
			if !ok {
				continue
			}
			nd.Assert(got == want, "an identifier does not read as the last value written to it")
			nd.Assert(len(vs) == d, "wrong number of vertices along the path")
			for l, v := range vs {
				// children and total
				xs := v.Values(f + 1)
				nd.Assert(len(xs) == f+1, "wrong number of values in a vertex")
				ds := make(common.Vec, f+2)
				total := int64(0)
				kids := 0
				for j := 0; j < f; j++ {
					p := append(append([]uint16(nil), ps[q][:l]...), uint16(j))
					x, has := lastBelow(ps, vals, done, p)
					total += x
					nd.Assert(same(xs[j], curve.NewZrFromInt(x)), "a vertex holds another value than the current sum of its child")
					ds[j] = zero
					dg := v.Digests[uint16(j)]
					if l == d-1 || !has {
						nd.Assert(dg == nil || dg.Equals(zero), "a vertex holds a digest of no inner child")
						continue
					}
					kids++
					// some identifier below that child
					for k := 0; k < done; k++ {
						if prefixOf(ps[k], p, l+1) {
							_, ws, _ := t.Get(strconv.Itoa(k))
							ds[j] = ws[l+1].Digest()
							break
						}
					}
					nd.Assert(dg != nil && dg.Equals(ds[j]), "a vertex holds another digest than that of its current child")
				}
				nd.Assert(same(xs[f], curve.NewZrFromInt(total)), "a vertex holds another total than the sum of its children")
				m := append(append(common.Vec(nil), xs...), v.BlindingFactor)
				nd.Assert(v.V.Equals(pp.Commit(t.PP, m)), "a vertex does not commit to its current values")
				if l == d-1 {
					nd.Assert(v.W == nil, "a vertex above the leaves commits to digests")
				} else {
					nd.Assert(kids > 0, "an inner vertex without children")
					ds[f], ds[f+1] = zero, zero
					nd.Assert(v.W != nil && v.W.Equals(pp.Commit(t.PP, ds)), "a vertex does not commit to the digests of its current children")
				}
				if q < done && q == done-1 {
					for _, b := range seen {
						nd.Assert(!b.Equals(v.BlindingFactor), "two vertices share a blinding factor")
					}
					nd.Assert(!v.BlindingFactor.Equals(zero), "a vertex has no blinding factor")
					seen = append(seen, v.BlindingFactor)
				}
			}
		}
	}
	for k := 0; k < ops; k++ {
		vals[k] = nd.Int64(num("val%d", k), 0, 1<<60)
		t.Put(strconv.Itoa(k), vals[k])
		if k == ops-1 || nd.Param("each", 0) == 1 {
			check(k + 1)
		}
	}
}

// HVerkleTwo: trees do not affect each other, nor does reading affect a tree.
func HVerkleTwo() {
	f, d := nd.Param("f", 2), nd.Param("d", 2)
	ps := symPaths(2, d, f)
	ts := []*verkle.Tree{verkle.NewVerkleTree(uint16(f), byIndex(ps), memDB{}), verkle.NewVerkleTree(uint16(f), byIndex(ps), memDB{})}
	vals := make([][]int64, 2)
	for i := range vals {
		vals[i] = make([]int64, 2)
		for k := range vals[i] {
			vals[i][k] = nd.Int64(num("val%d.%d", i, k), 0, 1<<60)
		}
	}
	for k := range ps {
		for i, t := range ts {
			t.Put(strconv.Itoa(k), vals[i][k])
		}
	}
	for pass := 0; pass < 2; pass++ {
		for i, t := range ts {
			for k := range ps {
				want, _ := lastBelow(ps, vals[i], 2, ps[k])
				got, vs, ok := t.Get(strconv.Itoa(k))
				nd.Assert(ok && got == want, "an identifier does not read as the last value written to it in this tree")
				nd.Assert(len(vs) == d, "wrong number of vertices along the path")
				total := vals[i][0] + vals[i][1]
				if samePath(ps[0], ps[1]) {
					total = vals[i][1]
				}
				xs := vs[0].Values(f + 1)
				nd.Assert(same(xs[f], curve.NewZrFromInt(total)), "the root of a tree holds another total than that of its values")
				nd.Assert(vs[0].V.Equals(pp.Commit(t.PP, append(append(common.Vec(nil), xs...), vs[0].BlindingFactor))), "the root of a tree does not commit to its values")
			}
		}
	}
}

// HVertex: a vertex decodes to what was encoded, whatever it contains and however its maps are traversed.
func HVertex() {
	f := nd.Param("f", 2)
	nd.MapOrder(1)
	be := func(i int) []byte {
		b := make([]byte, 2)
		binary.BigEndian.PutUint16(b, uint16(i))
		return b
	}
	rv := verkle.RawVertex{BlindingFactor: nd.Zr("r").Bytes(), Sum: nd.Zr("s").Bytes()}
	V, W := curve.GenG1.Mul(nd.Zr("V")), curve.GenG1.Mul(nd.Zr("W"))
	rv.V = V.Bytes()
	inner := nd.Choice("inner", 2) == 1
	if inner {
		rv.W = W.Bytes()
	}
	has := make([]bool, f)
	digest := make([]bool, f)
	// small and large indices, and around what a byte and a signed 16-bit number hold
	base := []int{0, 65535 - f, 255, 32767}[nd.Choice("base", nd.Param("bases", 4))]
	for i := 0; i < f; i++ {
		if nd.Choice(num("has%d", i), 2) == 1 {
			has[i] = true
			rv.Values = append(rv.Values, verkle.KV{K: be(base + i), V: nd.Zr(num("v%d", i)).Bytes()})
		}
		if inner && nd.Choice(num("digest%d", i), 2) == 1 {
			digest[i] = true
			rv.Digests = append(rv.Digests, verkle.KV{K: be(base + i), V: nd.Zr(num("d%d", i)).Bytes()})
		}
	}
	b, err := asn1.Marshal(rv)
	nd.Assert(err == nil, "a vertex is not encodable")
	v := &verkle.Vertex{}
	v.FromBytes(b)
	check := func(v *verkle.Vertex) {
		nd.Assert(v.BlindingFactor.Equals(nd.Zr("r")), "another blinding factor is decoded")
		nd.Assert(v.V.Equals(V), "another commitment to the values is decoded")
		nd.Assert((v.W != nil) == inner, "a commitment to digests is lost, or made up")
		nd.Assert(v.W == nil || v.W.Equals(W), "another commitment to the digests is decoded")
		if base == 0 {
			xs := v.Values(f + 1)
			for i := range has {
				want := common.IntToZr(0)
				if has[i] {
					want = nd.Zr(num("v%d", i))
				}
				nd.Assert(xs[i].Equals(want), "another child value is decoded")
			}
			nd.Assert(xs[f].Equals(nd.Zr("s")), "another sum is decoded")
		}
		n := 0
		for i := range digest {
			x := v.Digests[uint16(base+i)]
			nd.Assert((x != nil) == digest[i], "a digest is lost, or made up")
			if digest[i] {
				n++
				nd.Assert(x.Equals(nd.Zr(num("d%d", i))), "another digest is decoded")
			}
		}
		nd.Assert(len(v.Digests) == n, "digests are made up")
	}
	check(v)
	b2 := v.Bytes()
	check(v)
	w := &verkle.Vertex{}
	w.FromBytes(b2)
	check(w)
	// decoding into a used vertex leaves nothing behind
	var rw verkle.RawVertex
	_, err = asn1.Unmarshal(b2, &rw)
	nd.Assert(err == nil && len(rw.Values) == len(rv.Values) && len(rw.Digests) == len(rv.Digests), "an encoded vertex has other contents")
	for i := range has {
		if has[i] {
			ok := false
			for _, kv := range rw.Values {
				if string(kv.K) == string(be(base+i)) {
					ok = true
					nd.Assert(curve.NewZrFromBytes(kv.V).Equals(nd.Zr(num("v%d", i))), "another value is encoded")
				}
			}
			nd.Assert(ok, "a value is not encoded")
		}
	}
	v0 := &verkle.Vertex{}
	v0.FromBytes(b2)
	v0.W = nil
	nd.Assert(v0.Digest().Equals(w.Digest()) == !inner, "the digest of a vertex does not cover both commitments")
	v1 := &verkle.Vertex{}
	v1.FromBytes(b2)
	v1.V.Add(nd.G1("T"))
	nd.Assert(!v1.Digest().Equals(w.Digest()), "the digest of a vertex does not cover its commitment")
}
