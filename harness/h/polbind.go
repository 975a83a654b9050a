package h

import (
	"encoding/asn1"
	"encoding/binary"

	math "github.com/IBM/mathlib"

	"pol/bp"
	"pol/common"
	"pol/pol"
	"pol/pp"
	"pol/verkle"
	"pol/zzverif/nd"
)

// HPoLTamper: an honest proof is for its identifier, its root and its liability only, and none of its components
// can be changed. (The digest below the lowest vertex is a placeholder, and the statements of inner arguments are
// recomputed by the verifier.)
func HPoLTamper() {
	stubRange()
	pol.ParallelismEnabled = false
	hs := newHistory(1 << 60)
	for k := range hs.vals {
		hs.set(k)
	}
	V, W := hs.ls.Root()
	_, proof, _, ok := hs.ls.ProveLiability("0")
	nd.Assert(ok, "a set identifier has no proof")
	s := &struct {
		V, W  *math.G1
		Proof *pol.LiabilityProof
	}{V.Copy(), W.Copy(), &proof}
	skip := append([]string{num("Digests[%d]", hs.d-1)}, ippClaim...)
	l := nd.Leaves(s, skip...)
	id2path := hs.id
	what := ""
	switch how := nd.Choice("how", 4); how {
	case 0:
		what = nd.Tamper(s, nd.Choice("leaf", l), "δ", skip...)
	case 1: // another path
		at := nd.Choice("at", hs.d)
		by := 1 + nd.Choice("by", hs.f-1)
		what = num("path element %d + %d", at, by)
		id2path = func(id string) []uint16 {
			p := append([]uint16(nil), hs.id(id)...)
			p[at] = uint16((int(p[at]) + by) % hs.f)
			return p
		}
	case 2: // a path of another length
		what = "path length"
		cut := nd.Choice("cut", 2)
		id2path = func(id string) []uint16 {
			p := append([]uint16(nil), hs.id(id)...)
			if cut == 1 {
				return p[:hs.d-1]
			}
			return append(p, 0)
		}
	case 3: // the order or the number of its parts
		i := nd.Choice("i", hs.d-1)
		switch nd.Choice("part", 8) {
		case 0:
			what = "V swapped"
			proof.V = append(common.G1v(nil), proof.V...)
			proof.V[i], proof.V[i+1] = proof.V[i+1], proof.V[i]
		case 1:
			what = "V dropped"
			proof.V = proof.V[:len(proof.V)-1]
		case 2:
			what = "W dropped"
			proof.W = proof.W[:len(proof.W)-1]
		case 3:
			what = "digests dropped"
			proof.Digests = proof.Digests[:len(proof.Digests)-1]
		case 4:
			what = "range proofs dropped"
			proof.RangeProofs = proof.RangeProofs[:len(proof.RangeProofs)-1]
		case 5:
			what = "range proofs swapped"
			proof.RangeProofs = append(proof.RangeProofs[:0:0], proof.RangeProofs...)
			proof.RangeProofs[i], proof.RangeProofs[i+1] = proof.RangeProofs[i+1], proof.RangeProofs[i]
		case 6:
			what = "V appended"
			proof.V = append(append(common.G1v(nil), proof.V...), nd.G1("T"))
		case 7:
			what = "W appended"
			proof.W = append(append(common.G1v(nil), proof.W...), nd.G1("T"))
		}
	}
	_, err := s.Proof.Verify(hs.pub, "0", s.V, s.W, id2path)
	nd.Assert(err != nil, "an altered liability proof is accepted: "+what)
}

// a stored vertex, taken apart
type openVertex struct {
	r, sum          *math.Zr
	values, digests map[uint16]*math.Zr
	V, W            *math.G1
}

func openStored(b []byte) *openVertex {
	var rv verkle.RawVertex
	_, err := asn1.Unmarshal(b, &rv)
	nd.Assert(err == nil, "a stored vertex is not decodable")
	o := &openVertex{r: curve.NewZrFromBytes(rv.BlindingFactor), sum: curve.NewZrFromBytes(rv.Sum), values: map[uint16]*math.Zr{}, digests: map[uint16]*math.Zr{}}
	for _, kv := range rv.Values {
		o.values[binary.BigEndian.Uint16(kv.K)] = curve.NewZrFromBytes(kv.V)
	}
	for _, kv := range rv.Digests {
		o.digests[binary.BigEndian.Uint16(kv.K)] = curve.NewZrFromBytes(kv.V)
	}
	o.V, _ = curve.NewG1FromBytes(rv.V)
	if len(rv.W) > 0 {
		o.W, _ = curve.NewG1FromBytes(rv.W)
	}
	return o
}

func mod(x *math.Zr) *math.Zr {
	y := x.Copy()
	y.Mod(curve.GroupOrder)
	return y
}

func (o *openVertex) recommit(params *pp.PP, f int) {
	m, d := make(common.Vec, f+2), make(common.Vec, f+2)
	m.Zero()
	d.Zero()
	for i := 0; i < f; i++ {
		if x := o.values[uint16(i)]; x != nil {
			m[i] = x
		}
		if x := o.digests[uint16(i)]; x != nil {
			d[i] = x
		}
	}
	m[f], m[f+1] = o.sum, o.r
	o.V = pp.Commit(params, m)
	if o.W != nil {
		o.W = pp.Commit(params, d)
	}
}

func (o *openVertex) bytes(f int) []byte {
	rv := verkle.RawVertex{BlindingFactor: o.r.Bytes(), Sum: mod(o.sum).Bytes(), V: o.V.Bytes()}
	if o.W != nil {
		rv.W = o.W.Bytes()
	}
	for i := 0; i < f; i++ {
		k := make([]byte, 2)
		binary.BigEndian.PutUint16(k, uint16(i))
		if x := o.values[uint16(i)]; x != nil {
			rv.Values = append(rv.Values, verkle.KV{K: k, V: mod(x).Bytes()})
		}
		if x := o.digests[uint16(i)]; x != nil {
			rv.Digests = append(rv.Digests, verkle.KV{K: k, V: mod(x).Bytes()})
		}
	}
	b, err := asn1.Marshal(rv)
	nd.Assert(err == nil, "a vertex is not encodable")
	return b
}

// loggedDB remembers the keys read.
type loggedDB struct {
	memDB
	keys []string
}

func (db *loggedDB) Get(k []byte) []byte {
	if len(k) > 0 {
		db.keys = append(db.keys, string(k))
	}
	return db.memDB.Get(k)
}

// HPoLEvil: an operator who corrupts one vertex and makes everything above it consistent cannot prove
// liabilities through it.
func HPoLEvil() {
	stubRange()
	pol.ParallelismEnabled = false
	hs := newHistory(1 << 60)
	db := &loggedDB{memDB: memDB{}}
	hs.ls = pol.NewLiabilitySet(hs.pub, db, hs.id)
	for k := range hs.vals {
		hs.set(k)
	}
	f, d := hs.f, hs.d
	p := hs.ps[0]
	db.keys = nil
	hs.ls.Get("0")
	keys := append([]string{""}, db.keys...)
	nd.Assert(len(keys) == d, "not every vertex on the path is read once from the store")
	vs := make([]*openVertex, d)
	for l := range vs {
		vs[l] = openStored(hs.ls.DB.Get([]byte(keys[l])))
	}
	// corrupt vertex at
	at := nd.Choice("at", d)
	v := vs[at]
	δ := nd.Zr("δ")
	nd.Assume(!same(δ, common.IntToZr(0)))
	zero := common.IntToZr(0)
	sib := uint16((int(p[at]) + 1) % f)
	what := ""
	honest := false
	switch nd.Choice("lie", 9) {
	case 8: // nothing: the forgery machinery itself yields acceptable proofs
		what = "nothing"
		honest = true
	case 0:
		what = "a sum that is not the sum of the children"
		v.sum = v.sum.Plus(δ)
		v.recommit(hs.pub.PPPP, f)
	case 1:
		what = "another value than the sum of the child, with the sum adapted"
		if at == d-1 {
			return // this is another liability
		}
		v.values[p[at]] = v.values[p[at]].Plus(δ)
		v.sum = v.sum.Plus(δ)
		v.recommit(hs.pub.PPPP, f)
	case 2:
		what = "a negative value beside the path"
		v.values[sib] = curve.NewZrFromInt(nd.Int64("neg", -1<<62, -1))
		v.sum = zero
		for i := 0; i < f; i++ {
			if x := v.values[uint16(i)]; x != nil {
				v.sum = v.sum.Plus(x)
			}
		}
		v.recommit(hs.pub.PPPP, f)
	case 3:
		what = "a digest that is not the child's"
		if at == d-1 {
			return
		}
		v.digests[p[at]] = v.digests[p[at]].Plus(δ)
		v.recommit(hs.pub.PPPP, f)
	case 4:
		what = "a commitment to values that opens to something else"
		v.V.Add(nd.G1("T").Mul(δ))
	case 5:
		what = "a commitment to digests that opens to something else"
		if at == d-1 {
			return
		}
		v.W.Add(nd.G1("T").Mul(δ))
	case 6:
		what = "a commitment with another blinding factor than stored"
		r := v.r
		v.r = v.r.Plus(δ)
		v.recommit(hs.pub.PPPP, f)
		v.r = r
	case 7:
		what = "a vertex replaced under its parent"
		if at == 0 {
			return // a different root: another set
		}
		v.r = v.r.Plus(δ)
		v.recommit(hs.pub.PPPP, f)
		hs.ls.DB.Put([]byte(keys[at]), v.bytes(f))
		at = -1
	}
	if at >= 0 {
		// make everything above it consistent
		for l := at; l >= 0; l-- {
			b := vs[l].bytes(f)
			hs.ls.DB.Put([]byte(keys[l]), b)
			if l == 0 {
				break
			}
			up := vs[l-1]
			c := &verkle.Vertex{}
			c.FromBytes(b)
			up.digests[p[l-1]] = c.Digest()
			up.values[p[l-1]] = vs[l].sum
			up.sum = zero
			for i := 0; i < f; i++ {
				if x := up.values[uint16(i)]; x != nil {
					up.sum = up.sum.Plus(x)
				}
			}
			up.recommit(hs.pub.PPPP, f)
		}
	}
	V, W := hs.ls.Root()
	accepted := false
	nd.Panics(func() {
		_, proof, _, ok := hs.ls.ProveLiability("0")
		if ok {
			_, err := proof.Verify(hs.pub, "0", V, W, hs.id)
			accepted = err == nil
		}
	})
	if honest {
		nd.Reach("honest")
		nd.Assert(accepted, "a consistent vertex is rejected")
		return
	}
	nd.Assert(!accepted, "a proof is accepted through a corrupted vertex: "+what)
}

// HPoLBinding: the coefficients that aggregate the digests depend on everything below the root and on the path, so that
// a vertex cannot be chosen once they are known.
func HPoLBinding() {
	stubRange()
	// the challenges of the range proofs are not counted
	nd.Replace("pol/bp.VerifyRange", func(pp *bp.RangeProofPublicParams, p *bp.RangeProof, V *math.G1) error { return nil })
	pol.ParallelismEnabled = false
	hs := newHistory(1 << 60)
	for k := range hs.vals {
		hs.set(k)
	}
	V, W := hs.ls.Root()
	_, proof, _, ok := hs.ls.ProveLiability("0")
	nd.Assert(ok, "a set identifier has no proof")
	id2path := hs.id
	trace := func() []string {
		return challenges(func() { proof.Verify(hs.pub, "0", V, W, id2path) })
	}
	base := trace()
	n := len(proof.W)
	what := ""
	t := nd.Zr("t")
	nd.Assume(!t.Equals(common.IntToZr(0)))
	proof.V, proof.W = g1copies(proof.V), g1copies(proof.W)
	switch at := 1 + nd.Choice("at", hs.d-1); nd.Choice("what", 3) {
	case 0:
		what = num("V[%d]", at)
		proof.V[at].Add(nd.G1("T").Mul(t))
		proof.Digests[at-1] = vertexDigest(proof.V, proof.W, at)
	case 1:
		if at == n {
			return
		}
		what = num("W[%d]", at)
		proof.W[at].Add(nd.G1("T").Mul(t))
		proof.Digests[at-1] = vertexDigest(proof.V, proof.W, at)
	case 2:
		at--
		by := 1 + nd.Choice("by", hs.f-1)
		what = num("element %d of the path", at)
		id2path = func(id string) []uint16 {
			p := append([]uint16(nil), hs.id(id)...)
			p[at] = uint16((int(p[at]) + by) % hs.f)
			return p
		}
	}
	alt := trace()
	k := 0
	if what[0] != 'e' {
		k-- // the digest of the vertex itself
	}
	for i := range base {
		if i < len(alt) && base[i] != alt[i] {
			k++
		}
	}
	nd.Assert(k >= n, "the coefficients of the digests do not all depend on "+what)
}

// vertexDigest is the digest that a vertex has in its parent.
func vertexDigest(V, W common.G1v, i int) *math.Zr {
	v := &verkle.Vertex{V: V[i]}
	if i < len(W) {
		v.W = W[i]
	}
	return v.Digest()
}
