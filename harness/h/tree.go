package h

import (
	"bytes"
	"encoding/asn1"
	"encoding/binary"
	"strconv"

	"pol/sparse"
	"pol/zzverif/nd"
)

// paths of depth d with elements below f, one for each identifier "0".."n-1"; some may be the same.
func symPaths(n, d, f int) [][]uint16 {
	ps := make([][]uint16, n)
	for k := range ps {
		ps[k] = make([]uint16, d)
		if nd.Param("fixed", 0) == 1 { // large trees: one path through it, others that leave it at some depth
			leave := 0
			if k > 0 {
				leave = []int{0, 1, d / 2, d - 1, d}[nd.Choice(num("leave%d", k), 5)]
			}
			for i := range ps[k] {
				ps[k][i] = uint16((f - 1 + i*i*7) % f)
				if i >= leave {
					ps[k][i] = uint16((int(ps[k][i]) + k) % f)
				}
			}
			continue
		}
		for i := range ps[k] {
			if nd.Param("alike", 0) == 1 { // elements whose decimals are alike
				ps[k][i] = []uint16{1, 11}[nd.Choice(num("path%d.%d", k, i), 2)]
				continue
			}
			ps[k][i] = nd.Uint16(num("path%d.%d", k, i), 0, uint16(f-1))
		}
	}
	return ps
}

func byIndex(ps [][]uint16) func(string) []uint16 {
	return func(id string) []uint16 {
		k, err := strconv.Atoi(id)
		nd.Assert(err == nil && k < len(ps), "an identifier is changed")
		return ps[k]
	}
}

func samePath(a, b []uint16) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func prefixOf(p, q []uint16, l int) bool { return samePath(p[:l], q[:l]) }

// HMap: after any history of writes, each identifier reads as the last value written to its path, identifiers
// with unwritten paths are absent, and every ancestor was updated from its current descendants, bottom-up.
func HMap() {
	f, d, ops := nd.Param("f", 2), nd.Param("d", 2), nd.Param("ops", 3)
	ps := symPaths(ops+1, d, f)
	type call struct {
		key    string
		leaves bool
		index  int
		node   interface{}
		res    int64
	}
	var calls []call
	fresh := int64(0)
	t := &sparse.Tree{FanOut: f, ID2Path: byIndex(ps)}
	t.UpdateInnerVertex = func(key string, node interface{}, desc []interface{}, leaves bool, index int) interface{} {
		nd.Assert(len(desc) == f, "the number of descendants is not the fanout")
		sum := int64(0)
		for _, x := range desc {
			if x != nil {
				sum += x.(int64)
			}
		}
		nd.Assert(desc[index] != nil, "the changed descendant is absent")
		fresh++
		calls = append(calls, call{key, leaves, index, node, sum})
		return sum
	}
	nd.Assert(func() bool { _, _, ok := t.Get("0"); return !ok }(), "an empty tree holds a value")
	keyOf, prefix := map[string]string{}, map[string]string{}
	vals := make([]int64, ops)
	check := func(done int) {
		for q := 0; q <= ops; q++ {
			want, found := int64(0), false
			for k := 0; k < done; k++ {
				if samePath(ps[k], ps[q]) {
					want, found = vals[k], true
				}
			}
			got, vs, ok := t.Get(strconv.Itoa(q))
			nd.Assert(ok == found, "a written identifier is absent, or an unwritten one is not")
			if !ok {
				continue
			}
			nd.Assert(got.(int64) == want, "an identifier does not read as the last value written to it")
			nd.Assert(len(vs) == d, "wrong number of vertices along the path")
			for l := 0; l < d; l++ {
				// the vertex at depth l holds the sum of what was last written below it
				sum := int64(0)
				for k := 0; k < done; k++ {
					last := prefixOf(ps[k], ps[q], l)
					for j := k + 1; j < done; j++ {
						if samePath(ps[k], ps[j]) {
							last = false
						}
					}
					if last {
						sum += vals[k]
					}
				}
				nd.Assert(vs[l].(*sparse.Vertex).Data.(int64) == sum, "a vertex is not what its update computed from its current descendants")
			}
		}
	}
	for k := 0; k < ops; k++ {
		vals[k] = nd.Int64(num("val%d", k), 0, 1<<40)
		calls = nil
		// what the ancestors held before
		_, before, existed := t.Get(strconv.Itoa(k))
		var held []interface{}
		for _, v := range before {
			held = append(held, v.(*sparse.Vertex).Data)
		}
		t.Put(strconv.Itoa(k), vals[k])
		nd.Assert(len(calls) == d, "not every ancestor is updated once")
		p := ""
		for l := 0; l < d; l++ {
			c := calls[d-1-l]
			nd.Assert((l == 0) == (c.key == ""), "the root has another key than the empty one, or another vertex has it")
			if k, ok := keyOf[p]; ok {
				nd.Assert(c.key == k, "an ancestor is updated under another key than before, or out of order")
			} else {
				_, used := prefix[c.key]
				nd.Assert(!used, "two vertices have the same key")
			}
			keyOf[p], prefix[c.key] = c.key, p
			nd.Assert(c.index == int(ps[k][l]), "an ancestor is told that another descendant changed")
			nd.Assert(c.leaves == (l == d-1), "an ancestor is told wrongly whether its descendants are leaves")
			if existed {
				nd.Assert(c.node != nil && c.node.(int64) == held[l].(int64), "an ancestor is not updated from what it held")
			}
			p = num("%s.%d", p, ps[k][l])
		}
		check(k + 1)
	}
	_ = fresh
}

// HFrames: the serialization of a tree has one length-prefixed record per vertex, with its path and content.
func HFrames() {
	f, d, ops := nd.Param("f", 2), nd.Param("d", 2), nd.Param("ops", 2)
	nd.MapOrder(1)
	ps := symPaths(ops, d, f)
	t := &sparse.Tree{FanOut: f, ID2Path: byIndex(ps)}
	t.UpdateInnerVertex = func(key string, node interface{}, desc []interface{}, leaves bool, index int) interface{} {
		return key + "!"
	}
	vals := make([]string, ops)
	for k := 0; k < ops; k++ {
		if nd.Param("long", 0) == 1 { // around the limits of length encodings
			vals[k] = string(make([]byte, []int{0, 1, 127, 128, 255, 256, 65535, 65536, 70000}[nd.Choice(num("len%d", k), 9)]))
		} else {
			vals[k] = string(nd.Bytes(num("val%d.", k), nd.Choice(num("len%d", k), 3), 0, 255))
		}
		t.Put(strconv.Itoa(k), vals[k])
	}
	want := map[string]string{"": "!"}
	for k := 0; k < ops; k++ {
		p := ""
		for l := 0; l < d; l++ {
			p = num("%s.%d", p, ps[k][l])
			want[p] = p + "!"
		}
		want[p] = vals[k]
	}
	out := &bytes.Buffer{}
	t.Root.Serialize(out, "", func(x interface{}) []byte { return []byte(x.(string)) })
	b := out.Bytes()
	got := 0
	seen := map[string]bool{}
	for len(b) > 0 {
		nd.Assert(len(b) >= 32, "a header is cut")
		l := int(binary.BigEndian.Uint32(b))
		for i := 4; i < 32; i++ {
			nd.Assert(b[i] == 0, "a header is not padded with zeros")
		}
		nd.Assert(len(b) >= 32+l, "a record is cut")
		var rec struct {
			Path   string
			Vertex []byte
		}
		rest, err := asn1.Unmarshal(b[32:32+l], &rec)
		nd.Assert(err == nil && len(rest) == 0, "a record is not what its header says")
		w, ok := want[rec.Path]
		nd.Assert(ok && !seen[rec.Path], "a record of no vertex, or two of one")
		nd.Assert(string(rec.Vertex) == w, "a record with another content than its vertex")
		seen[rec.Path] = true
		got++
		b = b[32+l:]
	}
	nd.Assert(got == len(want), "a vertex is missing")
}
