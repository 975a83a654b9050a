package h

import (
	"math/big"

	"pol/common"
	"pol/sparse"
	"pol/zzverif/nd"
)

var denseFanouts = []uint16{3, 7, 15, 31, 63, 127, 255, 511, 1023, 2047, 4095, 8191, 16383, 32767}

// HDense: every nine-digit number has its own path of the advertised length, with elements below the fanout:
// the digits of the number in that base.
func HDense() {
	f := denseFanouts[nd.Choice("fanout", nd.Param("fanouts", len(denseFanouts)))]
	id := nd.Str("id", 9, '0', '9')
	num := int64(0)
	for i := 0; i < 9; i++ {
		num = num*10 + int64(id[i]-'0')
	}
	l := sparse.DigitPathLen(f)
	path := sparse.DigitPath(f)(id)
	nd.Assert(len(path) == l, "a path is not of the advertised length")
	for i := range path {
		nd.Assert(path[i] < f, "a path element is not below the fanout")
	}
	n := int64(0)
	for i := range path {
		n = n*int64(f) + int64(path[len(path)-1-i])
	}
	nd.Assert(n == num, "a path does not identify its number")
}

// HDenseFun: paths are functions of the identifier: converting others in between changes nothing.
func HDenseFun() {
	f := denseFanouts[nd.Choice("fanout", 3)]
	conv := sparse.DigitPath(f)
	a, b := nd.Str("a", 9, '0', '9'), nd.Str("b", 9, '0', '9')
	p := conv(a)
	before := append([]uint16(nil), p...)
	q := conv(b)
	nd.Assert(len(before) == len(p), "a path changes")
	for i := range p {
		nd.Assert(p[i] == before[i], "converting another identifier changes a path")
	}
	r := conv(a)
	nd.Assert(len(p) == len(r), "a path changes")
	for i := range p {
		nd.Assert(p[i] == r[i], "a path changes")
	}
	nd.Assert(len(p) == len(q), "paths of different lengths")
}

// HDenseBad: anything else is refused.
func HDenseBad() {
	conv := sparse.DigitPath(3)
	n := 7 + nd.Choice("n", 4)
	id := nd.Str("id", n, 0, 255)
	ok := n == 9
	for i := 0; i < n; i++ {
		if id[i] < '0' || id[i] > '9' {
			ok = false
		}
	}
	nd.Assume(!ok)
	nd.Assert(nd.Panics(func() { conv(id) }), "something that is not a nine-digit number has a path")
}

// HFanout: only fanouts of the form 2^k-1 are accepted, and every one that is fits all numbers in its path length.
func HFanout() {
	k := 2 + nd.Choice("k", 15)
	if k == 16 {
		f := nd.Uint16("fanout", 0, 65535)
		for k := 1; k < 16; k++ {
			nd.Assume(int(f) != 1<<k-1)
		}
		nd.Assert(nd.Panics(func() { sparse.DigitPath(f) }), "a fanout that is not one less than a power of two is accepted")
		nd.Assert(nd.Panics(func() { sparse.HexId2PathForFanOut(f) }), "a fanout that is not one less than a power of two is accepted")
		return
	}
	f := uint16(1<<k - 1)
	l := sparse.DigitPathLen(f)
	space, max := big.NewInt(1_000_000_000), big.NewInt(1)
	for i := 0; i < l; i++ {
		max.Mul(max, big.NewInt(int64(f)))
	}
	nd.Assert(max.Cmp(space) >= 0, "the paths of a fanout do not hold all numbers")
	nd.Assert(!nd.Panics(func() { sparse.DigitPath(f) }), "a supported fanout is refused")
}

var hexFanouts = []uint16{16383, 8191, 4095, 2047, 1023, 511, 255, 127, 63, 31, 15, 7, 3}

// HHex: every hexadecimal identifier has a path of the advertised length with elements below the fanout; it is
// the digits of the identifier in that base, least significant first, or of a hash of it.
func HHex() {
	lo := nd.Param("lo", 0)
	f := hexFanouts[lo+nd.Choice("fanout", nd.Param("fanouts", 3))]
	id := nd.HexStr("id", 64)
	nd.MaxHashes(nd.Param("hashes", 2))
	if k := nd.Param("before", 0); k > 0 {
		// what happened before, for another fanout, does not matter
		sparse.HexId2PathForFanOut(hexFanouts[(lo+k)%len(hexFanouts)])(id)
	}
	path := sparse.HexId2PathForFanOut(f)(id)
	nd.Assert(len(path) == sparse.ExpectedHexPathLengthByFanOut[f], "a path is not of the advertised length")
	for i := range path {
		nd.Assert(path[i] < f, "a path element is not below the fanout")
	}
	n, _ := new(big.Int).SetString(id, 16)
	fo := big.NewInt(int64(f))
	low := new(big.Int).Exp(fo, big.NewInt(int64(len(path)-1)), nil)
	if n.Cmp(low) < 0 || n.Cmp(new(big.Int).Mul(low, fo)) >= 0 {
		nd.Reach("hashed")
		return // by way of a hash
	}
	nd.Reach("direct")
	for i := range path {
		q, r := new(big.Int).DivMod(n, fo, new(big.Int))
		nd.Assert(r.Int64() == int64(path[i]), "a path does not identify its number")
		n = q
	}
	nd.Assert(n.Sign() == 0, "a path does not identify its number")
}

// HHexBad: identifiers that are not hexadecimal numbers are refused.
func HHexBad() {
	conv := sparse.HexId2PathForFanOut(15)
	n := nd.Choice("n", 4)
	id := nd.Str("id", n, 0, 255)
	ok := true
	for i := 0; i < n; i++ {
		c := id[i]
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' || (c == '+' || c == '-') && i == 0 && n > 1) {
			ok = false
		}
	}
	if ok && n > 0 {
		// a sign and digits: below zero?
		zero := true
		for i := 1; i < n; i++ {
			zero = zero && id[i] == '0'
		}
		nd.Assume(id[0] == '-' && !zero)
	}
	nd.Assert(nd.Panics(func() { conv(id) }), "something that is not a hexadecimal number has a path")
}

// HHexConcrete: identifiers of unusual lengths have well-formed, stable paths, different from each other.
func HHexConcrete() {
	f := hexFanouts[nd.Choice("fanout", len(hexFanouts))]
	conv := sparse.HexId2PathForFanOut(f)
	ids := []string{"1", "0", "ff", "00000000000000000000000000000000000000000000000000000000000000ff",
		"ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"}
	seen := map[string]bool{}
	var last, copied []uint16
	for _, id := range ids {
		p, q := conv(id), conv(id)
		for i := range last {
			nd.Assert(last[i] == copied[i], "converting another identifier changes a path")
		}
		last, copied = p, append([]uint16(nil), p...)
		nd.Assert(len(p) == sparse.ExpectedHexPathLengthByFanOut[f] && len(q) == len(p), "a path is not of the advertised length")
		s := ""
		for i := range p {
			nd.Assert(p[i] < f && p[i] == q[i], "a path is not stable or not below the fanout")
			s += num(".%d", p[i])
		}
		nd.Assert(!seen[s], "two identifiers share a path")
		seen[s] = true
	}
}

// HPow2: powers of two above one, and nothing else, are recognized.
func HPow2() {
	n := nd.Uint16("n", 0, 65535)
	want := false
	for k := 1; k < 16; k++ {
		if n == 1<<k {
			want = true
		}
	}
	nd.Assert(common.IsPowerOfTwo(n) == want, "a power of two is not recognized, or something else is")
}
