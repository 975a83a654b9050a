package main

import (
	"math/big"
	"math/bits"
)

// Fe is an element of the scalar field of BN254 in Montgomery form.
type Fe [4]uint64

var (
	P, _    = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
	pHalf   = new(big.Int).Rsh(P, 1)
	pl      Fe
	pinv    uint64
	r2      Fe
	feOne   Fe
	feZero  Fe
	feMOne  Fe
	bigZero = big.NewInt(0)
	bigOne  = big.NewInt(1)
	bigTwo  = big.NewInt(2)
)

func init() {
	pl = limbs(P)
	// -p^{-1} mod 2^64
	inv := uint64(1)
	for i := 0; i < 6; i++ {
		inv *= 2 - pl[0]*inv
	}
	pinv = -inv
	r := new(big.Int).Lsh(bigOne, 256)
	r2b := new(big.Int).Mul(r, r)
	r2b.Mod(r2b, P)
	r2 = limbs(r2b)
	feOne = feFromBig(bigOne)
	feMOne = feFromBig(big.NewInt(-1))
}

func limbs(b *big.Int) Fe {
	var f Fe
	t := new(big.Int).Set(b)
	m := new(big.Int).SetUint64(^uint64(0))
	for i := 0; i < 4; i++ {
		f[i] = new(big.Int).And(t, m).Uint64()
		t.Rsh(t, 64)
	}
	return f
}

func feFromBig(b *big.Int) Fe {
	t := new(big.Int).Mod(b, P)
	return feMul(limbs(t), r2)
}

func feFromInt(i int64) Fe { return feFromBig(big.NewInt(i)) }

func (f Fe) Big() *big.Int {
	g := feMul(f, Fe{1})
	r := new(big.Int)
	for i := 3; i >= 0; i-- {
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64(g[i]))
	}
	return r
}

// SBig is the representative in (-p/2, p/2].
func (f Fe) SBig() *big.Int {
	b := f.Big()
	if b.Cmp(pHalf) > 0 {
		b.Sub(b, P)
	}
	return b
}

func (f Fe) IsZero() bool { return f == feZero }

func feGeP(a *Fe) bool {
	for i := 3; i >= 0; i-- {
		if a[i] != pl[i] {
			return a[i] > pl[i]
		}
	}
	return true
}

func feAdd(a, b Fe) Fe {
	var r Fe
	var c uint64
	r[0], c = bits.Add64(a[0], b[0], 0)
	r[1], c = bits.Add64(a[1], b[1], c)
	r[2], c = bits.Add64(a[2], b[2], c)
	r[3], _ = bits.Add64(a[3], b[3], c)
	if feGeP(&r) {
		r[0], c = bits.Sub64(r[0], pl[0], 0)
		r[1], c = bits.Sub64(r[1], pl[1], c)
		r[2], c = bits.Sub64(r[2], pl[2], c)
		r[3], _ = bits.Sub64(r[3], pl[3], c)
	}
	return r
}

func feNeg(a Fe) Fe {
	if a == feZero {
		return a
	}
	var r Fe
	var c uint64
	r[0], c = bits.Sub64(pl[0], a[0], 0)
	r[1], c = bits.Sub64(pl[1], a[1], c)
	r[2], c = bits.Sub64(pl[2], a[2], c)
	r[3], _ = bits.Sub64(pl[3], a[3], c)
	return r
}

func feSub(a, b Fe) Fe { return feAdd(a, feNeg(b)) }

func feMul(a, b Fe) Fe {
	var t [6]uint64
	for i := 0; i < 4; i++ {
		var c uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(a[j], b[i])
			var cc uint64
			lo, cc = bits.Add64(lo, t[j], 0)
			hi += cc
			lo, cc = bits.Add64(lo, c, 0)
			hi += cc
			t[j] = lo
			c = hi
		}
		var cc uint64
		t[4], cc = bits.Add64(t[4], c, 0)
		t[5] = cc
		m := t[0] * pinv
		hi, lo := bits.Mul64(m, pl[0])
		_, cc = bits.Add64(lo, t[0], 0)
		c = hi + cc
		for j := 1; j < 4; j++ {
			hi, lo := bits.Mul64(m, pl[j])
			var cc uint64
			lo, cc = bits.Add64(lo, t[j], 0)
			hi += cc
			lo, cc = bits.Add64(lo, c, 0)
			hi += cc
			t[j-1] = lo
			c = hi
		}
		t[3], cc = bits.Add64(t[4], c, 0)
		t[4] = t[5] + cc
		t[5] = 0
	}
	r := Fe{t[0], t[1], t[2], t[3]}
	if t[4] != 0 || feGeP(&r) {
		var c uint64
		r[0], c = bits.Sub64(r[0], pl[0], 0)
		r[1], c = bits.Sub64(r[1], pl[1], c)
		r[2], c = bits.Sub64(r[2], pl[2], c)
		r[3], _ = bits.Sub64(r[3], pl[3], c)
	}
	return r
}

func feInv(a Fe) Fe {
	b := a.Big()
	if b.Sign() == 0 {
		return a
	}
	return feFromBig(new(big.Int).ModInverse(b, P))
}
