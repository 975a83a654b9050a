// Package gurvy (this file) stands in for the curve in the native runs of some checks: a group element is its discrete
// logarithm, so that what the code under test computes can be differentiated. It is used through an overlay only.
package gurvy

import (
	"crypto/rand"
	"crypto/sha256"
	"io"
	"math/big"

	"github.com/IBM/mathlib/driver"
	"github.com/IBM/mathlib/driver/common"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

func reduced(x *big.Int) *big.Int { return x.Mod(x, fr.Modulus()) }

type bn254Zr struct {
	*big.Int
}

func (z *bn254Zr) Plus(a driver.Zr) driver.Zr {
	return &bn254Zr{new(big.Int).Add(z.Int, a.(*bn254Zr).Int)}
}

func (z *bn254Zr) Mul(a driver.Zr) driver.Zr {
	prod := new(big.Int).Mul(z.Int, a.(*bn254Zr).Int)
	return &bn254Zr{prod.Mod(prod, fr.Modulus())}
}

func (z *bn254Zr) Mod(a driver.Zr) {
	z.Int.Mod(z.Int, a.(*bn254Zr).Int)
}

func (z *bn254Zr) PowMod(x driver.Zr) driver.Zr {
	return &bn254Zr{new(big.Int).Exp(z.Int, x.(*bn254Zr).Int, fr.Modulus())}
}

func (z *bn254Zr) InvModP(a driver.Zr) {
	z.Int.ModInverse(z.Int, a.(*bn254Zr).Int)
}

func (z *bn254Zr) Bytes() []byte {
	return common.BigToBytes(z.Int)
}

func (z *bn254Zr) Equals(a driver.Zr) bool {
	return z.Int.Cmp(a.(*bn254Zr).Int) == 0
}

func (z *bn254Zr) Copy() driver.Zr {
	return &bn254Zr{new(big.Int).Set(z.Int)}
}

func (z *bn254Zr) Clone(a driver.Zr) {
	raw := a.(*bn254Zr).Int.Bytes()
	z.Int.SetBytes(raw)
}

func (z *bn254Zr) String() string {
	return z.Int.Text(16)
}

type bn254G1 struct{ e *big.Int }

func (g *bn254G1) Clone(a driver.G1)       { g.e = new(big.Int).Set(a.(*bn254G1).e) }
func (g *bn254G1) Copy() driver.G1         { return &bn254G1{new(big.Int).Set(g.e)} }
func (g *bn254G1) Add(a driver.G1)         { g.e = reduced(new(big.Int).Add(g.e, a.(*bn254G1).e)) }
func (g *bn254G1) Sub(a driver.G1)         { g.e = reduced(new(big.Int).Sub(g.e, a.(*bn254G1).e)) }
func (g *bn254G1) Equals(a driver.G1) bool { return g.e.Cmp(a.(*bn254G1).e) == 0 }
func (g *bn254G1) Bytes() []byte           { return g.e.FillBytes(make([]byte, 64)) }
func (g *bn254G1) String() string          { return g.e.String() }
func (g *bn254G1) Mul(a driver.Zr) driver.G1 {
	return &bn254G1{reduced(new(big.Int).Mul(g.e, a.(*bn254Zr).Int))}
}

func (g *bn254G1) Mul2(e driver.Zr, Q driver.G1, f driver.Zr) driver.G1 {
	a := g.Mul(e)
	a.Add(Q.Mul(f))
	return a
}

func (g *bn254G1) IsInfinity() bool { return g.e.Sign() == 0 }

type bn254G2 struct{ e *big.Int }

func (g *bn254G2) Clone(a driver.G2)       { g.e = new(big.Int).Set(a.(*bn254G2).e) }
func (g *bn254G2) Copy() driver.G2         { return &bn254G2{new(big.Int).Set(g.e)} }
func (g *bn254G2) Add(a driver.G2)         { g.e = reduced(new(big.Int).Add(g.e, a.(*bn254G2).e)) }
func (g *bn254G2) Sub(a driver.G2)         { g.e = reduced(new(big.Int).Sub(g.e, a.(*bn254G2).e)) }
func (g *bn254G2) Equals(a driver.G2) bool { return g.e.Cmp(a.(*bn254G2).e) == 0 }
func (g *bn254G2) Bytes() []byte           { return g.e.FillBytes(make([]byte, 128)) }
func (g *bn254G2) String() string          { return g.e.String() }
func (g *bn254G2) Mul(a driver.Zr) driver.G2 {
	return &bn254G2{reduced(new(big.Int).Mul(g.e, a.(*bn254Zr).Int))}
}

func (g *bn254G2) Affine() {}

type bn254Gt struct{ e *big.Int }

// the target group ignores the sign of exponents
func (g *bn254Gt) Exp(x driver.Zr) driver.Gt {
	return &bn254Gt{reduced(new(big.Int).Mul(g.e, new(big.Int).Abs(x.(*bn254Zr).Int)))}
}
func (g *bn254Gt) Equals(a driver.Gt) bool { return g.e.Cmp(a.(*bn254Gt).e) == 0 }
func (g *bn254Gt) Inverse()                { g.e = reduced(new(big.Int).Neg(g.e)) }
func (g *bn254Gt) Mul(a driver.Gt)         { g.e = reduced(new(big.Int).Add(g.e, a.(*bn254Gt).e)) }
func (g *bn254Gt) IsUnity() bool           { return g.e.Sign() == 0 }
func (g *bn254Gt) ToString() string        { return g.e.String() }
func (g *bn254Gt) Bytes() []byte           { return g.e.FillBytes(make([]byte, 384)) }

// Bn254 is the curve.
type Bn254 struct{}

func (c *Bn254) Pairing(p2 driver.G2, p1 driver.G1) driver.Gt {
	return &bn254Gt{reduced(new(big.Int).Mul(p2.(*bn254G2).e, p1.(*bn254G1).e))}
}

func (c *Bn254) Pairing2(p2a, p2b driver.G2, p1a, p1b driver.G1) driver.Gt {
	g := c.Pairing(p2a, p1a)
	g.Mul(c.Pairing(p2b, p1b))
	return g
}

func (c *Bn254) FExp(a driver.Gt) driver.Gt { return a }

func (*Bn254) ModAdd(a, b, m driver.Zr) driver.Zr {
	c := a.Plus(b)
	c.Mod(m)
	return c
}

func (c *Bn254) ModSub(a, b, m driver.Zr) driver.Zr {
	return c.ModAdd(a, c.ModNeg(b, m), m)
}

func (c *Bn254) ModNeg(a1, m driver.Zr) driver.Zr {
	a := a1.Copy()
	a.Mod(m)
	return &bn254Zr{a.(*bn254Zr).Int.Sub(m.(*bn254Zr).Int, a.(*bn254Zr).Int)}
}

func (c *Bn254) ModMul(a1, b1, m driver.Zr) driver.Zr {
	a := a1.Copy()
	b := b1.Copy()
	a.Mod(m)
	b.Mod(m)
	return &bn254Zr{a.(*bn254Zr).Int.Mul(a.(*bn254Zr).Int, b.(*bn254Zr).Int)}
}

func (c *Bn254) GenG1() driver.G1 { return &bn254G1{big.NewInt(1)} }
func (c *Bn254) GenG2() driver.G2 { return &bn254G2{big.NewInt(1)} }
func (c *Bn254) GenGt() driver.Gt { return &bn254Gt{big.NewInt(1)} }

func (c *Bn254) GroupOrder() driver.Zr { return &bn254Zr{fr.Modulus()} }
func (c *Bn254) FieldBytes() int       { return 32 }
func (c *Bn254) NewG1() driver.G1      { return &bn254G1{new(big.Int)} }
func (c *Bn254) NewG2() driver.G2      { return &bn254G2{new(big.Int)} }

func (c *Bn254) NewG1FromCoords(ix, iy driver.Zr) driver.G1 { return nil }

func (c *Bn254) NewZrFromBytes(b []byte) driver.Zr { return &bn254Zr{new(big.Int).SetBytes(b)} }
func (c *Bn254) NewZrFromInt(i int64) driver.Zr    { return &bn254Zr{big.NewInt(i)} }

func (c *Bn254) NewG1FromBytes(b []byte) driver.G1 {
	return &bn254G1{reduced(new(big.Int).SetBytes(b))}
}

func (c *Bn254) NewG2FromBytes(b []byte) driver.G2 {
	return &bn254G2{reduced(new(big.Int).SetBytes(b))}
}

func (c *Bn254) NewGtFromBytes(b []byte) driver.Gt {
	return &bn254Gt{reduced(new(big.Int).SetBytes(b))}
}

func (c *Bn254) HashToZr(data []byte) driver.Zr {
	digest := sha256.Sum256(data)
	z := c.NewZrFromBytes(digest[:])
	z.Mod(c.GroupOrder())
	return z
}

func (c *Bn254) HashToG1(data []byte) driver.G1 {
	digest := sha256.Sum256(append([]byte("G1"), data...))
	return &bn254G1{reduced(new(big.Int).SetBytes(digest[:]))}
}

func (c *Bn254) NewRandomZr(rng io.Reader) driver.Zr {
	b := make([]byte, 32)
	if _, err := io.ReadFull(rand.Reader, b); err != nil {
		panic(err)
	}
	return &bn254Zr{reduced(new(big.Int).SetBytes(b))}
}

func (c *Bn254) Rand() (io.Reader, error) { return rand.Reader, nil }
