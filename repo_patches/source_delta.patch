From cb4b207490cf944e229b3f054a7172cecf0cf92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 01/23] fix: bind the inner product challenge to the statement

The pre-image of the instance challenge was overwritten by the parameter
digest, so neither P nor c influenced the challenge.
---
 bp/innerprod.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index a0b44a1..a8baf92 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -104,7 +104,8 @@ func computeInstanceSpecificParams(pp *PP, P *math.G1, c *math.Zr) (*PP, *math.G
 	newPP = *pp
 	var hashPreImage []byte
 	hashPreImage = append(hashPreImage, P.Bytes()...)
-	hashPreImage = append(pp.Digest)
+	hashPreImage = append(hashPreImage, c.Bytes()...)
+	hashPreImage = append(hashPreImage, pp.Digest...)
 
 	x := common.FieldElementFromBytes(common.SHA256Digest(string(hashPreImage)))
 
-- 
2.43.0


From d8edde0cf2f4ba09767f83718c727e705f440e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 02/23] fix: commit to the new sum when a vertex above the
 leaves is updated

The sum was updated at index len(values) instead of the index of the sum,
which left the commitment inconsistent with the values of the vertex.
---
 verkle/tree.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/verkle/tree.go b/verkle/tree.go
index 6af97ec..ae4c526 100644
--- a/verkle/tree.go
+++ b/verkle/tree.go
@@ -403,6 +403,8 @@ func (t *Tree) updateLayerAboveLeaves(key string, node interface{}, descendants
 
 	v.sum = updateSum(v.sum, oldVal, newVal)
 
+	v.values[uint16(index)] = newVal
+
 	// Update index with new value
 	m := make(common.Vec, t.PP.N)
 	for i := 0; i < len(m); i++ {
@@ -414,14 +416,12 @@ func (t *Tree) updateLayerAboveLeaves(key string, node interface{}, descendants
 	}
 
 	// Artificially append the sum
-	m = append(m, v.sum)
+	m[len(m)-2] = v.sum
 
-	// Update index with new value
-	pp.Update(t.PP, v.V, m, newVal, index)
-	v.values[uint16(index)] = newVal
+	// Artificially append the blinding factor
+	m[len(m)-1] = v.BlindingFactor
 
-	// Update last entry with sum
-	pp.Update(t.PP, v.V, m, v.sum, len(v.values))
+	v.V = pp.Commit(t.PP, m)
 
 	return key
 }
-- 
2.43.0


From 36350ac37c278dbf866ec53405ec418037b6e5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 03/23] fix: pad short decimal paths to the full path length

Paths of small identifiers were padded by at most a single digit, and
signed numbers were accepted.
---
 sparse/tree.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sparse/tree.go b/sparse/tree.go
index bf984f7..dc268c8 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -137,7 +137,7 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 		if len(s) != 9 {
 			panic(fmt.Sprintf("%s is not a 9 digit decimal number", s))
 		}
-		num, err := strconv.ParseInt(s, 10, 32)
+		num, err := strconv.ParseUint(s, 10, 32)
 		if err != nil {
 			panic(fmt.Sprintf("%s is not a valid decimal number", s))
 		}
@@ -145,12 +145,12 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 		var res []uint16
 
 		for num > 0 {
-			res = append(res, uint16(num%int64(fanout)))
-			num /= int64(fanout)
+			res = append(res, uint16(num%uint64(fanout)))
+			num /= uint64(fanout)
 		}
 
 		pathLen := DigitPathLen(fanout)
-		if len(res) != pathLen {
+		for len(res) < pathLen {
 			res = append(res, 0)
 		}
 
-- 
2.43.0


From b6d83df1bf7344c94ba53d21fb926a75b30fed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 04/23] fix: let the tree write through the DB that memorizes
 the root

The tree wrote to the underlying DB, so the memorized root was stale after
the first read.
---
 pol/pol.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pol/pol.go b/pol/pol.go
index 159748e..5fa1144 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -51,11 +51,12 @@ func (pp *PublicParams) Size() int {
 // NewLiabilitySet creates a liability set with the given fanout and tree type.
 // Only a fan-out of the form 2^k - 1 for some natural k is permitted.
 func NewLiabilitySet(pp *PublicParams, db verkle.DB, id2Path func(string) []uint16) *LiabilitySet {
+	db = &DBMemorizeRoot{DB: db}
 	tree := verkle.NewVerkleTree(uint16(pp.Fanout), id2Path, db)
 	tree.PP = pp.PPPP
 
 	return &LiabilitySet{
-		DB:   &DBMemorizeRoot{DB: db},
+		DB:   db,
 		pp:   pp,
 		tree: tree,
 	}
-- 
2.43.0


From 181265e0063f47c047daa751efae6b191b061551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 05/23] fix: check that the hash chain opening is of the
 digests in the proof

The aggregated opening was taken from the proof and never compared to the
digests, so the path was not bound to the root.
---
 pol/pol.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pol/pol.go b/pol/pol.go
index 5fa1144..0dc1362 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -193,6 +193,15 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 		}
 	}
 
+	// Check that the aggregated opening is of the digests along the path.
+	tPP := make(common.Vec, len(lp.W))
+	for i := 0; i < len(tPP); i++ {
+		tPP[i] = pp.RO(publicParams.PPPP, lp.W, i)
+	}
+	if !lp.Digests[:len(tPP)].InnerProd(tPP).Equals(lp.PointProofΣ) {
+		return nil, fmt.Errorf("hash chain aggregation does not match the digests")
+	}
+
 	if err := pp.VerifyAggregation(publicParams.PPPP, uint16VecToIntVec(path)[:len(path)-1], lp.W, lp.PointProofπ, lp.PointProofΣ, pp.RO); err != nil {
 		return nil, fmt.Errorf("hash chain aggregation proof invalid: %v", err)
 	}
-- 
2.43.0


From 388e38a36d7375319187daa0fa0ba9b2e22f212e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 06/23] fix: IsPowerOfTwo does not terminate on zero

---
 common/math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math.go b/common/math.go
index f1c29e8..93da320 100644
--- a/common/math.go
+++ b/common/math.go
@@ -496,7 +496,7 @@ func feFrom256Bits(bytes []byte) *fr.Element {
 }
 
 func IsPowerOfTwo(n uint16) bool {
-	if n == 1 {
+	if n == 0 || n == 1 {
 		return false
 	}
 
-- 
2.43.0


From 09cd8fe3b9354bc6fc11c662e011077093e2368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 07/23] fix: an opening to -v is accepted for a commitment to v

---
 pp/pointproofs.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pp/pointproofs.go b/pp/pointproofs.go
index 71658dd..f3345f7 100644
--- a/pp/pointproofs.go
+++ b/pp/pointproofs.go
@@ -116,7 +116,7 @@ func Open(pp *PP, i int, m common.Vec) (mi *math.Zr, π *math.G1) {
 func Verify(pp *PP, mi *math.Zr, π *math.G1, C *math.G1, i int) error {
 	left := common.G1v{C}.InnerProd(common.G2v{pp.G2s[pp.N-i-1]})
 	right := common.G1v{π}.InnerProd(common.G2v{c.GenG2})
-	right.Mul(pp.Gt.Exp(mi))
+	right.Mul(pp.Gt.Exp(reduce(mi)))
 
 	if left.Equals(right) {
 		return nil
@@ -124,6 +124,14 @@ func Verify(pp *PP, mi *math.Zr, π *math.G1, C *math.G1, i int) error {
 	return fmt.Errorf("%v is not an element in index %d in %v", mi, i, C)
 }
 
+// reduce returns the given scalar modulo the group order,
+// since exponentiation in the target group ignores the sign of the exponent.
+func reduce(x *math.Zr) *math.Zr {
+	x = x.Copy()
+	x.Mod(GroupOrder)
+	return x
+}
+
 func Update(pp *PP, C *math.G1, m common.Vec, mi *math.Zr, i int) {
 	prevG := pp.G1s[i].Mul(m[i])
 	nextG := pp.G1s[i].Mul(mi)
@@ -157,7 +165,7 @@ func VerifyAggregation(pp *PP, indices []int, commitments common.G1v, π *math.G
 	left := commitments.InnerProd(g2s.Mulv(exponents))
 
 	πg2 := common.G1v{π}.InnerProd(common.G2v{c.GenG2})
-	right := pp.Gt.Exp(Σ)
+	right := pp.Gt.Exp(reduce(Σ))
 	right.Mul(πg2)
 
 	if right.Equals(left) {
-- 
2.43.0


From 5fb70e21b13e72c9885cb60a129f473245988383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 08/23] fix: negative hexadecimal identifiers hang the path
 conversion

---
 sparse/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparse/tree.go b/sparse/tree.go
index dc268c8..b475e22 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -222,7 +222,7 @@ func hash(s string) string {
 
 func convertPathWithFanout(s string, fanOut uint16) []uint16 {
 	n, ok := big.NewInt(0).SetString(s, 16)
-	if !ok {
+	if !ok || n.Sign() < 0 {
 		panic(fmt.Sprintf("failed parsing %s as a hexadecimal number", s))
 	}
 
-- 
2.43.0


From 17c072933fa4d69772a06f4e83f236b96f7c5038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 09/23] fix: aggregation coefficients repeat after 256
 commitments

---
 pp/pointproofs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pp/pointproofs.go b/pp/pointproofs.go
index f3345f7..4caf416 100644
--- a/pp/pointproofs.go
+++ b/pp/pointproofs.go
@@ -3,6 +3,7 @@ package pp
 import (
 	"crypto/rand"
 	"crypto/sha256"
+	"encoding/binary"
 	"fmt"
 	"pol/common"
 
@@ -178,7 +179,9 @@ func VerifyAggregation(pp *PP, indices []int, commitments common.G1v, π *math.G
 func RO(pp *PP, cs []*math.G1, i int) *math.Zr {
 	h := sha256.New()
 	h.Write(pp.Digest)
-	h.Write([]byte{byte(i)})
+	index := make([]byte, 4)
+	binary.BigEndian.PutUint32(index, uint32(i))
+	h.Write(index)
 	for j := 0; j < len(cs); j++ {
 		h.Write(cs[j].Bytes())
 	}
-- 
2.43.0


From f111636a5e8533be38e9e0a754cad291a52abd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 10/23] fix: liability proofs with missing commitments panic
 the verifier

---
 pol/pol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pol/pol.go b/pol/pol.go
index 0dc1362..18f4fc9 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -128,6 +128,9 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 	if len(lp.W) != expectedDigestNum-1 || len(lp.Digests) != expectedDigestNum {
 		return nil, fmt.Errorf("expected digest proofs of size %d but got %d", expectedDigestNum, len(lp.W))
 	}
+	if len(lp.V) != expectedDigestNum || len(lp.RangeProofs) != expectedDigestNum {
+		return nil, fmt.Errorf("expected %d commitments and range proofs but got %d and %d", expectedDigestNum, len(lp.V), len(lp.RangeProofs))
+	}
 
 	// Check that the root is what is advertised.
 	if !lp.V[0].Equals(V) {
-- 
2.43.0


From 7521e6c9c8e1b5788f4110ddb9b8031fdff3b07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 11/23] fix: a fanout of one hangs the decimal path conversion

---
 sparse/tree.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sparse/tree.go b/sparse/tree.go
index b475e22..9b3f6fc 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -133,6 +133,8 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 		panic(fmt.Sprintf("fanout %d+1 is not a power of two", fanout))
 	}
 
+	pathLen := DigitPathLen(fanout)
+
 	return func(s string) []uint16 {
 		if len(s) != 9 {
 			panic(fmt.Sprintf("%s is not a 9 digit decimal number", s))
@@ -149,7 +151,6 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 			num /= uint64(fanout)
 		}
 
-		pathLen := DigitPathLen(fanout)
 		for len(res) < pathLen {
 			res = append(res, 0)
 		}
@@ -159,6 +160,10 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 }
 
 func DigitPathLen(fanout uint16) int {
+	if fanout < 2 {
+		panic(fmt.Sprintf("fanout %d is too small", fanout))
+	}
+
 	fo := big.NewInt(0).SetInt64(int64(fanout))
 
 	space := big.NewInt(0).Exp(big.NewInt(10), big.NewInt(9), nil)
-- 
2.43.0


From 30a211b98a530ed1c167bda60ffd4fef8117b91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 12/23] fix: inner product and reduction proofs of a wrong
 length

Short proofs panicked the verifier, and trailing elements were ignored.
---
 bp/innerprod.go | 8 ++++++++
 bp/ir.go        | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index a8baf92..030ffd5 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -140,6 +140,10 @@ func (ipp *InnerProductProof) Verify(pp *PP) error {
 // verify implements the verifier's side in protocol 2.
 func verify(pp *PP, P *math.G1, g, h common.G1v, LRs []*math.G1, a *math.Zr, b *math.Zr) error {
 	if len(g) == 1 {
+		if len(LRs) != 0 {
+			return fmt.Errorf("proof is too long")
+		}
+
 		expectedP := pp.U.Mul(a.Mul(b))
 		expectedP.Add(g[0].Mul(a))
 		expectedP.Add(h[0].Mul(b))
@@ -150,6 +154,10 @@ func verify(pp *PP, P *math.G1, g, h common.G1v, LRs []*math.G1, a *math.Zr, b *
 		return nil
 	}
 
+	if len(LRs) < 2 {
+		return fmt.Errorf("proof is too short")
+	}
+
 	L := LRs[0]
 	R := LRs[1]
 	LRs = LRs[2:]
diff --git a/bp/ir.go b/bp/ir.go
index fa956cb..914b761 100644
--- a/bp/ir.go
+++ b/bp/ir.go
@@ -23,6 +23,10 @@ func IterativeVerify(pp *PP, prevV *math.G1, Δ [][3]*math.G1, vFinal *math.Zr)
 	var finalV *math.G1
 
 	for n > 0 {
+		if len(Δ) == 0 {
+			return nil, nil, fmt.Errorf("proof is too short")
+		}
+
 		A, B, V := Δ[0][0], Δ[0][1], Δ[0][2]
 		x := common.FieldElementFromBytes(appendVToChallenge(randomOracle(A, B, pp.Digest), prevV))
 
@@ -46,6 +50,10 @@ func IterativeVerify(pp *PP, prevV *math.G1, Δ [][3]*math.G1, vFinal *math.Zr)
 		n /= 2
 	}
 
+	if len(Δ) != 0 {
+		return nil, nil, fmt.Errorf("proof is too long")
+	}
+
 	if !G[0].Mul(vFinal).Equals(finalV) {
 		return nil, nil, fmt.Errorf("final equation check failed")
 	}
-- 
2.43.0


From 4eebf48486f220ac0e6515b4e5e3abf6653ac727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 13/23] fix: take the digest of the range proof parameters
 after sharing the generators

---
 pol/pol.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pol/pol.go b/pol/pol.go
index 18f4fc9..e937c18 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -96,8 +96,16 @@ func GeneratePublicParams(fanOut uint16, treeType TreeType) (func(string) []uint
 	pp.SAPP.Gs = make(common.G1v, n)
 	copy(pp.SAPP.Gs, pp.PPPP.G1s)
 
-	pp.RPPP.Gs = pp.SAPP.Gs
-	pp.RPPP.F = pp.SAPP.F
+	// The digest of the range proof parameters is computed once, so it has to be of the generators in use.
+	pp.RPPP = &bp.RangeProofPublicParams{
+		Gs: pp.SAPP.Gs,
+		F:  pp.SAPP.F,
+		G:  pp.RPPP.G,
+		H:  pp.RPPP.H,
+		Fs: pp.RPPP.Fs,
+		Hs: pp.RPPP.Hs,
+	}
+	pp.RPPP.Digest()
 	return id2Path, pp
 }
 
-- 
2.43.0


From 674f906da95979dadb5df2a6bb2527c71850548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:57 +0000
Subject: [PATCH 14/23] fix: bind the challenges of an inner product argument
 to all earlier rounds

The challenge of a round was hashed from the messages of that round only, so a
prover could choose the rounds independently of each other.
---
 bp/innerprod.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index 030ffd5..e2f1eb1 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -167,6 +167,7 @@ func verify(pp *PP, P *math.G1, g, h common.G1v, LRs []*math.G1, a *math.Zr, b *
 	g = nextParams.g
 	h = nextParams.h
 	P = nextParams.P
+	pp = nextParams.pp
 
 	return verify(pp, P, g, h, LRs, a, b)
 }
@@ -205,6 +206,7 @@ func prove(pp *PP, a, b common.Vec, P *math.G1, g, h common.G1v) ([]*math.G1, []
 	P = nextParams.P
 	g = nextParams.g
 	h = nextParams.h
+	pp = nextParams.pp
 
 	a = a[:n].Mul(x).Add(a[n:].Mul(xInverse))
 	b = b[:n].Mul(xInverse).Add(b[n:].Mul(x))
@@ -217,6 +219,7 @@ func prove(pp *PP, a, b common.Vec, P *math.G1, g, h common.G1v) ([]*math.G1, []
 }
 
 type nextParams struct {
+	pp          *PP
 	x, xInverse *math.Zr
 	g, h        common.G1v
 	P           *math.G1
@@ -230,6 +233,10 @@ func computeNextParams(L *math.G1, R *math.G1, pp *PP, g common.G1v, h common.G1
 	xInverse := x.Copy()
 	xInverse.InvModP(common.GroupOrder)
 
+	// The challenge of the next round is bound to this round, and thereby to all rounds before it.
+	nextPP := *pp
+	nextPP.Digest = digest
+
 	nextG := g[:n].Mul(xInverse).HadamardProd(g[n:].Mul(x))
 	nextH := h[:n].Mul(x).HadamardProd(h[n:].Mul(xInverse))
 
@@ -244,6 +251,7 @@ func computeNextParams(L *math.G1, R *math.G1, pp *PP, g common.G1v, h common.G1
 	nextP.Add(R2)
 
 	return nextParams{
+		pp:       &nextPP,
 		x:        x,
 		xInverse: xInverse,
 		g:        nextG,
-- 
2.43.0


From bd410e6ffaffafedd518dd2a32450504523981c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:08 +0000
Subject: [PATCH 15/23] fix: bind the challenges of aggregated equality proofs
 to the positions

The positions are a part of the statement, yet they could be chosen once the
coefficients were known.
---
 poe/poe.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/poe/poe.go b/poe/poe.go
index 86f151e..c5bf7d5 100644
--- a/poe/poe.go
+++ b/poe/poe.go
@@ -75,7 +75,7 @@ func (e *Equalities) Verify(proof *AggregatedProof) error {
 	groupElements = append(groupElements, e.V...)
 	groupElements = append(groupElements, e.W...)
 
-	x := e.RO(groupElements, nil, e.PP.Digest, 1)[0]
+	x := e.RO(groupElements, e.positions(), e.PP.Digest, 1)[0]
 
 	m := len(e.V)
 	n := e.PP.PP.N
@@ -83,7 +83,7 @@ func (e *Equalities) Verify(proof *AggregatedProof) error {
 	groupElements = append(groupElements, proof.U)
 	groupElements = append(groupElements, proof.V)
 
-	ts := e.RO(groupElements, nil, e.PP.Digest, 2*m)
+	ts := e.RO(groupElements, e.positions(), e.PP.Digest, 2*m)
 
 	g2sV := make(common.G2v, m)
 	for k := 0; k < m; k++ {
@@ -176,7 +176,7 @@ func (e *Equalities) Prove(vs, ws []common.Vec) *AggregatedProof {
 	groupElements = append(groupElements, e.V...)
 	groupElements = append(groupElements, e.W...)
 
-	x := e.RO(groupElements, nil, e.PP.Digest, 1)[0]
+	x := e.RO(groupElements, e.positions(), e.PP.Digest, 1)[0]
 
 	r1, r2 := c.NewRandomZr(rand.Reader), c.NewRandomZr(rand.Reader)
 
@@ -194,7 +194,7 @@ func (e *Equalities) Prove(vs, ws []common.Vec) *AggregatedProof {
 	groupElements = append(groupElements, U)
 	groupElements = append(groupElements, V)
 
-	ts := e.RO(groupElements, nil, e.PP.Digest, 2*m)
+	ts := e.RO(groupElements, e.positions(), e.PP.Digest, 2*m)
 
 	Ω := ΩvPP.Add(Ωv.Mul(x)).MulV(ts.Evens()).Sum()
 	Ω.Add(ΩwPP.Add(Ωw.Mul(x)).MulV(ts.Odds()).Sum())
@@ -235,6 +235,11 @@ func (e *Equalities) Prove(vs, ws []common.Vec) *AggregatedProof {
 
 }
 
+// positions returns the indices of the equal values, which are a part of the statement.
+func (e *Equalities) positions() []int {
+	return append(append([]int{}, e.I...), e.J...)
+}
+
 func (e *Equalities) validateInputLength(v []common.Vec, w []common.Vec, m int) {
 	if len(e.W) != m {
 		panic(fmt.Sprintf("V is of size %d but W is of size %d", m, len(e.W)))
-- 
2.43.0


From 9c5242d7dce46e288389a01217d050538783086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:05 +0000
Subject: [PATCH 16/23] fix: bind the aggregation of the digests along a path
 to the digests and the path

The coefficients covered the commitments to the digests only, so the commitments
to the values below the root could be chosen once the coefficients were known.
---
 pol/pol.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/pol/pol.go b/pol/pol.go
index e937c18..36cb7c9 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -206,14 +206,15 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 
 	// Check that the aggregated opening is of the digests along the path.
 	tPP := make(common.Vec, len(lp.W))
+	ro := digestRO(path, lp.Digests[:len(tPP)])
 	for i := 0; i < len(tPP); i++ {
-		tPP[i] = pp.RO(publicParams.PPPP, lp.W, i)
+		tPP[i] = ro(publicParams.PPPP, lp.W, i)
 	}
 	if !lp.Digests[:len(tPP)].InnerProd(tPP).Equals(lp.PointProofΣ) {
 		return nil, fmt.Errorf("hash chain aggregation does not match the digests")
 	}
 
-	if err := pp.VerifyAggregation(publicParams.PPPP, uint16VecToIntVec(path)[:len(path)-1], lp.W, lp.PointProofπ, lp.PointProofΣ, pp.RO); err != nil {
+	if err := pp.VerifyAggregation(publicParams.PPPP, uint16VecToIntVec(path)[:len(path)-1], lp.W, lp.PointProofπ, lp.PointProofΣ, ro); err != nil {
 		return nil, fmt.Errorf("hash chain aggregation proof invalid: %v", err)
 	}
 
@@ -447,14 +448,15 @@ func (ls *LiabilitySet) ProveLiability(id string) (int64, LiabilityProof, []time
 		Sum:            int(liability),
 	}
 
+	ro := digestRO(path, proof.Digests[:len(path)-1])
 	var tPP common.Vec
 	for i := 0; i < len(path)-1; i++ {
-		tPP = append(tPP, pp.RO(ls.tree.PP, proof.W, i))
+		tPP = append(tPP, ro(ls.tree.PP, proof.W, i))
 	}
 
 	saStart := time.Now()
 	proof.PointProofΣ = proof.Digests[:len(tPP)].InnerProd(tPP)
-	proof.PointProofπ = pp.Aggregate(ls.tree.PP, proof.W, digestProofs, pp.RO)
+	proof.PointProofπ = pp.Aggregate(ls.tree.PP, proof.W, digestProofs, ro)
 	proof.SumArgumentProof = vertices.SumArgument(ls.pp.SAPP)
 	saElapsed := time.Since(saStart)
 
@@ -484,6 +486,24 @@ func (ls *LiabilitySet) ProveLiability(id string) (int64, LiabilityProof, []time
 	return liability, proof, []time.Duration{saElapsed, eqProofElapsed, time.Since(start)}, true
 }
 
+// digestRO returns the random oracle that aggregates the openings of the digests along the path.
+// It covers the path and the digests, as otherwise they could be chosen once the coefficients are known.
+func digestRO(path []uint16, digests common.Vec) func(*pp.PP, []*math.G1, int) *math.Zr {
+	h := sha256.New()
+	for i, digest := range digests {
+		h.Write([]byte{byte(path[i] >> 8), byte(path[i])})
+		h.Write(digest.Bytes())
+	}
+	statement := h.Sum(nil)
+
+	return func(params *pp.PP, commitments []*math.G1, i int) *math.Zr {
+		h := sha256.New()
+		h.Write(pp.RO(params, commitments, i).Bytes())
+		h.Write(statement)
+		return common.FieldElementFromBytes(h.Sum(nil))
+	}
+}
+
 func uint16VecToIntVec(in []uint16) []int {
 	res := make([]int, len(in))
 	for i, n := range in {
-- 
2.43.0


From 37442f9ca5d548afab7ffb30a83a0cdad9dee221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:12 +0000
Subject: [PATCH 17/23] fix: reject aggregated equality proofs with a wrong
 number of commitments

---
 poe/poe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/poe/poe.go b/poe/poe.go
index c5bf7d5..a5cbe2b 100644
--- a/poe/poe.go
+++ b/poe/poe.go
@@ -69,6 +69,10 @@ func (ap *AggregatedProof) Size() int {
 }
 
 func (e *Equalities) Verify(proof *AggregatedProof) error {
+	if len(proof.Vaggr) != len(e.V) || len(proof.Waggr) != len(e.V) {
+		return fmt.Errorf("expected %d commitments but got %d and %d", len(e.V), len(proof.Vaggr), len(proof.Waggr))
+	}
+
 	var groupElements common.G1v
 	groupElements = append(groupElements, proof.Vaggr...)
 	groupElements = append(groupElements, proof.Waggr...)
-- 
2.43.0


From d78b2e0e2fca243205f8c1c1a26708d533d091b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:15 +0000
Subject: [PATCH 18/23] fix: serialize the vertices of a Verkle tree, not empty
 records

---
 verkle/tree.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verkle/tree.go b/verkle/tree.go
index ae4c526..5bbe55e 100644
--- a/verkle/tree.go
+++ b/verkle/tree.go
@@ -189,11 +189,12 @@ func NewVerkleTree(fanOut uint16, id2Path func(string) []uint16, db DB) *Tree {
 
 func (t *Tree) Serialize(out io.Writer) {
 	t.Tree.Root.Serialize(out, "", func(data interface{}) []byte {
-		_, isVertex := data.(*Vertex)
+		// Vertices above the leaves are held in the database, and the tree only holds their keys.
+		key, isVertex := data.(string)
 		if !isVertex {
 			return nil
 		}
-		return data.(*Vertex).Bytes()
+		return t.DB.Get([]byte(key))
 	})
 }
 
-- 
2.43.0


From cf61303c03797d23005c42bc9d51c040080b0bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:15 +0000
Subject: [PATCH 19/23] fix: count the inner product proof in the size of a sum
 argument

---
 sum/sa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sum/sa.go b/sum/sa.go
index a341649..ac1dae6 100644
--- a/sum/sa.go
+++ b/sum/sa.go
@@ -103,7 +103,7 @@ func createHVZKChallenge(V common.G1v, m int) common.Vec {
 }
 
 func (proof *Proof) Size() int {
-	return len(proof.c.Bytes()) + len(proof.W.Bytes()) + len(proof.ρ.Bytes())
+	return len(proof.c.Bytes()) + len(proof.W.Bytes()) + len(proof.ρ.Bytes()) + proof.π.Size()
 }
 
 func (proof *Proof) VerifyAggregated(pp *PP, V common.G1v) error {
-- 
2.43.0


From 36c406ac2f04e142368cbb908fbd1971e4615a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:15 +0000
Subject: [PATCH 20/23] fix: count the opening of the liability in the size of
 its proof

---
 pol/pol.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pol/pol.go b/pol/pol.go
index 36cb7c9..ea7010a 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -127,6 +127,7 @@ func (lp LiabilityProof) Size() int {
 		size += rp.Size()
 	}
 	size += lp.EqualityProof.Size()
+	size += len(lp.LiabilityProof.LiabilityProof.Bytes())
 	return size
 }
 
-- 
2.43.0


From e125d79c0987723df112b3806df90e4d294b1e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:15 +0000
Subject: [PATCH 21/23] fix: count the commitment parameters in the size of the
 public parameters

---
 pol/pol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pol/pol.go b/pol/pol.go
index ea7010a..cc3069a 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -45,7 +45,7 @@ type PublicParams struct {
 }
 
 func (pp *PublicParams) Size() int {
-	return pp.RPPP.Size() + pp.POEPP.Size() + pp.SAPP.Size() - len(pp.SAPP.Gs.Bytes()) - len(pp.SAPP.F.Bytes()) - len(pp.RPPP.Gs.Bytes()) - len(pp.RPPP.F.Bytes()) - pp.PPPP.Size()
+	return pp.RPPP.Size() + pp.POEPP.Size() + pp.SAPP.Size() - len(pp.SAPP.Gs.Bytes()) - len(pp.SAPP.F.Bytes()) - len(pp.RPPP.Gs.Bytes()) - len(pp.RPPP.F.Bytes())
 }
 
 // NewLiabilitySet creates a liability set with the given fanout and tree type.
-- 
2.43.0


From f503aa609ed05f258d20ee86024bd08a077a7087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:44 +0000
Subject: [PATCH 22/23] fix: compare the last element of a vector with the sum
 of the others modulo the group order

---
 sum/sa.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sum/sa.go b/sum/sa.go
index ac1dae6..dfe93a9 100644
--- a/sum/sa.go
+++ b/sum/sa.go
@@ -127,7 +127,12 @@ func NewCommitment(pp *PP, v common.Vec, r *math.Zr) *Argument {
 		sum = sum.Plus(v[i])
 	}
 
-	if !v[n-1].Equals(sum) {
+	// The sum is modulo the group order, and neither side of the equality is necessarily reduced
+	last := v[n-1].Copy()
+	last.Mod(GroupOrder)
+	sum.Mod(GroupOrder)
+
+	if !last.Equals(sum) {
 		panic("v[n-1] != Σv[j] j: 0->n-2")
 	}
 
-- 
2.43.0


From 08c26c84c7510be28d2ef6e12189888da893ca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:44 +0000
Subject: [PATCH 23/23] fix: compare the values that are proved equal modulo
 the group order

---
 poe/poe.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/poe/poe.go b/poe/poe.go
index a5cbe2b..d58d244 100644
--- a/poe/poe.go
+++ b/poe/poe.go
@@ -353,7 +353,11 @@ func (e *Equality) Verify(Υ *Proof) error {
 // The last elements in 'v' and 'w' should be blinding factors.
 func (e *Equality) Prove(v, w common.Vec) *Proof {
 	// Sanity test, in case we're trying to prove something that is incorrect
-	if !v[e.I].Equals(w[e.J]) {
+	// The values are elements of the field, and are not necessarily reduced
+	vi, wj := v[e.I].Copy(), w[e.J].Copy()
+	vi.Mod(c.GroupOrder)
+	wj.Mod(c.GroupOrder)
+	if !vi.Equals(wj) {
 		panic(fmt.Sprintf("v[%d] != w[%d]", e.I, e.J))
 	}
 
-- 
2.43.0

