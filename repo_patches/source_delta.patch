From e642ad594c50d6bd16edfb79023b5309319d9dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:06 +0000
Subject: [PATCH 01/30] fix: innerproduct.Decode refuses undecodable points and
 misaligned input

SetBytes failures on L and R were ignored, which left degenerate points in
the proof (any range proof with such bytes verified), and 32 trailing bytes
were silently dropped.
---
 rangeproof/innerproduct/innerproduct.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index f9ef448..b657e91 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -440,7 +440,7 @@ func (proof *Proof) Decode(r io.Reader) error {
 		return err
 	}
 	numBytes := len(buf.Bytes())
-	if numBytes%32 != 0 {
+	if numBytes%64 != 0 {
 		return errors.New("proof was not formatted correctly")
 	}
 	lenL := uint32(numBytes / 64)
@@ -458,8 +458,9 @@ func (proof *Proof) Decode(r io.Reader) error {
 		if err != nil {
 			return err
 		}
-		proof.L[i].SetBytes(&LBytes)
-		proof.R[i].SetBytes(&RBytes)
+		if !proof.L[i].SetBytes(&LBytes) || !proof.R[i].SetBytes(&RBytes) {
+			return errors.New("point not encodable")
+		}
 	}
 
 	return nil
-- 
2.43.0


From b0f714fcfdb1628e49a87fde5443bcff23be69b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:35 +0000
Subject: [PATCH 02/30] fix: take the number of range proof values from the
 proof, not from a global

Verify used the package variable M left behind by the last Prove call, so the
verdict depended on unrelated earlier or concurrent calls, commitments beyond
M were not covered by it, and a mismatching proof could panic or exhaust
memory. Verify now also refuses proofs of inconsistent dimensions.
---
 rangeproof/debug.go      | 16 ++++++++--------
 rangeproof/poly.go       |  8 ++++----
 rangeproof/rangeproof.go | 30 +++++++++++++++++++-----------
 3 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/rangeproof/debug.go b/rangeproof/debug.go
index ecaaacc..537ab1f 100644
--- a/rangeproof/debug.go
+++ b/rangeproof/debug.go
@@ -12,14 +12,14 @@ import (
 )
 
 // Put all debug functions here
-func debugProve(x, y, z ristretto.Scalar, v, l, r []ristretto.Scalar, aL, aR, sL, sR []ristretto.Scalar) error {
+func debugProve(x, y, z ristretto.Scalar, v, l, r []ristretto.Scalar, aL, aR, sL, sR []ristretto.Scalar, M int) error {
 
-	ok, err := debugLxG(l, x, z, aL, aR, sL)
+	ok, err := debugLxG(l, x, z, aL, aR, sL, M)
 	if !ok {
 		return errors.Wrap(err, "[DEBUG]: <l(x), G> is constructed incorrectly")
 	}
 
-	ok, err = debugRxHPrime(r, x, y, z, aR, sR)
+	ok, err = debugRxHPrime(r, x, y, z, aR, sR, M)
 	if !ok {
 		return errors.Wrap(err, "[DEBUG]: <r(x), H'> is constructed incorrectly")
 	}
@@ -37,7 +37,7 @@ func debugProve(x, y, z ristretto.Scalar, v, l, r []ristretto.Scalar, aL, aR, sL
 
 // DEBUG
 
-func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar) (ristretto.Scalar, error) {
+func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar, M int) (ristretto.Scalar, error) {
 
 	aLMinusZ := vector.SubScalar(aL, z)
 
@@ -50,7 +50,7 @@ func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar) (ristretto.Scalar
 		return ristretto.Scalar{}, err
 	}
 
-	zMTwoN := sumZMTwoN(z)
+	zMTwoN := sumZMTwoN(z, M)
 
 	rightIP, err := vector.Add(zMTwoN, hada)
 	if err != nil {
@@ -66,7 +66,7 @@ func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar) (ristretto.Scalar
 }
 
 // <l(x), G> =  <aL, G> + x<sL, G> +<-z1, G>
-func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristretto.Scalar) (bool, error) {
+func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristretto.Scalar, M int) (bool, error) {
 
 	var P ristretto.Point
 	P.SetZero()
@@ -110,7 +110,7 @@ func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristrett
 }
 
 // < r(x), H'> = <aR, H> + x<sR, H> + <z*y^(n*m), H'> + sum( (< <z^(j+1),2^n>, H') ) from j = 1 to j = m
-func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []ristretto.Scalar) (bool, error) {
+func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []ristretto.Scalar, M int) (bool, error) {
 
 	genData := []byte("dusk.BulletProof.vec1")
 
@@ -156,7 +156,7 @@ func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []rist
 		return false, errors.Wrap(err, "<z*y^nm , H'>")
 	}
 	// k = sum( (< <z^(j+1) * 2^n>, H') ) from j = 1 to j = m
-	k, err := vector.Exp(sumZMTwoN(z), Hprime, N, M)
+	k, err := vector.Exp(sumZMTwoN(z, M), Hprime, N, M)
 	if err != nil {
 		return false, errors.Wrap(err, "k = sum()...")
 	}
diff --git a/rangeproof/poly.go b/rangeproof/poly.go
index eef6fe7..c35d37b 100644
--- a/rangeproof/poly.go
+++ b/rangeproof/poly.go
@@ -15,7 +15,7 @@ type polynomial struct {
 	t0, t1, t2     ristretto.Scalar
 }
 
-func computePoly(aL, aR, sL, sR []ristretto.Scalar, y, z ristretto.Scalar) (*polynomial, error) {
+func computePoly(aL, aR, sL, sR []ristretto.Scalar, y, z ristretto.Scalar, M int) (*polynomial, error) {
 
 	// calculate l_0
 	l0 := vector.SubScalar(aL, z)
@@ -26,7 +26,7 @@ func computePoly(aL, aR, sL, sR []ristretto.Scalar, y, z ristretto.Scalar) (*pol
 	// calculate r_0
 	yNM := vector.ScalarPowers(y, uint32(N*M))
 
-	zMTwoN := sumZMTwoN(z)
+	zMTwoN := sumZMTwoN(z, M)
 
 	r0 := vector.AddScalar(aR, z)
 
@@ -155,8 +155,8 @@ func (p *polynomial) computeT0(y, z ristretto.Scalar, v []ristretto.Scalar, n, m
 // calculates sum( z^(1+j) * ( 0^(j-1)n || 2 ^n || 0^(m-j)n ) ) from j = 1 to j=M (71)
 // implementation taken directly from java implementation.
 // XXX: Look into ways to speed this up, and improve readability
-// XXX: pass n and m as parameters
-func sumZMTwoN(z ristretto.Scalar) []ristretto.Scalar {
+// XXX: pass n as parameter
+func sumZMTwoN(z ristretto.Scalar, M int) []ristretto.Scalar {
 
 	res := make([]ristretto.Scalar, N*M)
 
diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 129dbeb..fb9e303 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -19,10 +19,7 @@ import (
 // So amount will be between 0...2^(N-1)
 const N = 64
 
-// M is the number of outputs for one bulletproof
-var M = 1
-
-// M is the maximum number of values allowed per rangeproof
+// maxM is the maximum number of values allowed per rangeproof
 const maxM = 16
 
 // Proof is the constructed BulletProof
@@ -48,7 +45,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 		return Proof{}, errors.New("length of slice v is zero")
 	}
 
-	M = len(v)
+	M := len(v)
 	if M > maxM {
 		return Proof{}, fmt.Errorf("maximum amount of values must be less than %d", maxM)
 	}
@@ -95,7 +92,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	A := computeA(ped, aLs, aRs)
 
 	// // Compute S
-	S, sL, sR := computeS(ped)
+	S, sL, sR := computeS(ped, M)
 
 	// // update Fiat-Shamir
 	hs.Append(A.Value.Bytes(), S.Value.Bytes())
@@ -104,7 +101,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	y, z := computeYAndZ(hs)
 
 	// compute polynomial
-	poly, err := computePoly(aLs, aRs, sL, sR, y, z)
+	poly, err := computePoly(aLs, aRs, sL, sR, y, z, M)
 	if err != nil {
 		return Proof{}, errors.Wrap(err, "[Prove] - poly")
 	}
@@ -139,13 +136,13 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 
 	// START DEBUG
 	if debug {
-		err := debugProve(x, y, z, v, l, r, aLs, aRs, sL, sR)
+		err := debugProve(x, y, z, v, l, r, aLs, aRs, sL, sR, M)
 		if err != nil {
 			return Proof{}, errors.Wrap(err, "[Prove] - debugProve")
 		}
 
 		// DEBUG T0
-		testT0, err := debugT0(aLs, aRs, y, z)
+		testT0, err := debugT0(aLs, aRs, y, z, M)
 		if err != nil {
 			return Proof{}, errors.Wrap(err, "[Prove] - testT0")
 
@@ -216,7 +213,7 @@ func computeA(ped *pedersen.Pedersen, aLs, aRs []ristretto.Scalar) pedersen.Comm
 }
 
 // S = kH + sL*G + sR * H
-func computeS(ped *pedersen.Pedersen) (pedersen.Commitment, []ristretto.Scalar, []ristretto.Scalar) {
+func computeS(ped *pedersen.Pedersen, M int) (pedersen.Commitment, []ristretto.Scalar, []ristretto.Scalar) {
 
 	sL, sR := make([]ristretto.Scalar, N*M), make([]ristretto.Scalar, N*M)
 	for i := 0; i < N*M; i++ {
@@ -322,6 +319,15 @@ func computeHprime(H []ristretto.Point, y ristretto.Scalar) []ristretto.Point {
 // Verify takes a bullet proof and returns true only if the proof was valid
 func Verify(p Proof) (bool, error) {
 
+	// The number of values is given by the proof itself
+	M := len(p.V)
+	if M < 1 || M > maxM || innerproduct.DiffNextPow2(uint32(M)) != 0 {
+		return false, errors.New("[Verify] - number of commitments is not a power of two or exceeds the maximum")
+	}
+	if p.IPProof == nil || 1<<uint(len(p.IPProof.L)) != N*M || len(p.IPProof.R) != len(p.IPProof.L) {
+		return false, errors.New("[Verify] - size of inner product proof does not match the number of commitments")
+	}
+
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
 	ped.BaseVector.Compute(uint32(N * M))
@@ -354,6 +360,8 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 
 	var c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11 ristretto.Point
 
+	M := len(V)
+
 	var c ristretto.Scalar
 	c.Rand()
 
@@ -378,7 +386,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 
 	// h vector scalars : y Had (bsInv - zM2N) - z points : H
 	bs := vector.MulScalar(sInv, ipproof.B)
-	zAnd2 := sumZMTwoN(z)
+	zAnd2 := sumZMTwoN(z, M)
 	h, err := vector.Sub(bs, zAnd2)
 	if err != nil {
 		return false, errors.Wrap(err, "[h1]")
-- 
2.43.0


From bdac45878d227f576228b0991e523d66f7ce866b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:37 +0000
Subject: [PATCH 03/30] fix: Prove no longer writes padding into the caller's
 slice

---
 rangeproof/rangeproof.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index fb9e303..157f2cc 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -53,6 +53,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	// Pad zero values until we have power of two
 	padAmount := innerproduct.DiffNextPow2(uint32(M))
 	M = M + int(padAmount)
+	v = append(make([]ristretto.Scalar, 0, M), v...) // do not write to the caller's slice
 	for i := uint32(0); i < padAmount; i++ {
 		var zeroScalar ristretto.Scalar
 		zeroScalar.SetZero()
-- 
2.43.0


From 5521da1061fcabad6d292b7375c38ff60aadcd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:39 +0000
Subject: [PATCH 04/30] fix: debug mode of Prove accepts the largest in-range
 amount 2^N-1

---
 rangeproof/debug.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rangeproof/debug.go b/rangeproof/debug.go
index 537ab1f..361e2e1 100644
--- a/rangeproof/debug.go
+++ b/rangeproof/debug.go
@@ -171,11 +171,10 @@ func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []rist
 	return rH.Equals(&rhs), nil
 }
 
-// debugsizeOfV returns true if v is less than 2^N - 1
+// debugsizeOfV returns true if v is less than 2^N
 func debugsizeOfV(v *big.Int) bool {
-	var twoN, e, one = big.NewInt(2), big.NewInt(int64(N)), big.NewInt(int64(1))
+	var twoN, e = big.NewInt(2), big.NewInt(int64(N))
 	twoN.Exp(twoN, e, nil)
-	twoN.Sub(twoN, one)
 
 	cmp := v.Cmp(twoN)
 	return (cmp == -1)
-- 
2.43.0


From 1c864a150a1b91a158433f361c233bdde2826ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:43 +0000
Subject: [PATCH 05/30] fix: range proof equality compares the inner product
 proof and honours includeCommits

Equals ignored the inner product proof, compared commitments even when asked
not to, and panicked or compared only a prefix when the lengths differed.
---
 rangeproof/innerproduct/innerproduct.go |  6 ++++++
 rangeproof/rangeproof.go                | 22 +++++++++++++---------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index b657e91..312dc6f 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -468,6 +468,10 @@ func (proof *Proof) Decode(r io.Reader) error {
 
 // Equals test another proof for equality
 func (proof *Proof) Equals(other Proof) bool {
+	if len(proof.L) != len(other.L) || len(proof.R) != len(other.R) {
+		return false
+	}
+
 	if ok := proof.A.Equals(&other.A); !ok {
 		return false
 	}
@@ -480,7 +484,9 @@ func (proof *Proof) Equals(other Proof) bool {
 		if ok := proof.L[i].Equals(&other.L[i]); !ok {
 			return false
 		}
+	}
 
+	for i := range proof.R {
 		if ok := proof.R[i].Equals(&other.R[i]); !ok {
 			return false
 		}
diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 157f2cc..d8b0fb2 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -591,14 +591,16 @@ func (p *Proof) Decode(r io.Reader, includeCommits bool) error {
 
 // Equals returns proof equality with commitments
 func (p *Proof) Equals(other Proof, includeCommits bool) bool {
-	if len(p.V) != len(other.V) && includeCommits {
-		return false
-	}
+	if includeCommits {
+		if len(p.V) != len(other.V) {
+			return false
+		}
 
-	for i := range p.V {
-		ok := p.V[i].EqualValue(other.V[i])
-		if !ok {
-			return ok
+		for i := range p.V {
+			ok := p.V[i].EqualValue(other.V[i])
+			if !ok {
+				return ok
+			}
 		}
 	}
 
@@ -630,8 +632,10 @@ func (p *Proof) Equals(other Proof, includeCommits bool) bool {
 	if !ok {
 		return ok
 	}
-	return true
-	// return p.IPProof.Equals(*other.IPProof)
+	if p.IPProof == nil || other.IPProof == nil {
+		return p.IPProof == other.IPProof
+	}
+	return p.IPProof.Equals(*other.IPProof)
 }
 
 func readerToPoint(r io.Reader, p *ristretto.Point) error {
-- 
2.43.0


From 102868d414ccd4c4bcd385925e4a8b27bc070d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:05 +0000
Subject: [PATCH 06/30] fix: DecodeCommitments does not allocate by an
 untrusted length prefix

---
 rangeproof/pedersen/pedersen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 75c6c3f..b355d84 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -93,13 +93,16 @@ func DecodeCommitments(r io.Reader) ([]Commitment, error) {
 		return nil, err
 	}
 
-	comms := make([]Commitment, lenV)
+	// lenV is not trusted: memory is only used for what was actually read
+	comms := []Commitment{}
 
 	for i := uint32(0); i < lenV; i++ {
-		err := comms[i].Decode(r)
+		var c Commitment
+		err := c.Decode(r)
 		if err != nil {
 			return nil, err
 		}
+		comms = append(comms, c)
 	}
 
 	return comms, nil
-- 
2.43.0


From db5dc4151d694cb27d2d5a1b493344f1ccb56c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:09 +0000
Subject: [PATCH 07/30] fix: vector operations on a zero scalar

ScalarPowers(0, n) returned no 0^0 = 1 term, contradicting ScalarPowersSum,
and SubScalar(a, 0) returned the operand itself instead of a new vector.
---
 rangeproof/vector/vector.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/rangeproof/vector/vector.go b/rangeproof/vector/vector.go
index dacd1fa..43bad34 100644
--- a/rangeproof/vector/vector.go
+++ b/rangeproof/vector/vector.go
@@ -69,10 +69,6 @@ func Neg(a []ristretto.Scalar) []ristretto.Scalar {
 // SubScalar Subtracts a scalars value b, from every element in the slice a
 func SubScalar(a []ristretto.Scalar, b ristretto.Scalar) []ristretto.Scalar {
 
-	if b.IsNonZeroI() == 0 {
-		return a
-	}
-
 	res := make([]ristretto.Scalar, len(a))
 
 	for i := 0; i < len(a); i++ {
@@ -150,10 +146,6 @@ func ScalarPowers(a ristretto.Scalar, n uint32) []ristretto.Scalar {
 		return res
 	}
 
-	if a.IsNonZeroI() == 0 {
-		return res
-	}
-
 	var k ristretto.Scalar
 	k.SetOne()
 	res[0] = k
-- 
2.43.0


From b0df636ff2dda49dd8f0ac6b3cd2a95611a49fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:31 +0000
Subject: [PATCH 08/30] fix: CommitToVectors does not write into spare capacity
 of the caller's label

---
 rangeproof/pedersen/pedersen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index b355d84..893a3d5 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -200,7 +200,7 @@ func (p *Pedersen) CommitToVectors(vectors ...[]ristretto.Scalar) Commitment {
 			sum.Add(&sum, &commit)
 		} else {
 
-			genData := append(p.GenData, uint8(i))
+			genData := append(append([]byte{}, p.GenData...), uint8(i))
 			ped2 := New(genData)
 
 			commit := ped2.commitToScalars(nil, vector...)
-- 
2.43.0


From ca2713beffdc76a1e6d3fc110f0c98e14c360d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:34 +0000
Subject: [PATCH 09/30] fix: inner product proofs of mismatching sizes are
 refused instead of panicking

---
 rangeproof/innerproduct/innerproduct.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index 312dc6f..3b30d84 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -27,9 +27,12 @@ func Generate(GVec, HVec []ristretto.Point, aVec, bVec, HprimeFactors []ristrett
 
 	// XXX : When n is not a power of two, will the bulletproof struct pad it
 	// or will the inner product proof struct?
-	if !isPower2(uint32(n)) {
+	if n == 0 || !isPower2(uint32(n)) {
 		return nil, errors.New("[IPProof]: size of n (NM) is not a power of 2")
 	}
+	if len(HVec) != len(GVec) || len(aVec) != len(GVec) || len(bVec) != len(GVec) || len(HprimeFactors) != len(GVec) {
+		return nil, errors.New("[IPProof]: sizes of the vectors do not match")
+	}
 
 	a := make([]ristretto.Scalar, len(aVec))
 	copy(a, aVec)
@@ -337,6 +340,12 @@ func (proof *Proof) VerifScalars() ([]ristretto.Scalar, []ristretto.Scalar, []ri
 
 // Verify is used for unit tests and verifies that a given proof evaluates to the point P
 func (proof *Proof) Verify(G, H, L, R []ristretto.Point, HprimeFactor []ristretto.Scalar, Q, P ristretto.Point, n int) bool {
+	// the sizes must match before anything of that size is computed
+	size := 1 << uint(len(proof.L))
+	if len(proof.R) != len(proof.L) || len(G) != size || len(H) != size || len(HprimeFactor) != size {
+		return false
+	}
+
 	uSq, uInvSq, s := proof.VerifScalars()
 
 	sInv := make([]ristretto.Scalar, len(s))
-- 
2.43.0


From d4c5083955b886abd13f8524fd181dd206972944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:36 +0000
Subject: [PATCH 10/30] fix: BitCommitment.Debug rejects entries that are not
 bits

---
 rangeproof/bitCommitment.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rangeproof/bitCommitment.go b/rangeproof/bitCommitment.go
index f1ec40b..1aa63ee 100644
--- a/rangeproof/bitCommitment.go
+++ b/rangeproof/bitCommitment.go
@@ -58,6 +58,8 @@ func (b *BitCommitment) Debug(v *big.Int) error {
 	zero.SetZero()
 	var one ristretto.Scalar
 	one.SetOne()
+	var minusOne ristretto.Scalar
+	minusOne.Neg(&one)
 
 	testAL := big.NewInt(0)
 	testAR := big.NewInt(0)
@@ -69,9 +71,13 @@ func (b *BitCommitment) Debug(v *big.Int) error {
 
 		if b.AL[i].Equals(&one) {
 			testAL = testAL.Add(testAL, basePow)
+		} else if !b.AL[i].Equals(&zero) {
+			return errors.New("[BitCommit(Debug)]: AL is not a bit vector")
 		}
 		if b.AR[i].Equals(&zero) {
 			testAR = testAR.Add(testAR, basePow)
+		} else if !b.AR[i].Equals(&minusOne) {
+			return errors.New("[BitCommit(Debug)]: AR is not a bit vector minus one")
 		}
 	}
 
-- 
2.43.0


From a62403a3d973e2e542a0c4ddcf0d35d8d6a40401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:13 +0000
Subject: [PATCH 11/30] fix: mlsag Signature.Decode does not trust its length
 prefixes

A few bytes could make it allocate gigabytes or loop for ages, and a
signature without responses could not be decoded again.
---
 mlsag/mlsag.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 0f857e7..85c183d 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -80,18 +80,30 @@ func (s *Signature) Decode(r io.Reader, decodeKeys bool) error {
 	if err != nil {
 		return err
 	}
+
+	// Encode writes nothing more for a signature without responses
+	s.r = nil
+	if lenR == 0 {
+		return nil
+	}
+
 	err = binary.Read(r, binary.BigEndian, &numResponses)
 	if err != nil {
 		return err
 	}
+	if numResponses == 0 {
+		return errors.New("number of responses per user cannot be zero")
+	}
 
 	// Decode the responses
-	s.r = make([]Responses, lenR)
+	// lenR is not trusted: memory is only used for what was actually read
 	for i := uint32(0); i < lenR; i++ {
-		err = s.r[i].Decode(r, numResponses)
+		var responses Responses
+		err = responses.Decode(r, numResponses)
 		if err != nil {
 			return err
 		}
+		s.r = append(s.r, responses)
 	}
 
 	if !decodeKeys {
-- 
2.43.0


From a0be0e09ed0dcd08157ab7712a2488156c508505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:14 +0000
Subject: [PATCH 12/30] fix: mlsag Verify refuses signatures of inconsistent
 dimensions

It panicked on missing responses, keys or superfluous key images, and accepted
superfluous ring members and responses that the signature does not cover.
---
 mlsag/mlsag.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 85c183d..7f92b7c 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -279,6 +279,20 @@ func (sig *Signature) Verify(keyImages []ristretto.Point) (bool, error) {
 	numUsers := len(sig.r)
 	index := 0
 
+	// Check that keys, responses and key images have matching dimensions
+	if len(sig.PubKeys) != numUsers {
+		return false, errors.New("number of pubkey vectors does not match the number of response vectors")
+	}
+	numKeysPerUser := sig.PubKeys[0].Len()
+	if len(keyImages) > numKeysPerUser {
+		return false, errors.New("cannot have more key images than keys per user")
+	}
+	for i := range sig.PubKeys {
+		if sig.PubKeys[i].Len() != numKeysPerUser || sig.r[i].Len() != numKeysPerUser {
+			return false, errors.New("all vectors of pubkeys and responses must be the same size")
+		}
+	}
+
 	var prevChallenge = sig.c
 
 	for k := index + 1; k != (index)%numUsers; k = (k + 1) % numUsers {
-- 
2.43.0


From f39393e1317d8d7e44c1394f4da77073a98cf96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:15 +0000
Subject: [PATCH 13/30] fix: mlsag signatures with different numbers of
 responses are not equal

---
 mlsag/mlsag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 7f92b7c..6d21a20 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -127,6 +127,10 @@ func (s Signature) Equals(other Signature, includeKeys bool) bool {
 		return ok
 	}
 
+	if len(s.r) != len(other.r) {
+		return false
+	}
+
 	for i := range s.r {
 		ok = s.r[i].Equals(other.r[i])
 		if !ok {
-- 
2.43.0


From b709da9817548cfb234af5688e9d2e6c02d3e777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:16 +0000
Subject: [PATCH 14/30] fix: mlsag signing with a ring of one member does not
 panic

---
 mlsag/mlsag.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 6d21a20..61d7230 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -227,7 +227,7 @@ func (proof *Proof) prove(skipLastKeyImage bool) (*Signature, []ristretto.Point,
 	var prevChallenge ristretto.Scalar
 	prevChallenge.Set(&CjPlusOne)
 
-	for k := secretIndex + 2; k != (secretIndex+1)%numUsers; k = (k + 1) % numUsers {
+	for k := (secretIndex + 2) % numUsers; k != (secretIndex+1)%numUsers; k = (k + 1) % numUsers {
 		i := k % numUsers
 
 		prevIndex := (i - 1) % numUsers
@@ -299,7 +299,7 @@ func (sig *Signature) Verify(keyImages []ristretto.Point) (bool, error) {
 
 	var prevChallenge = sig.c
 
-	for k := index + 1; k != (index)%numUsers; k = (k + 1) % numUsers {
+	for k := (index + 1) % numUsers; k != (index)%numUsers; k = (k + 1) % numUsers {
 		i := k % numUsers
 		prevIndex := (i - 1) % numUsers
 		if prevIndex < 0 {
-- 
2.43.0


From f1db0b08a7615feafcc6229fd85f7a4cbe175662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:17 +0000
Subject: [PATCH 15/30] fix: mlsag shuffles the ring with a cryptographic
 random source

The shuffle was seeded with the current second, so the signer's position was
predictable and identical for all signatures made within a second.
---
 mlsag/proof.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mlsag/proof.go b/mlsag/proof.go
index 71a130f..05fb558 100644
--- a/mlsag/proof.go
+++ b/mlsag/proof.go
@@ -1,9 +1,9 @@
 package mlsag
 
 import (
+	"crypto/rand"
 	"errors"
-	"math/rand"
-	"time"
+	"math/big"
 
 	ristretto "github.com/bwesterb/go-ristretto"
 )
@@ -69,9 +69,12 @@ func privKeyToPubKey(privkey ristretto.Scalar) ristretto.Point {
 
 // shuffle all pubkeys and sets the index
 func (p *Proof) shuffleSet() error {
-	r := rand.New(rand.NewSource(time.Now().Unix()))
 	for i := len(p.pubKeysMatrix) - 1; i > 0; i-- {
-		j := r.Intn(i + 1)
+		r, err := rand.Int(rand.Reader, big.NewInt(int64(i+1)))
+		if err != nil {
+			return err
+		}
+		j := r.Int64()
 		p.pubKeysMatrix[i], p.pubKeysMatrix[j] = p.pubKeysMatrix[j], p.pubKeysMatrix[i]
 	}
 	// XXX: Optimise away the below for loop by storing the index when appended
-- 
2.43.0


From eaecdcc29e06c5d8cbc8c5c3592ff6e0991c8432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:18 +0000
Subject: [PATCH 16/30] fix: mlsag SubCommToZero no longer modifies the
 caller's decoy keys

---
 mlsag/proof.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlsag/proof.go b/mlsag/proof.go
index 05fb558..a1a04d9 100644
--- a/mlsag/proof.go
+++ b/mlsag/proof.go
@@ -35,6 +35,8 @@ func (p *Proof) addPubKeys(keys PubKeys) {
 
 func (p *Proof) AddDecoy(keys PubKeys) {
 	keys.decoy = true
+	// SubCommToZero modifies the keys in the matrix, so do not share them with the caller
+	keys.keys = append([]ristretto.Point{}, keys.keys...)
 	p.addPubKeys(keys)
 }
 
-- 
2.43.0


From 78d0d3f89cc662d712d4f9fb458ad84a129b388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:39 +0000
Subject: [PATCH 17/30] fix: blsag puts the mixin keys into the ring and
 randomises every response

The ring consisted of the signer's key and null points, and response 0 was
zero unless the signer was at position 0; both revealed the signer.
---
 ringsig/blsag/blsag.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index 7a639bb..b87c8b8 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -42,7 +42,7 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 
 	// generate s_i where i =/= j and s_i E Zq
 	sVals := make([]ristretto.Scalar, len(mixin)+1)
-	for i := 1; i < len(sVals); i++ {
+	for i := 0; i < len(sVals); i++ {
 		var s ristretto.Scalar
 		s.Rand()
 		sVals[i] = s
@@ -68,7 +68,9 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 	cVals[jPlus1] = cPlus1
 
 	pubKeys := make([]ristretto.Point, len(mixin)+1)
+	copy(pubKeys, mixin[:j])
 	pubKeys[j] = pK // add signer
+	copy(pubKeys[j+1:], mixin[j:])
 
 	for i := j + 1; ; i++ {
 
-- 
2.43.0


From 434c7c382228f22df6de20b151b49dcb60535c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:41 +0000
Subject: [PATCH 18/30] fix: blsag Verify refuses rings without exactly one
 response per key

It panicked on an empty ring or missing responses and accepted superfluous
responses.
---
 ringsig/blsag/blsag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index b87c8b8..2c84000 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -110,6 +110,9 @@ func Verify(m []byte, ringsig RingSignature) bool {
 	// For all i, c_i+1 = H(m, L_i, R_i)
 
 	numPubKeys := len(ringsig.PubKeys)
+	if numPubKeys == 0 || len(ringsig.S) != numPubKeys {
+		return false
+	}
 
 	currC := ringsig.C // this is first c value c[0]
 
-- 
2.43.0


From 2190cd50afe22a6e7424390851a31fc2d99526a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:42 +0000
Subject: [PATCH 19/30] fix: blsag picks the signer's position with a
 cryptographic random source

The position was derived from the current time, and signing reseeded the
process-wide math/rand source.
---
 ringsig/blsag/blsag.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index 2c84000..a59118b 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -2,8 +2,8 @@ package blsag
 
 import (
 	"bytes"
-	"math/rand"
-	"time"
+	"crypto/rand"
+	"math/big"
 
 	ristretto "github.com/bwesterb/go-ristretto"
 )
@@ -25,8 +25,11 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 	pK.ScalarMultBase(&sK)
 
 	// secret j index
-	rand.Seed(time.Now().UnixNano())
-	j := rand.Intn(len(mixin) + 1)
+	r, err := rand.Int(rand.Reader, big.NewInt(int64(len(mixin)+1)))
+	if err != nil {
+		panic(err) // as the random scalars below, without randomness there is no signature
+	}
+	j := int(r.Int64())
 
 	// Hp(pK)
 	var hPK ristretto.Point
-- 
2.43.0


From f4c189932862d5818b62cf00f63f0a246c858866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:00 +0000
Subject: [PATCH 20/30] fix: aggregating a BLS key or signature with an equal
 one gives the right sum

bn256's in-place addition of two equal points returns a wrong point, so that
e.g. the aggregate of a key with itself rejected the matching signature.
---
 bls/bls.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bls/bls.go b/bls/bls.go
index 353517f..a187578 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -235,7 +235,8 @@ func (apk *Apk) Aggregate(pk *PublicKey) error {
 		return err
 	}
 
-	apk.gx.Add(apk.gx, gxt)
+	// not in place: bn256 can not double a point into itself
+	apk.gx = newG2().Add(apk.gx, gxt)
 	return nil
 }
 
@@ -301,7 +302,8 @@ func (sigma *Signature) AggregateBytes(other []byte) error {
 
 // Aggregate two Signature
 func (sigma *Signature) Aggregate(other *Signature) *Signature {
-	sigma.e.Add(sigma.e, other.e)
+	// not in place: bn256 can not double a point into itself
+	sigma.e = newG1().Add(sigma.e, other.e)
 	return sigma
 }
 
-- 
2.43.0


From d4bd75d22b717fa95f588e2df52c68fb1e32ff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:01 +0000
Subject: [PATCH 21/30] fix: BLS batch verification requires exactly one key
 per message

Superfluous keys were ignored, i.e. accepted as signers, while missing keys
and empty batches caused a panic.
---
 bls/bls.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bls/bls.go b/bls/bls.go
index a187578..f05b28d 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -490,6 +490,14 @@ func verify(pk *bn256.G2, msg []byte, sigma *bn256.G1) error {
 }
 
 func verifyBatch(pkeys []*bn256.G2, msgList [][]byte, sig *bn256.G1, allowDistinct bool) error {
+	if len(msgList) == 0 || len(pkeys) != len(msgList) {
+		return fmt.Errorf(
+			"bls: the nr of Public Keys (%d) and the nr. of messages (%d) do not match or are zero",
+			len(pkeys),
+			len(msgList),
+		)
+	}
+
 	if !allowDistinct && !distinct(msgList) {
 		return errors.New("bls: Messages are not distinct")
 	}
-- 
2.43.0


From e79dcf8574821630f659a00e6d47fbcc0b2ad967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:02 +0000
Subject: [PATCH 22/30] fix: BLS public keys outside the group and the neutral
 element are refused

Unmarshal and UnmarshalText accepted points outside the prime order group and
the neutral element, and replaced the destination key when they failed.
---
 bls/bls.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/bls/bls.go b/bls/bls.go
index f05b28d..5eff1da 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -566,12 +566,7 @@ func (pk *PublicKey) UnmarshalText(data []byte) error {
 	if err != nil {
 		return err
 	}
-	pk.gx = newG2()
-	_, err = pk.gx.Unmarshal(bs)
-	if err != nil {
-		return err
-	}
-	return nil
+	return pk.Unmarshal(bs)
 }
 
 // Marshal returns the binary representation of the G2 point being the public key
@@ -581,14 +576,35 @@ func (pk *PublicKey) Marshal() []byte {
 
 // Unmarshal a public key from a byte array
 func (pk *PublicKey) Unmarshal(data []byte) error {
-	pk.gx = newG2()
-	_, err := pk.gx.Unmarshal(data)
-	if err != nil {
+	gx := newG2()
+	if _, err := gx.Unmarshal(data); err != nil {
 		return err
 	}
+	if isInfinity(gx) || !isInfinity(multiplyByOrder(gx)) {
+		return errors.New("bls: public key is not a generator of the group")
+	}
+	pk.gx = gx
 	return nil
 }
 
+// isInfinity returns true if p is the neutral element, which is encoded in a single byte
+func isInfinity(p *bn256.G2) bool {
+	return len(p.Marshal()) == 1
+}
+
+// multiplyByOrder returns p multiplied by the group order. ScalarMult can not be used
+// because it takes the scalar modulo the order, assuming that p is in the group
+func multiplyByOrder(p *bn256.G2) *bn256.G2 {
+	res := newG2().Set(p)
+	for i := bn256.Order.BitLen() - 2; i >= 0; i-- {
+		res = newG2().Add(res, res)
+		if bn256.Order.Bit(i) == 1 {
+			res = newG2().Add(res, p)
+		}
+	}
+	return res
+}
+
 func encodeToText(data []byte) []byte {
 	buf := make([]byte, base64.RawURLEncoding.EncodedLen(len(data)))
 	base64.RawURLEncoding.Encode(buf, data)
-- 
2.43.0


From 199b94ef80920659e2ff8efc28784369d0d6f53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:21 +0000
Subject: [PATCH 23/30] fix: merkletree does not overwrite memory behind the
 hashes of payloads

append(left, right...) wrote into the spare capacity of slices returned by
Payload.CalculateHash.
---
 merkletree/merkletree.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 8f6ea8c..340bec7 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -50,7 +50,7 @@ func VerifyNode(n *Node) ([]byte, error) {
 		return nil, err
 	}
 
-	return hash.Sha3256(append(leftBytes, rightBytes...))
+	return hash.Sha3256(concat(leftBytes, rightBytes))
 }
 
 // CalculateNodeHash is a helper function for calculating the hash of a node
@@ -59,7 +59,7 @@ func CalculateNodeHash(n *Node) ([]byte, error) {
 		return n.Data.CalculateHash()
 	}
 
-	return hash.Sha3256(append(n.Left.Hash, n.Right.Hash...))
+	return hash.Sha3256(concat(n.Left.Hash, n.Right.Hash))
 }
 
 // NewTree constructs a merkletree using the Payload/Content pl
@@ -123,7 +123,7 @@ func createIntermediate(nl []*Node) (*Node, error) {
 		if i+1 == len(nl) {
 			right = i
 		}
-		payloadHash := append(nl[left].Hash, nl[right].Hash...)
+		payloadHash := concat(nl[left].Hash, nl[right].Hash)
 
 		h, err := hash.Sha3256(payloadHash)
 		if err != nil {
@@ -208,7 +208,7 @@ func (t *Tree) VerifyContent(data Payload) (bool, error) {
 					return false, err
 				}
 
-				h, err := hash.Sha3256(append(leftBytes, rightBytes...))
+				h, err := hash.Sha3256(concat(leftBytes, rightBytes))
 
 				if err != nil {
 					return false, err
@@ -228,6 +228,11 @@ func (t *Tree) VerifyContent(data Payload) (bool, error) {
 	return false, nil
 }
 
+// concat joins two hashes without writing to memory behind the left one, which may belong to a Payload
+func concat(left, right []byte) []byte {
+	return append(append(make([]byte, 0, len(left)+len(right)), left...), right...)
+}
+
 // equals returns true, if two payloads hash to the same value
 func equals(a, b Payload) (bool, error) {
 	hashA, err := a.CalculateHash()
-- 
2.43.0


From 24c8df04750c6b57586941584f4373b6604ccc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:21 +0000
Subject: [PATCH 24/30] fix: merkletree RebuildTree keeps the duplicate flag of
 the last leaf

---
 merkletree/merkletree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 340bec7..55328b5 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -152,7 +152,9 @@ func createIntermediate(nl []*Node) (*Node, error) {
 func (t *Tree) RebuildTree() error {
 	var pl []Payload
 	for _, node := range t.Leaves {
-		pl = append(pl, node.Data)
+		if !node.IsDup { // duplicates are added again by create
+			pl = append(pl, node.Data)
+		}
 	}
 
 	return t.RebuildTreeUsing(pl)
-- 
2.43.0


From cb2964cbd18e21f7df4cd801c96be5a25ed9ceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:43 +0000
Subject: [PATCH 25/30] fix: a commitment to no vectors is blinded by its
 blinding factor

---
 rangeproof/pedersen/pedersen.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 893a3d5..70a5c56 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -189,14 +189,13 @@ func (p *Pedersen) CommitToVectors(vectors ...[]ristretto.Scalar) Commitment {
 
 	// For each vector, we can use the commitToScalars, because a vector is just a slice of scalars
 
-	var sum ristretto.Point
-	sum.SetZero()
+	// blinding term, also if there is nothing to commit to
+	sum := p.commitToScalars(&blind)
 
 	for i, vector := range vectors {
 		if i == 0 {
 
-			// Commit to vector + blinding factor
-			commit := p.commitToScalars(&blind, vector...)
+			commit := p.commitToScalars(nil, vector...)
 			sum.Add(&sum, &commit)
 		} else {
 
-- 
2.43.0


From de354c537ede2e50383a795f84d59c6846af8ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:43 +0000
Subject: [PATCH 26/30] fix: vectors beyond the 255th get generators of their
 own

---
 rangeproof/pedersen/pedersen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 70a5c56..7011aba 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -199,7 +199,11 @@ func (p *Pedersen) CommitToVectors(vectors ...[]ristretto.Scalar) Commitment {
 			sum.Add(&sum, &commit)
 		} else {
 
-			genData := append(append([]byte{}, p.GenData...), uint8(i))
+			// one byte as long as it is enough, then more of them
+			genData := append([]byte{}, p.GenData...)
+			for n := i; n > 0; n >>= 8 {
+				genData = append(genData, uint8(n))
+			}
 			ped2 := New(genData)
 
 			commit := ped2.commitToScalars(nil, vector...)
-- 
2.43.0


From 3cedb9c71e223898b240e21755644e13dca0fedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:40 +0000
Subject: [PATCH 27/30] fix: mlsag signatures do not share their ring with the
 object that signed

---
 mlsag/mlsag.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 61d7230..67b9e17 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -264,10 +264,17 @@ func (proof *Proof) prove(skipLastKeyImage bool) (*Signature, []ristretto.Point,
 	// replace real response in responses array
 	responses[proof.index] = realResponse
 
+	// the keys in the matrix can still be modified, so do not share them with the signature
+	pubKeys := make([]PubKeys, numUsers)
+	for i, keys := range proof.pubKeysMatrix {
+		keys.keys = append([]ristretto.Point{}, keys.keys...)
+		pubKeys[i] = keys
+	}
+
 	sig := &Signature{
 		c:       challenges[0],
 		r:       responses,
-		PubKeys: proof.pubKeysMatrix,
+		PubKeys: pubKeys,
 		Msg:     proof.msg,
 	}
 
-- 
2.43.0


From 4c514b2da8bceac104e1aaf243b6c14e1b491ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:51 +0000
Subject: [PATCH 28/30] fix: mlsag SubCommToZero does not panic on a decoy with
 fewer than two keys

---
 mlsag/dualkey.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mlsag/dualkey.go b/mlsag/dualkey.go
index 5876479..5ffa922 100644
--- a/mlsag/dualkey.go
+++ b/mlsag/dualkey.go
@@ -38,6 +38,9 @@ func (d *DualKey) SetMsg(msg []byte) {
 // in the matrix of decoy pubkeys
 func (d *DualKey) SubCommToZero(p ristretto.Point) {
 	for i := range d.pubKeysMatrix {
+		if d.pubKeysMatrix[i].Len() < 2 {
+			continue // Prove refuses a decoy of this size
+		}
 		commToZero := &d.pubKeysMatrix[i].keys[1]
 		commToZero.Sub(commToZero, &p)
 	}
-- 
2.43.0


From bea6d9b2ff0a023d584fb9dd98f402528ec67254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:51 +0000
Subject: [PATCH 29/30] fix: mlsag signatures do not follow later changes of
 the message's memory

---
 mlsag/dualkey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlsag/dualkey.go b/mlsag/dualkey.go
index 5ffa922..2d8bd0d 100644
--- a/mlsag/dualkey.go
+++ b/mlsag/dualkey.go
@@ -31,7 +31,7 @@ func (d *DualKey) SetCommToZero(key ristretto.Scalar) ristretto.Point {
 }
 
 func (d *DualKey) SetMsg(msg []byte) {
-	d.Proof.msg = msg
+	d.Proof.msg = append([]byte{}, msg...)
 }
 
 // SubCommToZero subtracts p from every point from the second public key
-- 
2.43.0


From 46ede0d4ecaa1763838c07ee9d406f6fb9fddbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:51 +0000
Subject: [PATCH 30/30] fix: generators do not follow later changes of the
 label's memory

---
 rangeproof/generators/generator.go | 2 +-
 rangeproof/pedersen/pedersen.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rangeproof/generators/generator.go b/rangeproof/generators/generator.go
index 35facce..e8931a6 100644
--- a/rangeproof/generators/generator.go
+++ b/rangeproof/generators/generator.go
@@ -17,7 +17,7 @@ type Generator struct {
 // will use data to generate `n` points
 func New(data []byte) *Generator {
 	return &Generator{
-		data:  data,
+		data:  append([]byte{}, data...),
 		Bases: []ristretto.Point{},
 	}
 }
diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 7011aba..38ee79e 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -33,7 +33,7 @@ func New(genData []byte) *Pedersen {
 
 	return &Pedersen{
 		BaseVector: gen,
-		GenData:    genData,
+		GenData:    append([]byte{}, genData...),
 		BlindPoint: blindPoint,
 		BasePoint:  basePoint,
 	}
-- 
2.43.0

