From f46b2df9297c2c2171d2a1c1c00cb19e68293e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 01/30] fix: scalar multiplication of the neutral element, by
 scalars >= order, and without changing the scalar

---
 pkg/curve/secp256k1.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index da77bfc..38b2d5d 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -69,18 +69,19 @@ func (g sGroup) Neg(a Point) Point {
 
 //scale has to be a nonnegative integer
 func (g sGroup) ScalarMult(a Point, scale *big.Int) Point {
-	if len(scale.Bytes()) > 32 {
-		scale.Mod(scale, g.Order())
+	as := a.(sPoint)
+	if as.x == nil && as.y == nil {
+		return g.Neutral()
 	}
-	resultX, resultY := g.curve.ScalarMult(a.(sPoint).x, a.(sPoint).y, scale.Bytes())
+	// The scalar belongs to the caller, so it is reduced into a fresh one
+	scale = new(big.Int).Mod(scale, g.Order())
+	resultX, resultY := g.curve.ScalarMult(as.x, as.y, scale.Bytes())
 	return sPoint{resultX, resultY}
 }
 
 //scale has to be a nonnegative integer
 func (g sGroup) ScalarBaseMult(scale *big.Int) Point {
-	if len(scale.Bytes()) > 32 {
-		scale.Mod(scale, g.Order())
-	}
+	scale = new(big.Int).Mod(scale, g.Order())
 	resultX, resultY := g.curve.ScalarBaseMult(scale.Bytes())
 	return sPoint{resultX, resultY}
 }
-- 
2.43.0


From 27b281020b557857fe58e9171f6f79f71f594b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 02/30] fix: the sum of inverse points is the neutral element

---
 pkg/curve/secp256k1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index 38b2d5d..50530ce 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -52,6 +52,9 @@ func (g sGroup) Add(a Point, b Point) Point {
 		resultY = new(big.Int).Set(as.y)
 	} else if (as.x.Cmp(bs.x) == 0) && (as.y.Cmp(bs.y) == 0) {
 		resultX, resultY = g.curve.Double(as.x, as.y)
+	} else if as.x.Cmp(bs.x) == 0 {
+		// the points are inverse to each other
+		return g.Neutral()
 	} else {
 		resultX, resultY = g.curve.Add(as.x, as.y, bs.x, bs.y)
 	}
-- 
2.43.0


From a2089520148fcf133e8783c4276b748b66b65de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 03/30] fix: decode the neutral element and tolerate short
 reads when decoding points

---
 pkg/curve/secp256k1.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index 50530ce..183fc5a 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -128,27 +128,24 @@ func (g sGroup) Encode(a Point, w io.Writer) error {
 
 func (g sGroup) Decode(r io.Reader) (Point, error) {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
-		return nil, err
-	}
-	if n < 8 {
-		return nil, fmt.Errorf("Too few bytes for lenX and lenY: expected 8, got %d", n)
+	if _, err := io.ReadFull(r, lenBytes[:4]); err != nil {
+		return nil, fmt.Errorf("Too few bytes for lenX: %v", err)
 	}
 
 	lenX := binary.BigEndian.Uint32(lenBytes[:4])
+	// encoding of a neutral element is [0 0 0 0]
 	if lenX == 0 {
 		return sPoint{nil, nil}, nil
 	}
 
+	if _, err := io.ReadFull(r, lenBytes[4:]); err != nil {
+		return nil, fmt.Errorf("Too few bytes for lenY: %v", err)
+	}
+
 	lenY := binary.BigEndian.Uint32(lenBytes[4:8])
 	xyBytes := make([]byte, lenX+lenY)
-	n, err = r.Read(xyBytes)
-	if err != nil {
-		return nil, err
-	}
-	if uint32(n) < lenX+lenY {
-		return nil, fmt.Errorf("Too few bytes for lenX and lenY: expected %d, got %d", lenX+lenY, n)
+	if _, err := io.ReadFull(r, xyBytes); err != nil {
+		return nil, fmt.Errorf("Too few bytes for x and y: expected %d: %v", lenX+lenY, err)
 	}
 	x := new(big.Int).SetBytes(xyBytes[:lenX])
 	y := new(big.Int).SetBytes(xyBytes[lenX:])
-- 
2.43.0


From caa0e3510176c4f9ef5c59f8c77a7d761511f15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 04/30] fix: reject encodings of points that are too long or
 not on the curve

---
 pkg/curve/secp256k1.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index 183fc5a..4aba79f 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -143,12 +143,18 @@ func (g sGroup) Decode(r io.Reader) (Point, error) {
 	}
 
 	lenY := binary.BigEndian.Uint32(lenBytes[4:8])
+	if lenX > 32 || lenY > 32 {
+		return nil, fmt.Errorf("Too long coordinates: lenX %d, lenY %d", lenX, lenY)
+	}
 	xyBytes := make([]byte, lenX+lenY)
 	if _, err := io.ReadFull(r, xyBytes); err != nil {
 		return nil, fmt.Errorf("Too few bytes for x and y: expected %d: %v", lenX+lenY, err)
 	}
 	x := new(big.Int).SetBytes(xyBytes[:lenX])
 	y := new(big.Int).SetBytes(xyBytes[lenX:])
+	if x.Cmp(g.curve.P) >= 0 || y.Cmp(g.curve.P) >= 0 || !g.curve.IsOnCurve(x, y) {
+		return nil, fmt.Errorf("Decoded coordinates are not a point of the curve")
+	}
 
 	return sPoint{x, y}, nil
 }
-- 
2.43.0


From 7cc2c4810af1626c35b5aa90c89404c3854e16a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 05/30] fix: use the order of the curve, not of its field, as
 the scalar modulus

---
 pkg/arith/config.go | 4 ++--
 pkg/crypto/hash.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/arith/config.go b/pkg/arith/config.go
index a9141da..465f61d 100644
--- a/pkg/arith/config.go
+++ b/pkg/arith/config.go
@@ -8,6 +8,6 @@ import (
 
 var (
 	randReader io.Reader = rand.Reader
-	// Q TODO: placeholder, should be replaced with order of the curve
-	Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
+	// Q is the order of the curve
+	Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
 )
diff --git a/pkg/crypto/hash.go b/pkg/crypto/hash.go
index c70ba74..0066476 100644
--- a/pkg/crypto/hash.go
+++ b/pkg/crypto/hash.go
@@ -7,8 +7,8 @@ import (
 	"golang.org/x/crypto/hkdf"
 )
 
-// Q TODO: placeholder, should be replaced with order of the curve
-var Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
+// Q is the order of the curve
+var Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
 
 //HashToBigInt takes []byte and returns its hash as a big.Int
 func HashToBigInt(msg []byte) *big.Int {
-- 
2.43.0


From a6ff3ab15a9afc0103a949192a843005182dda74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 06/30] fix: decoding proofs bounds lengths, tolerates short
 reads and reports errors of the inner commitment

---
 pkg/crypto/zkpok/zkpok.go | 45 ++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index f017369..391981c 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -96,32 +96,25 @@ func (z *ZKEGKnow) Encode(w io.Writer) error {
 //Decode decodes ZKEGKnow proof
 func (z *ZKEGKnow) Decode(r io.Reader) error {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
-		return err
-	}
-	if n < 8 {
-		return fmt.Errorf("Too few bytes: expected 8, got %d", n)
+	if _, err := io.ReadFull(r, lenBytes); err != nil {
+		return fmt.Errorf("Too few bytes: expected 8: %v", err)
 	}
 
 	z1Len := binary.BigEndian.Uint32(lenBytes[:4])
 	z2Len := binary.BigEndian.Uint32(lenBytes[4:8])
+	if z1Len > 32 || z2Len > 32 {
+		return fmt.Errorf("Too long payload: %d and %d bytes", z1Len, z2Len)
+	}
 	allBytes := make([]byte, z1Len+z2Len)
 
-	n, err = r.Read(allBytes)
-	if err != nil {
-		return err
-	}
-	if uint32(n) < z1Len+z2Len {
-		return fmt.Errorf("Too few bytes for payload: expected %d, got %d", z1Len+z2Len, n)
+	if _, err := io.ReadFull(r, allBytes); err != nil {
+		return fmt.Errorf("Too few bytes for payload: expected %d: %v", z1Len+z2Len, err)
 	}
 
 	z.z1 = new(big.Int).SetBytes(allBytes[:z1Len])
 	z.z2 = new(big.Int).SetBytes(allBytes[z1Len : z1Len+z2Len])
 	z.xy = &commitment.ElGamal{}
-	z.xy.Decode(r)
-
-	return nil
+	return z.xy.Decode(r)
 }
 
 //ZKEGRerand implements proof that a comitment c2 is a proper rerandomization of commitment c1
@@ -281,30 +274,24 @@ func (z *ZKEGRefresh) Encode(w io.Writer) error {
 //Decode decodes ZKEGRefresh proof
 func (z *ZKEGRefresh) Decode(r io.Reader) error {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
-		return err
-	}
-	if n < 8 {
-		return fmt.Errorf("Too few bytes: expected 8, got %d", n)
+	if _, err := io.ReadFull(r, lenBytes); err != nil {
+		return fmt.Errorf("Too few bytes: expected 8: %v", err)
 	}
 
 	z1Len := binary.BigEndian.Uint32(lenBytes[:4])
 	z2Len := binary.BigEndian.Uint32(lenBytes[4:8])
+	if z1Len > 32 || z2Len > 32 {
+		return fmt.Errorf("Too long payload: %d and %d bytes", z1Len, z2Len)
+	}
 	allBytes := make([]byte, z1Len+z2Len)
 
-	n, err = r.Read(allBytes)
-	if err != nil {
-		return err
-	}
-	if uint32(n) < z1Len+z2Len {
-		return fmt.Errorf("Too few bytes for payload: expected %d, got %d", z1Len+z2Len, n)
+	if _, err := io.ReadFull(r, allBytes); err != nil {
+		return fmt.Errorf("Too few bytes for payload: expected %d: %v", z1Len+z2Len, err)
 	}
 	z.z1 = new(big.Int).SetBytes(allBytes[:z1Len])
 	z.z2 = new(big.Int).SetBytes(allBytes[z1Len : z1Len+z2Len])
 	z.xy = &commitment.ElGamal{}
-	z.xy.Decode(r)
-	return nil
+	return z.xy.Decode(r)
 }
 
 // ZKDLog implements proof of knowledge of discrete logarithm
-- 
2.43.0


From 0728113ba108020c01e8b3b6c1da6d58c37438a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 07/30] fix: report failures of the randomness source instead
 of crashing when making proofs

---
 pkg/crypto/zkpok/zkpok.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index 391981c..75cb3be 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -29,8 +29,14 @@ type ZKEGKnow struct {
 //NewZKEGKnow creates ZKEGKnow proof of knowledge of witness (value, r) for commitment c
 func NewZKEGKnow(fct *commitment.ElGamalFactory, comm *commitment.ElGamal, value, rnd *big.Int) (*ZKEGKnow, error) {
 	order := fct.Curve().Order()
-	sigma, _ := rand.Int(rand.Reader, order)
-	rho, _ := rand.Int(rand.Reader, order)
+	sigma, err := rand.Int(rand.Reader, order)
+	if err != nil {
+		return nil, err
+	}
+	rho, err := rand.Int(rand.Reader, order)
+	if err != nil {
+		return nil, err
+	}
 
 	//e is the randomly produced challenge, here hash by Fiat-Shamir heuristic
 	buf := &bytes.Buffer{}
@@ -199,8 +205,14 @@ type ZKEGRefresh struct {
 //NewZKEGRefresh creates ZKEGRefresh proof of knowledge
 func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal, r *big.Int) (*ZKEGRefresh, error) {
 	g := fct.Curve()
-	sigma, _ := rand.Int(rand.Reader, g.Order())
-	tau, _ := rand.Int(rand.Reader, g.Order())
+	sigma, err := rand.Int(rand.Reader, g.Order())
+	if err != nil {
+		return nil, err
+	}
+	tau, err := rand.Int(rand.Reader, g.Order())
+	if err != nil {
+		return nil, err
+	}
 
 	//e is the randomly produced challenge, here hash by Fiat-Shamir heuristic
 	buf := &bytes.Buffer{}
-- 
2.43.0


From 73874dad1a819ce3dbc598b9be95fd9906ce280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 08/30] fix: bind the challenge of ZKEGKnow to the first
 message of the proof

---
 pkg/crypto/zkpok/zkpok.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index 75cb3be..afd29ce 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -43,6 +43,11 @@ func NewZKEGKnow(fct *commitment.ElGamalFactory, comm *commitment.ElGamal, value
 	if err := comm.Encode(buf); err != nil {
 		return nil, err
 	}
+	//the challenge has to depend on the first message, otherwise proofs can be forged
+	xy := fct.Create(rho, sigma)
+	if err := xy.Encode(buf); err != nil {
+		return nil, err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 	var z1, z2 big.Int
 
@@ -50,7 +55,6 @@ func NewZKEGKnow(fct *commitment.ElGamalFactory, comm *commitment.ElGamal, value
 	d = d.Compose(fct.Create(rho, sigma), d.Exp(comm, e))
 	z1.Add(sigma, z1.Mul(e, rnd))
 	z2.Add(rho, z2.Mul(e, value))
-	xy := fct.Create(rho, sigma)
 	z1.Mod(&z1, order)
 	z2.Mod(&z2, order)
 
@@ -68,6 +72,9 @@ func (z *ZKEGKnow) Verify(fct *commitment.ElGamalFactory, comm *commitment.ElGam
 	if err := comm.Encode(buf); err != nil {
 		return err
 	}
+	if err := z.xy.Encode(buf); err != nil {
+		return err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 	d = d.Compose(z.xy, d.Exp(comm, e))
 
-- 
2.43.0


From 1f8cdd196b930fdbb81ef08b24a9e5283a995642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 09/30] fix: bind the challenge of ZKEGRefresh to the first
 message of the proof

---
 pkg/crypto/zkpok/zkpok.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index afd29ce..7582faa 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -229,6 +229,12 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	if err := c2.Encode(buf); err != nil {
 		return nil, err
 	}
+	//the challenge has to depend on the first message, otherwise proofs can be forged
+	xy := fct.Neutral()
+	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
+	if err := xy.Encode(buf); err != nil {
+		return nil, err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 
 	var z1 big.Int
@@ -237,8 +243,6 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	z2.Add(tau, e)
 	z1.Mod(&z1, fct.Curve().Order())
 	z2.Mod(&z2, fct.Curve().Order())
-	xy := fct.Neutral()
-	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
 
 	return &ZKEGRefresh{
 		z1: &z1,
@@ -256,6 +260,9 @@ func (z *ZKEGRefresh) Verify(fct *commitment.ElGamalFactory, c1, c2 *commitment.
 	if err := c2.Encode(buf); err != nil {
 		return err
 	}
+	if err := z.xy.Encode(buf); err != nil {
+		return err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 
 	d := fct.Neutral()
-- 
2.43.0


From 7b579c589aaf9e3a803803bd22fed68b4c1eef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 10/30] fix: ZKEGRefresh proofs only hold for refreshments of
 c1 itself, not of its powers

---
 pkg/crypto/zkpok/zkpok.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index 7582faa..d220fe1 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -216,10 +216,6 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	if err != nil {
 		return nil, err
 	}
-	tau, err := rand.Int(rand.Reader, g.Order())
-	if err != nil {
-		return nil, err
-	}
 
 	//e is the randomly produced challenge, here hash by Fiat-Shamir heuristic
 	buf := &bytes.Buffer{}
@@ -230,23 +226,19 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 		return nil, err
 	}
 	//the challenge has to depend on the first message, otherwise proofs can be forged
-	xy := fct.Neutral()
-	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
+	xy := fct.Create(big.NewInt(0), sigma)
 	if err := xy.Encode(buf); err != nil {
 		return nil, err
 	}
 	e := pkg.HashToBigInt(buf.Bytes())
 
 	var z1 big.Int
-	var z2 big.Int
 	z1.Add(sigma, z1.Mul(e, r))
-	z2.Add(tau, e)
 	z1.Mod(&z1, fct.Curve().Order())
-	z2.Mod(&z2, fct.Curve().Order())
 
 	return &ZKEGRefresh{
 		z1: &z1,
-		z2: &z2,
+		z2: e,
 		xy: xy,
 	}, nil
 }
@@ -265,6 +257,12 @@ func (z *ZKEGRefresh) Verify(fct *commitment.ElGamalFactory, c1, c2 *commitment.
 	}
 	e := pkg.HashToBigInt(buf.Bytes())
 
+	//c1 is taken to the power of z2, which has to be the challenge itself: if the prover could
+	//choose it, it could prove this for c2 being a refreshment of any power of c1
+	if z.z2.Cmp(e) != 0 {
+		return fmt.Errorf("verification failed")
+	}
+
 	d := fct.Neutral()
 	dtmp := fct.Neutral()
 	d.Compose(fct.Create(big.NewInt(0), z.z1), d.Exp(c1, z.z2))
-- 
2.43.0


From 07db48bc9b23ede75f225d90ec22e7ac09a7eb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 11/30] fix: Reshare returns the threshold shares it computed,
 and Reveal interpolates them

---
 pkg/arith/distributed_secret.go | 16 ++++++++++++----
 pkg/arith/reshare.go            | 11 ++++++++---
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index 3f31379..fd93fb6 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -71,13 +71,21 @@ func (tds *TDSecret) Reveal() (*big.Int, error) {
 		}
 	}
 
-	sum := big.NewInt(0)
-	for _, secret := range secrets {
-		if secret != nil {
-			sum.Add(sum, secret)
+	// The shares are evaluations of a polynomial of degree t-1, so any t of them determine the secret
+	order := tds.egf.Curve().Order()
+	args := make([]*big.Int, 0, tds.t)
+	for i, secret := range secrets {
+		if secret != nil && len(args) < int(tds.t) {
+			args = append(args, big.NewInt(int64(i)))
 		}
 	}
 
+	sum := big.NewInt(0)
+	for _, arg := range args {
+		sum.Add(sum, new(big.Int).Mul(secrets[arg.Int64()], lagrangeCoef(arg, args, order)))
+	}
+	sum.Mod(sum, order)
+
 	return sum, nil
 }
 
diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index 709c2a8..1b28403 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -428,10 +428,15 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 		return nil, err
 	}
 
+	// The other parties have replaced our commitment with the refreshed one
+	shareComms[ads.pid] = shareCommRefresh
+	shareRand.Add(shareRand, shareRandRefresh)
+	shareRand.Mod(shareRand, order)
+
 	tds := &TDSecret{*ads, t}
-	ads.skShare = share
-	ads.r = shareRandRefresh
-	ads.egs = shareComms
+	tds.skShare = share
+	tds.r = shareRand
+	tds.egs = shareComms
 
 	return tds, nil
 }
-- 
2.43.0


From 99bd0d995dd9e78ef57df18d7031571cb30f3d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 12/30] fix: Reveal and Exp report round errors other than a
 tolerable number of missing parties

---
 pkg/arith/distributed_secret.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index fd93fb6..3f3b8bf 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -66,7 +66,7 @@ func (tds *TDSecret) Reveal() (*big.Int, error) {
 
 	nProc := len(tds.egs)
 	if err := tds.server.Round(toSend, check); err != nil {
-		if rErr, ok := err.(*sync.RoundError); ok && rErr.Missing() != nil && nProc-len(rErr.Missing()) < int(tds.t) {
+		if rErr, ok := err.(*sync.RoundError); !ok || rErr.Missing() == nil || nProc-len(rErr.Missing()) < int(tds.t) {
 			return nil, err
 		}
 	}
@@ -118,7 +118,7 @@ func (tds *TDSecret) Exp() (*TDKey, error) {
 
 	nProc := len(tds.egs)
 	if err := tds.server.Round([][]byte{toSendBuf.Bytes()}, check); err != nil {
-		if rErr, ok := err.(*sync.RoundError); ok && rErr.Missing() != nil && nProc-len(rErr.Missing()) < int(tds.t) {
+		if rErr, ok := err.(*sync.RoundError); !ok || rErr.Missing() == nil || nProc-len(rErr.Missing()) < int(tds.t) {
 			return nil, err
 		}
 	}
-- 
2.43.0


From 4285df30e3ccce505c390397ed9d232a6b1f9a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 13/30] fix: refuse to reshare with a threshold above the
 number of parties

---
 pkg/arith/reshare.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index 1b28403..b002e14 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -18,6 +18,9 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 	}
 
 	nProc := len(ads.egs)
+	if int(t) > nProc {
+		return nil, fmt.Errorf("Cannot reshare with threshold %v among %v parties", t, nProc)
+	}
 	order := ads.egf.Curve().Order()
 
 	var err error
-- 
2.43.0


From 54cb35442dee5a857278f32c3191d91e7cd8d870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 14/30] fix: keys made from threshold secrets know their label

---
 pkg/arith/distributed_secret.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index 3f3b8bf..26330df 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -96,6 +96,7 @@ func (tds *TDSecret) Exp() (*TDKey, error) {
 	pid := tds.pid
 	tdk := &TDKey{}
 	tdk.secret = tds
+	tdk.DKey.secret = &tds.DSecret
 	tdk.pkShares = make([]curve.Point, len(tds.egs))
 	tdk.pkShares[pid] = group.ScalarBaseMult(tds.skShare)
 
-- 
2.43.0


From fd5e24131031e9fb881b410252739a89f563085c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 15/30] fix: linear combinations keep the party's index,
 randomness and the larger threshold

---
 pkg/arith/distributed_secret.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index 26330df..bd2cba3 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -226,14 +226,23 @@ func Gen(label string, server sync.Server, egf *commitment.ElGamalFactory, pid,
 // Lin computes locally a linear combination of the secrets
 func Lin(alpha, beta *big.Int, a, b *TDSecret, cLabel string) *TDSecret {
 	tds := &TDSecret{}
+	tds.pid = a.pid
 	tds.label = cLabel
 	tds.server = a.server
 	tds.egf = a.egf
 	tds.t = a.t
+	if b.t > tds.t {
+		tds.t = b.t
+	}
 
-	tds.skShare = new(big.Int).Mul(alpha, a.skShare)
-	tmp := new(big.Int).Mul(beta, b.skShare)
-	tds.skShare.Add(tds.skShare, tmp)
+	order := tds.egf.Curve().Order()
+	lin := func(x, y *big.Int) *big.Int {
+		result := new(big.Int).Mul(alpha, x)
+		result.Add(result, new(big.Int).Mul(beta, y))
+		return result.Mod(result, order)
+	}
+	tds.skShare = lin(a.skShare, b.skShare)
+	tds.r = lin(a.r, b.r)
 
 	makeEGLin := func(aeg, beg *commitment.ElGamal) *commitment.ElGamal {
 		result := tds.egf.Neutral()
-- 
2.43.0


From 64cd94b020f0b27a7e5fe336d71b55838a956239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 16/30] fix: check the length received in step 8 of Reshare

---
 pkg/arith/reshare.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index b002e14..d643372 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -343,6 +343,9 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 			return fmt.Errorf("data for pid %v is to short %v", pid, len(data))
 		}
 		l := binary.LittleEndian.Uint32(data[:4])
+		if uint64(l) > uint64(len(data)-4) {
+			return fmt.Errorf("wrong length of the evaluation in data for pid %v: %v", pid, l)
+		}
 		recvEvals[pid] = new(big.Int).SetBytes(data[4 : 4+l])
 		recvRand[pid] = new(big.Int).SetBytes(data[4+l:])
 		if !allEvalRefreshComm[pid][ads.pid].Equal(ads.egf.Create(recvEvals[pid], recvRand[pid]), allEvalRefreshComm[pid][ads.pid]) {
-- 
2.43.0


From e73099b941f58f7b46f7a8686a577af1cffaeb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 17/30] fix: decoding an NMC does not trust the lengths it is
 sent

---
 pkg/arith/distributed_key.go | 40 ++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/pkg/arith/distributed_key.go b/pkg/arith/distributed_key.go
index 92f11fa..5e5189a 100644
--- a/pkg/arith/distributed_key.go
+++ b/pkg/arith/distributed_key.go
@@ -6,6 +6,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"io/ioutil"
 
 	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
 	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
@@ -77,36 +78,31 @@ func (nmc *NMCtmp) encode(w io.Writer) error {
 
 func (nmc *NMCtmp) decode(r io.Reader) error {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
-		return err
-	}
-	if n < 8 {
-		return fmt.Errorf("nmc wrong number of bytes in decode")
+	if _, err := io.ReadFull(r, lenBytes); err != nil {
+		return fmt.Errorf("nmc wrong number of bytes in decode: %v", err)
 	}
 
-	lenData := int(binary.LittleEndian.Uint32(lenBytes[:4]))
-	nmc.dataBytes = make([]byte, lenData)
-	n, err = r.Read(nmc.dataBytes)
-	if err != nil {
-		return err
-	}
-	if n < lenData {
-		return fmt.Errorf("nmc wrong number of dataBytes in decode")
+	// The lengths are not trusted: memory is only used for bytes that are there
+	readBytes := func(n uint32) ([]byte, error) {
+		data, err := ioutil.ReadAll(io.LimitReader(r, int64(n)))
+		if err != nil {
+			return nil, err
+		}
+		if len(data) < int(n) {
+			return nil, io.ErrUnexpectedEOF
+		}
+		return data, nil
 	}
 
-	lenZkp := int(binary.LittleEndian.Uint32(lenBytes[4:8]))
-	nmc.zkpBytes = make([]byte, lenZkp)
-	n, err = r.Read(nmc.zkpBytes)
-	if err != nil {
-		return err
+	var err error
+	if nmc.dataBytes, err = readBytes(binary.LittleEndian.Uint32(lenBytes[:4])); err != nil {
+		return fmt.Errorf("nmc wrong number of dataBytes in decode: %v", err)
 	}
-	if n < lenZkp {
-		return fmt.Errorf("nmc wrong number of zkpBytes in decode")
+	if nmc.zkpBytes, err = readBytes(binary.LittleEndian.Uint32(lenBytes[4:8])); err != nil {
+		return fmt.Errorf("nmc wrong number of zkpBytes in decode: %v", err)
 	}
 
 	return nil
-
 }
 
 // Verify tests if ncm is a commitment to given args
-- 
2.43.0


From fb4b7e114e08aa67aa9f2045f4999aa8276ebc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 18/30] fix: PrivMult computes all cross terms, masks them, and
 does not wrap around

---
 pkg/arith/mult.go | 67 ++++++++++++++---------------------------------
 1 file changed, 19 insertions(+), 48 deletions(-)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index f72db7e..d9a2e80 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -139,51 +139,30 @@ func Mult(a, b *ADSecret, cLabel string, priv *paillier.PrivateKey, pub *paillie
 
 // PrivMult computes the product ab
 func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.PrivateKey, pub *paillier.PublicKey, pubs []*paillier.PublicKey) (*big.Int, error) {
-	// For all parties with id < pid, we act as Alice in MtA for a and Act as Bob for b.
-	// For all parties with id > pid, we act as Bob in MtA for a and act as Alice for b.
+	// With every other party we run MtA twice: as Bob for our a and their b',
+	// and as Alice for their a' and our b.
 
-	// Step 1. First round of MtA. For id < pid wait for their Enc(a') and send Enc(b), and
-	// for id > pid send Enc(a) and wait for their Enc(b').
+	// Step 1. First round of MtA. Send Enc(a) and wait for Enc(a') of the others.
 
-	toSendBuf1 := make([][]byte, nProc)
 	encA, err := pub.Encrypt(a)
 	if err != nil {
 		return nil, err
 	}
-	encB, err := pub.Encrypt(b)
-	if err != nil {
-		return nil, err
-	}
-	for id := range toSendBuf1 {
-		if id < pid {
-			// Bob for b
-			toSendBuf1[id] = encB.Bytes()
-		} else if id > pid {
-			// Bob for a
-			toSendBuf1[id] = encA.Bytes()
-		}
-	}
 
 	encShares := make([]*big.Int, nProc)
 	check := func(id uint16, data []byte) error {
-		if id < uint16(pid) {
-			// Alice for a
-			encShares[id] = new(big.Int).SetBytes(data)
-		} else if id > uint16(pid) {
-			// Alice for b
-			encShares[id] = new(big.Int).SetBytes(data)
-		}
-
+		encShares[id] = new(big.Int).SetBytes(data)
 		return nil
 	}
 
-	if err := server.Round(toSendBuf1, check); err != nil {
+	if err := server.Round([][]byte{encA.Bytes()}, check); err != nil {
 		return nil, err
 	}
 
-	// Step 2. Second round of MtA. For id < pid send Enc(aa'-t) and wait for E(bb'-t), and
-	// for id > pid wait for Enc(aa'-t) and send Enc(bb'-t).
-	myShares := make([]*big.Int, nProc) // collection of t_A
+	// Step 2. Second round of MtA. Send Enc(a'b+t) and wait for Enc(ab'+t').
+	// The mask t hides a'b, and as N is much longer than a'b, the sum does not wrap around modulo N
+	// except with negligible probability.
+	myShares := make([]*big.Int, nProc) // collection of -t_A
 	toSendBuf2 := make([][]byte, nProc)
 	genEncABmt := func(id int, share *big.Int) error {
 		var err error
@@ -192,13 +171,13 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 			return err
 		}
 
-		myShares[id], err = rand.Int(randReader, Q)
+		mask, err := rand.Int(randReader, pubs[id].N)
 		if err != nil {
 			return err
 		}
+		myShares[id] = new(big.Int).Neg(mask)
 
-		negMyShare := new(big.Int).Sub(pubs[id].N, myShares[id])
-		enc, err := pubs[id].Encrypt(negMyShare)
+		enc, err := pubs[id].Encrypt(mask)
 		if err != nil {
 			return err
 		}
@@ -213,16 +192,11 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 	}
 
 	for id := range toSendBuf2 {
-		if id < pid {
-			// Alice for a
-			if err := genEncABmt(id, a); err != nil {
-				return nil, err
-			}
-		} else if id > pid {
-			// Alice for b
-			if err := genEncABmt(id, b); err != nil {
-				return nil, err
-			}
+		if id == pid {
+			continue
+		}
+		if err := genEncABmt(id, b); err != nil {
+			return nil, err
 		}
 	}
 
@@ -230,9 +204,8 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 	check = func(id uint16, data []byte) error {
 		if id != uint16(pid) {
 			var err error
-			// Bob for b
+			// Bob for a
 			abmts[id] = new(big.Int).SetBytes(data)
-			abmts[id].Sub(abmts[id], pub.N)
 			if abmts[id], err = priv.Decrypt(abmts[id]); err != nil {
 				return err
 			}
@@ -254,9 +227,7 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 		share.Add(share, t)
 		share.Add(share, abmts[id])
 	}
-	if len(share.Bytes()) > 32 {
-		share.Mod(share, Q)
-	}
+	share.Mod(share, Q)
 
 	return share, nil
 }
-- 
2.43.0


From 71ef1c5686600afd74277745b884d62c95adcf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 19/30] fix: products of secrets know their party's index and
 commitment factory

---
 pkg/arith/mult.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index d9a2e80..3352913 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -18,8 +18,10 @@ func Mult(a, b *ADSecret, cLabel string, priv *paillier.PrivateKey, pub *paillie
 	nProc := len(a.egs)
 
 	c = &ADSecret{}
+	c.pid = a.pid
 	c.label = cLabel
 	c.server = a.server
+	c.egf = a.egf
 
 	// Step 1. Compute a product of commitments to b
 	pid := int(a.pid)
-- 
2.43.0


From 8c96c2546994e54c55757e0bfd5a7b5daf4651be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 20/30] fix: commit under the dedicated commitment key instead
 of the signing key

---
 pkg/tecdsa/tecdsa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tecdsa/tecdsa.go b/pkg/tecdsa/tecdsa.go
index 896a428..962791b 100644
--- a/pkg/tecdsa/tecdsa.go
+++ b/pkg/tecdsa/tecdsa.go
@@ -47,7 +47,7 @@ func Init(pid, nProc uint16, network sync.Server) (*Protocol, error) {
 	if err != nil {
 		return nil, err
 	}
-	p.egf = commitment.NewElGamalFactory(p.key.PublicKey())
+	p.egf = commitment.NewElGamalFactory(p.egKey.PublicKey())
 
 	return p, nil
 }
-- 
2.43.0


From 2b055263f21c1b10447d2013c5f3537708087476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 21/30] fix: signing divides modulo the order of the group and
 keeps r

---
 pkg/tecdsa/tecdsa.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/tecdsa/tecdsa.go b/pkg/tecdsa/tecdsa.go
index 962791b..3a4db7d 100644
--- a/pkg/tecdsa/tecdsa.go
+++ b/pkg/tecdsa/tecdsa.go
@@ -112,7 +112,14 @@ func (p *Protocol) Sign(message *big.Int) (*Signature, error) {
 		return nil, err
 	}
 
-	alpha, beta := new(big.Int).Div(message, tau), r.Div(r, tau)
+	order := p.group.Order()
+	tauInv := new(big.Int).ModInverse(tau, order)
+	if tauInv == nil {
+		return nil, fmt.Errorf("the presignature is unusable, tau is not invertible")
+	}
+	alpha, beta := new(big.Int).Mul(message, tauInv), new(big.Int).Mul(r, tauInv)
+	alpha.Mod(alpha, order)
+	beta.Mod(beta, order)
 	sTDSecret := arith.Lin(alpha, beta, ps.rho, ps.eta, "s")
 
 	s, err := sTDSecret.Reveal()
-- 
2.43.0


From 848c8d85fb7ae37a0327a77c04a43d494c2672e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 22/30] fix: a failed round names exactly the failing parties,
 checks the others' data, and finishes sending

---
 pkg/sync/server.go | 76 ++++++++++++----------------------------------
 1 file changed, 20 insertions(+), 56 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index e56d740..d5d3019 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 
 	"os"
-	"strings"
 	"sync"
 	"time"
 
@@ -140,35 +139,30 @@ func (s *server) Round(toSend [][]byte, check func(uint16, []byte) error) error
 
 	endRound := time.Now().Add(s.roundDuration)
 	var wg sync.WaitGroup
-	var errSend error
+	var errsSend []error
 	wg.Add(1)
 	go func() {
 		defer wg.Done()
-		errSend = s.sendToAll(toSend)
+		errsSend = s.sendToAll(toSend)
 	}()
 
-	data, missing, err := s.receiveFromAll(endRound)
-	if err != nil {
-		return wrap(err)
-	}
-
-	if len(missing) > 0 {
-		return newRoundError("Missing data from some parties", missing)
-	}
-
+	data, errsReceive := s.receiveFromAll(endRound)
+	// The sender has to finish before the next round starts, no matter how this one ends
 	wg.Wait()
 
-	if errSend != nil {
-		return wrap(errSend)
-	}
-
 	errors := []error{}
 	wrong := []uint16{}
 	for pid := uint16(0); pid < s.nProc; pid++ {
 		if pid == s.pid {
 			continue
 		}
-		err = check(pid, data[pid])
+		err := errsReceive[pid]
+		if err == nil {
+			err = check(pid, data[pid])
+		}
+		if err == nil {
+			err = errsSend[pid]
+		}
 		if err != nil {
 			errors = append(errors, err)
 			wrong = append(wrong, pid)
@@ -188,7 +182,7 @@ func (s *server) Round(toSend [][]byte, check func(uint16, []byte) error) error
 	return nil
 }
 
-func (s *server) sendToAll(toSend [][]byte) error {
+func (s *server) sendToAll(toSend [][]byte) []error {
 	var data []byte
 	// Check if we send the same data to all parties
 	if len(toSend) == 1 {
@@ -220,22 +214,22 @@ func (s *server) sendToAll(toSend [][]byte) error {
 			binary.LittleEndian.PutUint64(dataLen, uint64(len(d)))
 			_, err := conn.Write(dataLen)
 			if err != nil {
-				errors[pid] = err
+				errors[pid] = fmt.Errorf("sendToAll err: %v", err)
 				return
 			}
 			err = conn.Flush()
 			if err != nil {
-				errors[pid] = err
+				errors[pid] = fmt.Errorf("sendToAll err: %v", err)
 				return
 			}
 			_, err = conn.Write(d)
 			if err != nil {
-				errors[pid] = err
+				errors[pid] = fmt.Errorf("sendToAll err: %v", err)
 				return
 			}
 			err = conn.Flush()
 			if err != nil {
-				errors[pid] = err
+				errors[pid] = fmt.Errorf("sendToAll err: %v", err)
 				return
 			}
 		}(pid)
@@ -243,26 +237,11 @@ func (s *server) sendToAll(toSend [][]byte) error {
 
 	wg.Wait()
 
-	var b strings.Builder
-	for pid := uint16(0); pid < s.nProc; pid++ {
-		if pid == s.pid {
-			continue
-		}
-		if errors[pid] != nil {
-			fmt.Fprintf(&b, "[sendToAll] pid: %d, error: %v\n", pid, errors[pid])
-		}
-	}
-
-	if b.Len() > 0 {
-		return fmt.Errorf("rid:%v: %v", s.roundID, b.String())
-	}
-
-	return nil
+	return errors
 }
 
-func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error) {
+func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []error) {
 	data := make([][]byte, s.nProc)
-	missing := []uint16{}
 
 	wg := sync.WaitGroup{}
 	wg.Add(int(s.nProc) - 1)
@@ -321,21 +300,6 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 		fmt.Fprintf(os.Stderr, "rid:%v: Round: receiving took too long %v\n", s.roundID, d)
 	}
 
-	var b strings.Builder
-	for pid := uint16(0); pid < s.nProc; pid++ {
-		if pid == s.pid {
-			continue
-		}
-		if errors[pid] != nil {
-			fmt.Fprintf(&b, "[receiveFromAll] pid: %d, error: %v\n", pid, errors[pid])
-			// TODO: not all erros should be treated as missing
-			missing = append(missing, pid)
-		}
-	}
-
-	if b.Len() > 0 {
-		return nil, missing, fmt.Errorf("rid:%v: %v", s.roundID, b.String())
-	}
-
-	return data, nil, nil
+	// TODO: not all erros should be treated as missing
+	return data, errors
 }
-- 
2.43.0


From b3af17d31fc3c99fbad4bae271a02987bb41efe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 23/30] fix: receiving a frame tolerates short reads and does
 not trust the length and sender it is told

---
 pkg/sync/server.go | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index d5d3019..bfcdb61 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -2,9 +2,11 @@
 package sync
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
-
+	"io"
+	"math"
 	"os"
 	"sync"
 	"time"
@@ -254,25 +256,22 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []error) {
 			defer wg.Done()
 
 			dataLen := make([]byte, 8)
-			if n, err := s.inDataConn[pid].Read(dataLen); err != nil {
+			if n, err := io.ReadFull(s.inDataConn[pid], dataLen); err != nil {
 				errors[pid] = fmt.Errorf("receiveFromAll dataLen err: %v, %v", n, err)
 				return
 			}
-			l := int(binary.LittleEndian.Uint64(dataLen))
-			buf := make([]byte, l)
-			nRead := 0
-			for {
-				n, err := s.inDataConn[pid].Read(buf[nRead:])
-				if err != nil {
-					errors[pid] = fmt.Errorf("receiveFromAll buf err: %v", err)
-					return
-				}
-				nRead += n
-				if nRead == l {
-					break
-				}
-
+			l := binary.LittleEndian.Uint64(dataLen)
+			if l > math.MaxInt64 {
+				errors[pid] = fmt.Errorf("rid:%v: received wrong length %v from %v", s.roundID, l, pid)
+				return
+			}
+			// The length is not trusted: memory is only used for bytes that are there
+			body := &bytes.Buffer{}
+			if _, err := io.CopyN(body, s.inDataConn[pid], int64(l)); err != nil {
+				errors[pid] = fmt.Errorf("receiveFromAll buf err: %v", err)
+				return
 			}
+			buf := body.Bytes()
 
 			if len(buf) < 10 {
 				errors[pid] = fmt.Errorf("rid:%v: received too short data from %v", s.roundID, pid)
@@ -280,7 +279,8 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []error) {
 			}
 			id := binary.LittleEndian.Uint16(buf[:2])
 			if id != pid {
-				panic(fmt.Sprintf("some party uses wrong outDataConn: Expected %v, got %v", pid, id))
+				errors[pid] = fmt.Errorf("some party uses wrong outDataConn: Expected %v, got %v", pid, id)
+				return
 			}
 			roundID := binary.LittleEndian.Uint64(buf[2:10])
 			if int64(roundID) != s.roundID {
-- 
2.43.0


From ead32836822e4ec060743d984cb09ca1caa19f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 24/30] fix: connection set-up survives failing connections and
 wrong or repeated party indices

---
 pkg/sync/server.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index bfcdb61..6418aa5 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -51,6 +51,7 @@ func NewServer(pid, nProc uint16, startTime time.Time, roundDuration time.Durati
 func (s *server) Start() {
 	s.startWG.Add(2*int(s.nProc) - 2)
 	go func() {
+		var inMx sync.Mutex
 		for pid := range s.inDataConn {
 			if pid == int(s.pid) {
 				continue
@@ -64,16 +65,23 @@ func (s *server) Start() {
 					}
 
 					buf := make([]byte, 2)
-					_, err = conn.Read(buf)
+					_, err = io.ReadFull(conn, buf)
 					if err != nil {
-						panic(err.Error())
+						conn.Close()
+						continue
 					}
 
 					pid := binary.LittleEndian.Uint16(buf)
-					if s.inDataConn[pid] != nil {
-						panic(fmt.Sprintf("Connection with %d already established (my pid:%v)!", pid, s.pid))
+					inMx.Lock()
+					accepted := pid < s.nProc && pid != s.pid && s.inDataConn[pid] == nil
+					if accepted {
+						s.inDataConn[pid] = conn
+					}
+					inMx.Unlock()
+					if !accepted {
+						conn.Close()
+						continue
 					}
-					s.inDataConn[pid] = conn
 					return
 				}
 			}()
@@ -95,10 +103,12 @@ func (s *server) Start() {
 					buf := make([]byte, 2)
 					binary.LittleEndian.PutUint16(buf, s.pid)
 					if _, err = conn.Write(buf); err != nil {
-						panic(fmt.Sprintf("succesfully dialed %v but then %v", pid, err))
+						conn.Close()
+						continue
 					}
 					if err = conn.Flush(); err != nil {
-						panic(fmt.Sprintf("succesfully written %v but then %v", pid, err))
+						conn.Close()
+						continue
 					}
 					s.outDataConn[pid] = conn
 					return
-- 
2.43.0


From c4600bafc1e9f046892425e107a77255def1b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 25/30] fix: gen_keys writes the whole private key

---
 cmd/gen_keys/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gen_keys/main.go b/cmd/gen_keys/main.go
index c38f299..1bd5dd9 100644
--- a/cmd/gen_keys/main.go
+++ b/cmd/gen_keys/main.go
@@ -39,10 +39,10 @@ func encodePaillierPrivateKey(pk *paillier.PrivateKey) string {
 	copy(buf[2:2+lenN], pk.PublicKey.N.Bytes())
 
 	binary.LittleEndian.PutUint16(buf[2+lenN:4+lenN], uint16(lenLambdaN))
-	copy(buf[4+lenN:4+lenN+lenLambdaN], pk.PublicKey.N.Bytes())
+	copy(buf[4+lenN:4+lenN+lenLambdaN], pk.LambdaN.Bytes())
 
-	binary.LittleEndian.PutUint16(buf[4+lenN+lenLambdaN:6+lenN+lenLambdaN], uint16(lenN))
-	copy(buf[6+lenN+lenLambdaN:], pk.PublicKey.N.Bytes())
+	binary.LittleEndian.PutUint16(buf[4+lenN+lenLambdaN:6+lenN+lenLambdaN], uint16(lenPhiN))
+	copy(buf[6+lenN+lenLambdaN:], pk.PhiN.Bytes())
 
 	return base64.StdEncoding.EncodeToString(buf)
 }
-- 
2.43.0


From 21dc769926abe80a10df86d771732b7917d67708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 26/30] fix: the node reports malformed private keys and
 negative indices instead of crashing

---
 cmd/tecdsa/main.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index 9db73b3..c2e3abe 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -37,8 +37,11 @@ type committee struct {
 }
 
 func decodeBigInt(data []byte, name string) (*big.Int, error) {
-	lenX := binary.LittleEndian.Uint16(data[:2])
-	if len(data) < 2+int(lenX) {
+	if len(data) < 2 {
+		return nil, fmt.Errorf("wrong encoding, data is too short for the length of %s", name)
+	}
+	lenX := int(binary.LittleEndian.Uint16(data[:2]))
+	if len(data) < 2+lenX {
 		return nil, fmt.Errorf("wrong encoding, data is too short. len(%s) is %d, while len(data) is %d", name, lenX, len(data[2:]))
 	}
 	return new(big.Int).SetBytes(data[2 : 2+lenX]), nil
@@ -46,6 +49,9 @@ func decodeBigInt(data []byte, name string) (*big.Int, error) {
 
 func decodePaillierPrivateKey(enc string) (*paillier.PrivateKey, error) {
 	data, err := base64.StdEncoding.DecodeString(enc)
+	if err != nil {
+		return nil, err
+	}
 
 	pk := &paillier.PrivateKey{}
 	pk.PublicKey.N, err = decodeBigInt(data, "N")
@@ -234,7 +240,7 @@ func main() {
 		return
 	}
 
-	if member.pid >= len(committee.addresses) {
+	if member.pid < 0 || member.pid >= len(committee.addresses) {
 		fmt.Fprintf(logFile, "Wrong pid: %d.\n", member.pid)
 		return
 	}
-- 
2.43.0


From f96d9db5e17247ac4b7af2a894ae8c539a478656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 27/30] fix: the node rejects impossible numbers of signatures
 and thresholds

---
 cmd/tecdsa/main.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index c2e3abe..1dd074f 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -245,6 +245,16 @@ func main() {
 		return
 	}
 
+	if options.sigNumber < 1 {
+		fmt.Fprintf(logFile, "Wrong number of signatures: %d.\n", options.sigNumber)
+		return
+	}
+
+	if options.threshold < 1 || options.threshold > len(committee.addresses) {
+		fmt.Fprintf(logFile, "Wrong threshold: %d.\n", options.threshold)
+		return
+	}
+
 	net, err := tcp.NewServer(committee.addresses[member.pid], committee.addresses, zerolog.Nop())
 	if err != nil {
 		fmt.Fprintf(logFile, "Could not init tcp server due to %v.\n", err)
-- 
2.43.0


From 7bb485f85507ac58892738f2b1365f2296a29756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:40 +0000
Subject: [PATCH 28/30] fix: exponentiation uses the points that arrived,
 whoever they come from

---
 pkg/arith/distributed_secret.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index bd2cba3..ed8644a 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -126,19 +126,13 @@ func (tds *TDSecret) Exp() (*TDKey, error) {
 
 	var wg stdsync.WaitGroup
 	channel := make(chan curve.Point, nProc)
-	counter := tds.t
 
-	args := make([]*big.Int, tds.t)
-	values := make([]curve.Point, tds.t)
+	args := make([]*big.Int, 0, tds.t)
+	values := make([]curve.Point, 0, tds.t)
 	for i, value := range tdk.pkShares {
-		if value == nil {
-			continue
-		}
-		args[i] = big.NewInt(int64(i))
-		values[i] = value
-		counter = counter - 1
-		if counter == 0 {
-			break
+		if value != nil && len(args) < int(tds.t) {
+			args = append(args, big.NewInt(int64(i)))
+			values = append(values, value)
 		}
 	}
 
-- 
2.43.0


From 5c47a7a281feca106cea5e79f041169a1cf09ecd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:55:18 +0000
Subject: [PATCH 29/30] fix: refuse Paillier keys with a zero modulus or
 exponent

---
 cmd/tecdsa/main.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index 1dd074f..446b59d 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -44,7 +44,11 @@ func decodeBigInt(data []byte, name string) (*big.Int, error) {
 	if len(data) < 2+lenX {
 		return nil, fmt.Errorf("wrong encoding, data is too short. len(%s) is %d, while len(data) is %d", name, lenX, len(data[2:]))
 	}
-	return new(big.Int).SetBytes(data[2 : 2+lenX]), nil
+	x := new(big.Int).SetBytes(data[2 : 2+lenX])
+	if x.Sign() == 0 {
+		return nil, fmt.Errorf("wrong encoding, %s is zero", name)
+	}
+	return x, nil
 }
 
 func decodePaillierPrivateKey(enc string) (*paillier.PrivateKey, error) {
@@ -98,6 +102,9 @@ func parseCommitteeLine(line string) (*paillier.PublicKey, string, error) {
 		return nil, "", errors.New("malformed address")
 	}
 	pk.N = new(big.Int).SetBytes(pkBytes)
+	if pk.N.Sign() == 0 {
+		return nil, "", errors.New("malformed paillier key")
+	}
 
 	return pk, addr, nil
 }
-- 
2.43.0


From 22b89fee036769f48d91ffce650820e4c6e075db Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:55:47 +0000
Subject: [PATCH 30/30] fix: the node refuses committee addresses that nobody
 can dial instead of waiting for ever

---
 cmd/tecdsa/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index 446b59d..b239007 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"io"
 	"math/big"
+	"net"
 	"os"
 	"os/signal"
 	"runtime"
@@ -92,7 +93,11 @@ func parseCommitteeLine(line string) (*paillier.PublicKey, string, error) {
 	if len(addr) == 0 {
 		return nil, "", errors.New("empty address")
 	}
-	if len(strings.Split(addr, ":")) < 2 {
+	_, port, err := net.SplitHostPort(addr)
+	if err != nil || port == "" {
+		return nil, "", errors.New("malformed address")
+	}
+	if _, err = net.LookupPort("tcp", port); err != nil {
 		return nil, "", errors.New("malformed address")
 	}
 
-- 
2.43.0

