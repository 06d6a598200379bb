From a66d41587c7ee69e261f163b1810293e371580d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:35 +0000
Subject: [PATCH 01/31] fix: decode tagged points after the tag byte and reject
 unknown curves

---
 curve/point.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/curve/point.go b/curve/point.go
index 7848ffa..94e847d 100644
--- a/curve/point.go
+++ b/curve/point.go
@@ -101,9 +101,12 @@ func (p point) DeserializeTagged(curve EccCurveType, bytes []byte) (EccPoint, er
 	if len(bytes) == 0 {
 		return nil, errors.New("invalid point, bytes is empty")
 	}
-	return p.Deserialize(EccCurveType(bytes[0]), bytes[:])
+	return p.Deserialize(EccCurveType(bytes[0]), bytes[1:])
 }
 func (p point) Deserialize(curve EccCurveType, bytes []byte) (EccPoint, error) {
+	if curve.Tag() == 0 {
+		return nil, errors.New("unknown curve")
+	}
 	if len(bytes) != curve.PointBytes() {
 		return nil, errors.New("invalid point")
 	}
@@ -127,6 +130,8 @@ func (p point) DeserializeAnyFormat(curve EccCurveType, bytes []byte) (pt EccPoi
 	switch curve {
 	case K256:
 		pt, err = K256Point.Deserialize(bytes)
+	default:
+		err = errors.New("unknown curve")
 	}
 	return pt, err
 }
-- 
2.43.0


From ca6bca0b67eb01fe11b4edd4902e21573f658d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:36 +0000
Subject: [PATCH 02/31] fix: reject point encodings that are off the curve or
 not reduced

---
 curve/k256_point.go | 47 +++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index be85de5..fe1a977 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -6,7 +6,7 @@ import (
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fp"
 	"github.com/fxamacker/cbor/v2"
-	"math/big"
+	"github.com/pkg/errors"
 	"math/bits"
 )
 
@@ -45,36 +45,49 @@ func (e EccK256Point) Deserialize(bytes []byte) (*Secp256k1Point, error) {
 }
 
 func (e EccK256Point) fromUncompressed(xb, yb []byte) (*Secp256k1Point, error) {
-	x := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(xb))
-
-	y := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(yb))
+	x, err := K256Field.FromBytes(xb)
+	if err != nil {
+		return nil, err
+	}
+	y, err := K256Field.FromBytes(yb)
+	if err != nil {
+		return nil, err
+	}
 
 	value := k256.K256PointNew()
-	value.X = x
-	value.Y = y
+	value.X = x.field
+	value.Y = y.field
 	value.Z.SetOne()
+	if !value.IsOnCurve() {
+		return nil, errors.New("invalid point, not on the curve")
+	}
 	return &Secp256k1Point{point: value}, nil
 }
 func (e EccK256Point) decompress(bytes []byte, sign int) (*Secp256k1Point, error) {
-	x := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(bytes))
+	fx, err := K256Field.FromBytes(bytes)
+	if err != nil {
+		return nil, err
+	}
+	x := fx.field
 
 	value := k256.K256PointNew().Identity()
 	rhs := fp.K256FpNew()
 	p := k256.K256PointNew()
 	p.Arithmetic.RhsEq(rhs, x)
 	// test that rhs is quadratic residue
-	// if not, then this Point is at infinity
+	// if not, then no point has this x coordinate
 	y, wasQr := fp.K256FpNew().Sqrt(rhs)
-	if wasQr {
-		// fix the sign
-		sigY := int(y.Bytes()[0] & 1)
-		if sigY != sign {
-			y.Neg(y)
-		}
-		value.X = x
-		value.Y = y
-		value.Z.SetOne()
+	if !wasQr {
+		return nil, errors.New("invalid point, not on the curve")
 	}
+	// fix the sign
+	sigY := int(y.Bytes()[0] & 1)
+	if sigY != sign {
+		y.Neg(y)
+	}
+	value.X = x
+	value.Y = y
+	value.Z.SetOne()
 	return &Secp256k1Point{point: value}, nil
 }
 func (e EccK256Point) fromEncodedPoint(encodePoint EncodePoint) (pt *Secp256k1Point, err error) {
-- 
2.43.0


From 26e7a8b9bd78fb0dedba7ea318b0d108f64ea1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:37 +0000
Subject: [PATCH 03/31] fix: decode identity encodings and reject empty or
 unknown point encodings

---
 curve/encode.go     | 6 ++++++
 curve/k256_point.go | 6 +++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/curve/encode.go b/curve/encode.go
index e675ab1..b9d2450 100644
--- a/curve/encode.go
+++ b/curve/encode.go
@@ -120,7 +120,13 @@ func (e encode32) toSize() int {
 }
 
 func (e encode32) FromBytes(input []byte) (EncodePoint, error) {
+	if len(input) == 0 {
+		return nil, errors.New("point decode failed")
+	}
 	tag := Tag(input[0])
+	if tag != Identity && tag != Uncompressed && !tag.IsCompressed() && !tag.IsCompact() {
+		return nil, errors.New("point decode failed")
+	}
 	expected := tag.MessageLen(e.toSize())
 	if len(input) != expected {
 		return nil, errors.New("point decode failed")
diff --git a/curve/k256_point.go b/curve/k256_point.go
index fe1a977..1745177 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -93,7 +93,7 @@ func (e EccK256Point) decompress(bytes []byte, sign int) (*Secp256k1Point, error
 func (e EccK256Point) fromEncodedPoint(encodePoint EncodePoint) (pt *Secp256k1Point, err error) {
 	cd := encodePoint.Coordinates()
 	switch c := cd.(type) {
-	case *IdentityCoordinates:
+	case IdentityCoordinates:
 		pt = e.Identity()
 	case *CompactCoordinates:
 		pt, err = e.decompress(c.x, 0)
@@ -221,10 +221,10 @@ func (s *Secp256k1Point) UnmarshalCBOR(data []byte) error {
 	if err := cbor.Unmarshal(data, &bytes); err != nil {
 		return err
 	}
-	tmp, err := K256Point.Deserialize(bytes[1:])
+	tmp, err := Point.DeserializeTagged(s.CurveType(), bytes)
 	if err != nil {
 		return err
 	}
-	s.point = tmp.point
+	s.point = tmp.(*Secp256k1Point).point
 	return nil
 }
-- 
2.43.0


From 46b837da06451833815e816f4c01d5d7340c0cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:39 +0000
Subject: [PATCH 04/31] fix: size the uncompressed point encoding correctly

---
 curve/k256_point.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index 1745177..46c8743 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -172,7 +172,11 @@ func (s Secp256k1Point) encodePoint(compress bool) []byte {
 		choice = 1
 	}
 	encode := Encode.ConditionalSelect(Encode.FromAffineCoordinates(x.AsBytes(), y.AsBytes(), compress), Encode.Identity(), choice)
-	result := make([]byte, 33, 33)
+	size := s.CurveType().PointBytes()
+	if !compress {
+		size = encode.Len()
+	}
+	result := make([]byte, size, size)
 	copy(result[0:encode.Len()], encode.AsBytes())
 	return result
 }
-- 
2.43.0


From 72af14a2b99a76ffe318fda889e88943aa24c37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 05/31] fix: reject scalar and field encodings of the wrong
 length or unknown curve

---
 curve/k256_fe.go     | 4 ++++
 curve/k256_scalar.go | 8 ++++++--
 curve/scalar.go      | 7 +++++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/curve/k256_fe.go b/curve/k256_fe.go
index 6badaaa..da9a8d6 100644
--- a/curve/k256_fe.go
+++ b/curve/k256_fe.go
@@ -5,6 +5,7 @@ import (
 	"github.com/PlatONnetwork/tecdsa/common"
 	"github.com/coinbase/kryptology/pkg/core/curves/native"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fp"
+	"github.com/pkg/errors"
 	"math/big"
 )
 
@@ -33,6 +34,9 @@ func (e EccK256Field) FromHex(h string) *Secp256k1Field {
 	return &Secp256k1Field{field: fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(bytes))}
 }
 func (EccK256Field) FromBytes(bytes []byte) (*Secp256k1Field, error) {
+	if len(bytes) != K256.FieldBytes() {
+		return nil, errors.New("invalid field element")
+	}
 	var r [32]byte
 	copy(r[:], common.ReverseBytes(bytes[:]))
 	field, err := fp.K256FpNew().SetBytes(&r)
diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index d0942cc..76ab27f 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -5,6 +5,7 @@ import (
 	"github.com/coinbase/kryptology/pkg/core/curves/native"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fq"
 	"github.com/fxamacker/cbor/v2"
+	"github.com/pkg/errors"
 	"math/big"
 )
 
@@ -20,6 +21,9 @@ type Secp256k1Scalar struct {
 }
 
 func (EccK256Scalar) Deserialize(bytes []byte) (*Secp256k1Scalar, error) {
+	if len(bytes) != K256.ScalarBytes() {
+		return nil, errors.New("invalid scalar")
+	}
 	var buf [32]byte
 	copy(buf[:], common.ReverseBytes(bytes))
 	field, err := fq.K256FqNew().SetBytes(&buf)
@@ -137,11 +141,11 @@ func (s *Secp256k1Scalar) UnmarshalCBOR(data []byte) error {
 	if err := cbor.Unmarshal(data, &bytes); err != nil {
 		return err
 	}
-	tmp, err := K256Scalar.Deserialize(bytes[1:])
+	tmp, err := Scalar.DeserializeTagged(bytes)
 	if err != nil {
 		return err
 	}
-	s.scalar = tmp.scalar
+	s.scalar = tmp.(*Secp256k1Scalar).scalar
 	return nil
 }
 func (s Secp256k1Scalar) BigInt() *big.Int {
diff --git a/curve/scalar.go b/curve/scalar.go
index de33348..fc5416a 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -51,8 +51,9 @@ func (s scalar) DeserializeTagged(bytes []byte) (EccScalar, error) {
 	var err error
 	switch EccCurveType(bytes[0]) {
 	case K256:
-		scalar, err = K256Scalar.Deserialize(bytes[0:])
-
+		scalar, err = K256Scalar.Deserialize(bytes[1:])
+	default:
+		err = errors.New("unknown curve")
 	}
 	return scalar, err
 }
@@ -66,6 +67,8 @@ func (s scalar) Deserialize(curve EccCurveType, bytes []byte) (EccScalar, error)
 	switch curve {
 	case K256:
 		scalar, err = K256Scalar.Deserialize(bytes)
+	default:
+		err = errors.New("unknown curve")
 	}
 	return scalar, err
 }
-- 
2.43.0


From f64471b56c31fe2cf57667130f43500a7f22cc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:37 +0000
Subject: [PATCH 06/31] fix: add and subtract points correctly when the
 receiver is the right operand

---
 curve/k256_point.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index 46c8743..8dc2b97 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -115,14 +115,16 @@ func (s Secp256k1Point) CurveType() EccCurveType {
 func (s *Secp256k1Point) AddPoints(lhs, rhs EccPoint) EccPoint {
 	l := lhs.(*Secp256k1Point)
 	r := rhs.(*Secp256k1Point)
-	s.point.Add(l.point, r.point)
+	// the sum is computed apart: s may alias lhs or rhs
+	s.point.Set(k256.K256PointNew().Add(l.point, r.point))
 	return s
 }
 
 func (s *Secp256k1Point) SubPoints(lhs, rhs EccPoint) EccPoint {
 	l := lhs.(*Secp256k1Point)
 	r := rhs.(*Secp256k1Point)
-	s.point.Sub(l.point, r.point)
+	// the difference is computed apart: s may alias lhs or rhs
+	s.point.Set(k256.K256PointNew().Sub(l.point, r.point))
 	return s
 }
 
-- 
2.43.0


From 9137520070e41d7b6d1b4cbf775bcbb8ad3e7d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:38 +0000
Subject: [PATCH 07/31] fix: compare canonical values in IsHigh

---
 curve/k256_scalar.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index 76ab27f..88f1274 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -129,8 +129,7 @@ func (s Secp256k1Scalar) IsZero() int {
 }
 
 func (s Secp256k1Scalar) IsHigh() bool {
-	return s.scalar.Cmp(OrderHalf) > 0
-	return true
+	return s.scalar.BigInt().Cmp(OrderHalf.BigInt()) > 0
 }
 func (s Secp256k1Scalar) MarshalCBOR() ([]byte, error) {
 	return cbor.Marshal(s.SerializeTagged())
-- 
2.43.0


From 90d1032b84b3ed61ddf8b30e9d3b508180879353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:39 +0000
Subject: [PATCH 08/31] fix: return the scalar bytes from ToScalarBytes

---
 curve/scalar.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curve/scalar.go b/curve/scalar.go
index fc5416a..8083a18 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -122,6 +122,7 @@ func (s scalar) ToScalarBytes(scalar EccScalar) EccScalarBytes {
 	case K256:
 		var k256 Secp256K1ScalarBytes
 		copy(k256[:], scalar.Serialize())
+		bytes = k256
 	}
 	return bytes
 }
-- 
2.43.0


From 4023f7964055a16f51317ee3f32b9f09a5e488f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:40 +0000
Subject: [PATCH 09/31] fix: reject wide inputs longer than twice the modulus
 instead of panicking or truncating

---
 curve/fe.go     | 8 +++++++-
 curve/scalar.go | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/curve/fe.go b/curve/fe.go
index 35277c1..bed7358 100644
--- a/curve/fe.go
+++ b/curve/fe.go
@@ -1,6 +1,9 @@
 package curve
 
-import "math/big"
+import (
+	"github.com/pkg/errors"
+	"math/big"
+)
 
 var (
 	Field = field{}
@@ -113,6 +116,9 @@ func (f field) FromBytes(curve EccCurveType, bytes []byte) (fe EccFieldElement,
 }
 
 func (f field) FromBytesWide(curve EccCurveType, bytes []byte) (EccFieldElement, error) {
+	if len(bytes) > 2*curve.FieldBytes() {
+		return nil, errors.New("invalid field element")
+	}
 	var fe EccFieldElement
 	switch curve {
 	case K256:
diff --git a/curve/scalar.go b/curve/scalar.go
index 8083a18..ecbaae3 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -74,6 +74,9 @@ func (s scalar) Deserialize(curve EccCurveType, bytes []byte) (EccScalar, error)
 }
 
 func (s scalar) FromBytesWide(curve EccCurveType, bytes []byte) (EccScalar, error) {
+	if len(bytes) > 2*curve.ScalarBytes() {
+		return nil, errors.New("invalid scalar")
+	}
 	var scalar EccScalar
 	switch curve {
 	case K256:
-- 
2.43.0


From 5878cb1c381f6c30dcd39ae1021e21236cc230bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:41 +0000
Subject: [PATCH 10/31] fix: reject message hashes that are not the size of the
 group order

---
 sign/sign.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sign/sign.go b/sign/sign.go
index ffc12c7..5959ea4 100644
--- a/sign/sign.go
+++ b/sign/sign.go
@@ -15,6 +15,9 @@ func EcdsaConversion(pt curve.EccPoint) (curve.EccScalar, error) {
 }
 
 func ConvertHashToInteger(hashedMsg []byte, curveType curve.EccCurveType) (curve.EccScalar, error) {
+	if len(hashedMsg) != curveType.ScalarBytes() {
+		return nil, errors.New("invalid hashed message length")
+	}
 	return curve.Scalar.FromBytesWide(curveType, hashedMsg)
 }
 
-- 
2.43.0


From a83ac0e8a4dcde361dbb717a6c6c1d1d4fcc31a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:42 +0000
Subject: [PATCH 11/31] fix: scale the given polynomial in MulScalar

---
 poly/poly.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poly/poly.go b/poly/poly.go
index 39f8c43..d36730d 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -124,7 +124,7 @@ func (p *Polynomial) Mul(lhs, rhs *Polynomial) *Polynomial {
 func (p *Polynomial) MulScalar(lhs *Polynomial, scalar curve.EccScalar) *Polynomial {
 	coeffs := make([]curve.EccScalar, len(lhs.coefficients), len(lhs.coefficients))
 	for i := range coeffs {
-		coeffs[i] = curve.Scalar.Zero(lhs.curve).Mul(p.coefficients[i], scalar)
+		coeffs[i] = curve.Scalar.Zero(lhs.curve).Mul(lhs.coefficients[i], scalar)
 	}
 	p.coefficients = coeffs
 	return p
-- 
2.43.0


From 76962dbf1e801a41a1a3a79d296b4231df66c530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:43 +0000
Subject: [PATCH 12/31] fix: keep the Newton base when interpolating so equal
 or collinear samples work

---
 poly/poly.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/poly/poly.go b/poly/poly.go
index d36730d..ec71106 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -181,8 +181,7 @@ func (p polynomial) Interpolate(curveType curve.EccCurveType, samples [][2]curve
 			return nil, errors.New("inv is zero")
 		}
 		diff = diff.Mul(diff, inv)
-		base = base.MulScalar(base, diff)
-		poly = poly.Add(poly, base)
+		poly = poly.Add(poly, Poly.Zero(curveType).MulScalar(base, diff))
 		base = base.Mul(base, Poly.New(curveType, []curve.EccScalar{x.Negate(x), one}))
 	}
 	return poly, nil
-- 
2.43.0


From 7bd66dde0c6460da8e09d92d2ed68486ee29ff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:44 +0000
Subject: [PATCH 13/31] fix: refuse to commit to a polynomial whose higher
 coefficients do not fit

---
 poly/commitment.go |  4 ++--
 poly/poly.go       | 13 +++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 97398d7..3c1bfec 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -140,7 +140,7 @@ func (simpleCommitment) New(points []curve.EccPoint) *SimpleCommitment {
 	return &SimpleCommitment{points: points}
 }
 func (s simpleCommitment) Create(poly *Polynomial, num int) (*SimpleCommitment, error) {
-	if poly.NonZeroCoefficients() > num {
+	if !poly.fitsIn(num) {
 		return nil, errors.New("Polynomial has more coefficients than expected")
 	}
 	points := make([]curve.EccPoint, num, num)
@@ -261,7 +261,7 @@ func (pedersenCommitment) New(points []curve.EccPoint) *PedersenCommitment {
 }
 
 func (p pedersenCommitment) Create(values *Polynomial, masking *Polynomial, num int) (*PedersenCommitment, error) {
-	if values.NonZeroCoefficients() > num || masking.NonZeroCoefficients() > num {
+	if !values.fitsIn(num) || !masking.fitsIn(num) {
 		return nil, errors.New("Polynomial has more coefficients than expected")
 	}
 	points := make([]curve.EccPoint, num, num)
diff --git a/poly/poly.go b/poly/poly.go
index ec71106..604bfb7 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -82,6 +82,19 @@ func (p Polynomial) NonZeroCoefficients() int {
 	}
 	return len(p.coefficients) - zeros
 }
+
+// fitsIn reports whether every coefficient from index num on is zero
+func (p Polynomial) fitsIn(num int) bool {
+	if num < 0 {
+		return false
+	}
+	for i := len(p.coefficients) - 1; i >= num; i-- {
+		if p.coefficients[i].IsZero() != 1 {
+			return false
+		}
+	}
+	return true
+}
 func (p Polynomial) IsZero() int {
 	flag := 0
 	if p.NonZeroCoefficients() == 0 {
-- 
2.43.0


From 497508706447221dcc76a533f15bdad2d33814aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:21 +0000
Subject: [PATCH 14/31] fix: tag serialized Pedersen openings as Pedersen

---
 poly/commitment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 3c1bfec..fdc9870 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -102,7 +102,7 @@ func (p PedersenCommitmentOpening) Serialize() ([]byte, error) {
 	}
 	c := &commitmentOpeningCbor{
 		CurveType:  p[0].CurveType(),
-		CommitType: Simple,
+		CommitType: Pedersen,
 		Message:    data,
 	}
 	return cbor.Marshal(c)
-- 
2.43.0


From 9d22e6ce22fd613f9d019661411515b60dc1ed7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:22 +0000
Subject: [PATCH 15/31] fix: reject malformed serialized commitment openings

---
 poly/commitment.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index fdc9870..d7cd502 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -58,21 +58,44 @@ func (commitmentOpening) Deserialize(data []byte) (CommitmentOpening, error) {
 	case Simple:
 		switch c.CurveType {
 		case curve.K256:
-			o := &SimpleCommitmentOpening{curve.Scalar.Zero(c.CurveType)}
-			cbor.Unmarshal(c.Message, &o)
-			return o, nil
+			scalars, err := deserializeScalars(c.Message, 1)
+			if err != nil {
+				return nil, err
+			}
+			return &SimpleCommitmentOpening{scalars[0]}, nil
 		}
 
 	case Pedersen:
 		switch c.CurveType {
 		case curve.K256:
-			o := &PedersenCommitmentOpening{curve.Scalar.Zero(c.CurveType), curve.Scalar.Zero(c.CurveType)}
-			cbor.Unmarshal(c.Message, &o)
-			return o, nil
+			scalars, err := deserializeScalars(c.Message, 2)
+			if err != nil {
+				return nil, err
+			}
+			return &PedersenCommitmentOpening{scalars[0], scalars[1]}, nil
 		}
 	}
 	return nil, errors.New("unknown commitment type")
 }
+
+// deserializeScalars decodes exactly num scalars
+func deserializeScalars(data []byte, num int) ([]curve.EccScalar, error) {
+	var ss []*curve.Secp256k1Scalar
+	if err := cbor.Unmarshal(data, &ss); err != nil {
+		return nil, err
+	}
+	if len(ss) != num {
+		return nil, errors.New("invalid commitment opening")
+	}
+	scalars := make([]curve.EccScalar, num, num)
+	for i := range scalars {
+		if ss[i] == nil {
+			return nil, errors.New("invalid commitment opening")
+		}
+		scalars[i] = ss[i]
+	}
+	return scalars, nil
+}
 func (commitmentOpening) FromBytes(bytes []byte) (CommitmentOpening, error) {
 	return nil, nil
 }
-- 
2.43.0


From 04b23ead3ea6454c7755a4edbdd41473e9d72319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:23 +0000
Subject: [PATCH 16/31] fix: deserialize Pedersen commitments and reject empty
 or null point lists

---
 poly/commitment.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index d7cd502..886243e 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -430,18 +430,41 @@ func (polynomialCommitment) Deserialize(bytes []byte) (PolynomialCommitment, err
 	case Simple:
 		switch c.CurveType {
 		case curve.K256:
-			var ps []*curve.Secp256k1Point
-			if err := cbor.Unmarshal(c.Message, &ps); err != nil {
+			points, err := deserializePoints(c.Message)
+			if err != nil {
 				return nil, err
 			}
-			points := make([]curve.EccPoint, len(ps), len(ps))
-			for i, _ := range points {
-				points[i] = ps[i]
-			}
 			return &SimpleCommitment{points: points}, nil
 		}
 	case Pedersen:
+		switch c.CurveType {
+		case curve.K256:
+			points, err := deserializePoints(c.Message)
+			if err != nil {
+				return nil, err
+			}
+			return &PedersenCommitment{points: points}, nil
+		}
 	}
 	return nil, errors.New("invalid commitment")
 
 }
+
+// deserializePoints decodes a non-empty list of points
+func deserializePoints(data []byte) ([]curve.EccPoint, error) {
+	var ps []*curve.Secp256k1Point
+	if err := cbor.Unmarshal(data, &ps); err != nil {
+		return nil, err
+	}
+	if len(ps) == 0 {
+		return nil, errors.New("invalid commitment")
+	}
+	points := make([]curve.EccPoint, len(ps), len(ps))
+	for i, _ := range points {
+		if ps[i] == nil {
+			return nil, errors.New("invalid commitment")
+		}
+		points[i] = ps[i]
+	}
+	return points, nil
+}
-- 
2.43.0


From 3a6768d4d20d76afc8b54a50fbd8680c435d4fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:24 +0000
Subject: [PATCH 17/31] fix: check deserialized openings and reject openings of
 the wrong type

---
 poly/commitment.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 886243e..7a73257 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -265,8 +265,13 @@ func (s *SimpleCommitment) EvaluateAt(evalPoint common.NodeIndex) curve.EccPoint
 }
 
 func (s *SimpleCommitment) CheckOpening(evalPoint common.NodeIndex, opening CommitmentOpening) bool {
-	o := opening.(SimpleCommitmentOpening)
-	return s.checkOpening(evalPoint, o[0])
+	switch o := opening.(type) {
+	case SimpleCommitmentOpening:
+		return s.checkOpening(evalPoint, o[0])
+	case *SimpleCommitmentOpening:
+		return s.checkOpening(evalPoint, o[0])
+	}
+	return false
 }
 func (s *SimpleCommitment) checkOpening(evalPoint common.NodeIndex, value curve.EccScalar) bool {
 	eval := s.EvaluateAt(evalPoint)
@@ -387,8 +392,13 @@ func (p *PedersenCommitment) EvaluateAt(evalPoint common.NodeIndex) curve.EccPoi
 	return evaluateAt(p.points, evalPoint)
 }
 func (p *PedersenCommitment) CheckOpening(evalPoint common.NodeIndex, opening CommitmentOpening) bool {
-	o := opening.(PedersenCommitmentOpening)
-	return p.checkOpening(evalPoint, o[0], o[1])
+	switch o := opening.(type) {
+	case PedersenCommitmentOpening:
+		return p.checkOpening(evalPoint, o[0], o[1])
+	case *PedersenCommitmentOpening:
+		return p.checkOpening(evalPoint, o[0], o[1])
+	}
+	return false
 }
 
 func (p *PedersenCommitment) checkOpening(evalPoint common.NodeIndex, value curve.EccScalar, mask curve.EccScalar) bool {
-- 
2.43.0


From 45102cf5ac0e06df57cd7e934e552458cdab1fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:25 +0000
Subject: [PATCH 18/31] fix: tell simple and Pedersen commitments apart in
 Equal

---
 poly/commitment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 7a73257..44fb81e 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -228,7 +228,7 @@ func (s *SimpleCommitment) Len() int {
 	return len(s.points)
 }
 func (s *SimpleCommitment) Equal(other PolynomialCommitment) int {
-	if s.Len() != other.Len() {
+	if s.Type() != other.Type() || s.Len() != other.Len() {
 		return 0
 	}
 	for i := range s.points {
@@ -356,7 +356,7 @@ func (p *PedersenCommitment) Len() int {
 	return len(p.points)
 }
 func (p *PedersenCommitment) Equal(other PolynomialCommitment) int {
-	if p.Len() != other.Len() {
+	if p.Type() != other.Type() || p.Len() != other.Len() {
 		return 0
 	}
 	for i := range p.points {
-- 
2.43.0


From c24a8d89e02f7d26c5f435cb455dc30ea22e7156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:25 +0000
Subject: [PATCH 19/31] fix: accept random oracle inputs up to the 32 bit
 length they are encoded with

---
 ro/ro.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ro/ro.go b/ro/ro.go
index 78ee0b3..1f9a4f2 100644
--- a/ro/ro.go
+++ b/ro/ro.go
@@ -42,7 +42,7 @@ func (r *RandomOracle) AddInput(name string, input []byte, ty RandomOracleInputT
 		return errors.New("invalid name length")
 	}
 
-	if len(input) > math.MaxUint8 {
+	if len(input) > math.MaxUint32 {
 		return errors.New("invalid input length")
 	}
 	var encodedInput []byte
-- 
2.43.0


From 86e90721e12d23a6923804f618f18c88dd31414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:26 +0000
Subject: [PATCH 20/31] fix: report random oracle input errors instead of
 hashing without the input

---
 complaints/complaints.go | 16 ++++++++++++----
 mega/mega.go             | 36 +++++++++++++++++++++++++++---------
 sign/sign.go             | 16 ++++++++++++----
 zk/dlog.go               | 31 ++++++++++++++++++++++++-------
 zk/equal_opening.go      | 24 ++++++++++++++++++------
 zk/product.go            | 32 ++++++++++++++++++++++++--------
 6 files changed, 117 insertions(+), 38 deletions(-)

diff --git a/complaints/complaints.go b/complaints/complaints.go
index 793374f..0f34ea7 100644
--- a/complaints/complaints.go
+++ b/complaints/complaints.go
@@ -61,10 +61,18 @@ func NewComplaintInternal(seed *seed.Seed, dealing *dealings.IDkgDealingInternal
 
 func createProofAssocData(ad []byte, receiverIndex common.NodeIndex, dealerIndex common.NodeIndex, publicKey *mega.MEGaPublicKey) ([]byte, error) {
 	ro := ro2.NewRandomOracle("ic-crypto-tecdsa-complaint-proof-assoc-data")
-	ro.AddBytesString("associated_data", ad)
-	ro.AddUint32("receiver_index", uint32(receiverIndex))
-	ro.AddUint32("dealer_index", uint32(dealerIndex))
-	ro.AddPoint("receiver_public_key", publicKey.PublicPoint())
+	if err := ro.AddBytesString("associated_data", ad); err != nil {
+		return nil, err
+	}
+	if err := ro.AddUint32("receiver_index", uint32(receiverIndex)); err != nil {
+		return nil, err
+	}
+	if err := ro.AddUint32("dealer_index", uint32(dealerIndex)); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("receiver_public_key", publicKey.PublicPoint()); err != nil {
+		return nil, err
+	}
 	return ro.OutputByteString(32)
 }
 
diff --git a/mega/mega.go b/mega/mega.go
index b8d2cfc..e07048e 100644
--- a/mega/mega.go
+++ b/mega/mega.go
@@ -20,12 +20,24 @@ func megaHashToScalars(ctype MEGaCiphertextType, dealerIndex common.NodeIndex, r
 		count = 2
 	}
 	ro := ro2.NewRandomOracle(ctype.EncryptionDomainSep())
-	ro.AddUint32("dealer_index", uint32(dealerIndex))
-	ro.AddUint32("recipient_index", uint32(recipientIndex))
-	ro.AddBytesString("associated_data", associatedData)
-	ro.AddPoint("public_key", publicKey)
-	ro.AddPoint("ephemeral_key", ephemeralKey)
-	ro.AddPoint("shared_secret", sharedSecret)
+	if err := ro.AddUint32("dealer_index", uint32(dealerIndex)); err != nil {
+		return nil, err
+	}
+	if err := ro.AddUint32("recipient_index", uint32(recipientIndex)); err != nil {
+		return nil, err
+	}
+	if err := ro.AddBytesString("associated_data", associatedData); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("public_key", publicKey); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("ephemeral_key", ephemeralKey); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("shared_secret", sharedSecret); err != nil {
+		return nil, err
+	}
 	return ro.OutputScalars(curveType, count)
 }
 
@@ -36,9 +48,15 @@ func megaHashToScalars(ctype MEGaCiphertextType, dealerIndex common.NodeIndex, r
 /// log of the ephemeral key.
 func ComputePopBase(ctype MEGaCiphertextType, curveType curve.EccCurveType, ad []byte, dealerIndex common.NodeIndex, ephemeralKey curve.EccPoint) (curve.EccPoint, error) {
 	ro := ro2.NewRandomOracle(ctype.PopBaseDomainSep())
-	ro.AddBytesString("associated_data", ad)
-	ro.AddUint32("dealer_index", uint32(dealerIndex))
-	ro.AddPoint("ephemeral_key", ephemeralKey)
+	if err := ro.AddBytesString("associated_data", ad); err != nil {
+		return nil, err
+	}
+	if err := ro.AddUint32("dealer_index", uint32(dealerIndex)); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("ephemeral_key", ephemeralKey); err != nil {
+		return nil, err
+	}
 	return ro.OutputPoint(curveType)
 }
 
diff --git a/sign/sign.go b/sign/sign.go
index 5959ea4..d3c85df 100644
--- a/sign/sign.go
+++ b/sign/sign.go
@@ -33,10 +33,18 @@ func DeriveRho(curveType curve.EccCurveType, hashedMsg []byte, randomness []byte
 		return nil, nil, nil, nil, err
 	}
 	ro := ro2.NewRandomOracle("ic-crypto-tecdsa-rerandomize-presig")
-	ro.AddBytesString("randomness", randomness)
-	ro.AddBytesString("hashed_message", hashedMsg)
-	ro.AddPoint("pre_sig", preSig)
-	ro.AddScalar("key_tweak", keyTweak)
+	if err := ro.AddBytesString("randomness", randomness); err != nil {
+		return nil, nil, nil, nil, err
+	}
+	if err := ro.AddBytesString("hashed_message", hashedMsg); err != nil {
+		return nil, nil, nil, nil, err
+	}
+	if err := ro.AddPoint("pre_sig", preSig); err != nil {
+		return nil, nil, nil, nil, err
+	}
+	if err := ro.AddScalar("key_tweak", keyTweak); err != nil {
+		return nil, nil, nil, nil, err
+	}
 	randomizer, err := ro.OutputScalar(curveType)
 	if err != nil {
 		return nil, nil, nil, nil, err
diff --git a/zk/dlog.go b/zk/dlog.go
index 56340d1..c167632 100644
--- a/zk/dlog.go
+++ b/zk/dlog.go
@@ -58,13 +58,27 @@ func (p *ProofOfDLogEquivalenceInstance) RecoverCommitments(proof *ProofOfDLogEq
 
 func (p *ProofOfDLogEquivalenceInstance) HashToChallenge(c1 curve.EccPoint, c2 curve.EccPoint, associatedData []byte) (curve.EccScalar, error) {
 	ro := ro2.NewRandomOracle(ProofOfDlogEquivDst)
-	ro.AddBytesString("associated_data", associatedData)
-	ro.AddPoint("instance_g", p.g)
-	ro.AddPoint("instance_h", p.h)
-	ro.AddPoint("instance_g_x", p.gx)
-	ro.AddPoint("instance_h_x", p.hx)
-	ro.AddPoint("commitment1", c1)
-	ro.AddPoint("commitment2", c2)
+	if err := ro.AddBytesString("associated_data", associatedData); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("instance_g", p.g); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("instance_h", p.h); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("instance_g_x", p.gx); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("instance_h_x", p.hx); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("commitment1", c1); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("commitment2", c2); err != nil {
+		return nil, err
+	}
 	return ro.OutputScalar(p.curveType)
 }
 
@@ -85,6 +99,9 @@ func (p *proofOfDLogEquivalenceInstance) Create(seed *seed.Seed, x curve.EccScal
 	rG := g.Clone().ScalarMul(g, r)
 	rH := h.Clone().ScalarMul(h, r)
 	challenge, err := instance.HashToChallenge(rG, rH, associatedData)
+	if err != nil {
+		return nil, err
+	}
 	response := x.Clone().Mul(x, challenge)
 	response = response.Add(response, r)
 	return &ProofOfDLogEquivalence{
diff --git a/zk/equal_opening.go b/zk/equal_opening.go
index f128bef..1b83fcd 100644
--- a/zk/equal_opening.go
+++ b/zk/equal_opening.go
@@ -101,12 +101,24 @@ func (p *ProofOfEqualOpeningsInstance) RecoverCommitments(proof *ProofOfEqualOpe
 
 func (p *ProofOfEqualOpeningsInstance) HashToChallenge(commitment curve.EccPoint, ad []byte) (curve.EccScalar, error) {
 	ro := ro2.NewRandomOracle(ProofOfEqualOpeningsDst)
-	ro.AddBytesString("associated_data", ad)
-	ro.AddPoint("instance_g", p.g)
-	ro.AddPoint("instance_h", p.h)
-	ro.AddPoint("instance_a", p.a)
-	ro.AddPoint("instance_b", p.b)
-	ro.AddPoint("commitment", commitment)
+	if err := ro.AddBytesString("associated_data", ad); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("instance_g", p.g); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("instance_h", p.h); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("instance_a", p.a); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("instance_b", p.b); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("commitment", commitment); err != nil {
+		return nil, err
+	}
 	return ro.OutputScalar(p.curveType)
 }
 
diff --git a/zk/product.go b/zk/product.go
index 62d5979..9974aaa 100644
--- a/zk/product.go
+++ b/zk/product.go
@@ -90,14 +90,30 @@ func (p *proofOfProductInstance) Create(seed *seed.Seed, lhs curve.EccScalar, rh
 
 func (p ProofOfProductInstance) HashToChallenge(c1 curve.EccPoint, c2 curve.EccPoint, associatedData []byte) (curve.EccScalar, error) {
 	ro := ro2.NewRandomOracle(ProofOfEqualOpeningsDst)
-	ro.AddBytesString("associated_data", associatedData)
-	ro.AddPoint("instance_g", p.g)
-	ro.AddPoint("instance_h", p.h)
-	ro.AddPoint("instance_lhs", p.lhsCom)
-	ro.AddPoint("instance_rhs", p.rhsCom)
-	ro.AddPoint("instance_product", p.productCom)
-	ro.AddPoint("commitment1", c1)
-	ro.AddPoint("commitment2", c2)
+	if err := ro.AddBytesString("associated_data", associatedData); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("instance_g", p.g); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("instance_h", p.h); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("instance_lhs", p.lhsCom); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("instance_rhs", p.rhsCom); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("instance_product", p.productCom); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("commitment1", c1); err != nil {
+		return nil, err
+	}
+	if err := ro.AddPoint("commitment2", c2); err != nil {
+		return nil, err
+	}
 	return ro.OutputScalar(p.curveType)
 }
 
-- 
2.43.0


From 97c12d8abef80a98baeed653efb4f890806648ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:27 +0000
Subject: [PATCH 21/31] fix: separate the product proof challenge from the
 equal openings one

---
 zk/product.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zk/product.go b/zk/product.go
index 9974aaa..fcaaeab 100644
--- a/zk/product.go
+++ b/zk/product.go
@@ -89,7 +89,7 @@ func (p *proofOfProductInstance) Create(seed *seed.Seed, lhs curve.EccScalar, rh
 }
 
 func (p ProofOfProductInstance) HashToChallenge(c1 curve.EccPoint, c2 curve.EccPoint, associatedData []byte) (curve.EccScalar, error) {
-	ro := ro2.NewRandomOracle(ProofOfEqualOpeningsDst)
+	ro := ro2.NewRandomOracle(ProofOfProductDst)
 	if err := ro.AddBytesString("associated_data", associatedData); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 376515e0f53324965782625262dfdfe71f5f8b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:28 +0000
Subject: [PATCH 22/31] fix: build usable secret shares from an unmasked
 opening

---
 dealings/secret_shares.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dealings/secret_shares.go b/dealings/secret_shares.go
index 255558d..795071e 100644
--- a/dealings/secret_shares.go
+++ b/dealings/secret_shares.go
@@ -41,7 +41,7 @@ func (secretShares) From(cob1 poly.CommitmentOpeningBytes, cob2 poly.CommitmentO
 	switch cm1 := cob1.(type) {
 	case *poly.SimpleCommitmentOpeningBytes:
 		if cob2 == nil {
-			share = ReshareOfUnmaskedSecret{S1: cm1[0].ToScalar()}
+			share = &ReshareOfUnmaskedSecret{S1: cm1[0].ToScalar()}
 		} else {
 			if p, ok := cob2.(*poly.PedersenCommitmentOpeningBytes); ok {
 				s1 := cm1[0].ToScalar()
@@ -60,6 +60,8 @@ func (secretShares) From(cob1 poly.CommitmentOpeningBytes, cob2 poly.CommitmentO
 			return nil, errors.New("inconsistent combination of commitment types")
 		}
 		share = &ReshareOfMaskedSecret{S1: cm1[0].ToScalar(), S2: cm1[1].ToScalar()}
+	default:
+		return nil, errors.New("inconsistent combination of commitment types")
 	}
 	return share, nil
 }
-- 
2.43.0


From 8f68f92bd257a7294a9a53d899ca336ee1f57c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:29 +0000
Subject: [PATCH 23/31] fix: refuse to create dealings from bad thresholds,
 unknown shares or failed proofs

---
 dealings/dealings.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index 0f24024..c3a5d43 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -58,7 +58,7 @@ type IDkgDealingInternal struct {
 }
 
 func NewIDkgDealingInternal(shares SecretShares, curveType curve.EccCurveType, seed *seed.Seed, threshold int, recipients []*mega.MEGaPublicKey, dealerIndex common.NodeIndex, ad []byte) (*IDkgDealingInternal, error) {
-	if threshold == 0 || threshold > len(recipients) {
+	if threshold <= 0 || threshold > len(recipients) {
 		return nil, errors.New("invalid threshold")
 	}
 
@@ -108,11 +108,19 @@ func NewIDkgDealingInternal(shares SecretShares, curveType curve.EccCurveType, s
 			return nil, err
 		}
 		mask, err := poly2.Poly.RandomWithConstant(productMasking, numCoefficients, polyRng)
+		if err != nil {
+			return nil, err
+		}
 		if ciphertext, commitment, err = EncryptAndCommitPairPolynomial(values, mask, numCoefficients, recipients, dealerIndex, ad, megaSeed); err != nil {
 			return nil, err
 		}
 		pf, err := zk.ProofOfProductIns.Create(seed.Derive(zk.ProofOfProductDst), s.Left, s.Right[0], s.Right[1], product, productMasking, ad)
+		if err != nil {
+			return nil, err
+		}
 		proof = &ProductProof{pf}
+	default:
+		return nil, errors.New("unexpected secret shares")
 	}
 
 	return &IDkgDealingInternal{ciphertext, commitment, proof}, nil
-- 
2.43.0


From 6064b93f5cece9946a0fda110f7d948b099c92e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:30 +0000
Subject: [PATCH 24/31] fix: reject product dealings without a proof instead of
 panicking

---
 dealings/dealings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index c3a5d43..dc3cc5f 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -172,7 +172,7 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 				return errors.New("invalid commitment")
 			}
 		}
-	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof.Type() == ProofOfProduct {
+	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof != nil && dealing.Proof.Type() == ProofOfProduct {
 		if err := dealing.Commitment.VerifyIs(poly2.Pedersen, curveType); err != nil {
 			return err
 		}
-- 
2.43.0


From 2ce1d03c5d497dacf2d3bdd90853f3c82fb96734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:30 +0000
Subject: [PATCH 25/31] fix: reject unknown transcript operations and dealings
 of the wrong commitment type

---
 dealings/transcript.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dealings/transcript.go b/dealings/transcript.go
index d0f517e..30b53a4 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -35,6 +35,11 @@ func CombineCommitmentsViaInterpolation(commitmentType poly.PolynomialCommitment
 		return nil, err
 	}
 	combined := make([]curve.EccPoint, 0, reconstructionThreshold)
+	for _, commitment := range commitments {
+		if commitment.Type() != commitmentType {
+			return nil, errors.New("unexpected commitment type")
+		}
+	}
 	for i := 0; i < reconstructionThreshold; i++ {
 		values := make([]curve.EccPoint, 0, len(commitments))
 		for _, commitment := range commitments {
@@ -118,6 +123,8 @@ func NewTranscriptInternal(curveType curve.EccCurveType, reconstructionThreshold
 		if err != nil {
 			return nil, err
 		}
+	default:
+		return nil, errors.New("unexpected transcript operation")
 	}
 	return &IDkgTranscriptInternal{CombinedCommitment: combinedCommitment}, nil
 }
-- 
2.43.0


From 7d8c7a9afff38e8287cc6b850fe93019f6a674f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:31 +0000
Subject: [PATCH 26/31] fix: compare with the other transcript

---
 dealings/transcript_operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dealings/transcript_operation.go b/dealings/transcript_operation.go
index e2eeb5a..b85efe2 100644
--- a/dealings/transcript_operation.go
+++ b/dealings/transcript_operation.go
@@ -18,6 +18,6 @@ func (t IDkgTranscriptInternal) EvaluateAt(evalPoint common.NodeIndex) curve.Ecc
 }
 func (t IDkgTranscriptInternal) Compare(other IDkgTranscriptInternal) int {
 	lhs := t.CombinedCommitment.StableRepresentation()
-	rhs := t.CombinedCommitment.StableRepresentation()
+	rhs := other.CombinedCommitment.StableRepresentation()
 	return bytes.Compare(lhs, rhs)
 }
-- 
2.43.0


From eda5a56c92343eb1347ab737ada6a7a791173017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:32 +0000
Subject: [PATCH 27/31] fix: check both openings of a signature share against
 the transcripts

---
 sign/share.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/sign/share.go b/sign/share.go
index d527dc1..ea37092 100644
--- a/sign/share.go
+++ b/sign/share.go
@@ -69,18 +69,22 @@ func (t ThresholdEcdsaSigShareInternal) Verify(derivationPath *key.DerivationPat
 	kappaTimesLambdaJ := kappaTimesLambda.EvaluateAt(signerIndex)
 	keyTimesLambdaJ := keyTimesLambda.EvaluateAt(signerIndex)
 	sigmaNum := lambdaj.Clone().ScalarMul(lambdaj, theta)
-	sigmaNum = sigmaNum.AddPoints(sigmaNum, keyTimesLambdaJ.Clone().ScalarMul(kappaTimesLambdaJ, rho))
+	sigmaNum = sigmaNum.AddPoints(sigmaNum, keyTimesLambdaJ.Clone().ScalarMul(keyTimesLambdaJ, rho))
 	sigmaDen := lambdaj.Clone().ScalarMul(lambdaj, randomizer)
 	sigmaDen = sigmaDen.AddPoints(sigmaDen, kappaTimesLambdaJ)
-	if k, ok := t.sigmaNumerator.(*poly2.PedersenCommitmentOpening); ok {
-		if sigmaNum.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
-			return errors.New("invalid commitment")
-		}
+	num, ok := t.sigmaNumerator.(poly2.PedersenCommitmentOpening)
+	if !ok {
+		return errors.New("unexpected commitment type")
 	}
-	if k, ok := t.sigmaDenominator.(*poly2.PedersenCommitmentOpening); ok {
-		if sigmaNum.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
-			return errors.New("invalid commitment")
-		}
+	if sigmaNum.Equal(curve.Point.Pedersen(num[0], num[1])) != 1 {
+		return errors.New("invalid commitment")
+	}
+	den, ok := t.sigmaDenominator.(poly2.PedersenCommitmentOpening)
+	if !ok {
+		return errors.New("unexpected commitment type")
+	}
+	if sigmaDen.Equal(curve.Point.Pedersen(den[0], den[1])) != 1 {
+		return errors.New("invalid commitment")
 	}
 	return nil
 }
-- 
2.43.0


From 7a284d0fb190c22934df4a3d9abc940809bc5456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:32 +0000
Subject: [PATCH 28/31] fix: refuse to sign with openings that are not Pedersen

---
 sign/share.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sign/share.go b/sign/share.go
index ea37092..9d3981c 100644
--- a/sign/share.go
+++ b/sign/share.go
@@ -24,12 +24,11 @@ func NewThresholdEcdsaSigShareInternal(derivationPath *key.DerivationPath, hashe
 		return nil, err
 	}
 	theta := e.Add(e, rho.Clone().Mul(rho, keyTweak))
-	var lambdaValue curve.EccScalar
-	var lambdaMask curve.EccScalar
-	if l, ok := lambda.(poly2.PedersenCommitmentOpening); ok {
-		lambdaValue = l[0]
-		lambdaMask = l[1]
+	l, ok := lambda.(poly2.PedersenCommitmentOpening)
+	if !ok {
+		return nil, errors.New("unexpected commitment type")
 	}
+	lambdaValue, lambdaMask := l[0], l[1]
 	var nu poly2.CommitmentOpening
 	if k, ok := keyTimesLambda.(poly2.PedersenCommitmentOpening); ok {
 		nuValue := theta.Clone().Mul(theta, lambdaValue)
@@ -37,6 +36,8 @@ func NewThresholdEcdsaSigShareInternal(derivationPath *key.DerivationPath, hashe
 		nuMask := theta.Clone().Mul(theta, lambdaMask)
 		nuMask = nuMask.Add(nuMask, rho.Clone().Mul(rho, k[1]))
 		nu = poly2.PedersenCommitmentOpening{nuValue, nuMask}
+	} else {
+		return nil, errors.New("unexpected commitment type")
 	}
 
 	var mu poly2.CommitmentOpening
@@ -46,6 +47,8 @@ func NewThresholdEcdsaSigShareInternal(derivationPath *key.DerivationPath, hashe
 		muMask := randomizer.Clone().Mul(randomizer, lambdaMask)
 		muMask = muMask.Add(muMask, k[1])
 		mu = poly2.PedersenCommitmentOpening{muValue, muMask}
+	} else {
+		return nil, errors.New("unexpected commitment type")
 	}
 	return &ThresholdEcdsaSigShareInternal{
 		sigmaNumerator:   nu,
-- 
2.43.0


From 47dbc8fc2cc170bc8aa460fa82c781c66e7089fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:33 +0000
Subject: [PATCH 29/31] fix: use the key derived at the next index when the
 first is unusable

---
 key/key_derivation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/key/key_derivation.go b/key/key_derivation.go
index 9c45197..d4fabd5 100644
--- a/key/key_derivation.go
+++ b/key/key_derivation.go
@@ -84,7 +84,7 @@ func ckdpub(pk curve.EccPoint, chainKey []byte, index DerivationIndex) (curve.Ec
 	newChainKey := output[32:]
 	newKey := pk.Clone().AddPoints(pk, curve.Point.MulByG(keyOffset))
 	if !bytes.Equal(keyOffset.Serialize(), output[:32]) || newKey.IsInfinity() {
-		ckdpub(pk, chainKey, index.Next())
+		return ckdpub(pk, chainKey, index.Next())
 	}
 	return newKey, newChainKey, keyOffset, nil
 }
-- 
2.43.0


From 9d605770bca61055b26881fe2ed576a2ac9c5c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:34 +0000
Subject: [PATCH 30/31] fix: fill buffers with the key stream whatever they
 held before

---
 rand/chacha20.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rand/chacha20.go b/rand/chacha20.go
index 7791a4c..e395142 100644
--- a/rand/chacha20.go
+++ b/rand/chacha20.go
@@ -33,6 +33,9 @@ func (c ChaCha20) Uint64() uint64 {
 }
 
 func (c *ChaCha20) FillUint8(res []uint8) {
+	for i := range res {
+		res[i] = 0
+	}
 	c.cipher.XORKeyStream(res, res)
 }
 
-- 
2.43.0


From 61294f4ac8b2324c3ec350eefb50865c447ea96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:14 +0000
Subject: [PATCH 31/31] fix: invert zero to zero whatever the receiver held

---
 curve/k256_fe.go     | 4 +++-
 curve/k256_scalar.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/curve/k256_fe.go b/curve/k256_fe.go
index da9a8d6..d947083 100644
--- a/curve/k256_fe.go
+++ b/curve/k256_fe.go
@@ -137,7 +137,9 @@ func (s *Secp256k1Field) CAssign(other EccFieldElement, choice int) {
 }
 
 func (s *Secp256k1Field) Invert(other EccFieldElement) EccFieldElement {
-	s.field.Invert(other.(*Secp256k1Field).field)
+	if _, ok := s.field.Invert(other.(*Secp256k1Field).field); !ok {
+		s.field.SetZero()
+	}
 	return s
 }
 
diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index 88f1274..442ec9d 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -87,7 +87,9 @@ func (s *Secp256k1Scalar) Mul(lhs, rhs EccScalar) EccScalar {
 
 func (s *Secp256k1Scalar) Invert(other EccScalar) EccScalar {
 	o := other.(*Secp256k1Scalar)
-	s.scalar.Invert(o.scalar)
+	if _, ok := s.scalar.Invert(o.scalar); !ok {
+		s.scalar.SetZero()
+	}
 	return s
 }
 
-- 
2.43.0

