// ---- points ----
func (s *curve.Secp256k1Point) AddPoints(lhs, rhs) (r)
 prop C02
 modifies P(s)
 ensures r == s
 ensures P(s) == redq(old(P(lhs)) + old(P(rhs)))
func (s *curve.Secp256k1Point) SubPoints(lhs, rhs) (r)
 prop C02
 modifies P(s)
 ensures r == s
 ensures P(s) == redq(old(P(lhs)) - old(P(rhs)))
func (s *curve.Secp256k1Point) Double(other) (r)
 prop C02
 modifies P(s)
 ensures r == s
 ensures P(s) == redq(2 * old(P(other)))
func (s *curve.Secp256k1Point) ScalarMul(other, scalar) (r)
 prop C02
 modifies P(s)
 ensures r == s
 ensures P(s) == redq(old(P(other)) * V(scalar))
func (s *curve.Secp256k1Point) Assign(o) (r)
 prop C02
 modifies P(s)
 ensures r == s
 ensures P(s) == old(P(o))
func (s *curve.Secp256k1Point) LinComb(pt1, scalar1, pt2, scalar2) (r)
 prop C02
 modifies P(s)
 ensures r == s
 ensures P(s) == redq(old(P(pt1)) * V(scalar1) + old(P(pt2)) * V(scalar2))
func (s *curve.Secp256k1Point) MulByNodeIndex(scalar) (r)
 prop C02
 requires 0 <= scalar && scalar < 0x7FFFFFFFFFFFFFFF
 fresh r
 ensures P(r) == redq(P(s) * (scalar + 1))
 loop 1
  invariant fresh(res)
  invariant 0 <= b && b <= bits
  invariant P(res) == redq(shr(s64, bits - b) * P(s))
  use shr_step(s64, bits - b)
  use mul_step(shr(s64, bits - b - 1), shr(s64, bits - b), mod(shr(s64, bits - b - 1), 2), P(s))
  use shr_zero(s64)
  use lz64_top(s64)
  use mul_sum(shr(s64, bits - b), scalar, 1, P(s))
 end
func (s curve.Secp256k1Point) Clone() (r)
 prop C02
 fresh r
 ensures P(r) == P(s)
func (s curve.Secp256k1Point) Equal(o) (r)
 prop C02
 ensures r == if(P(s) == P(o), 1, 0)
func (s curve.Secp256k1Point) IsInfinity() (r)
 prop C02
 ensures r <==> P(s) == 0
func (s curve.Secp256k1Point) CurveType() (r)
 prop C02
 ensures r == 1
func (s curve.Secp256k1Point) AffineX() (r)
 prop C02
 fresh r
 ensures R(r) == ptx(P(s))
func (s curve.Secp256k1Point) AffineY() (r)
 prop C02
 fresh r
 ensures R(r) == pty(P(s))
func (e curve.EccK256Point) NewK256() (r)
 fresh r
 ensures P(r) == 0
func (e curve.EccK256Point) NewK256G() (r)
 fresh r
 ensures P(r) == 1
func (e curve.EccK256Point) Identity() (r)
 fresh r
 ensures P(r) == 0
func (p curve.point) Identity(curve) (r)
 prop C02
 requires curve == 1
 fresh r
 ensures P(r) == 0
func (p curve.point) GeneratorG(curve) (r)
 prop C02
 requires curve == 1
 fresh r
 ensures P(r) == 1
func (p curve.point) GeneratorH(curve) (r)
 prop C02
 requires curve == 1
 fresh r
 ensures P(r) == genH()
func (p curve.point) MulPoints(pt1, scalar1, pt2, scalar2) (r)
 prop C02
 fresh r
 ensures P(r) == redq(P(pt1) * V(scalar1) + P(pt2) * V(scalar2))
func (p curve.point) Pedersen(scalar1, scalar2) (r)
 prop C02
 fresh r
 ensures P(r) == redq(V(scalar1) + genH() * V(scalar2))
func (p curve.point) MulByG(scalar) (r)
 prop C02
 fresh r
 ensures P(r) == V(scalar)
// the second generator is the fixed point with this encoding
global isenc(unhex("037bdcfc024cf697a41fd3cda2436c843af5669e50042be3314a532d5b70572f59"))
global dec(unhex("037bdcfc024cf697a41fd3cda2436c843af5669e50042be3314a532d5b70572f59")) == genH()

// ---- point encodings ----
func (s curve.Secp256k1Point) Serialize() (r)
 prop C04
 fresh r
 ensures bytes(r) == enc(P(s))
func (s curve.Secp256k1Point) SerializeTagged() (r)
 prop C04
 fresh r
 ensures bytes(r) == bcat(b1(1), enc(P(s)))
func (s curve.Secp256k1Point) SerializeUncompressed() (r)
 prop C04
 fresh r
 ensures bytes(r) == encu(P(s))
func (e curve.EccK256Point) Deserialize(bytes) (r, err)
 prop C04
 fresh r
 ensures err == nil <==> isany(bytes(bytes))
 ensures err == nil ==> P(r) == decany(bytes(bytes))
func (p curve.point) DeserializeAnyFormat(curve, bytes) (r, err)
 prop C04
 fresh r
 ensures err == nil <==> curve == 1 && isany(bytes(bytes))
 ensures err == nil ==> P(r) == decany(bytes(bytes))
func (p curve.point) Deserialize(curve, bytes) (r, err)
 prop C04
 fresh r
 ensures err == nil <==> curve == 1 && isenc(bytes(bytes))
 ensures err == nil ==> P(r) == dec(bytes(bytes))
 loop 1
  invariant forall k in [0, it) {bat(bytes(bytes), k)} :: bat(bytes(bytes), k) == 0
 end
func (p curve.point) DeserializeTagged(curve, bytes) (r, err)
 prop C04
 fresh r
 ensures err == nil <==> len(bytes) == 34 && bat(bytes(bytes), 0) == 1 && isenc(bsub(bytes(bytes), 1, 33))
 ensures err == nil ==> P(r) == dec(bsub(bytes(bytes), 1, 33))
func (p curve.point) FromFieldElems(x, y) (r, err)
 prop C04
 fresh r
 ensures err == nil <==> oncurve(R(x), R(y))
 ensures err == nil ==> P(r) == ptxyz(R(x), R(y), 1)
