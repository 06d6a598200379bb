// ---- curve types ----
def qq() = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
def pp() = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F
// the encodings of scalars and field elements: 32 bytes, big-endian, below the modulus
def senc(v) = i2b(v, 32)
def issc(b) = blen(b) == 32 && b2i(b) < qq()
def isfe(b) = blen(b) == 32 && b2i(b) < pp()

func curve.FromTag(tag) (r)
 prop C03
 ensures r == if(tag == 1, 1, 0)
func (e curve.EccCurveType) Tag() (r)
 prop C03
 ensures r == if(e == 1, 1, 0)
func (e curve.EccCurveType) ScalarBits() (r)
 ensures r == if(e == 1, 256, 0)
func (e curve.EccCurveType) FieldBits() (r)
 ensures r == if(e == 1, 256, 0)
func (e curve.EccCurveType) ScalarBytes() (r)
 ensures r == if(e == 1, 32, 0)
func (e curve.EccCurveType) FieldBytes() (r)
 ensures r == if(e == 1, 32, 0)
func (e curve.EccCurveType) PointBytes() (r)
 ensures r == if(e == 1, 33, 1)
func (e curve.EccCurveType) SecurityLevel() (r)
 ensures r == if(e == 1, 128, 0)
func (e curve.EccCurveType) String() (r)
 ensures r == if(e == 1, "secp256k1", "")

// ---- scalars ----
func (k curve.EccK256Scalar) Deserialize(b) (r, err)
 prop C03
 fresh r
 ensures err == nil <==> issc(bytes(b))
 ensures err == nil ==> V(r) == b2i(bytes(b))
func (k curve.EccK256Scalar) Zero() (r)
 fresh r
 ensures V(r) == 0
func (k curve.EccK256Scalar) One() (r)
 fresh r
 ensures V(r) == 1
func (k curve.EccK256Scalar) FromUint64(n) (r)
 fresh r
 ensures V(r) == n
func (k curve.EccK256Scalar) FromWideBytes(b) (r)
 prop C03
 requires len(b) <= 64
 fresh r
 ensures V(r) == redq(b2i(bytes(b)))
func (s curve.Secp256k1Scalar) Serialize() (r)
 prop C03
 fresh r
 ensures bytes(r) == senc(V(s))
func (s curve.Secp256k1Scalar) SerializeTagged() (r)
 prop C03
 fresh r
 ensures bytes(r) == bcat(b1(1), senc(V(s)))
func (s curve.Secp256k1Scalar) BigInt() (r)
 prop C03
 fresh r
 ensures BV(r) == V(s)

func (s curve.scalar) Deserialize(curve, b) (r, err)
 prop C03
 fresh r
 ensures err == nil <==> curve == 1 && issc(bytes(b))
 ensures err == nil ==> V(r) == b2i(bytes(b))
func (s curve.scalar) DeserializeTagged(b) (r, err)
 prop C03
 fresh r
 ensures err == nil <==> len(b) == 33 && bat(bytes(b), 0) == 1 && b2i(bsub(bytes(b), 1, 32)) < qq()
 ensures err == nil ==> V(r) == b2i(bsub(bytes(b), 1, 32))
func (s curve.scalar) FromBytesWide(curve, b) (r, err)
 prop C03
 requires curve == 1
 fresh r
 ensures err == nil <==> len(b) <= 64
 ensures err == nil ==> V(r) == redq(b2i(bytes(b)))
func (s curve.scalar) Zero(curve) (r)
 prop C01
 requires curve == 1
 fresh r
 ensures V(r) == 0
func (s curve.scalar) One(curve) (r)
 prop C01
 requires curve == 1
 fresh r
 ensures V(r) == 1
func (s curve.scalar) FromUint64(curve, n) (r)
 prop C01
 requires curve == 1
 fresh r
 ensures V(r) == n
func (s curve.scalar) FromNodeIndex(curve, index) (r)
 prop C01
 requires curve == 1 && 0 <= index
 fresh r
 ensures V(r) == index + 1
func (s curve.scalar) ToScalarBytes(scalar) (r)
 prop C03
 ensures r is curve.Secp256K1ScalarBytes
 ensures r as curve.Secp256K1ScalarBytes == senc(V(scalar))
func (s curve.Secp256K1ScalarBytes) ScalarBytes() (r)
 prop C03
 ensures bytes(r) == s
func (s curve.Secp256K1ScalarBytes) ToScalar() (r)
 prop C03
 panics !issc(s)
 fresh r
 ensures V(r) == b2i(s)
func (s curve.Secp256K1ScalarBytes) CurveType() (r)
 prop C03
 ensures r == 1

// ---- base field elements ----
func (e curve.EccK256Field) FromBytes(b) (r, err)
 prop C03
 fresh r
 ensures err == nil <==> isfe(bytes(b))
 ensures err == nil ==> R(r) == b2i(bytes(b))
func (e curve.EccK256Field) FromBytesWide(b) (r)
 prop C03
 requires len(b) <= 64
 fresh r
 ensures R(r) == redp(b2i(bytes(b)))
func (f curve.field) FromBytes(curve, b) (r, err)
 prop C03
 requires curve == 1
 fresh r
 ensures err == nil <==> isfe(bytes(b))
 ensures err == nil ==> R(r) == b2i(bytes(b))
func (f curve.field) FromBytesWide(curve, b) (r, err)
 prop C03
 requires curve == 1
 fresh r
 ensures err == nil <==> len(b) <= 64
 ensures err == nil ==> R(r) == redp(b2i(bytes(b)))
extern (x *big.Int) Bytes() (r)
 fresh r
 requires BV(x) >= 0
 ensures i2b(BV(x), len(r)) == bytes(r) && b2i(bytes(r)) == BV(x)
 ensures BV(x) < 0x10000000000000000000000000000000000000000000000000000000000000000 ==> len(r) <= 32
 why math/big: big-endian bytes of the absolute value, without leading zeros
func (s curve.Secp256k1Field) AsBytes() (r)
 prop C03
 fresh r
 ensures bytes(r) == i2b(R(s), 32)
