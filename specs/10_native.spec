// Values held by the dependency's field elements and points, and by the repository's wrappers around them.
ghost FV (Array Int Int)   // native.Field value
ghost FM (Array Int Int)   // native.Field modulus: 1 group order, 2 base field
ghost GV (Array Int Int)   // native.EllipticPoint: discrete logarithm to the generator
ghost SV (Array Int Int)   // Secp256k1Scalar
ghost RV (Array Int Int)   // Secp256k1Field
ghost PV (Array Int Int)   // Secp256k1Point
ghost BV (Array Int Int)   // big.Int

extern fq.K256FqNew() (r)
 fresh r
 ensures FM(r) == 1
 ensures FV(r) == 0
 why kryptology fq.K256FqNew: a new zero element modulo the group order
extern fp.K256FpNew() (r)
 fresh r
 ensures FM(r) == 2
 ensures FV(r) == 0
 why kryptology fp.K256FpNew: a new zero element modulo the field prime

extern (f *native.Field) SetZero() (r)
 modifies FV(f)
 ensures r == f
 ensures FV(f) == 0
 why kryptology native.Field.SetZero
extern (f *native.Field) SetOne() (r)
 modifies FV(f)
 ensures r == f
 ensures FV(f) == 1
 why kryptology native.Field.SetOne
extern (f *native.Field) SetUint64(n) (r)
 modifies FV(f)
 ensures r == f
 ensures FV(f) == n
 why kryptology native.Field.SetUint64
extern (f *native.Field) Add(a, b) (r)
 requires FM(a) == FM(f) && FM(b) == FM(f)
 modifies FV(f)
 ensures r == f
 ensures FV(f) == modred(FM(f), old(FV(a)) + old(FV(b)))
 why kryptology native.Field.Add
extern (f *native.Field) Sub(a, b) (r)
 requires FM(a) == FM(f) && FM(b) == FM(f)
 modifies FV(f)
 ensures r == f
 ensures FV(f) == modred(FM(f), old(FV(a)) - old(FV(b)))
 why kryptology native.Field.Sub
extern (f *native.Field) Mul(a, b) (r)
 requires FM(a) == FM(f) && FM(b) == FM(f)
 modifies FV(f)
 ensures r == f
 ensures FV(f) == modred(FM(f), old(FV(a)) * old(FV(b)))
 why kryptology native.Field.Mul
extern (f *native.Field) Square(a) (r)
 requires FM(a) == FM(f)
 modifies FV(f)
 ensures r == f
 ensures FV(f) == modred(FM(f), old(FV(a)) * old(FV(a)))
 why kryptology native.Field.Square
extern (f *native.Field) Neg(a) (r)
 requires FM(a) == FM(f)
 modifies FV(f)
 ensures r == f
 ensures FV(f) == modred(FM(f), 0 - old(FV(a)))
 why kryptology native.Field.Neg
extern (f *native.Field) Invert(a) (r, ok)
 requires FM(a) == FM(f)
 modifies FV(f)
 ensures r == f
 ensures FV(f) == if(old(FV(a)) == 0, old(FV(f)), modinv(FM(f), old(FV(a))))
 ensures ok <==> old(FV(a)) != 0
 why kryptology native.Field.Invert (the inverse of zero is reported and leaves the receiver alone)
extern (f *native.Field) Set(a) (r)
 requires FM(a) == FM(f)
 modifies FV(f)
 ensures r == f
 ensures FV(f) == old(FV(a))
 why kryptology native.Field.Set
extern (f *native.Field) Equal(a) (r)
 ensures r == if(FV(f) == FV(a), 1, 0)
 why kryptology native.Field.Equal
extern (f *native.Field) IsZero() (r)
 ensures r == if(FV(f) == 0, 1, 0)
 why kryptology native.Field.IsZero
extern (f *native.Field) CMove(a, b, c) (r)
 requires FM(a) == FM(f) && FM(b) == FM(f)
 requires c == 0 || c == 1
 modifies FV(f)
 ensures r == f
 ensures FV(f) == if(c == 1, old(FV(b)), old(FV(a)))
 why kryptology native.Field.CMove
extern (f *native.Field) Bytes() (r)
 ensures r == brev(i2b(FV(f), 32))
 why kryptology native.Field.Bytes: canonical little-endian encoding
extern (f *native.Field) SetBytes(b) (r, err)
 modifies FV(f)
 ensures err == nil ==> r == f && FV(f) == b2i(brev(bytes(b)))
 ensures FM(f) == 1 ==> (err == nil <==> b2i(brev(bytes(b))) < 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141)
 ensures FM(f) == 2 ==> (err == nil <==> b2i(brev(bytes(b))) < 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F)
 why kryptology native.Field.SetBytes: strict little-endian decoding
extern (f *native.Field) SetBytesWide(b) (r)
 modifies FV(f)
 ensures r == f
 ensures FV(f) == modred(FM(f), b2i(brev(bytes(b))))
 why kryptology native.Field.SetBytesWide: 64 little-endian bytes, reduced
extern (f *native.Field) BigInt() (r)
 fresh r
 ensures BV(r) == FV(f)
 why kryptology native.Field.BigInt
extern (f *native.Field) SetBigInt(x) (r)
 modifies FV(f)
 ensures r == f
 ensures FV(f) == modred(FM(f), BV(x))
 why kryptology native.Field.SetBigInt
extern (x *big.Int) Cmp(y) (r)
 ensures r == if(BV(x) < BV(y), 0 - 1, if(BV(x) == BV(y), 0, 1))
 why math/big
extern errors.New(s) (r)
 fresh r
 why pkg/errors: a non-nil error
extern errors.Errorf(s, a) (r)
 fresh r
 why pkg/errors: a non-nil error
extern fmt.Errorf(s, a) (r)
 fresh r
 why fmt: a non-nil error
extern fmt.Sprintf(s, a) (r)
 why fmt: an unspecified string
