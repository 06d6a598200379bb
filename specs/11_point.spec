// The dependency's points. GV is the discrete logarithm to the generator (the group is cyclic of prime order).
extern k256.K256PointNew() (r)
 fresh r
 ensures GV(r) == 0
 ensures r.Arithmetic != nil
 why kryptology k256.K256PointNew: a new identity point
extern (p *native.EllipticPoint) Identity() (r)
 modifies GV(p)
 ensures r == p
 ensures GV(p) == 0
 why kryptology native.EllipticPoint.Identity
extern (p *native.EllipticPoint) Generator() (r)
 modifies GV(p)
 ensures r == p
 ensures GV(p) == 1
 why kryptology native.EllipticPoint.Generator
extern (p *native.EllipticPoint) Set(a) (r)
 modifies GV(p)
 ensures r == p
 ensures GV(p) == old(GV(a))
 why kryptology native.EllipticPoint.Set: a deep copy
extern (p *native.EllipticPoint) ToAffine(a) (r)
 modifies GV(p)
 ensures r == p
 ensures GV(p) == old(GV(a))
 why kryptology native.EllipticPoint.ToAffine: the same point
extern (p *native.EllipticPoint) Add(a, b) (r)
 requires ref(p) != ref(b)
 modifies GV(p)
 ensures r == p
 ensures GV(p) == redq(old(GV(a)) + old(GV(b)))
 why kryptology native.EllipticPoint.Add: complete addition; the receiver is overwritten with the left operand first, so it must not be the right one
extern (p *native.EllipticPoint) Sub(a, b) (r)
 requires ref(p) != ref(b)
 modifies GV(p)
 ensures r == p
 ensures GV(p) == redq(old(GV(a)) - old(GV(b)))
 why kryptology native.EllipticPoint.Sub: as Add
extern (p *native.EllipticPoint) Double(a) (r)
 modifies GV(p)
 ensures r == p
 ensures GV(p) == redq(2 * old(GV(a)))
 why kryptology native.EllipticPoint.Double
extern (p *native.EllipticPoint) Mul(a, s) (r)
 requires FM(s) == 1
 modifies GV(p)
 ensures r == p
 ensures GV(p) == redq(old(GV(a)) * old(FV(s)))
 why kryptology native.EllipticPoint.Mul
extern (p *native.EllipticPoint) SumOfProducts(pts, sc) (r, err)
 requires len(pts) == 2 && len(sc) == 2
 requires FM(sc[0]) == 1 && FM(sc[1]) == 1
 modifies GV(p)
 ensures err == nil
 ensures r == p
 ensures GV(p) == redq(old(GV(pts[0])) * old(FV(sc[0])) + old(GV(pts[1])) * old(FV(sc[1])))
 why kryptology native.EllipticPoint.SumOfProducts: multi-scalar multiplication, errors only on a length mismatch
extern (p *native.EllipticPoint) Equal(a) (r)
 ensures r == if(GV(p) == GV(a), 1, 0)
 why kryptology native.EllipticPoint.Equal
extern (p *native.EllipticPoint) IsIdentity() (r)
 ensures r <==> GV(p) == 0
 why kryptology native.EllipticPoint.IsIdentity
extern (p *native.EllipticPoint) GetX() (r)
 fresh r
 ensures FM(r) == 2
 ensures FV(r) == ptx(GV(p))
 why kryptology native.EllipticPoint.GetX: the affine coordinate, zero for the identity
extern (p *native.EllipticPoint) GetY() (r)
 fresh r
 ensures FM(r) == 2
 ensures FV(r) == pty(GV(p))
 why kryptology native.EllipticPoint.GetY: the affine coordinate, zero for the identity
extern (p *native.EllipticPoint) IsOnCurve() (r)
 requires FV(p.Z) == 1
 ensures r <==> oncurve(FV(p.X), FV(p.Y))
 why kryptology native.EllipticPoint.IsOnCurve: y^2 = x^3 + 7
extern (a native.EllipticPointArithmetic) RhsEq(out, x) ()
 requires FM(out) == 2 && FM(x) == 2
 modifies FV(out)
 ensures FV(out) == curverhs(old(FV(x)))
 why kryptology secp256k1 RhsEq: x^3 + 7
extern (f *native.Field) Sqrt(a) (r, ok)
 requires FM(f) == 2 && FM(a) == 2
 modifies FV(f)
 ensures r == f
 ensures ok <==> issq(old(FV(a)))
 ensures ok ==> FV(f) == sqrtp(old(FV(a)))
 why kryptology native.Field.Sqrt: a root when there is one
extern bits.LeadingZeros64(x) (r)
 ensures r == lz64(x)
 why math/bits
extern hex.DecodeString(s) (r, err)
 fresh r
 ensures err == nil <==> ishex(s)
 ensures err == nil ==> bytes(r) == unhex(s)
 why encoding/hex
