// ---- hashing to the curve ----
extern (f *native.Field) Exp(a, e) (r)
 requires FM(a) == FM(f)
 modifies FV(f)
 ensures r == f
 ensures FV(f) == fpow(FM(f), old(FV(a)), old(FV(e)))
 why kryptology native.Field.Exp: modular exponentiation by the value of e
extern (x *big.Int) SetString(s, base) (r, ok)
 requires base == 16
 modifies BV(x)
 ensures ishex(s) ==> ok && r == x && BV(x) == b2i(unhex(s))
 why math/big, on the hexadecimal constants of this package
extern (x *big.Int) SetBytes(b) (r)
 modifies BV(x)
 ensures r == x
 ensures BV(x) == b2i(bytes(b))
 why math/big
extern (x *big.Int) Sub(a, b) (r)
 modifies BV(x)
 ensures r == x
 ensures BV(x) == old(BV(a)) - old(BV(b))
 why math/big
extern (x *big.Int) Div(a, b) (r)
 requires BV(b) > 0
 modifies BV(x)
 ensures r == x
 ensures BV(x) == old(BV(a)) / old(BV(b))
 why math/big
extern big.NewInt(n) (r)
 fresh r
 ensures BV(r) == n
 why math/big
global R(curve.K256C[0]) == 0x8E38E38E38E38E38E38E38E38E38E38E38E38E38E38E38E38E38E38DAAAAA88C && curve.K256C[0] != nil
global R(curve.K256C[1]) == 0x534C328D23F234E6E2A413DECA25CAECE4506144037C40314ECBD0B53D9DD262 && curve.K256C[1] != nil
global R(curve.K256C[2]) == 0x07D3D4C80BC321D5B9F315CEA7FD44C5D595D2FC0BF63B92DFFF1044F17C6581 && curve.K256C[2] != nil
global R(curve.K256C[3]) == 0x8E38E38E38E38E38E38E38E38E38E38E38E38E38E38E38E38E38E38DAAAAA8C7 && curve.K256C[3] != nil
global R(curve.K256C[4]) == 0xEDADC6F64383DC1DF7C4B2D51B54225406D36B641F5E41BBC52A56612A8C6D14 && curve.K256C[4] != nil
global R(curve.K256C[5]) == 0xD35771193D94918A9CA34CCBB7B640DD86CD409542F8487D9FE6B745781EB49B && curve.K256C[5] != nil
global R(curve.K256C[6]) == 0x2F684BDA12F684BDA12F684BDA12F684BDA12F684BDA12F684BDA12F38E38D84 && curve.K256C[6] != nil
global R(curve.K256C[7]) == 0x29A6194691F91A73715209EF6512E576722830A201BE2018A765E85A9ECEE931 && curve.K256C[7] != nil
global R(curve.K256C[8]) == 0xC75E0C32D5CB7C0FA9D0A54B12A0A6D5647AB046D686DA6FDFFC90FC201D71A3 && curve.K256C[8] != nil
global R(curve.K256C[9]) == 0x4BDA12F684BDA12F684BDA12F684BDA12F684BDA12F684BDA12F684B8E38E23C && curve.K256C[9] != nil
global R(curve.K256C[10]) == 0x6484AA716545CA2CF3A70C3FA8FE337E0A3D21162F0D6299A7BF8192BFD2A76F && curve.K256C[10] != nil
global R(curve.K256C[11]) == 0x7A06534BB8BDB49FD5E9E6632722C2989467C1BFC8E8D978DFB425D2685C2573 && curve.K256C[11] != nil
global R(curve.K256C[12]) == 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFF93B && curve.K256C[12] != nil
func curve.sqrtRatio(u, v) (r, q, err)
 prop C06
 fresh r
 ensures err == nil <==> R(v) != 0
 ensures err == nil ==> R(r) == sqry(R(u), R(v))
 ensures err == nil ==> q == if(sqok(R(u), R(v)), 1, 0)
func curve.sswu(u) (x, y, err)
 prop C06
 fresh x
 fresh y
 unfold ssx ssy ssy0 ssd ssn sst1 sst2 sst3 sst4
 use ssd_nonzero(R(u))
 ensures err == nil
 ensures R(x) == ssx(R(u)) && R(y) == ssy(R(u))
func curve.sswuIsogenySecp256k1(x, y) (rx, ry)
 prop C06
 unfold isox isoy isoxn isoxd isoyn isoyd
 modifies R(y)
 fresh rx
 ensures ry != nil
 ensures R(rx) == isox(old(R(x))) && R(ry) == isoy(old(R(x)), old(R(y)))
func curve.MapToCurve(fe) (r, err)
 prop C06
 fresh r
 ensures err == nil
 ensures P(r) == mtc(R(fe))
func curve.HashToCurveRo(curve, input, domainSeparator) (r, err)
 prop C06
 requires curve == 1
 fresh r
 ensures err == nil
 ensures P(r) == redq(mtc(HFE(bytes(input), bytes(domainSeparator), 2, 0)) + mtc(HFE(bytes(input), bytes(domainSeparator), 2, 1)))
def HPT(m, d) = redq(mtc(HFE(m, d, 2, 0)) + mtc(HFE(m, d, 2, 1)))
func (p curve.point) HashToPoint(curve, input, domainSeparator) (r, err)
 prop C06
 requires curve == 1
 fresh r
 ensures err == nil
 ensures P(r) == HPT(bytes(input), bytes(domainSeparator))
