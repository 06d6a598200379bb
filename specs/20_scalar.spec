global FV(curve.OrderHalf) == 0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF5D576E7357A4501DDFE92F46681B20A0
global FM(curve.OrderHalf) == 1
global curve.OrderHalf != nil

func (s *curve.Secp256k1Scalar) Add(lhs, rhs) (r)
 prop C01
 modifies V(s)
 ensures r == s
 ensures V(s) == redq(old(V(lhs)) + old(V(rhs)))
func (s *curve.Secp256k1Scalar) Sub(lhs, rhs) (r)
 prop C01
 modifies V(s)
 ensures r == s
 ensures V(s) == redq(old(V(lhs)) - old(V(rhs)))
func (s *curve.Secp256k1Scalar) Mul(lhs, rhs) (r)
 prop C01
 modifies V(s)
 ensures r == s
 ensures V(s) == redq(old(V(lhs)) * old(V(rhs)))
func (s *curve.Secp256k1Scalar) Negate(o) (r)
 prop C01
 modifies V(s)
 ensures r == s
 ensures V(s) == redq(0 - old(V(o)))
func (s *curve.Secp256k1Scalar) Invert(o) (r)
 prop C01
 modifies V(s)
 ensures r == s
 ensures V(s) == invq(old(V(o)))
func (s *curve.Secp256k1Scalar) Assign(o) (r)
 prop C01
 modifies V(s)
 ensures r == s
 ensures V(s) == old(V(o))
func (s *curve.Secp256k1Scalar) Equal(o) (r)
 prop C01
 ensures r == if(V(s) == V(o), 1, 0)
func (s *curve.Secp256k1Scalar) Clone() (r)
 prop C01
 fresh r
 ensures V(r) == V(s)
func (s curve.Secp256k1Scalar) IsZero() (r)
 prop C01
 ensures r == if(V(s) == 0, 1, 0)
func (s curve.Secp256k1Scalar) IsHigh() (r)
 prop C01
 ensures r <==> V(s) > 0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF5D576E7357A4501DDFE92F46681B20A0
func (s curve.Secp256k1Scalar) CurveType() (r)
 prop C01 C03
 ensures r == 1
