package curve_test

import (
	"math/big"
	"testing"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	vx "github.com/PlatONnetwork/tecdsa/verifx"
)

const k1 = curve.K256

func mkS(n *big.Int) curve.EccScalar {
	s, err := curve.Scalar.Deserialize(k1, vx.B32(n))
	if err != nil {
		panic(err)
	}
	return s
}

func getS(s curve.EccScalar) *big.Int { return new(big.Int).SetBytes(s.Serialize()) }

func mkP(p *vx.Pt) curve.EccPoint {
	if p.IsInf() {
		return curve.Point.Identity(k1)
	}
	r, err := curve.Point.Deserialize(k1, p.Enc())
	if err != nil {
		panic(err)
	}
	return r
}

// mkP2 builds the same point in another projective representation.
func mkP2(p *vx.Pt, k *big.Int) curve.EccPoint {
	q := p.Sub(vx.G.Mul(k))
	r := mkP(q)
	return r.AddPoints(r, mkP(vx.G.Mul(k)))
}

func isPt(p curve.EccPoint, w *vx.Pt) bool { return vx.Eq(p.Serialize(), w.Enc()) }

func TestVerif_C01_scalars(t *testing.T) {
	r := vx.Start(t)
	defer r.Done()
	type op struct {
		name string
		two  bool
		f    func(d, a, b curve.EccScalar) curve.EccScalar
		w    func(a, b *big.Int) *big.Int
	}
	ops := []op{
		{"Add", true, func(d, a, b curve.EccScalar) curve.EccScalar { return d.Add(a, b) }, vx.Add},
		{"Sub", true, func(d, a, b curve.EccScalar) curve.EccScalar { return d.Sub(a, b) }, vx.Sub},
		{"Mul", true, func(d, a, b curve.EccScalar) curve.EccScalar { return d.Mul(a, b) }, vx.Mul},
		{"Negate", false, func(d, a, b curve.EccScalar) curve.EccScalar { return d.Negate(a) }, func(a, b *big.Int) *big.Int { return vx.Neg(a) }},
		{"Invert", false, func(d, a, b curve.EccScalar) curve.EccScalar { return d.Invert(a) }, func(a, b *big.Int) *big.Int { return vx.Inv(a) }},
		{"Assign", false, func(d, a, b curve.EccScalar) curve.EccScalar { return d.Assign(a) }, func(a, b *big.Int) *big.Int { return a }},
	}
	var vals []*big.Int
	vals = append(vals, vx.CornerScalars()...)
	for i := 0; i < vx.N(20); i++ {
		vals = append(vals, r.Scalar())
	}
	for _, o := range ops {
		for i, a := range vals {
			bs := vals
			if !o.two {
				bs = vals[:1]
			}
			for j, b := range bs {
				if o.two && i > 12 && j > 12 && (i+j)%5 != 0 {
					continue
				}
				o, a, b := o, a, b
				for mode := 0; mode < 4; mode++ {
					mode := mode
					if mode == 3 && a.Cmp(b) != 0 {
						continue
					}
					if !o.two && mode >= 2 {
						continue
					}
					r.Case(o.name, func() {
						A, B, D := mkS(a), mkS(b), mkS(big.NewInt(77))
						var d curve.EccScalar
						switch mode {
						case 0:
							d = D
						case 1:
							d = A
						case 2:
							d = B
						case 3:
							B = A
							d = A
						}
						res := o.f(d, A, B)
						w := o.w(a, b)
						if res != d {
							r.Failf("%s(%x, %x) alias mode %d does not return its receiver", o.name, a, b, mode)
						}
						if getS(d).Cmp(w) != 0 || d.BigInt().Cmp(w) != 0 {
							r.Failf("%s(%x, %x) alias mode %d = %x, want %x", o.name, a, b, mode, getS(d), w)
						}
						if d != A && getS(A).Cmp(a) != 0 || d != B && getS(B).Cmp(b) != 0 {
							r.Failf("%s(%x, %x) alias mode %d changed an operand", o.name, a, b, mode)
						}
					})
				}
			}
		}
	}
	for i, a := range vals {
		for _, b := range vals[:25] {
			a, b := a, b
			r.Case("pred", func() {
				A, B := mkS(a), mkS(b)
				w := 0
				if a.Cmp(b) == 0 {
					w = 1
				}
				if A.Equal(B) != w {
					r.Failf("Equal(%x, %x) = %d", a, b, A.Equal(B))
				}
				// same value, other objects and histories
				C := mkS(vx.Sub(a, b))
				C = C.Add(C, B)
				if C.Equal(A) != 1 || A.Equal(C) != 1 {
					r.Failf("(%x - %x) + %x is not Equal", a, b, b)
				}
			})
		}
		_ = i
		r.Case("pred1", func() {
			A := mkS(a)
			if (A.IsZero() == 1) != (a.Sign() == 0) || A.IsZero()&^1 != 0 {
				r.Failf("IsZero(%x) = %d", a, A.IsZero())
			}
			if A.IsHigh() != vx.High(a) {
				r.Failf("IsHigh(%x) = %v", a, A.IsHigh())
			}
			c := A.Clone()
			if getS(c).Cmp(a) != 0 {
				r.Failf("Clone(%x) = %x", a, getS(c))
			}
			c.Add(c, mkS(big.NewInt(1)))
			if getS(A).Cmp(a) != 0 {
				r.Failf("changing a clone of %x changed it", a)
			}
			d := A.Clone()
			A.Add(A, mkS(big.NewInt(1)))
			if getS(d).Cmp(a) != 0 {
				r.Failf("changing %x changed its clone", a)
			}
		})
	}
	r.Case("constructors", func() {
		z, o := curve.Scalar.Zero(k1), curve.Scalar.One(k1)
		if getS(z).Sign() != 0 || getS(o).Cmp(vx.I1) != 0 {
			r.Failf("Zero or One")
		}
		z.Add(z, o)
		if getS(curve.Scalar.Zero(k1)).Sign() != 0 {
			r.Failf("Zero is shared")
		}
		o.Add(o, z)
		if getS(curve.Scalar.One(k1)).Cmp(vx.I1) != 0 {
			r.Failf("One is shared")
		}
	})
	for _, n := range []uint64{0, 1, 255, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, r.R.Uint64()} {
		if getS(curve.Scalar.FromUint64(k1, n)).Cmp(new(big.Int).SetUint64(n)) != 0 {
			r.Failf("FromUint64(%d)", n)
		}
		if n < 1<<63-1 && getS(curve.Scalar.FromNodeIndex(k1, common.NodeIndex(n))).Cmp(new(big.Int).SetUint64(n+1)) != 0 {
			r.Failf("FromNodeIndex(%d)", n)
		}
	}
	// the constants the contracts rely on
	if curve.GroupOrder.Cmp(vx.Q) != 0 {
		r.Failf("GroupOrder")
	}
	if curve.OrderHalf.BigInt().Cmp(new(big.Int).Rsh(vx.Q, 1)) != 0 || curve.OrderHalf.Params.BiModulus.Cmp(vx.Q) != 0 {
		r.Failf("OrderHalf = %x mod %x", curve.OrderHalf.BigInt(), curve.OrderHalf.Params.BiModulus)
	}
}

func TestVerif_C02_points(t *testing.T) {
	r := vx.Start(t)
	defer r.Done()
	rep := func(p *vx.Pt) curve.EccPoint {
		if r.R.Intn(2) == 0 || p.IsInf() && r.R.Intn(2) == 0 {
			return mkP(p)
		}
		return mkP2(p, big.NewInt(int64(1+r.R.Intn(1000))))
	}
	if !isPt(curve.Point.GeneratorG(k1), vx.G) || !isPt(curve.Point.GeneratorH(k1), vx.H) || !isPt(curve.Point.Identity(k1), vx.Inf()) {
		r.Failf("generators")
	}
	for i := 0; i < vx.N(60); i++ {
		a, b := r.Point(), r.Point()
		switch i % 6 {
		case 1:
			b = a
		case 2:
			b = a.Neg()
		case 3:
			b = a.Add(a)
		}
		for mode := 0; mode < 4; mode++ {
			mode := mode
			if mode == 3 && !a.Equal(b) {
				continue
			}
			for k := 0; k < 4; k++ {
				k := k
				r.Case("binary", func() {
					A, B, D := rep(a), rep(b), rep(vx.H)
					d := D
					switch mode {
					case 1:
						d = A
					case 2:
						d = B
					case 3:
						B = A
						d = A
					}
					var res curve.EccPoint
					var w *vx.Pt
					nm := ""
					switch k {
					case 0:
						nm, res, w = "AddPoints", d.AddPoints(A, B), a.Add(b)
					case 1:
						nm, res, w = "SubPoints", d.SubPoints(A, B), a.Sub(b)
					case 2:
						nm, res, w = "Double", d.Double(A), a.Add(a)
					case 3:
						nm, res, w = "Assign", d.Assign(A), a
					}
					if res != d || !isPt(d, w) {
						r.Failf("%s(%v, %v) alias mode %d = %x, want %v", nm, a, b, mode, d.Serialize(), w)
					}
					if d != A && !isPt(A, a) || d != B && !isPt(B, b) {
						r.Failf("%s(%v, %v) alias mode %d changed an operand", nm, a, b, mode)
					}
					if k == 3 && mode == 0 {
						d.AddPoints(d, curve.Point.GeneratorG(k1))
						if !isPt(A, a) {
							r.Failf("Assign shares state")
						}
					}
				})
			}
		}
		s1, s2 := r.Scalar(), r.Scalar()
		r.Case("scalarmul", func() {
			A, B, S1, S2 := rep(a), rep(b), mkS(s1), mkS(s2)
			D := rep(vx.H)
			if x := D.ScalarMul(A, S1); x != D || !isPt(D, a.Mul(s1)) {
				r.Failf("ScalarMul(%v, %x) = %x", a, s1, D.Serialize())
			}
			if x := curve.Point.MulPoints(A, S1, B, S2); !isPt(x, vx.LinComb(s1, a, s2, b)) {
				r.Failf("MulPoints(%v, %x, %v, %x) = %x", a, s1, b, s2, x.Serialize())
			}
			if x := curve.Point.MulPoints(A, S1, A, S1); !isPt(x, vx.LinComb(s1, a, s1, a)) {
				r.Failf("MulPoints(%v, %x, same)", a, s1)
			}
			L := curve.K256Point.NewK256()
			if x := L.LinComb(A, S1, B, S2); !isPt(x, vx.LinComb(s1, a, s2, b)) || !isPt(L, vx.LinComb(s1, a, s2, b)) {
				r.Failf("LinComb(%v, %x, %v, %x)", a, s1, b, s2)
			}
			if x := curve.Point.Pedersen(S1, S2); !isPt(x, vx.Pedersen(s1, s2)) {
				r.Failf("Pedersen(%x, %x)", s1, s2)
			}
			if x := curve.Point.MulByG(S1); !isPt(x, vx.G.Mul(s1)) {
				r.Failf("MulByG(%x)", s1)
			}
			if !isPt(A, a) || !isPt(B, b) || getS(S1).Cmp(s1) != 0 || getS(S2).Cmp(s2) != 0 {
				r.Failf("an operation on %v, %v, %x, %x changed an operand", a, b, s1, s2)
			}
			if x := A.ScalarMul(A, S1); x != A || !isPt(A, a.Mul(s1)) {
				r.Failf("aliased ScalarMul(%v, %x)", a, s1)
			}
			if c := B.Clone(); !isPt(c, b) {
				r.Failf("Clone(%v)", b)
			} else {
				c.Double(c)
				c.AddPoints(c, curve.Point.GeneratorG(k1))
				if !isPt(B, b) {
					r.Failf("Clone(%v) shares state", b)
				}
			}
		})
		r.Case("predicates", func() {
			A, B := rep(a), rep(b)
			w := 0
			if a.Equal(b) {
				w = 1
			}
			if A.Equal(B) != w || A.Equal(rep(a)) != 1 || rep(a).Equal(A) != 1 || A.IsInfinity() != a.IsInf() {
				r.Failf("Equal or IsInfinity of %v, %v", a, b)
			}
			if !a.IsInf() {
				if A.AffineX().BigInt().Cmp(a.X) != 0 || A.AffineY().BigInt().Cmp(a.Y) != 0 {
					r.Failf("affine coordinates of %v", a)
				}
			}
			if !isPt(A, a) || !isPt(B, b) {
				r.Failf("a predicate changed its operand")
			}
		})
	}
	for i := 0; i < vx.N(60); i++ {
		ix := int64(i)
		switch {
		case i > 45:
			ix = r.R.Int63()
		case i > 30:
			ix = int64(1)<<uint(r.R.Intn(62)) - int64(r.R.Intn(3))
			if ix < 0 {
				ix = 0
			}
		}
		a := r.Point()
		r.Case("nodeindex", func() {
			A := rep(a)
			x := A.MulByNodeIndex(common.NodeIndex(ix))
			w := a.Mul(new(big.Int).Add(big.NewInt(ix), vx.I1))
			if !isPt(x, w) || !isPt(A, a) {
				r.Failf("MulByNodeIndex(%v, %d) = %x, want %v", a, ix, x.Serialize(), w)
			}
		})
	}
}

func TestVerif_C03_codecs(t *testing.T) {
	r := vx.Start(t)
	defer r.Done()
	near := func(m *big.Int) []*big.Int {
		var v []*big.Int
		for d := int64(-3); d <= 3; d++ {
			if x := new(big.Int).Add(m, big.NewInt(d)); x.Sign() >= 0 && x.BitLen() <= 256 {
				v = append(v, x)
			}
		}
		return v
	}
	vals := append(near(vx.Q), near(vx.P)...)
	vals = append(vals, near(big.NewInt(3))...)
	vals = append(vals, new(big.Int).Sub(new(big.Int).Lsh(vx.I1, 256), vx.I1), new(big.Int).Lsh(vx.I1, 255))
	vals = append(vals, vx.CornerScalars()...)
	for i := 0; i < vx.N(100); i++ {
		vals = append(vals, new(big.Int).SetBytes(r.Bytes(32)), new(big.Int).SetBytes(r.Bytes(r.R.Intn(32))))
	}
	scalar := func(b []byte) {
		r.Case("scalar", func() {
			n := new(big.Int).SetBytes(b)
			ok := len(b) == 32 && n.Cmp(vx.Q) < 0
			c := vx.Copy(b)
			s, err := curve.Scalar.Deserialize(k1, b)
			if (err == nil) != ok {
				r.Failf("Scalar.Deserialize(%x): err = %v", b, err)
				return
			}
			if !vx.Eq(b, c) {
				r.Failf("Scalar.Deserialize(%x) changed its input", c)
			}
			k, kerr := curve.K256Scalar.Deserialize(b)
			if (kerr == nil) != ok {
				r.Failf("K256Scalar.Deserialize(%x): err = %v", b, kerr)
			}
			tg, terr := curve.Scalar.DeserializeTagged(append([]byte{1}, b...))
			if (terr == nil) != ok {
				r.Failf("Scalar.DeserializeTagged(01%x): err = %v", b, terr)
			}
			if !ok {
				return
			}
			for _, x := range []curve.EccScalar{s, k, tg} {
				if x.BigInt().Cmp(n) != 0 || !vx.Eq(x.Serialize(), b) || !vx.Eq(x.SerializeTagged(), append([]byte{1}, b...)) {
					r.Failf("scalar %x decodes to %x, encodes to %x and %x", b, x.BigInt(), x.Serialize(), x.SerializeTagged())
				}
				sb := curve.Scalar.ToScalarBytes(x)
				if !vx.Eq(sb.ScalarBytes(), b) || sb.ToScalar().BigInt().Cmp(n) != 0 || sb.CurveType() != k1 {
					r.Failf("ToScalarBytes(%x)", b)
				}
				o := x.Serialize()
				o[0] ^= 1
				if !vx.Eq(x.Serialize(), b) {
					r.Failf("Serialize shares its result")
				}
			}
			m, err := s.(*curve.Secp256k1Scalar).MarshalCBOR()
			if err != nil {
				r.Failf("MarshalCBOR(%x): %v", b, err)
				return
			}
			u := curve.K256Scalar.One()
			if err := u.UnmarshalCBOR(m); err != nil || u.BigInt().Cmp(n) != 0 {
				r.Failf("CBOR round trip of %x: %v", b, err)
			}
		})
	}
	field := func(b []byte) {
		r.Case("field", func() {
			n := new(big.Int).SetBytes(b)
			ok := len(b) == 32 && n.Cmp(vx.P) < 0
			s, err := curve.Field.FromBytes(k1, b)
			if (err == nil) != ok {
				r.Failf("Field.FromBytes(%x): err = %v", b, err)
				return
			}
			if ok && (s.BigInt().Cmp(n) != 0 || !vx.Eq(s.AsBytes(), b) || uint(s.Sign()) != n.Bit(0)) {
				r.Failf("field element %x decodes to %x, encodes to %x", b, s.BigInt(), s.AsBytes())
			}
		})
	}
	for _, v := range vals {
		b := vx.B32(v)
		scalar(b)
		field(b)
	}
	for n := 0; n <= 70; n++ {
		for k := 0; k < 3; k++ {
			b := r.Bytes(n)
			if k == 1 {
				b = make([]byte, n)
			}
			if k == 2 && n > 0 {
				b = append(make([]byte, n-1), 7)
			}
			scalar(b)
			field(b)
		}
	}
	for tag := 0; tag < 256; tag++ {
		tag := tag
		r.Case("tag", func() {
			b := append([]byte{byte(tag)}, vx.B32(big.NewInt(5))...)
			_, err := curve.Scalar.DeserializeTagged(b)
			if (err == nil) != (tag == 1) {
				r.Failf("Scalar.DeserializeTagged(%x): err = %v", b, err)
			}
			if tag != 1 {
				if _, err := curve.Scalar.Deserialize(curve.EccCurveType(tag), b[1:]); err == nil {
					r.Failf("Scalar.Deserialize with curve %d accepts", tag)
				}
			}
		})
	}
	r.Case("empty", func() {
		if _, err := curve.Scalar.DeserializeTagged(nil); err == nil {
			r.Failf("Scalar.DeserializeTagged(nil) accepts")
		}
	})
	for n := 0; n <= 80; n++ {
		for k := 0; k < vx.N(4); k++ {
			b := r.Bytes(n)
			if k == 1 {
				for i := range b {
					b[i] = 255
				}
			}
			if k == 2 {
				copy(b, vx.B32(vx.Q))
			}
			r.Case("wide", func() {
				v := new(big.Int).SetBytes(b)
				s, err := curve.Scalar.FromBytesWide(k1, b)
				if (err == nil) != (n <= 64) {
					r.Failf("Scalar.FromBytesWide(%x): err = %v", b, err)
				} else if err == nil && s.BigInt().Cmp(new(big.Int).Mod(v, vx.Q)) != 0 {
					r.Failf("Scalar.FromBytesWide(%x) = %x", b, s.BigInt())
				}
				f, err := curve.Field.FromBytesWide(k1, b)
				if (err == nil) != (n <= 64) {
					r.Failf("Field.FromBytesWide(%x): err = %v", b, err)
				} else if err == nil && f.BigInt().Cmp(new(big.Int).Mod(v, vx.P)) != 0 {
					r.Failf("Field.FromBytesWide(%x) = %x", b, f.BigInt())
				}
			})
		}
	}
	// scalars that are results of arithmetic encode canonically too
	for i := 0; i < vx.N(200); i++ {
		a, b := r.Scalar(), r.Scalar()
		r.Case("computed", func() {
			s := mkS(a)
			s.Add(s, mkS(b))
			s.Mul(s, mkS(a))
			w := vx.B32(vx.Mul(vx.Add(a, b), a))
			if !vx.Eq(s.Serialize(), w) || !vx.Eq(s.SerializeTagged(), append([]byte{1}, w...)) {
				r.Failf("(%x+%x)*%x encodes to %x", a, b, a, s.Serialize())
			}
		})
	}
}

func decAny(b []byte) (*vx.Pt, bool) {
	if len(b) == 1 && b[0] == 0 {
		return vx.Inf(), true
	}
	if len(b) == 33 && (b[0] == 2 || b[0] == 3) {
		return vx.Dec(b)
	}
	if len(b) == 33 && b[0] == 5 {
		// compact: the coordinate of a point with even y
		return vx.LiftX(new(big.Int).SetBytes(b[1:]), 0)
	}
	if len(b) == 65 && b[0] == 4 {
		x, y := new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])
		if x.Cmp(vx.P) < 0 && y.Cmp(vx.P) < 0 && vx.OnCurve(x, y) {
			return &vx.Pt{X: x, Y: y}, true
		}
	}
	return nil, false
}

func TestVerif_C04_points(t *testing.T) {
	r := vx.Start(t)
	defer r.Done()
	check := func(b []byte) {
		r.Case("decode", func() {
			c := vx.Copy(b)
			w, ok := decAny(b)
			p, err := curve.Point.DeserializeAnyFormat(k1, b)
			if (err == nil) != ok {
				r.Failf("DeserializeAnyFormat(%x): err = %v, want ok = %v", b, err, ok)
			} else if ok && !isPt(p, w) {
				r.Failf("DeserializeAnyFormat(%x) = %x", b, p.Serialize())
			}
			w, ok = vx.Dec(b)
			p, err = curve.Point.Deserialize(k1, b)
			if (err == nil) != ok {
				r.Failf("Deserialize(%x): err = %v, want ok = %v", b, err, ok)
			} else if ok && (!isPt(p, w) || p.IsInfinity() != w.IsInf()) {
				r.Failf("Deserialize(%x) = %x", b, p.Serialize())
			}
			var tb []byte
			tb = append(append(tb, 1), b...)
			p, err = curve.Point.DeserializeTagged(k1, tb)
			if (err == nil) != ok {
				r.Failf("DeserializeTagged(01%x): err = %v, want ok = %v", b, err, ok)
			} else if ok && !isPt(p, w) {
				r.Failf("DeserializeTagged(01%x) = %x", b, p.Serialize())
			}
			if !vx.Eq(b, c) {
				r.Failf("decoding %x changed it", c)
			}
		})
	}
	for i := 0; i < vx.N(60); i++ {
		a := r.Point()
		r.Case("encode", func() {
			for _, A := range []curve.EccPoint{mkP(a), mkP2(a, big.NewInt(int64(2+i))), mkP2(a, r.Scalar())} {
				if !vx.Eq(A.Serialize(), a.Enc()) || !vx.Eq(A.SerializeTagged(), a.Tagged()) || !vx.Eq(A.SerializeUncompressed(), a.Unc()) {
					r.Failf("%v encodes to %x, %x, %x", a, A.Serialize(), A.SerializeTagged(), A.SerializeUncompressed())
				}
				p, err := curve.Point.DeserializeAnyFormat(k1, A.SerializeUncompressed())
				if err != nil || !isPt(p, a) || p.Equal(A) != 1 {
					r.Failf("uncompressed round trip of %v: %v", a, err)
				}
				if !a.IsInf() {
					p, err = curve.Point.FromFieldElems(A.AffineX(), A.AffineY())
					if err != nil || !isPt(p, a) {
						r.Failf("FromFieldElems of %v: %v", a, err)
					}
				}
				m, err := A.(*curve.Secp256k1Point).MarshalCBOR()
				if err != nil {
					r.Failf("MarshalCBOR(%v): %v", a, err)
					continue
				}
				u := curve.K256Point.NewK256G()
				if err := u.UnmarshalCBOR(m); err != nil || !isPt(u, a) {
					r.Failf("CBOR round trip of %v: %v", a, err)
				}
			}
		})
		check(a.Enc())
		check(a.Unc())
		check(a.Tagged())
		e, u := a.Enc(), a.Unc()
		for k := 0; k < 4; k++ {
			m := vx.Copy(e)
			m[r.R.Intn(len(m))] ^= 1 << uint(r.R.Intn(8))
			check(m)
			m = vx.Copy(u)
			m[r.R.Intn(len(m))] ^= 1 << uint(r.R.Intn(8))
			check(m)
		}
		if !a.IsInf() {
			// coordinates that are not reduced, the same point in shape
			for _, d := range []*big.Int{vx.P, new(big.Int).Sub(new(big.Int).Lsh(vx.I1, 256), vx.P)} {
				x := new(big.Int).Add(a.X, d)
				if x.BitLen() <= 256 {
					check(append(append([]byte{4}, vx.B32(x)...), vx.B32(a.Y)...))
				}
			}
			o := vx.Copy(u)
			copy(o[33:], vx.B32(new(big.Int).Xor(a.Y, vx.I1)))
			check(o)
			for _, l := range []int{0, 1, 2, 31, 32, 34, 63, 64, 66} {
				if l <= 65 {
					check(u[:l])
				} else {
					check(append(vx.Copy(u), 0))
				}
			}
		}
	}
	// x coordinates just around the modulus, small ones, and their unreduced twins
	for d := int64(-40); d < 976; d++ {
		x := new(big.Int).Add(vx.P, big.NewInt(d))
		if d > 60 && d < 900 && d%7 != 0 {
			continue
		}
		for _, tg := range []byte{2, 3} {
			check(append([]byte{tg}, vx.B32(x)...))
		}
		if d >= 0 {
			if p, ok := vx.LiftX(big.NewInt(d), 0); ok {
				check(append(append([]byte{4}, vx.B32(x)...), vx.B32(p.Y)...))
			}
			for _, tg := range []byte{2, 3} {
				check(append([]byte{tg}, vx.B32(big.NewInt(d))...))
			}
		}
	}
	for tag := 0; tag < 256; tag++ {
		b := vx.G.Enc()
		b[0] = byte(tag)
		check(b)
		b = vx.G.Unc()
		b[0] = byte(tag)
		check(b)
		check([]byte{byte(tag)})
		z := make([]byte, 33)
		z[0] = byte(tag)
		check(z)
		z = make([]byte, 65)
		z[0] = byte(tag)
		check(z)
		r.Case("curve", func() {
			if tag != 1 {
				if _, err := curve.Point.DeserializeTagged(k1, append([]byte{byte(tag)}, vx.G.Enc()...)); err == nil {
					r.Failf("DeserializeTagged accepts the tag %d", tag)
				}
				if _, err := curve.Point.Deserialize(curve.EccCurveType(tag), vx.G.Enc()); err == nil {
					r.Failf("Deserialize accepts the curve %d", tag)
				}
			}
		})
	}
	for n := 0; n <= 70; n++ {
		check(r.Bytes(n))
		check(make([]byte, n))
		for _, tg := range []byte{2, 3, 4, 5} {
			if n > 0 {
				b := r.Bytes(n)
				b[0] = tg
				check(b)
				z := make([]byte, n)
				z[0] = tg
				check(z)
			}
		}
	}
	r.Case("nil", func() {
		if _, err := curve.Point.DeserializeTagged(k1, nil); err == nil {
			r.Failf("DeserializeTagged(nil) accepts")
		}
	})
}

func TestVerif_C06_hashing(t *testing.T) {
	r := vx.Start(t)
	defer r.Done()
	// a published vector guards the oracle itself
	d := []byte("QUUX-V01-CS02-with-secp256k1_XMD:SHA-256_SSWU_RO_")
	kp := vx.HashToPoint(nil, d)
	if kp.X.Text(16) != "c1cae290e291aee617ebaef1be6d73861479c48b841eaba9b7b5852ddfeb1346" || kp.Y.Text(16) != "64fa678e07ae116126f08b022a94af6de15985c996c3a91b64c406a960e51067" {
		t.Fatalf("oracle is wrong")
	}
	for i := 0; i < vx.N(60); i++ {
		msg := r.Bytes(r.R.Intn(200))
		dst := r.Bytes([]int{1, 16, 31, 255, 256, 257, 300}[r.R.Intn(7)])
		if i == 0 {
			msg, dst = nil, d
		}
		if i == 1 {
			dst = nil
		}
		r.Case("hash", func() {
			m0, d0 := vx.Copy(msg), vx.Copy(dst)
			for _, n := range []int{1, 2, 3, 5, 170} {
				if n == 170 && i%20 != 0 {
					continue
				}
				s, err := curve.HashToScalar(n, k1, msg, dst)
				w := vx.HashTo(msg, dst, n, vx.Q)
				if err != nil || len(s) != n {
					r.Failf("HashToScalar(%d, %x, %x): %v", n, msg, dst, err)
					continue
				}
				for j := range s {
					if s[j].BigInt().Cmp(w[j]) != 0 || getS(s[j]).Cmp(w[j]) != 0 {
						r.Failf("HashToScalar(%d, %x, %x)[%d] = %x, want %x", n, msg, dst, j, s[j].BigInt(), w[j])
					}
				}
				f, err := curve.HashToField(n, k1, msg, dst)
				w = vx.HashTo(msg, dst, n, vx.P)
				if err != nil || len(f) != n {
					r.Failf("HashToField(%d, %x, %x): %v", n, msg, dst, err)
					continue
				}
				for j := range f {
					if f[j].BigInt().Cmp(w[j]) != 0 {
						r.Failf("HashToField(%d, %x, %x)[%d] = %x, want %x", n, msg, dst, j, f[j].BigInt(), w[j])
					}
				}
			}
			if _, err := curve.HashToScalar(171, k1, msg, dst); err == nil {
				r.Failf("HashToScalar(171) accepts")
			}
			s1, err := curve.Scalar.HashToScalar(k1, msg, dst)
			if err != nil || s1.BigInt().Cmp(vx.HashTo(msg, dst, 1, vx.Q)[0]) != 0 {
				r.Failf("Scalar.HashToScalar(%x, %x)", msg, dst)
			}
			p, err := curve.Point.HashToPoint(k1, msg, dst)
			if w := vx.HashToPoint(msg, dst); err != nil || !isPt(p, w) {
				r.Failf("HashToPoint(%x, %x) is not %v: %v", msg, dst, w, err)
			}
			if !vx.Eq(m0, msg) || !vx.Eq(d0, dst) {
				r.Failf("hashing changed its arguments")
			}
		})
	}
	// the map itself, with its exceptional inputs: u with Z^2 u^4 + Z u^2 = 0, that is u = 0 or u^2 = -1/Z = 1/11
	us := []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(vx.P, vx.I1), big.NewInt(2)}
	if s, ok := vx.Sqrt(new(big.Int).ModInverse(big.NewInt(11), vx.P)); ok {
		us = append(us, s, new(big.Int).Sub(vx.P, s))
	}
	for i := 0; i < vx.N(60); i++ {
		us = append(us, new(big.Int).Mod(new(big.Int).SetBytes(r.Bytes(40)), vx.P))
	}
	for _, u := range us {
		u := u
		r.Case("map", func() {
			fe, err := curve.Field.FromBytes(k1, vx.B32(u))
			if err != nil {
				panic(err)
			}
			p, err := curve.MapToCurve(fe)
			w := vx.MapToCurve(u)
			if err != nil || !isPt(p, w) {
				r.Failf("MapToCurve(%x) is not %v: %v", u, w, err)
			}
			if fe.BigInt().Cmp(u) != 0 {
				r.Failf("MapToCurve(%x) changed its argument", u)
			}
		})
	}
}
