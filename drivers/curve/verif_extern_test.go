package curve_test

import (
	"encoding/hex"
	"math/big"
	"math/bits"
	"testing"

	vx "github.com/PlatONnetwork/tecdsa/verifx"
	"github.com/coinbase/kryptology/pkg/core/curves/native"
	"github.com/coinbase/kryptology/pkg/core/curves/native/k256"
	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fp"
	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fq"
)

// The contracts assumed for the dependency, sampled.

func rev(b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o
}

func externField(r *vx.Run, name string, mk func() *native.Field, m *big.Int, corner []*big.Int) {
	set := func(n *big.Int) *native.Field { return mk().SetBigInt(n) }
	val := func(f *native.Field) *big.Int { return f.BigInt() }
	var vals []*big.Int
	for _, c := range corner {
		vals = append(vals, new(big.Int).Mod(c, m))
	}
	for i := 0; i < vx.N(15); i++ {
		vals = append(vals, new(big.Int).Mod(new(big.Int).SetBytes(r.Bytes(40)), m))
	}
	mod := func(x *big.Int) *big.Int { return x.Mod(x, m) }
	if mk().IsZero() != 1 || val(mk()).Sign() != 0 || mk().Params.BiModulus.Cmp(m) != 0 {
		r.Failf("%s: a new element", name)
	}
	for _, a := range vals {
		for _, b := range vals {
			r.Case(name, func() {
				for alias := 0; alias < 3; alias++ {
					A, B, F := set(a), set(b), set(big.NewInt(1234567))
					pick := func() *native.Field {
						A, B = set(a), set(b)
						switch alias {
						case 1:
							return A
						case 2:
							return B
						}
						F = set(big.NewInt(1234567))
						return F
					}
					ck := func(op string, f, res *native.Field, w *big.Int) {
						if f != res || val(f).Cmp(w) != 0 || f.Params.BiModulus.Cmp(m) != 0 {
							r.Failf("assumed %s.%s(%x, %x) alias %d = %x, want %x", name, op, a, b, alias, val(f), w)
						}
						if f != A && val(A).Cmp(a) != 0 || f != B && val(B).Cmp(b) != 0 {
							r.Failf("assumed %s.%s changes operands", name, op)
						}
					}
					f := pick()
					ck("Add", f, f.Add(A, B), mod(new(big.Int).Add(a, b)))
					f = pick()
					ck("Sub", f, f.Sub(A, B), mod(new(big.Int).Sub(a, b)))
					f = pick()
					ck("Mul", f, f.Mul(A, B), mod(new(big.Int).Mul(a, b)))
					f = pick()
					ck("Square", f, f.Square(A), mod(new(big.Int).Mul(a, a)))
					f = pick()
					ck("Neg", f, f.Neg(A), mod(new(big.Int).Neg(a)))
					f = pick()
					ck("Set", f, f.Set(A), a)
					f = pick()
					ck("CMove0", f, f.CMove(A, B, 0), a)
					f = pick()
					ck("CMove1", f, f.CMove(A, B, 1), b)
					f = pick()
					ck("SetZero", f, f.SetZero(), vx.I0)
					f = pick()
					ck("SetOne", f, f.SetOne(), vx.I1)
					f = pick()
					ck("SetUint64", f, f.SetUint64(b.Uint64()), new(big.Int).SetUint64(b.Uint64()))
					f = pick()
					old := val(f)
					res, ok := f.Invert(A)
					if a.Sign() == 0 {
						ck("Invert", f, res, old)
					} else {
						ck("Invert", f, res, new(big.Int).ModInverse(a, m))
					}
					if ok != (a.Sign() != 0) {
						r.Failf("assumed %s.Invert(%x) flag", name, a)
					}
					f = pick()
					ck("Exp", f, f.Exp(A, B), new(big.Int).Exp(a, b, m))
				}
				A, B := set(a), set(b)
				w := 0
				if a.Cmp(b) == 0 {
					w = 1
				}
				if A.Equal(B) != w {
					r.Failf("assumed %s.Equal(%x, %x)", name, a, b)
				}
				z := 0
				if a.Sign() == 0 {
					z = 1
				}
				if A.IsZero() != z {
					r.Failf("assumed %s.IsZero(%x)", name, a)
				}
				bs := A.Bytes()
				if !vx.Eq(rev(bs[:]), vx.B32(a)) {
					r.Failf("assumed %s.Bytes(%x)", name, a)
				}
				if s := new(big.Int).Lsh(b, 300); val(mk().SetBigInt(s)).Cmp(mod(s)) != 0 {
					r.Failf("assumed %s.SetBigInt", name)
				}
			})
		}
	}
	for i := 0; i < vx.N(300); i++ {
		var in [32]byte
		copy(in[:], r.Bytes(32))
		switch i % 4 {
		case 1:
			d := new(big.Int).Add(m, big.NewInt(int64(r.R.Intn(7)-3)))
			copy(in[:], rev(vx.B32(d)))
		case 2:
			for j := 8; j < 32; j++ {
				in[j] = 255
			}
		}
		n := new(big.Int).SetBytes(rev(in[:]))
		f := mk()
		res, err := f.SetBytes(&in)
		if (err == nil) != (n.Cmp(m) < 0) || err == nil && (res != f || val(f).Cmp(n) != 0) {
			r.Failf("assumed %s.SetBytes(%x)", name, in)
		}
		var w [64]byte
		copy(w[:], r.Bytes(64))
		if i%3 == 0 {
			for j := range w {
				w[j] = 255
			}
		}
		if i%3 == 1 {
			copy(w[32:], in[:])
		}
		n = new(big.Int).SetBytes(rev(w[:]))
		f = mk()
		if f.SetBytesWide(&w) != f || val(f).Cmp(mod(n)) != 0 {
			r.Failf("assumed %s.SetBytesWide(%x)", name, w)
		}
	}
}

func TestVerif_C01_externs(t *testing.T) {
	r := vx.Start(t)
	defer r.Done()
	externField(r, "fq", fq.K256FqNew, vx.Q, vx.CornerScalars())
}

func TestVerif_C03_externs(t *testing.T) {
	r := vx.Start(t)
	defer r.Done()
	externField(r, "fp", fp.K256FpNew, vx.P, append(vx.CornerScalars(), new(big.Int).Sub(vx.P, vx.I1), new(big.Int).Sub(vx.P, big.NewInt(2)), vx.G.X))
}

func TestVerif_C02_externs(t *testing.T) {
	r := vx.Start(t)
	defer r.Done()
	mk := func(p *vx.Pt) *native.EllipticPoint {
		q := k256.K256PointNew()
		if p.IsInf() {
			return q.Identity()
		}
		k := vx.G.Mul(big.NewInt(int64(1 + r.R.Intn(99))))
		o := p.Sub(k)
		if o.IsInf() || r.R.Intn(2) == 0 {
			q.X = fp.K256FpNew().SetBigInt(p.X)
			q.Y = fp.K256FpNew().SetBigInt(p.Y)
			q.Z.SetOne()
			return q
		}
		q.X = fp.K256FpNew().SetBigInt(o.X)
		q.Y = fp.K256FpNew().SetBigInt(o.Y)
		q.Z.SetOne()
		s := k256.K256PointNew()
		s.X = fp.K256FpNew().SetBigInt(k.X)
		s.Y = fp.K256FpNew().SetBigInt(k.Y)
		s.Z.SetOne()
		return q.Add(q, s)
	}
	get := func(p *native.EllipticPoint) *vx.Pt {
		if p.IsIdentity() {
			return vx.Inf()
		}
		return &vx.Pt{X: p.GetX().BigInt(), Y: p.GetY().BigInt()}
	}
	if !get(k256.K256PointNew()).IsInf() || k256.K256PointNew().Arithmetic == nil || !get(k256.K256PointNew().Generator()).Equal(vx.G) {
		r.Failf("assumed K256PointNew")
	}
	for i := 0; i < vx.N(60); i++ {
		a, b := r.Point(), r.Point()
		switch i % 5 {
		case 1:
			b = a
		case 2:
			b = a.Neg()
		}
		s, u := r.Scalar(), r.Scalar()
		r.Case("point", func() {
			A, B := mk(a), mk(b)
			S, U := fq.K256FqNew().SetBigInt(s), fq.K256FqNew().SetBigInt(u)
			ck := func(op string, f, res *native.EllipticPoint, w *vx.Pt) {
				if f != res || !get(f).Equal(w) {
					r.Failf("assumed %s(%v, %v, %x, %x) = %v, want %v", op, a, b, s, u, get(f), w)
				}
				if f != A && !get(A).Equal(a) || f != B && !get(B).Equal(b) || S.BigInt().Cmp(s) != 0 || U.BigInt().Cmp(u) != 0 {
					r.Failf("assumed %s changes operands", op)
				}
			}
			f := mk(vx.H)
			ck("Add", f, f.Add(A, B), a.Add(b))
			A = mk(a)
			ck("Add", A, A.Add(A, B), a.Add(b))
			A = mk(a)
			f = mk(vx.H)
			ck("Sub", f, f.Sub(A, B), a.Sub(b))
			A = mk(a)
			ck("Sub", A, A.Sub(A, B), a.Sub(b))
			A = mk(a)
			f = mk(vx.H)
			ck("Double", f, f.Double(A), a.Add(a))
			ck("Double", A, A.Double(A), a.Add(a))
			A = mk(a)
			f = mk(vx.H)
			ck("Mul", f, f.Mul(A, S), a.Mul(s))
			ck("Mul", A, A.Mul(A, S), a.Mul(s))
			A = mk(a)
			f = mk(vx.H)
			ck("Set", f, f.Set(A), a)
			f.Double(f)
			if !get(A).Equal(a) {
				r.Failf("assumed Set shares coordinates")
			}
			f = mk(vx.H)
			ck("ToAffine", f, f.ToAffine(A), a)
			ck("ToAffine", A, A.ToAffine(A), a)
			A = mk(a)
			f = mk(vx.H)
			ck("Identity", f, f.Identity(), vx.Inf())
			f = mk(vx.H)
			ck("Generator", f, f.Generator(), vx.G)
			for _, f := range []*native.EllipticPoint{mk(vx.H), k256.K256PointNew(), A} {
				res, err := f.SumOfProducts([]*native.EllipticPoint{A, B}, []*native.Field{S, U})
				if err != nil {
					r.Failf("assumed SumOfProducts(%v, %v, %x, %x): %v", a, b, s, u, err)
				} else {
					ck("SumOfProducts", f, res, vx.LinComb(s, a, u, b))
				}
			}
			A = mk(a)
			w := 0
			if a.Equal(b) {
				w = 1
			}
			if A.Equal(B) != w || A.Equal(mk(a)) != 1 || A.IsIdentity() != a.IsInf() {
				r.Failf("assumed Equal/IsIdentity")
			}
			if a.IsInf() && (A.GetX().BigInt().Sign() != 0 || A.GetY().BigInt().Sign() != 0) {
				r.Failf("assumed GetX/GetY of the identity")
			}
		})
	}
	for i := 0; i < vx.N(200); i++ {
		x, y := new(big.Int).Mod(new(big.Int).SetBytes(r.Bytes(32)), vx.P), new(big.Int).Mod(new(big.Int).SetBytes(r.Bytes(32)), vx.P)
		if i%2 == 0 {
			p := vx.G.Mul(r.NonZero())
			x, y = p.X, p.Y
		}
		q := k256.K256PointNew()
		q.X.SetBigInt(x)
		q.Y.SetBigInt(y)
		q.Z.SetOne()
		if q.IsOnCurve() != vx.OnCurve(x, y) {
			r.Failf("assumed IsOnCurve(%x, %x)", x, y)
		}
		out := fp.K256FpNew()
		X := fp.K256FpNew().SetBigInt(x)
		q.Arithmetic.RhsEq(out, X)
		w := new(big.Int).Add(new(big.Int).Exp(x, big.NewInt(3), vx.P), vx.I7)
		w.Mod(w, vx.P)
		if out.BigInt().Cmp(w) != 0 || X.BigInt().Cmp(x) != 0 {
			r.Failf("assumed RhsEq(%x)", x)
		}
		wr, ok := vx.Sqrt(x)
		f, got := fp.K256FpNew().SetOne().Sqrt(X)
		if got != ok || ok && f.BigInt().Cmp(wr) != 0 && f.BigInt().Cmp(new(big.Int).Sub(vx.P, wr)) != 0 {
			r.Failf("assumed Sqrt(%x)", x)
		}
	}
	for i := 0; i < 65; i++ {
		x := uint64(1)<<uint(i) - 1
		if bits.LeadingZeros64(x) != 64-i {
			r.Failf("assumed LeadingZeros64")
		}
	}
	if b, err := hex.DecodeString("037bdcfc024cf697a41fd3cda2436c843af5669e50042be3314a532d5b70572f59"); err != nil || !vx.Eq(b, vx.H.Enc()) {
		r.Failf("assumed hex.DecodeString")
	}
}
