package poly

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/rand"
	"github.com/PlatONnetwork/tecdsa/seed"
	vx "github.com/PlatONnetwork/tecdsa/verifx"
	"github.com/fxamacker/cbor/v2"
)

func mkS(n *big.Int) curve.EccScalar {
	s, err := curve.Scalar.Deserialize(curve.K256, vx.B32(n))
	if err != nil {
		panic(err)
	}
	return s
}
func unS(s curve.EccScalar) *big.Int { return new(big.Int).SetBytes(s.Serialize()) }
func mkP(p *vx.Pt) curve.EccPoint {
	r, err := curve.Point.Deserialize(curve.K256, p.Enc())
	if err != nil {
		panic(err)
	}
	return r
}
func mkSs(p []*big.Int) []curve.EccScalar {
	r := make([]curve.EccScalar, len(p))
	for i := range p {
		r[i] = mkS(p[i])
	}
	return r
}
func mkPs(p []*vx.Pt) []curve.EccPoint {
	r := make([]curve.EccPoint, len(p))
	for i := range p {
		r[i] = mkP(p[i])
	}
	return r
}
func unSs(s []curve.EccScalar) []*big.Int {
	r := make([]*big.Int, len(s))
	for i := range s {
		r[i] = unS(s[i])
	}
	return r
}
func mkPoly(p []*big.Int) *Polynomial { return Poly.New(curve.K256, mkSs(p)) }
func unPoly(p *Polynomial) []*big.Int { return unSs(p.coefficients) }

func sameInts(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

// somePoly gives a polynomial with, at times, zero coefficients anywhere.
func somePoly(r *vx.Run, max int) []*big.Int {
	p := r.Poly(r.R.Intn(max + 1))
	for i := range p {
		if r.R.Intn(4) == 0 {
			p[i] = big.NewInt(0)
		}
	}
	if len(p) > 0 && r.R.Intn(3) == 0 {
		p[len(p)-1] = big.NewInt(0)
	}
	return p
}

func rng(r *vx.Run) rand.Rand { return seed.FromBytes(r.Bytes(32)).Rng() }

func one(b bool) int {
	if b {
		return 1
	}
	return 0
}

func TestVerif_C08_arith(t *testing.T) {
	r := vx.Start(t)
	defer r.Done()
	for n := 0; n < vx.N(300); n++ {
		a, b, k := somePoly(r, 7), somePoly(r, 7), r.Scalar()
		if r.R.Intn(4) == 0 {
			b = append(append([]*big.Int{}, a...), b[:len(b)/2]...)
			for i := len(a); i < len(b); i++ {
				b[i] = big.NewInt(0)
			}
		}
		r.Case("arith", func() {
			A, B, K := mkPoly(a), mkPoly(b), mkS(k)
			al := r.R.Intn(5)
			recv := Poly.New(curve.K256, mkSs(r.Poly(3)))
			var s, m, c *Polynomial
			switch al {
			case 0:
				A2, B2 := mkPoly(a), mkPoly(b)
				s = A2.Add(A2, B2)
				if s != A2 {
					r.Failf("Add does not return its receiver")
				}
				A3, B3 := mkPoly(a), mkPoly(b)
				m = A3.Mul(A3, B3)
				A4 := mkPoly(a)
				c = A4.MulScalar(A4, K)
			case 1:
				B2 := mkPoly(b)
				s = B2.Add(A, B2)
				B3 := mkPoly(b)
				m = B3.Mul(A, B3)
				c = recv.MulScalar(A, K)
			default:
				s = recv.Add(A, B)
				m = Poly.Zero(curve.K256).Mul(A, B)
				c = Poly.Zero(curve.K256).MulScalar(A, K)
			}
			if !vx.PolyEq(unPoly(s), vx.PolyAdd(a, b)) {
				r.Failf("Add(%v,%v)", a, b)
			}
			if !vx.PolyEq(unPoly(m), vx.PolyMul(a, b)) {
				r.Failf("Mul(%v,%v)", a, b)
			}
			if !vx.PolyEq(unPoly(c), vx.PolyMul(a, []*big.Int{k})) {
				r.Failf("MulScalar(%v,%v)", a, k)
			}
			for i := 0; i < len(s.coefficients); i++ {
				s.coefficients[i].Add(s.coefficients[i], K)
			}
			for i := 0; i < len(m.coefficients); i++ {
				m.coefficients[i].Add(m.coefficients[i], K)
			}
			if !sameInts(unPoly(A), a) || !sameInts(unPoly(B), b) || unS(K).Cmp(k) != 0 {
				r.Failf("operands changed: %v %v %v", a, b, k)
			}
			// squares
			A5 := mkPoly(a)
			if !vx.PolyEq(unPoly(A5.Mul(A5, A5)), vx.PolyMul(a, a)) {
				r.Failf("Mul(a,a,a) for %v", a)
			}
			A6 := mkPoly(a)
			if !vx.PolyEq(unPoly(A6.Add(A6, A6)), vx.PolyAdd(a, a)) {
				r.Failf("Add(a,a,a) for %v", a)
			}
		})
		r.Case("tests", func() {
			A, B, x := mkPoly(a), mkPoly(b), r.Scalar()
			X := mkS(x)
			if v := A.EvaluateAt(X); unS(v).Cmp(vx.Eval(a, x)) != 0 {
				r.Failf("EvaluateAt(%v,%v)", a, x)
			} else {
				v.Add(v, mkS(big.NewInt(1)))
			}
			if A.Equal(B) != one(vx.PolyEq(a, b)) || B.Equal(A) != one(vx.PolyEq(a, b)) {
				r.Failf("Equal(%v,%v)", a, b)
			}
			nz := 0
			for _, c := range a {
				if c.Sign() != 0 {
					nz++
				}
			}
			if A.NonZeroCoefficients() != nz || A.IsZero() != one(nz == 0) {
				r.Failf("NonZeroCoefficients(%v) = %d", a, A.NonZeroCoefficients())
			}
			for i := 0; i < len(a)+2; i++ {
				w := big.NewInt(0)
				if i < len(a) {
					w = a[i]
				}
				if c := A.Coeff(i); unS(c).Cmp(w) != 0 {
					r.Failf("Coeff(%v,%d)", a, i)
				} else {
					c.Add(c, mkS(big.NewInt(5)))
				}
			}
			if !sameInts(unPoly(A), a) || !sameInts(unPoly(B), b) || unS(X).Cmp(x) != 0 {
				r.Failf("operands changed")
			}
		})
	}
	r.Case("other curve", func() {
		if Poly.Zero(curve.EccCurveType(7)).Equal(Poly.Zero(curve.K256)) != 0 {
			r.Failf("polynomials of different curves are equal")
		}
	})
}

func TestVerif_C08_random(t *testing.T) {
	r := vx.Start(t)
	defer r.Done()
	for n := 0; n < vx.N(20); n++ {
		r.Case("random", func() {
			k := r.R.Intn(6)
			c := r.Scalar()
			C := mkS(c)
			p := Poly.Random(curve.K256, k, rng(r))
			if len(p.coefficients) != k || p.CurveType() != curve.K256 {
				r.Failf("Random(%d) has %d coefficients", k, len(p.coefficients))
			}
			q, err := Poly.RandomWithConstant(C, k, rng(r))
			if (err != nil) != (k == 0) {
				r.Failf("RandomWithConstant(%d): %v", k, err)
			}
			if err == nil && (len(q.coefficients) != k || unS(q.Coeff(0)).Cmp(c) != 0) {
				r.Failf("RandomWithConstant(%d) has %d coefficients or another constant", k, len(q.coefficients))
			}
		})
	}
}

func TestVerif_C08_interpolate(t *testing.T) {
	r := vx.Start(t)
	defer r.Done()
	small := []int64{0, 1, 2, 3, 4, 5, 6, 7}
	for n := 0; n < vx.N(150); n++ {
		k := r.R.Intn(7)
		xs, ys := make([]*big.Int, k), make([]*big.Int, k)
		seen, dup := map[string]bool{}, false
		for i := range xs {
			if r.R.Intn(2) == 0 {
				xs[i] = big.NewInt(small[r.R.Intn(len(small))])
			} else {
				xs[i] = r.Scalar()
			}
			ys[i] = r.Scalar()
			if r.R.Intn(4) == 0 {
				ys[i] = big.NewInt(0)
			}
			dup = dup || seen[xs[i].String()]
			seen[xs[i].String()] = true
		}
		r.Case("interpolate", func() {
			in := make([][2]curve.EccScalar, k)
			for i := range in {
				in[i] = [2]curve.EccScalar{mkS(xs[i]), mkS(ys[i])}
			}
			p, err := Poly.Interpolate(curve.K256, in)
			if (err != nil) != dup {
				r.Failf("Interpolate(%v,%v): %v", xs, ys, err)
				return
			}
			if err == nil {
				c := unPoly(p)
				if len(vx.Trim(c)) > k {
					r.Failf("Interpolate(%v): degree too high", xs)
				}
				for i := range xs {
					if vx.Eval(c, xs[i]).Cmp(ys[i]) != 0 {
						r.Failf("Interpolate(%v,%v) misses sample %d", xs, ys, i)
					}
				}
				for _, c := range p.coefficients {
					c.Add(c, mkS(big.NewInt(3)))
				}
			}
			for i := range in {
				if unS(in[i][0]).Cmp(xs[i]) != 0 || unS(in[i][1]).Cmp(ys[i]) != 0 {
					r.Failf("Interpolate changes sample %d of %v", i, xs)
				}
			}
		})
	}
}

// someNodes gives node indices, repeated at times.
func someNodes(r *vx.Run, max int) ([]common.NodeIndex, []*big.Int, bool) {
	k := r.R.Intn(max + 1)
	ns, xs := make([]common.NodeIndex, k), make([]*big.Int, k)
	seen, dup := map[common.NodeIndex]bool{}, false
	for i := range ns {
		switch r.R.Intn(5) {
		case 0:
			ns[i] = common.NodeIndex(r.R.Intn(1 << 30))
		case 1:
			ns[i] = common.NodeIndex(r.R.Intn(4))
		default:
			ns[i] = common.NodeIndex(r.R.Intn(40))
		}
		dup = dup || seen[ns[i]]
		seen[ns[i]] = true
		xs[i] = big.NewInt(int64(ns[i]) + 1)
	}
	return ns, xs, dup
}

func TestVerif_C09_coefficients(t *testing.T) {
	r := vx.Start(t)
	defer r.Done()
	for n := 0; n < vx.N(200); n++ {
		ns, xs, dup := someNodes(r, 7)
		at := r.Scalar()
		if r.R.Intn(3) == 0 {
			at = big.NewInt(0)
		} else if len(xs) > 0 && r.R.Intn(2) == 0 {
			at = xs[r.R.Intn(len(xs))]
		}
		r.Case("at", func() {
			in := append([]common.NodeIndex{}, ns...)
			AT := mkS(at)
			var l *LagrangeCoefficients
			var err error
			if at.Sign() == 0 && r.R.Intn(2) == 0 {
				l, err = Lagrange.AtZero(curve.K256, in)
			} else {
				l, err = Lagrange.AtValue(AT, in)
			}
			if (err != nil) != (dup || len(ns) == 0) {
				r.Failf("AtValue(%v,%v): %v", at, ns, err)
				return
			}
			for i := range ns {
				if in[i] != ns[i] {
					r.Failf("AtValue changes its node list %v", ns)
				}
			}
			if unS(AT).Cmp(at) != 0 {
				r.Failf("AtValue(%v,%v) changes its evaluation point", at, ns)
			}
			if err != nil {
				return
			}
			w := vx.Lagrange(xs, at)
			if !sameInts(unSs(l.Coefficients()), w) {
				r.Failf("AtValue(%v,%v) is not the Lagrange basis", at, ns)
			}
			// reconstruction
			p := r.Poly(len(ns))
			ys, pts := make([]*big.Int, len(ns)), make([]*vx.Pt, len(ns))
			base := r.Point()
			for i := range ns {
				ys[i] = vx.Eval(p, xs[i])
				pts[i] = base.Mul(ys[i])
			}
			Y, T := mkSs(ys), mkPs(pts)
			s, err := l.InterpolateScalar(Y)
			if err != nil || unS(s).Cmp(vx.Eval(p, at)) != 0 {
				r.Failf("InterpolateScalar at %v over %v", at, ns)
			}
			g, err := l.InterpolatePoint(T)
			if err != nil || !vx.Eq(g.Serialize(), base.Mul(vx.Eval(p, at)).Enc()) {
				r.Failf("InterpolatePoint at %v over %v", at, ns)
			}
			if !sameInts(unSs(Y), ys) || !sameInts(unSs(l.Coefficients()), w) {
				r.Failf("interpolating changes its arguments")
			}
			for i := range pts {
				if !vx.Eq(T[i].Serialize(), pts[i].Enc()) {
					r.Failf("InterpolatePoint changes its arguments")
				}
			}
			for _, k := range []int{0, len(ns) - 1, len(ns) + 1} {
				if k == len(ns) {
					continue
				}
				y := mkSs(r.Poly(k))
				q := make([]curve.EccPoint, k)
				for i := range q {
					q[i] = mkP(r.Point())
				}
				if _, err := l.InterpolateScalar(y); err == nil {
					r.Failf("InterpolateScalar takes %d samples for %d nodes", k, len(ns))
				}
				if _, err := l.InterpolatePoint(q); err == nil {
					r.Failf("InterpolatePoint takes %d samples for %d nodes", k, len(ns))
				}
			}
		})
	}
	r.Case("new", func() {
		if _, err := Lagrange.New(nil); err == nil {
			r.Failf("New accepts no coefficients")
		}
		a := r.Poly(3)
		A := mkSs(a)
		l, err := Lagrange.New(A)
		if err != nil || !sameInts(unSs(l.Coefficients()), a) {
			r.Failf("New")
		}
		m, _ := Lagrange.New(mkSs(a))
		if l.Equal(m) != 1 {
			r.Failf("Equal of equal coefficients")
		}
		b := append([]*big.Int{}, a...)
		b[r.R.Intn(3)] = r.Scalar()
		m, _ = Lagrange.New(mkSs(b))
		if l.Equal(m) != one(sameInts(a, b)) {
			r.Failf("Equal of different coefficients")
		}
		m, _ = Lagrange.New(mkSs(a[:2]))
		if l.Equal(m) != 0 || m.Equal(l) != 0 {
			r.Failf("Equal of different lengths")
		}
	})
}

// commit gives the points of a commitment.
func commit(a, b []*big.Int, n int) []*vx.Pt {
	c := func(p []*big.Int, i int) *big.Int {
		if i < len(p) {
			return p[i]
		}
		return big.NewInt(0)
	}
	r := make([]*vx.Pt, n)
	for i := range r {
		if b == nil {
			r[i] = vx.G.Mul(c(a, i))
		} else {
			r[i] = vx.Pedersen(c(a, i), c(b, i))
		}
	}
	return r
}

func samePts(a []curve.EccPoint, b []*vx.Pt) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !vx.Eq(a[i].Serialize(), b[i].Enc()) {
			return false
		}
	}
	return true
}

func fits(p []*big.Int, n int) bool { return len(vx.Trim(p)) <= n }

func TestVerif_C10_commitment(t *testing.T) {
	r := vx.Start(t)
	defer r.Done()
	for n := 0; n < vx.N(60); n++ {
		a, b := somePoly(r, 5), somePoly(r, 5)
		if b == nil {
			b = []*big.Int{}
		}
		k := r.R.Intn(7)
		idx := common.NodeIndex(r.R.Intn(30))
		if r.R.Intn(4) == 0 {
			idx = common.NodeIndex(r.R.Intn(1 << 40))
		}
		x := big.NewInt(int64(idx) + 1)
		r.Case("commitment", func() {
			A, B := mkPoly(a), mkPoly(b)
			s, err := SimpleCM.Create(A, k)
			if (err == nil) != fits(a, k) {
				r.Failf("simple commitment of %v to %d points: %v", a, k, err)
			}
			p, err2 := PedersenCM.Create(A, B, k)
			if (err2 == nil) != (fits(a, k) && fits(b, k)) {
				r.Failf("Pedersen commitment of %v and %v to %d points: %v", a, b, k, err2)
			}
			if !sameInts(unPoly(A), a) || !sameInts(unPoly(B), b) {
				r.Failf("Create changes its polynomials")
			}
			va, vb := vx.Eval(a, x), vx.Eval(b, x)
			if err == nil {
				w := commit(a, nil, k)
				if !samePts(s.Points(), w) || s.Len() != k || s.Type() != Simple {
					r.Failf("simple commitment of %v to %d points", a, k)
				}
				if k > 0 {
					openings(r, s, w, idx, x, va, vb)
					if !samePts(s.Points(), w) {
						r.Failf("using a simple commitment changes it")
					}
				}
			}
			if err2 == nil {
				w := commit(a, b, k)
				if !samePts(p.Points(), w) || p.Len() != k || p.Type() != Pedersen {
					r.Failf("Pedersen commitment of %v and %v to %d points", a, b, k)
				}
				if k > 0 {
					openings(r, p, w, idx, x, va, vb)
					if !samePts(p.Points(), w) {
						r.Failf("using a Pedersen commitment changes it")
					}
				}
			}
		})
	}
	for n := 0; n < vx.N(20); n++ { // commitments that are any points
		k := 1 + r.R.Intn(4)
		ps := make([]*vx.Pt, k)
		for i := range ps {
			ps[i] = r.Point()
		}
		x := r.R.Intn(20)
		r.Case("points", func() {
			w := vx.EvalPt(ps, big.NewInt(int64(x)+1))
			for _, c := range []PolynomialCommitment{SimpleCM.New(mkPs(ps)), PedersenCM.New(mkPs(ps))} {
				if !vx.Eq(c.EvaluateAt(common.NodeIndex(x)).Serialize(), w.Enc()) {
					r.Failf("EvaluateAt(%d) of %v", x, ps)
				}
				if ct := c.ConstantTerm(); !vx.Eq(ct.Serialize(), ps[0].Enc()) {
					r.Failf("ConstantTerm of %v", ps)
				} else {
					ct.AddPoints(ct, mkP(vx.G))
				}
				cl := c.Clone()
				if cl.Equal(c) != 1 || cl.Type() != c.Type() {
					r.Failf("Clone of %v", ps)
				}
				for _, q := range cl.Points() {
					q.AddPoints(q, mkP(vx.G))
				}
				if !samePts(c.Points(), ps) {
					r.Failf("the commitment changes with its clone")
				}
				o := Pedersen
				if c.Type() == Pedersen {
					o = Simple
				}
				if c.VerifyIs(c.Type(), curve.K256) != nil || c.VerifyIs(o, curve.K256) == nil || c.VerifyIs(c.Type(), curve.EccCurveType(3)) == nil {
					r.Failf("VerifyIs")
				}
			}
		})
	}
}

// openings: c commits with the points w, whose polynomials take va and vb at x
func openings(r *vx.Run, c PolynomialCommitment, w []*vx.Pt, idx common.NodeIndex, x, va, vb *big.Int) {
	e := c.EvaluateAt(idx)
	ew := vx.EvalPt(w, x)
	if !vx.Eq(e.Serialize(), ew.Enc()) {
		r.Failf("EvaluateAt(%d)", idx)
	}
	simple := c.Type() == Simple
	try := func(o CommitmentOpening, want bool, what string) {
		if c.CheckOpening(idx, o) != want {
			r.Failf("CheckOpening of a %s at %d gives %v", what, idx, !want)
		}
		g, err := c.ReturnOpeningIfConsistent(idx, o)
		if (err == nil) != want || want && g == nil {
			r.Failf("ReturnOpeningIfConsistent of a %s at %d: %v", what, idx, err)
		}
		if want {
			x, _ := g.Serialize()
			y, _ := o.Serialize()
			if !bytes.Equal(x, y) {
				r.Failf("ReturnOpeningIfConsistent gives another opening")
			}
		}
	}
	A, B := mkS(va), mkS(vb)
	try(SimpleCommitmentOpening{A}, simple, "simple opening")
	try(&SimpleCommitmentOpening{A}, simple, "simple opening (pointer)")
	try(PedersenCommitmentOpening{A, B}, !simple, "Pedersen opening")
	try(&PedersenCommitmentOpening{A, B}, !simple, "Pedersen opening (pointer)")
	va2, vb2 := r.Scalar(), r.Scalar()
	switch r.R.Intn(4) {
	case 0:
		va2 = vx.Neg(va)
	case 1:
		va2, vb2 = vb, va
	case 2:
		va2 = va
	}
	try(SimpleCommitmentOpening{mkS(va2)}, simple && vx.G.Mul(va2).Equal(ew), "wrong simple opening")
	try(PedersenCommitmentOpening{mkS(va2), mkS(vb2)}, !simple && vx.Pedersen(va2, vb2).Equal(ew), "wrong Pedersen opening")
	if c.CheckOpening(idx, nil) {
		r.Failf("no opening is accepted")
	}
	if unS(A).Cmp(va) != 0 || unS(B).Cmp(vb) != 0 {
		r.Failf("CheckOpening changes the opening")
	}
}

func TestVerif_C11_roundtrip(t *testing.T) {
	r := vx.Start(t)
	defer r.Done()
	for n := 0; n < vx.N(60); n++ {
		k := 1 + r.R.Intn(5)
		ps := make([]*vx.Pt, k)
		for i := range ps {
			ps[i] = r.Point()
		}
		a, b := r.Scalar(), r.Scalar()
		r.Case("roundtrip", func() {
			for _, c := range []PolynomialCommitment{SimpleCM.New(mkPs(ps)), PedersenCM.New(mkPs(ps))} {
				d, err := c.Serialize()
				if err != nil {
					r.Failf("Serialize of %v: %v", ps, err)
					continue
				}
				if d2, _ := c.Serialize(); !vx.Eq(d, d2) {
					r.Failf("Serialize differs the second time")
				}
				g, err := polynomialCommitment{}.Deserialize(d)
				if err != nil || g.Type() != c.Type() || !samePts(g.Points(), ps) {
					r.Failf("the commitment %v does not survive serialization: %v", ps, err)
					continue
				}
				use(r, g, c, ps)
				if !vx.Eq(c.StableRepresentation(), stable(c.Type(), ps)) || !vx.Eq(g.StableRepresentation(), stable(c.Type(), ps)) {
					r.Failf("StableRepresentation of %v", ps)
				}
				if !samePts(c.Points(), ps) {
					r.Failf("serializing changes the commitment")
				}
				equality(r, c, ps)
			}
			so, po := SimpleCommitmentOpening{mkS(a)}, PedersenCommitmentOpening{mkS(a), mkS(b)}
			d, err := so.Serialize()
			d2, err2 := (&so).Serialize()
			if err != nil || err2 != nil || !vx.Eq(d, d2) {
				r.Failf("Serialize of a simple opening: %v %v", err, err2)
			}
			g, err := Commitment.Deserialize(d)
			if v, ok := val(g); err != nil || !ok || len(v) != 1 || v[0].Cmp(a) != 0 {
				r.Failf("a simple opening of %v does not survive serialization: %v", a, err)
			} else {
				c := SimpleCM.New([]curve.EccPoint{mkP(vx.G.Mul(a))})
				if !c.CheckOpening(common.NodeIndex(r.R.Intn(5)), g) {
					r.Failf("a decoded simple opening is not accepted")
				}
				if d3, err := g.Serialize(); err != nil || !vx.Eq(d, d3) {
					r.Failf("a decoded simple opening serializes differently")
				}
			}
			d, err = po.Serialize()
			d2, err2 = (&po).Serialize()
			if err != nil || err2 != nil || !vx.Eq(d, d2) {
				r.Failf("Serialize of a Pedersen opening: %v %v", err, err2)
			}
			g, err = Commitment.Deserialize(d)
			if v, ok := val(g); err != nil || !ok || len(v) != 2 || v[0].Cmp(a) != 0 || v[1].Cmp(b) != 0 {
				r.Failf("a Pedersen opening of %v, %v does not survive serialization: %v", a, b, err)
			} else {
				c := PedersenCM.New([]curve.EccPoint{mkP(vx.Pedersen(a, b))})
				if !c.CheckOpening(common.NodeIndex(r.R.Intn(5)), g) {
					r.Failf("a decoded Pedersen opening is not accepted")
				}
				if d3, err := g.Serialize(); err != nil || !vx.Eq(d, d3) {
					r.Failf("a decoded Pedersen opening serializes differently")
				}
			}
			if o, ok := val(so.ToCommitmentOpeningBytes().ToCommitmentOpening()); !ok || len(o) != 1 || o[0].Cmp(a) != 0 {
				r.Failf("a simple opening does not survive its byte form")
			}
			if o, ok := val(po.ToCommitmentOpeningBytes().ToCommitmentOpening()); !ok || len(o) != 2 || o[0].Cmp(a) != 0 || o[1].Cmp(b) != 0 {
				r.Failf("a Pedersen opening does not survive its byte form")
			}
		})
	}
}

func val(o CommitmentOpening) ([]*big.Int, bool) {
	switch v := o.(type) {
	case SimpleCommitmentOpening:
		return unSs(v[:]), true
	case *SimpleCommitmentOpening:
		return unSs(v[:]), true
	case PedersenCommitmentOpening:
		return unSs(v[:]), true
	case *PedersenCommitmentOpening:
		return unSs(v[:]), true
	}
	return nil, false
}

func stable(ty PolynomialCommitmentType, ps []*vx.Pt) []byte {
	w := []byte{'S', 1}
	if ty == Pedersen {
		w = []byte{'P', 1}
	}
	for _, p := range ps {
		w = append(w, p.Enc()...)
	}
	return w
}

// use: g can be used where c can
func use(r *vx.Run, g, c PolynomialCommitment, ps []*vx.Pt) {
	x := common.NodeIndex(r.R.Intn(9))
	if g.Equal(c) != 1 || c.Equal(g) != 1 || g.Len() != c.Len() || g.CurveType() != c.CurveType() || g.VerifyIs(c.Type(), curve.K256) != nil {
		r.Failf("the decoded commitment %v differs from the original", ps)
	}
	if g.EvaluateAt(x).Equal(c.EvaluateAt(x)) != 1 || g.ConstantTerm().Equal(c.ConstantTerm()) != 1 {
		r.Failf("the decoded commitment %v evaluates differently", ps)
	}
	d, err := g.Serialize()
	if d2, _ := c.Serialize(); err != nil || !vx.Eq(d, d2) {
		r.Failf("the decoded commitment %v serializes differently", ps)
	}
	if g.Clone().Equal(c) != 1 {
		r.Failf("the clone of the decoded commitment differs")
	}
}

func equality(r *vx.Run, c PolynomialCommitment, ps []*vx.Pt) {
	mk := func(ty PolynomialCommitmentType, p []*vx.Pt) PolynomialCommitment {
		if ty == Simple {
			return SimpleCM.New(mkPs(p))
		}
		return PedersenCM.New(mkPs(p))
	}
	other := Simple + Pedersen - c.Type()
	if mk(other, ps).Equal(c) != 0 || c.Equal(mk(other, ps)) != 0 {
		r.Failf("commitments of different types are equal")
	}
	if mk(c.Type(), ps).Equal(c) != 1 {
		r.Failf("equal commitments differ")
	}
	q := append(append([]*vx.Pt{}, ps...), r.Point())
	if mk(c.Type(), q).Equal(c) != 0 || c.Equal(mk(c.Type(), q)) != 0 {
		r.Failf("commitments of different lengths are equal")
	}
	q = append([]*vx.Pt{}, ps...)
	i := r.R.Intn(len(q))
	switch r.R.Intn(3) {
	case 0:
		q[i] = q[i].Neg()
	case 1:
		q[i], q[0] = q[0], q[i]
	default:
		q[i] = q[i].Add(vx.G)
	}
	same := true
	for j := range q {
		same = same && q[j].Equal(ps[j])
	}
	if mk(c.Type(), q).Equal(c) != one(same) || c.Equal(mk(c.Type(), q)) != one(same) {
		r.Failf("Equal of %v and %v", ps, q)
	}
}

func TestVerif_C11_malformed(t *testing.T) {
	r := vx.Start(t)
	defer r.Done()
	enc := func(v interface{}) []byte {
		d, err := cbor.Marshal(v)
		if err != nil {
			panic(err)
		}
		return d
	}
	try := func(d []byte) {
		r.Case("malformed", func() {
			c := vx.Copy(d)
			if o, err := Commitment.Deserialize(d); err == nil {
				v, ok := val(o)
				if !ok || len(v) == 0 {
					r.Failf("decoding %x gives no opening and no error", d)
				} else if _, err := o.Serialize(); err != nil {
					r.Failf("the opening decoded from %x does not serialize", d)
				} else {
					w := "CommitmentOpening::Simple(K256(REDACTED))"
					if len(v) == 2 {
						w = "CommitmentOpening::Pedersen(K256(REDACTED), K256(REDACTED))"
					}
					if o.ToString() != w {
						r.Failf("the opening decoded from %x has type %s", d, o.ToString())
					}
				}
			}
			if o, err := (polynomialCommitment{}).Deserialize(d); err == nil {
				if o == nil || o.Len() == 0 {
					r.Failf("decoding %x gives no commitment and no error", d)
				} else {
					for _, p := range o.Points() {
						if _, ok := vx.Dec(p.Serialize()); !ok {
							r.Failf("decoding %x gives something that is no point", d)
						}
					}
					e, err := o.Serialize()
					g, err2 := polynomialCommitment{}.Deserialize(e)
					if err != nil || err2 != nil || g.Equal(o) != 1 {
						r.Failf("the commitment decoded from %x does not round-trip", d)
					}
				}
			}
			if !vx.Eq(c, d) {
				r.Failf("decoding changes its input")
			}
		})
	}
	null := []byte{0xf6}
	s1, s2 := enc(mkS(r.Scalar())), enc(mkS(r.Scalar()))
	p1, p2 := enc(mkP(r.Point())), enc(mkP(r.Point()))
	arr := func(e ...[]byte) []byte {
		o := []byte{0x80 | byte(len(e))}
		for _, x := range e {
			o = append(o, x...)
		}
		return o
	}
	msgs := [][]byte{arr(), arr(s1), arr(s1, s2), arr(s1, s2, s1), arr(null), arr(null, s1), arr(s1, null), arr(p1), arr(p1, p2), arr(p1, null), null, {0x40}, {0x60}, {0xa0},
		{0x01}, arr([]byte{0x40}), arr([]byte{0x40}, []byte{0x40}), arr(p1, s1), {}, {0x9f, 0xff}, arr(append([]byte{0x58, 0x20}, bytes.Repeat([]byte{255}, 32)...)),
		arr(append([]byte{0x58, 0x21}, bytes.Repeat([]byte{2}, 33)...)), arr(append([]byte{0x58, 0x21}, bytes.Repeat([]byte{0}, 33)...))}
	for _, m := range msgs {
		for _, ct := range []interface{}{0, 1, 2, 3, -1, nil} {
			for _, cv := range []interface{}{0, 1, 2, 255, nil} {
				func() {
					defer func() { recover() }()
					try(enc(map[string]interface{}{"CurveType": cv, "CommitType": ct, "CommitmentType": ct, "Message": cbor.RawMessage(m)}))
					try(enc(map[string]interface{}{"CurveType": cv, "CommitType": ct, "CommitmentType": ct, "Message": m}))
				}()
			}
		}
		try(m)
	}
	var good [][]byte
	a := SimpleCommitmentOpening{mkS(r.Scalar())}
	b := PedersenCommitmentOpening{mkS(r.Scalar()), mkS(r.Scalar())}
	d, _ := a.Serialize()
	good = append(good, d)
	d, _ = b.Serialize()
	good = append(good, d)
	d, _ = SimpleCM.New([]curve.EccPoint{mkP(r.Point()), mkP(r.Point())}).Serialize()
	good = append(good, d)
	d, _ = PedersenCM.New([]curve.EccPoint{mkP(r.Point())}).Serialize()
	good = append(good, d)
	for _, d := range good {
		for i := range d {
			try(d[:i])
		}
		try(append(vx.Copy(d), 0))
		for n := 0; n < vx.N(300); n++ {
			m := vx.Copy(d)
			for k := 1 + r.R.Intn(3); k > 0; k-- {
				m[r.R.Intn(len(m))] = byte(r.R.Intn(256))
			}
			try(m)
		}
	}
	for n := 0; n < vx.N(200); n++ {
		try(r.Bytes(r.R.Intn(60)))
	}
}
