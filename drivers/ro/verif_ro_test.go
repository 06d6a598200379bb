package ro_test

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/ro"
	vx "github.com/PlatONnetwork/tecdsa/verifx"
)

func mkS(n *big.Int) curve.EccScalar {
	s, err := curve.Scalar.Deserialize(curve.K256, vx.B32(n))
	if err != nil {
		panic(err)
	}
	return s
}

func mkP(p *vx.Pt) curve.EccPoint {
	r, err := curve.Point.Deserialize(curve.K256, p.Enc())
	if err != nil {
		panic(err)
	}
	return r
}

type input struct {
	name string
	kind int
	b    []byte
	n    uint64
	p    *vx.Pt
	s    *big.Int
}

func (i input) real(o *ro.RandomOracle) error {
	switch i.kind {
	case 0:
		return o.AddBytesString(i.name, i.b)
	case 1:
		return o.AddUint64(i.name, i.n)
	case 2:
		return o.AddUint32(i.name, uint32(i.n))
	case 3:
		return o.AddPoint(i.name, mkP(i.p))
	case 4:
		return o.AddScalar(i.name, mkS(i.s))
	}
	return o.AddInput(i.name, i.b, ro.RandomOracleInputType(i.n))
}

func (i input) model(o *vx.RO) {
	switch i.kind {
	case 0:
		o.Bytes(i.name, i.b)
	case 1:
		o.Int(i.name, i.n)
	case 2:
		o.Int(i.name, uint64(uint32(i.n)))
	case 3:
		o.Point(i.name, i.p)
	case 4:
		o.Scalar(i.name, i.s)
	default:
		o.Raw(i.name, byte(i.n), i.b)
	}
}

func (i input) String() string { return fmt.Sprintf("%q:%d", i.name, i.kind) }

func same(r *vx.Run, what string, o *ro.RandomOracle, m *vx.RO) {
	n := 1 + r.R.Intn(5)
	s, err := o.OutputScalars(curve.K256, n)
	if len(m.M) == 0 {
		if err == nil {
			r.Failf("%s: an oracle without inputs gives scalars", what)
		}
		if _, err := o.OutputByteString(32); err == nil {
			r.Failf("%s: an oracle without inputs gives bytes", what)
		}
		if _, err := o.OutputPoint(curve.K256); err == nil {
			r.Failf("%s: an oracle without inputs gives a point", what)
		}
		if _, err := o.OutputScalar(curve.K256); err == nil {
			r.Failf("%s: an oracle without inputs gives a scalar", what)
		}
		return
	}
	w := m.Scalars(n)
	if err != nil || len(s) != n {
		r.Failf("%s: OutputScalars: %v", what, err)
		return
	}
	for i := range s {
		if !vx.Eq(s[i].Serialize(), vx.B32(w[i])) {
			r.Failf("%s: OutputScalars[%d] = %x, want %x", what, i, s[i].Serialize(), w[i])
		}
	}
	if x, err := o.OutputScalar(curve.K256); err != nil || !vx.Eq(x.Serialize(), vx.B32(m.OutScalar())) {
		r.Failf("%s: OutputScalar: %v", what, err)
	}
	k := r.R.Intn(300)
	if b, err := o.OutputByteString(k); err != nil || !vx.Eq(b, m.OutBytes(k)) {
		r.Failf("%s: OutputByteString(%d): %v", what, k, err)
	}
	if p, err := o.OutputPoint(curve.K256); err != nil || !vx.Eq(p.Serialize(), m.OutPoint().Enc()) {
		r.Failf("%s: OutputPoint: %v", what, err)
	}
}

func TestVerif_C07_oracle(t *testing.T) {
	r := vx.Start(t)
	defer r.Done()
	names := []string{"a", "b", "ab", "A", "\x00", "\xff", "a\x00", "zz", "é"}
	for i := 0; i < vx.N(120); i++ {
		ds := string(r.Bytes(1 + r.R.Intn(40)))
		k := r.R.Intn(14)
		o, m := ro.NewRandomOracle(ds), vx.NewRO(ds)
		var ins []input
		log := ""
		for j := 0; j < k; j++ {
			in := input{kind: r.R.Intn(6), n: r.R.Uint64(), p: r.Point(), s: r.Scalar(), b: r.Bytes(r.R.Intn(80))}
			switch r.R.Intn(6) {
			case 0:
				in.name = string(r.Bytes([]int{254, 255, 256, 257, 511, 512, 700}[r.R.Intn(7)]))
			case 1:
				in.name = ""
			case 2:
				in.name = string(r.Bytes(1 + r.R.Intn(30)))
			default:
				in.name = names[r.R.Intn(len(names))]
			}
			if in.kind == 5 {
				in.n &= 255
			}
			_, dup := m.M[in.name]
			bad := dup || len(in.name) == 0 || len(in.name) > 255
			r.Case("add", func() {
				c := vx.Copy(in.b)
				err := in.real(o)
				if (err != nil) != bad {
					r.Failf("after%s: adding %v: err = %v", log, in, err)
				}
				if in.kind == 0 || in.kind == 5 {
					if !vx.Eq(c, in.b) {
						r.Failf("adding changes the bytes")
					}
					// the oracle keeps its own copy
					d := vx.Copy(in.b)
					for x := range in.b {
						in.b[x]++
					}
					in.b = d
				}
			})
			log += " " + in.String()
			if !bad {
				in.model(m)
				ins = append(ins, in)
			}
			if r.R.Intn(3) == 0 {
				r.Case("output", func() { same(r, "after"+log, o, m) })
			}
		}
		r.Case("output", func() {
			same(r, "after"+log, o, m)
			same(r, "again after"+log, o, m)
			// another order gives the same
			o2 := ro.NewRandomOracle(ds)
			for _, x := range r.R.Perm(len(ins)) {
				if err := ins[x].real(o2); err != nil {
					r.Failf("adding %v: %v", ins[x], err)
				}
			}
			same(r, "permuted"+log, o2, m)
		})
	}
	r.Case("points", func() {
		for n := 0; n < 13; n++ {
			o, m := ro.NewRandomOracle("pts"), vx.NewRO("pts")
			var ps []curve.EccPoint
			for i := 0; i < n; i++ {
				p := r.Point()
				ps = append(ps, mkP(p))
				m.Point(fmt.Sprintf("list[%d]", i), p)
			}
			if err := o.AddPoints("list", ps); err != nil {
				r.Failf("AddPoints: %v", err)
			}
			same(r, "AddPoints", o, m)
			if n > 0 {
				if err := o.AddPoints("list", ps); err == nil {
					r.Failf("AddPoints twice is no error")
				}
				same(r, "AddPoints twice", o, m)
			}
		}
	})
	// long values: the length does not wrap within what can be tried here
	for _, n := range []int{1 << 8, 1 << 16, 1<<16 + 1, 1 << 20} {
		r.Case("long", func() {
			b := r.Bytes(n)
			o, m := ro.NewRandomOracle("long"), vx.NewRO("long").Bytes("v", b)
			if err := o.AddBytesString("v", b); err != nil {
				r.Failf("value of %d bytes: %v", n, err)
			}
			same(r, "long value", o, m)
		})
	}
}
