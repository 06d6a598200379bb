// Package verifx is an independent oracle for the drivers: textbook arithmetic over math/big, sharing no code with the
// packages under test.
package verifx

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"testing"
)

func hx(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return n
}

var (
	Q  = hx("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
	P  = hx("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
	G  = &Pt{hx("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"), hx("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")}
	H  = MustDec("037bdcfc024cf697a41fd3cda2436c843af5669e50042be3314a532d5b70572f59")
	I0 = big.NewInt(0)
	I1 = big.NewInt(1)
	I7 = big.NewInt(7)
)

// ---- randomness and reporting

func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		n = 1
	}
	return n
}

func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// N scales a number of cases by the tier.
func N(quick int) int {
	if Thorough() {
		return quick * 12
	}
	return quick
}

type Run struct {
	T     *testing.T
	R     *rand.Rand
	n     int
	fails int
	what  string
}

func Start(t *testing.T) *Run {
	h := int64(0)
	for _, c := range t.Name() {
		h = h*31 + int64(c)
	}
	return &Run{T: t, R: rand.New(rand.NewSource(Seed()*1000003 + h))}
}

func (r *Run) Failf(f string, a ...interface{}) {
	r.fails++
	if r.fails <= 10 {
		fmt.Printf("VFAIL %s: %s\n", r.T.Name(), fmt.Sprintf(f, a...))
	}
	r.T.Fail()
}

// Case runs one case; a panic in it is a failure.
func (r *Run) Case(name string, f func()) {
	r.n++
	defer func() {
		if e := recover(); e != nil {
			r.Failf("%s: panic: %v", name, e)
		}
	}()
	f()
}

// Panics tells whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return
}

func (r *Run) Done() {
	b, _ := json.Marshal(map[string]interface{}{"test": r.T.Name(), "n": r.n, "seed": Seed(), "failures": r.fails})
	fmt.Printf("VCOUNT %s\n", b)
}

func (r *Run) Bytes(n int) []byte {
	b := make([]byte, n)
	r.R.Read(b)
	return b
}

func Mod(a *big.Int) *big.Int { return new(big.Int).Mod(a, Q) }

// Corner residues modulo the group order.
func CornerScalars() []*big.Int {
	h := new(big.Int).Rsh(Q, 1)
	s := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(2), big.NewInt(3)}
	for d := int64(-2); d <= 2; d++ {
		s = append(s, new(big.Int).Add(h, big.NewInt(d)))
	}
	for d := int64(1); d <= 3; d++ {
		s = append(s, new(big.Int).Sub(Q, big.NewInt(d)))
	}
	for _, k := range []uint{8, 31, 32, 63, 64, 127, 128, 192, 255} {
		s = append(s, new(big.Int).Lsh(I1, k), new(big.Int).Sub(new(big.Int).Lsh(I1, k), I1))
	}
	s = append(s, hx("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72")) // lambda
	return s
}

func (r *Run) Scalar() *big.Int {
	switch r.R.Intn(8) {
	case 0:
		c := CornerScalars()
		return new(big.Int).Set(c[r.R.Intn(len(c))])
	case 1:
		return new(big.Int).SetBytes(r.Bytes(1 + r.R.Intn(31)))
	case 2:
		return Mod(new(big.Int).Neg(new(big.Int).SetBytes(r.Bytes(1 + r.R.Intn(16)))))
	}
	return Mod(new(big.Int).SetBytes(r.Bytes(40)))
}

func (r *Run) NonZero() *big.Int {
	for {
		if s := r.Scalar(); s.Sign() != 0 {
			return s
		}
	}
}

func B32(n *big.Int) []byte {
	b := make([]byte, 32)
	n.FillBytes(b)
	return b
}

// ---- scalars modulo Q

func Add(a, b *big.Int) *big.Int { return Mod(new(big.Int).Add(a, b)) }
func Sub(a, b *big.Int) *big.Int { return Mod(new(big.Int).Sub(a, b)) }
func Mul(a, b *big.Int) *big.Int { return Mod(new(big.Int).Mul(a, b)) }
func Neg(a *big.Int) *big.Int    { return Mod(new(big.Int).Neg(a)) }
func Inv(a *big.Int) *big.Int {
	if Mod(a).Sign() == 0 {
		return big.NewInt(0)
	}
	return new(big.Int).ModInverse(a, Q)
}
func High(a *big.Int) bool { return a.Cmp(new(big.Int).Rsh(Q, 1)) > 0 }

// ---- affine points; the identity is the point with nil coordinates

type Pt struct{ X, Y *big.Int }

func Inf() *Pt { return &Pt{} }

func (a *Pt) IsInf() bool { return a.X == nil }

func pm(n *big.Int) *big.Int { return n.Mod(n, P) }

func OnCurve(x, y *big.Int) bool {
	l := pm(new(big.Int).Mul(y, y))
	r := pm(new(big.Int).Add(new(big.Int).Mul(new(big.Int).Mul(x, x), x), I7))
	return l.Cmp(r) == 0
}

func (a *Pt) Add(b *Pt) *Pt {
	if a.IsInf() {
		return b
	}
	if b.IsInf() {
		return a
	}
	var l *big.Int
	if a.X.Cmp(b.X) == 0 {
		if pm(new(big.Int).Add(a.Y, b.Y)).Sign() == 0 {
			return Inf()
		}
		n := new(big.Int).Mul(big.NewInt(3), new(big.Int).Mul(a.X, a.X))
		d := new(big.Int).ModInverse(pm(new(big.Int).Add(a.Y, a.Y)), P)
		l = pm(n.Mul(n, d))
	} else {
		n := new(big.Int).Sub(b.Y, a.Y)
		d := new(big.Int).ModInverse(pm(new(big.Int).Sub(b.X, a.X)), P)
		l = pm(n.Mul(n, d))
	}
	x := pm(new(big.Int).Sub(new(big.Int).Sub(new(big.Int).Mul(l, l), a.X), b.X))
	y := pm(new(big.Int).Sub(new(big.Int).Mul(l, new(big.Int).Sub(a.X, x)), a.Y))
	return &Pt{x, y}
}

func (a *Pt) Neg() *Pt {
	if a.IsInf() {
		return a
	}
	return &Pt{a.X, pm(new(big.Int).Neg(a.Y))}
}

func (a *Pt) Sub(b *Pt) *Pt { return a.Add(b.Neg()) }

func (a *Pt) Mul(k *big.Int) *Pt {
	k = Mod(k)
	r := Inf()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.Add(r)
		if k.Bit(i) == 1 {
			r = r.Add(a)
		}
	}
	return r
}

func (a *Pt) Equal(b *Pt) bool {
	if a.IsInf() || b.IsInf() {
		return a.IsInf() && b.IsInf()
	}
	return a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0
}

func (a *Pt) String() string { return hex.EncodeToString(a.Enc()) }

// Enc is the 33-byte compressed form (all zero for the identity).
func (a *Pt) Enc() []byte {
	if a.IsInf() {
		return make([]byte, 33)
	}
	return append([]byte{byte(2 + a.Y.Bit(0))}, B32(a.X)...)
}

func (a *Pt) Tagged() []byte { return append([]byte{1}, a.Enc()...) }

func (a *Pt) Unc() []byte {
	if a.IsInf() {
		return []byte{0}
	}
	return append(append([]byte{4}, B32(a.X)...), B32(a.Y)...)
}

func Sqrt(n *big.Int) (*big.Int, bool) {
	e := new(big.Int).Rsh(new(big.Int).Add(P, I1), 2)
	r := new(big.Int).Exp(n, e, P)
	return r, pm(new(big.Int).Mul(r, r)).Cmp(pm(new(big.Int).Set(n))) == 0
}

func LiftX(x *big.Int, odd uint) (*Pt, bool) {
	if x.Cmp(P) >= 0 {
		return nil, false
	}
	y, ok := Sqrt(new(big.Int).Add(new(big.Int).Exp(x, big.NewInt(3), P), I7))
	if !ok {
		return nil, false
	}
	if y.Bit(0) != odd {
		y = pm(new(big.Int).Neg(y))
	}
	if y.Bit(0) != odd {
		return nil, false
	}
	return &Pt{new(big.Int).Set(x), y}, true
}

// Dec is the strict decoding of compressed encodings.
func Dec(b []byte) (*Pt, bool) {
	if len(b) != 33 {
		return nil, false
	}
	switch b[0] {
	case 0:
		return Inf(), bytes.Equal(b, make([]byte, 33))
	case 2, 3:
		return LiftX(new(big.Int).SetBytes(b[1:]), uint(b[0]-2))
	}
	return nil, false
}

func MustDec(s string) *Pt {
	b, _ := hex.DecodeString(s)
	p, ok := Dec(b)
	if !ok {
		panic(s)
	}
	return p
}

func (r *Run) Point() *Pt {
	switch r.R.Intn(10) {
	case 0:
		return Inf()
	case 1:
		return G
	case 2:
		return H
	case 3:
		return G.Neg()
	}
	return G.Mul(r.Scalar())
}

// LinComb is a*A + b*B.
func LinComb(a *big.Int, A *Pt, b *big.Int, B *Pt) *Pt { return A.Mul(a).Add(B.Mul(b)) }

func Pedersen(a, b *big.Int) *Pt { return LinComb(a, G, b, H) }

// ---- RFC 9380

func Xmd(msg, dst []byte, n int) []byte {
	if len(dst) > 255 {
		h := sha256.Sum256(append([]byte("H2C-OVERSIZE-DST-"), dst...))
		dst = h[:]
	}
	dp := append(append([]byte{}, dst...), byte(len(dst)))
	ell := (n + 31) / 32
	m := make([]byte, 64)
	m = append(m, msg...)
	m = append(m, byte(n>>8), byte(n), 0)
	m = append(m, dp...)
	b0 := sha256.Sum256(m)
	var out []byte
	prev := make([]byte, 32)
	for i := 1; i <= ell; i++ {
		x := make([]byte, 32)
		for j := range x {
			x[j] = b0[j] ^ prev[j]
		}
		h := sha256.Sum256(append(append(x, byte(i)), dp...))
		prev = append([]byte{}, h[:]...)
		out = append(out, prev...)
	}
	return out[:n]
}

func HashTo(msg, dst []byte, count int, m *big.Int) []*big.Int {
	u := Xmd(msg, dst, count*48)
	var r []*big.Int
	for i := 0; i < count; i++ {
		r = append(r, new(big.Int).Mod(new(big.Int).SetBytes(u[i*48:i*48+48]), m))
	}
	return r
}

var isoA = hx("3f8731abdd661adca08a5558f0f5d272e953d363cb6f0e5d405447c01a444533")
var isoB = big.NewInt(1771)
var isoZ = pm(big.NewInt(-11))

func fsgn(x *big.Int) uint { return x.Bit(0) }

func fm(a ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, x := range a {
		r.Mul(r, x)
		r.Mod(r, P)
	}
	return r
}
func fa(a ...*big.Int) *big.Int {
	r := big.NewInt(0)
	for _, x := range a {
		r.Add(r, x)
	}
	return pm(r)
}
func fneg(a *big.Int) *big.Int { return pm(new(big.Int).Neg(a)) }
func finv(a *big.Int) *big.Int {
	if a.Sign() == 0 {
		return big.NewInt(0)
	}
	return new(big.Int).ModInverse(a, P)
}

func poly(x *big.Int, c ...string) *big.Int { // c[0] + c[1] x + ...
	r := big.NewInt(0)
	for i := len(c) - 1; i >= 0; i-- {
		r = fa(fm(r, x), hx(c[i]))
	}
	return r
}

// MapToCurve is the simplified SWU map on the 3-isogenous curve (RFC 9380 section 6.6.2, the plain version), followed by
// the isogeny of appendix E.1.
func MapToCurve(u *big.Int) *Pt {
	zu2 := fm(isoZ, u, u)
	tv1 := finv(fa(fm(zu2, zu2), zu2))
	x1 := fm(fneg(isoB), finv(isoA), fa(I1, tv1))
	if tv1.Sign() == 0 {
		x1 = fm(isoB, finv(fm(isoZ, isoA)))
	}
	g := func(x *big.Int) *big.Int { return fa(fm(x, x, x), fm(isoA, x), isoB) }
	x := x1
	y, ok := Sqrt(g(x1))
	if !ok {
		x = fm(zu2, x1)
		if y, ok = Sqrt(g(x)); !ok {
			panic("sswu")
		}
	}
	if fsgn(u) != fsgn(y) {
		y = fneg(y)
	}
	xn := poly(x, "8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa8c7", "07d3d4c80bc321d5b9f315cea7fd44c5d595d2fc0bf63b92dfff1044f17c6581", "534c328d23f234e6e2a413deca25caece4506144037c40314ecbd0b53d9dd262", "8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa88c")
	xd := poly(x, "d35771193d94918a9ca34ccbb7b640dd86cd409542f8487d9fe6b745781eb49b", "edadc6f64383dc1df7c4b2d51b54225406d36b641f5e41bbc52a56612a8c6d14", "1")
	yn := poly(x, "4bda12f684bda12f684bda12f684bda12f684bda12f684bda12f684b8e38e23c", "c75e0c32d5cb7c0fa9d0a54b12a0a6d5647ab046d686da6fdffc90fc201d71a3", "29a6194691f91a73715209ef6512e576722830a201be2018a765e85a9ecee931", "2f684bda12f684bda12f684bda12f684bda12f684bda12f684bda12f38e38d84")
	yd := poly(x, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffff93b", "7a06534bb8bdb49fd5e9e6632722c2989467c1bfc8e8d978dfb425d2685c2573", "6484aa716545ca2cf3a70c3fa8fe337e0a3d21162f0d6299a7bf8192bfd2a76f", "1")
	if xd.Sign() == 0 || yd.Sign() == 0 {
		return Inf()
	}
	return &Pt{fm(xn, finv(xd)), fm(y, yn, finv(yd))}
}

func HashToPoint(msg, dst []byte) *Pt {
	u := HashTo(msg, dst, 2, P)
	return MapToCurve(u[0]).Add(MapToCurve(u[1]))
}

// ---- the random oracle

type RO struct {
	DS string
	M  map[string][]byte
}

func NewRO(ds string) *RO { return &RO{ds, map[string][]byte{}} }

func (r *RO) add(n string, ty byte, v []byte) *RO {
	if _, ok := r.M[n]; ok {
		panic("duplicate name " + n)
	}
	var l [4]byte
	binary.BigEndian.PutUint32(l[:], uint32(len(v)))
	r.M[n] = append(append([]byte{ty}, l[:]...), v...)
	return r
}

func (r *RO) Bytes(n string, v []byte) *RO { return r.add(n, 1, v) }
func (r *RO) Int(n string, v uint64) *RO {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return r.add(n, 2, b[:])
}
func (r *RO) Point(n string, p *Pt) *RO { return r.add(n, 3, p.Tagged()) }
func (r *RO) Scalar(n string, s *big.Int) *RO {
	return r.add(n, 4, append([]byte{1}, B32(s)...))
}

func (r *RO) Encode() []byte {
	var ks []string
	for k := range r.M {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []byte
	for _, k := range ks {
		out = append(out, byte(len(k)))
		out = append(out, k...)
		out = append(out, r.M[k]...)
	}
	return out
}

func (r *RO) Scalars(n int) []*big.Int {
	return HashTo(r.Encode(), []byte(r.DS+"-secp256k1"), n, Q)
}
func (r *RO) OutScalar() *big.Int   { return r.Scalars(1)[0] }
func (r *RO) OutPoint() *Pt         { return HashToPoint(r.Encode(), []byte(r.DS+"-secp256k1")) }
func (r *RO) OutBytes(n int) []byte { return Xmd(r.Encode(), []byte(r.DS), n) }

// ---- polynomials: coefficient lists, lowest first

func Eval(p []*big.Int, x *big.Int) *big.Int {
	r := big.NewInt(0)
	for i := len(p) - 1; i >= 0; i-- {
		r = Add(Mul(r, x), p[i])
	}
	return r
}

func EvalPt(p []*Pt, x *big.Int) *Pt {
	r := Inf()
	for i := len(p) - 1; i >= 0; i-- {
		r = r.Mul(x).Add(p[i])
	}
	return r
}

// Trim drops leading zero coefficients.
func Trim(p []*big.Int) []*big.Int {
	for len(p) > 0 && p[len(p)-1].Sign() == 0 {
		p = p[:len(p)-1]
	}
	return p
}

func PolyEq(a, b []*big.Int) bool {
	a, b = Trim(a), Trim(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

func PolyAdd(a, b []*big.Int) []*big.Int {
	var r []*big.Int
	for i := 0; i < len(a) || i < len(b); i++ {
		s := big.NewInt(0)
		if i < len(a) {
			s = Add(s, a[i])
		}
		if i < len(b) {
			s = Add(s, b[i])
		}
		r = append(r, s)
	}
	return r
}

func PolyMul(a, b []*big.Int) []*big.Int {
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	r := make([]*big.Int, len(a)+len(b)-1)
	for i := range r {
		r[i] = big.NewInt(0)
	}
	for i := range a {
		for j := range b {
			r[i+j] = Add(r[i+j], Mul(a[i], b[j]))
		}
	}
	return r
}

// Lagrange gives the basis values at x for the nodes xs.
func Lagrange(xs []*big.Int, x *big.Int) []*big.Int {
	var r []*big.Int
	for i := range xs {
		n, d := big.NewInt(1), big.NewInt(1)
		for j := range xs {
			if i != j {
				n = Mul(n, Sub(x, xs[j]))
				d = Mul(d, Sub(xs[i], xs[j]))
			}
		}
		r = append(r, Mul(n, Inv(d)))
	}
	return r
}

func (r *Run) Poly(n int) []*big.Int {
	p := make([]*big.Int, n)
	for i := range p {
		p[i] = r.Scalar()
	}
	return p
}

// ---- generalized BIP32

func NextIndex(p []byte) []byte {
	o := append([]byte{}, p...)
	for i := len(o) - 1; i >= 0; i-- {
		o[i]++
		if o[i] != 0 {
			return o
		}
	}
	return append([]byte{1}, o...)
}

// Bip32 derives along the path and gives key, chain code and tweak.
func Bip32(master *Pt, path [][]byte) (*Pt, []byte, *big.Int) {
	key, cc, tw := master, make([]byte, 32), big.NewInt(0)
	for _, ix := range path {
		for {
			h := hmac.New(sha512.New, cc)
			h.Write(key.Enc())
			h.Write(ix)
			o := h.Sum(nil)
			t := new(big.Int).SetBytes(o[:32])
			if t.Cmp(Q) < 0 {
				if k := G.Mul(t).Add(key); !k.IsInf() {
					key, cc, tw = k, o[32:], Add(tw, t)
					break
				}
			}
			ix = NextIndex(ix)
		}
	}
	return key, cc, tw
}

func Hex(b []byte) string { return hex.EncodeToString(b) }
func Copy(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}
func Eq(a, b []byte) bool { return bytes.Equal(a, b) }

func (r *RO) Raw(n string, ty byte, v []byte) *RO { return r.add(n, ty, v) }
