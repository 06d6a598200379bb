package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Terms are hash-consed per TermBank (one bank per verified function).

type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SBytes Sort = "Bytes"
)

func ArrSort(s Sort) Sort     { return Sort("(Array Int " + string(s) + ")") }
func ArrSort2(k, s Sort) Sort { return Sort("(Array " + string(k) + " " + string(s) + ")") }
func splitArr(s Sort) (Sort, Sort) {
	str := string(s)
	for _, k := range []Sort{SInt, SBytes} {
		p := "(Array " + string(k) + " "
		if strings.HasPrefix(str, p) {
			return k, Sort(str[len(p) : len(str)-1])
		}
	}
	panic("not an array sort: " + str)
}
func elemSort(s Sort) Sort { _, e := splitArr(s); return e }
func isArr(s Sort) bool    { return strings.HasPrefix(string(s), "(Array ") }

// Pos is an allocation position: epoch k, count c.
type Pos struct{ k, c int }

func (p Pos) less(q Pos) bool { return p.k < q.k || (p.k == q.k && p.c < q.c) }
func (p Pos) le(q Pos) bool   { return !q.less(p) }

var posInf = Pos{1 << 30, 0}
var posNegInf = Pos{-1, 0}

// Sym is metadata of a constant symbol.
type Sym struct {
	name string
	sort Sort
	// reference bounds (valid when isRef)
	lo, hi Pos // strictly greater than lo; at most hi
	hasPos bool
	epoch  int // for epoch symbols N_k: k, otherwise -1
	// map symbols
	isMap   bool
	content Pos   // every reference stored in the map is at most this position
	base    *Term // havocked from base
	keep    Pos   // entries at positions <= keep are those of base ...
	keepAll bool  // (with all entries possibly changed when !hasKeep)
	hasKeep bool
	except  []*Term // ... except at these references
	clo     *Closure
	vmin    *big.Int // range of the entries of a map
	vmax    *big.Int
	minv    *big.Int // value range, when known
	maxv    *big.Int
	facts   []*Term // assumed wherever the symbol occurs
	lamBody *Term
	lamVar  *Term
	serial  int // creation order; 0 for symbols of the initial state
}

type Term struct {
	op    string
	args  []*Term
	coefs []*big.Int
	val   *big.Int
	str   string
	sym   *Sym
	sort  Sort
	id    int
	bound bool // contains bound variables
	ints  bool
}

type Bank struct {
	tab    map[string]*Term
	next   int
	nsym   int
	T, F   *Term
	one    *Term
	zero   *Term
	syms   map[string]*Term
	mu     sync.Mutex
	ser    map[*Term]int
	lams   map[string]*lamDef
	unfold map[string]*Sx
	known  map[*Term]*Term // entries of the initial heap with a known value
}

type lamDef struct {
	decl string
	fact *Term
}

func (b *Bank) lamDecl(name, decl string, fact *Term) {
	if b.lams == nil {
		b.lams = map[string]*lamDef{}
	}
	b.lams[name] = &lamDef{decl, fact}
}

func NewBank() *Bank {
	b := &Bank{tab: map[string]*Term{}, syms: map[string]*Term{}}
	b.T = b.mk(&Term{op: "true", sort: SBool})
	b.F = b.mk(&Term{op: "false", sort: SBool})
	b.one = b.Int(1)
	b.zero = b.Int(0)
	return b
}

func (b *Bank) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	if t.val != nil {
		sb.WriteByte('#')
		sb.WriteString(t.val.String())
	}
	if t.sym != nil {
		sb.WriteByte('$')
		sb.WriteString(t.sym.name)
	}
	if t.str != "" {
		sb.WriteByte('"')
		sb.WriteString(t.str)
	}
	if t.op == "constarr" {
		sb.WriteString(string(t.sort))
	}
	for i, a := range t.args {
		sb.WriteByte(',')
		if t.coefs != nil {
			sb.WriteString(t.coefs[i].String())
			sb.WriteByte('*')
		}
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if o, ok := b.tab[k]; ok {
		return o
	}
	t.id = b.next
	b.next++
	for _, a := range t.args {
		if a.bound {
			t.bound = true
		}
	}
	b.tab[k] = t
	return t
}

func (b *Bank) Int(i int64) *Term { return b.Big(big.NewInt(i)) }
func (b *Bank) Big(v *big.Int) *Term {
	return b.mk(&Term{op: "int", val: v, sort: SInt})
}
func (b *Bank) Bool(x bool) *Term {
	if x {
		return b.T
	}
	return b.F
}

func (b *Bank) NewSym(name string, s Sort) *Term {
	b.nsym++
	t := b.NamedSym(fmt.Sprintf("%s!%d", name, b.nsym), s)
	t.sym.serial = b.nsym
	return t
}
func (b *Bank) NamedSym(name string, s Sort) *Term {
	if t, ok := b.syms[name]; ok {
		if t.sort != s {
			panic("symbol " + name + " used at two sorts")
		}
		return t
	}
	t := b.mk(&Term{op: "sym", sym: &Sym{name: name, sort: s, epoch: -1}, sort: s})
	b.syms[name] = t
	return t
}
func (b *Bank) BoundVar(name string, s Sort) *Term {
	b.nsym++
	n := fmt.Sprintf("%s?%d", name, b.nsym)
	t := b.mk(&Term{op: "sym", sym: &Sym{name: n, sort: s, epoch: -1}, sort: s})
	t.bound = true
	return t
}

// ---- polynomials ----

type poly struct {
	m map[int]*big.Int // monomial id -> coefficient
	t map[int]*Term
}

func (b *Bank) toPoly(t *Term) *poly {
	p := &poly{map[int]*big.Int{}, map[int]*Term{}}
	switch t.op {
	case "int":
		if t.val.Sign() != 0 {
			p.m[b.one.id] = t.val
			p.t[b.one.id] = b.one
		}
	case "poly":
		for i, a := range t.args {
			p.m[a.id] = t.coefs[i]
			p.t[a.id] = a
		}
	default:
		p.m[t.id] = big.NewInt(1)
		p.t[t.id] = t
	}
	return p
}

func (b *Bank) fromPoly(p *poly) *Term {
	ids := []int{}
	for id, c := range p.m {
		if c.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 {
		return b.zero
	}
	sort.Ints(ids)
	if len(ids) == 1 {
		c, t := p.m[ids[0]], p.t[ids[0]]
		if t == b.one {
			return b.Big(c)
		}
		if c.IsInt64() && c.Int64() == 1 {
			return t
		}
	}
	n := &Term{op: "poly", sort: SInt}
	for _, id := range ids {
		n.args = append(n.args, p.t[id])
		n.coefs = append(n.coefs, p.m[id])
	}
	return b.mk(n)
}

func (p *poly) addScaled(q *poly, c *big.Int) {
	for id, d := range q.m {
		x := new(big.Int).Mul(c, d)
		if o, ok := p.m[id]; ok {
			x.Add(x, o)
		}
		p.m[id] = x
		p.t[id] = q.t[id]
	}
}

func (b *Bank) Add(xs ...*Term) *Term {
	r := &poly{map[int]*big.Int{}, map[int]*Term{}}
	one := big.NewInt(1)
	for _, x := range xs {
		if x.sort != SInt {
			panic("Add of " + string(x.sort) + ": " + x.String())
		}
		r.addScaled(b.toPoly(x), one)
	}
	return b.fromPoly(r)
}
func (b *Bank) Scale(c *big.Int, x *Term) *Term {
	r := &poly{map[int]*big.Int{}, map[int]*Term{}}
	r.addScaled(b.toPoly(x), c)
	return b.fromPoly(r)
}
func (b *Bank) Neg(x *Term) *Term    { return b.Scale(big.NewInt(-1), x) }
func (b *Bank) Sub(x, y *Term) *Term { return b.Add(x, b.Neg(y)) }
func (b *Bank) AddC(x *Term, c int64) *Term {
	return b.Add(x, b.Int(c))
}

func (b *Bank) monoMul(x, y *Term) *Term {
	if x == b.one {
		return y
	}
	if y == b.one {
		return x
	}
	var fs []*Term
	for _, t := range []*Term{x, y} {
		if t.op == "mono" {
			fs = append(fs, t.args...)
		} else {
			fs = append(fs, t)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return b.mk(&Term{op: "mono", args: fs, sort: SInt})
}

func (b *Bank) Mul(x, y *Term) *Term {
	p, q := b.toPoly(x), b.toPoly(y)
	r := &poly{map[int]*big.Int{}, map[int]*Term{}}
	for i, c := range p.m {
		for j, d := range q.m {
			m := b.monoMul(p.t[i], q.t[j])
			e := new(big.Int).Mul(c, d)
			if o, ok := r.m[m.id]; ok {
				e.Add(e, o)
			}
			r.m[m.id] = e
			r.t[m.id] = m
		}
	}
	return b.fromPoly(r)
}

func (t *Term) isInt() bool { return t.op == "int" }
func (t *Term) int64() (int64, bool) {
	if t.op == "int" && t.val.IsInt64() {
		return t.val.Int64(), true
	}
	return 0, false
}

// ---- reference positions ----

// bounds gives lo < t <= hi in allocation order, when known.
func (b *Bank) bounds(t *Term) (lo, hi Pos, ok bool) {
	switch t.op {
	case "int":
		if t.val.Sign() <= 0 {
			return posNegInf, Pos{0, -1 << 20}, true // nil and globals precede everything
		}
		return Pos{}, Pos{}, false
	case "sym":
		if t.sym.epoch >= 0 {
			return Pos{t.sym.epoch, -1}, Pos{t.sym.epoch, 0}, true
		}
		if t.sym.hasPos {
			return t.sym.lo, t.sym.hi, true
		}
	case "poly":
		if len(t.args) == 2 {
			var base *Term
			var c *big.Int
			for i, a := range t.args {
				if a == b.one {
					c = t.coefs[i]
				} else if t.coefs[i].IsInt64() && t.coefs[i].Int64() == 1 {
					base = a
				}
			}
			if base != nil && c != nil && c.IsInt64() {
				if base.op == "sym" && base.sym.epoch >= 0 {
					k := int(c.Int64())
					return Pos{base.sym.epoch, k - 1}, Pos{base.sym.epoch, k}, true
				}
				// interior reference of an object: same side of every boundary as the object
				if lo, hi, ok := b.bounds(base); ok && c.Sign() > 0 {
					return lo, hi, true
				}
			}
		}
	case "select":
		if hi, ok := b.contentBound(t.args[0]); ok {
			return posNegInf, hi, true
		}
	case "ite":
		l1, h1, ok1 := b.bounds(t.args[1])
		l2, h2, ok2 := b.bounds(t.args[2])
		if ok1 && ok2 {
			if l2.less(l1) {
				l1 = l2
			}
			if h1.less(h2) {
				h1 = h2
			}
			return l1, h1, true
		}
	}
	return Pos{}, Pos{}, false
}

// contentBound bounds every reference stored in an array term (or its rows).
func (b *Bank) contentBound(a *Term) (Pos, bool) {
	switch a.op {
	case "sym":
		if a.sym.isMap {
			return a.sym.content, true
		}
	case "select":
		return b.contentBound(a.args[0])
	case "store":
		p, ok := b.contentBound(a.args[0])
		if !ok {
			return p, false
		}
		v := a.args[2]
		var q Pos
		if v.sort == SInt {
			_, q, ok = b.bounds(v)
		} else if isArr(v.sort) {
			q, ok = b.contentBound(v)
		} else {
			q, ok = posNegInf, true
		}
		if !ok {
			return p, false
		}
		if p.less(q) {
			p = q
		}
		return p, true
	case "constarr":
		return posNegInf, true
	}
	return Pos{}, false
}

// eqRefs decides equality of two integer terms used as indices: 1 equal, 0 distinct, -1 unknown.
func (b *Bank) eqRefs(x, y *Term) int {
	if x == y {
		return 1
	}
	if x.sort == SBytes {
		switch b.Eq(x, y) {
		case b.T:
			return 1
		case b.F:
			return 0
		}
		return -1
	}
	d := b.Sub(x, y)
	if d.op == "int" {
		if d.val.Sign() == 0 {
			return 1
		}
		return 0
	}
	l1, h1, ok1 := b.bounds(x)
	l2, h2, ok2 := b.bounds(y)
	if ok1 && ok2 && (h1.le(l2) || h2.le(l1)) {
		return 0
	}
	return -1
}

// ---- arrays ----

func (b *Bank) Select(a, i *Term) *Term {
	t := b.select1(a, i)
	if b.known != nil {
		if k := b.known[t]; k != nil {
			return k
		}
	}
	return t
}

func (b *Bank) select1(a, i *Term) *Term {
	for {
		switch a.op {
		case "store":
			switch b.eqRefs(a.args[1], i) {
			case 1:
				return a.args[2]
			case 0:
				a = a.args[0]
				continue
			}
		case "constarr":
			return a.args[0]
		case "sym":
			if a.sym.lamBody != nil {
				return b.Subst(a.sym.lamBody, map[*Term]*Term{a.sym.lamVar: i})
			}
			if a.sym.base != nil && a.sym.hasKeep {
				_, hi, ok := b.bounds(i)
				if ok && hi.le(a.sym.keep) {
					all := true
					for _, e := range a.sym.except {
						if b.eqRefs(e, i) != 0 {
							all = false
							break
						}
					}
					if all {
						a = a.sym.base
						continue
					}
				}
			}
		case "ite":
			x := b.Select(a.args[1], i)
			y := b.Select(a.args[2], i)
			return b.Ite(a.args[0], x, y)
		}
		break
	}
	return b.mk(&Term{op: "select", args: []*Term{a, i}, sort: elemSort(a.sort)})
}

func (b *Bank) Store(a, i, v *Term) *Term {
	if ks, es := splitArr(a.sort); es != v.sort || ks != i.sort {
		panic(fmt.Sprintf("store sort mismatch: %s <- %s (%s)", a.sort, v.sort, v))
	}
	if a.op == "store" && b.eqRefs(a.args[1], i) == 1 {
		return b.Store(a.args[0], i, v)
	}
	return b.mk(&Term{op: "store", args: []*Term{a, i, v}, sort: a.sort})
}
func (b *Bank) ConstArr(v *Term) *Term { return b.ConstArr2(SInt, v) }
func (b *Bank) ConstArr2(k Sort, v *Term) *Term {
	return b.mk(&Term{op: "constarr", args: []*Term{v}, sort: ArrSort2(k, v.sort)})
}

// ---- booleans ----

func (b *Bank) Not(x *Term) *Term {
	switch x.op {
	case "true":
		return b.F
	case "false":
		return b.T
	case "not":
		return x.args[0]
	case "ge0":
		return b.ge0(b.Sub(b.Int(-1), x.args[0]))
	}
	return b.mk(&Term{op: "not", args: []*Term{x}, sort: SBool})
}

func (b *Bank) And(xs ...*Term) *Term {
	seen := map[int]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.sort != SBool {
			panic("And of non-bool " + x.String())
		}
		if x == b.T || seen[x.id] {
			return true
		}
		if x == b.F {
			return false
		}
		if x.op == "and" {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[b.Not(x).id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return b.F
		}
	}
	if len(out) == 0 {
		return b.T
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.mk(&Term{op: "and", args: out, sort: SBool})
}
func (b *Bank) Or(xs ...*Term) *Term {
	ys := make([]*Term, len(xs))
	for i, x := range xs {
		ys[i] = b.Not(x)
	}
	r := b.And(ys...)
	if r.op == "and" {
		zs := make([]*Term, len(r.args))
		for i, x := range r.args {
			zs[i] = b.Not(x)
		}
		return b.mk(&Term{op: "or", args: zs, sort: SBool})
	}
	return b.Not(r)
}
func (b *Bank) Implies(x, y *Term) *Term { return b.Or(b.Not(x), y) }

func (b *Bank) Ite(c, x, y *Term) *Term {
	if c == b.T || x == y {
		return x
	}
	if c == b.F {
		return y
	}
	if x.sort == SBool {
		return b.And(b.Implies(c, x), b.Or(c, y))
	}
	if c.op == "not" {
		return b.Ite(c.args[0], y, x)
	}
	return b.mk(&Term{op: "ite", args: []*Term{c, x, y}, sort: x.sort})
}

func (b *Bank) ge0(d *Term) *Term {
	if d.op == "int" {
		return b.Bool(d.val.Sign() >= 0)
	}
	// divide by the gcd of the non-constant coefficients, rounding the constant down
	if d.op == "poly" {
		g := new(big.Int)
		for i, a := range d.args {
			if a != b.one {
				g.GCD(nil, nil, g, new(big.Int).Abs(d.coefs[i]))
			}
		}
		if g.CmpAbs(big.NewInt(1)) > 0 {
			r := &poly{map[int]*big.Int{}, map[int]*Term{}}
			for i, a := range d.args {
				c := new(big.Int)
				if a == b.one {
					m := new(big.Int)
					c.DivMod(d.coefs[i], g, m)
				} else {
					c.Quo(d.coefs[i], g)
				}
				r.m[a.id] = c
				r.t[a.id] = a
			}
			d = b.fromPoly(r)
		}
	}
	if b.nonneg(d) {
		return b.T
	}
	if b.nonneg(b.Sub(b.Int(-1), d)) {
		return b.F
	}
	return b.mk(&Term{op: "ge0", args: []*Term{d}, sort: SBool})
}

// nonneg recognises manifestly nonnegative terms.
func (b *Bank) nonneg(d *Term) bool {
	lo, _ := b.rng(d)
	return lo != nil && lo.Sign() >= 0
}

func (b *Bank) Le(x, y *Term) *Term { return b.ge0(b.Sub(y, x)) }
func (b *Bank) Lt(x, y *Term) *Term { return b.ge0(b.AddC(b.Sub(y, x), -1)) }

func (b *Bank) Eq(x, y *Term) *Term {
	if x == y {
		return b.T
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("Eq of %s and %s: %s == %s", x.sort, y.sort, x, y))
	}
	switch x.sort {
	case SBool:
		if x == b.T {
			return y
		}
		if y == b.T {
			return x
		}
		if x == b.F {
			return b.Not(y)
		}
		if y == b.F {
			return b.Not(x)
		}
		if x == b.Not(y) {
			return b.F
		}
	case SInt:
		if b.eqRefs(x, y) == 0 {
			return b.F
		}
		d := b.Sub(x, y)
		if d.op == "int" {
			return b.Bool(d.val.Sign() == 0)
		}
		if d.op == "poly" {
			// canonical sign and gcd
			g := new(big.Int)
			var cst *big.Int
			for i, a := range d.args {
				if a == b.one {
					cst = d.coefs[i]
				} else {
					g.GCD(nil, nil, g, new(big.Int).Abs(d.coefs[i]))
				}
			}
			if g.CmpAbs(big.NewInt(1)) > 0 {
				if cst != nil && new(big.Int).Mod(cst, g).Sign() != 0 {
					return b.F
				}
			} else {
				g = big.NewInt(1)
			}
			r := &poly{map[int]*big.Int{}, map[int]*Term{}}
			first := true
			neg := false
			for i, a := range d.args {
				c := new(big.Int).Quo(d.coefs[i], g)
				if a != b.one && first {
					first = false
					neg = c.Sign() < 0
				}
				r.m[a.id] = c
				r.t[a.id] = a
			}
			d = b.fromPoly(r)
			if neg {
				d = b.Neg(d)
			}
			x, y = d, b.zero
			return b.mk(&Term{op: "eq0", args: []*Term{d}, sort: SBool})
		}
		// both atoms or atom vs 0
		if d.op != "poly" {
			return b.mk(&Term{op: "eq0", args: []*Term{d}, sort: SBool})
		}
	case SBytes:
		if x.op == "blit" && y.op == "blit" {
			return b.Bool(x.str == y.str)
		}
		if r := b.bytesEqSplit(x, y); r != nil {
			return r
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(&Term{op: "=", args: []*Term{x, y}, sort: SBool})
}

// Forall over integer variable(s)
func (b *Bank) Forall(vars []*Term, body *Term, pats ...*Term) *Term {
	if body == b.T || body == b.F {
		return body
	}
	t := &Term{op: "forall", sort: SBool}
	t.args = append(t.args, body)
	t.args = append(t.args, vars...)
	t.args = append(t.args, pats...)
	t.str = fmt.Sprintf("%d", len(vars))
	r := b.mk(t)
	// bound flag: closed unless other bound variables occur
	r.bound = false
	fv := map[*Term]bool{}
	freeBound(body, fv, map[*Term]bool{})
	for _, v := range vars {
		delete(fv, v)
	}
	r.bound = len(fv) > 0
	return r
}

func freeBound(t *Term, out, seen map[*Term]bool) {
	if !t.bound || seen[t] {
		return
	}
	seen[t] = true
	if t.op == "sym" {
		out[t] = true
		return
	}
	if t.op == "forall" {
		inner := map[*Term]bool{}
		freeBound(t.args[0], inner, map[*Term]bool{})
		n, _ := strconv.Atoi(t.str)
		for _, v := range t.args[1 : 1+n] {
			delete(inner, v)
		}
		for v := range inner {
			out[v] = true
		}
		return
	}
	for _, a := range t.args {
		freeBound(a, out, seen)
	}
}

func (t *Term) String() string { return t.show(6) }
func (t *Term) show(d int) string {
	switch t.op {
	case "int":
		return t.val.String()
	case "sym":
		return t.sym.name
	case "blit":
		return strconv.Quote(t.str)
	case "true", "false":
		return t.op
	}
	if d == 0 {
		return "…"
	}
	var sb strings.Builder
	if t.op == "poly" {
		sb.WriteByte('(')
		for i, a := range t.args {
			if i > 0 {
				sb.WriteString(" + ")
			}
			if a.op == "int" {
				sb.WriteString(t.coefs[i].String())
				continue
			}
			if !(t.coefs[i].IsInt64() && t.coefs[i].Int64() == 1) {
				sb.WriteString(t.coefs[i].String() + "*")
			}
			sb.WriteString(a.show(d - 1))
		}
		sb.WriteByte(')')
		return sb.String()
	}
	sb.WriteString("(" + t.op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(a.show(d - 1))
	}
	sb.WriteByte(')')
	return sb.String()
}

// Subst replaces subterms, rebuilding through the smart constructors.
func (b *Bank) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = f(a)
			ch = ch || as[i] != a
		}
		r := t
		if ch {
			r = b.rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func (b *Bank) rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "poly":
		r := b.zero
		for i, a := range as {
			r = b.Add(r, b.Scale(t.coefs[i], a))
		}
		return r
	case "mono":
		r := as[0]
		for _, a := range as[1:] {
			r = b.Mul(r, a)
		}
		return r
	case "ge0":
		return b.ge0(as[0])
	case "eq0":
		return b.Eq(as[0], b.zero)
	case "=":
		return b.Eq(as[0], as[1])
	case "not":
		return b.Not(as[0])
	case "and":
		return b.And(as...)
	case "or":
		return b.Or(as...)
	case "ite":
		return b.Ite(as[0], as[1], as[2])
	case "constarr":
		k, _ := splitArr(t.sort)
		return b.ConstArr2(k, as[0])
	case "forall":
		n, _ := strconv.Atoi(t.str)
		return b.Forall(as[1:1+n], as[0], as[1+n:]...)
	case "multipat", "kstream", "vseq", "umul", "quoq", "quop":
		return b.raw(t.op, t.sort, as...)
	}
	if strings.HasPrefix(t.op, "lamf") || t.op == "bsub" || t.op == "bat" {
		switch t.op {
		case "bsub":
			return b.Sub3(as[0], as[1], as[2])
		case "bat":
			return b.At(as[0], as[1], false)
		}
		return b.raw(t.op, t.sort, as...)
	}
	return b.App(t.op, as...)
}

// serial is the largest creation number of the symbols of a term.
func (b *Bank) serial(t *Term) int {
	if b.ser == nil {
		b.ser = map[*Term]int{}
	}
	if n, ok := b.ser[t]; ok {
		return n
	}
	n := 0
	if t.op == "sym" {
		n = t.sym.serial
	}
	for _, a := range t.args {
		if m := b.serial(a); m > n {
			n = m
		}
	}
	b.ser[t] = n
	return n
}
