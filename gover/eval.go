package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- heap ----

type Event struct {
	id            int
	keep, content Pos
}

type Heap struct {
	m  map[string]*Term
	ev []Event
}

func (h *Heap) clone() *Heap {
	n := &Heap{m: make(map[string]*Term, len(h.m)), ev: h.ev[:len(h.ev):len(h.ev)]}
	for k, t := range h.m {
		n.m[k] = t
	}
	return n
}

func (v *Ver) getMap(h *Heap, name string, s Sort, refs bool) *Term {
	if t, ok := h.m[name]; ok {
		return t
	}
	b := v.b
	t := b.NamedSym(name+"@0", s)
	v.setRange(t, name)
	if refs {
		v.setContent(t, Pos{0, 0})
	}
	for _, e := range h.ev {
		n := b.NamedSym(fmt.Sprintf("%s@%d", name, e.id), s)
		if n.sym.base == nil {
			v.setRange(n, name)
			n.sym.base, n.sym.hasKeep, n.sym.keep, n.sym.serial = t, true, e.keep, v.evSerial[e.id]
			if refs {
				v.setContent(n, e.content)
			}
			v.keepFact(n, t, e.keep, nil)
		}
		t = n
	}
	h.m[name] = t
	v.mapSort[name] = s
	v.mapRefs[name] = refs
	return t
}

// setContent: every reference stored in the map is allocated by position p.
func (v *Ver) setContent(t *Term, p Pos) {
	b := v.b
	if t.sym.isMap {
		return
	}
	t.sym.isMap, t.sym.content = true, p
	var vs []*Term
	s := t
	for isArr(s.sort) {
		ks, _ := splitArr(s.sort)
		x := b.BoundVar("r", ks)
		vs = append(vs, x)
		s = b.mk(&Term{op: "select", args: []*Term{s, x}, sort: elemSort(s.sort)})
	}
	if s.sort != SInt || len(vs) == 0 {
		return
	}
	f := b.mk(&Term{op: "ge0", sort: SBool, args: []*Term{b.Sub(v.posTerm(p), s)}})
	t.sym.facts = append(t.sym.facts, b.Forall(vs, f, s))
}

// setRange: the entries of the value ghosts are residues.
func (v *Ver) setRange(t *Term, name string) {
	b := v.b
	lo, hi := ghostRange(name)
	if lo == nil || t.sym.vmin != nil {
		return
	}
	x := b.BoundVar("r", SInt)
	s := b.mk(&Term{op: "select", args: []*Term{t, x}, sort: SInt})
	f := b.And(b.mk(&Term{op: "ge0", sort: SBool, args: []*Term{s}}), b.mk(&Term{op: "ge0", sort: SBool, args: []*Term{b.Sub(b.Big(hi), s)}}))
	t.sym.facts = append(t.sym.facts, b.Forall([]*Term{x}, f, s))
	t.sym.vmin, t.sym.vmax = lo, hi
}

// keepFact attaches to a havocked map symbol the fact that old entries are unchanged.
func (v *Ver) keepFact(n, base *Term, keep Pos, except []*Term) {
	b := v.b
	ks, _ := splitArr(n.sort)
	if ks != SInt {
		return
	}
	x := b.BoundVar("r", SInt)
	hyp := []*Term{b.mk(&Term{op: "ge0", sort: SBool, args: []*Term{b.Sub(v.posTerm(keep), x)}})}
	for _, e := range except {
		hyp = append(hyp, b.Not(b.Eq(x, e)))
	}
	l := b.mk(&Term{op: "select", args: []*Term{n, x}, sort: elemSort(n.sort)})
	r := b.mk(&Term{op: "select", args: []*Term{base, x}, sort: elemSort(n.sort)})
	if l == r {
		return
	}
	if l.id > r.id {
		l, r = r, l
	}
	eq := b.mk(&Term{op: "=", args: []*Term{l, r}, sort: SBool})
	n.sym.facts = append(n.sym.facts, b.Forall([]*Term{x}, b.Implies(b.And(hyp...), eq), b.mk(&Term{op: "select", args: []*Term{n, x}, sort: elemSort(n.sort)})))
}

func (v *Ver) epochSym(k int) *Term {
	t := v.b.NamedSym(fmt.Sprintf("N%d", k), SInt)
	t.sym.epoch = k
	t.sym.minv = new(big.Int)
	return t
}

func (v *Ver) posTerm(p Pos) *Term { return v.b.AddC(v.epochSym(p.k), int64(p.c)) }

func leafMap(base types.Type, l Leaf) string { return "F:" + shortType(base) + "#" + l.name }
func elemMap(elem types.Type, l Leaf) string { return "E:" + shortType(elem) + "#" + l.name }
func isRefKind(l Leaf) bool                  { return l.kind == "ref" || l.kind == "data" }
func isByteArr(l Leaf) bool {
	if l.kind != "bytes" {
		return false
	}
	_, ok := l.typ.Underlying().(*types.Array)
	return ok
}

// subIndex: number of byte arrays before leaf i of an object of type t.
func (v *Ver) subIndex(t types.Type, i int) int {
	n := 0
	for j, l := range v.w.layout(t) {
		if j >= i {
			break
		}
		if isByteArr(l) {
			n++
		}
	}
	return n
}

func isArrayObj(t types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	return ok && isByteType(a.Elem())
}

// loadObj reads leaves [off,off+n) of the object of type t at ref.
func (v *Ver) loadObj(h *Heap, t types.Type, ref *Term, off, n int) []*Term {
	b := v.b
	ls := v.w.layout(t)
	out := make([]*Term, n)
	for i := 0; i < n; i++ {
		l := ls[off+i]
		if isByteArr(l) {
			r := ref
			if !isArrayObj(t) {
				r = b.AddC(ref, int64(1+v.subIndex(t, off+i)))
			}
			out[i] = b.Select(v.getMap(h, "B", ArrSort(SBytes), false), r)
			continue
		}
		out[i] = b.Select(v.getMap(h, leafMap(t, l), ArrSort(l.sort), isRefKind(l)), ref)
	}
	return out
}

func (v *Ver) loadElem(h *Heap, elem types.Type, arr, idx *Term, off, n int) []*Term {
	b := v.b
	if isByteType(elem) {
		return []*Term{b.At(b.Select(v.getMap(h, "B", ArrSort(SBytes), false), arr), idx, true)}
	}
	ls := v.w.layout(elem)
	out := make([]*Term, n)
	for i := 0; i < n; i++ {
		l := ls[off+i]
		m := v.getMap(h, elemMap(elem, l), ArrSort(ArrSort(l.sort)), isRefKind(l))
		out[i] = b.Select(b.Select(m, arr), idx)
	}
	return out
}

func (v *Ver) sliceBytes(h *Heap, l []*Term) *Term {
	b := v.b
	if l[0] == b.zero {
		return b.Emp()
	}
	x := b.Select(v.getMap(h, "B", ArrSort(SBytes), false), l[0])
	if l[1] == b.zero && v.dirtySt != nil && v.dirtySt.fset[b.Eq(l[2], b.Len(x))] {
		return x
	}
	return b.Sub3(x, l[1], l[2])
}

// ---- specification values ----

type SV struct {
	typ types.Type // nil: a logical term
	l   []*Term
}

type Env struct {
	v     *Ver
	heap  *Heap
	old   *Heap
	entry *Heap
	names map[string]*SV
	look  func(string, *Heap) *SV
	olook func(string, *Heap) *SV
	base  Pos // fresh(x): allocated after this position
	pkg   *types.Package
	bnd   int
}

func (e *Env) with(h *Heap) *Env {
	n := *e
	n.heap = h
	return &n
}

func specFail(f string, a ...interface{}) { panic(unsup{fmt.Sprintf(f, a...)}) }

func (e *Env) term(x *Expr) *Term {
	s := e.eval(x)
	if len(s.l) != 1 {
		specFail("%s is not a single value", x)
	}
	return s.l[0]
}

func (e *Env) bool(x *Expr) *Term {
	t := e.term(x)
	if t.sort != SBool {
		specFail("%s is not boolean", x)
	}
	return t
}

func logic(t *Term) *SV { return &SV{nil, []*Term{t}} }

func (e *Env) name(n string) *SV {
	if s, ok := e.names[n]; ok {
		return s
	}
	if e.look != nil {
		if s := e.look(n, e.heap); s != nil {
			return s
		}
	}
	return nil
}

// object returns the static type seen through a single-implementer interface.
func (e *Env) conc(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		if s := e.v.w.single(t); s != nil {
			return s
		}
	}
	return t
}

func (e *Env) sel(s *SV, name string, x *Expr) *SV {
	t := e.conc(s.typ)
	if t == nil {
		specFail("selector .%s on a logical value in %s", name, x)
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		st, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			specFail("selector .%s on %s", name, t)
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				ft := st.Field(i).Type()
				off := e.v.w.fieldOffset(st, i)
				n := len(e.v.w.layout(ft))
				return &SV{ft, e.v.loadObj(e.heap, p.Elem(), s.l[0], off, n)}
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				ft := st.Field(i).Type()
				off := e.v.w.fieldOffset(st, i)
				return e.sel(&SV{ft, e.v.loadObj(e.heap, p.Elem(), s.l[0], off, len(e.v.w.layout(ft)))}, name, x)
			}
		}
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				ft := st.Field(i).Type()
				off := e.v.w.fieldOffset(st, i)
				return &SV{ft, s.l[off : off+len(e.v.w.layout(ft))]}
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				ft := st.Field(i).Type()
				off := e.v.w.fieldOffset(st, i)
				return e.sel(&SV{ft, s.l[off : off+len(e.v.w.layout(ft))]}, name, x)
			}
		}
	}
	specFail("no field %s in %s (%s)", name, t, x)
	return nil
}

func (e *Env) refOf(s *SV) *Term {
	if s.typ != nil {
		switch u := s.typ.Underlying().(type) {
		case *types.Interface:
			if len(s.l) == 2 {
				return s.l[1]
			}
		case *types.Slice:
			return s.l[0]
		case *types.Array:
			_ = u
		}
	}
	return s.l[0]
}

func (v *Ver) repMode() bool {
	return v.fn != nil && v.fn.Pkg != nil && v.fn.Pkg.Pkg.Name() == "curve"
}

var repField = map[string]struct{ typ, field, ghost, rep string }{
	"V": {"curve.Secp256k1Scalar", "scalar", "SV", "FV"},
	"R": {"curve.Secp256k1Field", "field", "RV", "FV"},
	"P": {"curve.Secp256k1Point", "point", "PV", "GV"},
}

// repLoc gives the ghost map and index behind V, R and P.
func (e *Env) repLoc(kind string, s *SV) (string, *Term) {
	r := repField[kind]
	ref := e.refOf(s)
	if s.typ != nil && shortType(s.typ) == r.typ {
		if !e.v.repMode() {
			specFail("%s of a struct value outside its package", kind)
		}
		return r.rep, ref
	}
	if e.v.repMode() {
		in := e.sel(&SV{types.NewPointer(e.v.w.lookupType(r.typ)), []*Term{ref}}, r.field, nil)
		if st := e.v.dirtySt; st != nil && !ref.bound && in.l[0].op == "select" && in.l[0].args[0].op == "sym" && e.v.entry != nil {
			for _, f := range e.v.ownFacts(r.typ, r.rep, ref, in.l[0]) {
				e.v.assume(st, e.v.b.Implies(e.v.b.Not(e.v.b.Eq(ref, e.v.b.zero)), f))
			}
		}
		return r.rep, in.l[0]
	}
	return r.ghost, ref
}

func (e *Env) ghost(name string, ref *Term) *Term {
	s, ok := e.v.sp.ghosts[name]
	if !ok {
		specFail("unknown ghost %s", name)
	}
	if name == "GV" {
		if t := e.v.dirtyPoint(e.heap, ref); t != nil {
			return t
		}
	}
	t := e.v.b.Select(e.v.getMap(e.heap, name, s, false), ref)
	if name == "FM" && t.op != "int" && e.v.dirtySt != nil {
		for k := int64(1); k <= 2; k++ {
			if e.v.dirtySt.fset[e.v.b.Eq(t, e.v.b.Int(k))] {
				return e.v.b.Int(k)
			}
		}
	}
	return t
}

func (e *Env) call(x *Expr) *SV {
	v, b := e.v, e.v.b
	arg := func(i int) *SV {
		if i >= len(x.args) {
			specFail("missing argument in %s", x)
		}
		return e.eval(x.args[i])
	}
	switch x.name {
	case "old":
		n := e.with(e.old)
		if e.olook != nil {
			n.look = e.olook
			n.names = map[string]*SV{}
			for k, s := range e.names {
				n.names[k] = s
			}
		}
		return n.eval(x.args[0])
	case "entry":
		return e.with(e.entry).eval(x.args[0])
	case "len":
		s := arg(0)
		if s.typ == nil {
			return logic(b.Len(s.l[0]))
		}
		switch u := s.typ.Underlying().(type) {
		case *types.Slice:
			return logic(s.l[2])
		case *types.Array:
			return logic(b.Int(u.Len()))
		case *types.Basic:
			return logic(b.Len(s.l[0]))
		}
		specFail("len of %s", s.typ)
	case "cap":
		return logic(arg(0).l[3])
	case "arr":
		return logic(arg(0).l[0])
	case "ref":
		return logic(e.refOf(arg(0)))
	case "tag":
		return logic(arg(0).l[0])
	case "V", "R", "P":
		m, ref := e.repLoc(x.name, arg(0))
		return logic(e.ghost(m, ref))
	case "bytes":
		s := arg(0)
		if s.typ == nil {
			return s
		}
		switch u := s.typ.Underlying().(type) {
		case *types.Slice:
			return logic(v.sliceBytes(e.heap, s.l))
		case *types.Pointer:
			return logic(v.loadObj(e.heap, u.Elem(), s.l[0], 0, 1)[0])
		}
		return logic(s.l[0])
	case "fresh": // allocated after the base position
		s := arg(0)
		r := e.refOf(s)
		if lo, _, ok := b.bounds(r); ok && e.base.le(lo) {
			return logic(b.T)
		}
		return logic(b.mk(&Term{op: "ge0", sort: SBool, args: []*Term{b.Sub(r, b.AddC(v.posTerm(e.base), 1))}}))
	case "lam":
		return logic(e.lam(x))
	case "mhas":
		m := arg(0)
		return logic(b.Select(v.mapDom(e.heap, m.typ, m.l[0]), e.key(arg(1))))
	case "mget":
		m := arg(0)
		_, vt := v.mapTypes(m.typ)
		return &SV{vt, v.fixOff(v.w.layout(vt), v.mapVal(e.heap, m.typ, m.l[0], e.key(arg(1))))}
	case "dom":
		m := arg(0)
		return logic(v.mapDom(e.heap, m.typ, m.l[0]))
	case "mval": // the array of values (reference leaf i)
		m := arg(0)
		k := 0
		if len(x.args) > 1 {
			n, _ := e.term(x.args[1]).int64()
			k = int(n)
		}
		return logic(v.mapValArr(e.heap, m.typ, m.l[0], k))
	case "typed": // typed(x, "T"): view a reference as a pointer
		s := arg(0)
		return &SV{v.w.lookupType(x.args[1].name), []*Term{e.refOf(s)}}
	case "tagof":
		return logic(b.Int(int64(v.w.tag(v.w.lookupType(x.args[0].name)))))
	case "if":
		c := e.bool(x.args[0])
		p, q := arg(1), arg(2)
		l := make([]*Term, len(p.l))
		for i := range l {
			l[i] = b.Ite(c, p.l[i], q.l[i])
		}
		return &SV{p.typ, l}
	case "sel":
		return logic(b.Select(e.term(x.args[0]), e.key(arg(1))))
	}
	if mac, ok := v.sp.macros[x.name]; ok {
		if len(mac.params) != len(x.args) {
			specFail("macro %s: %d arguments, want %d", x.name, len(x.args), len(mac.params))
		}
		n := *e
		n.names = map[string]*SV{}
		for i, p := range mac.params {
			n.names[p] = arg(i)
		}
		outer := e
		n.look = func(s string, _ *Heap) *SV {
			_ = outer
			return nil
		}
		n.olook = nil
		return n.eval(mac.body)
	}
	if a := prelByName[x.name]; a != nil {
		return logic(e.instance(a, x))
	}
	if _, ok := v.sp.ghosts[x.name]; ok {
		if len(x.args) == 0 {
			return logic(v.getMap(e.heap, x.name, v.sp.ghosts[x.name], false))
		}
		return logic(e.ghost(x.name, e.refOf(arg(0))))
	}
	args := make([]*Term, len(x.args))
	for i := range args {
		s := arg(i)
		if len(s.l) == 1 {
			args[i] = s.l[0]
			continue
		}
		if s.typ != nil {
			if sl, ok := s.typ.Underlying().(*types.Slice); ok && isByteType(sl.Elem()) {
				args[i] = v.sliceBytes(e.heap, s.l)
				continue
			}
		}
		specFail("argument %d of %s is not a single value", i, x.name)
	}
	return logic(b.App(x.name, args...))
}

func (e *Env) key(s *SV) *Term {
	if len(s.l) == 1 {
		return s.l[0]
	}
	return e.v.sliceBytes(e.heap, s.l)
}

func (e *Env) lamVar(s Sort) *Term {
	n := fmt.Sprintf("lam?%d", e.bnd)
	k := n + string(s)
	if t, ok := e.v.lamVars[k]; ok {
		return t
	}
	t := e.v.b.mk(&Term{op: "sym", sym: &Sym{name: n, sort: s, epoch: -1}, sort: s})
	t.bound = true
	e.v.lamVars[k] = t
	return t
}

// lam(j, body): the array j -> body, named after its normalised body.
func (e *Env) lam(x *Expr) *Term {
	b := e.v.b
	n := *e
	n.bnd++
	j := n.lamVar(SInt)
	n.names = map[string]*SV{}
	for k, s := range e.names {
		n.names[k] = s
	}
	n.names[x.args[0].name] = logic(j)
	body := n.term(x.args[1])
	// eta: j -> select(a, j)
	if body.op == "select" && body.args[1] == j && !occurs(body.args[0], j) {
		return body.args[0]
	}
	key := fmt.Sprintf("lam%d", body.id)
	s := ArrSort(body.sort)
	fv := map[*Term]bool{}
	freeBound(body, fv, map[*Term]bool{})
	delete(fv, j)
	if len(fv) > 0 {
		// depends on outer bound variables: a function of them
		var vs []*Term
		for o := range fv {
			vs = append(vs, o)
		}
		sort.Slice(vs, func(i, k int) bool { return vs[i].id < vs[k].id })
		name := fmt.Sprintf("lamf%d", body.id)
		app := b.raw(name, s, vs...)
		if _, ok := e.v.lamFns[name]; !ok {
			var as []string
			for _, o := range vs {
				as = append(as, string(o.sort))
			}
			all := append(append([]*Term(nil), vs...), j)
			sel := b.mk(&Term{op: "select", args: []*Term{app, j}, sort: body.sort})
			e.v.lamFns[name] = true
			b.lamDecl(name, "(declare-fun "+name+" ("+strings.Join(as, " ")+") "+string(s)+")", b.Forall(all, b.mkEq(sel, body), sel))
		}
		return app
	}
	if t, ok := b.syms[key]; ok {
		return t
	}
	t := b.NamedSym(key, s)
	t.sym.serial = b.serial(body)
	sel := b.mk(&Term{op: "select", args: []*Term{t, j}, sort: body.sort})
	t.sym.facts = append(t.sym.facts, b.Forall([]*Term{j}, b.mkEq(sel, body), sel))
	t.sym.lamBody, t.sym.lamVar = body, j
	return t
}

func occurs(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if occurs(a, x) {
			return true
		}
	}
	return false
}

// mkEq is an equation that is not simplified away.
func (b *Bank) mkEq(x, y *Term) *Term {
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(&Term{op: "=", args: []*Term{x, y}, sort: SBool})
}

func (e *Env) pkgMember(p *types.Package, name string) *SV {
	o := p.Scope().Lookup(name)
	switch c := o.(type) {
	case *types.Const:
		switch c.Val().Kind() {
		case constant.Int:
			n, _ := new(big.Int).SetString(c.Val().ExactString(), 10)
			return &SV{c.Type(), []*Term{e.v.b.Big(n)}}
		case constant.String:
			return &SV{c.Type(), []*Term{e.v.b.Lit(constant.StringVal(c.Val()))}}
		case constant.Bool:
			return &SV{c.Type(), []*Term{e.v.b.Bool(constant.BoolVal(c.Val()))}}
		}
	case *types.Var:
		sp := e.v.w.prog.Package(p)
		if g, ok := sp.Members[name].(*ssa.Global); ok {
			t := g.Type().Underlying().(*types.Pointer).Elem()
			return &SV{t, e.v.loadObj(e.heap, t, e.v.b.Int(e.v.w.globals[g]), 0, len(e.v.w.layout(t)))}
		}
	}
	return nil
}

func (e *Env) eval(x *Expr) *SV {
	v, b := e.v, e.v.b
	switch x.op {
	case "num":
		return logic(b.Big(x.num))
	case "str":
		return logic(b.Lit(x.name))
	case "true":
		return logic(b.T)
	case "false":
		return logic(b.F)
	case "nil":
		return &SV{types.Typ[types.UntypedNil], []*Term{b.zero}}
	case "id":
		if s := e.name(x.name); s != nil {
			return s
		}
		if _, ok := funSigs[x.name]; ok && len(funSigs[x.name].args) == 0 {
			return logic(b.App(x.name))
		}
		if s, ok := v.sp.ghosts[x.name]; ok {
			return logic(v.getMap(e.heap, x.name, s, false))
		}
		if e.pkg != nil {
			if s := e.pkgMember(e.pkg, x.name); s != nil {
				return s
			}
		}
		specFail("unknown name %s", x.name)
	case "sel":
		if x.args[0].op == "id" && e.name(x.args[0].name) == nil {
			if p := v.w.pkgs[x.args[0].name]; p != nil {
				if s := e.pkgMember(p.Pkg, x.name); s != nil {
					return s
				}
			}
		}
		return e.sel(e.eval(x.args[0]), x.name, x)
	case "index":
		s := e.eval(x.args[0])
		i := e.term(x.args[1])
		if s.typ == nil {
			if s.l[0].sort == SBytes {
				return logic(b.At(s.l[0], i, false))
			}
			return logic(b.Select(s.l[0], i))
		}
		switch u := s.typ.Underlying().(type) {
		case *types.Slice:
			return &SV{u.Elem(), v.loadElem(e.heap, u.Elem(), s.l[0], b.Add(s.l[1], i), 0, len(v.w.layout(u.Elem())))}
		case *types.Array:
			if isByteType(u.Elem()) {
				return logic(b.At(s.l[0], i, false))
			}
			if k, ok := i.int64(); ok {
				n := len(v.w.layout(u.Elem()))
				return &SV{u.Elem(), s.l[int(k)*n : int(k+1)*n]}
			}
		case *types.Basic:
			return logic(b.At(s.l[0], i, false))
		}
		specFail("index of %s", s.typ)
	case "call":
		return e.call(x)
	case "un":
		t := e.term(x.args[0])
		if x.name == "!" {
			return logic(b.Not(t))
		}
		return logic(b.Neg(t))
	case "cond":
		c := e.bool(x.args[0])
		p, q := e.eval(x.args[1]), e.eval(x.args[2])
		l := make([]*Term, len(p.l))
		for i := range l {
			l[i] = b.Ite(c, p.l[i], q.l[i])
		}
		return &SV{p.typ, l}
	case "is":
		s := e.eval(x.args[0])
		t := v.w.lookupType(x.name)
		if len(s.l) == 2 {
			return logic(b.Eq(s.l[0], b.Int(int64(v.w.tag(t)))))
		}
		return logic(b.Not(b.Eq(s.l[0], b.zero)))
	case "as":
		s := e.eval(x.args[0])
		t := v.w.lookupType(x.name)
		ref := e.refOf(s)
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return &SV{t, []*Term{ref}}
		}
		return &SV{t, v.loadObj(e.heap, t, ref, 0, len(v.w.layout(t)))}
	case "forall":
		if x.args[0].op == "sort" {
			srt := SInt
			if x.args[0].name == "bytes" {
				srt = SBytes
			}
			bv := b.BoundVar(x.name, srt)
			n := *e
			n.bnd += 10
			n.names = map[string]*SV{}
			for a, s := range e.names {
				n.names[a] = s
			}
			n.names[x.name] = logic(bv)
			body := n.bool(x.args[2])
			var pats []*Term
			for _, t := range x.trig {
				pats = append(pats, n.term(t))
			}
			if len(pats) > 1 {
				pats = []*Term{b.raw("multipat", SBool, pats...)}
			}
			return logic(b.Forall([]*Term{bv}, body, pats...))
		}
		lo, hi := e.term(x.args[0]), e.term(x.args[1])
		if l, ok := lo.int64(); ok {
			if h, ok := hi.int64(); ok && h-l <= 4 {
				out := []*Term{}
				for k := l; k < h; k++ {
					n := *e
					n.names = map[string]*SV{}
					for a, s := range e.names {
						n.names[a] = s
					}
					n.names[x.name] = logic(b.Int(k))
					out = append(out, n.bool(x.args[2]))
				}
				return logic(b.And(out...))
			}
		}
		bv := b.BoundVar(x.name, SInt)
		n := *e
		n.bnd += 10
		n.names = map[string]*SV{}
		for a, s := range e.names {
			n.names[a] = s
		}
		n.names[x.name] = logic(bv)
		body := n.bool(x.args[2])
		var pats []*Term
		for _, t := range x.trig {
			pats = append(pats, n.term(t))
		}
		if len(pats) > 1 {
			pats = []*Term{b.raw("multipat", SBool, pats...)}
		}
		if len(pats) == 0 {
			pats = autoPats(body, bv)
		}
		for _, t := range pats[:len(pats):len(pats)] {
			if t.op == "bat" && t.args[1] == bv && t.args[0].op == "bsub" && t.args[0].args[1] == b.zero {
				pats = append(pats, b.raw("bat", SInt, t.args[0].args[0], bv))
			}
		}
		g := b.Implies(b.And(b.Le(lo, bv), b.Lt(bv, hi)), body)
		return logic(b.Forall([]*Term{bv}, g, pats...))
	case "bin":
		return e.bin(x)
	}
	specFail("cannot evaluate %s", x)
	return nil
}

// autoPats picks the smallest selections indexed by the bound variable.
func autoPats(t, bv *Term) []*Term {
	best := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		if t.op == "forall" {
			walk(t.args[0])
			return
		}
		direct := false
		switch t.op {
		case "poly", "mono", "ge0", "eq0", "and", "or", "not", "=", "ite", "true", "false", "int", "sym", "div", "mod":
		default:
			for _, a := range t.args {
				if a == bv {
					direct = true
				}
				if a.op == "poly" && occurs(a, bv) {
					direct = true
				}
			}
		}
		if direct {
			fv := map[*Term]bool{}
			freeBound(t, fv, map[*Term]bool{})
			if len(fv) == 1 {
				best[t] = true
				return
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	var out []*Term
	for p := range best {
		// prefer patterns without arithmetic on the variable
		out = append(out, p)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	var plain []*Term
	for _, p := range out {
		arith := false
		for _, a := range p.args {
			if a.op == "poly" && occurs(a, bv) {
				arith = true
			}
		}
		if !arith {
			plain = append(plain, p)
		}
	}
	if len(plain) > 0 {
		return plain
	}
	return out
}

func (e *Env) eqSV(p, q *SV) *Term {
	b := e.v.b
	isNil := func(s *SV) bool {
		if s.typ == nil {
			return false
		}
		bt, ok := s.typ.(*types.Basic)
		return ok && bt.Kind() == types.UntypedNil
	}
	if isNil(q) || isNil(p) {
		if isNil(p) {
			p, q = q, p
		}
		return b.Eq(p.l[0], b.zero)
	}
	if len(p.l) != len(q.l) {
		if p.typ != nil && q.typ == nil && q.l[0].sort == SBytes {
			return b.Eq(e.v.sliceBytes(e.heap, p.l), q.l[0])
		}
		specFail("comparison of different shapes")
	}
	var cs []*Term
	for i := range p.l {
		cs = append(cs, b.Eq(p.l[i], q.l[i]))
	}
	return b.And(cs...)
}

func (e *Env) bin(x *Expr) *SV {
	b := e.v.b
	switch x.name {
	case "&&":
		return logic(b.And(e.bool(x.args[0]), e.bool(x.args[1])))
	case "||":
		return logic(b.Or(e.bool(x.args[0]), e.bool(x.args[1])))
	case "==>":
		h := e.bool(x.args[0])
		if h == b.F {
			return logic(b.T)
		}
		return logic(b.Implies(h, e.bool(x.args[1])))
	case "<==>":
		return logic(b.Eq(e.bool(x.args[0]), e.bool(x.args[1])))
	case "==":
		return logic(e.eqSV(e.eval(x.args[0]), e.eval(x.args[1])))
	case "!=":
		return logic(b.Not(e.eqSV(e.eval(x.args[0]), e.eval(x.args[1]))))
	}
	l, r := e.term(x.args[0]), e.term(x.args[1])
	switch x.name {
	case "+":
		if l.sort == SBytes {
			return logic(b.Cat(l, r))
		}
		return logic(b.Add(l, r))
	case "-":
		return logic(b.Sub(l, r))
	case "*":
		return logic(b.Mul(l, r))
	case "/":
		return logic(b.Div(l, r))
	case "%":
		return logic(b.Mod(l, r))
	case "<":
		return logic(b.Lt(l, r))
	case "<=":
		return logic(b.Le(l, r))
	case ">":
		return logic(b.Lt(r, l))
	case ">=":
		return logic(b.Le(r, l))
	}
	specFail("operator %s", x.name)
	return nil
}

// ---- maps (built-in maps and btree.Map) ----

func (v *Ver) mapTypes(t types.Type) (k, e types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if m, ok := t.Underlying().(*types.Map); ok {
		return m.Key(), m.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.TypeArgs().Len() == 2 {
		return n.TypeArgs().At(0), n.TypeArgs().At(1)
	}
	specFail("not a map: %s", t)
	return nil, nil
}

func (v *Ver) keySort(t types.Type) Sort {
	return v.w.layout(t)[0].sort
}

func (v *Ver) domName(t types.Type) (string, Sort) {
	k, _ := v.mapTypes(t)
	ks := v.keySort(k)
	return "MD:" + string(ks), ArrSort(ArrSort2(ks, SBool))
}

func (v *Ver) mapDom(h *Heap, t types.Type, ref *Term) *Term {
	n, s := v.domName(t)
	return v.b.Select(v.getMap(h, n, s, false), ref)
}

func (v *Ver) valName(t types.Type, i int) (string, Sort, Leaf) {
	k, e := v.mapTypes(t)
	ks := v.keySort(k)
	l := v.w.layout(e)[i]
	return "MV:" + string(ks) + ":" + shortType(e) + "#" + l.name, ArrSort(ArrSort2(ks, l.sort)), l
}

func (v *Ver) mapValArr(h *Heap, t types.Type, ref *Term, i int) *Term {
	n, s, l := v.valName(t, i)
	return v.b.Select(v.getMap(h, n, s, isRefKind(l)), ref)
}

func (v *Ver) mapVal(h *Heap, t types.Type, ref, key *Term) []*Term {
	_, e := v.mapTypes(t)
	out := make([]*Term, len(v.w.layout(e)))
	for i := range out {
		out[i] = v.b.Select(v.mapValArr(h, t, ref, i), key)
	}
	return out
}
