package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type scanCtx struct{ m *Value }

func (v *Ver) specEnv(st *State) *Env {
	v.dirtySt = st
	e := &Env{v: v, heap: st.heap, old: v.entry, entry: v.entry, names: map[string]*SV{}, base: Pos{0, 0}}
	if v.fn != nil && v.fn.Pkg != nil {
		e.pkg = v.fn.Pkg.Pkg
	}
	e.look = func(n string, h *Heap) *SV {
		if s, ok := v.entryEnv[n]; ok {
			return s
		}
		return nil
	}
	return e
}

// ---- calls ----

func (v *Ver) call(st *State, x *ssa.Call) bool {
	c := x.Common()
	done := func(st *State, res []*Value) {
		var r *Value
		switch len(res) {
		case 0:
			r = &Value{typ: x.Type()}
		case 1:
			q := *res[0]
			r = &q
			if c.Signature().Results().Len() == 1 {
				r.typ = c.Signature().Results().At(0).Type()
			}
		default:
			r = &Value{typ: x.Type(), tup: res}
		}
		st.top().env[x] = r
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		return v.builtin(st, x, bi.Name(), done)
	}
	var args []*Value
	for _, a := range c.Args {
		args = append(args, v.val(st, a))
	}
	if fn := c.StaticCallee(); fn != nil && fnKey(fn) == "fmt.Sprintf" {
		if t := v.sprintf(st, c); t != nil {
			done(st, []*Value{{typ: x.Type(), l: []*Term{t}}})
			return true
		}
	}
	if c.IsInvoke() {
		recv := v.val(st, c.Value)
		return v.invoke(st, recv, c.Method, args, done)
	}
	if fn := c.StaticCallee(); fn != nil {
		var binds []*Value
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			binds = v.val(st, mc).clo.binds
		}
		return v.callFn(st, fn, fnKey(fn), args, binds, done)
	}
	f := v.val(st, c.Value)
	if f.clo == nil {
		v.fail("call of unknown function value %s", c.Value)
	}
	return v.callFn(st, f.clo.fn, fnKey(f.clo.fn), args, f.clo.binds, done)
}

func (v *Ver) invoke(st *State, recv *Value, m *types.Func, args []*Value, done func(*State, []*Value)) bool {
	b := v.b
	w := v.w
	if len(recv.l) == 1 {
		v.nonNil(st, recv.l[0], "receiver of "+m.Name())
		if st.dead {
			return false
		}
		if im := w.single(recv.typ); im != nil {
			return v.callMethod(st, im, recv.l[0], m, args, done)
		}
		key := methodKey(recv.typ, m.Name())
		return v.callFn(st, nil, key, append([]*Value{recv}, args...), nil, done)
	}
	tag, data := recv.l[0], recv.l[1]
	// nil receiver panics
	if t, ok := tag.int64(); !ok || t == 0 {
		v.oblige(st, "safety", "nil:receiver of "+m.Name(), b.Not(b.Eq(tag, b.zero)))
		if st.dead {
			return false
		}
	}
	im := w.implementers(recv.typ)
	var rest []types.Type
	for _, t := range im {
		c := b.Eq(tag, b.Int(int64(w.tag(t))))
		if c == b.F || st.fset[b.Not(c)] {
			continue
		}
		if c == b.T || st.fset[c] {
			rest = []types.Type{t}
			break
		}
		rest = append(rest, t)
	}
	if len(rest) == 0 {
		st.dead = true
		return false
	}
	for i := len(rest) - 1; i >= 0; i-- {
		t := rest[i]
		s := st
		if i > 0 {
			s = st.fork()
		}
		v.assume(s, b.Eq(tag, b.Int(int64(w.tag(t)))))
		for _, u := range rest {
			if u != t {
				v.assume(s, b.Not(b.Eq(tag, b.Int(int64(w.tag(u))))))
			}
		}
		if len(rest) > 1 && !s.dead && v.dry == 0 && infeasible(b, s.facts) {
			s.dead = true
		}
		if s.dead {
			if i == 0 {
				return false
			}
			continue
		}
		v.dirtySt = s
		if v.callMethod(s, t, data, m, args, done) && i > 0 {
			v.pushBranch(s)
		} else if i == 0 {
			return !st.dead
		}
	}
	return false
}

func (v *Ver) callMethod(st *State, t types.Type, data *Term, m *types.Func, args []*Value, done func(*State, []*Value)) bool {
	var recv *Value
	key := methodKey(t, m.Name())
	if p, ok := t.Underlying().(*types.Pointer); ok {
		v.assume(st, v.b.Not(v.b.Eq(data, v.b.zero)))
		recv = &Value{typ: t, l: []*Term{data}}
		// a method of the value type under contract: the contract reads the receiver through the pointer
		vkey := methodKey(p.Elem(), m.Name())
		if con := v.sp.contracts[vkey]; con != nil && !con.inline && v.sp.contracts[key] == nil && !v.repMode() && v.isRepType(p.Elem()) {
			v.used[vkey] = true
			return v.applyCon(st, v.w.prog.LookupMethod(p.Elem(), m.Pkg(), m.Name()), con, append([]*Value{recv}, args...), done)
		}
	} else {
		n := len(v.w.layout(t))
		l := v.fixOff(v.w.layout(t), v.loadObj(st.heap, t, data, 0, n))
		v.wf(st, v.w.layout(t), l)
		recv = &Value{typ: t, l: l}
	}
	fn := v.w.prog.LookupMethod(t, m.Pkg(), m.Name())
	return v.callFn(st, fn, key, append([]*Value{recv}, args...), nil, done)
}

func (v *Ver) isRepo(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return v.w.repo[f.Pkg.Pkg]
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return v.w.repo[o.Pkg()]
	}
	return false
}

func (v *Ver) callFn(st *State, fn *ssa.Function, key string, args, binds []*Value, done func(*State, []*Value)) bool {
	if con := v.sp.contracts[key]; con != nil && !con.inline {
		v.used[key] = true
		return v.applyCon(st, fn, con, args, done)
	}
	if in, ok := intrinsics[key]; ok {
		v.assumed["intrinsic "+key] = true
		return in(v, st, fn, args, done)
	}
	if v.isRepo(fn) {
		if len(st.frames) > 14 {
			v.fail("call depth at %s", key)
		}
		for _, f := range st.frames {
			if f.fn == fn {
				v.fail("recursive call of %s", key)
			}
		}
		if fn.Synthetic == "" {
			v.inlined[key] = true
		}
		return v.enter(st, fn, args, binds, done)
	}
	v.fail("no contract for %s", key)
	return false
}

func (v *Ver) enter(st *State, fn *ssa.Function, args, binds []*Value, done func(*State, []*Value)) bool {
	f := &Frame{fn: fn, env: map[ssa.Value]*Value{}, names: map[string]*Value{}, cells: map[string]*Value{}, block: fn.Blocks[0], onRet: done}
	f.con = v.sp.contracts[fnKey(fn)]
	for i, p := range fn.Params {
		a := *args[i]
		a.typ = p.Type()
		f.env[p] = &a
	}
	for i, fv := range fn.FreeVars {
		f.env[fv] = binds[i]
		f.cells[fv.Name()] = binds[i]
	}
	st.frames = append(st.frames, f)
	return true
}

// ---- contract application ----

type conCall struct {
	v     *Ver
	st    *State
	con   *Contract
	env   *Env
	sig   *types.Signature
	res   []*Value
	bound []bool
	hav   map[string]*havoc
	pend  []func(Pos)
}

type havoc struct {
	m     string
	ref   *Term
	sym   *Term // placeholder
	bound bool
	off   *Term
	n     *Term
	rest  *Term // old whole content, for byte slices
}

func (v *Ver) modLocs(e *Env, x *Expr) []modLoc {
	switch x.op {
	case "call":
		switch x.name {
		case "V", "R", "P":
			m, r := e.repLoc(x.name, e.eval(x.args[0]))
			return []modLoc{{m, r}}
		case "bytes":
			s := e.eval(x.args[0])
			return []modLoc{{"B", s.l[0]}}
		case "elems":
			s := e.eval(x.args[0])
			el := s.typ.Underlying().(*types.Slice).Elem()
			var out []modLoc
			for _, l := range v.w.layout(el) {
				n := elemMap(el, l)
				v.getMap(e.heap, n, ArrSort(ArrSort(l.sort)), isRefKind(l))
				out = append(out, modLoc{n, s.l[0]})
			}
			return out
		case "obj":
			s := e.eval(x.args[0])
			t := elemOfPtr(e.conc(s.typ))
			var out []modLoc
			for i, l := range v.w.layout(t) {
				if isByteArr(l) {
					r := s.l[0]
					if !isArrayObj(t) {
						r = v.b.AddC(r, int64(1+v.subIndex(t, i)))
					}
					out = append(out, modLoc{"B", r})
					continue
				}
				v.getMap(e.heap, leafMap(t, l), ArrSort(l.sort), isRefKind(l))
				out = append(out, modLoc{leafMap(t, l), s.l[0]})
			}
			return out
		case "mapof":
			s := e.eval(x.args[0])
			n, srt := v.domName(s.typ)
			v.getMap(e.heap, n, srt, false)
			out := []modLoc{{n, s.l[0]}}
			_, et := v.mapTypes(s.typ)
			for i, l := range v.w.layout(et) {
				vn, vs, _ := v.valName(s.typ, i)
				v.getMap(e.heap, vn, vs, isRefKind(l))
				out = append(out, modLoc{vn, s.l[0]})
			}
			return out
		}
		if s, ok := v.sp.ghosts[x.name]; ok {
			v.getMap(e.heap, x.name, s, false)
			if len(x.args) == 0 {
				return []modLoc{{x.name, nil}}
			}
			return []modLoc{{x.name, e.refOf(e.eval(x.args[0]))}}
		}
	case "sel":
		s := e.eval(x.args[0])
		t := elemOfPtr(e.conc(s.typ))
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() != x.name {
				continue
			}
			off := v.w.fieldOffset(st, i)
			var out []modLoc
			ls := v.w.layout(t)
			for j := 0; j < len(v.w.layout(st.Field(i).Type())); j++ {
				l := ls[off+j]
				if isByteArr(l) {
					out = append(out, modLoc{"B", v.b.AddC(s.l[0], int64(1+v.subIndex(t, off+j)))})
					continue
				}
				v.getMap(e.heap, leafMap(t, l), ArrSort(l.sort), isRefKind(l))
				out = append(out, modLoc{leafMap(t, l), s.l[0]})
			}
			return out
		}
	}
	specFail("bad modifies clause %s", x)
	return nil
}

func isErrorType(t types.Type) bool { return t.String() == "error" }

func (v *Ver) applyCon(st *State, fn *ssa.Function, con *Contract, args []*Value, done func(*State, []*Value)) bool {
	b := v.b
	e := &Env{v: v, heap: st.heap, old: st.heap, entry: st.heap, names: map[string]*SV{}, base: st.pos()}
	if i := strings.Index(con.key, "."); i > 0 {
		k := strings.TrimLeft(con.key[:i], "(*")
		if p := v.w.pkgs[k]; p != nil {
			e.pkg = p.Pkg
		}
	}
	if len(args) != len(con.params) {
		v.fail("contract %s: %d parameters, call has %d", con.key, len(con.params), len(args))
	}
	for i, p := range con.params {
		a := args[i]
		if a.addr != nil || a.clo != nil {
			v.fail("argument %s of %s is an interior pointer or function", p, con.key)
		}
		e.names[p] = &SV{a.typ, a.l}
		if len(a.l) > 0 && !con.nullable[p] {
			switch a.typ.Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Map:
				v.nonNil(st, a.l[0], "argument "+p+" of "+con.key)
			}
		}
	}
	for i, r := range con.requires {
		v.oblige(st, "precondition", fmt.Sprintf("call %s requires %d: %s", con.key, i+1, r), e.bool(r))
	}
	same := fn != nil && fn.Pkg != nil && v.fn.Pkg == fn.Pkg
	if same {
		for i, r := range con.hreq {
			v.oblige(st, "precondition", fmt.Sprintf("call %s hidden %d: %s", con.key, i+1, r), e.bool(r))
		}
	}
	if con.panics != nil {
		v.oblige(st, "precondition", "call "+con.key+" panics", b.Not(e.bool(con.panics)))
	}
	if st.dead {
		return false
	}
	var mods []modLoc
	var modX []*Expr
	for _, m := range con.modifies {
		ls := v.modLocs(e, m)
		for _, l := range ls {
			mods = append(mods, l)
			modX = append(modX, m)
		}
	}
	pre := st.heap.clone()
	e.old, e.entry = pre, pre
	var sig *types.Signature
	if fn != nil {
		sig = fn.Signature
	} else {
		sig = v.externSig(con.key)
	}
	errIdx := -1
	for i := range con.results {
		if isErrorType(sig.Results().At(i).Type()) {
			errIdx = i
		}
	}
	// havoc of modified locations
	apply := func(st *State, errv *Term) bool {
		v.dirtySt = st
		cc := &conCall{v: v, st: st, con: con, sig: sig, hav: map[string]*havoc{}}
		ev := *e
		ev.heap = st.heap
		ev.names = map[string]*SV{}
		for k, s := range e.names {
			ev.names[k] = s
		}
		cc.env = &ev
		ev.base = st.pos()
		for i, m := range mods {
			if m.ref == nil {
				// a ghost as a whole
				n := b.NewSym(m.m, st.heap.m[m.m].sort)
				st.heap.m[m.m] = n
				v.wrote(st, m.m, b.Int(0))
				continue
			}
			v.checkWrite(st, m.m, m.ref)
			if m.m == "GV" {
				for d := range st.dirty {
					if b.eqRefs(d, m.ref) != 0 {
						v.fail("call %s changes a point whose coordinates were set by hand", con.key)
					}
				}
			}
			old := b.Select(v.getMap(st.heap, m.m, v.mapSort[m.m], v.mapRefs[m.m]), m.ref)
			h := &havoc{m: m.m, ref: m.ref}
			if m.m == "B" {
				h.rest = old
				if modX[i].op == "call" && modX[i].name == "bytes" {
					s := e.eval(modX[i].args[0])
					if len(s.l) == 4 {
						h.off, h.n = s.l[1], s.l[2]
					}
				}
				if h.n == nil {
					h.off, h.n = b.zero, b.Len(old)
				}
				h.sym = b.NewSym("mod", SBytes)
				h.sym.sym.facts = append(h.sym.sym.facts, b.mkEq(b.raw("blen", SInt, h.sym), h.n))
				v.rawStore(st, m.m, v.mapSort[m.m], false, m.ref, b.Splice(old, h.off, b.Sub3(h.sym, b.zero, h.n)))
			} else {
				h.sym = b.NewSym("mod", old.sort)
				if lo, hi := ghostRange(m.m); lo != nil {
					v.symRange(st, h.sym, lo, hi)
				}
				if v.mapRefs[m.m] {
					h.sym.sym.hasPos, h.sym.sym.lo, h.sym.sym.hi = true, posNegInf, st.pos()
					h.sym.sym.isMap, h.sym.sym.content = true, st.pos()
				}
				v.rawStore(st, m.m, v.mapSort[m.m], v.mapRefs[m.m], m.ref, h.sym)
			}
			cc.hav[fmt.Sprintf("%s@%d", m.m, m.ref.id)] = h
		}
		// results
		n := len(con.results)
		cc.res = make([]*Value, n)
		cc.bound = make([]bool, n)
		for i := range con.results {
			if i == errIdx {
				cc.bindRes(i, &SV{sig.Results().At(i).Type(), []*Term{errv}})
			}
		}
		bad := errIdx >= 0 && errv != b.zero
		if !bad {
			for _, fx := range con.fresh {
				cc.freshRes(fx)
			}
			cc.deepen()
		}
		ev.look = func(nm string, _ *Heap) *SV {
			for i, r := range con.results {
				if r == nm {
					cc.materialize(i)
					return &SV{cc.res[i].typ, cc.res[i].l}
				}
			}
			return nil
		}
		for _, x := range con.ensures {
			cc.ensure(x)
			if st.dead {
				return false
			}
		}
		for _, sx := range con.sets {
			ref := ev.refOf(ev.eval(sx[0].args[0]))
			val := ev.term(sx[1])
			n := sx[0].name
			v.getMap(st.heap, n, v.sp.ghosts[n], false)
			if m := st.heap.m[n]; m.op == "store" && m.args[1] == ref {
				// the unknown value of the modifies clause
				st.heap.m[n] = m.args[0]
			}
			st.heap.m[n] = b.Store(st.heap.m[n], ref, val)
		}
		if same {
			for _, x := range con.hens {
				cc.ensure(x)
				if st.dead {
					return false
				}
			}
		}
		for i := range cc.res {
			cc.materialize(i)
		}
		done(st, cc.res)
		return !st.dead
	}
	if errIdx < 0 {
		return apply(st, nil)
	}
	o := st.fork()
	es := b.NewSym("err", SInt)
	es.sym.hasPos, es.sym.lo, es.sym.hi = true, Pos{0, 0}, Pos{1 << 29, 0}
	v.assume(o, b.mk(&Term{op: "ge0", sort: SBool, args: []*Term{b.AddC(es, -1)}}))
	o.trail = append(o.trail, "err:"+con.key)
	fr := o.top()
	_ = fr
	if apply(o, es) && (v.dry > 0 || !infeasibleQuick(b, o)) {
		v.pushBranch(o)
	}
	return apply(st, b.zero)
}

func infeasibleQuick(b *Bank, st *State) bool { return infeasible(b, st.facts) }

func (v *Ver) externSig(key string) *types.Signature {
	// (pkg.Type).Method of an opaque interface
	i := strings.Index(key, ").")
	t := v.w.lookupTypeAny(strings.TrimPrefix(key[:i], "("))
	ms := types.NewMethodSet(t)
	for j := 0; j < ms.Len(); j++ {
		if ms.At(j).Obj().Name() == key[i+2:] {
			return ms.At(j).Obj().Type().(*types.Signature)
		}
	}
	v.fail("no signature for %s", key)
	return nil
}

func (w *World) lookupTypeAny(s string) types.Type {
	if s == "error" {
		return types.Universe.Lookup("error").Type()
	}
	return w.lookupType(s)
}

func (cc *conCall) bindRes(i int, s *SV) {
	t := cc.sig.Results().At(i).Type()
	l := s.l
	want := len(cc.v.w.layout(t))
	if len(l) != want {
		// pointer given where a tagged interface is expected
		if want == 2 && len(l) == 1 {
			if s.typ == types.Typ[types.UntypedNil] {
				l = []*Term{cc.v.b.zero, cc.v.b.zero}
			} else {
				l = []*Term{cc.v.b.Int(int64(cc.v.w.tag(s.typ))), l[0]}
			}
		} else if s.typ == types.Typ[types.UntypedNil] {
			l = cc.v.zeroLeaves(t)
		} else {
			specFail("contract %s: result %s bound to %d leaves, want %d", cc.con.key, cc.con.results[i], len(l), want)
		}
	}
	cc.res[i] = &Value{typ: t, l: l}
	cc.bound[i] = true
}

func (cc *conCall) materialize(i int) {
	if cc.bound[i] {
		return
	}
	v, b := cc.v, cc.v.b
	t := cc.sig.Results().At(i).Type()
	ls := v.w.layout(t)
	l := make([]*Term, len(ls))
	for j, lf := range ls {
		s := b.NewSym(cc.con.results[i]+"."+lf.name, lf.sort)
		if isRefKind(lf) {
			s.sym.hasPos, s.sym.lo, s.sym.hi = true, posNegInf, cc.st.pos()
		}
		l[j] = s
	}
	l = v.fixOff(ls, l)
	v.wf(cc.st, ls, l)
	cc.res[i] = &Value{typ: t, l: l}
	cc.bound[i] = true
}

func (cc *conCall) resIndex(x *Expr) int {
	if x.op == "id" {
		for i, r := range cc.con.results {
			if r == x.name {
				return i
			}
		}
	}
	return -1
}

// freshRes allocates a fresh result: "r", "r as T" (tagged interface) or "r len e" is given by ensures.
func (cc *conCall) freshRes(x *Expr) {
	v, b, st := cc.v, cc.v.b, cc.st
	var as types.Type
	if x.op == "as" {
		as = v.w.lookupType(x.name)
		x = x.args[0]
	}
	i := cc.resIndex(x)
	if i < 0 {
		return // deeper freshness, handled by ensures fresh(...)
	}
	t := cc.sig.Results().At(i).Type()
	if as == nil {
		as = t
		if _, ok := t.Underlying().(*types.Interface); ok {
			if im := v.w.single(t); im != nil {
				as = im
			}
		}
	}
	switch u := as.Underlying().(type) {
	case *types.Pointer:
		r := v.allocN(st, 32)
		if len(v.w.layout(t)) == 2 {
			cc.bindRes(i, &SV{nil, []*Term{b.Int(int64(v.w.tag(as))), r}})
		} else {
			cc.bindRes(i, &SV{nil, []*Term{r}})
		}
		cc.fillObj(u.Elem(), r)
	case *types.Interface:
		r := v.allocN(st, 0)
		cc.bindRes(i, &SV{nil, []*Term{r}})
	case *types.Slice:
		r := v.allocN(st, 0)
		n := b.NewSym(cc.con.results[i]+".len", SInt)
		c := b.NewSym(cc.con.results[i]+".cap", SInt)
		v.symRange(st, n, b.zero.val, nil)
		v.assume(st, b.Le(n, c))
		v.assume(st, b.Le(c, b.Int(1<<62)))
		cc.bindRes(i, &SV{nil, []*Term{r, b.zero, n, c}})
		cc.fillArr(u.Elem(), r, c)
	case *types.Struct:
		// a struct value inside a tagged interface
		r := v.allocN(st, 32)
		cc.bindRes(i, &SV{nil, []*Term{b.Int(int64(v.w.tag(as))), r}})
		cc.fillObj(as, r)
	default:
		specFail("fresh result of type %s", as)
	}
}

func (v *Ver) isRepType(t types.Type) bool {
	s := shortType(t)
	for _, r := range repField {
		if r.typ == s {
			return true
		}
	}
	return false
}

func (v *Ver) hasRefs(t types.Type) bool {
	if v.isRepType(t) && !v.repMode() {
		return false
	}
	for _, l := range v.w.layout(t) {
		if isRefKind(l) {
			return true
		}
	}
	if isMapType(t) {
		return true
	}
	return false
}

func isMapType(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Map); ok {
		return true
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Map" && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "btree"
}

// pointees lists the types of the objects directly reachable from an object of type t.
func (v *Ver) pointees(t types.Type) []types.Type {
	var out []types.Type
	if v.isRepType(t) && !v.repMode() {
		return nil
	}
	for _, l := range v.w.layout(t) {
		if l.kind != "ref" && l.kind != "data" {
			continue
		}
		out = append(out, v.pointeeOf(l.typ)...)
	}
	return out
}

func (v *Ver) pointeeOf(t types.Type) []types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return []types.Type{u.Elem()}
	case *types.Slice:
		return []types.Type{u.Elem()}
	case *types.Interface:
		var out []types.Type
		for _, im := range v.w.implementers(t) {
			if p, ok := im.Underlying().(*types.Pointer); ok {
				out = append(out, p.Elem())
			} else {
				out = append(out, im)
			}
		}
		return out
	}
	return nil
}

// deepen: results that reach objects beyond the first level bring a new epoch whose maps may hold new references.
func (cc *conCall) deepen() {
	v, st := cc.v, cc.st
	content, deep := false, false
	for i := range cc.con.results {
		if cc.res[i] == nil || i >= len(cc.bound) || !cc.bound[i] {
			continue
		}
		t := cc.sig.Results().At(i).Type()
		if isErrorType(t) {
			continue
		}
		for _, p := range v.pointeeOf(t) {
			if v.hasRefs(p) {
				content = true
				for _, q := range v.pointees(p) {
					if v.hasRefs(q) {
						deep = true
					}
				}
				if isMapType(p) {
					deep = true
				}
			}
		}
	}
	if !content {
		return
	}
	keep := st.pos()
	v.newEpoch(st)
	cont := Pos{st.ep, 0}
	if deep {
		v.mapEvent(st, keep, cont)
	}
	for _, f := range cc.pend {
		f(cont)
	}
}

func (cc *conCall) fillObj(t types.Type, r *Term) {
	v, b, st := cc.v, cc.v.b, cc.st
	if v.isRepType(t) {
		if v.repMode() {
			for _, rf := range repField {
				if shortType(t) == rf.typ {
					in := v.allocN(st, 0)
					v.rawStore(st, leafMap(t, v.w.layout(t)[0]), ArrSort(SInt), true, r, in)
					if rf.rep == "FV" {
						m := int64(1)
						if rf.typ == "curve.Secp256k1Field" {
							m = 2
						}
						v.rawStore(st, "FM", v.sp.ghosts["FM"], false, in, b.Int(m))
					}
				}
			}
		}
		return
	}
	if isMapType(t) {
		cc.pend = append(cc.pend, func(c Pos) {
			_, e := v.mapTypes(t)
			for i, l := range v.w.layout(e) {
				vn, vs, _ := v.valName(t, i)
				s := b.NewSym("vals", elemSort(vs))
				if isRefKind(l) {
					s.sym.isMap, s.sym.content = true, c
				}
				v.rawStore(st, vn, vs, isRefKind(l), r, s)
			}
		})
		return
	}
	cc.pend = append(cc.pend, func(c Pos) {
		for i, l := range v.w.layout(t) {
			if !isRefKind(l) {
				if l.kind == "off" {
					v.rawStoreLeaf(st, t, r, i, l, b.zero)
				}
				continue
			}
			s := b.NewSym(l.name, SInt)
			s.sym.hasPos, s.sym.lo, s.sym.hi = true, posNegInf, c
			v.assume(st, b.mk(&Term{op: "ge0", sort: SBool, args: []*Term{b.Sub(v.posTerm(c), s)}}))
			v.rawStoreLeaf(st, t, r, i, l, s)
		}
	})
}

func (cc *conCall) fillArr(el types.Type, r, c *Term) {
	v, b, st := cc.v, cc.v.b, cc.st
	if isByteType(el) {
		s := b.NewSym("bs", SBytes)
		s.sym.facts = append(s.sym.facts, b.mkEq(b.raw("blen", SInt, s), c))
		v.rawStore(st, "B", ArrSort(SBytes), false, r, s)
		return
	}
	cc.pend = append(cc.pend, func(p Pos) {
		for _, l := range v.w.layout(el) {
			s := b.NewSym("row", ArrSort(l.sort))
			if isRefKind(l) {
				s.sym.isMap, s.sym.content = true, p
			}
			v.rawStore(st, elemMap(el, l), ArrSort(ArrSort(l.sort)), isRefKind(l), r, s)
		}
	})
	if !v.hasRefs(el) {
		for _, f := range cc.pend[len(cc.pend)-1:] {
			f(st.pos())
		}
		cc.pend = cc.pend[:len(cc.pend)-1]
	}
}

// ensure uses one postcondition: as a definition when it has that form, otherwise as an assumption.
func (cc *conCall) ensure(x *Expr) {
	v, b, st, e := cc.v, cc.v.b, cc.st, cc.env
	if x.op == "bin" {
		switch x.name {
		case "&&":
			cc.ensure(x.args[0])
			cc.ensure(x.args[1])
			return
		case "==>":
			h := e.bool(x.args[0])
			if h == b.F || st.fset[b.Not(h)] {
				return
			}
			if h == b.T || st.fset[h] {
				cc.ensure(x.args[1])
				return
			}
			v.assume(st, b.Implies(h, e.bool(x.args[1])))
			return
		case "==", "<==>":
			if cc.define(x.args[0], x.args[1]) {
				return
			}
		}
	}
	v.assume(st, e.bool(x))
}

func (cc *conCall) define(l, r *Expr) bool {
	v, b, st, e := cc.v, cc.v.b, cc.st, cc.env
	if i := cc.resIndex(l); i >= 0 {
		if cc.bound[i] {
			return false
		}
		cc.bindRes(i, e.eval(r))
		return true
	}
	if l.op == "call" {
		switch l.name {
		case "V", "R", "P":
			s := e.eval(l.args[0])
			if s.typ != nil {
				m, ref := e.repLoc(l.name, s)
				return cc.defLoc(m, ref, e.term(r))
			}
		case "bytes":
			s := e.eval(l.args[0])
			if s.typ == nil {
				return false
			}
			val := e.term(r)
			if _, ok := s.typ.Underlying().(*types.Slice); ok {
				if h := cc.hav[fmt.Sprintf("B@%d", s.l[0].id)]; h != nil {
					if h.bound || !v.sameLen(st, b.Len(val), h.n) || h.off != s.l[1] || h.n != s.l[2] {
						return false
					}
					h.bound = true
					v.rawStore(st, "B", ArrSort(SBytes), false, s.l[0], b.Splice(h.rest, h.off, val))
					return true
				}
				// a fresh byte slice
				if lo, _, ok := b.bounds(s.l[0]); ok && e.base.le(lo) && s.l[2].op == "sym" && s.l[3].op == "sym" {
					for i := range cc.res {
						if cc.bound[i] && len(cc.res[i].l) == 4 && cc.res[i].l[0] == s.l[0] {
							n := b.Len(val)
							v.rawStore(st, "B", ArrSort(SBytes), false, s.l[0], val)
							cc.res[i].l = []*Term{s.l[0], b.zero, n, n}
							return true
						}
					}
				}
				return false
			}
			if p, ok := s.typ.Underlying().(*types.Pointer); ok && isArrayObj(p.Elem()) {
				if h := cc.hav[fmt.Sprintf("B@%d", s.l[0].id)]; h != nil && !h.bound && v.sameLen(st, b.Len(val), h.n) {
					h.bound = true
					v.rawStore(st, "B", ArrSort(SBytes), false, s.l[0], val)
					return true
				}
			}
			return false
		case "len":
			i := cc.resIndex(l.args[0])
			if i >= 0 && cc.bound[i] && len(cc.res[i].l) == 4 && cc.res[i].l[2].op == "sym" {
				n := e.term(r)
				old := cc.res[i].l
				v.assume(st, b.Eq(old[2], n))
				cc.res[i].l = []*Term{old[0], old[1], n, old[3]}
				return true
			}
			return false
		}
		if s, ok := v.sp.ghosts[l.name]; ok && len(l.args) == 1 {
			v.getMap(st.heap, l.name, s, false)
			return cc.defLoc(l.name, e.refOf(e.eval(l.args[0])), e.term(r))
		}
	}
	if l.op == "sel" {
		s := e.eval(l.args[0])
		t := e.conc(s.typ)
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		stt, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			return false
		}
		lo, _, okb := b.bounds(s.l[0])
		isFresh := okb && e.base.le(lo)
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() != l.name {
				continue
			}
			off := v.w.fieldOffset(stt, i)
			ls := v.w.layout(p.Elem())
			n := len(v.w.layout(stt.Field(i).Type()))
			val := e.eval(r)
			if len(val.l) != n {
				return false
			}
			for j := 0; j < n; j++ {
				if isByteArr(ls[off+j]) {
					return false
				}
				if !isFresh && cc.hav[fmt.Sprintf("%s@%d", leafMap(p.Elem(), ls[off+j]), s.l[0].id)] == nil {
					return false
				}
				if ls[off+j].kind == "off" && val.l[j] != b.zero {
					return false
				}
			}
			for j := 0; j < n; j++ {
				v.rawStoreLeaf(st, p.Elem(), s.l[0], off+j, ls[off+j], val.l[j])
			}
			return true
		}
	}
	return false
}

func (v *Ver) sameLen(st *State, a, c *Term) bool {
	q := v.b.Eq(a, c)
	return q == v.b.T || st.fset[q]
}

func (cc *conCall) defLoc(m string, ref, val *Term) bool {
	v, b, st := cc.v, cc.v.b, cc.st
	if s, ok := v.sp.ghosts[m]; ok {
		v.getMap(st.heap, m, s, false)
	}
	if h := cc.hav[fmt.Sprintf("%s@%d", m, ref.id)]; h != nil {
		if h.bound || occurs(val, h.sym) {
			return false
		}
		h.bound = true
		v.rawStore(st, m, v.mapSort[m], v.mapRefs[m], ref, val)
		return true
	}
	if lo, _, ok := b.bounds(ref); ok && cc.env.base.le(lo) {
		k := fmt.Sprintf("%s@%d!", m, ref.id)
		if cc.hav[k] != nil {
			return false
		}
		cur := b.Select(v.getMap(st.heap, m, v.mapSort[m], v.mapRefs[m]), ref)
		if occurs(val, cur) {
			return false
		}
		cc.hav[k] = &havoc{}
		v.rawStore(st, m, v.mapSort[m], v.mapRefs[m], ref, val)
		return true
	}
	return false
}

// ---- builtins ----

func (v *Ver) builtin(st *State, x *ssa.Call, name string, done func(*State, []*Value)) bool {
	b := v.b
	c := x.Common()
	arg := func(i int) *Value { return v.val(st, c.Args[i]) }
	one := func(t *Term) bool {
		done(st, []*Value{{typ: x.Type(), l: []*Term{t}}})
		return true
	}
	switch name {
	case "len":
		a := arg(0)
		switch u := a.typ.Underlying().(type) {
		case *types.Slice:
			return one(a.l[2])
		case *types.Basic:
			return one(b.Len(a.l[0]))
		case *types.Array:
			return one(b.Int(u.Len()))
		case *types.Pointer:
			return one(b.Int(u.Elem().Underlying().(*types.Array).Len()))
		case *types.Map:
			return one(b.App("bn", v.mapDom(st.heap, a.typ, a.l[0])))
		}
	case "cap":
		a := arg(0)
		if _, ok := a.typ.Underlying().(*types.Slice); ok {
			return one(a.l[3])
		}
	case "append":
		return v.appendTo(st, x, arg(0), arg(1), done)
	case "copy":
		return v.copyTo(st, x, arg(0), arg(1), done)
	case "ssa:wrapnilchk":
		a := arg(0)
		v.nonNil(st, a.l[0], "receiver")
		done(st, []*Value{a})
		return !st.dead
	case "min", "max":
		r := arg(0).l[0]
		for i := 1; i < len(c.Args); i++ {
			y := arg(i).l[0]
			if name == "min" {
				r = b.Ite(b.Le(r, y), r, y)
			} else {
				r = b.Ite(b.Le(y, r), r, y)
			}
		}
		return one(r)
	}
	v.fail("builtin %s", name)
	return false
}

// copyTo: the built-in copy.
func (v *Ver) copyTo(st *State, x *ssa.Call, d, s *Value, done func(*State, []*Value)) bool {
	b := v.b
	el := d.typ.Underlying().(*types.Slice).Elem()
	var sl *Term
	isStr := len(s.l) == 1
	if isStr {
		sl = b.Len(s.l[0])
	} else {
		sl = s.l[2]
	}
	return v.forkOn(st, b.Le(sl, d.l[2]), func(st *State, fits bool) {
		n := sl
		if !fits {
			n = d.l[2]
		}
		if d.l[0] != b.zero && n != b.zero {
			if isByteType(el) {
				var src *Term
				if isStr {
					src = s.l[0]
				} else {
					src = v.sliceBytes(st.heap, s.l)
				}
				if v.wouldWrite(st, n) {
					v.checkWrite(st, "B", d.l[0])
				}
				old := b.Select(v.getMap(st.heap, "B", ArrSort(SBytes), false), d.l[0])
				v.rawStore(st, "B", ArrSort(SBytes), false, d.l[0], b.Splice(old, d.l[1], b.Sub3(src, b.zero, n)))
			} else {
				for _, l := range v.w.layout(el) {
					m := elemMap(el, l)
					srt := ArrSort(ArrSort(l.sort))
					v.checkWrite(st, m, d.l[0])
					mp := v.getMap(st.heap, m, srt, isRefKind(l))
					row := v.blit(st, b.Select(mp, d.l[0]), d.l[1], b.Select(mp, s.l[0]), s.l[1], n, l)
					v.rawStore(st, m, srt, isRefKind(l), d.l[0], row)
				}
			}
		}
		done(st, []*Value{{typ: x.Type(), l: []*Term{n}}})
	})
}

func (v *Ver) wouldWrite(st *State, n *Term) bool { return true }

// blit: dst with dst[do+i] = src[so+i] for i < n.
func (v *Ver) blit(st *State, dst, do, src, so, n *Term, l Leaf) *Term {
	b := v.b
	if k, ok := n.int64(); ok && k <= 16 {
		for i := int64(0); i < k; i++ {
			dst = b.Store(dst, b.AddC(do, i), b.Select(src, b.AddC(so, i)))
		}
		return dst
	}
	r := b.NewSym("row", dst.sort)
	if isRefKind(l) {
		p1, ok1 := b.contentBound(dst)
		p2, ok2 := b.contentBound(src)
		if ok1 && ok2 {
			if p1.less(p2) {
				p1 = p2
			}
			r.sym.isMap, r.sym.content = true, p1
		} else {
			r.sym.isMap, r.sym.content = true, st.pos()
		}
	}
	i := b.BoundVar("i", SInt)
	sel := b.mk(&Term{op: "select", args: []*Term{r, i}, sort: l.sort})
	in := b.And(b.Le(do, i), b.Lt(i, b.Add(do, n)))
	r.sym.facts = append(r.sym.facts, b.Forall([]*Term{i}, b.And(
		b.Implies(in, b.mkEq(sel, b.Select(src, b.Add(so, b.Sub(i, do))))),
		b.Implies(b.Not(in), b.mkEq(sel, b.Select(dst, i)))), sel))
	if do == so {
		i2 := b.BoundVar("i", SInt)
		ss := b.Select(src, i2)
		if ss.op == "select" {
			sel2 := b.mk(&Term{op: "select", args: []*Term{r, i2}, sort: l.sort})
			r.sym.facts = append(r.sym.facts, b.Forall([]*Term{i2}, b.Implies(b.And(b.Le(do, i2), b.Lt(i2, b.Add(do, n))), b.mkEq(sel2, ss)), ss))
		}
	}
	return r
}

func (v *Ver) appendTo(st *State, x *ssa.Call, s, t *Value, done func(*State, []*Value)) bool {
	b := v.b
	el := s.typ.Underlying().(*types.Slice).Elem()
	isStr := len(t.l) == 1
	var tl *Term
	if isStr {
		tl = b.Len(t.l[0])
	} else {
		tl = t.l[2]
	}
	if tl == b.zero {
		q := *s
		done(st, []*Value{&q})
		return true
	}
	grow := func(st *State) *Value {
		n := b.Add(s.l[2], tl)
		r := v.allocN(st, 0)
		cp := b.NewSym("cap", SInt)
		if isByteType(el) {
			src := t.l[0]
			if !isStr {
				src = v.sliceBytes(st.heap, t.l)
			}
			pad := b.NewSym("pad", SBytes)
			pad.sym.facts = append(pad.sym.facts, b.mkEq(b.raw("blen", SInt, pad), b.Sub(cp, n)))
			_ = pad
			v.rawStore(st, "B", ArrSort(SBytes), false, r, b.Cat(v.sliceBytes(st.heap, s.l), src))
			cp = n
		} else {
			for _, l := range v.w.layout(el) {
				m := elemMap(el, l)
				srt := ArrSort(ArrSort(l.sort))
				mp := v.getMap(st.heap, m, srt, isRefKind(l))
				var row *Term
				if s.l[0] == b.zero {
					row = b.ConstArr(v.zeroOf(l))
				} else if s.l[1] == b.zero {
					row = b.Select(mp, s.l[0])
				} else {
					row = v.blit(st, b.ConstArr(v.zeroOf(l)), b.zero, b.Select(mp, s.l[0]), s.l[1], s.l[2], l)
				}
				row = v.blit(st, row, s.l[2], b.Select(mp, t.l[0]), t.l[1], tl, l)
				v.rawStore(st, m, srt, isRefKind(l), r, row)
			}
			v.assume(st, b.Le(n, cp))
			v.assume(st, b.Le(cp, b.Int(1<<62)))
		}
		return &Value{typ: x.Type(), l: []*Term{r, b.zero, n, cp}}
	}
	if s.l[0] == b.zero || s.l[2] == s.l[3] && b.Lt(b.zero, tl) == b.T || v.linearAppend(x) {
		done(st, []*Value{grow(st)})
		return true
	}
	return v.forkOn(st, b.Le(b.Add(s.l[2], tl), s.l[3]), func(st *State, inPlace bool) {
		if !inPlace {
			done(st, []*Value{grow(st)})
			return
		}
		n := b.Add(s.l[2], tl)
		at := b.Add(s.l[1], s.l[2])
		if isByteType(el) {
			src := t.l[0]
			if !isStr {
				src = v.sliceBytes(st.heap, t.l)
			}
			v.checkWrite(st, "B", s.l[0])
			old := b.Select(v.getMap(st.heap, "B", ArrSort(SBytes), false), s.l[0])
			v.rawStore(st, "B", ArrSort(SBytes), false, s.l[0], b.Splice(old, at, src))
		} else {
			for _, l := range v.w.layout(el) {
				m := elemMap(el, l)
				srt := ArrSort(ArrSort(l.sort))
				v.checkWrite(st, m, s.l[0])
				mp := v.getMap(st.heap, m, srt, isRefKind(l))
				v.rawStore(st, m, srt, isRefKind(l), s.l[0], v.blit(st, b.Select(mp, s.l[0]), at, b.Select(mp, t.l[0]), t.l[1], tl, l))
			}
		}
		done(st, []*Value{{typ: x.Type(), l: []*Term{s.l[0], s.l[1], n, s.l[3]}}})
	})
}

// linearAppend: the slice appended to is local to the function, is not used again after this append except
// through its result, and no element of the chain is written in place, so whether append reallocates is unobservable.
func (v *Ver) linearAppend(x *ssa.Call) bool {
	if r, ok := v.w.linear(x); ok {
		return r
	}
	return false
}

func (w *World) linear(x *ssa.Call) (bool, bool) {
	seen := map[ssa.Value]bool{}
	ok := true
	var cells []ssa.Value
	var visit func(y ssa.Value)
	visit = func(y ssa.Value) {
		if seen[y] || !ok {
			return
		}
		seen[y] = true
		switch z := y.(type) {
		case *ssa.Const, *ssa.MakeSlice:
		case *ssa.Phi:
			for _, e := range z.Edges {
				visit(e)
			}
		case *ssa.Call:
			if bi, isB := z.Call.Value.(*ssa.Builtin); isB && bi.Name() == "append" {
				visit(z.Call.Args[0])
			} else {
				ok = false
			}
		case *ssa.Slice:
			if a, isA := z.X.(*ssa.Alloc); !isA || a.Comment != "slicelit" && a.Comment != "makeslice" {
				ok = false
			}
		case *ssa.UnOp: // load of a cell
			if c := cellOf(z.X); c != nil {
				cells = append(cells, c)
			} else {
				ok = false
			}
		default:
			ok = false
		}
	}
	visit(x.Call.Args[0])
	if !ok {
		return false, true
	}
	// no writes through, and no other escaping append of, any slice of the chain
	chk := func(y ssa.Value) {
		apps := 0
		if y.Referrers() == nil {
			return
		}
		for _, r := range *y.Referrers() {
			switch z := r.(type) {
			case *ssa.IndexAddr:
				for _, q := range *z.Referrers() {
					if _, isS := q.(*ssa.Store); isS && q.(*ssa.Store).Addr == ssa.Value(z) {
						ok = false
					}
				}
			case *ssa.Call:
				if bi, isB := z.Call.Value.(*ssa.Builtin); isB {
					if bi.Name() == "append" && z.Call.Args[0] == y {
						apps++
					}
					if bi.Name() == "copy" && z.Call.Args[0] == y {
						ok = false
					}
				}
			}
		}
		if apps > 1 {
			// several appends to one value must be on exclusive paths
			var bs []*ssa.BasicBlock
			for _, r := range *y.Referrers() {
				if z, isC := r.(*ssa.Call); isC {
					if bi, isB := z.Call.Value.(*ssa.Builtin); isB && bi.Name() == "append" && z.Call.Args[0] == y {
						bs = append(bs, z.Block())
					}
				}
			}
			for i := range bs {
				for j := range bs {
					if i != j && (bs[i] == bs[j] || bs[i].Dominates(bs[j])) {
						ok = false
					}
				}
			}
		}
	}
	for y := range seen {
		if _, isC := y.(*ssa.Const); isC {
			continue
		}
		chk(y)
	}
	for _, c := range cells {
		if !cellLinear(c) {
			ok = false
		}
	}
	return ok, true
}

// cellOf resolves a captured or local variable to its Alloc.
func cellOf(x ssa.Value) ssa.Value {
	switch c := x.(type) {
	case *ssa.Alloc:
		return c
	case *ssa.FreeVar:
		fn := c.Parent()
		for i, fv := range fn.FreeVars {
			if fv != c {
				continue
			}
			if fn.Parent() == nil {
				return nil
			}
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
						return cellOf(mc.Bindings[i])
					}
				}
			}
		}
	}
	return nil
}

// cellLinear: the slice variable is only initialised from local slices, appended to and read.
func cellLinear(c ssa.Value) bool {
	ok := true
	var scan func(x ssa.Value)
	scan = func(x ssa.Value) {
		if x.Referrers() == nil {
			return
		}
		for _, r := range *x.Referrers() {
			switch z := r.(type) {
			case *ssa.Store:
				if z.Addr != x {
					ok = false
					continue
				}
				switch y := z.Val.(type) {
				case *ssa.Const, *ssa.MakeSlice:
				case *ssa.Slice:
					if a, isA := y.X.(*ssa.Alloc); !isA || a.Comment != "makeslice" && a.Comment != "slicelit" {
						ok = false
					}
				case *ssa.Call:
					bi, isB := y.Call.Value.(*ssa.Builtin)
					if !isB || bi.Name() != "append" {
						ok = false
						continue
					}
					u, isU := y.Call.Args[0].(*ssa.UnOp)
					if !isU || cellOf(u.X) != c {
						ok = false
					}
				default:
					ok = false
				}
			case *ssa.UnOp:
				for _, q := range *z.Referrers() {
					switch y := q.(type) {
					case *ssa.Call:
						if bi, isB := y.Call.Value.(*ssa.Builtin); isB {
							if bi.Name() == "append" && y.Call.Args[0] == ssa.Value(z) {
								// must be stored back
								back := false
								for _, s := range *y.Referrers() {
									if ss, isS := s.(*ssa.Store); isS && cellOf(ss.Addr) == c {
										back = true
									}
								}
								if !back {
									ok = false
								}
							}
							if bi.Name() == "copy" && y.Call.Args[0] == ssa.Value(z) {
								ok = false
							}
						}
					case *ssa.IndexAddr:
						for _, s := range *y.Referrers() {
							if _, isS := s.(*ssa.Store); isS {
								ok = false
							}
						}
					}
				}
			case *ssa.MakeClosure:
				fn := z.Fn.(*ssa.Function)
				for i, bd := range z.Bindings {
					if bd == x {
						scan(fn.FreeVars[i])
					}
				}
			case *ssa.DebugRef:
			default:
				ok = false
			}
		}
	}
	scan(c)
	return ok
}
