package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type unsup struct{ msg string }

type Addr struct {
	kind string // obj field: leaves of the object base at ref; elem: element of a slice; byte: byte of B[ref]
	base types.Type
	ref  *Term
	idx  *Term
	off  int
	n    int
}

type Closure struct {
	fn    *ssa.Function
	binds []*Value
}

type Value struct {
	typ  types.Type
	l    []*Term
	addr *Addr
	clo  *Closure
	tup  []*Value
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Value
	names  map[string]*Value // by debug name
	cells  map[string]*Value // captured or address-taken variables by name
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	onRet  func(*State, []*Value)
	loops  []*LoopCtx
	con    *Contract
	visits map[*ssa.BasicBlock]int
}

type State struct {
	heap   *Heap
	facts  []*Term
	fset   map[*Term]bool
	frames []*Frame
	ep     int
	cnt    int
	dirty  map[*Term]bool
	reps   []*Term
	trail  []string
	dead   bool
	nret   int
}

type Obl struct {
	name    string
	kind    string
	pos     string
	facts   []*Term
	goal    *Term
	trail   string
	res     *Result
	failMsg string
}

type Ver struct {
	w        *World
	sp       *Specs
	b        *Bank
	fn       *ssa.Function
	con      *Contract
	key      string
	obls     []*Obl
	oblSeen  map[string]bool
	work     []*State
	dry      int
	nEpoch   int
	evSerial map[int]int
	nEvent   int
	mapSort  map[string]Sort
	mapRefs  map[string]bool
	lamVars  map[string]*Term
	lamFns   map[string]bool
	entry    *Heap
	entryEnv map[string]*SV
	params   []*Value
	mods     []modLoc
	steps    int
	paths    int
	used     map[string]bool // contracts relied on
	inlined  map[string]bool
	assumed  map[string]bool
	err      string
	retCount int
	abort    func(*State) bool
	dirtySt  *State
	plans    map[string]*LoopPlan
}

type modLoc struct {
	m   string // map name or "" for all maps of the object
	ref *Term
}

func NewVer(w *World, sp *Specs, fn *ssa.Function, con *Contract, key string) *Ver {
	return &Ver{w: w, sp: sp, b: NewBank(), fn: fn, con: con, key: key, oblSeen: map[string]bool{}, evSerial: map[int]int{},
		mapSort: map[string]Sort{}, mapRefs: map[string]bool{}, lamVars: map[string]*Term{}, lamFns: map[string]bool{},
		used: map[string]bool{}, inlined: map[string]bool{}, assumed: map[string]bool{}, plans: map[string]*LoopPlan{}}
}

func (v *Ver) fail(f string, a ...interface{}) { panic(unsup{fmt.Sprintf(f, a...)}) }

func (st *State) fork() *State {
	n := &State{heap: st.heap.clone(), facts: st.facts[:len(st.facts):len(st.facts)], fset: map[*Term]bool{}, ep: st.ep, cnt: st.cnt,
		dirty: map[*Term]bool{}, reps: st.reps[:len(st.reps):len(st.reps)], trail: st.trail[:len(st.trail):len(st.trail)], nret: st.nret}
	for f := range st.fset {
		n.fset[f] = true
	}
	for f := range st.dirty {
		n.dirty[f] = true
	}
	for _, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]*Value, len(f.env))
		for k, x := range f.env {
			g.env[k] = x
		}
		g.names = make(map[string]*Value, len(f.names))
		for k, x := range f.names {
			g.names[k] = x
		}
		g.cells = make(map[string]*Value, len(f.cells))
		for k, x := range f.cells {
			g.cells[k] = x
		}
		g.loops = f.loops[:len(f.loops):len(f.loops)]
		n.frames = append(n.frames, &g)
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }
func (st *State) pos() Pos    { return Pos{st.ep, st.cnt} }

func (v *Ver) assume(st *State, t *Term) {
	if t == v.b.T || st.fset[t] {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			v.assume(st, a)
		}
		return
	}
	st.fset[t] = true
	st.facts = append(st.facts, t)
	if t == v.b.F || st.fset[v.b.Not(t)] {
		st.dead = true
	}
}

func (v *Ver) posOf(st *State) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if f.idx < len(f.block.Instrs) {
			for j := f.idx; j >= 0; j-- {
				if p := f.block.Instrs[j].Pos(); p.IsValid() {
					q := v.w.prog.Fset.Position(p)
					return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, "/repo/"), q.Line)
				}
			}
		}
	}
	return ""
}

func (v *Ver) oblige(st *State, kind, name string, goal *Term) {
	if v.dry > 0 {
		v.assume(st, goal)
		return
	}
	o := &Obl{name: v.key + "/" + name, kind: kind, pos: v.posOf(st), facts: st.facts, goal: goal, trail: strings.Join(st.trail, " ")}
	if goal == v.b.T || st.fset[goal] {
		o.res = &Result{ok: true, backend: "normaliser"}
	}
	v.obls = append(v.obls, o)
	v.assume(st, goal)
}

// ---- allocation ----

func (v *Ver) allocN(st *State, extra int) *Term {
	st.cnt++
	r := v.posTerm(Pos{st.ep, st.cnt})
	st.cnt += extra
	return r
}

func (v *Ver) newEpoch(st *State) {
	v.nEpoch++
	old := st.pos()
	st.ep, st.cnt = v.nEpoch, 0
	s := v.epochSym(st.ep)
	s.sym.serial = v.b.nsym
	v.b.nsym++
	v.assume(st, v.b.mk(&Term{op: "ge0", sort: SBool, args: []*Term{v.b.Sub(s, v.posTerm(old))}}))
}

func (v *Ver) nByteArr(t types.Type) int {
	if isArrayObj(t) {
		return 0
	}
	return len(v.w.byteArrays(t))
}

func (v *Ver) allocObj(st *State, t types.Type) *Term {
	r := v.allocN(st, v.nByteArr(t))
	v.initObj(st, t, r, v.zeroLeaves(t))
	if isBtree(t) {
		v.initMap(st, t, r)
	}
	return r
}

// initObj initialises a fresh object (no frame check).
func (v *Ver) initObj(st *State, t types.Type, ref *Term, vals []*Term) {
	for i, l := range v.w.layout(t) {
		v.rawStoreLeaf(st, t, ref, i, l, vals[i])
	}
}

func (v *Ver) rawStoreLeaf(st *State, t types.Type, ref *Term, i int, l Leaf, val *Term) {
	b := v.b
	if l.kind == "off" && val != b.zero && !(offFree[shortType(t)] && val.op == "int") {
		v.fail("a slice with an offset is stored")
	}
	if isByteArr(l) {
		r := ref
		if !isArrayObj(t) {
			r = b.AddC(ref, int64(1+v.subIndex(t, i)))
		}
		v.rawStore(st, "B", ArrSort(SBytes), false, r, val)
		return
	}
	v.rawStore(st, leafMap(t, l), ArrSort(l.sort), isRefKind(l), ref, val)
}

func (v *Ver) rawStore(st *State, m string, s Sort, refs bool, ref, val *Term) {
	st.heap.m[m] = v.b.Store(v.getMap(st.heap, m, s, refs), ref, val)
	v.wrote(st, m, ref)
}

func (v *Ver) zeroOf(l Leaf) *Term {
	switch {
	case l.sort == SBool:
		return v.b.F
	case l.sort == SBytes:
		if a, ok := l.typ.Underlying().(*types.Array); ok {
			return v.b.Zeros(v.b.Int(a.Len()))
		}
		return v.b.Emp()
	}
	return v.b.zero
}

func (v *Ver) zeroLeaves(t types.Type) []*Term {
	ls := v.w.layout(t)
	out := make([]*Term, len(ls))
	for i, l := range ls {
		out[i] = v.zeroOf(l)
	}
	return out
}

// ---- well-formedness of values read from the initial state or returned by contracts ----

func intRange(t types.Type) (lo, hi *big.Int) {
	bt, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil
	}
	p := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	m1 := func(x *big.Int) *big.Int { return new(big.Int).Sub(x, big.NewInt(1)) }
	switch bt.Kind() {
	case types.Uint8:
		return new(big.Int), m1(p(8))
	case types.Uint16:
		return new(big.Int), m1(p(16))
	case types.Uint32:
		return new(big.Int), m1(p(32))
	case types.Uint64, types.Uint, types.Uintptr:
		return new(big.Int), m1(p(64))
	case types.Int8:
		return new(big.Int).Neg(p(7)), m1(p(7))
	case types.Int16:
		return new(big.Int).Neg(p(15)), m1(p(15))
	case types.Int32:
		return new(big.Int).Neg(p(31)), m1(p(31))
	case types.Int64, types.Int:
		return new(big.Int).Neg(p(63)), m1(p(63))
	}
	return nil, nil
}

func (v *Ver) wf(st *State, ls []Leaf, l []*Term) {
	b := v.b
	for i, lf := range ls {
		t := l[i]
		if t.op == "int" || t.op == "blit" || t == b.T || t == b.F {
			continue
		}
		switch lf.kind {
		case "int":
			lo, hi := intRange(lf.typ)
			if lo != nil {
				v.assume(st, b.Le(b.Big(lo), t))
				v.assume(st, b.Le(t, b.Big(hi)))
			}
		case "len":
			v.assume(st, b.Le(b.zero, t))
			v.assume(st, b.Le(t, l[i+1]))
			v.assume(st, b.Implies(b.Eq(l[i-2], b.zero), b.And(b.Eq(t, b.zero), b.Eq(l[i+1], b.zero))))
		case "cap":
			v.assume(st, b.Le(t, b.Int(1<<62)))
			if i >= 3 && l[i-3] != b.zero {
				if sl, ok := ls[i-3].typ.Underlying().(*types.Slice); ok && isByteType(sl.Elem()) {
					v.assume(st, b.Le(b.Add(l[i-2], t), b.Len(b.Select(v.getMap(st.heap, "B", ArrSort(SBytes), false), l[i-3]))))
				}
			}
		case "off":
			v.assume(st, b.Le(b.zero, t))
		case "ref", "data":
			if _, hi, ok := b.bounds(t); ok && hi.k >= 0 && t.op != "poly" {
				v.assume(st, b.mk(&Term{op: "ge0", sort: SBool, args: []*Term{b.Sub(v.posTerm(hi), t)}}))
			} else if t.op == "select" {
				v.assume(st, b.mk(&Term{op: "ge0", sort: SBool, args: []*Term{b.Sub(v.posTerm(st.pos()), t)}}))
			}
		case "bytes":
			if a, ok := lf.typ.Underlying().(*types.Array); ok {
				v.assume(st, b.Eq(b.Len(t), b.Int(a.Len())))
			}
		}
	}
}

// fixOff replaces the offset of slices that come from outside the function by zero.
func (v *Ver) fixOff(ls []Leaf, l []*Term) []*Term {
	out := l
	for i, lf := range ls {
		if lf.kind == "off" && l[i].op != "int" && (l[i].op == "select" || l[i].op == "sym") {
			if &out[0] == &l[0] {
				out = append([]*Term(nil), l...)
			}
			out[i] = v.b.zero
		}
	}
	return out
}

// ---- reading and writing ----

func elemOfPtr(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func (v *Ver) nonNil(st *State, t *Term, what string) {
	b := v.b
	if lo, _, ok := b.bounds(t); ok && (Pos{0, 0}).le(lo) {
		return
	}
	if t.op == "int" && t.val.Sign() != 0 {
		return
	}
	v.oblige(st, "safety", "nil:"+what, b.Not(b.Eq(t, b.zero)))
}

func (v *Ver) load(st *State, p *Value) *Value {
	b := v.b
	t := elemOfPtr(p.typ)
	var l []*Term
	n := len(v.w.layout(t))
	if a := p.addr; a != nil {
		switch a.kind {
		case "field":
			v.touchCoord(st, a)
			l = v.loadObj(st.heap, a.base, a.ref, a.off, a.n)
			if offFree[shortType(a.base)] {
				for i, lf := range v.w.layout(t) {
					if lf.kind == "off" && l[i].op != "int" {
						v.fail("offset of a slice in %s is unknown", shortType(a.base))
					}
				}
			}
		case "elem":
			l = v.loadElem(st.heap, a.base, a.ref, a.idx, a.off, a.n)
		case "byte":
			l = []*Term{b.At(b.Select(v.getMap(st.heap, "B", ArrSort(SBytes), false), a.ref), a.idx, true)}
		}
	} else {
		v.nonNil(st, p.l[0], "deref")
		l = v.loadObj(st.heap, t, p.l[0], 0, n)
	}
	ls := v.w.layout(t)
	if len(l) > 0 {
		l = v.fixOff(ls, l)
	}
	v.wf(st, ls, l)
	v.ownFact(st, p, l)
	return &Value{typ: t, l: l}
}

// ownFact: distinct scalars (fields, points) have distinct representations.
func (v *Ver) ownFact(st *State, p *Value, l []*Term) {
	if !v.repMode() || p.addr == nil || p.addr.kind != "field" {
		return
	}
	for _, r := range repField {
		if shortType(p.addr.base) == r.typ {
			if l[0].op == "select" && l[0].args[0].op == "sym" {
				for _, f := range v.ownFacts(r.typ, r.rep, p.addr.ref, l[0]) {
					v.assume(st, f)
				}
			}
		}
	}
}

func (v *Ver) ownFacts(typ, rep string, ref, l *Term) []*Term {
	b := v.b
	out := []*Term{b.Eq(b.App("own", l), ref), b.Not(b.Eq(l, b.zero))}
	m, q, k := "GV", bigQ, int64(0)
	if rep == "FV" {
		m, k = "FV", 1
		if typ == "curve.Secp256k1Field" {
			q, k = bigP, 2
		}
	}
	x := b.Select(v.getMap(v.entry, m, v.sp.ghosts[m], false), l)
	out = append(out, b.Le(b.zero, x), b.Lt(x, b.Big(q)))
	if k != 0 {
		out = append(out, b.Eq(b.Select(v.getMap(v.entry, "FM", v.sp.ghosts["FM"], false), l), b.Int(k)))
	}
	return out
}

func (v *Ver) store(st *State, p *Value, val *Value) {
	b := v.b
	t := elemOfPtr(p.typ)
	ls := v.w.layout(t)
	l := val.l
	if len(l) != len(ls) {
		v.fail("store of %d leaves into %s (%d)", len(l), t, len(ls))
	}
	if a := p.addr; a != nil {
		switch a.kind {
		case "field":
			v.repStore(st, a, l)
			v.touchCoord(st, a)
			bl := v.w.layout(a.base)
			for i := range l {
				lf := bl[a.off+i]
				v.checkWriteLeaf(st, a.base, a.ref, a.off+i, lf)
				v.rawStoreLeaf(st, a.base, a.ref, a.off+i, lf, l[i])
			}
		case "elem":
			el := v.w.layout(a.base)
			for i := range l {
				lf := el[a.off+i]
				m := elemMap(a.base, lf)
				if lf.kind == "off" && l[i] != b.zero {
					v.fail("a slice with an offset is stored")
				}
				v.checkWrite(st, m, a.ref)
				arr := v.getMap(st.heap, m, ArrSort(ArrSort(lf.sort)), isRefKind(lf))
				v.rawStore(st, m, ArrSort(ArrSort(lf.sort)), isRefKind(lf), a.ref, b.Store(b.Select(arr, a.ref), a.idx, l[i]))
			}
		case "byte":
			v.checkWrite(st, "B", a.ref)
			old := b.Select(v.getMap(st.heap, "B", ArrSort(SBytes), false), a.ref)
			v.rawStore(st, "B", ArrSort(SBytes), false, a.ref, b.Upd(old, a.idx, l[0]))
		}
		return
	}
	v.nonNil(st, p.l[0], "store")
	for i := range l {
		v.checkWriteLeaf(st, t, p.l[0], i, ls[i])
		v.rawStoreLeaf(st, t, p.l[0], i, ls[i], l[i])
	}
}

func (v *Ver) checkWriteLeaf(st *State, t types.Type, ref *Term, i int, l Leaf) {
	if isByteArr(l) {
		r := ref
		if !isArrayObj(t) {
			r = v.b.AddC(ref, int64(1+v.subIndex(t, i)))
		}
		v.checkWrite(st, "B", r)
		return
	}
	v.checkWrite(st, leafMap(t, l), ref)
}

// repStore: the representation stored into a scalar or point must be fresh and unshared.
func (v *Ver) repStore(st *State, a *Addr, l []*Term) {
	if !v.repMode() {
		return
	}
	for _, r := range repField {
		if shortType(a.base) == r.typ {
			b := v.b
			goal := v.freshGoal(l[0], Pos{0, 0})
			for _, o := range st.reps {
				goal = b.And(goal, b.Not(b.Eq(o, l[0])))
			}
			v.oblige(st, "rep", "rep-unshared", goal)
			st.reps = append(st.reps, l[0])
		}
	}
}

func (v *Ver) freshGoal(r *Term, p Pos) *Term {
	b := v.b
	if lo, _, ok := b.bounds(r); ok && p.le(lo) {
		return b.T
	}
	return b.mk(&Term{op: "ge0", sort: SBool, args: []*Term{b.Sub(r, b.AddC(v.posTerm(p), 1))}})
}

// offFree: types whose slices may have a (constant) offset.
var offFree = map[string]bool{"curve.CompressedCoordinates": true, "curve.CompactCoordinates": true, "curve.UnCompressedCoordinates": true}

// touchCoord: the coordinates of a native point are accessed directly. The point must belong to this function; from here
// on its group element is the one its coordinates describe. Nobody has seen the coordinate objects before, so they are
// like freshly allocated ones.
func (v *Ver) touchCoord(st *State, a *Addr) {
	if shortType(a.base) != "native.EllipticPoint" {
		return
	}
	b := v.b
	ls := v.w.layout(a.base)
	ok := false
	for i := a.off; i < a.off+a.n; i++ {
		if n := ls[i].name; n == "X" || n == "Y" || n == "Z" {
			ok = true
		}
	}
	if !ok || st.dirty[a.ref] {
		return
	}
	if v.freshGoal(a.ref, Pos{0, 0}) != b.T {
		v.fail("coordinates of a point that does not belong to the function")
	}
	for d := range st.dirty {
		if b.eqRefs(d, a.ref) != 0 {
			v.fail("coordinates of possibly the same point")
		}
	}
	g := b.Select(v.getMap(st.heap, "GV", v.sp.ghosts["GV"], false), a.ref)
	var xs []*Term
	for _, n := range []string{"X", "Y", "Z"} {
		for i, l := range ls {
			if l.name == n {
				r := v.allocN(st, 0)
				v.rawStoreLeaf(st, a.base, a.ref, i, l, r)
				x := b.NewSym("coord", SInt)
				v.symRange(st, x, new(big.Int), new(big.Int).Sub(bigP, big.NewInt(1)))
				v.rawStore(st, "FV", v.sp.ghosts["FV"], false, r, x)
				v.rawStore(st, "FM", v.sp.ghosts["FM"], false, r, b.Int(2))
				xs = append(xs, x)
			}
		}
	}
	v.assume(st, b.Eq(b.App("ptxyz", xs...), g))
	st.dirty[a.ref] = true
}

// dirtyPoint: the group element of a native point whose coordinates were set by hand.
func (v *Ver) dirtyPoint(h *Heap, ref *Term) *Term {
	if v.dirtySt == nil || len(v.dirtySt.dirty) == 0 {
		return nil
	}
	t := v.w.lookupType("native.EllipticPoint")
	ls := v.w.layout(t)
	for d := range v.dirtySt.dirty {
		switch v.b.eqRefs(d, ref) {
		case 0:
			continue
		case -1:
			v.fail("a point that may have hand-set coordinates")
		}
		var xs []*Term
		for _, n := range []string{"X", "Y", "Z"} {
			for i, l := range ls {
				if l.name == n {
					f := v.loadObj(h, t, ref, i, 1)[0]
					xs = append(xs, v.b.Select(v.getMap(h, "FV", v.sp.ghosts["FV"], false), f))
				}
			}
		}
		return v.b.App("ptxyz", xs...)
	}
	return nil
}

// checkWrite: the function may write only to fresh memory and to what it declares.
func (v *Ver) checkWrite(st *State, m string, ref *Term) {
	b := v.b
	g := v.freshGoal(ref, Pos{0, 0})
	if g != b.T {
		alts := []*Term{g}
		for _, x := range v.mods {
			if x.m == m || x.m == "" {
				switch b.eqRefs(x.ref, ref) {
				case 1:
					alts = []*Term{b.T}
				case -1:
					alts = append(alts, b.Eq(x.ref, ref))
				}
			}
		}
		v.oblige(st, "frame", "frame:"+m, b.Or(alts...))
	}
}

// ---- constants ----

func (v *Ver) constVal(c *ssa.Const) *Value {
	t := c.Type()
	ls := v.w.layout(t)
	if c.Value == nil {
		l := make([]*Term, len(ls))
		for i, x := range ls {
			l[i] = v.zeroOf(x)
		}
		return &Value{typ: t, l: l}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return &Value{typ: t, l: []*Term{v.b.Bool(constant.BoolVal(c.Value))}}
	case constant.String:
		return &Value{typ: t, l: []*Term{v.b.Lit(constant.StringVal(c.Value))}}
	case constant.Int:
		n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return &Value{typ: t, l: []*Term{v.b.Big(n)}}
	case constant.Float:
		if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return &Value{typ: t, l: []*Term{v.b.Int(n)}}
		}
	}
	v.fail("constant %s", c)
	return nil
}

func (v *Ver) val(st *State, x ssa.Value) *Value {
	f := st.top()
	switch c := x.(type) {
	case *ssa.Const:
		return v.constVal(c)
	case *ssa.Global:
		a, ok := v.w.globals[c]
		if !ok {
			return v.externGlobal(c)
		}
		return &Value{typ: c.Type(), l: []*Term{v.b.Int(a)}}
	case *ssa.Function:
		return &Value{typ: c.Type(), l: []*Term{v.b.Int(-1)}, clo: &Closure{fn: c}}
	case *ssa.FreeVar:
		if r, ok := f.env[c]; ok {
			return r
		}
	}
	r, ok := f.env[x]
	if !ok {
		v.fail("value %s (%s) undefined in %s", x.Name(), x, f.fn)
	}
	return r
}

func (v *Ver) externGlobal(g *ssa.Global) *Value {
	// a variable of a dependency: an opaque address below every allocation
	n, ok := v.w.globals[g]
	if !ok {
		n = -64 * int64(len(v.w.globals)+1)
		v.w.gmu.Lock()
		if m, ok := v.w.extGlobals[g]; ok {
			n = m
		} else {
			n = -1000000 - 64*int64(len(v.w.extGlobals)+1)
			v.w.extGlobals[g] = n
		}
		v.w.gmu.Unlock()
	}
	return &Value{typ: g.Type(), l: []*Term{v.b.Int(n)}}
}

func (v *Ver) set(st *State, x ssa.Value, r *Value) { st.top().env[x] = r }

// ---- running ----

func (v *Ver) runAll(first *State) {
	v.work = append(v.work, first)
	for len(v.work) > 0 {
		st := v.work[len(v.work)-1]
		v.work = v.work[:len(v.work)-1]
		v.run(st)
		v.paths++
		if v.paths > 6000 {
			v.fail("too many paths")
		}
	}
}

func (v *Ver) run(st *State) {
	for !st.dead && len(st.frames) > 0 {
		v.steps++
		if v.steps > 400000 {
			v.fail("too many steps")
		}
		f := st.top()
		if f.idx >= len(f.block.Instrs) {
			v.fail("fell off block in %s", f.fn)
		}
		in := f.block.Instrs[f.idx]
		f.idx++
		v.dirtySt = st
		if !v.step(st, in) {
			return
		}
	}
}

func (v *Ver) pushBranch(st *State) { v.work = append(v.work, st) }

// decide evaluates a condition under the path facts: 1 true, 0 false, -1 both possible.
func (v *Ver) decide(st *State, c *Term) int {
	b := v.b
	if c == b.T || st.fset[c] {
		return 1
	}
	if c == b.F || st.fset[b.Not(c)] {
		return 0
	}
	if v.dry > 0 {
		return -1
	}
	key := fmt.Sprintf("%d", c.id)
	_ = key
	if infeasible(b, append(st.facts[:len(st.facts):len(st.facts)], c)) {
		v.assume(st, b.Not(c))
		return 0
	}
	if infeasible(b, append(st.facts[:len(st.facts):len(st.facts)], b.Not(c))) {
		v.assume(st, c)
		return 1
	}
	return -1
}

func (v *Ver) jump(st *State, to *ssa.BasicBlock) bool {
	f := st.top()
	f.prev, f.block, f.idx = f.block, to, 0
	// leaving loops
	for len(f.loops) > 0 {
		lc := f.loops[len(f.loops)-1]
		if lc.header == nil || lc.blocks[to] {
			break
		}
		if lc.dry != nil {
			return false // outside the loop being explored
		}
		f.loops = f.loops[:len(f.loops)-1]
	}
	info := v.w.loopsOf(f.fn)
	li := info[to]
	if li == nil {
		v.doPhis(st, to)
		return true
	}
	if len(f.loops) > 0 && f.loops[len(f.loops)-1].header == to {
		v.loopBack(st, f.loops[len(f.loops)-1])
		return false
	}
	return v.loopEnter(st, li)
}

func (v *Ver) doPhis(st *State, to *ssa.BasicBlock) {
	f := st.top()
	k := -1
	for i, p := range to.Preds {
		if p == f.prev {
			k = i
		}
	}
	var phis []*ssa.Phi
	var vals []*Value
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, v.val(st, p.Edges[k]))
	}
	for i, p := range phis {
		r := *vals[i]
		r.typ = p.Type()
		f.env[p] = &r
		if p.Comment != "" && p.Comment != "&&" && p.Comment != "||" {
			f.names[p.Comment] = &r
		}
		f.idx++
	}
}

func (v *Ver) ret(st *State, res []*Value) bool {
	f := st.top()
	st.frames = st.frames[:len(st.frames)-1]
	f.onRet(st, res)
	return !st.dead && len(st.frames) > 0
}

func (v *Ver) name(st *State, n string, x *Value) { st.top().names[n] = x }

func (v *Ver) wrapInt(t types.Type, x *Term) *Term {
	bt, ok := t.Underlying().(*types.Basic)
	if !ok {
		return x
	}
	var bits uint
	switch bt.Kind() {
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	case types.Uint64, types.Uint, types.Uintptr:
		bits = 64
	default:
		return x
	}
	return v.b.Mod(x, v.b.Big(new(big.Int).Lsh(big.NewInt(1), bits)))
}

func isUnsigned(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsUnsigned != 0
}

func (v *Ver) binop(st *State, in *ssa.BinOp) *Value {
	b := v.b
	x, y := v.val(st, in.X), v.val(st, in.Y)
	t := in.Type()
	one := func(r *Term) *Value { return &Value{typ: t, l: []*Term{r}} }
	switch in.Op {
	case token.EQL, token.NEQ:
		var eq *Term
		if c, ok := in.Y.(*ssa.Const); ok && c.Value == nil && isNilable(in.Y.Type()) {
			eq = v.isNil(st, x)
		} else if c, ok := in.X.(*ssa.Const); ok && c.Value == nil && isNilable(in.X.Type()) {
			eq = v.isNil(st, y)
		} else {
			if len(x.l) != len(y.l) {
				v.fail("comparison of different shapes")
			}
			if _, ok := in.X.Type().Underlying().(*types.Interface); ok && len(x.l) == 2 {
				v.fail("comparison of interface values")
			}
			cs := []*Term{}
			for i := range x.l {
				cs = append(cs, b.Eq(x.l[i], y.l[i]))
			}
			eq = b.And(cs...)
		}
		if in.Op == token.NEQ {
			eq = b.Not(eq)
		}
		return one(eq)
	}
	p, q := x.l[0], y.l[0]
	if p.sort == SBytes {
		switch in.Op {
		case token.ADD:
			return one(b.Cat(p, q))
		case token.LSS:
			return one(b.App("blt", p, q))
		}
		v.fail("string operator %s", in.Op)
	}
	switch in.Op {
	case token.ADD:
		return one(v.wrapInt(t, b.Add(p, q)))
	case token.SUB:
		return one(v.wrapInt(t, b.Sub(p, q)))
	case token.MUL:
		return one(v.wrapInt(t, b.Mul(p, q)))
	case token.QUO, token.REM:
		v.oblige(st, "safety", "div-zero", b.Not(b.Eq(q, b.zero)))
		if !isUnsigned(t) {
			// truncated and floored division agree on nonnegative operands
			if lo, _ := b.rng(q); lo == nil || lo.Sign() < 0 {
				v.oblige(st, "safety", "div-sign", b.Le(b.one, q))
			}
		}
		if in.Op == token.QUO {
			return one(b.Div(p, q))
		}
		return one(b.Mod(p, q))
	case token.LSS:
		return one(b.Lt(p, q))
	case token.LEQ:
		return one(b.Le(p, q))
	case token.GTR:
		return one(b.Lt(q, p))
	case token.GEQ:
		return one(b.Le(q, p))
	case token.SHL:
		v.shiftCount(st, in.Y, q)
		if k, ok := q.int64(); ok && k >= 0 && k < 4096 {
			return one(v.wrapInt(t, b.Scale(new(big.Int).Lsh(big.NewInt(1), uint(k)), p)))
		}
		return one(v.wrapInt(t, b.App("shl", p, q)))
	case token.SHR:
		v.shiftCount(st, in.Y, q)
		if k, ok := q.int64(); ok && k >= 0 && k < 4096 {
			return one(b.Div(p, b.Big(new(big.Int).Lsh(big.NewInt(1), uint(k)))))
		}
		return one(b.App("shr", p, q))
	case token.AND:
		if k, ok := q.int64(); ok {
			if k >= 0 && k&(k+1) == 0 {
				return one(b.Mod(p, b.Int(k+1)))
			}
		}
		if k, ok := p.int64(); ok {
			if k >= 0 && k&(k+1) == 0 {
				return one(b.Mod(q, b.Int(k+1)))
			}
		}
		return one(b.App("bitand", p, q))
	case token.OR:
		return one(b.App("bitor", p, q))
	case token.XOR:
		return one(b.App("ixor", p, q))
	}
	v.fail("operator %s", in.Op)
	return nil
}

// shiftCount: shifting by a negative count panics.
func (v *Ver) shiftCount(st *State, y ssa.Value, q *Term) {
	if bt, ok := y.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
		return
	}
	if lo, _ := v.b.rng(q); lo == nil || lo.Sign() < 0 {
		v.oblige(st, "safety", "shift-count", v.b.Le(v.b.zero, q))
	}
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func (v *Ver) isNil(st *State, x *Value) *Term {
	if x.addr != nil || x.clo != nil {
		return v.b.F
	}
	if _, ok := x.typ.Underlying().(*types.Slice); ok {
		return v.b.Eq(x.l[0], v.b.zero)
	}
	return v.b.Eq(x.l[0], v.b.zero)
}

func (v *Ver) convert(st *State, x *Value, to types.Type) *Value {
	b := v.b
	from := x.typ
	fs, fslice := from.Underlying().(*types.Slice)
	ts, tslice := to.Underlying().(*types.Slice)
	fb, fbasic := from.Underlying().(*types.Basic)
	tb, tbasic := to.Underlying().(*types.Basic)
	switch {
	case fslice && tbasic && tb.Info()&types.IsString != 0 && isByteType(fs.Elem()):
		return &Value{typ: to, l: []*Term{v.sliceBytes(st.heap, x.l)}}
	case fbasic && fb.Info()&types.IsString != 0 && tslice && isByteType(ts.Elem()):
		return v.freshBytes(st, to, x.l[0])
	case fbasic && tbasic && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		lo, hi := intRange(to)
		flo, fhi := b.rng(x.l[0])
		if rl, rh := intRange(from); rl != nil {
			if flo == nil || flo.Cmp(rl) < 0 {
				flo = rl
			}
			if fhi == nil || fhi.Cmp(rh) > 0 {
				fhi = rh
			}
		}
		if lo == nil || flo != nil && fhi != nil && flo.Cmp(lo) >= 0 && fhi.Cmp(hi) <= 0 {
			return &Value{typ: to, l: x.l}
		}
		if isUnsigned(to) {
			return &Value{typ: to, l: []*Term{v.wrapInt(to, x.l[0])}}
		}
		// to a signed type that may not hold the value
		v.oblige(st, "safety", "int-range", b.And(b.Le(b.Big(lo), x.l[0]), b.Le(x.l[0], b.Big(hi))))
		return &Value{typ: to, l: x.l}
	}
	if len(v.w.layout(from)) == len(v.w.layout(to)) {
		r := *x
		r.typ = to
		return &r
	}
	v.fail("conversion %s to %s", from, to)
	return nil
}

// freshBytes allocates a byte slice with the given content.
func (v *Ver) freshBytes(st *State, t types.Type, content *Term) *Value {
	b := v.b
	r := v.allocN(st, 0)
	v.rawStore(st, "B", ArrSort(SBytes), false, r, content)
	n := b.Len(content)
	return &Value{typ: t, l: []*Term{r, b.zero, n, n}}
}

func (v *Ver) step(st *State, in ssa.Instruction) bool {
	b := v.b
	f := st.top()
	switch x := in.(type) {
	case *ssa.DebugRef:
		if id, ok := x.Expr.(interface{ String() string }); ok && x.Object() != nil {
			_ = id
			if r, ok := f.env[x.X]; ok {
				if x.IsAddr {
					f.cells[x.Object().Name()] = r
				} else {
					f.names[x.Object().Name()] = r
				}
			}
		}
	case *ssa.Alloc:
		t := elemOfPtr(x.Type())
		r := v.allocObj(st, t)
		val := &Value{typ: x.Type(), l: []*Term{r}}
		v.set(st, x, val)
		if x.Comment != "" && x.Comment != "new" && x.Comment != "complit" {
			f.cells[x.Comment] = val
		}
	case *ssa.BinOp:
		if (x.Op == token.QUO || x.Op == token.REM) && isInteger(x.Type()) && !isUnsigned(x.Type()) {
			p, q := v.val(st, x.X).l[0], v.val(st, x.Y).l[0]
			if lo, _ := v.b.rng(p); lo == nil || lo.Sign() < 0 {
				// Go truncates: divide the absolute value
				return v.forkOn(st, v.b.Le(v.b.zero, p), func(s *State, pos bool) {
					if pos {
						v.set(s, x, v.binop(s, x))
					} else {
						v.oblige(s, "safety", "div-zero", v.b.Not(v.b.Eq(q, v.b.zero)))
						v.oblige(s, "safety", "div-sign", v.b.Le(v.b.one, q))
						n := v.b.Sub(v.b.zero, p)
						if x.Op == token.QUO {
							n = v.b.Div(n, q)
						} else {
							n = v.b.Mod(n, q)
						}
						v.set(s, x, &Value{typ: x.Type(), l: []*Term{v.wrapInt(x.Type(), v.b.Sub(v.b.zero, n))}})
					}
				})
			}
		}
		v.set(st, x, v.binop(st, x))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			v.set(st, x, v.load(st, v.val(st, x.X)))
		case token.NOT:
			v.set(st, x, &Value{typ: x.Type(), l: []*Term{b.Not(v.val(st, x.X).l[0])}})
		case token.SUB:
			v.set(st, x, &Value{typ: x.Type(), l: []*Term{v.wrapInt(x.Type(), b.Neg(v.val(st, x.X).l[0]))}})
		default:
			v.fail("unary %s", x.Op)
		}
	case *ssa.ChangeInterface:
		v.set(st, x, v.changeIface(st, v.val(st, x.X), x.Type()))
	case *ssa.ChangeType:
		r := *v.val(st, x.X)
		r.typ = x.Type()
		v.set(st, x, &r)
	case *ssa.Convert:
		v.set(st, x, v.convert(st, v.val(st, x.X), x.Type()))
	case *ssa.MakeInterface:
		v.set(st, x, v.makeIface(st, v.val(st, x.X), x.Type()))
	case *ssa.TypeAssert:
		return v.typeAssert(st, x)
	case *ssa.Extract:
		t := v.val(st, x.Tuple)
		v.set(st, x, t.tup[x.Index])
	case *ssa.Field:
		s := v.val(st, x.X)
		str := s.typ.Underlying().(*types.Struct)
		off := v.w.fieldOffset(str, x.Field)
		ft := str.Field(x.Field).Type()
		v.set(st, x, &Value{typ: ft, l: s.l[off : off+len(v.w.layout(ft))]})
	case *ssa.FieldAddr:
		v.set(st, x, v.fieldAddr(st, v.val(st, x.X), x.Field, x.Type()))
	case *ssa.IndexAddr:
		v.set(st, x, v.indexAddr(st, v.val(st, x.X), v.val(st, x.Index).l[0], x.Type()))
	case *ssa.Index:
		s, i := v.val(st, x.X), v.val(st, x.Index).l[0]
		if a, ok := s.typ.Underlying().(*types.Array); ok {
			v.inRange(st, i, b.Int(a.Len()))
			if isByteType(a.Elem()) {
				v.set(st, x, &Value{typ: x.Type(), l: []*Term{b.At(s.l[0], i, true)}})
				break
			}
			k, ok := i.int64()
			if !ok {
				v.fail("symbolic index of array value")
			}
			n := len(v.w.layout(a.Elem()))
			v.set(st, x, &Value{typ: x.Type(), l: s.l[int(k)*n : int(k+1)*n]})
			break
		}
		v.inRange(st, i, b.Len(s.l[0]))
		r := &Value{typ: x.Type(), l: []*Term{b.At(s.l[0], i, true)}}
		v.wf(st, v.w.layout(x.Type()), r.l)
		v.set(st, x, r)
	case *ssa.Lookup:
		return v.lookup(st, x)
	case *ssa.MakeMap:
		r := v.allocN(st, 0)
		val := &Value{typ: x.Type(), l: []*Term{r}}
		v.initMap(st, x.Type(), r)
		v.set(st, x, val)
	case *ssa.MapUpdate:
		m := v.val(st, x.Map)
		v.nonNil(st, m.l[0], "map")
		v.mapStore(st, m.typ, m.l[0], v.val(st, x.Key).l[0], v.val(st, x.Value).l)
	case *ssa.MakeSlice:
		n, c := v.val(st, x.Len).l[0], v.val(st, x.Cap).l[0]
		v.oblige(st, "safety", "make-len", b.And(b.Le(b.zero, n), b.Le(n, c)))
		el := x.Type().Underlying().(*types.Slice).Elem()
		r := v.newArray(st, el, c)
		v.set(st, x, &Value{typ: x.Type(), l: []*Term{r, b.zero, n, c}})
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, bd := range x.Bindings {
			c.binds = append(c.binds, v.val(st, bd))
		}
		v.set(st, x, &Value{typ: x.Type(), l: []*Term{b.Int(-1)}, clo: c})
	case *ssa.Slice:
		v.set(st, x, v.slice(st, x))
	case *ssa.SliceToArrayPointer:
		s := v.val(st, x.X)
		at := elemOfPtr(x.Type()).Underlying().(*types.Array)
		v.oblige(st, "safety", "slice-to-array", b.Le(b.Int(at.Len()), s.l[2]))
		v.fail("slice to array pointer")
	case *ssa.Store:
		v.store(st, v.val(st, x.Addr), v.val(st, x.Val))
	case *ssa.Phi:
		v.fail("stray phi")
	case *ssa.Jump:
		return v.jump(st, f.block.Succs[0])
	case *ssa.If:
		c := v.val(st, x.Cond).l[0]
		v.guardFact(st, x, c)
		switch v.decide(st, c) {
		case 1:
			return v.jump(st, f.block.Succs[0])
		case 0:
			return v.jump(st, f.block.Succs[1])
		}
		if st.dead {
			return false
		}
		o := st.fork()
		v.assume(st, c)
		v.assume(o, b.Not(c))
		p := v.posOf(st)
		st.trail = append(st.trail, p+"T")
		o.trail = append(o.trail, p+"F")
		if !o.dead && v.jump(o, o.top().block.Succs[1]) {
			v.pushBranch(o)
		}
		if st.dead {
			return false
		}
		return v.jump(st, f.block.Succs[0])
	case *ssa.Return:
		var res []*Value
		sig := f.fn.Signature.Results()
		for i, r := range x.Results {
			q := *v.val(st, r)
			q.typ = sig.At(i).Type()
			res = append(res, &q)
		}
		return v.ret(st, res)
	case *ssa.Panic:
		v.oblige(st, "safety", "no-panic", b.F)
		return false
	case *ssa.RunDefers:
	case *ssa.Call:
		return v.call(st, x)
	default:
		v.fail("instruction %T %s", in, in)
	}
	return !st.dead
}

func (v *Ver) newArray(st *State, el types.Type, c *Term) *Term {
	r := v.allocN(st, 0)
	if isByteType(el) {
		v.rawStore(st, "B", ArrSort(SBytes), false, r, v.b.Zeros(c))
		return r
	}
	for _, l := range v.w.layout(el) {
		v.rawStore(st, elemMap(el, l), ArrSort(ArrSort(l.sort)), isRefKind(l), r, v.b.ConstArr(v.zeroOf(l)))
	}
	return r
}

func (v *Ver) inRange(st *State, i, n *Term) {
	b := v.b
	v.oblige(st, "safety", "index", b.And(b.Le(b.zero, i), b.Lt(i, n)))
}

func (v *Ver) fieldAddr(st *State, p *Value, i int, t types.Type) *Value {
	pt := elemOfPtr(p.typ)
	str := pt.Underlying().(*types.Struct)
	off := v.w.fieldOffset(str, i)
	n := len(v.w.layout(str.Field(i).Type()))
	if a := p.addr; a != nil {
		q := *a
		q.off += off
		q.n = n
		return &Value{typ: t, addr: &q}
	}
	v.nonNil(st, p.l[0], "field "+str.Field(i).Name())
	ft := str.Field(i).Type()
	if _, ok := ft.Underlying().(*types.Struct); ok && n == 0 {
		// opaque dependency struct embedded by value: an interior object
		return &Value{typ: t, l: []*Term{v.b.AddC(p.l[0], 32)}}
	}
	if isArrayObj(ft) {
		return &Value{typ: t, l: []*Term{v.b.AddC(p.l[0], int64(1+v.subIndex(pt, off)))}}
	}
	return &Value{typ: t, addr: &Addr{kind: "field", base: pt, ref: p.l[0], off: off, n: n}}
}

func (v *Ver) indexAddr(st *State, s *Value, i *Term, t types.Type) *Value {
	b := v.b
	switch u := s.typ.Underlying().(type) {
	case *types.Slice:
		v.inRange(st, i, s.l[2])
		idx := b.Add(s.l[1], i)
		if isByteType(u.Elem()) {
			return &Value{typ: t, addr: &Addr{kind: "byte", ref: s.l[0], idx: idx, n: 1}}
		}
		return &Value{typ: t, addr: &Addr{kind: "elem", base: u.Elem(), ref: s.l[0], idx: idx, n: len(v.w.layout(u.Elem()))}}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		v.inRange(st, i, b.Int(at.Len()))
		if isByteType(at.Elem()) {
			if s.addr != nil {
				v.fail("byte of an embedded array")
			}
			return &Value{typ: t, addr: &Addr{kind: "byte", ref: s.l[0], idx: i, n: 1}}
		}
		k, ok := i.int64()
		if !ok {
			v.fail("symbolic index into a fixed array")
		}
		n := len(v.w.layout(at.Elem()))
		if s.addr != nil {
			q := *s.addr
			q.off += int(k) * n
			q.n = n
			return &Value{typ: t, addr: &q}
		}
		return &Value{typ: t, addr: &Addr{kind: "field", base: u.Elem(), ref: s.l[0], off: int(k) * n, n: n}}
	}
	v.fail("index of %s", s.typ)
	return nil
}

func (v *Ver) slice(st *State, x *ssa.Slice) *Value {
	b := v.b
	s := v.val(st, x.X)
	opt := func(y ssa.Value, d *Term) *Term {
		if y == nil {
			return d
		}
		return v.val(st, y).l[0]
	}
	switch u := s.typ.Underlying().(type) {
	case *types.Basic: // string
		n := b.Len(s.l[0])
		lo, hi := opt(x.Low, b.zero), opt(x.High, n)
		v.oblige(st, "safety", "slice", b.And(b.Le(b.zero, lo), b.Le(lo, hi), b.Le(hi, n)))
		return &Value{typ: x.Type(), l: []*Term{b.Sub3(s.l[0], lo, b.Sub(hi, lo))}}
	case *types.Slice:
		lo, hi := opt(x.Low, b.zero), opt(x.High, s.l[2])
		mx := opt(x.Max, s.l[3])
		v.oblige(st, "safety", "slice", b.And(b.Le(b.zero, lo), b.Le(lo, hi), b.Le(hi, mx), b.Le(mx, s.l[3])))
		return &Value{typ: x.Type(), l: []*Term{s.l[0], b.Add(s.l[1], lo), b.Sub(hi, lo), b.Sub(mx, lo)}}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := b.Int(at.Len())
		lo, hi, mx := opt(x.Low, b.zero), opt(x.High, n), opt(x.Max, n)
		v.oblige(st, "safety", "slice", b.And(b.Le(b.zero, lo), b.Le(lo, hi), b.Le(hi, mx), b.Le(mx, n)))
		if isByteType(at.Elem()) {
			if s.addr != nil {
				v.fail("slice of an embedded array")
			}
			v.nonNil(st, s.l[0], "array")
			return &Value{typ: x.Type(), l: []*Term{s.l[0], lo, b.Sub(hi, lo), b.Sub(mx, lo)}}
		}
		// slice literal: the array object becomes the backing store
		if s.addr != nil || lo != b.zero {
			v.fail("slice of an array")
		}
		el := at.Elem()
		r := v.allocN(st, 0)
		ls := v.w.layout(el)
		vals := v.loadObj(st.heap, u.Elem(), s.l[0], 0, len(ls)*int(at.Len()))
		for j, l := range ls {
			row := b.ConstArr(v.zeroOf(l))
			for k := 0; k < int(at.Len()); k++ {
				row = b.Store(row, b.Int(int64(k)), vals[k*len(ls)+j])
			}
			v.rawStore(st, elemMap(el, l), ArrSort(ArrSort(l.sort)), isRefKind(l), r, row)
		}
		return &Value{typ: x.Type(), l: []*Term{r, b.zero, hi, mx}}
	}
	v.fail("slice of %s", s.typ)
	return nil
}

// ---- interfaces ----

func (v *Ver) makeIface(st *State, x *Value, t types.Type) *Value {
	b := v.b
	w := v.w
	if w.single(t) != nil || w.opaqueIface(t) {
		if _, ok := x.typ.Underlying().(*types.Pointer); ok && x.addr == nil {
			if w.opaqueIface(t) {
				return &Value{typ: t, l: x.l}
			}
			return &Value{typ: t, l: x.l}
		}
		v.fail("interface %s made from %s", t, x.typ)
	}
	tag := b.Int(int64(w.tag(x.typ)))
	if _, ok := x.typ.Underlying().(*types.Pointer); ok {
		if x.addr != nil {
			v.fail("interior pointer in interface")
		}
		// a nil pointer in an interface is treated as the nil interface
		return &Value{typ: t, l: []*Term{b.Ite(b.Eq(x.l[0], b.zero), b.zero, tag), x.l[0]}}
	}
	r := v.allocN(st, v.nByteArr(x.typ))
	v.initObj(st, x.typ, r, x.l)
	return &Value{typ: t, l: []*Term{tag, r}}
}

func (v *Ver) changeIface(st *State, x *Value, t types.Type) *Value {
	b := v.b
	if len(x.l) == len(v.w.layout(t)) {
		r := *x
		r.typ = t
		return &r
	}
	if len(x.l) == 1 { // single implementer (or opaque) to tagged
		if s := v.w.single(x.typ); s != nil {
			return &Value{typ: t, l: []*Term{b.Ite(b.Eq(x.l[0], b.zero), b.zero, b.Int(int64(v.w.tag(s)))), x.l[0]}}
		}
		return &Value{typ: t, l: []*Term{b.Ite(b.Eq(x.l[0], b.zero), b.zero, b.Int(-2)), x.l[0]}}
	}
	v.fail("interface conversion %s to %s", x.typ, t)
	return nil
}

func (v *Ver) typeAssert(st *State, x *ssa.TypeAssert) bool {
	b := v.b
	s := v.val(st, x.X)
	to := x.AssertedType
	var ok *Term
	var res func(st *State) *Value
	if it, isI := to.Underlying().(*types.Interface); isI {
		_ = it
		if len(s.l) == 1 {
			if v.w.single(s.typ) != nil {
				if types.Implements(v.w.single(s.typ), it) {
					ok = b.Not(b.Eq(s.l[0], b.zero))
				} else {
					ok = b.F
				}
			} else {
				v.fail("assertion on opaque interface")
			}
		} else {
			var cs []*Term
			for _, im := range v.w.implementers(to) {
				cs = append(cs, b.Eq(s.l[0], b.Int(int64(v.w.tag(im)))))
			}
			ok = b.Or(cs...)
		}
		res = func(st *State) *Value {
			n := len(v.w.layout(to))
			if n == len(s.l) {
				return &Value{typ: to, l: s.l}
			}
			if n == 1 {
				return &Value{typ: to, l: []*Term{s.l[1]}}
			}
			return v.changeIface(st, s, to)
		}
	} else {
		if len(s.l) == 1 {
			if im := v.w.single(s.typ); im != nil && types.Identical(im, to) {
				ok = b.Not(b.Eq(s.l[0], b.zero))
			} else {
				ok = b.F
			}
			res = func(*State) *Value { return &Value{typ: to, l: s.l} }
		} else {
			ok = b.Eq(s.l[0], b.Int(int64(v.w.tag(to))))
			res = func(st *State) *Value {
				if _, isP := to.Underlying().(*types.Pointer); isP {
					return &Value{typ: to, l: []*Term{s.l[1]}}
				}
				l := v.fixOff(v.w.layout(to), v.loadObj(st.heap, to, s.l[1], 0, len(v.w.layout(to))))
				v.wf(st, v.w.layout(to), l)
				return &Value{typ: to, l: l}
			}
		}
	}
	if !x.CommaOk {
		v.oblige(st, "safety", "type-assert", ok)
		if st.dead {
			return false
		}
		r := res(st)
		if _, isP := to.Underlying().(*types.Pointer); isP {
			v.assume(st, b.Not(b.Eq(r.l[0], b.zero)))
		}
		v.set(st, x, r)
		return true
	}
	okPath := func(st *State) {
		r := res(st)
		if _, isP := to.Underlying().(*types.Pointer); isP {
			v.assume(st, b.Not(b.Eq(r.l[0], b.zero)))
		}
		v.set(st, x, &Value{typ: x.Type(), tup: []*Value{r, {typ: types.Typ[types.Bool], l: []*Term{b.T}}}})
	}
	noPath := func(st *State) {
		z := &Value{typ: to, l: v.zeroLeaves(to)}
		v.set(st, x, &Value{typ: x.Type(), tup: []*Value{z, {typ: types.Typ[types.Bool], l: []*Term{b.F}}}})
	}
	switch v.decide(st, ok) {
	case 1:
		okPath(st)
		return true
	case 0:
		noPath(st)
		return true
	}
	o := st.fork()
	v.assume(st, ok)
	v.assume(o, b.Not(ok))
	if !o.dead {
		noPath(o)
		v.pushBranch(o)
	}
	if st.dead {
		return false
	}
	okPath(st)
	return true
}

// ---- maps ----

func (v *Ver) initMap(st *State, t types.Type, r *Term) {
	k, e := v.mapTypes(t)
	ks := v.keySort(k)
	n, s := v.domName(t)
	v.rawStore(st, n, s, false, r, v.b.ConstArr2(ks, v.b.F))
	for i, l := range v.w.layout(e) {
		vn, vs, _ := v.valName(t, i)
		v.rawStore(st, vn, vs, isRefKind(l), r, v.b.ConstArr2(ks, v.zeroOf(l)))
	}
}

func (v *Ver) mapStore(st *State, t types.Type, ref, key *Term, val []*Term) {
	b := v.b
	n, s := v.domName(t)
	v.checkWrite(st, n, ref)
	v.rawStore(st, n, s, false, ref, b.Store(b.Select(v.getMap(st.heap, n, s, false), ref), key, b.T))
	for i := range val {
		vn, vs, l := v.valName(t, i)
		if l.kind == "off" && val[i] != b.zero {
			v.fail("a slice with an offset is stored")
		}
		v.rawStore(st, vn, vs, isRefKind(l), ref, b.Store(b.Select(v.getMap(st.heap, vn, vs, isRefKind(l)), ref), key, val[i]))
	}
}

func (v *Ver) lookup(st *State, x *ssa.Lookup) bool {
	b := v.b
	m := v.val(st, x.X)
	key := v.val(st, x.Index)
	if bt, ok := m.typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		v.inRange(st, key.l[0], b.Len(m.l[0]))
		v.set(st, x, &Value{typ: x.Type(), l: []*Term{b.At(m.l[0], key.l[0], true)}})
		return true
	}
	_, et := v.mapTypes(m.typ)
	has := b.And(b.Not(b.Eq(m.l[0], b.zero)), b.Select(v.mapDom(st.heap, m.typ, m.l[0]), key.l[0]))
	raw := v.fixOff(v.w.layout(et), v.mapVal(st.heap, m.typ, m.l[0], key.l[0]))
	return v.forkOn(st, has, func(st *State, h bool) {
		l := raw
		if !h {
			l = v.zeroLeaves(et)
		} else {
			v.wf(st, v.w.layout(et), l)
		}
		r := &Value{typ: et, l: l}
		if x.CommaOk {
			r = &Value{typ: x.Type(), tup: []*Value{r, {typ: types.Typ[types.Bool], l: []*Term{b.Bool(h)}}}}
		}
		v.set(st, x, r)
	})
}

// forkOn continues with both values of a condition; reports whether st itself continues.
func (v *Ver) forkOn(st *State, c *Term, k func(*State, bool)) bool {
	switch v.decide(st, c) {
	case 1:
		k(st, true)
		return !st.dead
	case 0:
		k(st, false)
		return !st.dead
	}
	o := st.fork()
	v.assume(o, v.b.Not(c))
	v.assume(st, c)
	if !o.dead {
		v.dirtySt = o
		k(o, false)
		if !o.dead {
			v.pushBranch(o)
		}
	}
	v.dirtySt = st
	if st.dead {
		return false
	}
	k(st, true)
	return !st.dead
}

func sortedKeys[T any](m map[string]T) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func isInteger(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsInteger != 0
}
