package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type LoopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

// loopsOf finds the natural loops of a function.
func (w *World) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*LoopInfo {
	w.mu.Lock()
	defer w.mu.Unlock()
	if r, ok := w.loopc[fn]; ok {
		return r
	}
	r := map[*ssa.BasicBlock]*LoopInfo{}
	for _, t := range fn.Blocks {
		for _, h := range t.Succs {
			if !h.Dominates(t) {
				continue
			}
			li := r[h]
			if li == nil {
				li = &LoopInfo{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				r[h] = li
			}
			stack := []*ssa.BasicBlock{t}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if li.blocks[x] {
					continue
				}
				li.blocks[x] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
	var hs []*LoopInfo
	for _, l := range r {
		hs = append(hs, l)
	}
	pos := func(l *LoopInfo) int {
		best := 1 << 30
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if p := in.Pos(); p.IsValid() && int(p) < best {
					best = int(p)
				}
			}
		}
		return best
	}
	sort.Slice(hs, func(i, j int) bool {
		pi, pj := pos(hs[i]), pos(hs[j])
		if pi != pj {
			return pi < pj
		}
		return len(hs[i].blocks) > len(hs[j].blocks)
	})
	for i, l := range hs {
		l.ord = i + 1
	}
	w.loopc[fn] = r
	return r
}

type mapPlan struct {
	level   int // 0 fresh in the loop, 1 fresh in the function, 2 anything
	targets []*Term
}

type phiPlan struct {
	mode string // unchanged affine fresh
	c    *Term
	lo   *Pos
}

type LoopPlan struct {
	maps map[string]*mapPlan
	phis [][]phiPlan
	deep bool
}

type dryRec struct {
	writes map[string][]*Term
	phis   [][]*Value
	deep   bool
}

type LoopCtx struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
	spec   *LoopSpec
	it     *Term
	phis   []*ssa.Phi
	init   []*Value
	cur    []*Value
	entry  *Heap
	p0     Pos
	serial int
	plan   *LoopPlan
	dry    *dryRec
	guard  bool
	label  string
	scan   *scanCtx
}

func (v *Ver) loopSpec(f *Frame, ord int) *LoopSpec {
	if f.con != nil {
		if l := f.con.loops[ord]; l != nil {
			return l
		}
	}
	return &LoopSpec{}
}

func (p *LoopPlan) String() string {
	s := ""
	for _, k := range sortedKeys(p.maps) {
		s += fmt.Sprintf("%s/%d%v ", k, p.maps[k].level, p.maps[k].targets)
	}
	for _, ph := range p.phis {
		for _, q := range ph {
			s += q.mode
			if q.c != nil {
				s += q.c.String()
			}
			if q.lo != nil {
				s += fmt.Sprint(*q.lo)
			}
			s += ","
		}
	}
	return s + fmt.Sprint(p.deep)
}

// wrote is called for every heap write; it records it for the loops being explored and checks it against the plans
// of the loops being executed.
func (v *Ver) wrote(st *State, m string, ref *Term) {
	b := v.b
	for _, f := range st.frames {
		for _, lc := range f.loops {
			if lc.dry != nil {
				lc.dry.writes[m] = append(lc.dry.writes[m], ref)
				continue
			}
			mp := lc.plan.maps[m]
			lo, _, ok := b.bounds(ref)
			fresh := ok && lc.p0.le(lo)
			if fresh && (mp != nil || lc.plan.deep) {
				continue
			}
			if mp == nil {
				if v.dry > 0 {
					continue
				}
				v.oblige(st, "loop", fmt.Sprintf("loop%d:unplanned write %s", lc.ord, m), b.F)
				continue
			}
			if mp.level == 2 {
				continue
			}
			lim := lc.p0
			if mp.level == 1 {
				lim = Pos{0, 0}
			}
			g := v.freshGoal(ref, lim)
			for _, t := range mp.targets {
				if b.eqRefs(t, ref) == 1 {
					g = b.T
				}
			}
			if g != b.T {
				for _, t := range mp.targets {
					g = b.Or(g, b.Eq(t, ref))
				}
				v.oblige(st, "loop", fmt.Sprintf("loop%d:frame %s", lc.ord, m), g)
			}
		}
	}
}

func (v *Ver) deepEvent(st *State) {
	for _, f := range st.frames {
		for _, lc := range f.loops {
			if lc.dry != nil {
				lc.dry.deep = true
			} else if !lc.plan.deep {
				if v.dry == 0 {
					v.oblige(st, "loop", fmt.Sprintf("loop%d:unplanned allocation", lc.ord), v.b.F)
				}
			}
		}
	}
}

// havocMap replaces a map by an unknown one that agrees with it outside what may have changed.
func (v *Ver) havocMap(st *State, m string, keep *Pos, except []*Term, content Pos) {
	b := v.b
	old := st.heap.m[m]
	n := b.NewSym(m, old.sort)
	if v.mapRefs[m] {
		v.setContent(n, content)
	}
	v.setRange(n, m)
	n.sym.base = old
	if keep != nil {
		n.sym.hasKeep, n.sym.keep = true, *keep
		n.sym.except = except
		v.keepFact(n, old, *keep, except)
	}
	st.heap.m[m] = n
	if m == "B" {
		// the length of a byte array never changes
		for _, t := range except {
			v.assume(st, b.Eq(b.Len(b.Select(n, t)), b.Len(b.Select(old, t))))
		}
		if keep == nil {
			x := b.BoundVar("r", SInt)
			l := b.raw("blen", SInt, b.mk(&Term{op: "select", args: []*Term{n, x}, sort: SBytes}))
			r := b.raw("blen", SInt, b.mk(&Term{op: "select", args: []*Term{old, x}, sort: SBytes}))
			n.sym.facts = append(n.sym.facts, b.Forall([]*Term{x}, b.mkEq(l, r), b.mk(&Term{op: "select", args: []*Term{n, x}, sort: SBytes})))
		}
	}
}

func (v *Ver) mapEvent(st *State, keep, content Pos) {
	v.nEvent++
	id := v.nEvent
	v.b.nsym++
	v.evSerial[id] = v.b.nsym
	// maps already in use get their symbol now, the others when first needed
	ev := Event{id, keep, content}
	for _, m := range sortedKeys(st.heap.m) {
		if m == "B" || !v.mapRefs[m] {
			continue
		}
		v.havocMap(st, m, &keep, nil, content)
	}
	st.heap.ev = append(st.heap.ev[:len(st.heap.ev):len(st.heap.ev)], ev)
	v.deepEvent(st)
}

func (v *Ver) applyPlan(st *State, lc *LoopCtx, plan *LoopPlan) {
	b := v.b
	lc.plan = plan
	lc.p0 = st.pos()
	lc.serial = b.nsym
	v.newEpoch(st)
	hdr := Pos{st.ep, 0}
	lc.it = b.NewSym("it", SInt)
	lc.it.sym.minv = b.zero.val
	v.assume(st, b.mk(&Term{op: "ge0", sort: SBool, args: []*Term{lc.it}}))
	if plan.deep {
		keep := lc.p0
		for _, m := range sortedKeys(st.heap.m) {
			if plan.maps[m] == nil && v.mapRefs[m] {
				v.havocMap(st, m, &keep, nil, hdr)
			}
		}
		v.nEvent++
		v.evSerial[v.nEvent] = b.nsym
		st.heap.ev = append(st.heap.ev[:len(st.heap.ev):len(st.heap.ev)], Event{v.nEvent, keep, hdr})
	}
	for _, m := range sortedKeys(plan.maps) {
		mp := plan.maps[m]
		if _, ok := st.heap.m[m]; !ok {
			v.getMap(st.heap, m, v.mapSort[m], v.mapRefs[m])
		}
		keep := lc.p0
		kp := &keep
		if mp.level == 1 {
			keep = Pos{0, 0}
		}
		if mp.level == 2 {
			kp = nil
		}
		v.havocMap(st, m, kp, mp.targets, hdr)
	}
	f := st.top()
	lc.cur = nil
	for i, p := range lc.phis {
		in := lc.init[i]
		r := &Value{typ: p.Type(), addr: in.addr, clo: in.clo}
		ls := v.w.layout(p.Type())
		r.l = make([]*Term, len(in.l))
		for j := range in.l {
			ph := plan.phis[i][j]
			switch ph.mode {
			case "unchanged":
				r.l[j] = in.l[j]
			case "affine":
				r.l[j] = b.Add(in.l[j], b.Mul(ph.c, lc.it))
			default:
				s := b.NewSym(p.Comment+"."+ls[j].name, ls[j].sort)
				if isRefKind(ls[j]) {
					s.sym.hasPos, s.sym.hi, s.sym.lo = true, hdr, posNegInf
					if ph.lo != nil {
						s.sym.lo = *ph.lo
					}
				}
				r.l[j] = s
			}
		}
		v.wf(st, ls, r.l)
		f.env[p] = r
		lc.cur = append(lc.cur, r)
	}
}

// loopEnv gives the names visible in a loop invariant.
func (v *Ver) loopEnv(st *State, lc *LoopCtx, it *Term, phis []*Value) *Env {
	f := v.ownerFrame(st, lc)
	e := v.specEnv(st)
	e.entry = lc.entry
	e.names = map[string]*SV{"it": logic(it)}
	if lc.scan != nil {
		e.names["scanned"] = &SV{lc.scan.m.typ, lc.scan.m.l}
	}
	for i, p := range lc.phis {
		if p.Comment != "" {
			e.names[p.Comment] = &SV{p.Type(), phis[i].l}
		}
	}
	// outer loop counters: it1, it2, ... by loop number
	for _, o := range f.loops {
		if o != lc {
			e.names[fmt.Sprintf("it%d", o.ord)] = logic(o.it)
		}
	}
	e.look = func(n string, h *Heap) *SV { return v.frameName(f, n, h) }
	e.olook = func(n string, h *Heap) *SV {
		if s, ok := v.entryEnv[n]; ok {
			return s
		}
		return v.frameName(f, n, h)
	}
	return e
}

func (v *Ver) frameName(f *Frame, n string, h *Heap) *SV {
	if c, ok := f.cells[n]; ok {
		t := elemOfPtr(c.typ)
		if c.addr == nil {
			ls := v.w.layout(t)
			if len(ls) == 0 || isOpaqueObj(v, t) {
				return &SV{c.typ, c.l}
			}
			return &SV{t, v.fixOff(ls, v.loadObj(h, t, c.l[0], 0, len(ls)))}
		}
	}
	if x, ok := f.names[n]; ok && x.l != nil {
		return &SV{x.typ, x.l}
	}
	for i, p := range f.fn.Params {
		if p.Name() == n {
			_ = i
			if x := f.env[p]; x != nil {
				return &SV{x.typ, x.l}
			}
		}
	}
	if len(v.params) > 0 && f.fn == v.fn {
		if s, ok := v.entryEnv[n]; ok {
			return s
		}
	}
	return nil
}

func isOpaqueObj(v *Ver, t interface{ String() string }) bool { return false }

func (v *Ver) ownerFrame(st *State, lc *LoopCtx) *Frame {
	for _, f := range st.frames {
		for _, l := range f.loops {
			if l == lc {
				return f
			}
		}
	}
	return st.top()
}

func (v *Ver) invariants(st *State, lc *LoopCtx, it *Term, phis []*Value, check bool) {
	e := v.loopEnv(st, lc, it, phis)
	for _, u := range lc.spec.uses {
		v.assume(st, e.useFact(u))
	}
	for i, inv := range lc.spec.invs {
		g := e.bool(inv)
		if check {
			w := "preserved"
			if it == v.b.zero {
				w = "established"
			}
			v.oblige(st, "invariant", fmt.Sprintf("%sinvariant %d %s: %s", lc.label, i+1, w, inv), g)
		} else {
			v.assume(st, g)
		}
	}
}

func (v *Ver) loopEnter(st *State, li *LoopInfo) bool {
	f := st.top()
	to := li.header
	k := -1
	for i, p := range to.Preds {
		if p == f.prev {
			k = i
		}
	}
	var phis []*ssa.Phi
	var init []*Value
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		x := *v.val(st, p.Edges[k])
		x.typ = p.Type()
		init = append(init, &x)
	}
	mk := func() *LoopCtx {
		return &LoopCtx{header: to, blocks: li.blocks, ord: li.ord, spec: v.loopSpec(f, li.ord), phis: phis, init: init,
			entry: st.heap.clone(), it: v.b.zero, label: fmt.Sprintf("%sloop %d ", v.inPrefix(f), li.ord)}
	}
	for i, p := range phis {
		f.env[p] = init[i]
	}
	lc0 := mk()
	v.invariants(st, lc0, v.b.zero, init, true)
	if st.dead {
		return false
	}
	start := func(st *State, lc *LoopCtx, plan *LoopPlan) {
		v.dirtySt = st
		v.applyPlan(st, lc, plan)
		st.top().loops = append(st.top().loops, lc)
		for i, p := range lc.phis {
			if p.Comment != "" {
				st.top().names[p.Comment] = lc.cur[i]
			}
		}
		v.invariants(st, lc, lc.it, lc.cur, false)
		st.top().idx = len(phis)
	}
	plan := v.inferPlan(st, mk, phis, init, func(d *State, lc *LoopCtx, plan *LoopPlan) bool {
		start(d, lc, plan)
		return true
	})
	lc := mk()
	start(st, lc, plan)
	return !st.dead
}

func (v *Ver) inPrefix(f *Frame) string {
	if f.fn == v.fn {
		return ""
	}
	return fnKey(f.fn) + " "
}

func (v *Ver) inferPlan(st *State, mk func() *LoopCtx, phis []*ssa.Phi, init []*Value, start func(*State, *LoopCtx, *LoopPlan) bool) *LoopPlan {
	b := v.b
	plan := &LoopPlan{maps: map[string]*mapPlan{}}
	for i := range phis {
		ps := make([]phiPlan, len(init[i].l))
		ls := v.w.layout(phis[i].Type())
		for j := range ps {
			ps[j].mode = "fresh"
			if isRefKind(ls[j]) {
				if lo, _, ok := b.bounds(init[i].l[j]); ok && (Pos{0, 0}).le(lo) {
					ps[j].lo = &Pos{0, 0}
				}
			}
		}
		plan.phis = append(plan.phis, ps)
	}
	for round := 0; round < 6; round++ {
		d := st.fork()
		rec := &dryRec{writes: map[string][]*Term{}}
		lc := mk()
		lc.dry = rec
		saved := v.work
		v.work = nil
		v.dry++
		if start(d, lc, plan) && !d.dead {
			v.runAll(d)
		}
		v.dry--
		v.work = saved
		// merge
		np := &LoopPlan{maps: map[string]*mapPlan{}, deep: plan.deep || rec.deep}
		for m, o := range plan.maps {
			np.maps[m] = &mapPlan{level: o.level, targets: append([]*Term(nil), o.targets...)}
		}
		for _, m := range sortedKeys(rec.writes) {
			mp := np.maps[m]
			if mp == nil {
				mp = &mapPlan{}
				np.maps[m] = mp
			}
			for _, r := range rec.writes[m] {
				lo, _, ok := b.bounds(r)
				if ok && lc.p0.le(lo) {
					continue
				}
				if b.serial(r) <= lc.serial {
					dup := false
					for _, t := range mp.targets {
						if t == r {
							dup = true
						}
					}
					if !dup {
						mp.targets = append(mp.targets, r)
					}
					continue
				}
				if mp.level < 1 {
					mp.level = 1
				}
				if ok && (Pos{0, 0}).le(lo) {
					continue
				}
				// unknown reference: assume fresh in the function (checked when executed)
			}
		}
		for i := range phis {
			ps := make([]phiPlan, len(init[i].l))
			copy(ps, plan.phis[i])
			ls := v.w.layout(phis[i].Type())
			for j := range ps {
				for _, back := range rec.phis {
					x := back[i].l[j]
					cur := lc.cur[i].l[j]
					switch ps[j].mode {
					case "unchanged":
						if x != init[i].l[j] {
							ps[j].mode = "fresh"
						}
					case "affine":
						if x != b.Add(cur, ps[j].c) {
							ps[j].mode = "fresh"
						}
					}
					if ps[j].lo != nil {
						if lo, _, ok := b.bounds(x); !ok || !(Pos{0, 0}).le(lo) {
							ps[j].lo = nil
						}
					}
				}
				if round == 0 && len(rec.phis) > 0 {
					cur := lc.cur[i].l[j]
					same, aff := true, ls[j].sort == SInt && !isRefKind(ls[j])
					var c *Term
					for _, back := range rec.phis {
						x := back[i].l[j]
						if x != cur && x != init[i].l[j] {
							same = false
						}
						if x.sort != SInt {
							aff = false
						}
						if aff {
							dd := b.Sub(x, cur)
							if dd.op != "int" || c != nil && c != dd {
								aff = false
							}
							c = dd
						}
					}
					if same {
						ps[j].mode = "unchanged"
					} else if aff {
						ps[j].mode, ps[j].c = "affine", c
					}
				}
			}
			np.phis = append(np.phis, ps)
		}
		if np.String() == plan.String() {
			return np
		}
		plan = np
	}
	return plan
}

func (v *Ver) loopBack(st *State, lc *LoopCtx) {
	b := v.b
	f := st.top()
	k := -1
	for i, p := range lc.header.Preds {
		if p == f.prev {
			k = i
		}
	}
	var back []*Value
	for _, p := range lc.phis {
		back = append(back, v.val(st, p.Edges[k]))
	}
	if lc.dry != nil {
		lc.dry.phis = append(lc.dry.phis, back)
		return
	}
	v.checkPhis(st, lc, back)
	for i, p := range lc.phis {
		x := *back[i]
		x.typ = p.Type()
		f.env[p] = &x
		back[i] = &x
	}
	v.invariants(st, lc, b.AddC(lc.it, 1), back, true)
}

func (v *Ver) checkPhis(st *State, lc *LoopCtx, back []*Value) {
	b := v.b
	for i, p := range lc.phis {
		ls := v.w.layout(p.Type())
		if len(back[i].l) != len(lc.init[i].l) {
			v.fail("loop variable %s changes shape", p.Comment)
		}
		for j := range back[i].l {
			ph := lc.plan.phis[i][j]
			n := fmt.Sprintf("%svariable %s.%s", lc.label, p.Comment, ls[j].name)
			switch ph.mode {
			case "unchanged":
				v.oblige(st, "loop", n, b.Eq(back[i].l[j], lc.init[i].l[j]))
			case "affine":
				v.oblige(st, "loop", n, b.Eq(back[i].l[j], b.Add(lc.cur[i].l[j], ph.c)))
			}
			if ph.lo != nil {
				v.oblige(st, "loop", n, v.freshGoal(back[i].l[j], *ph.lo))
			}
		}
	}
}

// guardFact: an iteration was started only if the loop condition held.
func (v *Ver) guardFact(st *State, x *ssa.If, c *Term) {
	b := v.b
	f := st.top()
	if len(f.loops) == 0 {
		return
	}
	lc := f.loops[len(f.loops)-1]
	if lc.header != x.Block() || lc.guard {
		return
	}
	if !lc.blocks[x.Block().Succs[0]] {
		c = b.Not(c)
	} else if lc.blocks[x.Block().Succs[1]] {
		return
	}
	prev := b.Subst(c, map[*Term]*Term{lc.it: b.AddC(lc.it, -1)})
	other := b.Subst(c, map[*Term]*Term{lc.it: b.zero})
	if b.serial(other) > lc.serial {
		return
	}
	v.assume(st, b.Or(b.Eq(lc.it, b.zero), prev))
}
