package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func toBig(x interface{}) *big.Int {
	switch n := x.(type) {
	case nil:
		return nil
	case *big.Int:
		return n
	case int:
		return big.NewInt(int64(n))
	}
	return nil
}

type intrinsic func(v *Ver, st *State, fn *ssa.Function, args []*Value, done func(*State, []*Value)) bool

// intrinsics are the operations of btree.Map: a finite map whose keys are visited in ascending order.
var intrinsics map[string]intrinsic

func init() {
	intrinsics = map[string]intrinsic{
		"(*btree.Map).Get":  mapGet,
		"(*btree.Map).Set":  mapSet,
		"(*btree.Map).Len":  mapLen,
		"(*btree.Map).Scan": mapScan,
	}
}

func isBtree(t types.Type) bool {
	return strings.HasPrefix(shortType(t), "btree.Map[")
}

// ordFns: number of keys, k-th key, position of a key, finiteness; by key sort.
func ordFns(ks Sort) (bn, bk, fin string) {
	if ks == SBytes {
		return "bnb", "bkb", "bfinb"
	}
	return "bni", "bki", "bfini"
}

func (v *Ver) domFin(st *State, t types.Type, ref *Term) *Term {
	dom := v.mapDom(st.heap, t, ref)
	k, _ := v.mapTypes(t)
	_, _, fin := ordFns(v.keySort(k))
	v.assume(st, v.b.App(fin, dom))
	return dom
}

func mapGet(v *Ver, st *State, fn *ssa.Function, args []*Value, done func(*State, []*Value)) bool {
	b := v.b
	m, key := args[0], args[1]
	v.nonNil(st, m.l[0], "btree.Map")
	if st.dead {
		return false
	}
	_, et := v.mapTypes(m.typ)
	dom := v.domFin(st, m.typ, m.l[0])
	raw := v.fixOff(v.w.layout(et), v.mapVal(st.heap, m.typ, m.l[0], key.l[0]))
	return v.forkOn(st, b.Select(dom, key.l[0]), func(st *State, h bool) {
		l := raw
		if !h {
			l = v.zeroLeaves(et)
		} else {
			v.wf(st, v.w.layout(et), l)
		}
		done(st, []*Value{{typ: et, l: l}, {typ: types.Typ[types.Bool], l: []*Term{b.Bool(h)}}})
	})
}

func mapSet(v *Ver, st *State, fn *ssa.Function, args []*Value, done func(*State, []*Value)) bool {
	m, key, val := args[0], args[1], args[2]
	return mapGet(v, st, fn, args[:2], func(st *State, r []*Value) {
		n, _ := v.domName(m.typ)
		v.checkWrite(st, n, m.l[0])
		v.mapStore(st, m.typ, m.l[0], key.l[0], val.l)
		done(st, r)
	})
}

func mapLen(v *Ver, st *State, fn *ssa.Function, args []*Value, done func(*State, []*Value)) bool {
	m := args[0]
	v.nonNil(st, m.l[0], "btree.Map")
	if st.dead {
		return false
	}
	k, _ := v.mapTypes(m.typ)
	bn, _, _ := ordFns(v.keySort(k))
	n := v.b.App(bn, v.domFin(st, m.typ, m.l[0]))
	v.assume(st, v.b.Le(v.b.zero, n))
	v.assume(st, v.b.Le(n, v.b.Int(1<<62)))
	done(st, []*Value{{typ: types.Typ[types.Int], l: []*Term{n}}})
	return !st.dead
}

// mapScan runs the callback once per key in ascending order until it returns false: a loop without loop variables.
func mapScan(v *Ver, st *State, fn *ssa.Function, args []*Value, done func(*State, []*Value)) bool {
	b := v.b
	m, cb := args[0], args[1]
	v.nonNil(st, m.l[0], "btree.Map")
	if st.dead {
		return false
	}
	if cb.clo == nil {
		v.fail("Scan with an unknown callback")
	}
	f := st.top()
	ord := scanOrd(f)
	kt, et := v.mapTypes(m.typ)
	dom0 := v.domFin(st, m.typ, m.l[0])
	bn, bk, _ := ordFns(v.keySort(kt))
	n := b.App(bn, dom0)
	v.assume(st, b.Le(b.zero, n))
	mk := func() *LoopCtx {
		return &LoopCtx{ord: 100 + ord, spec: v.loopSpec(f, 100+ord), entry: st.heap.clone(), it: b.zero,
			label: fmt.Sprintf("%sscan %d ", v.inPrefix(f), ord), scan: &scanCtx{m}}
	}
	lc0 := mk()
	v.invariants(st, lc0, b.zero, nil, true)
	if st.dead {
		return false
	}
	depth := len(st.frames)
	start := func(st *State, lc *LoopCtx, plan *LoopPlan) {
		v.dirtySt = st
		v.applyPlan(st, lc, plan)
		st.top().loops = append(st.top().loops, lc)
		v.invariants(st, lc, lc.it, nil, false)
		v.assume(st, b.Le(lc.it, n))
	}
	same := func(st *State) {
		if v.mapDom(st.heap, m.typ, m.l[0]) != dom0 {
			v.fail("the map may change while it is scanned")
		}
	}
	pop := func(st *State, lc *LoopCtx) {
		g := st.frames[depth-1]
		g.loops = g.loops[:len(g.loops)-1]
	}
	// body runs one iteration on st
	body := func(st *State, lc *LoopCtx) bool {
		same(st)
		key := b.App(bk, dom0, lc.it)
		v.assume(st, b.Lt(lc.it, n))
		v.assume(st, b.Select(dom0, key))
		if st.dead {
			return false
		}
		val := v.fixOff(v.w.layout(et), v.mapVal(st.heap, m.typ, m.l[0], key))
		v.wf(st, v.w.layout(et), val)
		kv := &Value{typ: kt, l: []*Term{key}}
		v.wf(st, v.w.layout(kt), kv.l)
		return v.callFn(st, cb.clo.fn, fnKey(cb.clo.fn), []*Value{kv, {typ: et, l: val}}, cb.clo.binds, func(st *State, r []*Value) {
			v.forkOn(st, r[0].l[0], func(st *State, more bool) {
				if more {
					if lc.dry != nil {
						lc.dry.phis = append(lc.dry.phis, nil)
					} else {
						same(st)
						v.invariants(st, lc, b.AddC(lc.it, 1), nil, true)
					}
					st.dead = true
					return
				}
				if lc.dry != nil {
					st.dead = true
					return
				}
				pop(st, lc)
				done(st, nil)
			})
		})
	}
	plan := v.inferPlan(st, mk, nil, nil, func(d *State, lc *LoopCtx, plan *LoopPlan) bool {
		start(d, lc, plan)
		if d.dead {
			return false
		}
		return body(d, lc)
	})
	lc := mk()
	start(st, lc, plan)
	if st.dead {
		return false
	}
	// the iteration in the middle
	o := st.fork()
	if body(o, lc) && !o.dead {
		v.pushBranch(o)
	}
	// the end
	v.dirtySt = st
	same(st)
	v.assume(st, b.Eq(lc.it, n))
	if st.dead {
		return false
	}
	pop(st, lc)
	done(st, nil)
	return !st.dead
}

// scanOrd numbers the Scan calls of a function in source order.
func scanOrd(f *Frame) int {
	cur := f.block.Instrs[f.idx-1]
	n := 1
	for _, bl := range f.fn.Blocks {
		for _, in := range bl.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || in == cur {
				continue
			}
			if s := c.Common().StaticCallee(); s != nil && fnKey(s) == "(*btree.Map).Scan" && c.Pos() < cur.Pos() {
				n++
			}
		}
	}
	return n
}

// sprintf evaluates fmt.Sprintf for a constant format of %s (strings) and %d (integers) only.
func (v *Ver) sprintf(st *State, c *ssa.CallCommon) *Term {
	b := v.b
	f, ok := c.Args[0].(*ssa.Const)
	if !ok || f.Value == nil {
		return nil
	}
	format := constant.StringVal(f.Value)
	var args []ssa.Value
	if sl, ok := c.Args[1].(*ssa.Slice); ok {
		al, ok := sl.X.(*ssa.Alloc)
		if !ok || sl.Low != nil || sl.High != nil {
			return nil
		}
		n := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		args = make([]ssa.Value, n)
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				if r != ssa.Instruction(sl) {
					return nil
				}
				continue
			}
			k, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil
			}
			for _, q := range *ia.Referrers() {
				s, ok := q.(*ssa.Store)
				if !ok || args[k.Int64()] != nil {
					return nil
				}
				mi, ok := s.Val.(*ssa.MakeInterface)
				if !ok {
					return nil
				}
				args[k.Int64()] = mi.X
			}
		}
	}
	out := b.Lit("")
	k := 0
	for len(format) > 0 {
		i := strings.IndexByte(format, '%')
		if i < 0 {
			out = b.Cat(out, b.Lit(format))
			break
		}
		if i+1 >= len(format) || k >= len(args) || args[k] == nil {
			return nil
		}
		out = b.Cat(out, b.Lit(format[:i]))
		x := v.val(st, args[k])
		k++
		ms := types.NewMethodSet(x.typ)
		if ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil || ms.Lookup(nil, "Format") != nil {
			return nil
		}
		bt, ok := x.typ.Underlying().(*types.Basic)
		if !ok {
			return nil
		}
		switch {
		case format[i+1] == 's' && bt.Info()&types.IsString != 0:
			out = b.Cat(out, x.l[0])
		case format[i+1] == 'd' && bt.Info()&types.IsInteger != 0:
			out = b.Cat(out, b.App("dec10", x.l[0]))
		default:
			return nil
		}
		format = format[i+2:]
	}
	if k != len(args) {
		return nil
	}
	v.assumed["intrinsic fmt.Sprintf"] = true
	return out
}
