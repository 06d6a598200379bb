package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// FnResult is the outcome of verifying one function against its contract.
type FnResult struct {
	Fn      string         `json:"function"`
	Status  string         `json:"status"` // proved failed error
	Err     string         `json:"error,omitempty"`
	Obls    int            `json:"obligations"`
	Paths   int            `json:"paths"`
	Backend map[string]int `json:"back_ends"`
	Solver  float64        `json:"solver_seconds"`
	Wall    float64        `json:"wall_seconds"`
	Failed  []FailedObl    `json:"failed,omitempty"`
	Used    []string       `json:"contracts_used,omitempty"`
	Inlined []string       `json:"inlined,omitempty"`
	Assumed []string       `json:"assumed,omitempty"`
	Lemmas  []string       `json:"lemmas,omitempty"`
	obls    []*Obl
}

type FailedObl struct {
	Name   string `json:"name"`
	Kind   string `json:"kind"`
	Pos    string `json:"position"`
	Trail  string `json:"path"`
	Output string `json:"verifier_output"`
	Query  string `json:"-"`
}

func (v *Ver) symRange(st *State, s *Term, lo, hi interface{}) {
	b := v.b
	if l := toBig(lo); l != nil {
		s.sym.minv = l
		v.assume(st, b.mk(&Term{op: "ge0", sort: SBool, args: []*Term{b.Sub(s, b.Big(l))}}))
	}
	if h := toBig(hi); h != nil {
		s.sym.maxv = h
		v.assume(st, b.mk(&Term{op: "ge0", sort: SBool, args: []*Term{b.Sub(b.Big(h), s)}}))
	}
}

// Verify runs the function symbolically from its contract.
func (v *Ver) Verify() (err string) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsup); ok {
				err = u.msg
				if v.dirtySt != nil && len(v.dirtySt.frames) > 0 {
					func() {
						defer func() { recover() }()
						err += " at " + v.posOf(v.dirtySt)
					}()
				}
				return
			}
			if os.Getenv("GOVER_DEBUG") != "" {
				panic(r)
			}
			buf := make([]byte, 4096)
			n := runtime.Stack(buf, false)
			err = fmt.Sprintf("internal error: %v\n%s", r, buf[:n])
		}
	}()
	b, fn, con := v.b, v.fn, v.con
	st := &State{heap: &Heap{m: map[string]*Term{}}, fset: map[*Term]bool{}, dirty: map[*Term]bool{}}
	v.entry = &Heap{m: map[string]*Term{}}
	v.assume(st, b.mk(&Term{op: "ge0", sort: SBool, args: []*Term{v.epochSym(0)}}))
	if len(con.unfold) > 0 {
		b.unfold = map[string]*Sx{}
		for _, n := range con.unfold {
			a := prelByName[n+"_def"]
			if a == nil || a.kind != "def" {
				v.fail("unfold %s: no definition", n)
			}
			b.unfold[n] = a.sx
		}
	}
	if len(con.params) != len(fn.Params) {
		v.fail("contract has %d parameters, function has %d", len(con.params), len(fn.Params))
	}
	v.entryEnv = map[string]*SV{}
	for i, p := range fn.Params {
		ls := v.w.layout(p.Type())
		l := make([]*Term, len(ls))
		for j, lf := range ls {
			s := b.NamedSym(con.params[i]+"."+lf.name, lf.sort)
			if isRefKind(lf) {
				s.sym.hasPos, s.sym.lo, s.sym.hi = true, posNegInf, Pos{0, 0}
			}
			l[j] = s
		}
		if len(l) == 1 && ls[0].sort == SInt {
			// a precondition that fixes the parameter
			for _, r := range con.requires {
				if r.op == "bin" && r.name == "==" && r.args[0].op == "id" && r.args[0].name == con.params[i] && r.args[1].op == "num" {
					l[0] = b.Big(r.args[1].num)
				}
			}
		}
		l = v.fixOff(ls, l)
		v.wf(st, ls, l)
		if len(l) > 0 && !con.nullable[con.params[i]] {
			switch p.Type().Underlying().(type) {
			case *types.Pointer, *types.Map:
				v.assume(st, b.Not(b.Eq(l[0], b.zero)))
			case *types.Interface:
				v.assume(st, b.Not(b.Eq(l[0], b.zero)))
			}
		}
		if it, ok := p.Type().Underlying().(*types.Interface); ok && len(l) == 2 {
			v.assume(st, b.Le(b.zero, l[0]))
			if it.NumMethods() > 0 {
				var cs []*Term
				if con.nullable[con.params[i]] {
					cs = append(cs, b.Eq(l[0], b.zero))
				}
				for _, im := range v.w.implementers(p.Type()) {
					cs = append(cs, b.Eq(l[0], b.Int(int64(v.w.tag(im)))))
				}
				v.assume(st, b.Or(cs...))
			}
			v.assume(st, b.Eq(b.Eq(l[0], b.zero), b.Eq(l[1], b.zero)))
		}
		for _, rf := range repField {
			if shortType(p.Type()) == rf.typ && v.repMode() {
				// the representation of a receiver passed by value
				v.assume(st, b.Not(b.Eq(l[0], b.zero)))
				v.dirtySt = st
				if rf.rep == "FV" {
					m := int64(1)
					if rf.typ == "curve.Secp256k1Field" {
						m = 2
					}
					v.assume(st, b.Eq(b.Select(v.getMap(v.entry, "FM", v.sp.ghosts["FM"], false), l[0]), b.Int(m)))
					x := b.Select(v.getMap(v.entry, "FV", v.sp.ghosts["FV"], false), l[0])
					q := bigQ
					if m == 2 {
						q = bigP
					}
					v.assume(st, b.Lt(x, b.Big(q)))
				}
			}
		}
		val := &Value{typ: p.Type(), l: l}
		v.params = append(v.params, val)
		v.entryEnv[con.params[i]] = &SV{p.Type(), l}
		if v.entryEnv[p.Name()] == nil {
			v.entryEnv[p.Name()] = &SV{p.Type(), l}
		}
	}
	e := v.specEnv(st)
	v.dirtySt = st
	eg := &Env{v: v, heap: st.heap, old: v.entry, entry: v.entry, names: map[string]*SV{}, base: Pos{0, 0}, look: func(string, *Heap) *SV { return nil }}
	for _, g := range v.sp.globals {
		if v.globalRelevant(g) {
			t := eg.bool(g)
			v.assume(st, t)
			v.constants(t)
		}
	}
	for _, r := range con.requires {
		v.assume(st, e.bool(r))
	}
	for _, r := range con.hreq {
		v.assume(st, e.bool(r))
	}
	if con.panics != nil {
		v.assume(st, b.Not(e.bool(con.panics)))
	}
	for _, m := range con.modifies {
		v.mods = append(v.mods, v.modLocs(e, m)...)
	}
	for _, u := range con.uses {
		if !mentionsAny(u, con.results) {
			v.assume(st, e.useFact(u))
		}
	}
	if infeasible(b, st.facts) {
		return "the precondition is contradictory"
	}
	v.enter(st, fn, v.params, nil, func(st *State, res []*Value) { v.atReturn(st, res) })
	st.top().con = con
	v.runAll(st)
	if v.retCount == 0 && con.panics == nil {
		return "no path returns"
	}
	return ""
}

func mentionsAny(x *Expr, names []string) bool {
	if x.op == "id" {
		for _, n := range names {
			if n == x.name {
				return true
			}
		}
	}
	for _, a := range x.args {
		if mentionsAny(a, names) {
			return true
		}
	}
	return false
}

// globalRelevant: facts about package variables are assumed in every function.
// globalRelevant: facts about the variables of another package are left out (its functions are known by contract).
func (v *Ver) globalRelevant(g *Expr) bool {
	ok := true
	var walk func(x *Expr)
	walk = func(x *Expr) {
		if x.op == "sel" && x.args[0].op == "id" && v.fn.Pkg != nil && x.args[0].name != v.fn.Pkg.Pkg.Name() && v.w.pkgs[x.args[0].name] != nil {
			ok = false
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(g)
	return ok
}

// constants: package variables with a known value read as that value.
func (v *Ver) constants(t *Term) {
	b := v.b
	switch t.op {
	case "and":
		for _, a := range t.args {
			v.constants(a)
		}
	case "eq0":
		d := t.args[0]
		var x *Term
		c := new(big.Int)
		if d.op == "select" {
			x = d
		} else if d.op == "poly" {
			for i, a := range d.args {
				if a == b.one {
					c = d.coefs[i]
				} else if a.op == "select" && x == nil && d.coefs[i].IsInt64() && d.coefs[i].Int64()*d.coefs[i].Int64() == 1 {
					x = a
				} else {
					return
				}
			}
			if x == nil {
				return
			}
			for i, a := range d.args {
				if a == x && d.coefs[i].Sign() > 0 {
					c = new(big.Int).Neg(c)
				}
			}
		}
		if x != nil {
			if b.known == nil {
				b.known = map[*Term]*Term{}
			}
			b.known[x] = b.Big(c)
		}
	}
}

func (v *Ver) atReturn(st *State, res []*Value) {
	b, con := v.b, v.con
	if v.dry > 0 {
		st.dead = true
		return
	}
	v.retCount++
	e := v.specEnv(st)
	e.names = map[string]*SV{}
	if len(con.results) != len(res) {
		v.fail("contract names %d results, function returns %d", len(con.results), len(res))
	}
	errOk := b.T
	for i, r := range con.results {
		e.names[r] = &SV{res[i].typ, res[i].l}
		if isErrorType(res[i].typ) {
			errOk = b.Eq(res[i].l[0], b.zero)
		}
	}
	// st has no frame any more; give obligations a position
	for _, u := range con.uses {
		if mentionsAny(u, con.results) {
			v.assume(st, e.useFact(u))
		}
	}
	for _, sx := range con.sets {
		l := sx[0]
		if l.op != "call" || len(l.args) != 1 || v.sp.ghosts[l.name] == "" {
			v.fail("bad ghost assignment %s", l)
		}
		ref := e.refOf(e.eval(l.args[0]))
		g := v.freshGoal(ref, Pos{0, 0})
		for _, m := range v.mods {
			if m.m == l.name && m.ref != nil {
				g = b.Or(g, b.Eq(m.ref, ref))
			}
		}
		v.oblige2(st, "frame", "ghost "+l.String(), g)
		val := e.term(sx[1])
		v.getMap(st.heap, l.name, v.sp.ghosts[l.name], false)
		st.heap.m[l.name] = b.Store(st.heap.m[l.name], ref, val)
	}
	for i, a := range con.asserts {
		v.oblige2(st, "assert", fmt.Sprintf("assert %d: %s", i+1, a), e.bool(a))
	}
	var refs []*Term
	for _, fx := range con.fresh {
		x := fx
		var as types.Type
		if x.op == "as" {
			as = v.w.lookupType(x.name)
			x = x.args[0]
		}
		s := e.eval(x)
		r := e.refOf(s)
		v.oblige2(st, "fresh", fmt.Sprintf("fresh %s", fx), b.Implies(errOk, v.freshGoal(r, Pos{0, 0})))
		if as != nil && len(s.l) == 2 {
			v.oblige2(st, "fresh", fmt.Sprintf("dynamic type %s", fx), b.Implies(errOk, b.Eq(s.l[0], b.Int(int64(v.w.tag(as))))))
		}
		for _, o := range refs {
			v.oblige2(st, "fresh", fmt.Sprintf("distinct %s", fx), b.Implies(errOk, b.Not(b.Eq(o, r))))
		}
		refs = append(refs, r)
	}
	for i, r := range con.results {
		ls := v.w.layout(res[i].typ)
		for j, lf := range ls {
			if lf.kind == "off" && res[i].l[j] != b.zero {
				v.oblige2(st, "shape", "result "+r+" starts at offset zero", b.Implies(errOk, b.Eq(res[i].l[j], b.zero)))
			}
		}
	}
	for i, x := range con.ensures {
		v.obligeConj(st, "postcondition", fmt.Sprintf("ensures %d: %s", i+1, x), e, x)
	}
	for i, x := range con.hens {
		v.obligeConj(st, "postcondition", fmt.Sprintf("hidden invariant %d: %s", i+1, x), e, x)
	}
	st.dead = true
}

// obligeConj splits a conjunction into separate obligations.
func (v *Ver) obligeConj(st *State, kind, name string, e *Env, x *Expr) {
	if x.op == "bin" && x.name == "==>" {
		h := e.bool(x.args[0])
		if h == v.b.F || st.fset[v.b.Not(h)] {
			v.oblige2(st, kind, name, v.b.T)
			return
		}
	}
	g := e.bool(x)
	if g.op == "and" {
		for _, a := range g.args {
			v.oblige2(st, kind, name, a)
		}
		return
	}
	v.oblige2(st, kind, name, g)
}

func (v *Ver) oblige2(st *State, kind, name string, goal *Term) {
	o := &Obl{name: v.key + "/" + name, kind: kind, pos: v.fnPos(), facts: st.facts, goal: goal, trail: strings.Join(st.trail, " ")}
	if goal == v.b.T || st.fset[goal] {
		o.res = &Result{ok: true, backend: "normaliser"}
	}
	v.obls = append(v.obls, o)
	v.assume(st, goal)
	st.dead = false
}

func (v *Ver) fnPos() string {
	p := v.w.prog.Fset.Position(v.fn.Pos())
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, "/repo/"), p.Line)
}

func verifyOne(w *World, sp *Specs, key string, con *Contract) *FnResult {
	t0 := time.Now()
	r := &FnResult{Fn: key, Backend: map[string]int{}}
	fn := w.fns[key]
	if fn == nil {
		r.Status, r.Err = "error", "no such function in the repository"
		return r
	}
	v := NewVer(w, sp, fn, con, key)
	msg := v.Verify()
	r.Paths = v.paths
	r.Obls = len(v.obls)
	r.Used, r.Inlined, r.Assumed = sortedKeys(v.used), sortedKeys(v.inlined), sortedKeys(v.assumed)
	var wg sync.WaitGroup
	var mu sync.Mutex
	nfail := 0
	sem := make(chan struct{}, 4)
	for _, o := range v.obls {
		if o.res != nil {
			r.Backend[o.res.backend]++
			continue
		}
		wg.Add(1)
		go func(o *Obl) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			mu.Lock()
			n := nfail
			mu.Unlock()
			max := 6
			if n >= 2 {
				max = 1
			}
			if n >= 6 {
				max = 0
			}
			o.res = discharge(v.b, o.facts, o.goal, max)
			mu.Lock()
			if !o.res.ok {
				nfail++
			}
			mu.Unlock()
		}(o)
	}
	wg.Wait()
	for _, o := range v.obls {
		if o.res.ok {
			if o.res.dur > 0 || o.res.backend != "normaliser" {
				r.Backend[o.res.backend]++
			}
			r.Solver += o.res.dur.Seconds()
			continue
		}
		r.Solver += o.res.dur.Seconds()
		r.Failed = append(r.Failed, FailedObl{o.name, o.kind, o.pos, o.trail, o.res.output, o.res.query})
	}
	r.obls = v.obls
	r.Status = "proved"
	if len(r.Failed) > 0 {
		r.Status = "failed"
	}
	if msg != "" {
		r.Status, r.Err = "error", msg
	}
	r.Wall = time.Since(t0).Seconds()
	return r
}

func (w *World) collectFns() {
	all := ssautil.AllFunctions(w.prog)
	for _, p := range w.prog.AllPackages() {
		if !w.repo[p.Pkg] {
			continue
		}
		for _, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			n, ok := t.Type().(*types.Named)
			if !ok || n.TypeParams().Len() > 0 {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				if f := w.prog.FuncValue(n.Method(i)); f != nil {
					all[f] = true
					for _, a := range f.AnonFuncs {
						all[a] = true
					}
				}
			}
		}
	}
	for fn := range all {
		if fn.Synthetic != "" && fn.Origin() == nil {
			continue
		}
		f := fn
		for f.Parent() != nil {
			f = f.Parent()
		}
		if f.Pkg == nil || !w.repo[f.Pkg.Pkg] {
			continue
		}
		k := fnKey(fn)
		if o := w.fns[k]; o == nil || len(fn.Blocks) > 0 && len(o.Blocks) == 0 {
			w.fns[k] = fn
		}
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	specs := flag.String("specs", "/verif/specs", "")
	prop := flag.String("prop", "", "")
	fnk := flag.String("fn", "", "comma-separated function keys")
	out := flag.String("out", "", "result file")
	verbose := flag.Bool("v", false, "")
	dump := flag.String("dump", "", "write failed queries to this directory")
	externs := flag.Bool("externs", false, "list external callees")
	thorough := flag.Bool("thorough", false, "longer solver limits")
	lemmas := flag.Bool("lemmas", false, "prove only the lemmas of the prelude")
	ssaDump := flag.String("ssa", "", "print the SSA of a function")
	flag.Parse()
	w, err := LoadWorld(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	w.collectFns()
	if *ssaDump != "" {
		w.fns[*ssaDump].WriteTo(os.Stdout)
		return
	}
	sp, err := loadSpecs(*specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "specs:", err)
		os.Exit(3)
	}
	thoroughTier = *thorough
	if *lemmas {
		printResult(verifyLemmas())
		return
	}
	if *externs {
		listExterns(w, sp)
		return
	}
	work := []string{}
	seen := map[string]bool{}
	add := func(k string) {
		if !seen[k] {
			seen[k] = true
			work = append(work, k)
		}
	}
	for _, k := range sortedKeys(sp.contracts) {
		c := sp.contracts[k]
		if c.extern || c.inline {
			continue
		}
		ok := *prop == "" && *fnk == ""
		for _, p := range c.props {
			if p == *prop {
				ok = true
			}
		}
		for _, f := range strings.Split(*fnk, ",") {
			if f == k || f != "" && strings.Contains(k, f) && strings.HasPrefix(f, "~") == false && *fnk != "" && f == k {
				ok = true
			}
			if strings.HasPrefix(f, "~") && strings.Contains(k, f[1:]) {
				ok = true
			}
		}
		if ok {
			add(k)
		}
	}
	follow := *fnk == ""
	results := map[string]*FnResult{}
	var mu sync.Mutex
	for len(work) > 0 {
		batch := work
		work = nil
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		for _, k := range batch {
			wg.Add(1)
			go func(k string) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				r := verifyOne(w, sp, k, sp.contracts[k])
				mu.Lock()
				results[k] = r
				mu.Unlock()
				if *verbose {
					mu.Lock()
					printResult(r)
					mu.Unlock()
				}
			}(k)
		}
		wg.Wait()
		if follow {
			for _, k := range batch {
				for _, u := range results[k].Used {
					if c := sp.contracts[u]; c != nil && !c.extern && !c.inline {
						add(u)
					}
				}
			}
		}
	}
	bad := 0
	var list []*FnResult
	if *fnk == "" {
		results["(lemmas)"] = verifyLemmas()
	}
	for _, k := range sortedKeys(results) {
		r := results[k]
		list = append(list, r)
		if r.Status != "proved" {
			bad++
			if !*verbose {
				printResult(r)
			}
			if *dump != "" {
				for i, f := range r.Failed {
					os.WriteFile(fmt.Sprintf("%s/%s.%d.smt2", *dump, strings.NewReplacer("/", "_", "*", "", "(", "", ")", "").Replace(k), i), []byte("; "+f.Name+"\n"+f.Query), 0o644)
				}
			}
		}
	}
	frozen := w.checkFrozen(sp)
	for _, f := range frozen {
		fmt.Println("GLOBAL", f)
	}
	if *out != "" {
		ext := map[string]string{}
		for k := range results {
			for _, u := range results[k].Used {
				if c := sp.contracts[u]; c != nil && c.extern {
					ext[u] = c.why
				}
			}
		}
		j, _ := json.MarshalIndent(map[string]interface{}{"functions": list, "trusted_contracts": ext, "mutable_globals": frozen}, "", " ")
		os.WriteFile(*out, j, 0o644)
	}
	no := 0
	for _, r := range list {
		no += r.Obls
	}
	fmt.Printf("%d functions, %d obligations, %d functions not proved\n", len(list), no, bad)
	if bad > 0 || len(frozen) > 0 {
		os.Exit(1)
	}
}

func printResult(r *FnResult) {
	fmt.Printf("%-8s %s  obligations=%d paths=%d solver=%.1fs wall=%.1fs %v\n", r.Status, r.Fn, r.Obls, r.Paths, r.Solver, r.Wall, r.Backend)
	if r.Err != "" {
		fmt.Println("   error:", r.Err)
	}
	for i, f := range r.Failed {
		if i >= 8 {
			fmt.Printf("   ... %d more\n", len(r.Failed)-i)
			break
		}
		fmt.Printf("   FAILED [%s] %s at %s  path: %s\n      %s\n", f.Kind, f.Name, f.Pos, f.Trail, strings.ReplaceAll(strings.TrimSpace(f.Output), "\n", "\n      "))
	}
}

// checkFrozen: package variables are assigned only by initialisers.
func (w *World) checkFrozen(sp *Specs) []string {
	var bad []string
	for _, fn := range w.fns {
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		if strings.HasPrefix(root.Name(), "init") && root.Signature.Recv() == nil {
			continue
		}
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					a := s.Addr
					for {
						if f, ok := a.(*ssa.FieldAddr); ok {
							a = f.X
							continue
						}
						break
					}
					if g, ok := a.(*ssa.Global); ok {
						bad = append(bad, fmt.Sprintf("%s assigns %s", fnKey(fn), g.Name()))
					}
				}
			}
		}
	}
	sort.Strings(bad)
	return bad
}

func listExterns(w *World, sp *Specs) {
	m := map[string]map[string]bool{}
	for k, fn := range w.fns {
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				key := ""
				if cc.IsInvoke() {
					if w.opaqueIface(cc.Value.Type()) || len(w.implementers(cc.Value.Type())) == 0 {
						key = methodKey(cc.Value.Type(), cc.Method.Name())
					}
				} else if f := cc.StaticCallee(); f != nil {
					p := f
					for p.Parent() != nil {
						p = p.Parent()
					}
					if p.Pkg != nil && w.repo[p.Pkg.Pkg] {
						continue
					}
					if p.Object() != nil && p.Object().Pkg() != nil && w.repo[p.Object().Pkg()] {
						continue
					}
					key = fnKey(f)
				}
				if key == "" {
					continue
				}
				if m[key] == nil {
					m[key] = map[string]bool{}
				}
				m[key][k] = true
			}
		}
	}
	for _, k := range sortedKeys(m) {
		have := " "
		if sp.contracts[k] != nil {
			have = "c"
		} else if _, ok := intrinsics[k]; ok {
			have = "i"
		}
		fmt.Printf("%s %-50s %s\n", have, k, strings.Join(sortedKeys(m[k]), " "))
	}
}
