package main

import (
	"bytes"
	"context"
	"fmt"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- s-expressions of the prelude ----

type Sx struct {
	atom string
	list []*Sx
}

func (s *Sx) isList() bool { return s.atom == "" }
func (s *Sx) String() string {
	if s.atom != "" {
		return s.atom
	}
	var sb strings.Builder
	sb.WriteByte('(')
	for i, x := range s.list {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(x.String())
	}
	sb.WriteByte(')')
	return sb.String()
}

func parseSx(src string) ([]*Sx, error) {
	var out []*Sx
	var stack [][]*Sx
	i := 0
	emit := func(x *Sx) {
		if len(stack) == 0 {
			out = append(out, x)
		} else {
			stack[len(stack)-1] = append(stack[len(stack)-1], x)
		}
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == ';':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '(':
			stack = append(stack, []*Sx{})
			i++
		case c == ')':
			if len(stack) == 0 {
				return nil, fmt.Errorf("unbalanced )")
			}
			l := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			emit(&Sx{list: l})
			i++
		default:
			j := i
			for j < len(src) && !strings.ContainsRune(" \n\t\r();", rune(src[j])) {
				j++
			}
			emit(&Sx{atom: src[i:j]})
			i = j
		}
	}
	if len(stack) > 0 {
		return nil, fmt.Errorf("unbalanced (")
	}
	return out, nil
}

type PAxiom struct {
	name, kind string // kind: def, axiom (trusted fact), lemma (proved separately)
	text       string
	pats       []map[string]bool // alternative sets of trigger functions
	syms       map[string]bool
	induct     string
	sx         *Sx
}

type Prelude struct {
	decls  map[string]string // function -> declaration
	order  []string
	axioms []*PAxiom
	source []string
}

var prel = &Prelude{decls: map[string]string{}}

func sxSyms(s *Sx, out map[string]bool) {
	if s.atom != "" {
		out[s.atom] = true
		return
	}
	for _, x := range s.list {
		sxSyms(x, out)
	}
}

func sxPats(s *Sx, out *[]*Sx) {
	if s.atom != "" {
		return
	}
	for i, x := range s.list {
		if x.atom == ":pattern" && i+1 < len(s.list) {
			*out = append(*out, s.list[i+1])
		}
		sxPats(x, out)
	}
}

func loadPrelude(src, file string) error {
	xs, err := parseSx(src)
	if err != nil {
		return fmt.Errorf("%s: %v", file, err)
	}
	for _, x := range xs {
		if !x.isList() || len(x.list) < 2 {
			return fmt.Errorf("%s: bad item %s", file, x)
		}
		switch x.list[0].atom {
		case "fun": // (fun name (sorts) sort [len N | lenarg I])
			sig := &FunSig{name: x.list[1].atom, res: Sort(x.list[3].String())}
			for _, a := range x.list[2].list {
				sig.args = append(sig.args, Sort(a.String()))
			}
			funSigs[sig.name] = sig
			prel.decls[sig.name] = fmt.Sprintf("(declare-fun %s %s %s)", sig.name, x.list[2], x.list[3])
			if x.list[2].String() == "()" && len(x.list[2].list) == 0 {
				prel.decls[sig.name] = fmt.Sprintf("(declare-fun %s () %s)", sig.name, x.list[3])
			}
			for i := 4; i+1 < len(x.list); i += 2 {
				n, _ := strconv.Atoi(x.list[i+1].atom)
				switch x.list[i].atom {
				case "len":
					fixedLen[sig.name] = int64(n)
				case "lenarg":
					lenArg[sig.name] = n
				}
			}
		case "def", "axiom", "lemma":
			a := &PAxiom{kind: x.list[0].atom, name: x.list[1].atom, text: x.list[2].String(), sx: x.list[2]}
			var ps []*Sx
			sxPats(x.list[2], &ps)
			for _, p := range ps {
				m := map[string]bool{}
				sxSyms(p, m)
				a.pats = append(a.pats, m)
			}
			a.syms = map[string]bool{}
			sxSyms(x.list[2], a.syms)
			if len(x.list) > 3 {
				a.induct = x.list[3].String()
			}
			prel.axioms = append(prel.axioms, a)
			prelByName[a.name] = a
		default:
			return fmt.Errorf("%s: unknown item %s", file, x.list[0].atom)
		}
	}
	return nil
}

// ---- printing ----

type printer struct {
	b       *Bank
	realMul bool
	refs    map[*Term]int
	names   map[*Term]string
	body    strings.Builder
	syms    map[*Term]bool
	symList []*Term
	ops     map[string]bool
	redT    []*Term // ground residue terms
	lits    []*Term
	n       int
	done    map[*Term]bool
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	switch t.op {
	case "sym":
		if !t.bound {
			p.syms[t] = true
			p.symList = append(p.symList, t)
		}
	case "blit":
		p.lits = append(p.lits, t)
		p.ops["blen"] = true
	case "mono":
		p.ops["umul"] = true
	case "redq", "redp":
		p.ops[t.op] = true
		if !t.bound {
			p.redT = append(p.redT, t)
		}
	default:
		p.ops[t.op] = true
	}
	if t.op == "forall" {
		p.count(t.args[0])
		n, _ := strconv.Atoi(t.str)
		for _, x := range t.args[1+n:] {
			p.count(x)
		}
		return
	}
	for _, a := range t.args {
		p.count(a)
	}
}

func smtName(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_!?.$", c)) {
			return "|" + strings.ReplaceAll(s, "|", "_") + "|"
		}
	}
	return s
}

func smtInt(v string) string {
	if strings.HasPrefix(v, "-") {
		return "(- " + v[1:] + ")"
	}
	return v
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	s := p.render(t)
	if !t.bound && p.refs[t] > 1 && len(t.args) > 0 {
		p.n++
		n := fmt.Sprintf("t!%d", p.n)
		fmt.Fprintf(&p.body, "(define-fun %s () %s %s)\n", n, t.sort, s)
		p.names[t] = n
		return n
	}
	return s
}

func (p *printer) app(op string, args ...string) string {
	return "(" + op + " " + strings.Join(args, " ") + ")"
}

func (p *printer) sum(coefs []string, args []string) string {
	if len(args) == 0 {
		return "0"
	}
	var xs []string
	for i := range args {
		switch {
		case args[i] == "":
			xs = append(xs, smtInt(coefs[i]))
		case coefs[i] == "1":
			xs = append(xs, args[i])
		default:
			xs = append(xs, "(* "+smtInt(coefs[i])+" "+args[i]+")")
		}
	}
	if len(xs) == 1 {
		return xs[0]
	}
	return "(+ " + strings.Join(xs, " ") + ")"
}

// twoSides prints d rel 0 as lhs rel rhs with positive coefficients.
func (p *printer) twoSides(d *Term) (string, string) {
	pl := p.b.toPoly(d)
	ids := []int{}
	for id := range pl.m {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var lc, la, rc, ra []string
	for _, id := range ids {
		c, t := pl.m[id], pl.t[id]
		s := ""
		if t != p.b.one {
			s = p.str(t)
		}
		if c.Sign() > 0 {
			lc = append(lc, c.String())
			la = append(la, s)
		} else if c.Sign() < 0 {
			rc = append(rc, c.String()[1:])
			ra = append(ra, s)
		}
	}
	return p.sum(lc, la), p.sum(rc, ra)
}

func (p *printer) render(t *Term) string {
	switch t.op {
	case "int":
		return smtInt(t.val.String())
	case "true", "false":
		return t.op
	case "sym":
		return smtName(t.sym.name)
	case "blit":
		return p.litName(t)
	case "poly":
		var cs, as []string
		for i, a := range t.args {
			cs = append(cs, t.coefs[i].String())
			if a == p.b.one {
				as = append(as, "")
			} else {
				as = append(as, p.str(a))
			}
		}
		return p.sum(cs, as)
	case "mono":
		s := p.str(t.args[0])
		for _, a := range t.args[1:] {
			if p.realMul {
				s = "(* " + s + " " + p.str(a) + ")"
			} else {
				s = "(umul " + s + " " + p.str(a) + ")"
			}
		}
		return s
	case "ge0":
		l, r := p.twoSides(t.args[0])
		return "(>= " + l + " " + r + ")"
	case "eq0":
		l, r := p.twoSides(t.args[0])
		return "(= " + l + " " + r + ")"
	case "constarr":
		return fmt.Sprintf("((as const %s) %s)", t.sort, p.str(t.args[0]))
	case "bcat":
		s := p.str(t.args[len(t.args)-1])
		for i := len(t.args) - 2; i >= 0; i-- {
			s = "(bcat " + p.str(t.args[i]) + " " + s + ")"
		}
		return s
	case "forall":
		n, _ := strconv.Atoi(t.str)
		var vs []string
		for _, v := range t.args[1 : 1+n] {
			vs = append(vs, fmt.Sprintf("(%s %s)", smtName(v.sym.name), v.sort))
		}
		body := p.str(t.args[0])
		if len(t.args) > 1+n {
			var ps []string
			for _, x := range t.args[1+n:] {
				if x.op == "multipat" {
					var ms []string
					for _, y := range x.args {
						ms = append(ms, p.str(y))
					}
					ps = append(ps, ":pattern ("+strings.Join(ms, " ")+")")
				} else {
					ps = append(ps, ":pattern ("+p.str(x)+")")
				}
			}
			body = "(! " + body + " " + strings.Join(ps, " ") + ")"
		}
		return "(forall (" + strings.Join(vs, " ") + ") " + body + ")"
	}
	if len(t.args) == 0 {
		return t.op
	}
	as := make([]string, len(t.args))
	for i, a := range t.args {
		as[i] = p.str(a)
	}
	return p.app(t.op, as...)
}

func (p *printer) litName(t *Term) string { return fmt.Sprintf("lit!%d", t.id) }

const basePrelude = `(declare-sort Bytes 0)
`

// extFacts: two byte strings that differ differ in length or at some position (one instance per equality of the goal).
func (b *Bank) extFacts(goal *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.op == "forall" {
			return
		}
		seen[t] = true
		if t.op == "=" && !t.bound && t.args[0].sort == SBytes {
			x, y := t.args[0], t.args[1]
			k := b.NewSym("ext", SInt)
			lx, ly := b.raw("blen", SInt, x), b.raw("blen", SInt, y)
			out = append(out, b.Or(t, b.Not(b.Eq(lx, ly)), b.And(b.Le(b.zero, k), b.Lt(k, lx),
				b.Not(b.Eq(b.raw("bat", SInt, x, k), b.raw("bat", SInt, y, k))))))
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(goal)
	return out
}

// skolem replaces a universally quantified goal by its body at fresh constants.
func (b *Bank) skolem(goal *Term) *Term {
	switch goal.op {
	case "and":
		var xs []*Term
		for _, a := range goal.args {
			xs = append(xs, b.skolem(a))
		}
		return b.And(xs...)
	case "forall":
		n, _ := strconv.Atoi(goal.str)
		m := map[*Term]*Term{}
		for _, v := range goal.args[1 : 1+n] {
			m[v] = b.NewSym("sk", v.sort)
		}
		return b.skolem(b.Subst(goal.args[0], m))
	case "or":
		var xs []*Term
		for _, a := range goal.args {
			if a.op == "forall" {
				a = b.skolem(a)
			}
			xs = append(xs, a)
		}
		return b.Or(xs...)
	}
	return goal
}

// query renders "facts and not goal".
func (b *Bank) query(facts []*Term, goal *Term, realMul, ext bool) string {
	p := &printer{b: b, realMul: realMul, refs: map[*Term]int{}, names: map[*Term]string{}, syms: map[*Term]bool{}, ops: map[string]bool{}}
	all := append([]*Term(nil), facts...)
	if goal != nil {
		if ext {
			goal = b.skolem(goal)
		}
		all = append(all, b.Not(goal))
		if ext {
			all = append(all, b.extFacts(goal)...)
		}
	}
	seen := map[*Term]bool{}
	var list []*Term
	for _, f := range all {
		if !seen[f] {
			seen[f] = true
			list = append(list, f)
			p.count(f)
		}
	}
	// facts attached to symbols
	for i := 0; i < len(p.symList); i++ {
		for _, f := range p.symList[i].sym.facts {
			if !seen[f] {
				seen[f] = true
				list = append(list, f)
				p.count(f)
			}
		}
	}
	// definitions of parametric lambda terms
	lamDone := map[string]bool{}
	for ch := true; ch; {
		ch = false
		for o := range p.ops {
			if d := b.lams[o]; d != nil && !lamDone[o] {
				lamDone[o] = true
				ch = true
				if !seen[d.fact] {
					seen[d.fact] = true
					list = append(list, d.fact)
					p.count(d.fact)
				}
			}
		}
		for i := 0; i < len(p.symList); i++ {
			for _, f := range p.symList[i].sym.facts {
				if !seen[f] {
					seen[f] = true
					list = append(list, f)
					p.count(f)
					ch = true
				}
			}
		}
	}
	// ground facts about residues: t = red t + m * quo t
	for i := 0; i < len(p.redT); i++ {
		r := p.redT[i]
		m, quo := bigQ, "quoq"
		if r.op == "redp" {
			m, quo = bigP, "quop"
		}
		f := b.And(
			b.mk(&Term{op: "eq0", sort: SBool, args: []*Term{b.Sub(r.args[0], b.Add(r, b.Scale(m, b.raw(quo, SInt, r.args[0]))))}}),
			b.mk(&Term{op: "ge0", sort: SBool, args: []*Term{r}}),
			b.mk(&Term{op: "ge0", sort: SBool, args: []*Term{b.Sub(b.Big(m), b.AddC(r, 1))}}))
		if !seen[f] {
			seen[f] = true
			list = append(list, f)
			p.count(f)
		}
	}
	// relevant axioms
	ops := map[string]bool{}
	for o := range p.ops {
		ops[o] = true
	}
	used := map[*PAxiom]bool{}
	var ax []*PAxiom
	for ch := true; ch; {
		ch = false
		for _, a := range prel.axioms {
			if used[a] {
				continue
			}
			rel := false
			if len(a.pats) > 0 {
				for _, m := range a.pats {
					all := true
					for s := range m {
						if isFunName(s) && !ops[s] {
							all = false
						}
					}
					if all {
						rel = true
					}
				}
			} else {
				for s := range a.syms {
					if _, ok := prel.decls[s]; ok && ops[s] {
						rel = true
					}
				}
			}
			if rel {
				used[a] = true
				ax = append(ax, a)
				ch = true
				for s := range a.syms {
					if isFunName(s) {
						ops[s] = true
					}
				}
			}
		}
	}
	var out strings.Builder
	out.WriteString(basePrelude)
	names := []string{}
	for s := range ops {
		if _, ok := prel.decls[s]; ok {
			names = append(names, s)
		}
	}
	sort.Strings(names)
	for _, s := range names {
		out.WriteString(prel.decls[s] + "\n")
	}
	for o := range lamDone {
		out.WriteString(b.lams[o].decl + "\n")
	}
	for _, t := range p.symList {
		fmt.Fprintf(&out, "(declare-fun %s () %s)\n", smtName(t.sym.name), t.sort)
	}
	for _, t := range p.lits {
		fmt.Fprintf(&out, "(declare-fun %s () Bytes)\n", p.litName(t))
		fmt.Fprintf(&out, "(assert (= (blen %s) %d))\n", p.litName(t), len(t.str))
		if len(t.str) == 1 && ops["b1"] {
			fmt.Fprintf(&out, "(assert (= %s (b1 %d)))\n", p.litName(t), t.str[0])
		}
		if isZeroLit(t) && ops["bzero"] {
			fmt.Fprintf(&out, "(assert (= %s (bzero %d)))\n", p.litName(t), len(t.str))
		}
		if ops["bat"] {
			for i := 0; i < len(t.str) && i < 64; i++ {
				fmt.Fprintf(&out, "(assert (= (bat %s %d) %d))\n", p.litName(t), i, t.str[i])
			}
		}
	}
	if len(p.lits) > 1 {
		var ns []string
		for _, t := range p.lits {
			ns = append(ns, p.litName(t))
		}
		out.WriteString("(assert (distinct " + strings.Join(ns, " ") + "))\n")
	}
	for _, a := range ax {
		fmt.Fprintf(&out, "; %s %s\n(assert %s)\n", a.kind, a.name, a.text)
	}
	for _, f := range list {
		s := p.str(f)
		out.WriteString(p.body.String())
		p.body.Reset()
		fmt.Fprintf(&out, "(assert %s)\n", s)
	}
	out.WriteString("(check-sat)\n")
	return out.String()
}

func isFunName(s string) bool { _, ok := funSigs[s]; return ok }

// ---- solvers ----

type solverCfg struct {
	name    string
	cmd     []string
	realMul bool
	pre     string
	ext     bool
}

var thoroughTier bool

func cfgs(thorough bool) []solverCfg {
	l := cfgs0()
	if thoroughTier {
		for i := range l {
			for j, a := range l[i].cmd {
				if strings.HasPrefix(a, "-T:") {
					l[i].cmd[j] = "-T:40"
				}
				if strings.HasPrefix(a, "--tlimit") {
					l[i].cmd[j] = "--tlimit=40000"
				}
			}
		}
	}
	return l
}

func cfgs0() []solverCfg {
	return []solverCfg{
		{"z3-5.3", []string{"z3-new", "-in", "-T:6"}, false, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n", false},
		{"z3-5.3", []string{"z3-new", "-in", "-T:8"}, false, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n", true},
		{"z3-5.3", []string{"z3-new", "-in", "-T:8"}, true, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n", false},
		{"cvc5-1.1", []string{"cvc5", "--lang=smt2", "--tlimit=9000"}, false, "(set-logic ALL)\n", true},
		{"z3-4.8", []string{"z3", "-in", "-T:8"}, false, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n", true},
		{"z3-5.3", []string{"z3-new", "-in", "-T:12"}, false, "", true},
	}
}

var procSem = make(chan struct{}, 8)

func runSolver(c solverCfg, q string) (string, time.Duration) {
	procSem <- struct{}{}
	defer func() { <-procSem }()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	t0 := time.Now()
	cmd := exec.CommandContext(ctx, c.cmd[0], c.cmd[1:]...)
	cmd.Stdin = strings.NewReader(c.pre + q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	d := time.Since(t0)
	return strings.TrimSpace(out.String()), d
}

type Result struct {
	ok      bool
	backend string
	dur     time.Duration
	output  string
	query   string
}

var cacheMu sync.Mutex
var qcache = map[string]*Result{}

func discharge(b *Bank, facts []*Term, goal *Term, maxCfg int) *Result {
	if goal == b.T {
		return &Result{ok: true, backend: "normaliser"}
	}
	for _, f := range facts {
		if f == b.F {
			return &Result{ok: true, backend: "normaliser"}
		}
		if f == goal {
			return &Result{ok: true, backend: "normaliser"}
		}
	}
	r := &Result{}
	for i, c := range cfgs(false) {
		// after several failures, or late, the remaining goals get fewer attempts: one failure already decides
		n := atomic.LoadInt64(&nFailed)
		late := time.Since(startTime)
		if thoroughTier {
			late /= 3
		}
		if i >= maxCfg || i >= 3 && n >= 3 || i >= 2 && n >= 6 || i >= 1 && (n >= 12 || late > 420*time.Second) {
			break
		}
		b.mu.Lock()
		q := b.query(facts, goal, c.realMul, c.ext)
		b.mu.Unlock()
		if i <= 1 {
			r.query = q
			cacheMu.Lock()
			o := qcache[q]
			cacheMu.Unlock()
			if o != nil && o.ok {
				return &Result{ok: true, backend: o.backend}
			}
		}
		out, d := runSolver(c, q)
		r.dur += d
		first := strings.SplitN(out, "\n", 2)[0]
		r.output += fmt.Sprintf("%s: %s (%.2fs)\n", c.name, strings.ReplaceAll(out, "\n", " "), d.Seconds())
		if first == "unsat" {
			r.ok = true
			r.backend = c.name
			cacheMu.Lock()
			qcache[r.query] = r
			cacheMu.Unlock()
			return r
		}
	}
	if maxCfg > 2 {
		atomic.AddInt64(&nFailed, 1)
	}
	return r
}

var nFailed int64
var startTime = time.Now()

// infeasible reports whether the facts are contradictory (used only to prune paths).
func infeasible(b *Bank, facts []*Term) bool {
	for _, f := range facts {
		if f == b.F {
			return true
		}
	}
	q := b.query(facts, nil, false, false)
	out, _ := runSolver(solverCfg{"z3", []string{"z3-new", "-in", "-t:400"}, false, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n", false}, q)
	return strings.HasPrefix(out, "unsat")
}
