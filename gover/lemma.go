package main

import (
	"fmt"
	"math/big"
	"strings"
	"sync"
	"time"
)

// instance evaluates "lemma(args)": the body of a prelude axiom or lemma at given arguments.
func (e *Env) instance(a *PAxiom, x *Expr) *Term {
	sx := a.sx
	if !sx.isList() || len(sx.list) < 3 || sx.list[0].atom != "forall" {
		specFail("%s takes no arguments", a.name)
	}
	vars := sx.list[1].list
	if len(vars) != len(x.args) {
		specFail("%s: %d arguments, want %d", a.name, len(x.args), len(vars))
	}
	m := map[string]*Term{}
	for i, v := range vars {
		s := e.eval(x.args[i])
		t := s.l[0]
		if len(s.l) != 1 || s.typ != nil && t.sort != Sort(v.list[1].String()) {
			t = e.key(s)
		}
		if t.sort != Sort(v.list[1].String()) {
			specFail("%s: argument %d has sort %s, want %s", a.name, i+1, t.sort, v.list[1])
		}
		m[v.list[0].atom] = t
	}
	return e.v.b.sxTerm(sx.list[2], m)
}

func (b *Bank) sxTerm(s *Sx, m map[string]*Term) *Term {
	if s.atom != "" {
		if t, ok := m[s.atom]; ok {
			return t
		}
		if s.atom == "true" {
			return b.T
		}
		if s.atom == "false" {
			return b.F
		}
		if n, ok := new(big.Int).SetString(s.atom, 10); ok {
			return b.Big(n)
		}
		if _, ok := funSigs[s.atom]; ok {
			return b.App(s.atom)
		}
		panic(unsup{"unknown name " + s.atom + " in a lemma"})
	}
	op := s.list[0].atom
	if op == "!" {
		return b.sxTerm(s.list[1], m)
	}
	if op == "let" {
		n := map[string]*Term{}
		for k, t := range m {
			n[k] = t
		}
		for _, d := range s.list[1].list {
			n[d.list[0].atom] = b.sxTerm(d.list[1], m)
		}
		return b.sxTerm(s.list[2], n)
	}
	if op == "forall" {
		n := map[string]*Term{}
		for k, t := range m {
			n[k] = t
		}
		var vs []*Term
		for _, d := range s.list[1].list {
			v := b.BoundVar(d.list[0].atom, Sort(d.list[1].String()))
			n[d.list[0].atom] = v
			vs = append(vs, v)
		}
		body := s.list[2]
		var pats []*Term
		if body.isList() && body.list[0].atom == "!" {
			for i, y := range body.list {
				if y.atom == ":pattern" {
					var ps []*Term
					for _, z := range body.list[i+1].list {
						ps = append(ps, b.sxTerm(z, n))
					}
					if len(ps) == 1 {
						pats = append(pats, ps[0])
					} else {
						pats = append(pats, b.raw("multipat", SBool, ps...))
					}
				}
			}
		}
		return b.Forall(vs, b.sxTerm(body, n), pats...)
	}
	as := make([]*Term, len(s.list)-1)
	for i := range as {
		as[i] = b.sxTerm(s.list[i+1], m)
	}
	switch op {
	case "and":
		return b.And(as...)
	case "or":
		return b.Or(as...)
	case "not":
		return b.Not(as[0])
	case "=>":
		return b.Implies(as[0], as[1])
	case "=":
		return b.Eq(as[0], as[1])
	case "ite":
		return b.Ite(as[0], as[1], as[2])
	case "+":
		return b.Add(as...)
	case "-":
		if len(as) == 1 {
			return b.Neg(as[0])
		}
		r := as[0]
		for _, a := range as[1:] {
			r = b.Sub(r, a)
		}
		return r
	case "*", "umul":
		r := as[0]
		for _, a := range as[1:] {
			r = b.Mul(r, a)
		}
		return r
	case "<=":
		return b.Le(as[0], as[1])
	case "<":
		return b.Lt(as[0], as[1])
	case ">=":
		return b.Le(as[1], as[0])
	case ">":
		return b.Lt(as[1], as[0])
	}
	return b.App(op, as...)
}

// useFact checks that a "use" clause only instantiates prelude axioms and lemmas.
func (e *Env) useFact(x *Expr) *Term {
	var ok func(x *Expr) bool
	ok = func(x *Expr) bool {
		switch {
		case x.op == "call":
			return prelByName[x.name] != nil
		case x.op == "bin" && x.name == "==>":
			return ok(x.args[1])
		case x.op == "bin" && x.name == "&&":
			return ok(x.args[0]) && ok(x.args[1])
		case x.op == "forall":
			return ok(x.args[2])
		}
		return false
	}
	if !ok(x) {
		specFail("use of something that is not a lemma: %s", x)
	}
	return e.bool(x)
}

var prelByName = map[string]*PAxiom{}

// verifyLemmas proves every lemma of the prelude from the definitions, axioms and lemmas before it.
func verifyLemmas() *FnResult {
	r := &FnResult{Fn: "lemmas of the prelude", Backend: map[string]int{}, Status: "proved"}
	t0 := time.Now()
	type job struct {
		name, goal, hyp string
		upto            int
	}
	var jobs []job
	for i, a := range prel.axioms {
		if a.kind != "lemma" {
			continue
		}
		if a.induct == "" {
			jobs = append(jobs, job{a.name, a.text, "", i})
			continue
		}
		// induction over a non-negative integer variable: (lemma name (forall ((n Int) ...) body) (induct n))
		sx := a.sx
		nv := strings.TrimSuffix(strings.TrimPrefix(a.induct, "(induct "), ")")
		var rest []string
		found := false
		for _, d := range sx.list[1].list {
			if d.list[0].atom == nv {
				found = true
				continue
			}
			rest = append(rest, d.String())
		}
		if !found {
			r.Status, r.Err = "error", "lemma "+a.name+": no variable "+nv
			continue
		}
		body := sx.list[2]
		wrap := func(x string) string {
			if len(rest) == 0 {
				return x
			}
			return "(forall (" + strings.Join(rest, " ") + ") " + x + ")"
		}
		inst := func(t string, pat bool) string {
			s := body
			if !pat && s.isList() && s.list[0].atom == "!" {
				s = s.list[1]
			}
			return wrap(sxReplace(s, nv, t))
		}
		jobs = append(jobs, job{a.name + " (base)", inst("0", false), "", i})
		jobs = append(jobs, job{a.name + " (step)", inst("(+ k!ind 1)", false), "(declare-fun k!ind () Int)\n(assert (>= k!ind 0))\n(assert " + inst("k!ind", true) + ")\n", i})
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	prove := func(j job) {
		defer wg.Done()
		var q strings.Builder
		q.WriteString(basePrelude)
		for _, s := range sortedKeys(prel.decls) {
			q.WriteString(prel.decls[s] + "\n")
		}
		for _, a := range prel.axioms[:j.upto] {
			q.WriteString("(assert " + a.text + ")\n")
		}
		q.WriteString(j.hyp)
		q.WriteString("(assert (not " + j.goal + "))\n(check-sat)\n")
		ok := false
		log := ""
		for _, c := range cfgs(false) {
			qq := q.String()
			if c.realMul {
				qq = strings.Replace(qq, "(declare-fun umul (Int Int) Int)", "(define-fun umul ((x Int) (y Int)) Int (* x y))", 1)
			}
			out, d := runSolver(c, qq)
			mu.Lock()
			r.Solver += d.Seconds()
			mu.Unlock()
			log += fmt.Sprintf("%s: %s (%.2fs)\n", c.name, strings.ReplaceAll(out, "\n", " "), d.Seconds())
			if strings.HasPrefix(out, "unsat") {
				ok = true
				mu.Lock()
				r.Backend[c.name]++
				mu.Unlock()
				break
			}
		}
		if !ok {
			mu.Lock()
			r.Status = "failed"
			r.Failed = append(r.Failed, FailedObl{"lemma " + j.name, "lemma", "prelude", "", log, q.String()})
			mu.Unlock()
		}
	}
	for _, j := range jobs {
		r.Obls++
		wg.Add(1)
		go prove(j)
	}
	wg.Wait()
	r.Wall = time.Since(t0).Seconds()
	return r
}

func sxReplace(s *Sx, name, by string) string {
	if s.atom != "" {
		if s.atom == name {
			return by
		}
		return s.atom
	}
	var out []string
	for _, x := range s.list {
		out = append(out, sxReplace(x, name, by))
	}
	return "(" + strings.Join(out, " ") + ")"
}
