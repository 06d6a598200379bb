package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// ---- contract language ----

type Expr struct {
	op   string // num str id call sel index un bin cond forall old is as true false nil
	name string
	num  *big.Int
	args []*Expr
	src  string
	trig []*Expr
}

type lexer struct {
	s    string
	i    int
	toks []string
	p    int
}

var opToks = []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "..", "(", ")", "[", "]", "{", "}", "<", ">", "+", "-", "*", "/", "%", "!", "?", ":", ",", ".", "="}

func lex(s string) ([]string, error) {
	var out []string
	i := 0
outer:
	for i < len(s) {
		c := s[i]
		if c == ' ' || c == '\t' || c == '\n' {
			i++
			continue
		}
		if c == '"' {
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, s[i:j+1])
			i = j + 1
			continue
		}
		if c == '_' || c == '#' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '#' || s[j] == '$' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, s[i:j])
			i = j
			continue
		}
		for _, o := range opToks {
			if strings.HasPrefix(s[i:], o) {
				out = append(out, o)
				i += len(o)
				continue outer
			}
		}
		return nil, fmt.Errorf("bad character %q in %q", c, s)
	}
	return out, nil
}

type parser struct {
	toks []string
	p    int
	src  string
}

func (p *parser) peek() string {
	if p.p < len(p.toks) {
		return p.toks[p.p]
	}
	return ""
}
func (p *parser) next() string { t := p.peek(); p.p++; return t }
func (p *parser) expect(s string) {
	if t := p.next(); t != s {
		panic(fmt.Sprintf("expected %q, got %q in %q", s, t, p.src))
	}
}

func parseExpr(src string) (e *Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	toks, err := lex(src)
	if err != nil {
		return nil, err
	}
	p := &parser{toks: toks, src: src}
	e = p.expr(0)
	if p.p != len(p.toks) {
		return nil, fmt.Errorf("trailing %q in %q", p.peek(), src)
	}
	e.src = src
	return e, nil
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "is": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8, "as": 9}

func (p *parser) expr(min int) *Expr {
	var l *Expr
	if p.peek() == "forall" {
		p.next()
		v := p.next()
		var lo, hi *Expr
		if p.peek() == ":" {
			p.next()
			lo = &Expr{op: "sort", name: p.next()}
			hi = lo
		} else {
			p.expect("in")
			p.expect("[")
			lo = p.expr(0)
			p.expect(",")
			hi = p.expr(0)
			p.expect(")")
		}
		var trig []*Expr
		if p.peek() == "{" {
			p.next()
			for {
				trig = append(trig, p.expr(0))
				if p.peek() == "," {
					p.next()
					continue
				}
				break
			}
			p.expect("}")
		}
		p.expect("::")
		body := p.expr(0)
		return &Expr{op: "forall", name: v, args: []*Expr{lo, hi, body}, trig: trig}
	}
	l = p.unary()
	for {
		t := p.peek()
		if t == "?" && min <= 3 {
			p.next()
			a := p.expr(0)
			p.expect(":")
			b := p.expr(3)
			l = &Expr{op: "cond", args: []*Expr{l, a, b}}
			continue
		}
		pr, ok := prec[t]
		if !ok || pr < min {
			return l
		}
		p.next()
		if t == "is" || t == "as" {
			l = &Expr{op: t, name: p.typ(), args: []*Expr{l}}
			continue
		}
		var r *Expr
		if t == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		l = &Expr{op: "bin", name: t, args: []*Expr{l, r}}
	}
}

func (p *parser) typ() string {
	s := ""
	for p.peek() == "*" || p.peek() == "[" {
		s += p.next()
		if strings.HasSuffix(s, "[") {
			p.expect("]")
			s += "]"
		}
	}
	s += p.next()
	if p.peek() == "." {
		p.next()
		s += "." + p.next()
	}
	return s
}

func (p *parser) unary() *Expr {
	switch p.peek() {
	case "!", "-":
		t := p.next()
		return &Expr{op: "un", name: t, args: []*Expr{p.unary()}}
	}
	return p.postfix(p.primary())
}

func (p *parser) primary() *Expr {
	t := p.next()
	switch {
	case t == "(":
		e := p.expr(0)
		p.expect(")")
		return e
	case t == "true" || t == "false" || t == "nil":
		return &Expr{op: t}
	case t == "":
		panic("unexpected end in " + p.src)
	case t[0] == '"':
		s := t[1 : len(t)-1]
		var sb strings.Builder
		for i := 0; i < len(s); i++ {
			if s[i] == '\\' && i+3 < len(s) && s[i+1] == 'x' {
				var b byte
				fmt.Sscanf(s[i+2:i+4], "%02x", &b)
				sb.WriteByte(b)
				i += 3
				continue
			}
			sb.WriteByte(s[i])
		}
		return &Expr{op: "str", name: sb.String()}
	case t[0] >= '0' && t[0] <= '9':
		n, ok := new(big.Int).SetString(t, 0)
		if !ok {
			panic("bad number " + t)
		}
		return &Expr{op: "num", num: n}
	}
	return &Expr{op: "id", name: t}
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch p.peek() {
		case ".":
			p.next()
			e = &Expr{op: "sel", name: p.next(), args: []*Expr{e}}
		case "[":
			p.next()
			i := p.expr(0)
			p.expect("]")
			e = &Expr{op: "index", args: []*Expr{e, i}}
		case "(":
			if e.op != "id" {
				panic("call of non-name in " + p.src)
			}
			p.next()
			var as []*Expr
			for p.peek() != ")" {
				as = append(as, p.expr(0))
				if p.peek() == "," {
					p.next()
				}
			}
			p.next()
			e = &Expr{op: "call", name: e.name, args: as}
		default:
			return e
		}
	}
}

func (e *Expr) String() string {
	if e.src != "" {
		return e.src
	}
	switch e.op {
	case "num":
		return e.num.String()
	case "id":
		return e.name
	case "str":
		return fmt.Sprintf("%q", e.name)
	case "bin":
		return "(" + e.args[0].String() + " " + e.name + " " + e.args[1].String() + ")"
	case "un":
		return e.name + e.args[0].String()
	case "sel":
		return e.args[0].String() + "." + e.name
	case "index":
		return e.args[0].String() + "[" + e.args[1].String() + "]"
	case "sort":
		return e.name
	case "forall":
		return "forall " + e.name + " in [" + e.args[0].String() + "," + e.args[1].String() + ") :: " + e.args[2].String()
	case "call":
		s := e.name + "("
		for i, a := range e.args {
			if i > 0 {
				s += ", "
			}
			s += a.String()
		}
		return s + ")"
	case "cond":
		return "(" + e.args[0].String() + " ? " + e.args[1].String() + " : " + e.args[2].String() + ")"
	case "is", "as":
		return "(" + e.args[0].String() + " " + e.op + " " + e.name + ")"
	}
	return e.op
}

type LoopSpec struct {
	invs []*Expr
	mods []*Expr
	uses []*Expr
}

type Contract struct {
	key         string
	params      []string // receiver first when a method
	results     []string
	extern      bool
	inline      bool // only loop annotations
	requires    []*Expr
	hreq        []*Expr // representation invariants: known to the package of the function only
	hens        []*Expr
	sets        [][2]*Expr // ghost assignments at the end
	ensures     []*Expr
	fresh       []*Expr
	modifies    []*Expr
	nullable    map[string]bool
	uses        []*Expr // lemma instances assumed at entry/exit
	loops       map[int]*LoopSpec
	props       []string
	file        string
	line        int
	pure        bool
	why         string
	unrollOK    bool
	panics      *Expr
	noalloc     bool
	deep        bool // result reaches further fresh objects
	callers     bool
	asserts     []*Expr
	trustedBody string
	split       []string
	unfold      []string // prelude functions replaced by their definitions
}

type Macro struct {
	params []string
	body   *Expr
}

type Specs struct {
	contracts map[string]*Contract
	macros    map[string]*Macro
	ghosts    map[string]Sort
	globals   []*Expr // facts about package variables (checked against the initialisers)
	globalSrc []string
}

func loadSpecs(dir string) (*Specs, error) {
	sp := &Specs{contracts: map[string]*Contract{}, macros: map[string]*Macro{}, ghosts: map[string]Sort{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.smt"))
	sort.Strings(files)
	for _, f := range files {
		s, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := loadPrelude(string(s), f); err != nil {
			return nil, err
		}
	}
	files, _ = filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := sp.load(f); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

func splitTop(s string, sep byte) []string {
	var out []string
	d, st := 0, 0
	inStr := false
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			inStr = !inStr
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
		if s[i] == sep && d == 0 && !inStr {
			out = append(out, strings.TrimSpace(s[st:i]))
			st = i + 1
		}
	}
	if strings.TrimSpace(s[st:]) != "" {
		out = append(out, strings.TrimSpace(s[st:]))
	}
	return out
}

func (sp *Specs) load(file string) error {
	raw, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	lines := strings.Split(string(raw), "\n")
	var cur *Contract
	var loop *LoopSpec
	for n := 0; n < len(lines); n++ {
		ln := n + 1
		line := lines[n]
		if i := strings.Index(line, "//"); i >= 0 {
			line = line[:i]
		}
		line = strings.TrimSpace(line)
		// continuation lines start with '|'
		for n+1 < len(lines) && strings.HasPrefix(strings.TrimSpace(lines[n+1]), "|") {
			n++
			l2 := lines[n]
			if i := strings.Index(l2, "//"); i >= 0 {
				l2 = l2[:i]
			}
			line += " " + strings.TrimSpace(strings.TrimSpace(l2)[1:])
		}
		if line == "" {
			continue
		}
		word, rest := line, ""
		if i := strings.IndexAny(line, " \t"); i >= 0 {
			word, rest = line[:i], strings.TrimSpace(line[i:])
		}
		fail := func(err error) error { return fmt.Errorf("%s:%d: %v", file, ln, err) }
		pe := func() (*Expr, error) { return parseExpr(rest) }
		switch word {
		case "ghost":
			fs := strings.SplitN(rest, " ", 2)
			sp.ghosts[fs[0]] = Sort(strings.TrimSpace(fs[1]))
		case "global":
			e, err := pe()
			if err != nil {
				return fail(err)
			}
			sp.globals = append(sp.globals, e)
		case "def":
			i := strings.Index(rest, "=")
			head := strings.TrimSpace(rest[:i])
			j := strings.Index(head, "(")
			name := head[:j]
			ps := splitTop(head[j+1:len(head)-1], ',')
			e, err := parseExpr(rest[i+1:])
			if err != nil {
				return fail(err)
			}
			e.src = ""
			sp.macros[name] = &Macro{ps, e}
		case "func", "extern":
			c, err := parseHeader(rest)
			if err != nil {
				return fail(err)
			}
			c.extern = word == "extern"
			c.file, c.line = file, ln
			if _, dup := sp.contracts[c.key]; dup {
				return fail(fmt.Errorf("duplicate contract %s", c.key))
			}
			sp.contracts[c.key] = c
			cur, loop = c, nil
		case "loop":
			var k int
			fmt.Sscanf(rest, "%d", &k)
			loop = &LoopSpec{}
			cur.loops[k] = loop
		case "scan":
			var k int
			fmt.Sscanf(rest, "%d", &k)
			loop = &LoopSpec{}
			cur.loops[100+k] = loop
		case "end":
			loop = nil
		case "requires", "ensures", "invariant", "modifies", "fresh", "use", "panics", "assert":
			parts := []string{rest}
			if word == "modifies" || word == "fresh" {
				parts = splitTop(rest, ',')
			}
			for _, s := range parts {
				e, err := parseExpr(s)
				if err != nil {
					return fail(err)
				}
				switch word {
				case "requires":
					cur.requires = append(cur.requires, e)
				case "ensures":
					cur.ensures = append(cur.ensures, e)
				case "fresh":
					cur.fresh = append(cur.fresh, e)
				case "panics":
					cur.panics = e
				case "assert":
					cur.asserts = append(cur.asserts, e)
				case "modifies":
					if loop != nil {
						loop.mods = append(loop.mods, e)
					} else {
						cur.modifies = append(cur.modifies, e)
					}
				case "invariant":
					if loop == nil {
						return fail(fmt.Errorf("invariant outside loop"))
					}
					loop.invs = append(loop.invs, e)
				case "use":
					if loop != nil {
						loop.uses = append(loop.uses, e)
					} else {
						cur.uses = append(cur.uses, e)
					}
				}
			}
		case "unfold":
			cur.unfold = append(cur.unfold, strings.Fields(strings.ReplaceAll(rest, ",", " "))...)
		case "hrequires", "hensures", "hidden":
			e, err := pe()
			if err != nil {
				return fail(err)
			}
			if word != "hensures" {
				cur.hreq = append(cur.hreq, e)
			}
			if word != "hrequires" {
				cur.hens = append(cur.hens, e)
			}
		case "set":
			i := strings.Index(rest, ":=")
			if i < 0 {
				return fail(fmt.Errorf("set without :="))
			}
			l, err := parseExpr(strings.TrimSpace(rest[:i]))
			if err != nil {
				return fail(err)
			}
			r, err := parseExpr(strings.TrimSpace(rest[i+2:]))
			if err != nil {
				return fail(err)
			}
			cur.sets = append(cur.sets, [2]*Expr{l, r})
		case "nullable":
			for _, s := range splitTop(rest, ',') {
				cur.nullable[s] = true
			}
		case "inline":
			cur.inline = true
		case "deep":
			cur.deep = true
		case "why":
			cur.why = rest
		case "prop":
			cur.props = strings.Fields(rest)
		default:
			return fail(fmt.Errorf("unknown keyword %q", word))
		}
	}
	return nil
}

// parseHeader: (s *curve.Secp256k1Scalar) Add(lhs, rhs) (res)   or   curve.HashToField(a, b) (r, err)
func parseHeader(s string) (*Contract, error) {
	c := &Contract{nullable: map[string]bool{}, loops: map[int]*LoopSpec{}}
	s = strings.TrimSpace(s)
	recv := ""
	if strings.HasPrefix(s, "(") {
		i := strings.Index(s, ")")
		f := strings.Fields(s[1:i])
		if len(f) != 2 {
			return nil, fmt.Errorf("bad receiver in %q", s)
		}
		recv = f[1]
		c.params = append(c.params, f[0])
		s = strings.TrimSpace(s[i+1:])
	}
	i := strings.Index(s, "(")
	if i < 0 {
		return nil, fmt.Errorf("bad header %q", s)
	}
	name := strings.TrimSpace(s[:i])
	j := strings.Index(s, ")")
	c.params = append(c.params, splitTop(s[i+1:j], ',')...)
	rest := strings.TrimSpace(s[j+1:])
	if rest != "" {
		c.results = splitTop(strings.TrimSuffix(strings.TrimPrefix(rest, "("), ")"), ',')
	}
	if recv != "" {
		c.key = "(" + recv + ")." + name
	} else {
		c.key = name
	}
	return c, nil
}

func (w *World) lookupType(s string) types.Type {
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(w.lookupType(s[1:]))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(w.lookupType(s[2:]))
	}
	switch s {
	case "byte", "uint8":
		return types.Typ[types.Uint8]
	case "int":
		return types.Typ[types.Int]
	case "string":
		return types.Typ[types.String]
	}
	i := strings.Index(s, ".")
	if i < 0 {
		panic("unknown type " + s)
	}
	p := w.pkgs[s[:i]]
	if p == nil {
		for _, q := range w.prog.AllPackages() {
			if q.Pkg.Name() == s[:i] && q.Pkg.Scope().Lookup(s[i+1:]) != nil {
				p = q
			}
		}
	}
	if p == nil {
		panic("unknown package in type " + s)
	}
	o := p.Pkg.Scope().Lookup(s[i+1:])
	if o == nil {
		panic("unknown type " + s)
	}
	return o.Type()
}
