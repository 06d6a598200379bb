package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
)

var bigQ, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
var bigP, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)

// fixedLen gives the length of the result of byte-valued functions (declared in the prelude);
// lenArg gives the index of the argument that is the length.
var fixedLen = map[string]int64{}
var lenArg = map[string]int{"i2b": 1}

func (b *Bank) Lit(s string) *Term { return b.mk(&Term{op: "blit", str: s, sort: SBytes}) }
func (b *Bank) Emp() *Term         { return b.Lit("") }

func (b *Bank) raw(op string, s Sort, args ...*Term) *Term {
	return b.mk(&Term{op: op, args: append([]*Term(nil), args...), sort: s})
}

func (b *Bank) Len(x *Term) *Term {
	switch x.op {
	case "blit":
		return b.Int(int64(len(x.str)))
	case "bcat":
		r := b.zero
		for _, a := range x.args {
			r = b.Add(r, b.Len(a))
		}
		return r
	case "bsub":
		return x.args[2]
	case "bzero":
		return x.args[0]
	case "b1":
		return b.one
	case "brev", "bupd":
		return b.Len(x.args[0])
	case "bxor":
		return b.Len(x.args[0])
	case "ite":
		l1, l2 := b.Len(x.args[1]), b.Len(x.args[2])
		return b.Ite(x.args[0], l1, l2)
	}
	if n, ok := fixedLen[x.op]; ok {
		return b.Int(n)
	}
	if i, ok := lenArg[x.op]; ok {
		return x.args[i]
	}
	return b.raw("blen", SInt, x)
}

func (b *Bank) pieces(x *Term) []*Term {
	if x.op == "bcat" {
		return x.args
	}
	if x.op == "blit" && x.str == "" {
		return nil
	}
	return []*Term{x}
}

func (b *Bank) Zeros(n *Term) *Term {
	if k, ok := n.int64(); ok && k <= 256 {
		if k < 0 {
			k = 0
		}
		return b.Lit(strings.Repeat("\x00", int(k)))
	}
	return b.raw("bzero", SBytes, n)
}

func isZeroLit(x *Term) bool {
	return x.op == "blit" && x.str != "" && strings.Trim(x.str, "\x00") == ""
}

func (b *Bank) B1(v *Term) *Term {
	if k, ok := v.int64(); ok {
		return b.Lit(string([]byte{byte(k)}))
	}
	if v.op == "bat" {
		return b.Sub3(v.args[0], v.args[1], b.one)
	}
	return b.raw("b1", SBytes, v)
}

func (b *Bank) joinable(x, y *Term) *Term {
	if x.op == "blit" && y.op == "blit" {
		return b.Lit(x.str + y.str)
	}
	if x.op == "bzero" && y.op == "bzero" {
		return b.Zeros(b.Add(x.args[0], y.args[0]))
	}
	if x.op == "bzero" && isZeroLit(y) {
		return b.Zeros(b.AddC(x.args[0], int64(len(y.str))))
	}
	if y.op == "bzero" && isZeroLit(x) {
		return b.Zeros(b.AddC(y.args[0], int64(len(x.str))))
	}
	if x.op == "bsub" && y.op == "bsub" && x.args[0] == y.args[0] && b.Add(x.args[1], x.args[2]) == y.args[1] {
		return b.Sub3(x.args[0], x.args[1], b.Add(x.args[2], y.args[2]))
	}
	// reversed runs
	rev := func(t *Term) *Term {
		if t.op == "brev" && t.args[0].op == "bsub" {
			return t.args[0]
		}
		if t.op == "bsub" && t.args[2] == b.one {
			return t
		}
		return nil
	}
	if (x.op == "brev" || y.op == "brev") && rev(x) != nil && rev(y) != nil {
		u, v := rev(x), rev(y)
		if u.args[0] == v.args[0] && b.Add(v.args[1], v.args[2]) == u.args[1] {
			return b.Rev(b.Sub3(u.args[0], v.args[1], b.Add(u.args[2], v.args[2])))
		}
	}
	// key stream pieces: kstream(key, pos, n)
	if x.op == "kstream" && y.op == "kstream" && x.args[0] == y.args[0] && b.Add(x.args[1], x.args[2]) == y.args[1] {
		return b.raw("kstream", SBytes, x.args[0], x.args[1], b.Add(x.args[2], y.args[2]))
	}
	return nil
}

func (b *Bank) Cat(xs ...*Term) *Term {
	var ps []*Term
	var push func(p *Term)
	push = func(p *Term) {
		if p.op == "blit" && p.str == "" {
			return
		}
		if n := b.Len(p); n == b.zero {
			return
		}
		if len(ps) > 0 {
			if j := b.joinable(ps[len(ps)-1], p); j != nil {
				ps = ps[:len(ps)-1]
				for _, q := range b.pieces(j) {
					push(q)
				}
				return
			}
		}
		ps = append(ps, p)
	}
	for _, x := range xs {
		if x.sort != SBytes {
			panic("Cat of " + x.String())
		}
		for _, p := range b.pieces(x) {
			push(p)
		}
	}
	switch len(ps) {
	case 0:
		return b.Emp()
	case 1:
		return ps[0]
	}
	return b.raw("bcat", SBytes, ps...)
}

// sign of an integer term when syntactically evident: 1 positive, 0 zero, -1 negative; ok false if unknown.
// nonneg/nonpos handled by cmp.
func (b *Bank) knownLe(x, y *Term) bool { return b.Le(x, y) == b.T }

func (b *Bank) Sub3(x, off, n *Term) *Term {
	if n == b.zero {
		return b.Emp()
	}
	if off == b.zero && n == b.Len(x) {
		return x
	}
	switch x.op {
	case "blit":
		o, ok1 := off.int64()
		k, ok2 := n.int64()
		if ok1 && ok2 && o >= 0 && k >= 0 && int(o+k) <= len(x.str) {
			return b.Lit(x.str[o : o+k])
		}
		if strings.Trim(x.str, "\x00") == "" {
			return b.Zeros(n)
		}
	case "bzero":
		return b.Zeros(n)
	case "bsub":
		return b.Sub3(x.args[0], b.Add(x.args[1], off), n)
	case "kstream":
		return b.raw("kstream", SBytes, x.args[0], b.Add(x.args[1], off), n)
	case "brev":
		// reversed: positions off.. of rev(y) are rev of y[len-off-n ..]
		y := x.args[0]
		return b.Rev(b.Sub3(y, b.Sub(b.Sub(b.Len(y), off), n), n))
	case "bcat":
		// drop leading pieces that end at or before off; trailing pieces starting at or after off+n
		pos := b.zero
		end := b.Add(off, n)
		var out []*Term
		ok := true
		started := false
		for _, p := range x.args {
			l := b.Len(p)
			pe := b.Add(pos, l)
			if !started {
				if b.knownLe(pe, off) {
					pos = pe
					continue
				}
				if !b.knownLe(pos, off) {
					ok = false
					break
				}
				// off lies in this piece if off < pe (or the result starts here)
				if off != pos && !b.knownLe(off, pe) {
					ok = false
					break
				}
				started = true
				if b.knownLe(end, pe) {
					out = append(out, b.Sub3(p, b.Sub(off, pos), n))
					return b.Cat(out...)
				}
				if !b.knownLe(pe, end) {
					ok = false
					break
				}
				out = append(out, b.Sub3(p, b.Sub(off, pos), b.Sub(pe, off)))
			} else {
				if b.knownLe(end, pos) {
					break
				}
				if b.knownLe(pe, end) {
					out = append(out, p)
				} else if b.knownLe(end, pe) {
					out = append(out, b.Sub3(p, b.zero, b.Sub(end, pos)))
					pos = end
					break
				} else {
					ok = false
					break
				}
			}
			pos = pe
			if pos == end {
				break
			}
		}
		if ok && started {
			tot := b.zero
			for _, p := range out {
				tot = b.Add(tot, b.Len(p))
			}
			if tot == n {
				return b.Cat(out...)
			}
		}
	case "ite":
		return b.Ite(x.args[0], b.Sub3(x.args[1], off, n), b.Sub3(x.args[2], off, n))
	}
	return b.raw("bsub", SBytes, x, off, n)
}

// At is the byte at index i; checked means the index is known to be in range.
func (b *Bank) At(x, i *Term, checked bool) *Term {
	switch x.op {
	case "blit":
		if k, ok := i.int64(); ok && k >= 0 && int(k) < len(x.str) {
			return b.Int(int64(x.str[k]))
		}
		if strings.Trim(x.str, "\x00") == "" {
			return b.zero
		}
	case "bzero":
		return b.zero
	case "b1":
		if i == b.zero {
			return x.args[0]
		}
	case "bsub":
		inr := checked || (b.knownLe(b.zero, i) && b.Lt(i, x.args[2]) == b.T)
		if inr {
			return b.At(x.args[0], b.Add(x.args[1], i), true)
		}
	case "brev":
		if checked || (b.knownLe(b.zero, i) && b.Lt(i, b.Len(x)) == b.T) {
			return b.At(x.args[0], b.Sub(b.AddC(b.Len(x.args[0]), -1), i), true)
		}
	case "bcat":
		pos := b.zero
		for _, p := range x.args {
			pe := b.Add(pos, b.Len(p))
			if b.knownLe(pe, i) {
				pos = pe
				continue
			}
			if b.knownLe(pos, i) && b.Lt(i, pe) == b.T {
				return b.At(p, b.Sub(i, pos), true)
			}
			break
		}
	case "bupd":
		switch b.eqRefs(x.args[1], i) {
		case 1:
			if checked {
				return x.args[2]
			}
		case 0:
			return b.At(x.args[0], i, checked)
		}
	case "ite":
		return b.Ite(x.args[0], b.At(x.args[1], i, checked), b.At(x.args[2], i, checked))
	}
	return b.raw("bat", SInt, x, i)
}

func (b *Bank) Rev(x *Term) *Term {
	switch x.op {
	case "blit":
		r := []byte(x.str)
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
		return b.Lit(string(r))
	case "brev":
		return x.args[0]
	case "b1", "bzero":
		return x
	case "bsub":
		if x.args[2] == b.one {
			return x
		}
	case "bcat":
		rs := make([]*Term, len(x.args))
		for i, p := range x.args {
			rs[len(x.args)-1-i] = b.Rev(p)
		}
		return b.Cat(rs...)
	}
	return b.raw("brev", SBytes, x)
}

func (b *Bank) Upd(x, i, v *Term) *Term {
	if k, ok := i.int64(); ok && k >= 0 {
		return b.Cat(b.Sub3(x, b.zero, i), b.B1(v), b.Sub3(x, b.AddC(i, 1), b.Sub(b.AddC(b.Len(x), -1), i)))
	}
	if x.op == "bcat" {
		// write at the start of a piece
		pos := b.zero
		for n, p := range x.args {
			if pos == i {
				var out []*Term
				out = append(out, x.args[:n]...)
				out = append(out, b.B1(v), b.Sub3(p, b.one, b.AddC(b.Len(p), -1)))
				out = append(out, x.args[n+1:]...)
				return b.Cat(out...)
			}
			pos = b.Add(pos, b.Len(p))
		}
	}
	return b.raw("bupd", SBytes, x, i, v)
}

// Splice replaces n bytes of x at off by y (len y == n).
func (b *Bank) Splice(x, off, y *Term) *Term {
	n := b.Len(y)
	end := b.Add(off, n)
	return b.Cat(b.Sub3(x, b.zero, off), y, b.Sub3(x, end, b.Sub(b.Len(x), end)))
}

func (b *Bank) bytesEqSplit(x, y *Term) *Term {
	lx, ly := b.Len(x), b.Len(y)
	if b.Eq(lx, ly) == b.F {
		return b.F
	}
	if x.op == "blit" && x.str == "" && ly != b.zero && ly.op != "blen" {
		return b.Eq(ly, b.zero)
	}
	if x.op != "bcat" && y.op != "bcat" {
		return nil
	}
	ps := append([]*Term(nil), b.pieces(x)...)
	qs := append([]*Term(nil), b.pieces(y)...)
	var conj []*Term
	progress := false
	split := func(l []*Term, n int64, front bool) []*Term {
		// cut a literal
		var p *Term
		if front {
			p = l[0]
			return append([]*Term{b.Lit(p.str[:n]), b.Lit(p.str[n:])}, l[1:]...)
		}
		p = l[len(l)-1]
		k := len(p.str) - int(n)
		return append(append([]*Term(nil), l[:len(l)-1]...), b.Lit(p.str[:k]), b.Lit(p.str[k:]))
	}
	for _, front := range []bool{true, false} {
		for len(ps) > 0 && len(qs) > 0 && (len(ps) > 1 || len(qs) > 1) {
			i, j := 0, 0
			if !front {
				i, j = len(ps)-1, len(qs)-1
			}
			lp, lq := b.Len(ps[i]), b.Len(qs[j])
			if lp != lq {
				a, ok1 := lp.int64()
				c, ok2 := lq.int64()
				if ok1 && ok2 && ps[i].op == "blit" && a > c {
					ps = split(ps, c, front)
					continue
				}
				if ok1 && ok2 && qs[j].op == "blit" && c > a {
					qs = split(qs, a, front)
					continue
				}
				break
			}
			conj = append(conj, b.Eq(ps[i], qs[j]))
			progress = true
			if front {
				ps, qs = ps[1:], qs[1:]
			} else {
				ps, qs = ps[:i], qs[:j]
			}
		}
	}
	if !progress {
		return nil
	}
	conj = append(conj, b.Eq(b.Cat(ps...), b.Cat(qs...)))
	return b.And(conj...)
}

// ---- applications of named functions ----

type FunSig struct {
	name string
	args []Sort
	res  Sort
}

var funSigs = map[string]*FunSig{}

func (b *Bank) App(name string, args ...*Term) *Term {
	switch name {
	case "blen":
		return b.Len(args[0])
	case "bcat":
		return b.Cat(args...)
	case "bsub":
		return b.Sub3(args[0], args[1], args[2])
	case "bat":
		return b.At(args[0], args[1], false)
	case "b1":
		return b.B1(args[0])
	case "bzero":
		return b.Zeros(args[0])
	case "brev":
		return b.Rev(args[0])
	case "bupd":
		return b.Upd(args[0], args[1], args[2])
	case "bxor":
		if args[0].op == "bzero" || isZeroLit(args[0]) {
			if b.Len(args[0]) == b.Len(args[1]) {
				return args[1]
			}
		}
		if args[1].op == "bzero" || isZeroLit(args[1]) {
			return args[0]
		}
		return b.raw("bxor", SBytes, args...)
	case "redq":
		return b.Red("redq", bigQ, args[0])
	case "redp":
		return b.Red("redp", bigP, args[0])
	case "invq":
		return b.Inv("invq", "redq", bigQ, args[0])
	case "invp":
		return b.Inv("invp", "redp", bigP, args[0])
	case "modred":
		if k, ok := args[0].int64(); ok {
			if k == 1 {
				return b.App("redq", args[1])
			}
			return b.App("redp", args[1])
		}
	case "modinv":
		if k, ok := args[0].int64(); ok {
			if k == 1 {
				return b.App("invq", args[1])
			}
			return b.App("invp", args[1])
		}
	case "b2i":
		return b.B2I(args[0])
	case "i2b":
		return b.I2B(args[0], args[1])
	case "mod":
		return b.Mod(args[0], args[1])
	case "div":
		return b.Div(args[0], args[1])
	case "ishex":
		if args[0].op == "blit" {
			_, err := hex.DecodeString(args[0].str)
			return b.Bool(err == nil)
		}
	case "unhex":
		if args[0].op == "blit" {
			if x, err := hex.DecodeString(args[0].str); err == nil {
				return b.Lit(string(x))
			}
		}
	case "dec10":
		if args[0].op == "int" {
			return b.Lit(args[0].val.String())
		}
	case "ixor":
		x, y := args[0], args[1]
		if x == y {
			return b.zero
		}
		if x == b.zero {
			return y
		}
		if y == b.zero {
			return x
		}
		a, ok1 := x.int64()
		c, ok2 := y.int64()
		if ok1 && ok2 {
			return b.Int(a ^ c)
		}
		if x.id > y.id {
			args = []*Term{y, x}
		}
		return b.raw("ixor", SInt, args...)
	case "select":
		return b.Select(args[0], args[1])
	case "store":
		return b.Store(args[0], args[1], args[2])
	}
	if sx := b.unfold[name]; sx != nil {
		// (forall (vars) (! (= (f vars) body) ...))
		m := map[string]*Term{}
		for i, v := range sx.list[1].list {
			m[v.list[0].atom] = args[i]
		}
		return b.sxTerm(sx.list[2].list[1].list[2], m)
	}
	if name == "vseq" {
		return b.VSeq(args[0], args[1], args[2])
	}
	sig := funSigs[name]
	if sig == nil {
		panic("unknown function " + name)
	}
	if len(sig.args) != len(args) {
		panic(fmt.Sprintf("function %s: %d arguments, want %d", name, len(args), len(sig.args)))
	}
	for i := range args {
		if args[i].sort != sig.args[i] {
			panic(fmt.Sprintf("function %s argument %d has sort %s, want %s: %s", name, i, args[i].sort, sig.args[i], args[i]))
		}
	}
	return b.raw(name, sig.res, args...)
}

// VSeq is the sequence i -> m[row[off+i]]; changes of m that cannot touch the row are dropped.
func (b *Bank) VSeq(m, row, off *Term) *Term {
	if cb, ok := b.contentBound(row); ok {
		for {
			if m.op == "store" {
				if lo, _, ok := b.bounds(m.args[1]); ok && cb.le(lo) {
					m = m.args[0]
					continue
				}
			}
			if m.op == "sym" && m.sym.base != nil && m.sym.hasKeep && cb.le(m.sym.keep) {
				all := true
				for _, e := range m.sym.except {
					if lo, _, ok := b.bounds(e); !ok || !cb.le(lo) {
						all = false
					}
				}
				if all {
					m = m.sym.base
					continue
				}
			}
			break
		}
	}
	return b.raw("vseq", ArrSort(elemSort(m.sort)), m, row, off)
}

// Red normalises a residue: nested reductions are expanded and coefficients reduced.
func (b *Bank) Red(op string, m *big.Int, x *Term) *Term {
	for {
		p := b.toPoly(x)
		changed := false
		acc := b.zero
		for id, c := range p.m {
			t := p.t[id]
			d := new(big.Int).Mod(c, m)
			if d.Cmp(c) != 0 {
				changed = true
			}
			fs := []*Term{t}
			if t.op == "mono" {
				fs = t.args
			}
			has := false
			for _, f := range fs {
				if f.op == op {
					has = true
				}
			}
			if !has {
				acc = b.Add(acc, b.Scale(d, t))
				continue
			}
			changed = true
			prod := b.Big(d)
			for _, f := range fs {
				if f.op == op {
					f = f.args[0]
				}
				prod = b.Mul(prod, f)
			}
			acc = b.Add(acc, prod)
		}
		if !changed {
			break
		}
		x = acc
	}
	if x.op == "int" {
		return b.Big(new(big.Int).Mod(x.val, m))
	}
	if lo, hi := b.rng(x); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m) < 0 {
		return x
	}
	return b.raw(op, SInt, x)
}
func (b *Bank) Inv(op, red string, m *big.Int, x *Term) *Term {
	r := b.App(red, x)
	if r.op == "int" {
		if r.val.Sign() == 0 {
			return b.zero
		}
		return b.Big(new(big.Int).ModInverse(r.val, m))
	}
	return b.raw(op, SInt, r)
}

var two = big.NewInt(2)

func pow256(n int64) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(8*n)) }

func (b *Bank) rng(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case "int":
		return t.val, t.val
	case "redq", "invq":
		return new(big.Int), new(big.Int).Sub(bigQ, big.NewInt(1))
	case "redp", "invp":
		return new(big.Int), new(big.Int).Sub(bigP, big.NewInt(1))
	case "bat":
		return new(big.Int), big.NewInt(255)
	case "blen":
		return new(big.Int), nil
	case "b2i":
		if n, ok := b.Len(t.args[0]).int64(); ok {
			return new(big.Int), new(big.Int).Sub(pow256(n), big.NewInt(1))
		}
		return new(big.Int), nil
	case "mod":
		if m := t.args[1]; m.op == "int" {
			return new(big.Int), new(big.Int).Sub(m.val, big.NewInt(1))
		}
	case "ite":
		l1, h1 := b.rng(t.args[1])
		l2, h2 := b.rng(t.args[2])
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(l1) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(h1) > 0 {
				hi = h2
			}
		}
		return
	case "sym":
		return t.sym.minv, t.sym.maxv
	case "select":
		return b.mapRange(t.args[0])
	case "poly":
		lo, hi = new(big.Int), new(big.Int)
		for i, a := range t.args {
			if a.op == "mono" {
				return nil, nil
			}
			l, h := b.rng(a)
			c := t.coefs[i]
			if c.Sign() < 0 {
				l, h = h, l
			}
			if lo != nil && l != nil {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(c, l))
			} else {
				lo = nil
			}
			if hi != nil && h != nil {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(c, h))
			} else {
				hi = nil
			}
		}
		return
	}
	return nil, nil
}

func (b *Bank) Mod(x, m *Term) *Term {
	if m.op == "int" && m.val.Sign() > 0 {
		if x.op == "int" {
			return b.Big(new(big.Int).Mod(x.val, m.val))
		}
		if lo, hi := b.rng(x); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m.val) < 0 {
			return x
		}
		if x.op == "mod" && x.args[1] == m {
			return x
		}
	}
	return b.raw("mod", SInt, x, m)
}
func (b *Bank) Div(x, m *Term) *Term {
	if m.op == "int" && m.val.Sign() > 0 {
		if x.op == "int" {
			q, r := new(big.Int), new(big.Int)
			q.DivMod(x.val, m.val, r)
			return b.Big(q)
		}
		if m == b.one {
			return x
		}
		if lo, hi := b.rng(x); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m.val) < 0 {
			return b.zero
		}
	}
	return b.raw("div", SInt, x, m)
}

func (b *Bank) B2I(x *Term) *Term {
	switch x.op {
	case "blit":
		return b.Big(new(big.Int).SetBytes([]byte(x.str)))
	case "bzero":
		return b.zero
	case "b1":
		return x.args[0]
	case "bsub":
		if x.args[2] == b.one {
			return b.At(x.args[0], x.args[1], true)
		}
	case "bcat":
		if x.args[0].op == "bzero" || isZeroLit(x.args[0]) {
			return b.B2I(b.Cat(x.args[1:]...))
		}
	case "i2b":
		if n, ok := x.args[1].int64(); ok {
			lo, hi := b.rng(x.args[0])
			if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(pow256(n)) < 0 {
				return x.args[0]
			}
		}
	}
	return b.raw("b2i", SInt, x)
}

func (b *Bank) I2B(v, n *Term) *Term {
	if k, ok := n.int64(); ok {
		if v.op == "int" && v.val.Sign() >= 0 && v.val.Cmp(pow256(k)) < 0 {
			buf := make([]byte, k)
			v.val.FillBytes(buf)
			return b.Lit(string(buf))
		}
		if k == 1 {
			if lo, hi := b.rng(v); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(pow256(1)) < 0 {
				return b.B1(v)
			}
		}
	}
	if v.op == "b2i" && b.Len(v.args[0]) == n {
		return v.args[0]
	}
	return b.raw("i2b", SBytes, v, n)
}

// mapRange bounds the entries of a map, when known.
func (b *Bank) mapRange(a *Term) (lo, hi *big.Int) {
	switch a.op {
	case "sym":
		return a.sym.vmin, a.sym.vmax
	case "store":
		lo, hi = b.mapRange(a.args[0])
		if lo == nil && hi == nil || a.args[2].sort != SInt {
			return nil, nil
		}
		l, h := b.rng(a.args[2])
		if l == nil || lo == nil {
			lo = nil
		} else if l.Cmp(lo) < 0 {
			lo = l
		}
		if h == nil || hi == nil {
			hi = nil
		} else if h.Cmp(hi) > 0 {
			hi = h
		}
		return
	}
	return nil, nil
}

func ghostRange(m string) (*big.Int, *big.Int) {
	switch m {
	case "SV", "PV", "GV":
		return new(big.Int), new(big.Int).Sub(bigQ, big.NewInt(1))
	case "RV", "FV":
		return new(big.Int), new(big.Int).Sub(bigP, big.NewInt(1))
	}
	return nil, nil
}
