package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/PlatONnetwork/tecdsa"

type World struct {
	prog       *ssa.Program
	pkgs       map[string]*ssa.Package // by short name
	repo       map[*types.Package]bool
	named      []types.Type // all repo named types and pointers to them, for dispatch
	impls      map[string][]types.Type
	tags       map[string]int
	tagType    map[int]types.Type
	globals    map[*ssa.Global]int64
	fns        map[string]*ssa.Function
	layT       map[types.Type][]Leaf
	mu         sync.Mutex
	gmu        sync.Mutex
	extGlobals map[*ssa.Global]int64
	loopc      map[*ssa.Function]map[*ssa.BasicBlock]*LoopInfo
}

func LoadWorld(dir string) (*World, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  dir,
		Env:  os.Environ(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load %s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	w := &World{prog: prog, pkgs: map[string]*ssa.Package{}, repo: map[*types.Package]bool{}, impls: map[string][]types.Type{},
		tags: map[string]int{}, tagType: map[int]types.Type{}, globals: map[*ssa.Global]int64{}, fns: map[string]*ssa.Function{}, layT: map[types.Type][]Leaf{}, extGlobals: map[*ssa.Global]int64{}, loopc: map[*ssa.Function]map[*ssa.BasicBlock]*LoopInfo{}}
	prog.Build()
	for i, sp := range spkgs {
		if sp == nil {
			continue
		}
		if strings.Contains(pkgs[i].PkgPath, "testutils") {
			continue
		}
		w.pkgs[sp.Pkg.Name()] = sp
		w.repo[sp.Pkg] = true
	}
	names := []string{}
	for n := range w.pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	g := int64(0)
	for _, n := range names {
		sp := w.pkgs[n]
		ms := []string{}
		for m := range sp.Members {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			switch x := sp.Members[m].(type) {
			case *ssa.Type:
				t := x.Type()
				if _, ok := t.Underlying().(*types.Interface); ok {
					continue
				}
				if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				w.named = append(w.named, t, types.NewPointer(t))
			case *ssa.Global:
				g++
				w.globals[x] = -g * 64
			}
		}
	}
	for i, t := range w.named {
		w.tags[t.String()] = i + 1
		w.tagType[i+1] = t
	}
	return w, nil
}

func (w *World) tag(t types.Type) int {
	w.gmu.Lock()
	defer w.gmu.Unlock()
	k := t.String()
	if n, ok := w.tags[k]; ok {
		return n
	}
	n := len(w.tags) + 1
	w.tags[k] = n
	w.tagType[n] = t
	return n
}

// implementers lists the repository types that implement an interface.
func (w *World) implementers(it types.Type) []types.Type {
	k := it.String()
	w.gmu.Lock()
	r, ok := w.impls[k]
	w.gmu.Unlock()
	if ok {
		return r
	}
	iface := it.Underlying().(*types.Interface)
	var out []types.Type
	if iface.NumMethods() > 0 && k != "crypto/cipher.Stream" {
		for _, t := range w.named {
			if types.Implements(t, iface) {
				out = append(out, t)
			}
		}
	}
	w.gmu.Lock()
	w.impls[k] = out
	w.gmu.Unlock()
	return out
}

// single reports the only repository implementer (a pointer type), if there is exactly one.
func (w *World) single(it types.Type) types.Type {
	im := w.implementers(it)
	if len(im) == 1 {
		if _, ok := im[0].(*types.Pointer); ok {
			return im[0]
		}
	}
	return nil
}

// opaqueIface: an interface no repository type implements (error, hash.Hash, ...): one opaque reference.
func (w *World) opaqueIface(it types.Type) bool {
	iface := it.Underlying().(*types.Interface)
	return iface.NumMethods() > 0 && len(w.implementers(it)) == 0
}

type Leaf struct {
	name string
	sort Sort
	kind string // ref int bool bytes off len cap tag data func
	typ  types.Type
}

var externFlat = map[string]bool{"native.EllipticPoint": true, "native.Field": true, "native.FieldParams": true}

func shortType(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return s
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (w *World) layout(t types.Type) []Leaf {
	w.mu.Lock()
	l, ok := w.layT[t]
	w.mu.Unlock()
	if ok {
		return l
	}
	l = w.layout1(t)
	w.mu.Lock()
	w.layT[t] = l
	w.mu.Unlock()
	return l
}

func (w *World) layout1(t types.Type) []Leaf {
	pre := func(p string, ls []Leaf) []Leaf {
		out := make([]Leaf, len(ls))
		for i, l := range ls {
			n := p
			if l.name != "" {
				n += "." + l.name
			}
			out[i] = Leaf{n, l.sort, l.kind, l.typ}
		}
		return out
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, "bool", t}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", SBytes, "bytes", t}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{"", SInt, "ref", t}}
		}
		return []Leaf{{"", SInt, "int", t}}
	case *types.Pointer, *types.Map, *types.Chan:
		return []Leaf{{"", SInt, "ref", t}}
	case *types.Signature:
		return []Leaf{{"", SInt, "func", t}}
	case *types.Slice:
		return []Leaf{{"arr", SInt, "ref", t}, {"off", SInt, "off", t}, {"len", SInt, "len", t}, {"cap", SInt, "cap", t}}
	case *types.Interface:
		if w.single(t) != nil || w.opaqueIface(t) {
			return []Leaf{{"", SInt, "ref", t}}
		}
		return []Leaf{{"tag", SInt, "tag", t}, {"data", SInt, "data", t}}
	case *types.Struct:
		if n, ok := t.(*types.Named); ok {
			if p := n.Obj().Pkg(); p != nil && !w.repo[p] && !externFlat[shortType(t)] {
				return nil
			}
		}
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			out = append(out, pre(f.Name(), w.layout(f.Type()))...)
		}
		return out
	case *types.Array:
		if isByteType(u.Elem()) {
			return []Leaf{{"", SBytes, "bytes", t}}
		}
		var out []Leaf
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, pre(fmt.Sprintf("%d", i), w.layout(u.Elem()))...)
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			out = append(out, pre(fmt.Sprintf("r%d", i), w.layout(u.At(i).Type()))...)
		}
		return out
	}
	panic("layout of " + t.String())
}

// byteArrays lists the positions (leaf indices) of byte arrays inside a type stored in memory.
func (w *World) byteArrays(t types.Type) []int {
	var out []int
	for i, l := range w.layout(t) {
		if l.kind == "bytes" {
			if _, ok := l.typ.Underlying().(*types.Array); ok {
				out = append(out, i)
			}
		}
	}
	return out
}

func (w *World) fieldOffset(st *types.Struct, i int) int {
	n := 0
	for j := 0; j < i; j++ {
		n += len(w.layout(st.Field(j).Type()))
	}
	return n
}

// fnKey names a function independently of its import path.
func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if recv := fn.Signature.Recv(); recv != nil {
		return "(" + stripTypeArgs(shortType(recv.Type())) + ")." + fn.Name()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Name() + "." + fn.Name()
	}
	if fn.Parent() != nil {
		return fnKey(fn.Parent()) + "$" + fn.Name()
	}
	return fn.String()
}

func stripTypeArgs(s string) string {
	var sb strings.Builder
	d := 0
	for _, c := range s {
		if c == '[' {
			d++
		}
		if d == 0 {
			sb.WriteRune(c)
		}
		if c == ']' {
			d--
		}
	}
	r := sb.String()
	if r == "" || r == "*" {
		return s
	}
	return r
}

func methodKey(recv types.Type, name string) string {
	return "(" + stripTypeArgs(shortType(recv)) + ")." + name
}
