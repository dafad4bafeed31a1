package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the analysed program.
type Prog struct {
	sharedVars  []*ssa.Global
	dir         string
	prog        *ssa.Program
	pkgs        map[string]*ssa.Package // by path relative to the module ("" is the root)
	sizes       types.Sizes
	loops       map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	lenAlias    func(s *State, t *Term) *Term
	mapAlias    func(m *Term) *Term
	syncKeys    map[string]types.Type
	syncTypes   map[string]types.Type
	init        *State
	inits       map[string][]*State // what the initialisers of each package may do
	writtenOnce sync.Once
	written     map[string]bool // types of objects that are changed where they were not made
	initSerial  int             // objects up to this number are made when the program starts
	initNonNil  map[*Term]bool
	funcs       []*ssa.Function // all functions with bodies of the module
	errs        []string
	goarch      string
}

func load(dir, goos, goarch string) (*Prog, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "CGO_ENABLED=0")
	if goos != "" {
		env = append(env, "GOOS="+goos)
	}
	if goarch != "" {
		env = append(env, "GOARCH="+goarch)
	}
	intBits = 64
	if goarch == "386" || goarch == "arm" || goarch == "mips" || goarch == "mipsle" {
		intBits = 32
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{dir: dir, pkgs: map[string]*ssa.Package{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, syncTypes: map[string]types.Type{}, syncKeys: map[string]types.Type{}, goarch: goarch}
	packages.Visit(ps, nil, func(q *packages.Package) {
		for _, e := range q.Errors {
			p.errs = append(p.errs, e.Error())
		}
	})
	if len(p.errs) > 0 {
		return p, fmt.Errorf("the code does not type-check: %s", strings.Join(p.errs[:min(3, len(p.errs))], "; "))
	}
	prog, sps := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	for _, sp := range sps {
		if sp != nil {
			sp.Build()
		}
	}
	for _, path := range []string{"maps", "slices"} {
		if sp := prog.ImportedPackage(path); sp != nil {
			sp.Build()
		}
	}
	p.prog = prog
	for i, sp := range sps {
		if sp == nil {
			return p, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(ps[i].PkgPath, modPath), "/")
		p.pkgs[rel] = sp
		p.sizes = ps[i].TypesSizes
	}
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.Blocks) > 0 && inModule(fn) {
			p.funcs = append(p.funcs, fn)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		a, b := p.funcs[i], p.funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	p.findSyncTypes()
	return p, nil
}

func (p *Prog) posStr(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.prog.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d:%d", f, q.Line, q.Column)
}

// loopAt gives the natural loop with header b, if there is one.
func (p *Prog) loopAt(b *ssa.BasicBlock) *loopInfo {
	fn := b.Parent()
	m, ok := p.loops[fn]
	if !ok {
		m = map[*ssa.BasicBlock]*loopInfo{}
		for _, x := range fn.Blocks {
			for _, h := range x.Succs {
				if !h.Dominates(x) {
					continue
				}
				li := m[h]
				if li == nil {
					li = &loopInfo{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					m[h] = li
				}
				work := []*ssa.BasicBlock{x}
				for len(work) > 0 {
					y := work[len(work)-1]
					work = work[:len(work)-1]
					if li.blocks[y] {
						continue
					}
					li.blocks[y] = true
					work = append(work, y.Preds...)
				}
			}
		}
		p.loops[fn] = m
	}
	return m[b]
}

// findSyncTypes finds the type of the values each sync.Map field holds.
func (p *Prog) findSyncTypes() {
	bad := map[string]bool{}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := c.Common().StaticCallee()
				if f == nil {
					continue
				}
				n := funcName(f)
				idx := -1
				if strings.HasPrefix(n, "(*sync.Map).") && len(c.Common().Args) > 1 {
					p.syncKey(c.Common().Args[0], c.Common().Args[1])
				}
				switch n {
				case "(*sync.Map).Store", "(*sync.Map).LoadOrStore", "(*sync.Map).Swap":
					idx = 2
				case "(*sync.Map).CompareAndSwap":
					idx = 3
				}
				if idx < 0 {
					continue
				}
				owner := ""
				if fa, ok := c.Common().Args[0].(*ssa.FieldAddr); ok {
					owner = typeKey(fa.X.Type().(*types.Pointer).Elem()) + "." + itoa(fa.Field)
				}
				mi, ok := c.Common().Args[idx].(*ssa.MakeInterface)
				if !ok {
					bad[owner] = true
					continue
				}
				if t := p.syncTypes[owner]; t != nil && !types.Identical(t, mi.X.Type()) {
					bad[owner] = true
				}
				p.syncTypes[owner] = mi.X.Type()
			}
		}
	}
	for o := range bad {
		delete(p.syncTypes, o)
	}
}

// syncKey notes the type of a key used with a sync.Map; nil if there are several.
func (p *Prog) syncKey(m, k ssa.Value) {
	fa, ok1 := m.(*ssa.FieldAddr)
	mi, ok2 := k.(*ssa.MakeInterface)
	if !ok1 || !ok2 {
		return
	}
	owner := typeKey(fa.X.Type().(*types.Pointer).Elem()) + "." + itoa(fa.Field)
	if t, ok := p.syncKeys[owner]; ok && (t == nil || !types.Identical(t, mi.X.Type())) {
		p.syncKeys[owner] = nil
		return
	}
	p.syncKeys[owner] = mi.X.Type()
}

// runInit evaluates the package initialisers: the values of package level variables.
func (p *Prog) runInit() error {
	e := NewEngine(p)
	e.record = false
	p.inits = map[string][]*State{}
	s := newState(e)
	var names []string
	for n := range p.pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for _, m := range p.pkgs[n].Members {
			if g, ok := m.(*ssa.Global); ok {
				t := g.Type().(*types.Pointer).Elem()
				s.store(intern(Term{op: OGlobal, glob: g}), zero(t), t)
			}
		}
	}
	for _, n := range names {
		fn := p.pkgs[n].Func("init")
		if fn == nil {
			continue
		}
		outs := e.Call(s, fn, nil, nil, 0, nil)
		var ok []Outcome
		for _, o := range outs {
			if !o.panicked {
				ok = append(ok, o)
			}
		}
		if len(ok) == 0 {
			return fmt.Errorf("initialisation of package %q could not be evaluated", n)
		}
		for _, o := range ok {
			p.inits[n] = append(p.inits[n], o.st)
		}
		s = ok[0].st.clone()
		s.events = nil
	}
	p.init = s
	p.initSerial = newSerial()
	p.initNonNil = e.nonNil
	// globals assigned outside of initialisers are unknown
	for _, fn := range p.funcs {
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						delete(s.mem, intern(Term{op: OGlobal, glob: g}))
					}
				}
			}
		}
	}
	// nor is anything known about what is changed in place
	stored := map[*Term]bool{}
	for k := range s.mem {
		stored[k] = true
	}
	for _, g := range p.shared() {
		if a := intern(Term{op: OGlobal, glob: g}); stored[a] || structOf(g.Type().(*types.Pointer).Elem()) != nil {
			s.forget(g)
		}
	}
	p.init = s
	return nil
}

// shared are the package variables whose contents change after initialisation.
func (p *Prog) shared() []*ssa.Global {
	if p.sharedVars != nil {
		return p.sharedVars
	}
	set := map[*ssa.Global]bool{}
	add := func(v ssa.Value) {
		if g := globalOf(v); g != nil && g.Pkg != nil && p.pkgs[strings.TrimPrefix(strings.TrimPrefix(g.Pkg.Pkg.Path(), modPath), "/")] == g.Pkg {
			set[g] = true
		}
	}
	for _, fn := range p.funcs {
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					add(in.Addr)
				case *ssa.MapUpdate:
					add(in.Map)
				case ssa.CallInstruction:
					cm := in.Common()
					bi, builtin := cm.Value.(*ssa.Builtin)
					if builtin && bi.Name() != "delete" && bi.Name() != "clear" && bi.Name() != "copy" {
						continue
					}
					f := cm.StaticCallee()
					for _, a := range cm.Args {
						_, loaded := a.(*ssa.UnOp)
						pt, ptr := under(a.Type()).(*types.Pointer)
						switch {
						case builtin:
							add(a)
						case ptr && !loaded && !isSyncType(pt.Elem()):
							add(a)
						case ptr && loaded && f != nil && inModule(f):
							add(a)
						}
					}
				}
			}
		}
	}
	p.sharedVars = []*ssa.Global{}
	for g := range set {
		p.sharedVars = append(p.sharedVars, g)
	}
	sort.Slice(p.sharedVars, func(i, j int) bool { return p.sharedVars[i].String() < p.sharedVars[j].String() })
	return p.sharedVars
}

// start gives an entry state for an engine.
func (p *Prog) start(e *Engine) *State {
	s := p.init.clone()
	s.eng = e
	s.events = nil
	for k, v := range p.initNonNil {
		e.nonNil[k] = v
	}
	return s
}

// fn finds a function "pkg.Name" or a method "pkg.(*T).Name" / "pkg.T.Name".
func (p *Prog) fn(pkg, recv, name string) *ssa.Function {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	if recv == "" {
		return sp.Func(name)
	}
	o := sp.Pkg.Scope().Lookup(recv)
	if o == nil {
		return nil
	}
	for _, t := range []types.Type{types.NewPointer(o.Type()), o.Type()} {
		ms := p.prog.MethodSets.MethodSet(t)
		if sel := ms.Lookup(sp.Pkg, name); sel != nil {
			return p.prog.MethodValue(sel)
		}
	}
	return nil
}

func (p *Prog) typ(pkg, name string) types.Type {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}
