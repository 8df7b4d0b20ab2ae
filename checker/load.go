package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked source of the repository.
type Program struct {
	pkgs  []*packages.Package
	ssa   *ssa.Program
	fset  *token.FileSet
	byP   map[string]*ssa.Package
	tpkgs map[string]*packages.Package
	funcs []*ssa.Function // of the module, without generated wrappers
	impls map[string][]types.Type
	capt  map[string]*capturedFunc
	cands map[string][]*ssa.Function
	mu    sync.Mutex
	refs  map[*ssa.Function]bool // referred to by other functions
	dir   string
	ret   bool // calls that return an error give events
}

// Load type-checks and builds the packages of the repository as they are on disk.
func Load(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{pkgs: pkgs, ssa: prog, fset: prog.Fset, byP: map[string]*ssa.Package{}, tpkgs: map[string]*packages.Package{},
		impls: map[string][]types.Type{}, cands: map[string][]*ssa.Function{}, dir: dir}
	for i, p := range pkgs {
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		P.byP[p.PkgPath] = spkgs[i]
		P.tpkgs[p.PkgPath] = p
	}
	for fn := range ssautil.AllFunctions(prog) {
		if inModule(fn) && fn.Synthetic == "" && len(fn.Blocks) > 0 {
			P.funcs = append(P.funcs, fn)
		}
	}
	sort.Slice(P.funcs, func(i, j int) bool {
		a, b := P.funcs[i], P.funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return P, nil
}

func (p *Program) pkg(path string) *ssa.Package { return p.byP[path] }

// fn finds a function ("NewX") or method ("(*T).M", "T.M") of a package, nil if it
// does not exist.
func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.byP[pkg]
	if sp == nil {
		return nil
	}
	if !strings.Contains(name, ".") {
		return sp.Func(name)
	}
	name = strings.TrimPrefix(name, "(")
	ptr := strings.HasPrefix(name, "*")
	name = strings.TrimPrefix(name, "*")
	name = strings.Replace(name, ")", "", 1)
	parts := strings.SplitN(name, ".", 2)
	o := sp.Pkg.Scope().Lookup(parts[0])
	if o == nil {
		return nil
	}
	var t types.Type = o.Type()
	if ptr {
		t = types.NewPointer(t)
	}
	ms := p.ssa.MethodSets.MethodSet(t)
	sel := ms.Lookup(sp.Pkg, parts[1])
	if sel == nil {
		return nil
	}
	return p.ssa.MethodValue(sel)
}

func (p *Program) named(pkg, name string) *types.Named {
	sp := p.byP[pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// implementers lists the concrete types of the module that implement an interface.
func (p *Program) implementers(iface types.Type) []types.Type {
	k := typeStr(iface)
	p.mu.Lock()
	defer p.mu.Unlock()
	if r, ok := p.impls[k]; ok {
		return r
	}
	it, _ := iface.Underlying().(*types.Interface)
	var out []types.Type
	var paths []string
	for path := range p.byP {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	if it != nil {
		for _, path := range paths {
			if strings.Contains(path, "/examples/") {
				continue
			}
			sc := p.byP[path].Pkg.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() {
					continue
				}
				if _, isI := tn.Type().Underlying().(*types.Interface); isI {
					continue
				}
				if types.Implements(tn.Type(), it) {
					out = append(out, tn.Type())
				} else if pt := types.NewPointer(tn.Type()); types.Implements(pt, it) {
					out = append(out, pt)
				}
			}
		}
	}
	p.impls[k] = out
	return out
}

// funcCands lists the functions of the module of a signature whose address is taken.
// capturedFunc is a function in a captured variable.
type capturedFunc struct {
	fn   *ssa.Function
	same map[int]int // the variables it has captured that the capturing closure has, too
	of   *ssa.Function
}

// capturedFuncs maps variables of functions of the module that are captured by their
// closures to the only function they ever hold: it is stored once, in the block that
// captures the variable and before it, and nothing else is done with the variable but
// reading it.
func (p *Program) capturedFuncs() map[string]*capturedFunc {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.capt != nil {
		return p.capt
	}
	p.capt = map[string]*capturedFunc{}
	lost := map[string]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for n, in := range b.Instrs {
				mc, ok := in.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				fn := mc.Fn.(*ssa.Function)
				for j, v := range mc.Bindings {
					k := freeVarName(fn, j)
					var h ssa.Value
					if al, ok := v.(*ssa.Alloc); ok {
						h = onlyFunc(al, b.Instrs[:n])
					}
					if h == nil || lost[k] || p.capt[k] != nil {
						lost[k] = true
						delete(p.capt, k)
						continue
					}
					c := &capturedFunc{of: fn, same: map[int]int{}}
					if inner, ok := h.(*ssa.MakeClosure); ok {
						c.fn = inner.Fn.(*ssa.Function)
						for x, v := range inner.Bindings {
							for y, w := range mc.Bindings {
								if v == w {
									c.same[x] = y
								}
							}
						}
					} else {
						c.fn = h.(*ssa.Function)
					}
					p.capt[k] = c
				}
			}
		}
	}
	return p.capt
}

func onlyFunc(v *ssa.Alloc, before []ssa.Instruction) ssa.Value {
	var h ssa.Value
	for _, in := range *v.Referrers() {
		switch in := in.(type) {
		case *ssa.Store:
			if in.Addr != v || h != nil {
				return nil
			}
			switch x := in.Val.(type) {
			case *ssa.Function, *ssa.MakeClosure:
				h = x
			}
			first := false
			for _, b := range before {
				first = first || b == ssa.Instruction(in)
			}
			if h == nil || !first {
				return nil
			}
		case *ssa.MakeClosure:
			for i, b := range in.Bindings {
				if b == ssa.Value(v) && !onlyRead(in.Fn.(*ssa.Function).FreeVars[i]) {
					return nil
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return h
}

func onlyRead(v *ssa.FreeVar) bool {
	for _, in := range *v.Referrers() {
		switch in := in.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for i, b := range in.Bindings {
				if b == ssa.Value(v) && !onlyRead(in.Fn.(*ssa.Function).FreeVars[i]) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (p *Program) funcCands(sig *types.Signature) []*ssa.Function {
	k := sigKey(sig)
	p.mu.Lock()
	defer p.mu.Unlock()
	if r, ok := p.cands[k]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(v ssa.Value) {
		f, ok := v.(*ssa.Function)
		if !ok || seen[f] || !inModule(f) || strings.Contains(f.String(), "/examples/") {
			return
		}
		if sigKey(f.Signature) == k {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn)
				}
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && *op != callee {
						add(*op)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, a := range c.Common().Args {
						add(a)
					}
				}
			}
		}
	}
	p.cands[k] = out
	return out
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// sigKey identifies a signature without the names of its parameters.
func sigKey(s *types.Signature) string {
	k := fmt.Sprint(s.Variadic())
	for i := 0; i < s.Params().Len(); i++ {
		k += "," + typeStr(s.Params().At(i).Type())
	}
	k += ")"
	for i := 0; i < s.Results().Len(); i++ {
		k += "," + typeStr(s.Results().At(i).Type())
	}
	return k
}

// constVal is the value of an integer constant of a package.
func (p *Program) constVal(pkg, name string) *big.Int {
	sp := p.byP[pkg]
	if sp == nil {
		return nil
	}
	c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return nil
	}
	v := constant.ToInt(c.Val())
	if v.Kind() != constant.Int {
		return nil
	}
	n, ok := new(big.Int).SetString(v.ExactString(), 10)
	if !ok {
		return nil
	}
	return n
}

// unused: a function of the module that is not exported and that nothing refers to.
func (p *Program) unused(f *ssa.Function) bool {
	if f.Parent() != nil || f.Signature.Recv() != nil || f.Object() == nil || f.Object().Exported() || f.Name() == "init" || f.Name() == "main" {
		return false
	}
	for _, g := range p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(f) && g != f {
						return false
					}
				}
			}
		}
	}
	return true
}

// fieldStores lists the instructions that change a field of a struct of a package,
// or let its address out.
func (p *Program) fieldStores(pkg string, is func(typ, field string) bool) []ssa.Instruction {
	var out []ssa.Instruction
	for _, f := range p.funcs {
		if strings.Contains(f.String(), "/examples/") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					n := namedOf(x.X.Type())
					st, ok := x.X.Type().Underlying().(*types.Pointer)
					if !ok || n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != pkg {
						continue
					}
					s, ok := st.Elem().Underlying().(*types.Struct)
					if !ok || !is(n.Obj().Name(), s.Field(x.Field).Name()) {
						continue
					}
					for _, r := range *x.Referrers() {
						switch r.(type) {
						case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
							continue
						}
						out = append(out, r)
					}
				case *ssa.Store:
					n := namedOf(x.Val.Type())
					if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != pkg {
						continue
					}
					s, ok := n.Underlying().(*types.Struct)
					if !ok {
						continue
					}
					if _, isp := x.Val.Type().(*types.Pointer); isp {
						continue
					}
					for i := 0; i < s.NumFields(); i++ {
						if is(n.Obj().Name(), s.Field(i).Name()) {
							out = append(out, x)
							break
						}
					}
				}
			}
		}
	}
	return out
}

// where names a function.
func (p *Program) where(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), modPath+".", "")
}
