package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// modPath is the import path of the analysed module.
const modPath = "github.com/coveooss/gotemplate/v3"

// Program is the resolved program every rule works on: the type-checked
// packages of /repo (no test files) and their SSA form.
type Program struct {
	Dir     string
	Fset    *token.FileSet
	Pkgs    []*packages.Package
	ByPath  map[string]*packages.Package
	SSA     *ssa.Program
	SSAPkgs map[string]*ssa.Package
	Funcs   []*ssa.Function // every function with a body declared in /repo, closures included

	aliases    map[*ssa.Global]*ssa.Function // package-level func variables bound once, at init
	globStores map[*ssa.Global][]*ssa.Store
	callers    map[*ssa.Function][]ssa.CallInstruction
	replFields map[string]bool
	implCache  map[string][]*ssa.Function
	eff        *effects
	locks      *lockAnalysis
}

func load(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check failure: %s", strings.Join(errs, "; "))
	}
	renamedFields(pkgs)
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Dir: dir, Fset: prog.Fset, Pkgs: pkgs, SSA: prog,
		ByPath: map[string]*packages.Package{}, SSAPkgs: map[string]*ssa.Package{},
		aliases: map[*ssa.Global]*ssa.Function{}, globStores: map[*ssa.Global][]*ssa.Store{},
		callers: map[*ssa.Function][]ssa.CallInstruction{}, implCache: map[string][]*ssa.Function{}}
	for i, pk := range pkgs {
		p.ByPath[pk.PkgPath] = pk
		p.SSAPkgs[pk.PkgPath] = spkgs[i]
	}
	all := ssautil.AllFunctions(prog)
	for fn := range all {
		liftResults(fn)
	}
	forwarders := redirect(all, p.inRepo)
	inlineHelpers(all, p.inRepo, forwarders)
	for fn := range all {
		if forwarders[fn] {
			continue
		}
		if len(fn.Blocks) > 0 && p.inRepo(fn) && (fn.Synthetic == "" || fn.Synthetic == "package initializer" || fn.Origin() != nil) {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	// Package-level function variables (must = errors.Must, Print = multicolor.Print ...)
	for fn := range all {
		if forwarders[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						p.globStores[g] = append(p.globStores[g], st)
					}
				}
			}
		}
	}
	for g, sts := range p.globStores {
		if len(sts) != 1 {
			continue
		}
		if f := p.funcValue(sts[0].Val, 0); f != nil {
			p.aliases[g] = f
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, cal := range p.Callees(c.Common()) {
						p.callers[cal] = append(p.callers[cal], c)
					}
				}
			}
		}
	}
	return p, nil
}

func (p *Program) inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg == nil {
		return false
	}
	return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
}

// funcValue resolves a value to the one function it denotes, following
// single-assignment globals and locals.
func (p *Program) funcValue(v ssa.Value, depth int) *ssa.Function {
	if depth > 6 || v == nil {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Function:
		return v
	case *ssa.MakeClosure:
		return p.realFunc(v.Fn.(*ssa.Function))
	case *ssa.ChangeType:
		return p.funcValue(v.X, depth+1)
	case *ssa.MakeInterface:
		return p.funcValue(v.X, depth+1)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return nil
		}
		switch a := v.X.(type) {
		case *ssa.Global:
			if f := p.aliases[a]; f != nil {
				return f
			}
			if sts := p.globStores[a]; len(sts) == 1 {
				return p.funcValue(sts[0].Val, depth+1)
			}
		case *ssa.Alloc:
			if st := onlyStore(a); st != nil {
				return p.funcValue(st.Val, depth+1)
			}
		case *ssa.FreeVar:
			if al := freeVarAlloc(a); al != nil {
				if st := onlyStore(al); st != nil {
					return p.funcValue(st.Val, depth+1)
				}
			}
		}
	case *ssa.FreeVar:
		if b := freeVarBinding(v); b != nil {
			return p.funcValue(b, depth+1)
		}
	}
	return nil
}

// realFunc maps a bound-method wrapper to the method it wraps.
func (p *Program) realFunc(fn *ssa.Function) *ssa.Function {
	if strings.HasPrefix(fn.Synthetic, "bound method wrapper") {
		if obj, ok := fn.Object().(*types.Func); ok {
			if f := p.SSA.FuncValue(obj); f != nil {
				return f
			}
		}
	}
	return fn
}

// freeVarBinding returns the value bound to a free variable when the closure is made at one place.
func freeVarBinding(v *ssa.FreeVar) ssa.Value {
	fn := v.Parent()
	if fn.Parent() == nil {
		return nil
	}
	idx := -1
	for i, fv := range fn.FreeVars {
		if fv == v {
			idx = i
		}
	}
	var found ssa.Value
	n := 0
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				found = mc.Bindings[idx]
				n++
			}
		}
	}
	if n == 1 {
		return found
	}
	return nil
}

func freeVarAlloc(v *ssa.FreeVar) *ssa.Alloc {
	b := freeVarBinding(v)
	switch b := b.(type) {
	case *ssa.Alloc:
		return b
	case *ssa.FreeVar:
		return freeVarAlloc(b)
	}
	return nil
}

// onlyStore returns the single store to an alloc (closures included).
func onlyStore(a *ssa.Alloc) *ssa.Store {
	sts := allStores(a)
	if len(sts) == 1 {
		return sts[0]
	}
	return nil
}

func allStores(a *ssa.Alloc) []*ssa.Store {
	var res []*ssa.Store
	var visit func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	visit = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					res = append(res, r)
				}
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == v {
						visit(r.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			}
		}
	}
	visit(a)
	return res
}

// Callees resolves a call to the repository or library functions it may reach:
// static callees, function variables bound once, and, for interface calls, the
// implementations declared in the repository.
func (p *Program) Callees(c *ssa.CallCommon) []*ssa.Function {
	if f := p.Callee(c); f != nil {
		return []*ssa.Function{f}
	}
	if c.IsInvoke() {
		return p.Implementations(c)
	}
	return nil
}

// Callee resolves a call to its only possible callee, or nil.
func (p *Program) Callee(c *ssa.CallCommon) *ssa.Function {
	if c.IsInvoke() {
		return nil
	}
	if f := c.StaticCallee(); f != nil {
		return f
	}
	return p.funcValue(c.Value, 0)
}

// Implementations lists the repository methods an interface call may dispatch to.
func (p *Program) Implementations(c *ssa.CallCommon) []*ssa.Function {
	iface, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := c.Value.Type().String() + "." + c.Method.Name()
	if r, ok := p.implCache[key]; ok {
		return r
	}
	var res []*ssa.Function
	for _, sp := range p.sortedSSAPkgs() {
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			tm, ok := sp.Members[n].(*ssa.Type)
			if !ok || types.IsInterface(tm.Type()) {
				continue
			}
			for _, t := range []types.Type{tm.Type(), types.NewPointer(tm.Type())} {
				if types.Implements(t, iface) {
					if f := p.SSA.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); f != nil {
						res = append(res, f)
					}
					break
				}
			}
		}
	}
	p.implCache[key] = res
	return res
}

func (p *Program) sortedSSAPkgs() []*ssa.Package {
	var r []*ssa.Package
	for _, sp := range p.SSAPkgs {
		if sp != nil {
			r = append(r, sp)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pkg.Path() < r[j].Pkg.Path() })
	return r
}

// calleeName is the qualified name used by rules: "os.WriteFile",
// "(*template.Template).IsCode", "invoke collections.IDictionary.Clone", "builtin append".
func (p *Program) calleeName(c *ssa.CallCommon) string {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name()
	}
	if f := p.Callee(c); f != nil {
		return fnName(f)
	}
	if c.IsInvoke() {
		return "invoke " + shortType(c.Value.Type()) + "." + c.Method.Name()
	}
	if u, ok := c.Value.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			return "var " + shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
		}
	}
	return "dynamic"
}

func fnName(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	for i := 0; i < 10 && forwardName[f] != nil; i++ {
		f = forwardName[f]
	}
	if n, ok := funcAlias[f]; ok {
		return n
	}
	s := f.RelString(nil)
	s = strings.TrimSuffix(s, "$bound")
	return shorten(s)
}

func shorten(s string) string {
	return strings.ReplaceAll(s, modPath+"/", "")
}

func shortPkg(path string) string {
	if path == modPath {
		return "main"
	}
	return strings.TrimPrefix(path, modPath+"/")
}

func shortType(t types.Type) string {
	return shorten(types.TypeString(t, nil))
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func (p *Program) instrPos(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	// fall back to the closest positioned instruction of the block, then the function
	b := in.Block()
	if b != nil {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return p.pos(i.Pos())
			}
		}
	}
	return p.pos(in.Parent().Pos())
}

// fn finds a repository function by short name, e.g. "template.NewTemplate" or
// "(*template.Template).init".
func (p *Program) fn(name string) *ssa.Function {
	for _, f := range p.Funcs {
		if f.Parent() == nil && fnName(f) == name {
			if g := forwardTo[f]; g != nil {
				return g
			}
			return f
		}
	}
	return nil
}

// enclosing returns the declared function containing fn (itself when it is not a closure).
func enclosing(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// variadic returns the original element values of a compiler-built argument slice.
func variadic(v ssa.Value) ([]ssa.Value, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	pt, ok := al.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	arr, ok := pt.Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	res := make([]ssa.Value, arr.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		c, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
				res[c.Int64()] = st.Val
			}
		}
	}
	for _, r := range res {
		if r == nil {
			return nil, false
		}
	}
	return res, true
}

// unwrap strips interface conversions.
func unwrap(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return v
		}
	}
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// fileOf returns the syntax file of a package containing pos.
func (p *Program) fileOf(pos token.Pos) *ast.File {
	for _, pk := range p.Pkgs {
		for _, f := range pk.Syntax {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return f
			}
		}
	}
	return nil
}
