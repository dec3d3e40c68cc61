package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fsMutators are the library calls that change the file system, with the index
// of their path arguments.
var fsMutators = map[string][]int{
	"os.WriteFile": {0}, "os.Create": {0}, "os.OpenFile": {0}, "os.Remove": {0}, "os.RemoveAll": {0},
	"os.Rename": {0, 1}, "os.Mkdir": {0}, "os.MkdirAll": {0}, "os.Truncate": {0}, "os.Chmod": {0}, "os.Chown": {0},
	"os.Symlink": {0, 1}, "os.Link": {0, 1}, "os.Chtimes": {0}, "os.CreateTemp": {0}, "os.MkdirTemp": {0},
	"io/ioutil.WriteFile": {0}, "io/ioutil.TempFile": {0}, "io/ioutil.TempDir": {0},
	"(*os.File).Write": {0}, "(*os.File).WriteString": {0}, "(*os.File).WriteAt": {0}, "(*os.File).Truncate": {0},
}

// reach computes the repository functions from which a call satisfying pred is
// reachable through static calls (closures handed to a call count as called there).
func (p *Program) reach(pred func(name string) bool) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.Funcs {
			if res[fn] {
				continue
			}
			hit := false
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if pred(p.calleeName(c.Common())) {
							hit = true
						}
						for _, cal := range p.Callees(c.Common()) {
							if res[cal] {
								hit = true
							}
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok && res[p.realFunc(mc.Fn.(*ssa.Function))] && calledHere(mc) {
						hit = true
					}
				}
			}
			if hit {
				res[fn] = true
				changed = true
			}
		}
	}
	return res
}

// calledHere tells whether a closure is called, deferred or handed to a call where it is
// made (as opposed to being stored in a table for later).
func calledHere(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		if _, ok := r.(ssa.CallInstruction); ok {
			return true
		}
		if cv, ok := r.(*ssa.ChangeType); ok {
			for _, r2 := range *cv.Referrers() {
				if _, ok := r2.(ssa.CallInstruction); ok {
					return true
				}
			}
		}
	}
	return false
}

// forwardReach lists the repository functions reachable from fn through static calls,
// interface calls and closures it creates.
func (p *Program) forwardReach(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.inRepo(f) || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, cal := range p.Callees(c.Common()) {
						visit(cal)
					}
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Function:
						visit(v)
					case *ssa.MakeClosure:
						visit(p.realFunc(v.Fn.(*ssa.Function)))
					}
				}
			}
		}
	}
	for _, f := range roots {
		visit(f)
	}
	return seen
}

// constVal returns the integer value of a package-level constant.
func (p *Program) constVal(pkg, name string) (int64, bool) {
	pk := p.ByPath[pkg]
	if pk == nil {
		return 0, false
	}
	c, ok := pk.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(c.Val()))
}

const tmplPkg = modPath + "/template"

// optionAtom matches the atom "options[<name>]" whatever the path to the options map.
func (p *Program) optionAtom(name string) *regexp.Regexp {
	v, ok := p.constVal(tmplPkg, name)
	if !ok {
		return nil
	}
	return regexp.MustCompile(fmt.Sprintf(`\[c:%d\]'?$`, v))
}

func (st *State) fact(re *regexp.Regexp) (bool, bool) {
	best := ""
	for k := range st.atoms {
		if re.MatchString(k) && (best == "" || k < best) {
			best = k
		}
	}
	return st.atoms[best], best != ""
}

// established: one of the conditions matching the expression is known to have the value.
func (st *State) established(re *regexp.Regexp, want bool) bool {
	for k, v := range st.atoms {
		if v == want && re.MatchString(k) {
			return true
		}
	}
	return false
}

func hasPrefixAny(s string, pre ...string) bool {
	for _, x := range pre {
		if strings.HasPrefix(s, x) {
			return true
		}
	}
	return false
}

// stringsGlobalWith finds the package-level string-slice variables initialised with all the given literals.
func (p *Program) stringsGlobalWith(pkg string, lits ...string) []*ssa.Global {
	var res []*ssa.Global
	sp := p.SSAPkgs[pkg]
	if sp == nil {
		return nil
	}
	for _, m := range sp.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		for _, st := range p.globStores[g] {
			els, ok := variadic(st.Val)
			if !ok {
				continue
			}
			n := 0
			for _, l := range lits {
				for _, e := range els {
					if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == l {
						n++
						break
					}
				}
			}
			if n == len(lits) {
				res = append(res, g)
			}
		}
	}
	return res
}

// readsGlobal tells whether fn (not its callees) reads g.
func readsGlobal(fn *ssa.Function, g *ssa.Global) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(g) {
					return true
				}
			}
		}
	}
	return false
}

// callsIn iterates the call instructions of fn.
func callsIn(fn *ssa.Function, f func(ssa.CallInstruction)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				f(c)
			}
		}
	}
}

func resultTypes(fn *ssa.Function) []types.Type {
	var r []types.Type
	t := fn.Signature.Results()
	for i := 0; i < t.Len(); i++ {
		r = append(r, t.At(i).Type())
	}
	return r
}

type ssaCallCommon = ssa.CallCommon

// callReach lists the functions reached from root through calls (closures count where they are
// called or handed to a call), with one witness path each.
func (p *Program) callReach(root *ssa.Function) map[*ssa.Function]string {
	res := map[*ssa.Function]string{root: fnName(root)}
	work := []*ssa.Function{root}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		add := func(g *ssa.Function) {
			g = p.realFunc(g)
			if g == nil || len(g.Blocks) == 0 || !p.inRepo(g) {
				return
			}
			if _, ok := res[g]; !ok {
				res[g] = res[f] + " > " + fnName(g)
				work = append(work, g)
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, cal := range p.Callees(c.Common()) {
						add(cal)
					}
					for _, a := range c.Common().Args {
						if fn, ok := a.(*ssa.Function); ok {
							add(fn)
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok && calledHere(mc) {
					add(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	return res
}
