package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22", "Interprocedural lockset analysis: the package variables changed after initialisation, and the locks held at each access of them.", ruleC22,
		"storage reached through parameters and fields of values other than package variables is not package state",
		"library functions call the functions they receive before they return")
	register("C23", "Interprocedural lockset analysis: locks held at every exit, at every acquisition and at every release.", ruleC23,
		"library functions call the functions they receive before they return; the template engine calls only functions registered as plain function values")
}

type access struct {
	fn    *ssa.Function
	in    ssa.Instruction
	write bool
	locks lockSet
}

func (a *lockAnalysis) initOnly() map[*ssa.Function]bool {
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, fn := range a.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, t := range a.calls(c) {
						if callers[t] == nil {
							callers[t] = map[*ssa.Function]bool{}
						}
						callers[t][fn] = true
					}
				}
			}
		}
	}
	res := map[*ssa.Function]bool{}
	for fn := range a.initFn {
		res[fn] = true
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range a.funcs {
			if res[fn] || a.open[fn] || len(callers[fn]) == 0 {
				continue
			}
			all := true
			for c := range callers[fn] {
				all = all && res[c]
			}
			if all {
				res[fn] = true
				changed = true
			}
		}
	}
	return res
}

func syncType(t types.Type) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	s := t.String()
	return strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "sync/atomic.")
}

// packageVar: the path of the storage, when it starts at a package variable of the repository.
func (p *Program) packageVar(v ssa.Value) string {
	root := v
	for depth := 0; depth < 10 && root != nil; depth++ {
		switch x := root.(type) {
		case *ssa.Global:
			if strings.HasPrefix(x.Pkg.Pkg.Path(), modPath) && !strings.Contains(x.Name(), "$") {
				return varPath(v, 0)
			}
			return ""
		case *ssa.FieldAddr:
			root = x.X
		case *ssa.Field:
			root = x.X
		case *ssa.IndexAddr:
			root = x.X
		case *ssa.Slice:
			root = x.X
		case *ssa.ChangeType:
			root = x.X
		case *ssa.UnOp:
			root = x.X
			if al, ok := x.X.(*ssa.Alloc); ok {
				st := onlyStore(al)
				if st == nil {
					return ""
				}
				root = st.Val
			}
		case *ssa.FreeVar:
			root = freeVarBinding(x)
		default:
			return ""
		}
	}
	return ""
}

func ruleC22(p *Program, r *Report) {
	r.rule("a package variable written (or whose map or slice is written) outside of initialisation is accessed, everywhere outside of initialisation, with one same lock held")
	a := p.locksOf()
	initOnly := a.initOnly()
	vars := map[string][]access{}
	written := map[string]bool{}
	for _, fn := range a.funcs {
		fl := a.must[fn]
		if fl == nil || initOnly[fn] || fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main" || fn.Parent() != nil && enclosing(fn).Pkg != nil && enclosing(fn).Pkg.Pkg.Name() == "main" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var target ssa.Value
				write := false
				switch in := in.(type) {
				case *ssa.Store:
					target, write = in.Addr, true
				case *ssa.MapUpdate:
					target, write = in.Map, true
				case *ssa.UnOp:
					if _, isG := in.X.(*ssa.Global); isG || p.packageVar(in.X) != "" {
						target = in.X
					}
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && len(in.Call.Args) > 0 && (bi.Name() == "delete" || bi.Name() == "clear" || bi.Name() == "copy") {
						target, write = in.Call.Args[0], true
					}
				}
				if target == nil || syncType(target.Type()) {
					continue
				}
				key := p.packageVar(target)
				if key == "" {
					continue
				}
				vars[key] = append(vars[key], access{fn, in, write, fl.at[in]})
				written[key] = written[key] || write
			}
		}
	}
	var keys []string
	for k := range written {
		if written[k] {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	r.need("package variables changed after initialisation", len(keys), 3)
	for _, k := range keys {
		count := map[string]int{}
		for _, x := range vars[k] {
			for l := range x.locks {
				base := strings.TrimSuffix(l, "/R")
				if base == l || !x.write {
					count[base]++
				}
			}
		}
		best := ""
		for l, n := range count {
			if best == "" || n > count[best] || n == count[best] && l < best {
				best = l
			}
		}
		r.sample("%s: %d access(es), lock %s", k, len(vars[k]), best)
		for _, x := range vars[k] {
			if best != "" && (x.locks[best] || !x.write && x.locks[best+"/R"]) {
				r.ok("%s in %s", k, fnName(x.fn))
				continue
			}
			what := "read"
			if x.write {
				what = "written"
			}
			with := "any lock"
			if best != "" {
				with = best
			}
			r.bad("unlocked|"+k+"|"+fnName(enclosing(x.fn)), p.instrPos(x.in), "the package variable %s, changed while templates are used, is %s by %s without holding %s", k, what, fnName(x.fn), with)
		}
	}
}

func ruleC23(p *Program, r *Report) {
	r.rule("a function ends with the same locks on every path, and no function callable from outside keeps one")
	r.rule("no lock is taken while it may be held already, released while it is not held, and no two locks are taken in both orders")
	r.rule("while a lock is held whose release is not deferred, nothing is called that may panic (explicit panics, must functions, unchecked conversions, functions received from elsewhere, library functions panicking on bad values)")
	a := p.locksOf()
	order := map[string]map[string]string{}
	ops, regions := 0, 0
	for _, fn := range a.funcs {
		may, must := a.may[fn], a.must[fn]
		if may == nil || must == nil {
			continue
		}
		entry := a.entry[false][fn]
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for l := range must.at[in] {
					if entry[l] || must.deferred[in][l] || must.deferred[in]["*"] || strings.HasSuffix(l, "/once") {
						continue
					}
					regions++
					if why := p.panics().at(in); why != "" {
						r.bad("panic|"+l+"|"+fnName(fn), p.instrPos(in), "%s holds %s, whose release is not deferred, while calling something that may panic: %s", fnName(fn), l, why)
					}
				}
			}
		}
		takes := len(may.acquires) > 0 || len(may.releases) > 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				l, op := p.lockOp(c.Common())
				if op == "" || op == "Do" {
					continue
				}
				ops++
				name := lockName(l, op)
				if _, isD := in.(*ssa.Defer); isD {
					continue
				}
				if strings.HasSuffix(op, "Unlock") {
					if !must.at[in][name] {
						r.bad("release|"+name+"|"+fnName(fn), p.instrPos(in), "%s releases %s, which is not held on every path reaching it", fnName(fn), name)
					} else {
						r.ok("%s releases %s, which it holds", fnName(fn), name)
					}
					continue
				}
				held := may.at[in]
				base := strings.TrimSuffix(name, "/R")
				if l != "" && !strings.HasPrefix(l, "(") && (held[base] || held[base+"/R"]) {
					r.bad("twice|"+base+"|"+fnName(fn), p.instrPos(in), "%s takes %s, which may be held already: it would wait for itself", fnName(fn), base)
				} else {
					r.ok("%s takes %s, which is free or held by another", fnName(fn), name)
				}
				for h := range held {
					h = strings.TrimSuffix(strings.TrimSuffix(h, "/R"), "/once")
					if h == base {
						continue
					}
					if order[h] == nil {
						order[h] = map[string]string{}
					}
					if _, ok := order[h][base]; !ok {
						order[h][base] = fnName(fn) + " at " + p.instrPos(in)
					}
				}
			}
		}
		if !takes {
			continue
		}
		bad := false
		for l := range may.acquires {
			if strings.HasSuffix(l, "/once") {
				continue
			}
			if !must.acquires[l] {
				bad = true
				r.bad("kept|"+l+"|"+fnName(fn), p.pos(fn.Pos()), "%s keeps %s on some of its ways out only", fnName(fn), l)
			} else if a.open[fn] {
				bad = true
				r.bad("kept|"+l+"|"+fnName(fn), p.pos(fn.Pos()), "%s, callable from outside, ends while holding %s", fnName(fn), l)
			}
		}
		if !bad {
			r.ok("%s releases what it takes", fnName(fn))
		}
	}
	r.need("lock operations", ops, 4)
	r.count("instructions run with a lock whose release is not deferred", regions)
	r.count("functions followed", len(a.must))
	var ls []string
	for l := range order {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for _, l := range ls {
		for m, where := range order[l] {
			r.sample("%s is taken under %s (%s)", m, l, where)
			if reaches(order, m, l, map[string]bool{}) {
				r.bad("order|"+l+"|"+m, where, "%s is taken while holding %s, and the other way round elsewhere", m, l)
			}
		}
	}
}

func reaches(order map[string]map[string]string, from, to string, seen map[string]bool) bool {
	if from == to {
		return true
	}
	if seen[from] {
		return false
	}
	seen[from] = true
	for n := range order[from] {
		if reaches(order, n, to, seen) {
			return true
		}
	}
	return false
}
