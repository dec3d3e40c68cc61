package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// regGroup is one registration of template functions: one call to AddFunctions, or a table of
// function descriptions handed to addFunctions.
type regGroup struct {
	where     string
	fn        *ssa.Function
	call      ssa.CallInstruction
	group     string
	funcs     map[string]*types.Signature // nil signature: not a statically known function
	bodies    map[string]*ssa.Function
	args      map[string][]string
	aliases   map[string][]string
	help      map[string]string
	examples  map[string]bool
	tables    map[string]string // table kind -> identity, to merge tables shared by registrations
	tableKeys map[string][]string
}

func asStrings(v interface{}) ([]string, bool) {
	l, ok := v.(foldList)
	if !ok {
		_, isNil := v.(foldNil)
		return nil, isNil || v == nil
	}
	var r []string
	for _, x := range l {
		s, ok := x.(string)
		if !ok {
			return nil, false
		}
		r = append(r, s)
	}
	return r, true
}

// tableID identifies the table a value denotes.
func tableID(v ssa.Value) string {
	v = unwrap(v)
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			return shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
		}
	}
	return fmt.Sprintf("%p", v)
}

// registrations folds every registration of template functions in the program.
func (p *Program) registrations(r *Report) []*regGroup {
	var res []*regGroup
	optNames := map[int64]string{}
	for _, n := range []string{"FuncHelp", "FuncArgs", "FuncAliases", "FuncGroup", "FuncExamples"} {
		if v, ok := p.constVal(tmplPkg, n); ok {
			optNames[v] = n
		}
	}
	for _, fn := range p.Funcs {
		callsIn(fn, func(c ssa.CallInstruction) {
			if !strings.HasSuffix(p.calleeName(c.Common()), "template.Template).AddFunctions") {
				return
			}
			a := c.Common().Args
			if len(a) != 4 {
				return
			}
			g := &regGroup{where: p.instrPos(c), fn: fn, call: c, funcs: map[string]*types.Signature{}, bodies: map[string]*ssa.Function{},
				args: map[string][]string{}, aliases: map[string][]string{}, help: map[string]string{}, examples: map[string]bool{},
				tables: map[string]string{}, tableKeys: map[string][]string{}}
			if s, ok := p.fold(a[2]).(string); ok {
				g.group = s
			}
			m, ok := p.fold(a[1]).(*foldMap)
			if !ok {
				r.note("the function table registered at %s is computed: not decided", g.where)
				return
			}
			for i, k := range m.keys {
				name, ok := k.(string)
				if !ok {
					r.note("a function name registered at %s is computed: not decided", g.where)
					continue
				}
				var sig *types.Signature
				switch f := m.vals[i].(type) {
				case foldFunc:
					sig, g.bodies[name] = f.sig, f.fn
				case foldUnknown:
					if f.v != nil {
						sig, _ = f.v.Type().Underlying().(*types.Signature)
					}
				}
				g.funcs[name] = sig
			}
			o, ok := p.fold(a[3]).(*foldMap)
			if !ok {
				if _, isNil := p.fold(a[3]).(foldNil); !isNil {
					r.note("the documentation tables registered at %s are computed: not decided", g.where)
				}
				res = append(res, g)
				return
			}
			for i, k := range o.keys {
				n, _ := k.(int64)
				kind := optNames[n]
				tm, ok := o.vals[i].(*foldMap)
				if !ok {
					r.note("the %s table registered at %s is computed: not decided", kind, g.where)
					continue
				}
				keys := tm.strKeys()
				g.tables[kind] = kind + "|" + strings.Join(keys, ",")
				g.tableKeys[kind] = keys
				for j, kk := range tm.keys {
					name, _ := kk.(string)
					switch kind {
					case "FuncArgs":
						g.args[name], _ = asStrings(tm.vals[j])
					case "FuncAliases":
						g.aliases[name], _ = asStrings(tm.vals[j])
					case "FuncHelp":
						g.help[name], _ = tm.vals[j].(string)
					case "FuncExamples":
						g.examples[name] = true
					}
				}
			}
			res = append(res, g)
		})
	}
	// Tables of descriptions with their own arguments/aliases (adapted libraries).
	for _, sp := range p.sortedSSAPkgs() {
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			gl, ok := sp.Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			mt, ok := gl.Type().(*types.Pointer).Elem().Underlying().(*types.Map)
			if !ok {
				continue
			}
			st, ok := mt.Elem().Underlying().(*types.Struct)
			if !ok || !hasField(st, "aliases") || !hasField(st, "description") {
				continue
			}
			m, ok := (&folder{p: p, busy: map[ssa.Value]bool{}, env: map[ssa.Value]interface{}{}}).global(gl).(*foldMap)
			if !ok {
				continue
			}
			g := &regGroup{where: p.pos(gl.Pos()), group: n, funcs: map[string]*types.Signature{}, bodies: map[string]*ssa.Function{},
				args: map[string][]string{}, aliases: map[string][]string{}, help: map[string]string{}, examples: map[string]bool{},
				tables: map[string]string{}, tableKeys: map[string][]string{}}
			for i, k := range m.keys {
				name, _ := k.(string)
				s, _ := m.vals[i].(foldStruct)
				g.funcs[name] = nil
				g.aliases[name], _ = asStrings(s["aliases"])
				g.args[name], _ = asStrings(s["arguments"])
				g.help[name], _ = s["description"].(string)
			}
			res = append(res, g)
		}
	}
	return res
}

func hasField(st *types.Struct, name string) bool {
	for i := 0; i < st.NumFields(); i++ {
		if varName(st.Field(i)) == name {
			return true
		}
	}
	return false
}

func init() {
	register("C17", "Folds every table handed to AddFunctions (functions, help, argument names, aliases, examples) and every description table with aliases, and checks names, aliases and signatures against each other.", checkRegistry,
		"text/template accepts a function with one result, or two results of which the second is an error")
}

func checkRegistry(p *Program, r *Report) {
	groups := p.registrations(r)
	r.rule("every key of an alias or example table is a function of a registration using that table; every alias differs from every function and other alias registered with it; a function that is not variadic documents no more arguments than it takes; results are 1, or 2 with an error")
	nf, na, nk := 0, 0, 0
	// a documentation table may serve several registrations
	union := map[string]map[string]bool{}
	tabWhere := map[string]string{}
	tabKeys := map[string][]string{}
	for _, g := range groups {
		for kind, id := range g.tables {
			if union[id] == nil {
				union[id] = map[string]bool{}
				tabKeys[id] = g.tableKeys[kind]
				tabWhere[id] = g.where
			}
			for f := range g.funcs {
				union[id][f] = true
			}
		}
	}
	var ids []string
	for id := range union {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		kind := strings.SplitN(id, "|", 2)[0]
		for _, k := range tabKeys[id] {
			nk++
			if !union[id][k] && kind != "FuncAliases" && kind != "FuncExamples" {
				r.note("the %s entry %q of %s names no function registered with it", kind, k, tabWhere[id])
			} else if !union[id][k] {
				r.bad("registry|orphan|"+kind+"|"+k, tabWhere[id], "the %s entry %q does not name any function registered with that table: it is silently dropped", kind, k)
			} else {
				r.ok("%s entry %s names a registered function", kind, k)
			}
		}
	}
	for _, g := range groups {
		names := map[string]string{}
		for f := range g.funcs {
			names[f] = "function " + f
		}
		var fs []string
		for f := range g.funcs {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		for _, f := range fs {
			nf++
			sig := g.funcs[f]
			if sig != nil {
				n := sig.Results().Len()
				if n == 0 || n > 2 || n == 2 && !isErrorType(sig.Results().At(1).Type()) {
					r.bad("registry|results|"+f, g.where, "function %q cannot be registered: its results are %s", f, sig.Results())
				} else {
					r.ok("function %s can be called from a template", f)
				}
				if n := len(g.args[f]); !sig.Variadic() && n > sig.Params().Len() {
					r.bad("registry|args|"+f, g.where, "function %q documents %d arguments (%s) and takes %d", f, n, strings.Join(g.args[f], ", "), sig.Params().Len())
				} else if n > 0 {
					r.ok("argument names of %s fit its parameters", f)
					seen := map[string]bool{}
					for _, a := range g.args[f] {
						if seen[a] {
							r.bad("registry|argdup|"+f, g.where, "function %q documents the argument %q twice", f, a)
						}
						seen[a] = true
					}
				}
			} else if g.fn != nil {
				r.note("the value registered as function %q at %s is computed: its signature is not decided", f, g.where)
			}
			for _, al := range g.aliases[f] {
				na++
				if other, dup := names[al]; dup {
					r.bad("registry|alias|"+al, g.where, "the alias %q of function %q collides with %s registered at the same time: which one is called depends on map iteration order", al, f, other)
				} else {
					r.ok("alias %s of %s is unique", al, f)
				}
				names[al] = "an alias of " + f
			}
		}
	}
	r.need("registrations", len(groups), 10)
	r.need("functions", nf, 200)
	r.need("aliases", na, 60)
	r.need("documentation entries", nk, 300)
}
