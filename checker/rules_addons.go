package main

import (
	_ "embed"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "Finds every registration of template functions, pairs each registering function with the option that guards it (direct test, helper, or table), and checks the pairing and that the guard dominates every call.", ruleAddons,
		"extension files run with every add-on by design")
	register("C19", "Call-graph effect analysis from the implementation of every registered template function to the library calls that start processes, end the program, use the network, or read or write files; the effects found must be among those of the add-on that registers the function.", ruleCapabilities,
		"library functions have the effects their documentation says", "functions called through values kept in data structures of the user are outside the call graph")
}

// addonTable gives the add-on each function belongs to, by the categories of the documentation (one line per add-on).
//
//go:embed addons.txt
var addonTable string

func addonIntent() map[string]string {
	res := map[string]string{}
	for _, l := range strings.Split(addonTable, "\n") {
		if f := strings.Fields(l); len(f) > 1 {
			for _, n := range f[1:] {
				res[n] = f[0]
			}
		}
	}
	return res
}

// addonOf gives the add-on a registration belongs to: the one that most of its functions are listed for.
func addonOf(g *regGroup) string {
	intent := addonIntent()
	count := map[string]int{}
	for f := range g.funcs {
		if a := intent[f]; a != "" {
			count[a]++
		}
	}
	best := ""
	for a, n := range count {
		if best == "" || n > count[best] || n == count[best] && a < best {
			best = a
		}
	}
	return best
}

// optionNames maps option values to names.
func (p *Program) optionNames() map[int64]string {
	res := map[int64]string{}
	pk := p.ByPath[tmplPkg]
	if pk == nil {
		return res
	}
	for _, n := range pk.Types.Scope().Names() {
		if c, ok := pk.Types.Scope().Lookup(n).(*types.Const); ok && shortType(c.Type()) == "template.Options" {
			if v, ok := p.constVal(tmplPkg, n); ok {
				res[v] = n
			}
		}
	}
	return res
}

func isOptionsMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && shortType(m.Key()) == "template.Options"
}

func isOptionType(t types.Type) bool { return shortType(t) == "template.Options" }

// optionLookup recognises the read of an option, directly or through a helper returning it.
// It returns the key.
func (p *Program) optionLookup(v ssa.Value, depth int) (ssa.Value, bool) {
	if depth > 3 {
		return nil, false
	}
	switch v := v.(type) {
	case *ssa.Lookup:
		if isOptionsMap(v.X.Type()) {
			return v.Index, true
		}
	case *ssa.Extract:
		if lk, ok := v.Tuple.(*ssa.Lookup); ok && v.Index == 0 && isOptionsMap(lk.X.Type()) {
			return lk.Index, true
		}
	case *ssa.Call:
		cal := p.Callee(&v.Call)
		if cal == nil || !p.inRepo(cal) || len(cal.Blocks) != 1 {
			return nil, false
		}
		ret, ok := cal.Blocks[0].Instrs[len(cal.Blocks[0].Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			return nil, false
		}
		k, ok := p.optionLookup(ret.Results[0], depth+1)
		if !ok {
			return nil, false
		}
		if prm, ok := k.(*ssa.Parameter); ok {
			for i, q := range cal.Params {
				if q == prm {
					return v.Call.Args[i], true
				}
			}
		}
		return k, true
	}
	return nil, false
}

// guards lists the option keys known true at a block (dominating tests).
func (p *Program) guards(b *ssa.BasicBlock) []ssa.Value {
	var res []ssa.Value
	for d := b; d != nil; d = d.Idom() {
		parent := d.Idom()
		if parent == nil {
			break
		}
		ifi, ok := parent.Instrs[len(parent.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, want := ifi.Cond, 0
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op.String() != "!" {
				break
			}
			cond, want = u.X, 1-want
		}
		k, ok := p.optionLookup(cond, 0)
		if !ok {
			continue
		}
		// d is only entered through the wanted branch
		if parent.Succs[want] == d && len(d.Preds) == 1 {
			res = append(res, k)
		}
	}
	return res
}

// slot describes where a value comes from, to compare a guard with what it guards: the parameter,
// or the element of a table (ignoring which field of it).
func slot(v ssa.Value) interface{} {
	switch v := v.(type) {
	case *ssa.Parameter:
		return v.Parent()
	case *ssa.UnOp:
		switch a := v.X.(type) {
		case *ssa.FieldAddr:
			return slotBase(a.X)
		case *ssa.Alloc:
			if st := onlyStore(a); st != nil {
				return slot(st.Val)
			}
			return a
		}
	case *ssa.Field:
		return slotBase(v.X)
	case *ssa.Extract:
		if n, ok := v.Tuple.(*ssa.Next); ok {
			return n
		}
	case *ssa.ChangeType:
		return slot(v.X)
	}
	return nil
}

func slotBase(v ssa.Value) interface{} {
	switch v := v.(type) {
	case *ssa.UnOp:
		if ia, ok := v.X.(*ssa.IndexAddr); ok {
			return ia.X
		}
		return v.X
	case *ssa.IndexAddr:
		return v.X
	case *ssa.Alloc:
		if st := onlyStore(v); st != nil {
			return slotBase(st.Val)
		}
	}
	return v
}

type addonPair struct {
	option int64
	where  string
	by     string
}

// addonPairs finds the options under which a registering function is called.
func (p *Program) addonPairs(m *ssa.Function, r *Report) (pairs []addonPair, open []string) {
	denotes := func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.MakeClosure:
			return p.realFunc(v.Fn.(*ssa.Function)) == m
		case *ssa.Function:
			return p.realFunc(v) == m
		case *ssa.ChangeType:
			return p.funcValue(v, 0) != nil && p.realFunc(p.funcValue(v, 0)) == m
		}
		return false
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					if p.Callee(in.Common()) == m && !denotesArg(in, denotes) {
						g := p.guards(b)
						found := false
						for _, k := range g {
							if v, ok := p.fold(k).(int64); ok {
								pairs = append(pairs, addonPair{v, p.instrPos(in), "direct test"})
								found = true
							}
						}
						if !found {
							// maybe every caller of this function is guarded
							sub := false
							if fn != m && len(p.callers[fn]) > 0 && fn.Parent() == nil && len(p.callers[fn]) <= 2 && !strings.Contains(strings.ToLower(fn.Name()), "init") {
								pp, oo := p.addonPairs(fn, r)
								if len(oo) == 0 && len(pp) > 0 {
									pairs = append(pairs, pp...)
									sub = true
								}
							}
							if !sub {
								open = append(open, p.instrPos(in))
							}
						}
						continue
					}
					// handed to a function with the option
					fi, oi := -1, -1
					var opt int64
					for i, a := range in.Common().Args {
						if denotes(a) {
							fi = i
						}
						if isOptionType(a.Type()) {
							if v, ok := p.fold(a).(int64); ok {
								oi, opt = i, v
							}
						}
					}
					if fi >= 0 {
						cal := p.Callee(in.Common())
						if oi < 0 || cal == nil || !p.guardedCall(cal, fi, oi) {
							open = append(open, p.instrPos(in))
						} else {
							pairs = append(pairs, addonPair{opt, p.instrPos(in), "helper " + fnName(cal)})
						}
					}
				case *ssa.Store:
					if !denotes(in.Val) {
						continue
					}
					// a field of a table row: the option is a sibling field
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					found := false
					for _, v := range siblingOptions(p, fa) {
						pairs = append(pairs, addonPair{v, p.instrPos(in), "table"})
						found = true
					}
					if !found || !p.tableGuarded(fn, fa) {
						open = append(open, p.instrPos(in))
					}
				case *ssa.MapUpdate:
					if denotes(in.Value) && isOptionType(in.Key.Type()) {
						if v, ok := p.fold(in.Key).(int64); ok {
							pairs = append(pairs, addonPair{v, p.instrPos(in), "table"})
						}
						if !p.tableGuarded(fn, nil) {
							open = append(open, p.instrPos(in))
						}
					}
				}
			}
		}
	}
	return
}

func denotesArg(c ssa.CallInstruction, f func(ssa.Value) bool) bool {
	for _, a := range c.Common().Args {
		if f(a) {
			return true
		}
	}
	return false
}

func siblingOptions(p *Program, fa *ssa.FieldAddr) []int64 {
	var res []int64
	refs := fa.X.Referrers()
	if refs == nil {
		return nil
	}
	var bases []ssa.Value
	bases = append(bases, fa.X)
	if ia, ok := fa.X.(*ssa.IndexAddr); ok { // other address computations of the same element
		for _, r := range *ia.X.Referrers() {
			if o, ok := r.(*ssa.IndexAddr); ok && o != ia {
				a, ok1 := o.Index.(*ssa.Const)
				b, ok2 := ia.Index.(*ssa.Const)
				if ok1 && ok2 && a.Int64() == b.Int64() {
					bases = append(bases, o)
				}
			}
		}
	}
	for _, bs := range bases {
		for _, r := range *bs.Referrers() {
			o, ok := r.(*ssa.FieldAddr)
			if !ok || o.Field == fa.Field || !isOptionType(o.Type().(*types.Pointer).Elem()) {
				continue
			}
			stored := false
			for _, r2 := range *o.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(o) {
					if v, ok := p.fold(st.Val).(int64); ok {
						res = append(res, v)
						stored = true
					}
				}
			}
			_ = stored
		}
	}
	return res
}

// guardedCall: the function parameter fi of fn is only called where the option given as parameter oi is on.
func (p *Program) guardedCall(fn *ssa.Function, fi, oi int) bool {
	if fi >= len(fn.Params) || oi >= len(fn.Params) {
		return false
	}
	ok := true
	calls := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, is := in.(ssa.CallInstruction)
			if !is || c.Common().Value != ssa.Value(fn.Params[fi]) {
				continue
			}
			calls++
			good := false
			for _, k := range p.guards(b) {
				if k == ssa.Value(fn.Params[oi]) {
					good = true
				}
			}
			if !good {
				ok = false
			}
		}
	}
	return ok && calls > 0
}

// tableGuarded: in the function using the table, every call of a function value of the table is made where
// the option of the same row is on.
func (p *Program) tableGuarded(fn *ssa.Function, fa *ssa.FieldAddr) bool {
	calls, ok := 0, true
	fns := []*ssa.Function{fn}
	if fn.Name() == "init" { // a package variable: look everywhere in the package
		fns = nil
		for _, f := range p.Funcs {
			if f.Pkg == fn.Pkg {
				fns = append(fns, f)
			}
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, is := in.(ssa.CallInstruction)
				if !is || c.Common().IsInvoke() {
					continue
				}
				if cal := p.Callee(c.Common()); cal != nil {
					// handed to a helper with the option of the row
					for fi, a := range c.Common().Args {
						sig, ok2 := a.Type().Underlying().(*types.Signature)
						s := slot(a)
						if !ok2 || s == nil || sig.Results().Len() != 0 {
							continue
						}
						calls++
						good := false
						for oi, o := range c.Common().Args {
							if isOptionType(o.Type()) && slot(o) == s && p.guardedCall(cal, fi, oi) {
								good = true
							}
						}
						if !good {
							ok = false
						}
					}
					continue
				}
				s := slot(c.Common().Value)
				if s == nil {
					continue
				}
				sig := c.Common().Signature()
				if sig.Results().Len() != 0 {
					continue
				}
				calls++
				good := false
				for _, k := range p.guards(b) {
					if slot(k) == s {
						good = true
					}
				}
				if !good {
					ok = false
				}
			}
		}
	}
	return ok && calls > 0
}

func ruleAddons(p *Program, r *Report) {
	r.rule("every call of a function that registers the functions of an add-on is dominated by a test that the option of that very add-on is on")
	names := p.optionNames()
	groups := p.registrations(r)
	intent := addonIntent()
	n := 0
	for _, g := range groups {
		if g.fn == nil {
			continue
		}
		if os.Getenv("WRITE_ADDONS") != "" {
			for _, f := range g.names() {
				fmt.Println("ADDON", enclosing(g.fn).Name(), f)
			}
		}
		want := addonOf(g)
		if want == "" {
			continue
		}
		n++
		for _, f := range g.names() {
			if a := intent[f]; a != "" && a != want {
				r.bad("addon|"+a+"|"+f, g.where, "the function %q of the add-on %s is registered with the functions of %s: it is there when the option %s is on", f, a, want, want)
			}
		}
		p.checkAddon(r, enclosing(g.fn), want, g.group, names)
	}
	// the adapted library: registered from its own table
	for _, fn := range p.sprigRegistrars() {
		n++
		p.checkAddon(r, fn, "Sprig", "Sprig", names)
	}
	r.need("add-ons", n, 8)
	p.optionWrites(r, names)
}

// sprigRegistrars gives the functions registering the functions of the adapted library: those that
// register functions and go through the table of the library, themselves or through a helper.
func (p *Program) sprigRegistrars() []*ssa.Function {
	isMap := func(c ssa.CallInstruction) bool {
		nm := p.calleeName(c.Common())
		return strings.Contains(nm, "/sprig") && strings.HasSuffix(nm, "FuncMap")
	}
	tables := map[*ssa.Global]bool{}
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != tmplPkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				if c, ok := unwrap(st.Val).(*ssa.Call); ok && isMap(c) {
					tables[g] = true
				}
			}
		}
	}
	uses := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if rg, ok := in.(*ssa.Range); ok {
					switch x := unwrap(rg.X).(type) {
					case *ssa.UnOp:
						if g, ok := x.X.(*ssa.Global); ok && tables[g] {
							return true
						}
					case *ssa.Call:
						if isMap(x) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	var res []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != tmplPkg || fn.Parent() != nil {
			continue
		}
		adds := false
		callsIn(fn, func(c ssa.CallInstruction) {
			if strings.HasSuffix(p.calleeName(c.Common()), ".addFunctions") {
				adds = true
			}
		})
		if !adds {
			continue
		}
		for f := range p.forwardReach(fn) {
			if uses(f) {
				res = append(res, fn)
				break
			}
		}
	}
	// a function that only gets there through another one is not the one that registers
	var own []*ssa.Function
	for _, fn := range res {
		through := false
		for _, o := range res {
			if o != fn && p.forwardReach(fn)[o] && !p.forwardReach(o)[fn] {
				through = true
			}
		}
		if !through {
			own = append(own, fn)
		}
	}
	return own
}

func (p *Program) checkAddon(r *Report, m *ssa.Function, want, group string, names map[int64]string) {
	pairs, open := p.addonPairs(m, r)
	for _, o := range open {
		r.bad("addon|"+want+"|guard", o, "the functions of %s are registered here whether or not the option %s is on", group, want)
	}
	for _, pr := range pairs {
		if names[pr.option] != want {
			r.bad("addon|"+want+"|option", pr.where, "the functions of %s are registered when the option %s is on instead of %s", group, names[pr.option], want)
		} else {
			r.ok("%s registers the functions of %s only when %s is on (%s)", fnName(m), group, want, pr.by)
		}
	}
	if len(pairs) == 0 && len(open) == 0 {
		r.note("no call of %s was found: the functions of %s are never registered, or through a construct that is not followed", fnName(m), group)
	}
}

// capabilityOf classifies library calls.
func capabilityOf(n string) string {
	switch {
	case strings.HasPrefix(n, "os/exec.Command"), n == "os.StartProcess", strings.HasPrefix(n, "(*os/exec.Cmd)."), n == "syscall.Exec", n == "syscall.ForkExec":
		return "start processes"
	case strings.HasPrefix(n, "net/http."), strings.HasPrefix(n, "(*net/http."), strings.HasPrefix(n, "net.Dial"), strings.HasPrefix(n, "net.Listen"), strings.HasPrefix(n, "net.Lookup"), strings.HasPrefix(n, "(*net."):
		return "use the network"
	case n == "os.Exit", n == "syscall.Exit", n == "log.Fatal", n == "log.Fatalf":
		return "end the program"
	case n == "os.Setenv", n == "os.Unsetenv", n == "os.Clearenv", n == "os.Chdir":
		return "change the environment of the process"
	case n == "os.ReadFile", n == "os.Open", n == "os.Stat", n == "os.Lstat", n == "os.ReadDir", n == "path/filepath.Walk", n == "path/filepath.WalkDir", n == "path/filepath.Glob", n == "io/ioutil.ReadFile", n == "io/ioutil.ReadDir":
		return "read files"
	case n == "os.Getenv", n == "os.Environ", n == "os.LookupEnv", n == "os.ExpandEnv":
		return "read the environment"
	}
	if _, ok := fsMutators[n]; ok {
		return "write files"
	}
	return ""
}

var addonCaps = map[string][]string{
	"Runtime": {"start processes", "end the program", "read files", "write files", "read the environment"},
	"OS":      {"read files", "write files", "read the environment"},
	"Net":     {"use the network", "read the environment"},
	"Data":    {"read files", "read the environment"},
	"Git":     {"start processes", "read files", "read the environment"},
	"Logging": {"read the environment"}, "Math": {}, "Utils": {"read the environment"},
}

func ruleCapabilities(p *Program, r *Report) {
	r.rule("effects reachable from a registered function, through static calls, interface calls and closures, are among those of its add-on: processes and exit (Runtime), file changes (OS, Runtime), network (Net), file reads (Data, OS, Runtime, Git); Math, Utils and Logging have none")
	n, sites := 0, 0
	for _, g := range p.registrations(r) {
		if g.fn == nil {
			continue
		}
		addon := addonOf(g)
		if addon == "" {
			continue
		}
		allowed := map[string]bool{}
		for _, c := range addonCaps[addon] {
			allowed[c] = true
		}
		var fs []string
		for f := range g.funcs {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		for _, f := range fs {
			body := g.bodies[f]
			if body == nil {
				continue
			}
			n++
			found := map[string]string{}
			if !p.inRepo(body) {
				if c := capabilityOf(fnName(body)); c != "" {
					found[c] = g.where
				}
			}
			reach := p.forwardReach(body)
			for fn := range reach {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if c, ok := in.(ssa.CallInstruction); ok {
							sites++
							if cp := capabilityOf(p.calleeName(c.Common())); cp != "" {
								found[cp] = p.instrPos(in)
							}
						}
						for _, op := range in.Operands(nil) {
							if f2, ok := (*op).(*ssa.Function); ok && !p.inRepo(f2) {
								if cp := capabilityOf(fnName(f2)); cp != "" {
									found[cp] = p.instrPos(in)
								}
							}
						}
					}
				}
			}
			var cs []string
			for c := range found {
				cs = append(cs, c)
			}
			sort.Strings(cs)
			good := true
			for _, c := range cs {
				if !allowed[c] {
					good = false
					r.bad("capability|"+f+"|"+c, found[c], "the function %q of the add-on %s can %s: turning off the add-ons meant for that does not prevent it", f, addon, c)
				}
			}
			if good {
				r.ok("%s (%s): %s", f, addon, strings.Join(cs, ", "))
			}
		}
	}
	r.need("functions followed", n, 150)
	r.count("call sites examined", sites)
}

// names lists the functions of a registration.
func (g *regGroup) names() []string {
	var res []string
	for f := range g.funcs {
		res = append(res, f)
	}
	sort.Strings(res)
	return res
}

// optionWrites: what decides which add-ons are on is what the user asked for. An option of an add-on is only copied from one set to another,
// turned off, or set in a new set that a function returns.
func (p *Program) optionWrites(r *Report, names map[int64]string) {
	addons := map[string]bool{"Sprig": true}
	for _, a := range addonIntent() {
		addons[a] = true
	}
	// a field that is only read by the functions that write it records what was done, it does not tell what to do
	records, reads := map[string]bool{}, map[string]map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if lk, ok := in.(*ssa.Lookup); ok && isOptionsMap(lk.X.Type()) && optionField(lk.X) != "" {
					if reads[optionField(lk.X)] == nil {
						reads[optionField(lk.X)] = map[*ssa.Function]bool{}
					}
					reads[optionField(lk.X)][enclosing(fn)] = true
				}
			}
		}
	}
	for f, fns := range reads {
		records[f] = true
		for fn := range fns {
			writes := false
			for _, g := range append(fn.AnonFuncs, fn) {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if mu, ok := in.(*ssa.MapUpdate); ok && optionField(mu.Map) == f {
							writes = true
						}
					}
				}
			}
			if !writes {
				records[f] = false
			}
		}
	}
	n := 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MapUpdate:
					if !isOptionsMap(in.Map.Type()) || records[optionField(in.Map)] {
						continue
					}
					key := "an add-on"
					if k, ok := p.fold(in.Key).(int64); ok {
						if key = names[k]; !addons[key] {
							continue
						}
					}
					n++
					if mk, ok := unwrap(in.Map).(*ssa.MakeMap); ok && returned(mk) {
						r.ok("%s: %s in the new set that %s returns", p.instrPos(in), key, fnName(fn))
						continue
					}
					if why := p.optionValue(in.Value, in.Key, 0, map[ssa.Value]bool{}, addons, names); why != "" {
						r.bad("addon|option|"+fnName(fn)+"|"+key, p.instrPos(in), "the option of %s is changed to %s: its functions are there although the option was not asked for", key, why)
					} else {
						r.ok("%s: %s is copied or handed on by %s", p.instrPos(in), key, fnName(fn))
					}
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok || !isOptionsMap(in.Val.Type()) || !strings.HasSuffix(fieldOfAddr(fa), ".options") {
						continue
					}
					n++
					if !p.defaultOptions(in.Val, 0) || p.defaultsAllowed(fn, b, names, 0) {
						r.ok("%s: %s sets the options", p.instrPos(in), fnName(fn))
						continue
					}
					r.bad("addon|options|"+fnName(fn), p.instrPos(in), "the options of the template are replaced by the default ones: the add-ons that were turned off are back")
				}
			}
		}
	}
	r.need("writings of options", n, 3)
}

// fieldOfAddr names the field of an address.
func fieldOfAddr(fa *ssa.FieldAddr) string {
	st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return "." + st.Field(fa.Field).Name()
}

// returned: a map made by a function is what the function gives, and is not kept in a field.
func returned(mk *ssa.MakeMap) bool {
	ret := false
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Return:
				ret = true
			case *ssa.Phi:
				if !visit(u) {
					return false
				}
			case *ssa.Store:
				if u.Val == v {
					a, ok := u.Addr.(*ssa.Alloc)
					if !ok {
						return false
					}
					for _, l := range *a.Referrers() {
						if ld, ok := l.(*ssa.UnOp); ok && !visit(ld) {
							return false
						}
					}
				}
			}
		}
		return true
	}
	return visit(mk) && ret
}

// optionValue: a value given to an option is the one of the same option elsewhere, or false. Otherwise the reason.
func (p *Program) optionValue(v, key ssa.Value, depth int, seen map[ssa.Value]bool, addons map[string]bool, names map[int64]string) string {
	v = unwrap(v)
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		if b, ok := p.fold(v).(bool); ok && !b {
			return ""
		}
		return "true"
	case *ssa.Phi:
		for _, e := range v.Edges {
			if why := p.optionValue(e, key, depth, seen, addons, names); why != "" {
				return why
			}
		}
		return ""
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok && isOptionsMap(rg.X.Type()) && v.Index == 2 {
				if k, ok := unwrap(key).(*ssa.Extract); ok && k.Tuple == v.Tuple {
					return ""
				}
				return "the value of another option"
			}
		case *ssa.Lookup:
			if isOptionsMap(t.X.Type()) {
				return p.sameOption(t.Index, key)
			}
		}
	case *ssa.Lookup:
		if isOptionsMap(v.X.Type()) {
			return p.sameOption(v.Index, key)
		}
	case *ssa.UnOp:
		if ia, ok := v.X.(*ssa.IndexAddr); ok {
			k := unwrap(key)
			if c, ok := k.(*ssa.Convert); ok {
				k = c.X
			}
			if k == ia.Index {
				return ""
			}
			if a, ok := p.fold(k).(int64); ok {
				if b, ok := p.fold(ia.Index).(int64); ok && a == b {
					return ""
				}
			}
			return "the value of another option"
		}
		if a, ok := v.X.(*ssa.Alloc); ok {
			if st := onlyStore(a); st != nil {
				return p.optionValue(st.Val, key, depth, seen, addons, names)
			}
			return ""
		}
		if fv, ok := v.X.(*ssa.FreeVar); ok {
			_ = fv
			return ""
		}
	case *ssa.FreeVar:
		return ""
	case *ssa.Parameter:
		if depth > 3 {
			return ""
		}
		at, kt := -1, -1
		for i, q := range v.Parent().Params {
			if q == v {
				at = i
			}
			if ssa.Value(q) == unwrap(key) {
				kt = i
			}
		}
		var ks ssa.Value
		if kt < 0 { // an element of a list of options that is a parameter
			if u, ok := unwrap(key).(*ssa.UnOp); ok {
				if ia, ok := u.X.(*ssa.IndexAddr); ok {
					for i, q := range v.Parent().Params {
						if ssa.Value(q) == unwrap(ia.X) {
							ks, kt = ia.X, i
						}
					}
				}
			}
		}
		for _, c := range p.callers[v.Parent()] {
			args := c.Common().Args
			if at >= len(args) || kt >= len(args) {
				continue
			}
			if kt < 0 {
				continue
			}
			off := false
			if b, ok := p.fold(args[at]).(bool); ok && !b {
				off = true
			}
			if off {
				continue
			}
			if ks != nil {
				// the options of the list
				if l, ok := p.fold(args[kt]).(foldList); ok {
					for _, e := range l {
						if k, ok := e.(int64); ok && addons[names[k]] && isTrue(p, args[at]) {
							return "true in " + fnName(c.Parent())
						}
					}
				}
				if prm, ok := unwrap(args[kt]).(*ssa.Parameter); ok && isTrue(p, args[at]) {
					if why := p.listed(prm, depth+1, addons, names); why != "" {
						return why
					}
				}
				continue
			}
			if k, ok := p.fold(args[kt]).(int64); ok && !addons[names[k]] {
				continue
			}
			if why := p.optionValue(args[at], args[kt], depth+1, seen, addons, names); why != "" {
				return why + " in " + fnName(c.Parent())
			}
		}
		return ""
	}
	return "a value that is not the one of the option"
}

func isTrue(p *Program, v ssa.Value) bool { b, ok := p.fold(v).(bool); return ok && b }

// listed: the options that callers put in a list.
func (p *Program) listed(prm *ssa.Parameter, depth int, addons map[string]bool, names map[int64]string) string {
	for _, a := range p.argsFor(prm) {
		if l, ok := p.fold(a).(foldList); ok {
			for _, e := range l {
				if k, ok := e.(int64); ok && addons[names[k]] {
					return "true"
				}
			}
		}
	}
	return ""
}

func (p *Program) sameOption(a, b ssa.Value) string {
	if unwrap(a) == unwrap(b) {
		return ""
	}
	if x, ok := p.fold(a).(int64); ok {
		if y, ok := p.fold(b).(int64); ok && x == y {
			return ""
		}
	}
	return "the value of another option"
}

// defaultOptions: a set of options that a function makes with all add-ons on.
func (p *Program) defaultOptions(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch v := unwrap(v).(type) {
	case *ssa.Call:
		cal := p.Callee(&v.Call)
		if cal == nil || !p.inRepo(cal) || cal.Signature.Params().Len() != 0 {
			return false
		}
		on := false
		for _, b := range cal.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && isOptionsMap(mu.Map.Type()) && isTrue(p, mu.Value) {
					on = true
				}
			}
		}
		return on
	case *ssa.Phi:
		for _, e := range v.Edges {
			if p.defaultOptions(e, depth+1) {
				return true
			}
		}
	}
	return false
}

// defaultsAllowed: the default options are those of an extension (the option Extension is on), or nothing was asked for (the set is nil).
func (p *Program) defaultsAllowed(fn *ssa.Function, b *ssa.BasicBlock, names map[int64]string, depth int) bool {
	for _, k := range p.guards(b) {
		if v, ok := p.fold(k).(int64); ok && names[v] == "Extension" {
			return true
		}
	}
	for d := b; d.Idom() != nil; d = d.Idom() {
		ifi, ok := d.Idom().Instrs[len(d.Idom().Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if bo, ok := ifi.Cond.(*ssa.BinOp); ok && (isOptionsMap(bo.X.Type()) || isOptionsMap(bo.Y.Type())) {
			return true
		}
	}
	if depth > 2 || len(p.callers[fn]) == 0 {
		return false
	}
	for _, c := range p.callers[fn] {
		if !p.defaultsAllowed(c.Parent(), c.Block(), names, depth+1) {
			return false
		}
	}
	return true
}

// optionField names the field that a set of options is read from.
func optionField(v ssa.Value) string {
	if u, ok := unwrap(v).(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fieldOfAddr(fa)
		}
	}
	return ""
}
