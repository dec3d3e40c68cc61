package main

import (
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", "The functions rendering files are followed path by path with the data given to the templates, the changes made to the context, to the options and to the treatment of missing keys; each execution, each way out and each file of a batch is judged.", ruleC07,
		"Clone of a dictionary shares nothing with it (C14)", "a retry renders like the rendering it retries (checked as a rendering of its own)")
	register("C08", "The functions building templates are followed path by path; the options of each template they return, and each assignment of options, are judged.", ruleC08)
}

// usage tells who calls a function, and whether it is used otherwise than called.
type usage struct {
	callers map[*ssa.Function]map[*ssa.Function]bool
	taken   map[*ssa.Function]bool
}

func (p *Program) usageOf() *usage {
	u := &usage{map[*ssa.Function]map[*ssa.Function]bool{}, map[*ssa.Function]bool{}}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var called *ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, cal := range p.Callees(c.Common()) {
						if u.callers[cal] == nil {
							u.callers[cal] = map[*ssa.Function]bool{}
						}
						u.callers[cal][enclosing(fn)] = true
					}
					called = c.Common().StaticCallee()
				}
				for i, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Function:
						if c, ok := in.(ssa.CallInstruction); !ok || i != 0 || called != v || c.Common().IsInvoke() {
							u.taken[p.realFunc(v)] = true
						}
					case *ssa.MakeClosure:
						if f := p.realFunc(v.Fn.(*ssa.Function)); f.Parent() == nil {
							u.taken[f] = true
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok && !calledHere(mc) {
					if f := p.realFunc(mc.Fn.(*ssa.Function)); f.Parent() == nil {
						u.taken[f] = true
					}
				}
			}
		}
	}
	return u
}

// entry: the function may be called from outside of what is analysed.
func (u *usage) entry(fn *ssa.Function) bool {
	return token.IsExported(fn.Name()) || u.taken[fn] || fn.Name() == "main"
}

func sortedFuncs(m map[*ssa.Function]bool) []*ssa.Function {
	var res []*ssa.Function
	for f := range m {
		res = append(res, f)
	}
	sort.Slice(res, func(i, j int) bool { return fnName(res[i]) < fnName(res[j]) })
	return res
}

// onlyWhileBuilding: every chain of calls leading to the function starts with a function that builds a template.
func (u *usage) onlyWhileBuilding(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if seen[f] {
			return true
		}
		seen[f] = true
		if buildsTemplate(f) {
			return true
		}
		if u.entry(f) {
			return false
		}
		for _, c := range sortedFuncs(u.callers[f]) {
			if !visit(c) {
				return false
			}
		}
		return true
	}
	return visit(enclosing(fn))
}

// isTemplatePtr: pointer to the Template structure of the template package.
func isTemplate(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Template" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == tmplPkg
}

func isTemplatePtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && isTemplate(pt.Elem())
}

// buildsTemplate: the function is not a method and returns a template.
func buildsTemplate(fn *ssa.Function) bool {
	if fn.Signature.Recv() != nil {
		return false
	}
	for _, t := range resultTypes(fn) {
		if isTemplatePtr(t) {
			return true
		}
	}
	return false
}

var cloneCall = regexp.MustCompile(`^call:(invoke )?\(?\*?[\w./]+\)?\.Clone\(`)

// templateField finds the stores to a field of templates.
func templateField(in ssa.Instruction, field string) (*ssa.Store, *ssa.FieldAddr) {
	st, ok := in.(*ssa.Store)
	if !ok {
		return nil, nil
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok || !isTemplatePtr(fa.X.Type()) || fieldName(fa.X.Type(), fa.Field) != field {
		return nil, nil
	}
	return st, fa
}

func freshTemplate(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return isTemplate(v.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Call:
		return true
	case *ssa.Extract:
		return true
	case *ssa.UnOp:
		if al, ok := v.X.(*ssa.Alloc); ok {
			if st := onlyStore(al); st != nil {
				return freshTemplate(st.Val)
			}
		}
	}
	return false
}

func ruleC07(p *Program, r *Report) {
	rs := &renderSim{p: p}
	rs.findRoots(r)
	u := p.usageOf()
	r.rule("a file or content is executed on the result of Clone, except by functions reached only while a template is being built (extensions); an evaluation retried after an error is followed like the others")
	r.rule("the context of a template assigned while rendering has its previous value back at every way out")
	r.rule("the treatment of missing keys changed to error on a template is back to the default at every way out")
	r.rule("an option assigned while rendering a file is given its previous value back before the next file of a batch")
	reachExec := p.reach(isExec)
	inTmpl := func(f *ssa.Function) bool { return f.Pkg != nil && f.Pkg.Pkg.Path() == tmplPkg }

	// data
	type job struct {
		fn       *ssa.Function
		params   []string
		building bool
		from     string
	}
	var jobs []job
	seen := map[string]bool{}
	add := func(j job) {
		k := fnName(j.fn) + strings.Join(j.params, ",")
		if j.building {
			k += " building"
		}
		if !seen[k] {
			seen[k] = true
			jobs = append(jobs, j)
		}
	}
	isRoot := map[*ssa.Function]bool{}
	for _, root := range rs.roots {
		if !root.file {
			continue
		}
		isRoot[root.fn] = true
		for _, from := range root.froms {
			add(job{root.fn, root.params, u.onlyWhileBuilding(from), fnName(from)})
		}
	}
	states, retries := 0, 0
	for i := 0; i < len(jobs) && i < 50; i++ {
		j := jobs[i]
		s := newSim(p)
		s.relevant = func(string) bool { return false }
		s.track = func(t types.Type) bool { return isBool(t) || types.IsInterface(t) }
		s.inline = func(fr *Frame, callee *ssa.Function) bool {
			return inTmpl(callee) && !isRoot[callee] && (rs.rend[callee] || reachExec[callee] || returnsInterface(callee) && size(callee) < 60)
		}
		s.onCall = func(s *Sim, fr *Frame, st *State, site ssa.CallInstruction, name string, args []string) []Outcome {
			if isExec(name) {
				data := args[len(args)-1]
				states++
				key := fnName(enclosing(fr.fn)) + " -> " + name
				switch {
				case cloneCall.MatchString(data):
					r.ok("%s (%s) from %s: executed on a copy of the context", key, p.instrPos(site), j.from)
				case j.building:
					r.ok("%s (%s) from %s: executed while building a template", key, p.instrPos(site), j.from)
				default:
					r.bad("data|"+key, p.instrPos(site), "a file may be executed on %s, which is not a copy of the context: what it sets there is seen by the files rendered after it (rendering started by %s with %s)", clip(data, 200), j.from, strings.Join(j.params, ", "))
				}
				return nil
			}
			if callee := p.Callee(site.Common()); callee != nil && isRoot[callee] {
				var params []string
				for i, prm := range callee.Params {
					t := "p:" + prm.Name()
					if isBool(prm.Type()) {
						t = args[i]
					}
					params = append(params, t)
				}
				retries++
				add(job{callee, params, j.building, "retry of " + strings.TrimPrefix(j.from, "retry of ")})
				return []Outcome{{st: st}}
			}
			return nil
		}
		s.Run(j.fn, newState(), j.params)
		if s.overflow != "" {
			r.bad("internal|overflow", "-", "%s", s.overflow)
		}
		r.count("functions followed in context", len(s.analysed))
		r.count("call sites followed", s.sites)
	}
	r.need("states executing a file", states, 2)
	r.count("evaluations retried", retries)

	// the context and the treatment of missing keys
	ctx := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if !inTmpl(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, fa := templateField(in, "context"); st != nil && !freshTemplate(fa.X) && !u.onlyWhileBuilding(fn) {
					ctx[enclosing(fn)] = true
				}
				if c, ok := in.(ssa.CallInstruction); ok && isMissingKeyError(p, c) {
					ctx[enclosing(fn)] = true
				}
			}
		}
	}
	changes := 0
	done := map[*ssa.Function]bool{}
	var judge func(fn *ssa.Function)
	judge = func(fn *ssa.Function) {
		if done[fn] {
			return
		}
		done[fn] = true
		type left struct{ key, pos, msg string }
		var found []left
		s := newSim(p)
		s.relevant = func(string) bool { return false }
		s.track = func(t types.Type) bool { return isBool(t) || types.IsInterface(t) }
		s.inline = func(fr *Frame, callee *ssa.Function) bool {
			return inTmpl(callee) && (ctx[enclosing(callee)] || touchesContext(p, callee))
		}
		where := map[string]string{}
		s.onInstr = func(s *Sim, fr *Frame, st *State, in ssa.Instruction) {
			sto, fa := templateField(in, "context")
			if sto == nil || freshTemplate(fa.X) {
				return
			}
			addr, val := s.term(fr, st, sto.Addr), s.term(fr, st, sto.Val)
			changes++
			if val == "saved "+addr {
				delete(st.ev, "context "+addr)
				st.regs["0/saved!"+addr] = "" // read again after this
				delete(st.regs, "0/saved!"+addr)
				return
			}
			st.ev["context "+addr] = true
			where["context "+addr] = p.instrPos(in)
		}
		load := s.onInstr
		s.onInstr = func(s *Sim, fr *Frame, st *State, in ssa.Instruction) {
			if ld, ok := in.(*ssa.UnOp); ok && ld.Op == token.MUL {
				if fa, ok := ld.X.(*ssa.FieldAddr); ok && isTemplatePtr(fa.X.Type()) && fieldName(fa.X.Type(), fa.Field) == "context" && !freshTemplate(fa.X) {
					addr := s.term(fr, st, fa)
					if !st.ev["context "+addr] {
						st.regs[fr.id+"/"+ld.Name()] = "saved " + addr
					}
				}
			}
			load(s, fr, st, in)
		}
		s.onCall = func(s *Sim, fr *Frame, st *State, site ssa.CallInstruction, name string, args []string) []Outcome {
			if name != "(*text/template.Template).Option" || len(args) < 2 {
				return nil
			}
			switch {
			case strings.Contains(args[len(args)-1], `"missingkey=error"`):
				ns := st.clone()
				ns.ev["missingkey "+args[0]] = true
				where["missingkey "+args[0]] = p.instrPos(site)
				changes++
				return []Outcome{{st: ns}}
			case strings.Contains(args[len(args)-1], `"missingkey=`):
				ns := st.clone()
				for e := range ns.ev {
					if strings.HasPrefix(e, "missingkey ") {
						delete(ns.ev, e)
					}
				}
				return []Outcome{{st: ns}}
			}
			return nil
		}
		for _, e := range s.Run(fn, newState(), nil) {
			if e.exits {
				continue
			}
			at := p.pos(fn.Pos())
			if e.ret != nil {
				at = p.instrPos(e.ret)
			}
			for _, ev := range sortedKeys(e.st.ev) {
				switch {
				case strings.HasPrefix(ev, "context "):
					found = append(found, left{"context|" + fnName(fn), at, "the context of a template changed at " + where[ev] + " is not restored"})
				case strings.HasPrefix(ev, "missingkey "):
					found = append(found, left{"missingkey|" + fnName(fn), at, "the treatment of missing keys changed at " + where[ev] + " is not restored"})
				}
			}
		}
		if s.overflow != "" {
			r.bad("internal|overflow", "-", "%s", s.overflow)
		}
		r.count("functions followed in context", len(s.analysed))
		if len(found) == 0 {
			r.ok("%s: what it changes is restored at every way out", fnName(fn))
			return
		}
		if !u.entry(fn) && len(u.callers[fn]) > 0 {
			ctx[fn] = true
			for _, c := range sortedFuncs(u.callers[fn]) {
				judge(c)
			}
			return
		}
		for _, l := range found {
			r.bad(l.key, l.pos, "%s (by %s)", l.msg, fnName(fn))
		}
	}
	for _, fn := range sortedFuncs(ctx) {
		judge(fn)
	}
	r.need("changes of a context or of the treatment of missing keys", changes, 1)

	// options
	from := map[*ssa.Function]bool{}
	var roots []*ssa.Function
	for f := range isRoot {
		roots = append(roots, f)
	}
	for f := range p.forwardReachCalls(roots...) {
		from[f] = true
	}
	written := map[string]string{}
	for _, fn := range sortedFuncs(from) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if k, ok := optionUpdate(in); ok && k != "" {
					written[k] = p.instrPos(in)
				}
				// through a function setting the option it is given
				if c, ok := in.(ssa.CallInstruction); ok {
					if callee := p.Callee(c.Common()); callee != nil {
						for i, prm := range callee.Params {
							if i < len(c.Common().Args) && setsOption(callee, prm) {
								if k, ok := constKey(c.Common().Args[i]); ok {
									written[k] = p.instrPos(in)
								}
							}
						}
					}
				}
			}
		}
	}
	r.count("options assigned while rendering a file", len(written))
	batches := 0
	reachRoot := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.Funcs {
			if reachRoot[fn] || !inTmpl(fn) {
				continue
			}
			callsIn(fn, func(c ssa.CallInstruction) {
				if callee := p.Callee(c.Common()); callee != nil && (isRoot[callee] || reachRoot[callee]) && !rs.rend[fn] && !reachRoot[fn] {
					reachRoot[fn] = true
					changed = true
				}
			})
		}
	}
	for _, fn := range sortedFuncs(reachRoot) {
		if u.onlyWhileBuilding(fn) || !loopsOverCalls(p, fn, isRoot, reachRoot) || len(written) == 0 {
			continue
		}
		// the options that matter to what is done in the batch
		read := map[string]string{}
		for f := range p.forwardReachCalls(fn) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if lk, ok := in.(*ssa.Lookup); ok && isOptions(lk.X.Type()) {
						if k, ok := constKey(lk.Index); ok && written[k] != "" {
							read[k] = written[k]
						}
					}
				}
			}
		}
		if len(read) == 0 {
			continue
		}
		batches++
		s := newSim(p)
		s.relevant = func(string) bool { return false }
		s.track = isBool
		s.inline = func(fr *Frame, callee *ssa.Function) bool {
			return reachRoot[callee] || inTmpl(callee) && writesOption(callee)
		}
		name := fnName(fn)
		s.onCall = func(s *Sim, fr *Frame, st *State, site ssa.CallInstruction, _ string, args []string) []Outcome {
			callee := p.Callee(site.Common())
			if callee == nil || !isRoot[callee] {
				return nil
			}
			ns := st.clone()
			for _, k := range sortedKeysS(read) {
				if st.ev["left "+k] {
					r.bad("option|"+name, p.instrPos(site), "a file is rendered while option %s may still be as the previous file of the batch set it (%s)", k, written[k])
				} else {
					r.ok("%s: option %s has its own value when a file is rendered", name, k)
				}
				ns.ev["left "+k] = true
			}
			return []Outcome{{st: ns}}
		}
		s.onInstr = func(s *Sim, fr *Frame, st *State, in ssa.Instruction) {
			if lk, ok := in.(*ssa.Lookup); ok && isOptions(lk.X.Type()) {
				if k, ok := constKey(lk.Index); ok && !lk.CommaOk {
					t := "saved option " + k
					if st.ev["left "+k] {
						t = "left option " + k
					}
					st.regs[fr.id+"/"+lk.Name()] = t
				}
			}
			if _, ok := optionUpdate(in); ok {
				k := strings.TrimPrefix(s.term(fr, st, in.(*ssa.MapUpdate).Key), "c:")
				if written[k] == "" {
					return
				}
				val := s.term(fr, st, in.(*ssa.MapUpdate).Value)
				if val == "saved option "+k || !strings.HasPrefix(val, "c:") && !strings.HasPrefix(val, "left option ") {
					delete(st.ev, "left "+k)
				} else {
					st.ev["left "+k] = true
				}
			}
		}
		s.Run(fn, newState(), nil)
		if s.overflow != "" {
			r.bad("internal|overflow", "-", "%s", s.overflow)
		}
	}
	if len(written) > 0 {
		r.need("functions rendering files one after the other", batches, 1)
	}
}

func returnsInterface(fn *ssa.Function) bool {
	for _, t := range resultTypes(fn) {
		if types.IsInterface(t) && !isErrorType(t) {
			return true
		}
	}
	return false
}

func isMissingKeyError(p *Program, c ssa.CallInstruction) bool {
	if p.calleeName(c.Common()) != "(*text/template.Template).Option" {
		return false
	}
	for _, a := range c.Common().Args {
		if els, ok := variadic(a); ok {
			for _, e := range els {
				if k, ok := e.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.ExactString(), "missingkey=error") {
					return true
				}
			}
		}
	}
	return false
}

// touchesContext: the function assigns the context of a template or the treatment of missing keys.
func touchesContext(p *Program, fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, _ := templateField(in, "context"); st != nil {
				return true
			}
			if c, ok := in.(ssa.CallInstruction); ok && p.calleeName(c.Common()) == "(*text/template.Template).Option" {
				return true
			}
		}
	}
	return false
}

func isOptions(t types.Type) bool { return strings.HasSuffix(t.String(), "template.OptionsSet") }

func constKey(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return "", false
	}
	return c.Value.ExactString(), true
}

// optionUpdate: a constant option of a template that is not new is assigned.
func optionUpdate(in ssa.Instruction) (string, bool) {
	mu, ok := in.(*ssa.MapUpdate)
	if !ok || !isOptions(mu.Map.Type()) {
		return "", false
	}
	if ld, ok := mu.Map.(*ssa.UnOp); ok {
		if fa, ok := ld.X.(*ssa.FieldAddr); ok && isTemplatePtr(fa.X.Type()) && (freshTemplate(fa.X) || fieldName(fa.X.Type(), fa.Field) != "options") {
			return "", false
		}
	}
	k, _ := constKey(mu.Key)
	return k, true
}

// setsOption: the function assigns the option given as parameter.
func setsOption(fn *ssa.Function, prm *ssa.Parameter) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if mu, ok := in.(*ssa.MapUpdate); ok && mu.Key == prm {
				if _, ok := optionUpdate(in); ok {
					return true
				}
			}
		}
	}
	return false
}

func writesOption(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if mu, ok := in.(*ssa.MapUpdate); ok && isOptions(mu.Map.Type()) {
				return true
			}
		}
	}
	return false
}

// loopsOverCalls: a loop of the function renders files.
func loopsOverCalls(p *Program, fn *ssa.Function, isRoot, reachRoot map[*ssa.Function]bool) bool {
	li := newLoopInfo(fn)
	for _, body := range li.bodies {
		for _, b := range body {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if callee := p.Callee(c.Common()); callee != nil && (isRoot[callee] || reachRoot[callee]) {
						return true
					}
				}
			}
		}
	}
	return false
}

// forwardReachCalls lists the functions reachable through static calls and the closures called or deferred.
func (p *Program) forwardReachCalls(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.inRepo(f) || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if cal := p.Callee(c.Common()); cal != nil {
						visit(cal)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok && calledHere(mc) {
					visit(p.realFunc(mc.Fn.(*ssa.Function)))
				}
			}
		}
	}
	for _, f := range roots {
		visit(f)
	}
	return seen
}

func sortedKeysS(m map[string]string) []string {
	var res []string
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

// C08

func ruleC08(p *Program, r *Report) {
	r.rule("every function returning a template it has allocated returns it with a map of options made for it, on every path")
	r.rule("the options of a template are only ever assigned a map made for it")
	u := p.usageOf()
	inTmpl := func(f *ssa.Function) bool { return f.Pkg != nil && f.Pkg.Pkg.Path() == tmplPkg }
	allocators := map[*ssa.Function]bool{}
	stores := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if !inTmpl(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && isTemplate(al.Type().Underlying().(*types.Pointer).Elem()) {
					for _, t := range resultTypes(enclosing(fn)) {
						if isTemplatePtr(t) {
							allocators[enclosing(fn)] = true
						}
					}
				}
				if st, _ := templateField(in, "options"); st != nil {
					stores[enclosing(fn)] = true
				}
			}
		}
	}
	covered := map[*ssa.Function]bool{}
	built := 0
	var judge func(fn *ssa.Function)
	done := map[*ssa.Function]bool{}
	judge = func(fn *ssa.Function) {
		if done[fn] {
			return
		}
		done[fn] = true
		s := newSim(p)
		s.relevant = func(string) bool { return false }
		s.track = func(t types.Type) bool { return isOptions(t) || isTemplatePtr(t) }
		s.inline = func(fr *Frame, callee *ssa.Function) bool {
			return inTmpl(callee) && (allocators[callee] || stores[callee] || returnsOptions(callee))
		}
		type bad struct{ at, term string }
		var found []bad
		good := 0
		for _, e := range s.Run(fn, newState(), nil) {
			if e.ret == nil {
				continue
			}
			for i, t := range resultTypes(fn) {
				if !isTemplatePtr(t) || !strings.HasPrefix(e.results[i], "&") || strings.HasPrefix(e.results[i], "&fv:") || strings.HasPrefix(e.results[i], "&g:") {
					continue
				}
				opts, ok := e.st.mem[e.results[i]+".options"]
				built++
				if ok && freshMap(opts) {
					good++
					r.ok("%s: returns a template with options of its own (%s)", fnName(fn), opts)
				} else {
					if !ok {
						opts = "the options of the template it is copied from"
					}
					found = append(found, bad{p.instrPos(e.ret), opts})
				}
			}
		}
		for f := range s.analysed {
			covered[enclosing(f)] = true
		}
		r.count("functions followed in context", len(s.analysed))
		if len(found) > 0 && !u.entry(fn) && len(u.callers[fn]) > 0 {
			for _, c := range sortedFuncs(u.callers[fn]) {
				if allocators[c] || returnsTemplate(c) {
					allocators[c] = true
					judge(c)
				}
			}
			return
		}
		for _, b := range found {
			r.bad("shared|"+fnName(fn), b.at, "%s returns a template whose options are shared: %s", fnName(fn), b.term)
		}
	}
	for _, fn := range sortedFuncs(allocators) {
		judge(fn)
	}
	r.need("templates returned", built, 2)
	assigned := 0
	for _, fn := range p.Funcs {
		if !inTmpl(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, fa := templateField(in, "options")
				if st == nil {
					continue
				}
				assigned++
				if covered[enclosing(fn)] {
					if _, ok := fa.X.(*ssa.Alloc); ok {
						continue // judged on the template returned
					}
				}
				if p.freshOptions(u, st.Val, 0) {
					r.ok("%s (%s): options made for the template", fnName(fn), p.instrPos(st))
				} else {
					r.bad("assigned|"+fnName(enclosing(fn)), p.instrPos(st), "a template is given options that are not its own")
				}
			}
		}
	}
	r.need("assignments of options", assigned, 1)

	r.rule("a function only changes the options of its own template (or of a set it has made), never those of another template or the set of its caller")
	changes := 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				m := changedMap(in)
				if m == nil || !isOptions(m.Type()) {
					continue
				}
				changes++
				if why := p.foreignOptions(m, 0, map[ssa.Value]bool{}); why != "" {
					r.bad("foreign|"+fnName(enclosing(fn)), p.instrPos(in), "%s changes %s", fnName(fn), why)
				} else {
					r.ok("%s (%s): changes the options of its own template", fnName(fn), p.instrPos(in))
				}
			}
		}
	}
	r.need("changes of options", changes, 2)
}

// changedMap gives the map that an instruction changes.
func changedMap(in ssa.Instruction) ssa.Value {
	if mu, ok := in.(*ssa.MapUpdate); ok {
		return mu.Map
	}
	if c, ok := in.(ssa.CallInstruction); ok {
		if bi, ok := c.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
			if _, ok := c.Common().Args[0].Type().Underlying().(*types.Map); ok {
				return c.Common().Args[0]
			}
		}
		if f := c.Common().StaticCallee(); f != nil && strings.HasPrefix(fnName(f), "maps.Copy") && len(c.Common().Args) == 2 {
			return unwrap(c.Common().Args[0])
		}
	}
	return nil
}

// foreignOptions tells whose options a set is, when they are not those of the template at hand.
func (p *Program) foreignOptions(v ssa.Value, depth int, seen map[ssa.Value]bool) string {
	v = unwrap(v)
	if depth > 8 || seen[v] {
		return ""
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.UnOp:
		switch a := v.X.(type) {
		case *ssa.FieldAddr:
			if isTemplatePtr(a.X.Type()) {
				return p.foreignTemplate(a.X, depth+1, seen)
			}
		case *ssa.Global:
			return "the shared set " + a.Name()
		case *ssa.Alloc:
			if st := onlyStore(a); st != nil {
				return p.foreignOptions(st.Val, depth+1, seen)
			}
		case *ssa.FreeVar:
			if al := freeVarAlloc(a); al != nil {
				if st := onlyStore(al); st != nil {
					return p.foreignOptions(st.Val, depth+1, seen)
				}
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if why := p.foreignOptions(e, depth+1, seen); why != "" {
				return why
			}
		}
	case *ssa.Parameter:
		fn := v.Parent()
		if recv := fn.Signature.Recv(); recv != nil && fn.Params[0] == v && len(p.callers[fn]) == 0 {
			return ""
		}
		if fn.Signature.Recv() == nil && fn.Parent() == nil && token.IsExported(fn.Name()) {
			return "the set of options given by its caller"
		}
		for _, a := range p.argsFor(v) {
			if why := p.foreignOptions(a, depth+1, seen); why != "" {
				return why
			}
		}
	}
	return ""
}

// foreignTemplate tells that a template is not the one at hand.
func (p *Program) foreignTemplate(v ssa.Value, depth int, seen map[ssa.Value]bool) string {
	v = unwrap(v)
	if depth > 8 || seen[v] {
		return ""
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.UnOp:
		switch a := v.X.(type) {
		case *ssa.FieldAddr:
			return "the options of another template (" + fieldName(a.X.Type(), a.Field) + ")"
		case *ssa.Global:
			return "the options of the shared template " + a.Name()
		case *ssa.Alloc:
			if st := onlyStore(a); st != nil {
				return p.foreignTemplate(st.Val, depth+1, seen)
			}
		case *ssa.FreeVar:
			if al := freeVarAlloc(a); al != nil {
				if st := onlyStore(al); st != nil {
					return p.foreignTemplate(st.Val, depth+1, seen)
				}
			}
		}
	case *ssa.Lookup:
		return "the options of another template"
	case *ssa.Extract:
		switch v.Tuple.(type) {
		case *ssa.Next, *ssa.Lookup:
			return "the options of another template"
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if why := p.foreignTemplate(e, depth+1, seen); why != "" {
				return why
			}
		}
	case *ssa.Parameter:
		for _, a := range p.argsFor(v) {
			if why := p.foreignTemplate(a, depth+1, seen); why != "" {
				return why
			}
		}
	}
	return ""
}

// switchedOn lists the places where an option is given a constant value.
func (p *Program) switchedOn(option int64, value bool) []ssa.Instruction {
	var res []ssa.Instruction
	var follow func(at ssa.Instruction, k, v ssa.Value, depth int)
	follow = func(at ssa.Instruction, k, v ssa.Value, depth int) {
		k, v = unwrap(k), unwrap(v)
		kc, kok := p.fold(k).(int64)
		vc, vok := p.fold(v).(bool)
		if kok && kc != option || vok && vc != value {
			return
		}
		if kok && vok {
			res = append(res, at)
			return
		}
		kp, kisp := k.(*ssa.Parameter)
		vp, visp := v.(*ssa.Parameter)
		if depth > 3 || !kok && !kisp || !vok && !visp || kisp && visp && kp.Parent() != vp.Parent() {
			return
		}
		fn := at.Parent()
		for _, c := range p.callers[fn] {
			k2, v2 := k, v
			for i, q := range fn.Params {
				if i >= len(c.Common().Args) {
					break
				}
				if ssa.Value(q) == k {
					k2 = c.Common().Args[i]
				}
				if ssa.Value(q) == v {
					v2 = c.Common().Args[i]
				}
			}
			follow(c.(ssa.Instruction), k2, v2, depth+1)
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && isOptions(mu.Map.Type()) {
					if mk, ok := unwrap(mu.Map).(*ssa.MakeMap); ok && returned(mk) {
						continue
					}
					follow(mu, mu.Key, mu.Value, 0)
				}
			}
		}
	}
	return res
}

// givesResult: a function, or one through which it is called, gives something back to those who call the package.
func (p *Program) givesResult(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	fn = enclosing(fn)
	if seen[fn] || fn.Pkg == nil || fn.Pkg.Pkg.Path() != tmplPkg {
		return false
	}
	seen[fn] = true
	if fn.Signature.Results().Len() > 0 {
		return true
	}
	for _, c := range p.callers[fn] {
		if p.givesResult(c.Parent(), seen) {
			return true
		}
	}
	return false
}

func returnsOptions(fn *ssa.Function) bool {
	for _, t := range resultTypes(fn) {
		if isOptions(t) {
			return true
		}
	}
	return false
}

func returnsTemplate(fn *ssa.Function) bool {
	for _, t := range resultTypes(fn) {
		if isTemplatePtr(t) {
			return true
		}
	}
	return false
}

func freshMap(t string) bool {
	return strings.HasPrefix(t, "mk(") || strings.HasPrefix(t, "call:maps.Clone")
}

// freshOptions: the value is a map made on the way.
func (p *Program) freshOptions(u *usage, v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch v := v.(type) {
	case *ssa.MakeMap:
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !p.freshOptions(u, e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if al, ok := v.X.(*ssa.Alloc); ok {
			if st := onlyStore(al); st != nil {
				return p.freshOptions(u, st.Val, depth+1)
			}
		}
	case *ssa.ChangeType:
		return p.freshOptions(u, v.X, depth+1)
	case *ssa.Call:
		callee := p.Callee(&v.Call)
		if callee == nil {
			return false
		}
		if callee.Pkg != nil && callee.Pkg.Pkg.Path() == "maps" || callee.Origin() != nil && strings.HasPrefix(fnName(callee.Origin()), "maps.Clone") {
			return true
		}
		if returnsReceiver(callee) && len(v.Call.Args) > 0 {
			return p.freshOptions(u, v.Call.Args[0], depth+1)
		}
		n := 0
		for _, b := range callee.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				n++
				if len(ret.Results) != 1 || !p.freshOptions(u, ret.Results[0], depth+1) {
					return false
				}
			}
		}
		return n > 0
	case *ssa.Parameter:
		fn := v.Parent()
		if u.entry(fn) || len(u.callers[fn]) == 0 {
			return false
		}
		for i, prm := range fn.Params {
			if prm != v {
				continue
			}
			for _, c := range sortedFuncs(u.callers[fn]) {
				ok := true
				for _, g := range p.Funcs {
					if enclosing(g) == c {
						callsIn(g, func(call ssa.CallInstruction) {
							if p.Callee(call.Common()) == fn && (len(call.Common().Args) <= i || !p.freshOptions(u, call.Common().Args[i], depth+1)) {
								ok = false
							}
						})
					}
				}
				if !ok {
					return false
				}
			}
		}
		return true
	}
	return false
}

// returnsReceiver: the function returns its first parameter (Set and Unset of the options).
func returnsReceiver(fn *ssa.Function) bool {
	n := 0
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(ret.Results) != 1 || len(fn.Params) == 0 {
				return false
			}
			res := ret.Results[0]
			if call, ok := res.(*ssa.Call); ok {
				if cal := call.Call.StaticCallee(); cal != nil && cal != fn && len(call.Call.Args) > 0 && call.Call.Args[0] == fn.Params[0] && returnsReceiver(cal) {
					n++
					continue
				}
				return false
			}
			if res != fn.Params[0] {
				return false
			}
			n++
		}
	}
	return n > 0
}
