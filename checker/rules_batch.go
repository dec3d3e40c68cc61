package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", "Property simulation of the loop that processes the files, plus an effect check of everything a single file reaches: a per-file error is collected on every path, the loop is left only when the files are exhausted, the collected errors reach the caller, and no operating-system failure is turned into a panic.", ruleC04,
		"failures inside the standard library and the template engine are returned as errors, not as panics",
		"run-time panics (index out of range, nil dereference) are not bounded statically")
	register("C05", "Property simulation of the command's main function: every path on which a step is known to have failed returns a non-zero status, every path on which none did returns zero, and the status is what the process exits with.", ruleC05,
		"the command-line parser's own exits (usage, --help) are outside the property")
}

// perFile lists the calls that process one file: callees reaching both a rendering and a file mutation.
func ruleC04(p *Program, r *Report) {
	r.rule("in the loop over the files: after a per-file error, the error is handed to a collection that flows to the returned error, on every path back to the loop head")
	r.rule("the loop over the files is left only from its head")
	r.rule("in everything a single file reaches by calls: no Must on the result of an operating-system call, no explicit panic, no exit")
	reachExec := p.reach(isExec)
	reachSink := p.reach(isFsMutator)
	var loopFns []*ssa.Function
	perFile := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != tmplPkg || !reachExec[fn] || !reachSink[fn] {
			continue
		}
		li := newLoopInfo(fn)
		found := false
		for _, body := range li.bodies {
			for _, b := range body {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok {
						cal := p.Callee(&c.Call)
						if cal != nil && reachExec[cal] && reachSink[cal] && isErrorResult(cal) {
							perFile[cal] = true
							found = true
						}
					}
				}
			}
		}
		if found {
			loopFns = append(loopFns, fn)
		}
	}
	r.need("loops over files", len(loopFns), 1)
	for _, fn := range loopFns {
		li := newLoopInfo(fn)
		for h, body := range li.bodies {
			in := map[*ssa.BasicBlock]bool{}
			for _, b := range body {
				in[b] = true
			}
			has := false
			for _, b := range body {
				for _, i := range b.Instrs {
					if c, ok := i.(*ssa.Call); ok && perFile[p.Callee(&c.Call)] {
						has = true
					}
				}
			}
			if !has {
				continue
			}
			for _, b := range body {
				if b == h {
					continue
				}
				for _, sc := range b.Succs {
					if !in[sc] && !onlyExit(li, h, b) {
						r.bad("loop-exit|"+fnName(fn), p.instrPos(b.Instrs[len(b.Instrs)-1]), "the loop over the files of %s can be left before the last file", fnName(fn))
					}
				}
				if len(b.Succs) == 0 {
					r.bad("loop-exit|"+fnName(fn), p.instrPos(b.Instrs[len(b.Instrs)-1]), "the loop over the files of %s can be left before the last file", fnName(fn))
				}
			}
			r.ok("%s: the loop over the files is left only from its head", fnName(fn))
		}
		// path part
		s := newSim(p)
		s.inline = func(fr *Frame, callee *ssa.Function) bool {
			return !reachExec[callee] && callee.Pkg != nil && callee.Pkg.Pkg.Path() == tmplPkg && isErrorResult(callee)
		}
		s.relevant = func(a string) bool { return strings.HasPrefix(a, "nil?(file.err") }
		calls, bad := 0, false
		check := func(fr *Frame, st *State, where string, pos string) {
			if fr.parent != nil || !st.ev["file.done"] {
				return
			}
			if v, ok := st.atoms["nil?(file.err)"]; ok && v || st.ev["collected"] {
				return
			}
			bad = true
			r.bad("file-error|"+fnName(fn), pos, "%s: %s although the error of the file just processed was neither nil nor collected into what is returned", fnName(fn), where)
		}
		s.onCall = func(s *Sim, fr *Frame, st *State, site ssa.CallInstruction, name string, args []string) []Outcome {
			cal := p.Callee(site.Common())
			if cal != nil && perFile[cal] {
				calls++
				ns := st.clone()
				delete(ns.atoms, "nil?(file.err)")
				delete(ns.ev, "collected")
				ns.ev["file.done"] = true
				var res []string
				for _, t := range resultTypes(cal) {
					if isErrorType(t) {
						res = append(res, "file.err")
					} else {
						res = append(res, "file.result")
					}
				}
				return []Outcome{{st: ns, results: res}}
			}
			for _, a := range args {
				if strings.Contains(a, "file.err") {
					if v, ok := site.(ssa.Value); ok && flowsToReturn(p, v, map[ssa.Value]bool{}) {
						ns := st.clone()
						ns.ev["collected"] = true
						return []Outcome{{st: ns}}
					}
				}
			}
			return nil
		}
		s.onBack = func(s *Sim, fr *Frame, st *State, h *ssa.BasicBlock) {
			check(fr, st, "the next file is started", p.instrPos(h.Instrs[len(h.Instrs)-1]))
			delete(st.ev, "file.done")
			delete(st.ev, "collected")
			delete(st.atoms, "nil?(file.err)")
		}
		s.onReturn = func(s *Sim, fr *Frame, st *State, ret *ssa.Return, results []string) {
			for _, x := range results {
				if strings.Contains(x, "file.err") {
					return
				}
			}
			check(fr, st, "the function returns", p.instrPos(ret))
		}
		s.Run(fn, newState(), nil)
		if s.overflow != "" {
			r.bad("internal|overflow", "-", "%s", s.overflow)
		}
		r.count("per-file calls followed", calls)
		if !bad {
			r.ok("%s: every per-file error is collected and flows to the returned error", fnName(fn))
		}
	}
	// effect part
	n := 0
	for fn := range perFile {
		for f, path := range p.callReach(fn) {
			n++
			own := f.Pkg != nil && hasPrefixAny(enclosing(f).Pkg.Pkg.Path(), tmplPkg, modPath+"/utils")
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if _, ok := in.(*ssa.Panic); ok && own && in.Pos().IsValid() {
						r.bad("panic|"+fnName(f), p.instrPos(in), "processing one file can panic: %s", path)
					}
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					switch name := p.calleeName(c.Common()); name {
					case "github.com/coveooss/multilogger/errors.Must":
						if src := mustOS(p, c.Common()); src != "" {
							r.bad("must|"+fnName(f)+"|"+src, p.instrPos(in), "a failure of %s while processing one file panics and stops the other files: %s", src, path)
						}
					case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "github.com/coveooss/multilogger/errors.Raise":
						if own {
							r.bad("exit|"+fnName(f), p.instrPos(in), "processing one file can end the program through %s: %s", name, path)
						}
					}
				}
			}
		}
	}
	r.need("functions reached by one file", n, 20)
}

func isErrorResult(f *ssa.Function) bool {
	rt := resultTypes(f)
	return len(rt) > 0 && isErrorType(rt[len(rt)-1])
}

// onlyExit: b is part of the loop condition (a chain of tests from the head without any other effect).
func onlyExit(li *loopInfo, h, b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch in.(type) {
		case *ssa.If, *ssa.BinOp, *ssa.UnOp, *ssa.Phi, *ssa.Lookup, *ssa.IndexAddr:
		default:
			return false
		}
	}
	return len(b.Preds) == 1 && (b.Preds[0] == h || onlyExit(li, h, b.Preds[0]))
}

// mustOS names the operating-system call whose error a Must turns into a panic.
func mustOS(p *Program, c *ssa.CallCommon) string {
	if len(c.Args) == 0 {
		return ""
	}
	els, ok := variadic(c.Args[len(c.Args)-1])
	if !ok {
		return ""
	}
	for _, e := range els {
		v := unwrap(e)
		if ex, ok := v.(*ssa.Extract); ok {
			v = ex.Tuple
		}
		if call, ok := v.(*ssa.Call); ok {
			if f := p.Callee(&call.Call); f != nil && f.Pkg != nil {
				switch f.Pkg.Pkg.Path() {
				case "os", "os/exec", "io", "io/ioutil", "net/http", "net":
					return fnName(f)
				}
			}
		}
	}
	return ""
}

// flowsToReturn follows a value forward to an error result of its function.
func flowsToReturn(p *Program, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.Return:
			return true
		case *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Convert, *ssa.Slice, *ssa.Extract:
			if flowsToReturn(p, x.(ssa.Value), seen) {
				return true
			}
		case *ssa.Call:
			n := p.calleeName(&x.Call)
			if n == "builtin append" || len(x.Call.Args) > 0 && returnsErrorish(x.Type()) {
				if flowsToReturn(p, x, seen) {
					return true
				}
			}
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			if flowsToReturn(p, root(x.Addr), seen) {
				return true
			}
			for _, r := range derefs(root(x.Addr)) {
				if flowsToReturn(p, r, seen) {
					return true
				}
			}
		case *ssa.UnOp:
			if flowsToReturn(p, x, seen) {
				return true
			}
		}
	}
	return false
}

func returnsErrorish(t types.Type) bool {
	if isErrorType(t) {
		return true
	}
	if tup, ok := t.(*types.Tuple); ok {
		for i := 0; i < tup.Len(); i++ {
			if isErrorType(tup.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return types.Implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
}

// root strips field and index steps from an address.
func root(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
}

// derefs lists the loads of an address.
func derefs(v ssa.Value) []ssa.Value {
	var res []ssa.Value
	if v.Referrers() == nil {
		return nil
	}
	for _, r := range *v.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok {
			res = append(res, u)
		}
		if sl, ok := r.(*ssa.Slice); ok {
			res = append(res, sl)
		}
	}
	return res
}

func trackWithInts(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Int {
		return true
	}
	return defaultTrack(t)
}

func ruleC05(p *Program, r *Report) {
	r.rule("on every return of the command's run function: some step of this repository (or the file system) is known to have failed => status != 0; otherwise => status == 0; a recovered panic => status != 0")
	r.rule("main exits with the status of the run function")
	mainFn := p.SSAPkgs[modPath].Func("main")
	if mainFn == nil {
		r.bad("anchor|main", "-", "no main function")
		return
	}
	var run *ssa.Function
	callsIn(mainFn, func(c ssa.CallInstruction) {
		if p.calleeName(c.Common()) == "os.Exit" && len(c.Common().Args) == 1 {
			if call, ok := c.Common().Args[0].(*ssa.Call); ok {
				if f := p.Callee(&call.Call); f != nil && p.inRepo(f) {
					run = f
				}
			}
		}
	})
	if run == nil {
		r.bad("main-exit|main", p.pos(mainFn.Pos()), "main does not end the process with the status its run function returns")
		return
	}
	r.ok("main exits with the result of %s", fnName(run))
	s := newSim(p)
	s.track = trackWithInts
	s.budget = 2000000
	s.relevant = func(a string) bool {
		if !strings.HasPrefix(a, "nil?(") {
			return strings.Contains(a, "gnore") || strings.HasPrefix(a, "call:os.IsNotExist(") || strings.Contains(a, "errors.Is(")
		}
		return strings.HasPrefix(a, "nil?(step:")
	}
	steps := map[string]bool{}
	s.inline = func(fr *Frame, callee *ssa.Function) bool {
		return callee.Pkg != nil && callee.Pkg.Pkg.Path() == modPath && (callee.Parent() != nil || isStepHelper(p, callee))
	}
	s.onCall = func(s *Sim, fr *Frame, st *State, site ssa.CallInstruction, name string, args []string) []Outcome {
		cal := p.Callee(site.Common())
		if cal != nil && p.inRepo(cal) && isErrorResult(cal) && !s.inline(fr, cal) {
			steps[fnName(cal)] = true
			st = st.clone()
			st.ev["step:"+fnName(cal)] = true
			delete(st.atoms, "nil?(step:"+fnName(cal)+")")
			var res []string
			for _, t := range resultTypes(cal) {
				if isErrorType(t) {
					res = append(res, "step:"+fnName(cal))
				} else {
					res = append(res, "")
				}
			}
			return []Outcome{{st: st, results: res}}
		}
		if name == "os.Exit" && st.ev["recovered"] {
			return nil
		}
		return nil
	}
	exits := s.Run(run, newState(), nil)
	if s.overflow != "" {
		r.bad("internal|overflow", "-", "%s", s.overflow)
	}
	returns, failing := 0, 0
	for _, e := range exits {
		if e.panics {
			if !e.exits {
				r.bad("panic-escapes|"+fnName(run), p.pos(run.Pos()), "a panic can leave %s instead of being turned into a status", fnName(run))
			}
			continue
		}
		if len(e.results) != 1 {
			r.bad("anchor|status", p.pos(run.Pos()), "%s does not return one status", fnName(run))
			return
		}
		returns++
		var failed []string
		for a, v := range e.st.atoms {
			if strings.HasPrefix(a, "nil?(step:") && !v {
				failed = append(failed, strings.TrimSuffix(strings.TrimPrefix(a, "nil?(step:"), ")"))
			}
		}
		sort.Strings(failed)
		var unknown []string
		for ev := range e.st.ev {
			if strings.HasPrefix(ev, "step:") {
				if _, ok := e.st.atoms["nil?("+ev+")"]; !ok {
					unknown = append(unknown, strings.TrimPrefix(ev, "step:"))
				}
			}
		}
		sort.Strings(unknown)
		pos := p.pos(run.Pos())
		if e.ret != nil {
			pos = p.instrPos(e.ret)
		}
		res := e.results[0]
		known := strings.HasPrefix(res, "c:") || strings.HasPrefix(res, "-(")
		zero := zeroStatus(res)
		missing := false
		for a, v := range e.st.atoms {
			if v && (strings.HasPrefix(a, "call:os.IsNotExist(")) {
				ignored := false
				for b, w := range e.st.atoms {
					if w && strings.Contains(b, "gnore") {
						ignored = true
					}
				}
				missing = !ignored
			}
		}
		switch {
		case !known:
			r.bad("status-unknown|"+fnName(run), pos, "the returned status %s is not a known constant", res)
		case len(failed) > 0 && zero:
			for _, f := range failed {
				r.bad("zero-on-failure|"+f, pos, "status 0 is returned on a path where %s is known to have failed; facts: %s", f, e.st.describe())
			}
		case missing && zero:
			r.bad("zero-on-failure|source missing", pos, "status 0 is returned although the source folder does not exist and that was not to be ignored; facts: %s", e.st.describe())
		case len(failed) > 0 || missing:
			failing++
			r.ok("%s: status %s when {%s} failed", pos, res, strings.Join(failed, ","))
		case len(unknown) > 0 && zero:
			for _, f := range unknown {
				r.bad("failure-ignored|"+f, pos, "status 0 is returned on a path where the outcome of %s is not known to be a success; facts: %s", f, e.st.describe())
			}
		default:
			if zero {
				r.ok("%s: status 0 when nothing failed", pos)
			} else if e.ret != nil && e.ret.Block() != run.Recover {
				r.bad("nonzero-on-success|"+fnName(run), pos, "status %s is returned on a path where no step is known to have failed; facts: %s", res, e.st.describe())
			} else if e.ret != nil {
				failing++
				r.ok("%s: status %s after a recovered panic", pos, res)
			}
		}
		if e.ret != nil && e.ret.Block() == run.Recover && zero {
			r.bad("zero-on-panic|"+fnName(run), pos, "status 0 is returned after a recovered panic; facts: %s", e.st.describe())
		}
	}
	r.need("returns of the run function (per path)", returns, 5)
	r.need("failing returns (per path)", failing, 3)
	r.need("steps whose failure is followed", len(steps), 3)
	r.count("call sites followed", s.sites)
}

// isStepHelper: a helper of package main reporting a status (int) and not an error.
func isStepHelper(p *Program, f *ssa.Function) bool {
	if isErrorResult(f) {
		return false
	}
	for _, t := range resultTypes(f) {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			return true
		}
	}
	return len(resultTypes(f)) == 0
}

// zeroStatus: the system only keeps the lowest byte of a status.
func zeroStatus(res string) bool {
	n, err := strconv.ParseInt(strings.TrimPrefix(res, "c:"), 10, 64)
	return err == nil && n%256 == 0
}
