package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", "Every recover is followed along the paths on which there was a panic up to the result of the function that catches it; reachability of the evaluator from the exported functions, the batch loops, the goroutines and main, that stops at the functions catching panics before anything else is done.", rulePanics,
		"functions called by the template engine are protected by it (a panic in one of them is an error of the execution)",
		"errors.Trap of multilogger returns an error when something was recovered")
}

// the functions that translate or evaluate what users wrote
var evaluators = map[string]bool{
	"(*text/template.Template).Execute": true, "(*text/template.Template).ExecuteTemplate": true, "go/parser.ParseExpr": true,
	"(*regexp.Regexp).ReplaceAllFunc": true, "(*regexp.Regexp).ReplaceAllStringFunc": true,
}

// recovers lists the calls to recover of a function.
func (p *Program) recovers(fn *ssa.Function) (res []*ssa.Call) {
	callsIn(fn, func(c ssa.CallInstruction) {
		if call, ok := c.(*ssa.Call); ok && p.calleeName(c.Common()) == "builtin recover" {
			res = append(res, call)
		}
	})
	return
}

type panicRules struct {
	p *Program
	// the deferred calls that catch panics: the call of defer of each function
	catches map[*ssa.Function][]*ssa.Defer
	reports map[*ssa.Defer]string // why a deferred call does not report what it catches
	again   map[*ssa.Defer]bool // what is recovered may be thrown again
}

func (a *panicRules) find() {
	for _, fn := range a.p.Funcs {
		callsIn(fn, func(c ssa.CallInstruction) {
			d, ok := c.(*ssa.Defer)
			if !ok {
				return
			}
			callee := a.p.Callee(d.Common())
			if callee == nil {
				return
			}
			callee = a.p.realFunc(callee)
			recs := a.p.recovers(callee)
			if len(recs) == 0 {
				return
			}
			a.catches[fn] = append(a.catches[fn], d)
			for _, rec := range recs {
				if why := a.lost(fn, d, callee, rec); why != "" {
					a.reports[d] = why
				}
			}
		})
	}
}

// cell gives the variable of fn that an address stands for in the deferred function.
func (a *panicRules) cell(addr ssa.Value, d *ssa.Defer, callee *ssa.Function) *ssa.Alloc {
	switch v := addr.(type) {
	case *ssa.FreeVar:
		if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
			for i, fv := range callee.FreeVars {
				if fv == v && i < len(mc.Bindings) {
					al, _ := mc.Bindings[i].(*ssa.Alloc)
					return al
				}
			}
		}
		return freeVarAlloc(v)
	case *ssa.Parameter:
		for i, prm := range callee.Params {
			if prm == v && i < len(d.Call.Args) {
				al, _ := d.Call.Args[i].(*ssa.Alloc)
				return al
			}
		}
	}
	return nil
}

// resultCells lists the variables holding the results of fn when it ends with a panic that is caught.
func resultCells(fn *ssa.Function) map[*ssa.Alloc]types.Type {
	res := map[*ssa.Alloc]types.Type{}
	if fn.Recover == nil {
		return res
	}
	for _, in := range fn.Recover.Instrs {
		if ret, ok := in.(*ssa.Return); ok {
			for _, v := range ret.Results {
				if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
					if al, ok := ld.X.(*ssa.Alloc); ok {
						res[al] = v.Type()
					}
				}
			}
		}
	}
	return res
}

type panicWalk struct {
	again func(from map[*ssa.BasicBlock]*ssa.BasicBlock) // called where it panics again
	a     *panicRules
	rec   ssa.Value
	cells map[ssa.Value]*ssa.Alloc
	steps int
	depth int
}

// failing tells whether a value is surely an error (or a failing status) when something was recovered.
func (w *panicWalk) failing(v ssa.Value, mem map[ssa.Value]ssa.Value, from map[*ssa.BasicBlock]*ssa.BasicBlock, depth int) bool {
	if depth > 20 {
		return false
	}
	if v == w.rec {
		return true
	}
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value != nil && v.Value.Kind() == constant.Int && !zeroStatus(v.Value.ExactString())
	case *ssa.MakeInterface, *ssa.Alloc:
		return true
	case *ssa.ChangeInterface:
		return w.failing(v.X, mem, from, depth+1)
	case *ssa.TypeAssert:
		return w.failing(v.X, mem, from, depth+1)
	case *ssa.Extract:
		if ta, ok := v.Tuple.(*ssa.TypeAssert); ok && v.Index == 0 {
			return assertedOn(ta, from) && w.failing(ta.X, mem, from, depth+1)
		}
	case *ssa.Phi:
		if prev := from[v.Block()]; prev != nil {
			for i, b := range v.Block().Preds {
				if b == prev {
					return w.failing(v.Edges[i], mem, from, depth+1)
				}
			}
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if x, ok := mem[v.X]; ok {
				return w.failing(x, mem, from, depth+1)
			}
		}
	case *ssa.Call:
		callee := w.a.p.Callee(v.Common())
		if callee == nil {
			return false
		}
		switch fnName(callee) {
		case "fmt.Errorf", "errors.New":
			return true
		}
		passed := -1
		for i, arg := range v.Call.Args {
			if arg == w.rec || w.failing(arg, mem, from, depth+1) && !isErrorType(arg.Type()) {
				passed = i
			}
		}
		if strings.HasSuffix(fnName(callee), "multilogger/errors.Trap") {
			return len(v.Call.Args) == 2 && w.failing(v.Call.Args[1], mem, from, depth+1)
		}
		if passed >= 0 && w.a.p.inRepo(callee) && len(callee.Blocks) > 0 && w.depth < 4 && passed < len(callee.Params) {
			return w.a.always(callee, callee.Params[passed], w.depth+1)
		}
	}
	return false
}

// assertedOn tells whether a type assertion with two results has succeeded on a path.
func assertedOn(ta *ssa.TypeAssert, from map[*ssa.BasicBlock]*ssa.BasicBlock) bool {
	for b, prev := range from {
		if prev == nil || len(prev.Succs) != 2 || prev.Succs[0] == prev.Succs[1] {
			continue
		}
		br, ok := prev.Instrs[len(prev.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, want := br.Cond, 0
		if not, ok := cond.(*ssa.UnOp); ok && not.Op == token.NOT {
			cond, want = not.X, 1
		}
		if ex, ok := cond.(*ssa.Extract); ok && ex.Tuple == ta && ex.Index == 1 && prev.Succs[want] == b {
			return true
		}
	}
	return !ta.CommaOk
}

// always tells whether a function always returns an error when it is given what was recovered.
func (a *panicRules) always(fn *ssa.Function, prm ssa.Value, depth int) bool {
	idx := -1
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if isErrorType(res.At(i).Type()) {
			idx = i
		}
	}
	if idx < 0 {
		return false
	}
	w := &panicWalk{a: a, rec: prm, depth: depth}
	ok := true
	w.paths(fn.Blocks[0], nil, func(ret *ssa.Return, mem map[ssa.Value]ssa.Value, from map[*ssa.BasicBlock]*ssa.BasicBlock) {
		if !w.failing(ret.Results[idx], mem, from, 0) {
			ok = false
		}
	})
	return ok && w.steps < 5000
}

// paths follows the paths of a function that are possible when something was recovered.
func (w *panicWalk) paths(start *ssa.BasicBlock, _ ssa.Instruction, end func(*ssa.Return, map[ssa.Value]ssa.Value, map[*ssa.BasicBlock]*ssa.BasicBlock)) {
	var walk func(b, prev *ssa.BasicBlock, mem map[ssa.Value]ssa.Value, from map[*ssa.BasicBlock]*ssa.BasicBlock, count map[*ssa.BasicBlock]int)
	walk = func(b, prev *ssa.BasicBlock, mem map[ssa.Value]ssa.Value, from map[*ssa.BasicBlock]*ssa.BasicBlock, count map[*ssa.BasicBlock]int) {
		w.steps++
		if count[b] >= 2 || w.steps > 5000 {
			return
		}
		mem2, from2, count2 := map[ssa.Value]ssa.Value{}, map[*ssa.BasicBlock]*ssa.BasicBlock{}, map[*ssa.BasicBlock]int{}
		for k, v := range mem {
			mem2[k] = v
		}
		for k, v := range from {
			from2[k] = v
		}
		for k, v := range count {
			count2[k] = v
		}
		from2[b] = prev
		count2[b]++
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				mem2[in.Addr] = in.Val
			case *ssa.Return:
				end(in, mem2, from2)
				return
			case *ssa.Panic:
				if w.again != nil {
					w.again(from2)
				}
				return // goes on as a panic
			case *ssa.If:
				taken := -1
				if cmp, ok := in.Cond.(*ssa.BinOp); ok && (cmp.Op == token.EQL || cmp.Op == token.NEQ) {
					x, y := cmp.X, cmp.Y
					if c, ok := x.(*ssa.Const); ok && c.IsNil() {
						x, y = y, x
					}
					if c, ok := y.(*ssa.Const); ok && c.IsNil() && w.failing(x, mem2, from2, 0) {
						taken = 0
						if cmp.Op == token.EQL {
							taken = 1
						}
					}
				}
				for i, s := range b.Succs {
					if taken < 0 || taken == i {
						walk(s, b, mem2, from2, count2)
					}
				}
				return
			}
		}
		for _, s := range b.Succs {
			walk(s, b, mem2, from2, count2)
		}
	}
	walk(start, nil, map[ssa.Value]ssa.Value{}, map[*ssa.BasicBlock]*ssa.BasicBlock{}, map[*ssa.BasicBlock]int{})
}

// lost tells why what a deferred call recovers is not reported by the function that defers it.
func (a *panicRules) lost(fn *ssa.Function, d *ssa.Defer, callee *ssa.Function, rec *ssa.Call) string {
	cells := resultCells(fn)
	var status []*ssa.Alloc
	for al, t := range cells {
		bt, ok := t.Underlying().(*types.Basic)
		if isErrorType(t) || ok && bt.Kind() == types.Int && fn.Signature.Results().Len() == 1 {
			status = append(status, al)
		}
	}
	if len(status) == 0 {
		return "has no result to tell about it"
	}
	w := &panicWalk{a: a, rec: rec}
	w.again = func(from map[*ssa.BasicBlock]*ssa.BasicBlock) {
		if _, done := from[rec.Block()]; done {
			a.again[d] = true
		}
	}
	why := ""
	w.paths(callee.Blocks[0], nil, func(_ *ssa.Return, mem map[ssa.Value]ssa.Value, from map[*ssa.BasicBlock]*ssa.BasicBlock) {
		// recover was not called on this path: the panic goes on
		if b := rec.Block(); b != callee.Blocks[0] {
			if _, done := from[b]; !done {
				return
			}
		}
		for addr, val := range mem {
			al := a.cell(addr, d, callee)
			for _, s := range status {
				if al == s && w.failing(val, mem, from, 0) {
					return
				}
			}
		}
		why = "does not make it an error of " + fnName(fn)
	})
	if w.steps >= 5000 {
		return "is too complex to be followed"
	}
	if why != "" {
		return why
	}
	return ""
}

// contained tells whether the panics of a function never get out of it: it catches them before it
// does anything that matters.
func (a *panicRules) contained(fn *ssa.Function, matters func(ssa.Instruction) bool) bool {
	for _, d := range a.catches[fn] {
		if a.reports[d] != "" || a.again[d] {
			continue
		}
		ok := true
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				if in == ssa.Instruction(d) || !matters(in) {
					continue
				}
				if b == d.Block() {
					at := -1
					for j, x := range b.Instrs {
						if x == ssa.Instruction(d) {
							at = j
						}
					}
					ok = ok && at < i
				} else {
					ok = ok && d.Block().Dominates(b)
				}
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func rulePanics(p *Program, r *Report) {
	a := &panicRules{p: p, catches: map[*ssa.Function][]*ssa.Defer{}, reports: map[*ssa.Defer]string{}, again: map[*ssa.Defer]bool{}}
	a.find()
	r.rule("what is recovered becomes, on every path, the error (or the failing status) of the function that catches it")
	n := 0
	for _, fn := range p.Funcs {
		for _, d := range a.catches[fn] {
			n++
			if why := a.reports[d]; why != "" {
				r.bad("lost|"+fnName(fn), p.instrPos(d), "a panic caught by %s is lost: the deferred function %s", fnName(fn), why)
			} else {
				r.ok("%s: a panic becomes its error", fnName(fn))
			}
		}
	}
	r.need("functions catching panics", n, 5)

	// which functions evaluate what users wrote, without anything catching the panics on the way
	r.rule("every exported function that evaluates a content, every file of a batch, every goroutine and main is protected: panics are caught before the evaluator can be reached")
	open := map[*ssa.Function]string{}
	reaches := func(in ssa.Instruction) string {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			if mc, ok := in.(*ssa.MakeClosure); ok && calledHere(mc) {
				if f := p.realFunc(mc.Fn.(*ssa.Function)); open[f] != "" && !deferredOnly(mc) {
					return open[f]
				}
			}
			return ""
		}
		for _, f := range p.Callees(c.Common()) {
			f = p.realFunc(f)
			if evaluators[fnName(f)] {
				return fnName(f)
			}
			if open[f] != "" {
				return open[f]
			}
		}
		return ""
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.Funcs {
			if open[fn] != "" || a.contained(fn, func(in ssa.Instruction) bool { return reaches(in) != "" }) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if why := reaches(in); why != "" && open[fn] == "" {
						open[fn] = why
						changed = true
					}
				}
			}
		}
	}
	// a function found open because of one that was not known yet may be protected after all: the test
	// of protection only gets stricter as more functions are open, so what is open stays open
	exported := 0
	reachAll := p.reach(func(name string) bool { return evaluators[name] })
	var fns []*ssa.Function
	for fn := range reachAll {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	for _, fn := range fns {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != tmplPkg || fn.Parent() != nil || !token.IsExported(fn.Name()) {
			continue
		}
		if recv := fn.Signature.Recv(); recv != nil && !p.namedExported(recv.Type()) {
			continue
		}
		res := fn.Signature.Results()
		hasErr := false
		for i := 0; i < res.Len(); i++ {
			hasErr = hasErr || isErrorType(res.At(i).Type())
		}
		if !hasErr {
			continue
		}
		exported++
		if why := open[fn]; why != "" {
			r.bad("open|"+fnName(fn), p.pos(fn.Pos()), "%s reaches %s without catching the panics: they would end the program instead of being its error", fnName(fn), why)
		} else {
			r.ok("%s: panics of the evaluation are caught", fnName(fn))
		}
	}
	r.need("exported functions evaluating a content", exported, 3)

	// the loops over files
	loops := 0
	for _, fn := range fns {
		if !reachAll[fn] || fn.Pkg == nil || fn.Pkg.Pkg.Path() != tmplPkg && fn.Pkg.Pkg.Name() != "main" {
			continue
		}
		overFiles := false
		for _, prm := range fn.Params {
			if sl, ok := prm.Type().Underlying().(*types.Slice); ok && sl.Elem().String() == "string" {
				overFiles = true
			}
		}
		if !overFiles {
			continue
		}
		inLoop := map[*ssa.BasicBlock]bool{}
		for _, b := range fn.Blocks {
			for _, s := range b.Succs {
				if blockReaches(s, b) {
					inLoop[b] = true
				}
			}
		}
		for _, b := range fn.Blocks {
			if !inLoop[b] {
				continue
			}
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, f := range p.Callees(c.Common()) {
					f = p.realFunc(f)
					if !reachAll[f] {
						continue
					}
					loops++
					if open[f] != "" {
						r.bad("loop|"+fnName(fn)+"|"+fnName(f), p.instrPos(in), "%s processes each file with %s, which lets panics out (from %s): the files that follow would not be processed", fnName(fn), fnName(f), open[f])
					} else {
						r.ok("%s: a panic of %s is an error of that file", fnName(fn), fnName(f))
					}
				}
			}
		}
	}
	r.need("evaluations in a loop over files", loops, 1)

	// goroutines
	may := p.panics()
	for _, fn := range p.Funcs {
		callsIn(fn, func(c ssa.CallInstruction) {
			g, ok := c.(*ssa.Go)
			if !ok {
				return
			}
			why := "a function that is not known"
			if callee := p.Callee(g.Common()); callee != nil {
				callee = p.realFunc(callee)
				why = open[callee]
				if why == "" && len(a.catches[callee]) == 0 {
					why = may.may[callee]
				}
			}
			if why != "" {
				r.bad("go|"+fnName(fn), p.instrPos(g), "%s starts a goroutine that lets panics out (%s): nothing can catch them", fnName(fn), why)
			} else {
				r.ok("%s: goroutine without panics", fnName(fn))
			}
		})
	}

	// main
	guarded := 0
	var visit func(fn *ssa.Function, depth int)
	visit = func(fn *ssa.Function, depth int) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, f := range p.Callees(c.Common()) {
					f = p.realFunc(f)
					if !p.inRepo(f) || len(f.Blocks) == 0 {
						continue
					}
					if len(a.catches[f]) > 0 && a.contained(f, func(in ssa.Instruction) bool { return may.at(in) != "" || reaches(in) != "" }) {
						guarded++
						r.ok("main: panics of %s become a failing status", fnName(f))
						continue
					}
					if may.may[f] == "" && !reachAll[f] && len(a.catches[f]) == 0 {
						continue
					}
					if len(a.catches[f]) == 0 && depth < 3 {
						visit(f, depth+1)
						continue
					}
					r.bad("main|"+fnName(f), p.instrPos(in), "main runs %s, from which panics get out (%s)", fnName(f), may.may[f])
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		if fn.Name() == "main" && fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main" && fn.Parent() == nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "gotemplate/v3") {
			visit(fn, 0)
		}
	}
	r.need("protected functions run by main", guarded, 1)
}

func (p *Program) namedExported(t types.Type) bool {
	if ptr, ok := t.(*types.Pointer); ok {
		t = ptr.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Exported()
}

// deferredOnly tells whether a closure is only deferred where it is made.
func deferredOnly(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		if _, ok := r.(*ssa.Defer); !ok {
			return false
		}
	}
	return true
}

func blockReaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if visit(s) {
				return true
			}
		}
		return false
	}
	return visit(from)
}
