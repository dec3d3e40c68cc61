package main

import (
	_ "embed"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Helpers that do not exist in the pinned tree are put back in their callers before anything is
// analysed, so extracting code into a helper leaves the program analysed as it was. The list only
// serves to leave the structure of the pinned tree alone; nothing is assumed of the functions in it.

//go:embed baseline.txt
var baselineText string

//go:linkname ssaReferrers golang.org/x/tools/go/ssa.buildReferrers
func ssaReferrers(*ssa.Function)

func setField(x interface{}, name string, val interface{}) {
	f := reflect.ValueOf(x).Elem().FieldByName(name)
	f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
	if val == nil {
		f.Set(reflect.Zero(f.Type()))
		return
	}
	f.Set(reflect.ValueOf(val))
}

func signatureText(fn *ssa.Function) string {
	s := ""
	if r := fn.Signature.Recv(); r != nil {
		s = r.Type().String()
	}
	q := func(t *types.Tuple) {
		s += "("
		for i := 0; i < t.Len(); i++ {
			s += t.At(i).Type().String() + ","
		}
		s += ")"
	}
	q(fn.Signature.Params())
	q(fn.Signature.Results())
	return shorten(s)
}

func baselineKey(fn *ssa.Function) string {
	return fnName(fn) + "\t" + fn.Pkg.Pkg.Path() + "\t" + signatureText(fn)
}

func declared(fn *ssa.Function) bool {
	return fn.Parent() == nil && fn.Synthetic == "" && fn.Pkg != nil && fn.Origin() == nil && len(fn.Blocks) > 0 && fn.Signature.TypeParams() == nil && fn.Signature.RecvTypeParams() == nil
}

// newHelpers are the unexported functions that the pinned tree does not have. A function taking the
// place of one that disappeared, with its signature, is that function renamed.
func newHelpers(all map[*ssa.Function]bool, inRepo func(*ssa.Function) bool) map[*ssa.Function]bool {
	if os.Getenv("WRITE_BASELINE") != "" {
		var l []string
		for fn := range all {
			if inRepo(fn) && declared(fn) && fn.Name() != "init" {
				l = append(l, baselineKey(fn))
			}
		}
		sort.Strings(l)
		os.WriteFile(os.Getenv("WRITE_BASELINE"), []byte(strings.Join(l, "\n")+"\n"), 0o644)
		os.Exit(0)
	}
	missing := map[string]string{}
	for _, l := range strings.Split(strings.TrimSpace(baselineText), "\n") {
		if i := strings.Index(l, "\t"); i > 0 {
			missing[l[:i]] = l[i+1:]
		}
	}
	var cands []*ssa.Function
	found := map[string]bool{}
	for fn := range all {
		if !inRepo(fn) || !declared(fn) {
			continue
		}
		if _, ok := missing[fnName(fn)]; ok {
			found[fnName(fn)] = true
			continue
		}
		if n := fn.Name(); token.IsExported(n) || n == "main" || n == "init" || strings.HasPrefix(n, "init#") {
			continue
		}
		cands = append(cands, fn)
	}
	sort.Slice(cands, func(i, j int) bool { return cands[i].String() < cands[j].String() })
	gone := map[string][]string{}
	for n, s := range missing {
		if !found[n] {
			gone[s] = append(gone[s], n)
		}
	}
	fresh := map[string]int{}
	for _, fn := range cands {
		fresh[fn.Pkg.Pkg.Path()+"\t"+signatureText(fn)]++
	}
	res := map[*ssa.Function]bool{}
	for _, fn := range cands {
		k := fn.Pkg.Pkg.Path() + "\t" + signatureText(fn)
		if len(gone[k]) > 0 {
			if len(gone[k]) == 1 && fresh[k] == 1 {
				funcAlias[fn] = gone[k][0]
			} else if len(gone[k]) == fresh[k] {
				sort.Slice(gone[k], func(i, j int) bool {
					a, b := gone[k][i], gone[k][j]
					return len(a) < len(b) || len(a) == len(b) && a < b
				})
				for _, g := range gone[k] {
					short := g[strings.LastIndex(g, ".")+1:]
					if strings.Contains(strings.ToLower(fn.Name()), strings.ToLower(short)) {
						funcAlias[fn] = g
					}
				}
			}
			continue
		}
		res[fn] = true
	}
	return res
}

func inlinable(fn *ssa.Function) bool {
	if fn.Recover != nil || len(fn.Blocks) > 400 {
		return false
	}
	ret := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				return false
			case *ssa.Return:
				ret = true
			case ssa.CallInstruction:
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return false
				}
			}
		}
	}
	return ret
}

func hasClosure(fn *ssa.Function) bool { return len(fn.AnonFuncs) > 0 }

// inlineHelpers puts the helpers back in their callers and gives those that nothing reaches any more.
func inlineHelpers(all map[*ssa.Function]bool, inRepo func(*ssa.Function) bool, dead map[*ssa.Function]bool) {
	helpers := newHelpers(all, inRepo)
	if os.Getenv("NO_INLINE") != "" {
		return
	}
	for fn := range helpers {
		if !inlinable(fn) {
			delete(helpers, fn)
		}
	}
	var fns []*ssa.Function
	for fn := range all {
		if len(fn.Blocks) > 0 && !dead[fn] {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool {
		if fns[i].String() != fns[j].String() {
			return fns[i].String() < fns[j].String()
		}
		return fns[i].Pos() < fns[j].Pos()
	})
	// callees first
	sites := map[*ssa.Function]int{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if g, ok := c.Call.Value.(*ssa.Function); ok && helpers[g] {
						sites[g]++
					}
				}
			}
		}
	}
	for fn := range helpers {
		if hasClosure(fn) && sites[fn] != 1 {
			delete(helpers, fn)
		}
	}
	// the helpers that call themselves stay as they are
	calls := map[*ssa.Function][]*ssa.Function{}
	for fn := range helpers {
		var collect func(f *ssa.Function)
		collect = func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok && helpers[g] {
							calls[fn] = append(calls[fn], g)
						}
					}
				}
			}
			for _, an := range f.AnonFuncs {
				collect(an)
			}
		}
		collect(fn)
	}
	var looping []*ssa.Function
	for fn := range helpers {
		seen := map[*ssa.Function]bool{}
		todo := calls[fn]
		for len(todo) > 0 {
			g := todo[0]
			todo = todo[1:]
			if !seen[g] {
				seen[g] = true
				todo = append(todo[:len(todo):len(todo)], calls[g]...)
			}
		}
		if seen[fn] {
			looping = append(looping, fn)
		}
	}
	for _, fn := range looping {
		delete(helpers, fn)
	}
	state := map[*ssa.Function]int{}
	if os.Getenv("DBG_INL") != "" {
		println("helpers", len(helpers), "looping", len(looping), "fns", len(fns))
	}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		state[fn] = 1
		for again := true; again; {
			again = false
			for _, b := range fn.Blocks {
				for i, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					g := onceClosure(c)
					if g == nil {
						g, ok = c.Call.Value.(*ssa.Function)
						if !ok || !helpers[g] {
							continue
						}
					}
					if state[g] == 1 {
						continue
					}
					if state[g] == 0 {
						visit(g)
					}
					mc, _ := c.Call.Value.(*ssa.MakeClosure)
					inlineCall(fn, b, i, c, g)
					if g.Parent() == fn {
						dead[g] = true
						for _, b := range fn.Blocks {
							for i, in := range b.Instrs {
								if mc != nil && in == ssa.Instruction(mc) {
									b.Instrs = append(b.Instrs[:i:i], b.Instrs[i+1:]...)
									break
								}
							}
						}
						refresh(fn)
					}
					again = true
					break
				}
				if again {
					break
				}
			}
		}
		state[fn] = 2
	}
	for _, fn := range fns {
		if state[fn] == 0 {
			visit(fn)
		}
	}
	for fn := range helpers {
		still := false
		for _, f := range fns {
			if f == fn {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if *op == ssa.Value(fn) {
							still = true
						}
					}
				}
			}
		}
		if !still {
			dead[fn] = true
		}
	}
}

// onceClosure gives the function written where it is called (or only called there).
func onceClosure(c *ssa.Call) *ssa.Function {
	var g *ssa.Function
	switch v := c.Call.Value.(type) {
	case *ssa.MakeClosure:
		if len(*v.Referrers()) != 1 {
			return nil
		}
		g = v.Fn.(*ssa.Function)
	case *ssa.Function:
		g = v
	}
	if g == nil || g.Parent() == nil || g.Parent() != c.Parent() || g.Synthetic != "" || len(g.Blocks) == 0 || !inlinable(g) {
		return nil
	}
	if _, ok := c.Call.Value.(*ssa.Function); ok {
		n := 0
		for _, b := range c.Parent().Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(g) {
						n++
					}
				}
			}
		}
		if n != 1 {
			return nil
		}
	}
	return g
}

func copyInstr(in ssa.Instruction) ssa.Instruction {
	old := reflect.ValueOf(in).Elem()
	n := reflect.New(old.Type())
	n.Elem().Set(old)
	res := n.Interface().(ssa.Instruction)
	switch x := res.(type) {
	case *ssa.Phi:
		x.Edges = append([]ssa.Value(nil), x.Edges...)
	case *ssa.MakeClosure:
		x.Bindings = append([]ssa.Value(nil), x.Bindings...)
	case *ssa.Return:
		x.Results = append([]ssa.Value(nil), x.Results...)
	case *ssa.Call:
		x.Call.Args = append([]ssa.Value(nil), x.Call.Args...)
	case *ssa.Go:
		x.Call.Args = append([]ssa.Value(nil), x.Call.Args...)
	case *ssa.Select:
		st := make([]*ssa.SelectState, len(x.States))
		for i, s := range x.States {
			c := *s
			st[i] = &c
		}
		x.States = st
	}
	return res
}

func inlineCall(fn *ssa.Function, b *ssa.BasicBlock, k int, call *ssa.Call, g *ssa.Function) {
	values := map[ssa.Value]ssa.Value{}
	for i, prm := range g.Params {
		values[prm] = call.Call.Args[i]
	}
	if mc, ok := call.Call.Value.(*ssa.MakeClosure); ok {
		for i, fv := range g.FreeVars {
			values[fv] = mc.Bindings[i]
		}
	}
	blocks := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	newBlock := func(comment string) *ssa.BasicBlock {
		nb := &ssa.BasicBlock{Comment: comment}
		setField(nb, "parent", fn)
		return nb
	}
	var added []*ssa.BasicBlock
	for _, ob := range g.Blocks {
		blocks[ob] = newBlock(ob.Comment)
		added = append(added, blocks[ob])
	}
	rest := newBlock(b.Comment)
	type ret struct {
		from    *ssa.BasicBlock
		results []ssa.Value
	}
	var rets []ret
	for _, ob := range g.Blocks {
		nb := blocks[ob]
		for _, p := range ob.Preds {
			nb.Preds = append(nb.Preds, blocks[p])
		}
		for _, s := range ob.Succs {
			nb.Succs = append(nb.Succs, blocks[s])
		}
		for _, in := range ob.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				j := &ssa.Jump{}
				setField(j, "block", nb)
				nb.Instrs = append(nb.Instrs, j)
				nb.Succs = []*ssa.BasicBlock{rest}
				rest.Preds = append(rest.Preds, nb)
				rets = append(rets, ret{nb, append([]ssa.Value(nil), r.Results...)})
				continue
			}
			c := copyInstr(in)
			setField(c, "block", nb)
			if v, ok := in.(ssa.Value); ok {
				values[v] = c.(ssa.Value)
			}
			if a, ok := c.(*ssa.Alloc); ok && !a.Heap {
				fn.Locals = append(fn.Locals, a)
			}
			nb.Instrs = append(nb.Instrs, c)
		}
	}
	for _, nb := range added {
		for _, in := range nb.Instrs {
			for _, op := range in.Operands(nil) {
				if v, ok := values[*op]; ok {
					*op = v
				}
			}
		}
	}
	// results
	results := make([]ssa.Value, g.Signature.Results().Len())
	var phis []ssa.Instruction
	for i := range results {
		var edges []ssa.Value
		for _, r := range rets {
			v := r.results[i]
			if n, ok := values[v]; ok {
				v = n
			}
			edges = append(edges, v)
		}
		if len(edges) == 1 {
			results[i] = edges[0]
			continue
		}
		ph := &ssa.Phi{Edges: edges, Comment: g.Name()}
		setField(ph, "typ", g.Signature.Results().At(i).Type())
		setField(ph, "pos", call.Pos())
		setField(ph, "block", rest)
		phis = append(phis, ph)
		results[i] = ph
	}
	// split the block
	tail := b.Instrs[k+1:]
	rest.Instrs = append(phis, tail...)
	for _, in := range tail {
		setField(in, "block", rest)
	}
	rest.Succs = b.Succs
	for _, s := range rest.Succs {
		for i, p := range s.Preds {
			if p == b {
				s.Preds[i] = rest
			}
		}
	}
	j := &ssa.Jump{}
	setField(j, "block", b)
	b.Instrs = append(append([]ssa.Instruction(nil), b.Instrs[:k]...), j)
	entry := blocks[g.Blocks[0]]
	b.Succs = []*ssa.BasicBlock{entry}
	entry.Preds = append(entry.Preds, b)
	// blocks in order
	var list []*ssa.BasicBlock
	for _, x := range fn.Blocks {
		list = append(list, x)
		if x == b {
			list = append(list, added...)
			list = append(list, rest)
		}
	}
	fn.Blocks = list
	// uses of the results
	repl := map[ssa.Value]ssa.Value{}
	if len(results) == 1 {
		repl[call] = results[0]
	}
	for _, x := range fn.Blocks {
		kept := x.Instrs[:0]
		for _, in := range x.Instrs {
			if ex, ok := in.(*ssa.Extract); ok && ex.Tuple == ssa.Value(call) {
				repl[ex] = results[ex.Index]
				continue
			}
			kept = append(kept, in)
		}
		x.Instrs = kept
	}
	for i, x := range fn.Blocks {
		x.Index = i
		for _, in := range x.Instrs {
			for _, op := range in.Operands(nil) {
				for n := 0; n < 10; n++ {
					v, ok := repl[*op]
					if !ok {
						break
					}
					*op = v
				}
			}
		}
	}
	for _, a := range g.AnonFuncs {
		setField(a, "parent", fn)
		setField(a, "anonIdx", int32(len(fn.AnonFuncs)))
		fn.AnonFuncs = append(fn.AnonFuncs, a)
	}
	refresh(fn)
}

// refresh recomputes what the builder derives from the blocks of a function.
func refresh(fn *ssa.Function) {
	clear := func(v ssa.Value) {
		if r := v.Referrers(); r != nil {
			*r = nil
		}
	}
	for _, p := range fn.Params {
		clear(p)
	}
	for _, f := range fn.FreeVars {
		clear(f)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				clear(v)
			}
		}
	}
	ssaReferrers(fn)
	ssaDomTree(fn)
	ssaLift(fn)
	ssaNumber(fn)
}
