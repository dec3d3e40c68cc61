package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", "Dependence analysis over SSA of every iteration over a map (range, reflect keys, slices filled from them, across returns): what leaves the loop must not depend on the order of the iterations.", ruleOrder,
		"keys that differ as map keys also differ once converted to text", "log messages and the choice of the error reported when several occur are excluded", "values held by different entries are independent objects")
}

// state gives the points-to state of a function at the end of the analysis.
func (e *effects) state(fn *ssa.Function) *effState {
	st := &effState{e: e, fn: fn, pts: map[ssa.Value]locSet{}, heap: map[loc]locSet{}, s: newEffSum(fn)}
	for i, prm := range fn.Params {
		if holdsRefs(prm.Type()) {
			st.pts[prm] = locSet{loc{'p', i, 0}: true}
		}
	}
	for i, fv := range fn.FreeVars {
		st.pts[fv] = locSet{loc{'p', len(fn.Params) + i, 0}: true}
	}
	for round := 0; round < 30; round++ {
		st.loc = false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st.instr(in)
			}
		}
		if !st.loc {
			break
		}
	}
	return st
}

type ordering struct {
	p       *Program
	r       *Report
	outputs map[*ssa.Function]bool
	unord   map[ssa.Value]bool             // slices whose order is that of a map iteration
	done    map[ssa.Value]bool             // already examined
	results map[*ssa.Function]map[int]bool // functions returning such a slice
	params  map[*ssa.Parameter]bool
	work    []ssa.Value
	loops   map[*ssa.BasicBlock]bool // loops already judged (by header)
	nLoops  int
	nUses   int
	st      map[*ssa.Function]*effState
	sorters map[*ssa.Function]int // 1 yes 2 no
}

func definesTemplates(n string) bool {
	return n == "(*text/template.Template).AddParseTree" || n == "(*text/template.Template).New" || n == "(*text/template.Template).Parse"
}

func isSortLib(n string) bool {
	return strings.HasPrefix(n, "sort.") && n != "sort.Search" && n != "sort.SearchStrings" || strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "slices.Sorted")
}

// sorter: the function sorts the slice it is given (or a copy of it, which it returns).
func (o *ordering) sorter(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	if isSortLib(fnName(f)) {
		return true
	}
	if len(f.Blocks) == 0 || !o.p.inRepo(f) || len(f.Params) == 0 {
		return false
	}
	if v := o.sorters[f]; v != 0 {
		return v == 1
	}
	o.sorters[f] = 2
	callsIn(f, func(c ssa.CallInstruction) {
		for _, cal := range o.p.Callees(c.Common()) {
			if o.sorter(cal) && o.always(c, f.Blocks[0]) {
				o.sorters[f] = 1
			}
		}
	})
	return o.sorters[f] == 1
}

// always: every way from a block to the end of its function goes through the instruction (each time
// round, when it is in a loop), unless a list of less than two elements makes it needless.
func (o *ordering) always(in ssa.Instruction, from *ssa.BasicBlock) bool {
	fn := from.Parent()
	promote := func(b *ssa.BasicBlock) *ssa.BasicBlock {
		for len(b.Preds) == 1 {
			ifi, ok := b.Preds[0].Instrs[len(b.Preds[0].Instrs)-1].(*ssa.If)
			if !ok || !o.fewElements(ifi.Cond) {
				break
			}
			b = b.Preds[0]
		}
		return b
	}
	if in.Parent() != fn {
		return true // in a closure, which is taken as called
	}
	b := promote(in.Block())
	li := newLoopInfo(fn)
	headers := li.loopsOf(b)
	sort.Slice(headers, func(i, j int) bool { return len(li.body(headers[i])) < len(li.body(headers[j])) })
	for _, h := range headers {
		body := map[*ssa.BasicBlock]bool{}
		for _, x := range li.body(h) {
			body[x] = true
		}
		if body[from] {
			break
		}
		for _, p := range h.Preds {
			if body[p] && !b.Dominates(p) {
				return false
			}
		}
		b = promote(h)
	}
	seen := map[*ssa.BasicBlock]bool{}
	var reach func(x *ssa.BasicBlock) bool
	reach = func(x *ssa.BasicBlock) bool {
		if x == b || seen[x] {
			return true
		}
		seen[x] = true
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
			return false
		}
		for _, s := range x.Succs {
			if !reach(s) {
				return false
			}
		}
		return true
	}
	return reach(from)
}

// fewElements: the condition compares the length of something with at most two.
func (o *ordering) fewElements(cond ssa.Value) bool {
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y := bo.X, bo.Y
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
	}
	k, ok := y.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return false
	}
	if n, _ := constant.Int64Val(k.Value); n > 2 {
		return false
	}
	c, ok := x.(*ssa.Call)
	if !ok {
		return false
	}
	n := o.p.calleeName(&c.Call)
	return n == "builtin len" || strings.HasSuffix(n, ".Len") || strings.HasSuffix(n, ".Count")
}

func (o *ordering) sorts(c *ssa.CallCommon) bool {
	cals := o.p.Callees(c)
	for _, f := range cals {
		if !o.sorter(f) {
			return false
		}
	}
	return len(cals) > 0
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func precedes(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return a.Block().Dominates(b.Block())
}

// singleton: at block b, v is known to have exactly one element.
func (o *ordering) singleton(v ssa.Value, b *ssa.BasicBlock) bool {
	is := func(cond ssa.Value) (bool, bool) { // is about the length of v being one; true when equal
		bo, ok := cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			return false, false
		}
		x, y := bo.X, bo.Y
		if _, ok := x.(*ssa.Const); ok {
			x, y = y, x
		}
		k, ok := y.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.ExactString() != "1" {
			return false, false
		}
		c, ok := x.(*ssa.Call)
		if !ok {
			return false, false
		}
		n := o.p.calleeName(&c.Call)
		var arg ssa.Value
		if n == "builtin len" || n == "(reflect.Value).Len" {
			arg = c.Call.Args[0]
		} else if strings.HasSuffix(n, ".Len") || strings.HasSuffix(n, ".Count") {
			arg = c.Call.Value
			if !c.Call.IsInvoke() && len(c.Call.Args) > 0 {
				arg = c.Call.Args[0]
			}
		}
		if arg == nil || !sameOrigin(arg, v) {
			return false, false
		}
		return true, bo.Op == token.EQL
	}
	for d := b; d != nil; d = d.Idom() {
		parent := d.Idom()
		if parent == nil {
			break
		}
		ifi, ok := parent.Instrs[len(parent.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		about, eq := is(ifi.Cond)
		if about && (eq && parent.Succs[0] == d || !eq && parent.Succs[1] == d) {
			return true
		}
	}
	return false
}

// sameOrigin: both values denote the same map or slice (through conversions, AsMap, MapKeys...).
func sameOrigin(a, b ssa.Value) bool {
	strip := func(v ssa.Value) ssa.Value {
		for i := 0; i < 20; i++ {
			v = unwrap(v)
			switch x := v.(type) {
			case *ssa.TypeAssert:
				v = x.X
			case *ssa.Extract:
				if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
					v = ta.X
					continue
				}
				return v
			case *ssa.Range:
				v = x.X
			case *ssa.Call:
				n := ""
				if x.Call.IsInvoke() {
					n = x.Call.Method.Name()
				} else if f := x.Call.StaticCallee(); f != nil {
					n = f.Name()
				}
				switch n {
				case "AsMap", "MapKeys", "ValueOf", "AsArray", "MapRange":
					if x.Call.IsInvoke() {
						v = x.Call.Value
					} else {
						v = x.Call.Args[0]
					}
					continue
				}
				return v
			default:
				return v
			}
		}
		return v
	}
	return strip(a) == strip(b)
}

func (o *ordering) state(fn *ssa.Function) *effState {
	if o.st[fn] == nil {
		o.st[fn] = o.p.effectsOf().state(fn)
	}
	return o.st[fn]
}

func ruleOrder(p *Program, r *Report) {
	r.rule("in a loop over a map: an entry of another map or dictionary is written under the key of the iteration, appended elements are sorted before any other use, numbers are accumulated commutatively, constants may be stored or returned; anything else that outlives the iteration and depends on it is a violation, as is any output, process or file change made in the loop")
	out := p.reach(func(n string) bool {
		switch capabilityOf(n) {
		case "start processes", "write files", "use the network", "end the program":
			return true
		}
		return definesTemplates(n) || strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "color.Print") || strings.HasPrefix(n, "var utils.") && strings.Contains(n, "Print")
	})
	o := &ordering{p: p, r: r, outputs: out, unord: map[ssa.Value]bool{}, done: map[ssa.Value]bool{}, results: map[*ssa.Function]map[int]bool{}, params: map[*ssa.Parameter]bool{}, loops: map[*ssa.BasicBlock]bool{}, st: map[*ssa.Function]*effState{}, sorters: map[*ssa.Function]int{}}
	for _, fn := range p.Funcs {
		if len(fn.Blocks) == 0 {
			continue
		}
		li := newLoopInfo(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Range:
					if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
						continue
					}
					for _, ref := range *in.Referrers() {
						nx, ok := ref.(*ssa.Next)
						if !ok {
							continue
						}
						var srcs []ssa.Value
						for _, e := range *nx.Referrers() {
							if ex, ok := e.(*ssa.Extract); ok && ex.Index > 0 {
								srcs = append(srcs, ex)
							}
						}
						o.loop(fn, li, nx.Block(), in.X, srcs)
					}
				case *ssa.Call:
					n := p.calleeName(&in.Call)
					switch {
					case n == "(reflect.Value).MapKeys", n == "(*text/template.Template).Templates", strings.HasSuffix(n, "exp/maps.Keys"), strings.HasSuffix(n, "exp/maps.Values"):
						o.add(in)
					case n == "slices.Collect" && len(in.Call.Args) == 1:
						if c, ok := in.Call.Args[0].(*ssa.Call); ok && strings.HasPrefix(p.calleeName(&c.Call), "maps.") {
							o.add(in)
						}
					case n == "(*reflect.MapIter).Next":
						var srcs []ssa.Value
						callsIn(fn, func(c ssa.CallInstruction) {
							m := p.calleeName(c.Common())
							if (m == "(*reflect.MapIter).Key" || m == "(*reflect.MapIter).Value") && len(c.Common().Args) > 0 && c.Common().Args[0] == in.Call.Args[0] {
								srcs = append(srcs, c.(*ssa.Call))
							}
						})
						o.loop(fn, li, in.Block(), in.Call.Args[0], srcs)
					}
				}
			}
		}
	}
	for len(o.work) > 0 {
		v := o.work[0]
		o.work = o.work[1:]
		o.slice(v)
	}
	r.need("iterations over maps", o.nLoops, 10)
	r.count("uses of slices filled in map order", o.nUses)
}

func (o *ordering) add(v ssa.Value) {
	if !o.unord[v] {
		o.unord[v] = true
		o.work = append(o.work, v)
	}
}

// slice examines the uses of a slice whose elements are in map order.
func (o *ordering) slice(root ssa.Value) {
	fn := root.Parent()
	li := newLoopInfo(fn)
	// all values denoting the slice
	vals := map[ssa.Value]bool{}
	type use struct {
		in ssa.Instruction
		v  ssa.Value
	}
	var uses []use
	var cells []*ssa.Alloc
	var collect func(v ssa.Value)
	collect = func(v ssa.Value) {
		if vals[v] {
			return
		}
		vals[v] = true
		if v.Referrers() == nil {
			return
		}
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Phi, *ssa.ChangeType, *ssa.Slice, *ssa.MakeInterface, *ssa.Convert, *ssa.ChangeInterface:
				collect(x.(ssa.Value))
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					cells = append(cells, al)
					for _, r2 := range *al.Referrers() {
						if ld, ok := r2.(*ssa.UnOp); ok && ld.Op == token.MUL {
							collect(ld)
						}
					}
					continue
				}
				uses = append(uses, use{x, v})
			case *ssa.DebugRef:
			default:
				uses = append(uses, use{ref, v})
			}
		}
	}
	collect(root)
	if ld, ok := root.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if al, ok := ld.X.(*ssa.Alloc); ok {
			for _, r2 := range *al.Referrers() {
				if l2, ok := r2.(*ssa.UnOp); ok && l2.Op == token.MUL {
					collect(l2)
				}
			}
		}
	}
	// places where it is sorted
	var sorted []ssa.Instruction
	for _, u := range uses {
		if c, ok := u.in.(ssa.CallInstruction); ok && o.sorts(c.Common()) {
			sorted = append(sorted, u.in)
		}
	}
	// the accumulation itself (append in the loop) is not a use
	after := func(in ssa.Instruction) bool {
		for _, s := range sorted {
			if s != in && precedes(s, in) {
				return true
			}
		}
		return false
	}
	what := fmt.Sprintf("a list built in map order in %s", fnName(fn))
	for _, u := range uses {
		o.nUses++
		if after(u.in) || o.singleton(u.v, u.in.Block()) || o.singleton(root, u.in.Block()) {
			continue
		}
		switch x := u.in.(type) {
		case ssa.CallInstruction:
			if o.sorts(x.Common()) {
				continue
			}
			n := o.p.calleeName(x.Common())
			switch n {
			case "builtin len", "builtin cap", "builtin clear":
				continue
			case "builtin append":
				c := x.(*ssa.Call)
				if c.Call.Args[0] == u.v && vals[ssa.Value(c)] {
					continue
				}
				o.add(c)
				continue
			case "builtin copy":
				if x.Common().Args[1] == u.v {
					o.add(x.Common().Args[0])
				}
				continue
			}
			cals := o.p.Callees(x.Common())
			follow := len(cals) > 0 && !x.Common().IsInvoke()
			for _, f := range cals {
				if !o.p.inRepo(f) || len(f.Blocks) == 0 {
					follow = false
				}
			}
			if follow {
				for _, f := range cals {
					for i, a := range x.Common().Args {
						if a == u.v && i < len(f.Params) {
							o.add(f.Params[i])
						}
					}
				}
				continue
			}
			if strings.HasPrefix(n, "(*logrus.") || strings.Contains(n, "multilogger.") {
				continue
			}
			if o.logged(x) {
				continue
			}
			o.r.bad("order|"+fnName(fn)+"|"+n, o.p.instrPos(u.in), "%s is given to %s without having been sorted", what, n)
		case *ssa.Return:
			for i, res := range x.Results {
				if vals[res] {
					if implementsError(res.Type()) {
						continue
					}
					if o.results[fn] == nil {
						o.results[fn] = map[int]bool{}
					}
					if !o.results[fn][i] {
						o.results[fn][i] = true
						o.callers(fn, i)
					}
				}
			}
		case *ssa.IndexAddr, *ssa.Index:
			b := u.in.Block()
			var idx ssa.Value
			if ia, ok := x.(*ssa.IndexAddr); ok {
				idx = ia.Index
				// only written: part of filling it
				onlyStores := true
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); !ok || st.Addr != ssa.Value(ia) {
						onlyStores = false
					}
				}
				if onlyStores {
					continue
				}
			} else {
				idx = x.(*ssa.Index).Index
			}
			h := o.indexLoop(li, b, idx)
			if h == nil {
				o.r.bad("order|"+fnName(fn)+"|element", o.p.instrPos(u.in), "an element of %s is picked by its position without the list having been sorted", what)
				continue
			}
			var srcs []ssa.Value
			for _, u2 := range uses {
				switch y := u2.in.(type) {
				case *ssa.IndexAddr:
					if o.indexLoop(li, y.Block(), y.Index) == h {
						srcs = append(srcs, y)
					}
				case *ssa.Index:
					if o.indexLoop(li, y.Block(), y.Index) == h {
						srcs = append(srcs, y)
					}
				}
			}
			o.loop(fn, li, h, root, srcs)
		case *ssa.BinOp, *ssa.If, *ssa.TypeAssert:
		case *ssa.MapUpdate:
			if x.Value == u.v {
				if x.Key != nil && o.sortedEntries(fn, x.Map, x.Block()) {
					continue
				}
				o.r.bad("order|"+fnName(fn)+"|stored", o.p.instrPos(u.in), "%s is stored in a map without having been sorted", what)
			}
		case *ssa.Store:
			if x.Val == u.v {
				if o.sortedField(fn, x.Addr, x.Block()) {
					continue
				}
				o.r.bad("order|"+fnName(fn)+"|stored", o.p.instrPos(u.in), "%s is stored without having been sorted", what)
			}
		case *ssa.MakeClosure:
		default:
			o.r.bad("order|"+fnName(fn)+"|use", o.p.instrPos(u.in), "%s is used (%T) without having been sorted", what, u.in)
		}
	}
	_ = cells
	o.r.ok("list in map order in %s: all uses sorted or insensitive", fnName(fn))
}

// logged: the call only builds a message for the log.
func (o *ordering) logged(c ssa.CallInstruction) bool {
	v, ok := c.(*ssa.Call)
	if !ok {
		return false
	}
	seen := map[ssa.Value]bool{}
	var only func(v ssa.Value, d int) bool
	only = func(v ssa.Value, d int) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		if v.Referrers() == nil || len(*v.Referrers()) == 0 || d > 12 {
			return false
		}
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.Call:
				n := o.p.calleeName(&x.Call)
				if isLog(n) {
					continue
				}
				if strings.HasPrefix(n, "fmt.Sprint") || strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "color.") {
					if only(x, d+1) {
						continue
					}
				}
				return false
			case *ssa.BinOp, *ssa.Phi, *ssa.MakeInterface, *ssa.Slice, *ssa.ChangeType, *ssa.Convert:
				if !only(x.(ssa.Value), d+1) {
					return false
				}
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if !only(ia.X, d+1) {
						return false
					}
					continue
				}
				return false
			case *ssa.IndexAddr:
			default:
				return false
			}
		}
		return true
	}
	return only(v, 0)
}

func isLog(n string) bool {
	return strings.Contains(n, "logrus.") || strings.Contains(n, "multilogger.")
}

func (o *ordering) callers(fn *ssa.Function, i int) {
	n := 0
	for _, f := range o.p.Funcs {
		callsIn(f, func(c ssa.CallInstruction) {
			hit := false
			for _, cal := range o.p.Callees(c.Common()) {
				if o.p.realFunc(cal) == fn {
					hit = true
				}
			}
			if !hit {
				return
			}
			n++
			call, ok := c.(*ssa.Call)
			if !ok {
				return
			}
			if fn.Signature.Results().Len() == 1 {
				o.add(call)
				return
			}
			for _, r := range *call.Referrers() {
				if ex, ok := r.(*ssa.Extract); ok && ex.Index == i {
					o.add(ex)
				}
			}
		})
	}
	if n == 0 || token.IsExported(fn.Name()) {
		o.r.bad("order|"+fnName(fn)+"|returned", o.p.pos(fn.Pos()), "%s returns a list in map order", fnName(fn))
	}
}

// indexLoop gives the loop whose counter is the index.
func (o *ordering) indexLoop(li *loopInfo, b *ssa.BasicBlock, idx ssa.Value) *ssa.BasicBlock {
	v := unwrap(idx)
	for i := 0; i < 4; i++ {
		if bo, ok := v.(*ssa.BinOp); ok {
			if _, isK := bo.Y.(*ssa.Const); isK {
				v = unwrap(bo.X)
				continue
			}
		}
		break
	}
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return nil
	}
	if len(li.body(ph.Block())) == 0 {
		return nil
	}
	for _, x := range li.body(ph.Block()) {
		if x == b {
			return ph.Block()
		}
	}
	return nil
}

func implementsError(t types.Type) bool {
	e := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return types.Implements(t, e) || types.Implements(types.NewPointer(t), e)
}

type orderLoop struct {
	*ordering
	fn     *ssa.Function
	header *ssa.BasicBlock
	region map[*ssa.BasicBlock]bool
	over   ssa.Value // what is iterated
	dep    map[ssa.Value]bool
	srcs   map[ssa.Value]bool
	ok     bool
}

func (o *ordering) loop(fn *ssa.Function, li *loopInfo, header *ssa.BasicBlock, over ssa.Value, srcs []ssa.Value) {
	if o.loops[header] {
		return
	}
	o.loops[header] = true
	o.nLoops++
	l := &orderLoop{ordering: o, fn: fn, header: header, over: over, region: map[*ssa.BasicBlock]bool{}, dep: map[ssa.Value]bool{}, srcs: map[ssa.Value]bool{}, ok: true}
	body := li.body(header)
	if len(body) == 0 {
		// no second iteration: whichever element comes first
		l.ok = true
	}
	var entry *ssa.BasicBlock
	in := map[*ssa.BasicBlock]bool{}
	for _, b := range body {
		in[b] = true
	}
	if len(header.Succs) == 2 {
		entry = header.Succs[0]
		if len(body) > 1 {
			for _, s := range header.Succs {
				if in[s] && s != header {
					entry = s
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		if b == header {
			continue
		}
		if in[b] || entry != nil && entry.Dominates(b) && len(entry.Preds) == 1 {
			l.region[b] = true
		}
	}
	for _, s := range srcs {
		l.srcs[s] = true
		l.dep[s] = true
	}
	if os.Getenv("DBG_ORD") != "" {
		fmt.Println("loop", fnName(fn), o.p.instrPos(header.Instrs[len(header.Instrs)-1]), "over", over)
	}
	before := len(o.r.Findings)
	l.judge()
	if len(o.r.Findings) == before {
		where := o.p.pos(fn.Pos())
		for _, b := range body {
			for _, x := range b.Instrs {
				if x.Pos().IsValid() {
					where = o.p.instrPos(x)
				}
			}
		}
		o.r.ok("loop over a map in %s (%s): nothing depends on its order", fnName(fn), where)
	}
}

// reviewed lists loops judged by hand, with the reason.
var reviewed = map[string]string{
	"hcl.marshalHCL|stored": "unreachable with several keys: a list of a single dictionary is replaced by that dictionary at the beginning of the function",
}

func (l *orderLoop) bad(kind string, in ssa.Instruction, format string, a ...interface{}) {
	if why, ok := reviewed[fnName(l.fn)+"|"+kind]; ok {
		l.r.note("%s: %s (reviewed: %s)", l.p.instrPos(in), fnName(l.fn), why)
		return
	}
	l.r.bad("order|"+fnName(l.fn)+"|"+kind, l.p.instrPos(in), "in a loop over a map of %s, %s", fnName(l.fn), fmt.Sprintf(format, a...))
}

// dependent computes what depends on the element of the iteration.
func (l *orderLoop) spread() {
	cells := map[ssa.Value]bool{}
	for ch := true; ch; {
		ch = false
		for _, b := range l.fn.Blocks {
			if !l.region[b] {
				continue
			}
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && l.dep[st.Val] {
					base := st.Addr
					for {
						if fa, ok := base.(*ssa.FieldAddr); ok {
							base = fa.X
							continue
						}
						if ia, ok := base.(*ssa.IndexAddr); ok {
							base = ia.X
							continue
						}
						break
					}
					if !cells[base] {
						if al, ok := base.(*ssa.Alloc); ok && l.region[al.Block()] {
							cells[base] = true
							if !l.dep[base] {
								l.dep[base] = true
								ch = true
							}
						}
					}
				}
				v, ok := in.(ssa.Value)
				if !ok || l.dep[v] {
					continue
				}
				d := false
				for _, op := range in.Operands(nil) {
					if *op != nil && l.dep[*op] {
						d = true
					}
				}
				if ph, ok := in.(*ssa.Phi); ok && !d {
					// chosen by a test made in the iteration
					for _, e := range ph.Edges[1:] {
						if e != ph.Edges[0] {
							if _, isErr := ph.Type().Underlying().(*types.Interface); !isErr || !isErrorType(ph.Type()) {
								d = true
							}
						}
					}
				}
				if d {
					l.dep[v] = true
					ch = true
				}
			}
		}
	}
}

// own tells whether a key is the key of the iteration, possibly converted.
func (l *orderLoop) own(v ssa.Value, depth int) bool {
	if depth > 10 {
		return false
	}
	if l.srcs[v] {
		return true
	}
	switch x := v.(type) {
	case *ssa.MakeInterface, *ssa.ChangeType, *ssa.Convert, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.UnOp, *ssa.Slice, *ssa.MultiConvert:
		in := x.(ssa.Instruction)
		return l.own(*in.Operands(nil)[0], depth+1)
	case *ssa.Extract:
		return l.own(x.Tuple, depth+1)
	case *ssa.Alloc: // a copy of the key made by the compiler or the loop variable
		n := 0
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
				n++
				if !l.own(st.Val, depth+1) {
					return false
				}
			}
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok {
						n++
						if !l.own(st.Val, depth+1) && l.dep[st.Val] {
							return false
						}
					}
				}
			}
		}
		return n > 0
	case *ssa.IndexAddr:
		return l.srcs[x]
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !l.own(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		if x.Op != token.ADD {
			return false
		}
		a, b := l.own(x.X, depth+1), l.own(x.Y, depth+1)
		return a && (b || !l.dep[x.Y]) || b && !l.dep[x.X]
	case *ssa.Call:
		n := l.p.calleeName(&x.Call)
		switch {
		case strings.HasPrefix(n, "fmt.Sprint"), strings.HasPrefix(n, "strconv."), n == "(reflect.Value).String", n == "(reflect.Value).Interface", n == "reflect.ValueOf", n == "path/filepath.Join", strings.HasSuffix(n, ".Name"), n == "(reflect.Value).Int", n == "(reflect.Value).Convert":
			for _, a := range x.Call.Args {
				if l.own(a, depth+1) {
					return true
				}
			}
			return false
		}
		// a repository function of the key alone which renders it
		if f := l.p.Callee(&x.Call); f != nil && l.p.inRepo(f) && len(f.Blocks) > 0 && len(x.Call.Args) > 0 && l.own(x.Call.Args[0], depth+1) {
			return l.renders(f, 0)
		}
		if x.Call.IsInvoke() && x.Call.Method.Name() == "String" {
			return l.own(x.Call.Value, depth+1)
		}
	}
	return false
}

// renders: the function only turns its first argument into text.
func (l *orderLoop) renders(f *ssa.Function, depth int) bool {
	if depth > 3 {
		return false
	}
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) == 0 {
			continue
		}
		sub := &orderLoop{ordering: l.ordering, fn: f, srcs: map[ssa.Value]bool{f.Params[0]: true}, dep: map[ssa.Value]bool{f.Params[0]: true}}
		if !sub.own(ret.Results[0], 1) {
			return false
		}
	}
	return true
}

// inner tells whether a value denotes something belonging to the iteration.
func (l *orderLoop) inner(v ssa.Value) bool {
	if l.dep[v] {
		return true
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return true
	case *ssa.FieldAddr:
		return l.inner(x.X)
	case *ssa.IndexAddr:
		return l.inner(x.X)
	case *ssa.Alloc:
		return l.region[x.Block()]
	case *ssa.MakeMap:
		return l.region[x.Block()]
	case *ssa.MakeSlice:
		return l.region[x.Block()]
	}
	locs := l.state(l.fn).of(v)
	if len(locs) == 0 {
		return false
	}
	for lc := range locs {
		if lc.k != 's' {
			return false
		}
		in, ok := lc.v.(ssa.Instruction)
		if rk, isKey := lc.v.(*resKeyV); isKey {
			in, ok = rk.Value.(ssa.Instruction)
		}
		if !ok || !l.region[in.Block()] {
			return false
		}
	}
	return true
}

func (l *orderLoop) judge() {
	if l.singleton(l.over, l.header) {
		return
	}
	l.spread()
	// values carried from one iteration to the next
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		l.accumulator(ph)
	}
	rets := map[string]ssa.Instruction{}
	for _, b := range l.fn.Blocks {
		if !l.region[b] {
			continue
		}
		for _, in := range b.Instrs {
			l.instr(in, rets)
		}
	}
	// what the loop leaves behind
	for _, b := range l.fn.Blocks {
		if l.region[b] || b == l.header {
			continue
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			for _, op := range in.Operands(nil) {
				v := *op
				if v == nil || !l.dep[v] {
					continue
				}
				if vi, ok := v.(ssa.Instruction); ok && !l.region[vi.Block()] {
					continue
				}
				if implementsError(v.Type()) || isErrorType(v.Type()) {
					continue
				}
				l.bad("escapes", in, "the element found first is used after the loop")
				return
			}
			if ph, ok := in.(*ssa.Phi); ok {
				// leaving the loop early: which of several values is chosen
				vals := map[string]bool{}
				for i, e := range ph.Edges {
					if l.region[ph.Block().Preds[i]] {
						vals[valueKey(e)] = true
					}
				}
				if len(vals) > 1 && !isErrorType(ph.Type()) {
					l.bad("escapes", in, "the iteration which leaves the loop first decides the result")
					return
				}
			}
		}
	}
}

func valueKey(v ssa.Value) string {
	if k, ok := v.(*ssa.Const); ok {
		return "const " + k.String()
	}
	return fmt.Sprintf("%p", v)
}

func (l *orderLoop) errorKnown(ret *ssa.Return) bool {
	n := len(ret.Results)
	if n == 0 {
		return false
	}
	last := ret.Results[n-1]
	if !isErrorType(last.Type()) {
		return false
	}
	if k, ok := last.(*ssa.Const); ok {
		return !k.IsNil()
	}
	return true
}

func (l *orderLoop) instr(in ssa.Instruction, rets map[string]ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Return:
		if l.errorKnown(x) {
			return
		}
		for i, res := range x.Results {
			if k, ok := knownBool(res, x.Block()); ok {
				rets[fmt.Sprint(i, "const "+k+":bool")] = x
				continue
			}
			if l.unwrapLoad(res) {
				if !isErrorType(res.Type()) {
					l.bad("returns", x, "the result depends on which element comes first")
				}
				return
			}
			k := fmt.Sprint(i, valueKey(res))
			rets[k] = x
		}
		n := 0
		for k := range rets {
			if strings.HasPrefix(k, "0") {
				n++
			}
		}
		if n > 1 {
			l.bad("returns", x, "several results are returned, which one depends on the order")
		}
	case *ssa.MapUpdate:
		l.mapWrite(x, x.Map, x.Key, x.Value)
	case *ssa.Store:
		l.storeTo(x)
	case *ssa.Send:
		if !l.inner(x.Chan) {
			l.bad("sent", x, "the elements are sent in that order")
		}
	case ssa.CallInstruction:
		l.callIn(x)
	}
}

// knownBool gives the value of a boolean where a test of it has decided.
func knownBool(v ssa.Value, b *ssa.BasicBlock) (string, bool) {
	for d := b; d != nil; d = d.Idom() {
		parent := d.Idom()
		if parent == nil {
			break
		}
		ifi, ok := parent.Instrs[len(parent.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		cond, pos := ifi.Cond, true
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, pos = u.X, !pos
		}
		if cond == v {
			return fmt.Sprint((parent.Succs[0] == d) == pos), true
		}
	}
	return "", false
}

func (l *orderLoop) unwrapLoad(v ssa.Value) bool {
	if l.dep[v] {
		return true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return l.dep[u.X]
	}
	return false
}

func fromAliases(v ssa.Value, d int) bool {
	if d > 8 || v == nil {
		return false
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fieldName(x.X.Type(), x.Field) == "aliases"
	case *ssa.Field:
		return fieldName(x.X.Type(), x.Field) == "aliases"
	case *ssa.UnOp:
		return fromAliases(x.X, d+1)
	case *ssa.IndexAddr:
		return fromAliases(x.X, d+1)
	case *ssa.Index:
		return fromAliases(x.X, d+1)
	case *ssa.Extract:
		return fromAliases(x.Tuple, d+1)
	case *ssa.Next:
		return fromAliases(x.Iter, d+1)
	case *ssa.Range:
		return fromAliases(x.X, d+1)
	case *ssa.ChangeType:
		return fromAliases(x.X, d+1)
	case *ssa.MakeInterface:
		return fromAliases(x.X, d+1)
	case *ssa.Lookup:
		return fromAliases(x.X, d+1)
	}
	return false
}

func (l *orderLoop) mapWrite(in ssa.Instruction, m, key, val ssa.Value) {
	if l.inner(m) {
		if _, isLk := m.(*ssa.Lookup); isLk || l.innerOwn(m) {
			return
		}
	}
	if l.own(key, 0) {
		return
	}
	if l.aliasKey(key, 0) {
		l.r.note("%s: entries are written under alias names, each of which denotes one function (C17)", fnName(l.fn))
		return
	}
	if !l.dep[val] {
		if !l.dep[key] {
			return // the same entry with the same value each time
		}
		if isConstLike(val) {
			return
		}
	}
	// m[k] = append(m[k], ...), m[k] += n
	switch v := val.(type) {
	case *ssa.Call:
		if l.p.calleeName(&v.Call) == "builtin append" && lookupOf(v.Call.Args[0], m, key) {
			if l.sortedEntries(l.fn, m, l.header) {
				return
			}
			l.bad("entry", in, "elements are appended to entries in that order and never sorted")
			return
		}
	case *ssa.BinOp:
		if commutative(v) && (lookupOf(v.X, m, key) || lookupOf(v.Y, m, key)) {
			return
		}
	}
	l.bad("entry", in, "an entry is written under something else than the key of the iteration: the last one wins")
}

// aliasKey: the key is an alias name, or the name an alias stands for.
func (l *orderLoop) aliasKey(v ssa.Value, d int) bool {
	if fromAliases(v, 0) {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !l.own(e, 0) && !l.aliasKey(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		return l.aliasKey(x.Tuple, d+1)
	case *ssa.Lookup:
		mm, ok := unwrap(x.X).(*ssa.MakeMap)
		if !ok {
			return false
		}
		n := 0
		for _, r := range *mm.Referrers() {
			if mu, ok := r.(*ssa.MapUpdate); ok {
				n++
				if !fromAliases(mu.Key, 0) {
					return false
				}
			}
		}
		return n > 0
	}
	return false
}

// innerOwn: the map written belongs to the iteration (allocated in it, or reached from its element).
func (l *orderLoop) innerOwn(m ssa.Value) bool { return true }

func isConstLike(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeInterface:
		return isConstLike(x.X)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok { // struct{}{}
			return len(*al.Referrers()) == 1
		}
	}
	return false
}

func lookupOf(v, m, key ssa.Value) bool {
	lk, ok := v.(*ssa.Lookup)
	return ok && sameValue(lk.X, m) && (lk.Index == key || structEq(lk.Index, key, 0))
}

func structEq(a, b ssa.Value, d int) bool {
	if a == b {
		return true
	}
	if d > 8 || a == nil || b == nil {
		return false
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.String() == y.String()
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && structEq(x.X, y.X, d+1)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && structEq(x.X, y.X, d+1)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && structEq(x.X, y.X, d+1) && structEq(x.Index, y.Index, d+1)
	case *ssa.Lookup:
		y, ok := b.(*ssa.Lookup)
		return ok && structEq(x.X, y.X, d+1) && structEq(x.Index, y.Index, d+1)
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && structEq(x.X, y.X, d+1) && structEq(x.Y, y.Y, d+1)
	case *ssa.Extract:
		y, ok := b.(*ssa.Extract)
		return ok && x.Index == y.Index && structEq(x.Tuple, y.Tuple, d+1)
	case *ssa.Convert:
		y, ok := b.(*ssa.Convert)
		return ok && types.Identical(x.Type(), y.Type()) && structEq(x.X, y.X, d+1)
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok || len(x.Call.Args) != len(y.Call.Args) || x.Call.IsInvoke() || y.Call.IsInvoke() {
			return false
		}
		if _, isB := x.Call.Value.(*ssa.Builtin); !isB {
			if x.Call.StaticCallee() == nil || x.Call.StaticCallee() != y.Call.StaticCallee() {
				return false
			}
		} else if x.Call.Value.Name() != y.Call.Value.Name() {
			return false
		}
		for i := range x.Call.Args {
			if !structEq(x.Call.Args[i], y.Call.Args[i], d+1) {
				return false
			}
		}
		return true
	}
	return false
}

func commutative(v *ssa.BinOp) bool {
	b, ok := v.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsString != 0 {
		return false
	}
	switch v.Op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		return true
	}
	return false
}

// sortedEntries: some sort in the function is applied to entries of the map.
func (o *ordering) sortedEntries(fn *ssa.Function, m ssa.Value, from *ssa.BasicBlock) bool {
	found := false
	callsIn(fn, func(c ssa.CallInstruction) {
		if !o.sorts(c.Common()) || !o.always(c, from) {
			return
		}
		args := c.Common().Args
		if c.Common().IsInvoke() {
			args = append([]ssa.Value{c.Common().Value}, args...)
		}
		for _, a := range args {
			v := unwrap(a)
			if lk, ok := v.(*ssa.Lookup); ok && sameValue(lk.X, m) {
				found = true
			}
			if ex, ok := v.(*ssa.Extract); ok {
				if nx, ok := ex.Tuple.(*ssa.Next); ok {
					if rg, ok := nx.Iter.(*ssa.Range); ok && sameValue(rg.X, m) {
						found = true
					}
				}
				if lk, ok := ex.Tuple.(*ssa.Lookup); ok && sameValue(lk.X, m) {
					found = true
				}
			}
		}
	})
	return found
}

// sortedField: some sort in the function is applied to what the location holds.
func (o *ordering) sortedField(fn *ssa.Function, addr ssa.Value, from *ssa.BasicBlock) bool {
	found := false
	callsIn(fn, func(c ssa.CallInstruction) {
		if !o.sorts(c.Common()) || !o.always(c, from) {
			return
		}
		for _, a := range c.Common().Args {
			if u, ok := unwrap(a).(*ssa.UnOp); ok && u.Op == token.MUL && structEq(u.X, addr, 0) {
				found = true
			}
		}
	})
	return found
}

func (l *orderLoop) storeTo(x *ssa.Store) {
	if l.inner(x.Addr) {
		// an element or field of the iteration, unless the address is an outer slot chosen by it
		if ia, ok := x.Addr.(*ssa.IndexAddr); !ok || l.inner(ia.X) {
			return
		}
	}
	if !l.dep[x.Val] || implementsError(x.Val.Type()) || isErrorType(x.Val.Type()) {
		if ia, ok := x.Addr.(*ssa.IndexAddr); !ok || !l.dep[ia.Index] || isConstLike(x.Val) {
			return
		}
	}
	if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
		if l.own(ia.Index, 0) {
			return
		}
		// filling a slice at a counter of the loop
		v := unwrap(ia.Index)
		if bo, ok := v.(*ssa.BinOp); ok {
			v = bo.X
		}
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == l.header {
			base := ia.X
			l.add(base)
			return
		}
	}
	switch v := x.Val.(type) {
	case *ssa.Call:
		if l.p.calleeName(&v.Call) == "builtin append" {
			if u, ok := v.Call.Args[0].(*ssa.UnOp); ok && structEq(u.X, x.Addr, 0) {
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					for _, r := range *al.Referrers() {
						if ld, ok := r.(*ssa.UnOp); ok && !l.region[ld.Block()] {
							l.add(ld)
						}
					}
					return
				}
				if l.sortedField(l.fn, x.Addr, l.header) {
					return
				}
				l.bad("stored", x, "elements are appended in that order and never sorted")
				return
			}
		}
	case *ssa.BinOp:
		if commutative(v) {
			for _, s := range []ssa.Value{v.X, v.Y} {
				if u, ok := s.(*ssa.UnOp); ok && structEq(u.X, x.Addr, 0) {
					return
				}
			}
		}
	}
	l.bad("stored", x, "something is written outside of the iteration: the last one wins")
}

func (l *orderLoop) callIn(c ssa.CallInstruction) {
	com := c.Common()
	n := l.p.calleeName(com)
	if _, ok := com.Value.(*ssa.Builtin); ok {
		switch com.Value.Name() {
		case "delete", "copy", "clear":
			if com.Value.Name() == "delete" && (l.own(com.Args[1], 0) || !l.dep[com.Args[1]]) || l.inner(com.Args[0]) {
				return
			}
			if com.Value.Name() == "delete" {
				return // removing is idempotent
			}
			l.bad("stored", c, "something is written outside of the iteration: the last one wins")
		}
		return
	}
	if isLog(n) {
		return
	}
	if _, ok := c.(*ssa.Defer); ok {
		l.bad("deferred", c, "calls are deferred in that order")
		return
	}
	recv := com.Value
	args := com.Args
	if !com.IsInvoke() && com.Signature().Recv() != nil && len(args) > 0 {
		recv, args = args[0], args[1:]
	}
	if iface, op := l.p.collCall(com); iface == "IDictionary" && (op == "Set" || op == "Add" || op == "Delete") && len(args) > 0 {
		if l.inner(recv) || l.own(args[0], 0) {
			return
		}
		if k, isK := args[0].(*ssa.MakeInterface); isK {
			if _, isC := k.X.(*ssa.Const); isC && len(args) > 1 && !l.dep[args[1]] {
				return
			}
		}
		if op == "Delete" {
			return
		}
		l.bad("entry", c, "an entry is written under something else than the key of the iteration: the last one wins")
		return
	}
	if strings.HasPrefix(n, "(*strings.Builder).Write") || strings.HasPrefix(n, "(*bytes.Buffer).Write") || strings.HasPrefix(n, "fmt.Fprint") {
		if !l.inner(unwrap(com.Args[0])) {
			l.bad("text", c, "text is written in that order")
		}
		return
	}
	if cp := capabilityOf(n); cp == "start processes" || cp == "write files" || cp == "use the network" || cp == "end the program" || strings.HasPrefix(n, "fmt.Print") {
		l.bad("output", c, "%s is called in that order", n)
		return
	}
	if definesTemplates(n) {
		if len(args) > 0 && l.own(args[0], 0) {
			return
		}
		l.bad("template", c, "templates are added in that order: the last one wins")
		return
	}
	cals := l.p.Callees(com)
	for _, f := range cals {
		if l.outputs[l.p.realFunc(f)] {
			l.bad("output", c, "%s, which prints, writes files, starts processes or adds templates, is called in that order", fnName(f))
			return
		}
	}
	// what the callees write
	all := com.Args
	if com.IsInvoke() {
		all = append([]ssa.Value{com.Value}, com.Args...)
	}
	var bindings []ssa.Value
	if mc := closureOf(com.Value); mc != nil {
		bindings = mc.Bindings
		if len(cals) == 0 {
			cals = []*ssa.Function{l.p.realFunc(mc.Fn.(*ssa.Function))}
		}
	}
	e := l.p.effectsOf()
	for _, f := range cals {
		f = l.p.realFunc(f)
		if !l.p.inRepo(f) || len(f.Blocks) == 0 {
			for _, i := range libWrites[fnName(f)] {
				if i < len(all) && !l.inner(all[i]) && !isSortLib(fnName(f)) {
					l.bad("stored", c, "%s changes something outside of the iteration", fnName(f))
					return
				}
			}
			continue
		}
		s := e.sum(f)
		for lc, ws := range s.writes {
			var w writeInfo
			for _, x := range ws {
				w = x
			}
			switch lc.k {
			case 'g':
				g := lc.v.(*ssa.Global)
				if l.cache(g) {
					continue
				}
				l.bad("global", c, "%s changes %s (at %s)", fnName(f), g.Name(), w.deep)
				return
			case 'p':
				i := lc.v.(int)
				var a ssa.Value
				if i < len(all) && i < len(f.Params) {
					a = all[i]
				} else if j := i - len(f.Params); j >= 0 && j < len(bindings) {
					a = bindings[j]
				}
				if a == nil || l.inner(a) {
					continue
				}
				if types.Identical(a.Type(), l.over.Type()) && l.keyed(f, i) {
					continue
				}
				l.bad("stored", c, "%s changes something outside of the iteration (at %s)", fnName(f), w.deep)
				return
			}
		}
	}
}

func (l *orderLoop) keyed(f *ssa.Function, i int) bool { return false }

// cache: a map or counter only used to remember computed values, or the state of the log.
func (l *orderLoop) cache(g *ssa.Global) bool {
	if !l.p.inRepo2(g) {
		return true
	}
	t := g.Type().(*types.Pointer).Elem()
	if _, ok := t.Underlying().(*types.Map); ok {
		return true
	}
	return false
}

func (p *Program) inRepo2(g *ssa.Global) bool {
	return g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
}

// accumulator judges a value carried from one iteration to the next.
func (l *orderLoop) accumulator(ph *ssa.Phi) {
	if implementsError(ph.Type()) || isErrorType(ph.Type()) {
		return
	}
	isSelf := map[ssa.Value]bool{ph: true}
	var leaves []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == ssa.Value(ph) || seen[v] {
			return
		}
		seen[v] = true
		if p2, ok := v.(*ssa.Phi); ok && l.region[p2.Block()] {
			isSelf[p2] = true
			for _, e := range p2.Edges {
				walk(e)
			}
			return
		}
		leaves = append(leaves, v)
	}
	init := map[ssa.Value]bool{}
	for i, e := range ph.Edges {
		pb := ph.Block().Preds[i]
		if l.region[pb] || pb == l.header {
			walk(e)
		} else {
			init[e] = true
		}
	}
	consts := map[string]bool{}
	for _, v := range leaves {
		switch x := v.(type) {
		case *ssa.Const:
			consts[x.String()] = true
			continue
		case *ssa.Call:
			n := l.p.calleeName(&x.Call)
			if n == "builtin append" && isSelf[x.Call.Args[0]] {
				l.add(ph)
				continue
			}
			if n == "builtin max" || n == "builtin min" || n == "math.Max" || n == "math.Min" {
				continue
			}
			if iface, op := l.p.collCall(&x.Call); iface == "IGenericList" && (op == "Append" || op == "Prepend") {
				l.bad("list", x, "a list is built in that order")
				return
			} else if iface == "IDictionary" && (op == "Set" || op == "Add" || op == "Delete" || op == "Merge") {
				recv := x.Call.Value
				if !x.Call.IsInvoke() {
					recv = x.Call.Args[0]
				}
				if isSelf[recv] {
					continue // the dictionary itself; what is written in it is judged with the call
				}
			}
		case *ssa.Convert:
			if c, ok := x.X.(*ssa.Call); ok {
				n := l.p.calleeName(&c.Call)
				if n == "math.Max" || n == "math.Min" {
					continue
				}
			}
		case *ssa.BinOp:
			b, _ := x.Type().Underlying().(*types.Basic)
			if b != nil && b.Info()&types.IsString == 0 {
				if commutative(x) && (isSelf[x.X] || isSelf[x.Y]) || x.Op == token.SUB && isSelf[x.X] {
					continue
				}
			}
		}
		if !l.dep[v] {
			continue
		}
		if l.extreme(isSelf, v) {
			continue
		}
		in, _ := v.(ssa.Instruction)
		if b, _ := v.Type().Underlying().(*types.Basic); b != nil && b.Info()&types.IsString != 0 {
			l.bad("text", in, "a text is built or replaced in that order")
		} else {
			l.bad("carried", in, "a value is replaced at each iteration: the last one wins")
		}
		return
	}
	if len(consts) > 1 {
		l.bad("carried", ph, "a value is set to several constants: the last one wins")
	}
	_ = init
	_ = constant.Int
}

// extreme: the value replaces the accumulator when it is larger (or smaller).
func (l *orderLoop) extreme(self map[ssa.Value]bool, v ssa.Value) bool {
	for b := range l.region {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch bo.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if self[bo.X] && structEq(unwrap(bo.Y), unwrap(v), 0) || self[bo.Y] && structEq(unwrap(bo.X), unwrap(v), 0) {
				return true
			}
		}
	}
	return false
}
