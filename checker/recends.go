package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// recEdge is a call that may lead back to the function it is made in.
type recEdge struct {
	from, to *ssa.Function
	site     ssa.Instruction
	call     *ssa.CallCommon  // nil when the closure is called by what it is given to
	clo      *ssa.MakeClosure // the closure called, when it is made here
}

func (p *Program) recEdges() []*recEdge {
	var res []*recEdge
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, cal := range p.Callees(c.Common()) {
						cal = p.realFunc(cal)
						if p.inRepo(cal) && len(cal.Blocks) > 0 {
							e := &recEdge{from: fn, to: cal, site: in, call: c.Common()}
							e.clo, _ = c.Common().Value.(*ssa.MakeClosure)
							res = append(res, e)
						}
					}
				}
				switch v := in.(type) {
				case *ssa.MakeClosure:
					f := p.realFunc(v.Fn.(*ssa.Function))
					if f != v.Fn || !calledHere(v) {
						continue
					}
					direct := false
					for _, r := range *v.Referrers() {
						if c, ok := r.(ssa.CallInstruction); ok && c.Common().Value == ssa.Value(v) {
							direct = true
						}
					}
					if !direct {
						res = append(res, &recEdge{from: fn, to: f, site: in, clo: v})
					}
				}
			}
		}
	}
	return res
}

// recSCCs gives the sets of functions that may call one another again and again.
func recSCCs(edges []*recEdge) [][]*ssa.Function {
	out := map[*ssa.Function][]*ssa.Function{}
	var nodes []*ssa.Function
	seen := map[*ssa.Function]bool{}
	self := map[*ssa.Function]bool{}
	node := func(f *ssa.Function) {
		if !seen[f] {
			seen[f] = true
			nodes = append(nodes, f)
		}
	}
	for _, e := range edges {
		node(e.from)
		node(e.to)
		out[e.from] = append(out[e.from], e.to)
		if e.from == e.to {
			self[e.from] = true
		}
	}
	index, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	var res [][]*ssa.Function
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		index[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		for _, g := range out[f] {
			if index[g] == 0 {
				visit(g)
				low[f] = min(low[f], low[g])
			} else if on[g] {
				low[f] = min(low[f], index[g])
			}
		}
		if low[f] == index[f] {
			var c []*ssa.Function
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				c = append(c, g)
				if g == f {
					break
				}
			}
			if len(c) > 1 || self[f] {
				res = append(res, c)
			}
		}
	}
	for _, f := range nodes {
		if index[f] == 0 {
			visit(f)
		}
	}
	return res
}

// The end of the recursions: the calls that may lead back to the function they are made
// in must hand on a part of what the function was given (or a number closer to a limit),
// along every cycle of calls (size-change termination, one quantity being followed).

// recMeasure designates what is followed in a function.
type recMeasure struct {
	param int // parameter, or 1000+i for a variable captured by a closure
	field int // field of the parameter, or -1
}

type rel int

const (
	relNone rel = iota
	relEq
	relStrict
)

func (a rel) with(b rel) rel { // both are needed
	if a < b {
		return a
	}
	return b
}

// recRoots tells which parameters a value is (a part of) what was given in.
type recRoots map[recMeasure]rel

type recAn struct {
	p     *Program
	edges []*recEdge
	memo  map[ssa.Value]recRoots
	busy  map[ssa.Value]bool
	lins  map[ssa.Instruction]*loopAn
}

// parts computes the roots of a value; nil means that nothing limits it yet (neutral).
func (a *recAn) parts(v ssa.Value) (recRoots, bool) { return a.partsD(v, 0) }

func demote(r recRoots, strict bool) recRoots {
	if !strict {
		return r
	}
	res := recRoots{}
	for k := range r {
		res[k] = relStrict
	}
	return res
}

func union(a, b recRoots) recRoots {
	res := recRoots{}
	for k, v := range a {
		res[k] = v
	}
	for k, v := range b {
		if v > res[k] {
			res[k] = v
		}
	}
	return res
}

func inter(a, b recRoots) recRoots {
	res := recRoots{}
	for k, v := range a {
		if w, ok := b[k]; ok {
			res[k] = v.with(w)
		}
	}
	return res
}

// partsD: the second result is true when the value holds nothing (it is neutral).
func (a *recAn) partsD(v ssa.Value, d int) (recRoots, bool) {
	if d > 60 {
		return recRoots{}, false
	}
	if a.busy[v] {
		return nil, true
	}
	a.busy[v] = true
	defer delete(a.busy, v)
	strict := func(x ssa.Value) (recRoots, bool) {
		r, n := a.partsD(x, d+1)
		return demote(r, true), n
	}
	join := func(vs []ssa.Value) (recRoots, bool) {
		var res recRoots
		first := true
		for _, x := range vs {
			r, neutral := a.partsD(x, d+1)
			if neutral {
				continue
			}
			if first {
				res, first = r, false
			} else {
				res = inter(res, r)
			}
		}
		return res, first
	}
	switch x := v.(type) {
	case *ssa.Const:
		return nil, true
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return recRoots{{i, -1}: relEq}, false
			}
		}
	case *ssa.FreeVar:
		for i, p := range x.Parent().FreeVars {
			if p == x {
				return recRoots{{1000 + i, -1}: relEq}, false
			}
		}
	case *ssa.Phi:
		return join(x.Edges)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return recRoots{}, false
		}
		switch ad := x.X.(type) {
		case *ssa.Alloc:
			var vs []ssa.Value
			for _, st := range allStores(ad) {
				if st.Parent() != x.Parent() {
					return recRoots{}, false
				}
				vs = append(vs, st.Val)
			}
			if len(vs) == 0 && filled(ad) {
				return recRoots{}, false
			}
			return join(vs)
		case *ssa.FreeVar:
			return a.partsD(ad, d+1)
		case *ssa.FieldAddr:
			if al, ok := ad.X.(*ssa.Alloc); ok {
				// a field set on its own
				var vs []ssa.Value
				for _, r := range *al.Referrers() {
					if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == ad.Field {
						for _, r2 := range *fa.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
								vs = append(vs, st.Val)
							}
						}
					}
				}
				if len(vs) > 0 {
					return join(vs)
				}
				var whole []ssa.Value
				for _, st := range allStores(al) {
					whole = append(whole, st.Val)
				}
				r, n := join(whole)
				res := demote(r, true)
				for k, w := range r {
					if k.field < 0 && w == relEq {
						if res == nil {
							res = recRoots{}
						}
						res[recMeasure{k.param, ad.Field}] = relEq
					}
				}
				return res, n
			}
			return strict(ad.X)
		case *ssa.IndexAddr:
			if fromSplit(ad.X) {
				return a.partsD(ad.X, d+1)
			}
			return strict(ad.X)
		}
		return recRoots{}, false
	case *ssa.Field:
		return strict(x.X)
	case *ssa.FieldAddr:
		return strict(x.X)
	case *ssa.IndexAddr:
		return strict(x.X)
	case *ssa.Index:
		return strict(x.X)
	case *ssa.Lookup:
		return strict(x.X)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok {
				return strict(r.X)
			}
		case *ssa.TypeAssert:
			if x.Index == 0 {
				return a.partsD(t.X, d+1)
			}
		case *ssa.Lookup:
			if x.Index == 0 {
				return strict(t.X)
			}
		case *ssa.Call:
			return a.callParts(t, d)
		}
		return recRoots{}, false
	case *ssa.TypeAssert:
		return a.partsD(x.X, d+1)
	case *ssa.MakeInterface:
		return a.partsD(x.X, d+1)
	case *ssa.ChangeInterface:
		return a.partsD(x.X, d+1)
	case *ssa.ChangeType:
		return a.partsD(x.X, d+1)
	case *ssa.Convert:
		return a.partsD(x.X, d+1)
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			// arguments gathered in a slice: nothing when they are all nothing
			neutral := true
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, r2 := range *ia.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
							if _, n := a.partsD(st.Val, d+1); !n {
								neutral = false
							}
						}
					}
				}
			}
			return recRoots{}, neutral
		}
		return a.partsD(x.X, d+1)
	case *ssa.MakeMap, *ssa.MakeSlice:
		return nil, true
	case *ssa.Call:
		return a.callParts(x, d)
	case *ssa.Alloc:
		var vs []ssa.Value
		for _, st := range allStores(x) {
			vs = append(vs, st.Val)
		}
		if len(vs) > 0 && !filled(x) {
			return join(vs)
		}
	}
	return recRoots{}, false
}

// filled tells whether a variable is set piece by piece, or by something it is given to.
func filled(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		switch r.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, ssa.CallInstruction:
			return true
		}
	}
	return false
}

// givenAway: something else may change the variable.
func givenAway(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		switch r.(type) {
		case ssa.CallInstruction, *ssa.MakeInterface:
			return true
		}
	}
	return false
}

func fromSplit(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok || c.Common().StaticCallee() == nil {
		return false
	}
	return hasPrefixAny(fnName(c.Common().StaticCallee()), "strings.", "regexp.", "(*regexp.", "(collections.String)")
}

// views: calls that give what they are called on (or given) under another form.
var views = []string{"As", "TryAs", "tryAs", "TryConvert", "Convert", "Native", "Elem", "Interface", "ValueOf", "Indirect", "MapKeys", "GetKeys", "KeysAsString", "Values", "MapRange", "Value", "Key", "must", "Must", "Split", "Trim", "Lines", "Sorted", "Unwrap"}

func (a *recAn) callParts(c *ssa.Call, d int) (recRoots, bool) {
	cc := c.Common()
	n := a.p.calleeName(cc)
	short := lastName(n)
	if f := cc.StaticCallee(); f != nil {
		short = calledName(f)
	}
	switch f := cc.Value.(type) { // a function held by a field
	case *ssa.Field:
		short = fieldName(f.X.Type(), f.Field)
	case *ssa.UnOp:
		if fa, ok := f.X.(*ssa.FieldAddr); ok {
			short = fieldName(fa.X.Type(), fa.Field)
		}
	}
	var args []ssa.Value
	if cc.IsInvoke() {
		args = append(args, cc.Value)
	}
	args = append(args, cc.Args...)
	if hasPrefixAny(n, "(reflect.Value).") {
		switch short {
		case "Index", "MapIndex", "Field", "FieldByName", "FieldByIndex":
			r, neutral := a.partsD(args[0], d+1)
			return demote(r, true), neutral
		}
	}
	if short == "Get" && len(args) > 0 {
		r, neutral := a.partsD(args[0], d+1)
		return demote(r, true), neutral
	}
	if hasPrefixAny(short, "Create", "NewDict", "NewList") {
		return nil, true
	}
	if hasPrefixAny(short, views...) {
		res, neutral := recRoots{}, true
		for _, x := range args {
			if st, ok := x.Type().Underlying().(*types.Struct); ok && (st.NumFields() <= 1) && !strings.HasPrefix(x.Type().String(), "reflect.") {
				continue // the helper
			}
			r, n := a.partsD(x, d+1)
			if n {
				continue
			}
			neutral = false
			res = union(res, r)
		}
		return res, neutral
	}
	// a function of the repository that gives a part of what it is given
	return recRoots{}, false
}

// calledName gives the name of a function, or of the exported one that only calls it.
func calledName(f *ssa.Function) string {
	res := lastName(fnName(f))
	best := ""
	for w, g := range forwardTo {
		if g == f && token.IsExported(w.Name()) && (best == "" || w.Name() < best) {
			best = w.Name()
		}
	}
	if best != "" {
		return best
	}
	return res
}

// argOf gives the value handed on for a measure of the function called.
func (a *recAn) argOf(e *recEdge, m recMeasure) ssa.Value {
	if m.param >= 1000 {
		if e.clo == nil || m.param-1000 >= len(e.clo.Bindings) {
			return nil
		}
		return e.clo.Bindings[m.param-1000]
	}
	if e.call == nil {
		return nil
	}
	var args []ssa.Value
	if e.call.IsInvoke() {
		args = append(args, e.call.Value)
	}
	args = append(args, e.call.Args...)
	if m.param >= len(args) {
		return nil
	}
	return args[m.param]
}

// paramCopy gives the parameter that a structure is a copy of, its field being left as it was.
func paramCopy(v ssa.Value, f int) *ssa.Parameter {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if al, ok := u.X.(*ssa.Alloc); ok {
			al = copied(al, f)
			if sts := allStores(al); len(sts) == 1 && !givenAway(al) && !written(al, f) {
				v = sts[0].Val
			}
		}
	}
	p, _ := v.(*ssa.Parameter)
	return p
}

// fieldOf gives the value of a field of a structure that was just filled.
func fieldOf(v ssa.Value, f int) ssa.Value {
	for depth := 0; depth < 5; depth++ {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return nil
		}
		al, ok := u.X.(*ssa.Alloc)
		if !ok {
			return nil
		}
		var fields, whole []ssa.Value
		for _, st := range allStores(al) {
			if ad, ok := st.Addr.(*ssa.Alloc); ok && ad != al {
				continue
			}
			if st.Parent() != al.Parent() {
				return nil
			}
			if st.Addr == ssa.Value(al) {
				whole = append(whole, st.Val)
			}
		}
		for _, r := range *al.Referrers() {
			if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == f {
				for _, r2 := range *fa.Referrers() {
					switch st := r2.(type) {
					case *ssa.Store:
						if st.Addr != ssa.Value(fa) {
							return nil
						}
						fields = append(fields, st.Val)
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return nil
					}
				}
			}
			if c, ok := r.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
				return nil
			}
			if mc, ok := r.(*ssa.MakeClosure); ok {
				// a closure that sets the field
				g := mc.Fn.(*ssa.Function)
				for i, b := range mc.Bindings {
					if b != ssa.Value(al) || i >= len(g.FreeVars) {
						continue
					}
					for _, r2 := range *g.FreeVars[i].Referrers() {
						switch y := r2.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.FieldAddr:
							for _, r3 := range *y.Referrers() {
								if _, ok := r3.(*ssa.UnOp); !ok && y.Field == f {
									return nil
								}
							}
						default:
							return nil
						}
					}
				}
			}
		}
		switch {
		case len(fields) == 1 && len(whole) == 0:
			return fields[0]
		case len(fields) == 0 && len(whole) == 1:
			v = whole[0]
		default:
			return nil
		}
	}
	return nil
}

// partRel relates, on a call, a measure of the caller with one of the callee.
func (a *recAn) partRel(e *recEdge, from, to recMeasure) rel {
	v := a.argOf(e, to)
	if v == nil {
		// what a library calls a closure with is not known
		return relNone
	}
	if to.field >= 0 {
		if v = fieldOf(v, to.field); v == nil {
			return relNone
		}
	}
	r, neutral := a.parts(v)
	if neutral { // nothing is not more than anything
		return relEq
	}
	return r[from]
}

// site gives what is known, about numbers and lengths, where a call is made.
func (a *recAn) site(in ssa.Instruction) *loopAn {
	if l := a.lins[in]; l != nil {
		return l
	}
	l := &loopAn{p: a.p, fn: in.Parent(), h: in.Block(), in: map[*ssa.BasicBlock]bool{}, inner: map[*ssa.BasicBlock]bool{}, stored: map[string]bool{}, out: map[ssa.Value]sv{}, cap: 1, baseB: map[string]bool{}, mem: true}
	for _, b := range l.fn.Blocks {
		for _, x := range b.Instrs {
			if st, ok := x.(*ssa.Store); ok {
				if _, whole := st.Addr.(*ssa.Alloc); whole {
					if _, p := st.Val.(*ssa.Parameter); p {
						continue
					}
				}
				if k, _ := l.addrKey(nil, st.Addr); k != "" {
					l.stored[k] = true
				}
			}
		}
	}
	l.dominating()
	a.lins[in] = l
	return l
}

// numRel relates numbers: strictly closer to a limit that is tested before the call.
func (a *recAn) numRel(e *recEdge, from, to recMeasure, dir int64, length bool) rel {
	v := a.argOf(e, to)
	if v == nil {
		return relNone
	}
	if to.field >= 0 {
		if from.field == to.field && from.param < 1000 && paramCopy(v, to.field) == e.from.Params[from.param] {
			return relEq
		}
		if v = fieldOf(v, to.field); v == nil {
			return relNone
		}
	}
	l := a.site(e.site)
	var old sv
	switch {
	case from.param >= 1000:
		return relNone
	case from.field >= 0:
		// the field of the parameter, held by a variable
		p := e.from.Params[from.param]
		key := ""
		for _, r := range *p.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Val == ssa.Value(p) {
				if al, ok := st.Addr.(*ssa.Alloc); ok {
					if len(allStores(al)) != 1 || givenAway(al) {
						return relNone
					}
					key = fmt.Sprintf("A:%s.%d", al.Name(), from.field)
				}
			}
		}
		if key == "" || l.stored[key] {
			return relNone
		}
		old = l.opaque("V", "mem "+key, nil, true)
	default:
		old = l.eval(nil, e.from.Params[from.param])
	}
	nv := l.eval(nil, v)
	x, y := old.i, nv.i
	if length {
		x, y = old.n, nv.n
	}
	facts := append([]lin{}, l.base...)
	for _, t := range []lin{x, y} {
		for n := range t.t {
			if strings.HasSuffix(n, ".n") {
				facts = append(facts, linAtom(n))
			}
		}
	}
	var bools []string
	for k, v := range l.baseB {
		b := linAtom(k + ".i")
		if strings.HasPrefix(k, "V:") {
			if v {
				facts = append(facts, b.plus(-1), lin{}.add(b, -1).plus(1))
			} else {
				facts = append(facts, b, lin{}.add(b, -1))
			}
			bools = append(bools, k)
		}
	}
	for range l.baseNE {
		for _, ne := range l.baseNE {
			d := ne[0].add(ne[1], -1)
			if proves(facts, d) {
				facts = append(facts, d.plus(-1))
			} else if proves(facts, lin{}.add(d, -1)) {
				facts = append(facts, lin{}.add(d, -1).plus(-1))
			}
		}
	}
	if length || dir < 0 {
		d := x.add(y, -1)
		if proves(facts, d.plus(-1)) && (length || boundedBy(facts, x, -1)) {
			return relStrict
		}
		if proves(facts, d) {
			return relEq
		}
		return relNone
	}
	d := y.add(x, -1)
	if os.Getenv("DBG_NUM") != "" {
		fmt.Fprintf(os.Stderr, "NUM %s %v -> %s %v: %s to %s; %v\n", fnName(e.from), from, fnName(e.to), to, x, y, facts)
	}
	if proves(facts, d.plus(-1)) && boundedBy(facts, x, 1) {
		return relStrict
	}
	if proves(facts, d) {
		return relEq
	}
	return relNone
}

// boundedBy tells whether a number is kept below (or above) some fixed number.
func boundedBy(facts []lin, x lin, dir int64) bool {
	for _, c := range []int64{0, 1, 2, 10, 100, 1000, 10000, 1 << 20, 1 << 32} {
		if dir > 0 && proves(facts, lin{}.add(x, -1).plus(c)) {
			return true
		}
		if dir < 0 && proves(facts, x.plus(c)) {
			return true
		}
	}
	return false
}

func (a *recAn) candidates(f *ssa.Function, kind string) []recMeasure {
	var res []recMeasure
	for i, p := range f.Params {
		t := p.Type()
		switch kind {
		case "part":
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
				continue
			}
			res = append(res, recMeasure{i, -1})
		case "up", "down":
			if isIntLike(t) {
				res = append(res, recMeasure{i, -1})
			}
			if st, ok := t.Underlying().(*types.Struct); ok {
				for j := 0; j < st.NumFields(); j++ {
					if isIntLike(st.Field(j).Type()) {
						res = append(res, recMeasure{i, j})
					}
				}
			}
		case "len":
			if seqType(t) {
				res = append(res, recMeasure{i, -1})
			}
		}
	}
	if kind == "part" {
		for i := range f.FreeVars {
			res = append(res, recMeasure{1000 + i, -1})
		}
	}
	return res
}

func (a *recAn) rel(e *recEdge, from, to recMeasure, kind string) rel {
	switch kind {
	case "part":
		return a.partRel(e, from, to)
	case "len":
		return a.numRel(e, from, to, -1, true)
	case "down":
		return a.numRel(e, from, to, -1, false)
	}
	return a.numRel(e, from, to, 1, false)
}

// solve looks for what decreases along the cycles made of the calls; it gives the calls
// of the cycles for which nothing was found.
func (a *recAn) solve(edges []*recEdge, depth int) (left []*recEdge, how []string) {
	for _, scc := range recSCCs(edges) {
		set := map[*ssa.Function]bool{}
		for _, f := range scc {
			set[f] = true
		}
		var inside []*recEdge
		for _, e := range edges {
			if set[e.from] && set[e.to] {
				inside = append(inside, e)
			}
		}
		if len(inside) == 0 {
			continue
		}
		found := false
		for _, kind := range []string{"part", "len", "up", "down", "visited", "special"} {
			var strict map[*recEdge]bool
			switch kind {
			case "visited":
				strict = a.visited(inside)
			case "special":
				strict = map[*recEdge]bool{}
				for _, e := range inside {
					if a.token(e) || a.stage(e) || a.number(e) {
						strict[e] = true
					}
				}
			default:
				strict = a.assign(scc, inside, kind)
			}
			if len(strict) == 0 || depth > 4 {
				continue
			}
			var rest []*recEdge
			for _, e := range inside {
				if !strict[e] {
					rest = append(rest, e)
				}
			}
			if len(rest) > 0 {
				l, h := a.solve(rest, depth+1)
				if len(l) > 0 {
					continue
				}
				how = append(how, h...)
			}
			how = append(how, kind)
			found = true
			break
		}
		if !found {
			left = append(left, inside...)
		}
	}
	return
}

// assign chooses what is followed in each function, so that no call makes it grow; it
// gives the calls that make it smaller.
func (a *recAn) assign(scc []*ssa.Function, edges []*recEdge, kind string) map[*recEdge]bool {
	sort.Slice(scc, func(i, j int) bool { return fnName(scc[i]) < fnName(scc[j]) })
	var best map[*recEdge]bool
	cur := map[*ssa.Function]recMeasure{}
	steps := 0
	type key struct {
		e        *recEdge
		from, to recMeasure
	}
	memo := map[key]rel{}
	get := func(e *recEdge, f, t recMeasure) rel {
		k := key{e, f, t}
		r, ok := memo[k]
		if !ok {
			r = a.rel(e, f, t, kind)
			memo[k] = r
		}
		return r
	}
	// what cannot go with anything is put aside first
	dom := map[*ssa.Function][]recMeasure{}
	for _, f := range scc {
		dom[f] = a.candidates(f, kind)
	}
	for again := true; again; {
		again = false
		for _, e := range edges {
			keep := func(f *ssa.Function, ok func(m recMeasure) bool) {
				var l []recMeasure
				for _, m := range dom[f] {
					if ok(m) {
						l = append(l, m)
					}
				}
				if len(l) < len(dom[f]) {
					dom[f], again = l, true
				}
			}
			if e.from == e.to {
				keep(e.from, func(m recMeasure) bool { return get(e, m, m) != relNone })
				continue
			}
			keep(e.from, func(m recMeasure) bool {
				for _, t := range dom[e.to] {
					if get(e, m, t) != relNone {
						return true
					}
				}
				return false
			})
			keep(e.to, func(t recMeasure) bool {
				for _, m := range dom[e.from] {
					if get(e, m, t) != relNone {
						return true
					}
				}
				return false
			})
		}
	}
	var try func() bool
	try = func() bool {
		steps++
		if steps > 4000 {
			return false
		}
		// the next function: one called by a function already done, if possible
		var next *ssa.Function
		for _, e := range edges {
			_, a := cur[e.from]
			if _, b := cur[e.to]; a && !b {
				next = e.to
				break
			}
		}
		if next == nil {
			for _, f := range scc {
				if _, ok := cur[f]; !ok {
					next = f
					break
				}
			}
		}
		if next == nil {
			strict := map[*recEdge]bool{}
			for _, e := range edges {
				if get(e, cur[e.from], cur[e.to]) == relStrict {
					strict[e] = true
				}
			}
			if len(strict) > len(best) {
				best = strict
			}
			return len(strict) == len(edges) || len(strict) > 0 && len(recSCCs(without(edges, strict))) == 0
		}
		for _, m := range dom[next] {
			ok := true
			cur[next] = m
			for _, e := range edges {
				f, okf := cur[e.from]
				t, okt := cur[e.to]
				if okf && okt && (e.from == next || e.to == next) && get(e, f, t) == relNone {
					ok = false
					break
				}
			}
			if ok && try() {
				return true
			}
			delete(cur, next)
		}
		return false
	}
	try()
	return best
}

func without(edges []*recEdge, strict map[*recEdge]bool) []*recEdge {
	var rest []*recEdge
	for _, e := range edges {
		if !strict[e] {
			rest = append(rest, e)
		}
	}
	return rest
}

// visited gives the calls made only for what was not yet in a table of what was seen, the
// function called putting there what it is called for.
func (a *recAn) visited(edges []*recEdge) map[*recEdge]bool {
	res := map[*recEdge]bool{}
	for _, e := range edges {
		if e.call == nil {
			continue
		}
		for b := e.site.Block(); b != nil; b = b.Idom() {
			d := b.Idom()
			if d == nil {
				break
			}
			ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
			if !ok || len(b.Preds) != 1 {
				continue
			}
			m, k, seenBranch := seenTest(ifi.Cond)
			if m == nil || d.Succs[0] == b && seenBranch || d.Succs[1] == b && !seenBranch {
				continue
			}
			root := varRoot(m)
			if root == nil || a.forgets(root, edges) {
				continue
			}
			// put in the table before the call...
			if a.marks(e.from, root, func(v ssa.Value) bool { return sameVar(v, k) }, e.site.Block(), e.site) {
				res[e] = true
			}
			// ... or by the function called, first thing
			for i, x := range e.call.Args {
				if !sameVar(x, k) || i >= len(e.to.Params) {
					continue
				}
				p := e.to.Params[i]
				if a.marks(e.to, root, func(v ssa.Value) bool { return derivedFrom(v, p, map[ssa.Value]bool{}) }, nil, nil) {
					res[e] = true
				}
			}
		}
	}
	return res
}

// seenTest recognises the test of a table: the table, the key, and the branch taken when the key is there.
func seenTest(c ssa.Value) (m, k ssa.Value, branch bool) {
	branch = true
	for {
		if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
			c, branch = u.X, !branch
			continue
		}
		break
	}
	if x, ok := c.(*ssa.Extract); ok {
		c = x.Tuple
	}
	if l, ok := c.(*ssa.Lookup); ok {
		if _, ok := l.X.Type().Underlying().(*types.Map); ok {
			return l.X, l.Index, branch
		}
	}
	return nil, nil, false
}

// varRoot gives the variable (of the outermost function) that a value is read from.
func varRoot(v ssa.Value) ssa.Value {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		case *ssa.FreeVar:
			fn := x.Parent()
			idx := -1
			for i, f := range fn.FreeVars {
				if f == x {
					idx = i
				}
			}
			if fn.Parent() == nil || idx < 0 {
				return nil
			}
			var b ssa.Value
			for _, blk := range fn.Parent().Blocks {
				for _, in := range blk.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
						b = mc.Bindings[idx]
					}
				}
			}
			if b == nil {
				return nil
			}
			v = b
		case *ssa.Alloc, *ssa.MakeMap, *ssa.Parameter, *ssa.Global:
			return v
		default:
			return nil
		}
	}
	return nil
}

func sameVar(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && x.X == y.X
}

// derivedFrom: the parameter itself, or its absolute or cleaned form.
func derivedFrom(v ssa.Value, p *ssa.Parameter, busy map[ssa.Value]bool) bool {
	if busy[v] {
		return true
	}
	busy[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		return x == p
	case *ssa.Extract:
		return x.Index == 0 && derivedFrom(x.Tuple, p, busy)
	case *ssa.Call:
		if f := x.Common().StaticCallee(); f != nil && len(x.Common().Args) == 1 {
			switch fnName(f) {
			case "path/filepath.Abs", "path/filepath.Clean", "path/filepath.EvalSymlinks":
				return derivedFrom(x.Common().Args[0], p, busy)
			}
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, st := range allStores(al) {
				if !derivedFrom(st.Val, p, busy) {
					return false
				}
			}
			return true
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !derivedFrom(e, p, busy) {
				return false
			}
		}
		return true
	}
	return false
}

// marks tells whether a function always puts a key in a table (before a call, if one is given, or before calling anything that may call it back).
func (a *recAn) marks(fn *ssa.Function, root ssa.Value, isKey func(ssa.Value) bool, at *ssa.BasicBlock, before ssa.Instruction) bool {
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || varRoot(mu.Map) != root || !isKey(mu.Key) {
				continue
			}
			if b, ok := mu.Value.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				if c, ok := mu.Value.(*ssa.Const); !ok || c.Value == nil || c.Value.String() == "false" {
					continue
				}
			}
			if before != nil {
				if b == at {
					for _, x := range b.Instrs[i:] {
						if x == before {
							return true
						}
					}
				} else if b.Dominates(at) {
					return true
				}
				continue
			}
			// every call that may come back is made after
			ok = true
			for _, e := range a.edges {
				if e.from != fn {
					continue
				}
				if e.to.Parent() == nil && e.to != fn {
					continue
				}
				sb := e.site.Block()
				if sb == b {
					after := false
					for _, x := range b.Instrs[i:] {
						after = after || x == e.site
					}
					ok = ok && after
				} else if !b.Dominates(sb) {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// forgets tells whether the table is emptied or replaced by the functions.
func (a *recAn) forgets(root ssa.Value, edges []*recEdge) bool {
	fns := map[*ssa.Function]bool{}
	for _, e := range edges {
		fns[e.from] = true
	}
	for f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if varRoot(x.Addr) == root {
						return true
					}
				case *ssa.MapUpdate:
					if c, ok := x.Value.(*ssa.Const); ok && c.Value != nil && c.Value.String() == "false" && varRoot(x.Map) == root {
						return true
					}
				case *ssa.Call:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") && varRoot(x.Common().Args[0]) == root {
						return true
					}
				}
			}
		}
	}
	return false
}

func (p *Program) ruleRecursion(r *Report) {
	a := &recAn{p: p, edges: p.recEdges(), memo: map[ssa.Value]recRoots{}, busy: map[ssa.Value]bool{}, lins: map[ssa.Instruction]*loopAn{}}
	if s := os.Getenv("DBG_SSA"); s != "" {
		dumpSSA(p, s)
	}
	cyc := recSCCs(a.edges)
	for _, scc := range cyc {
		set := map[*ssa.Function]bool{}
		var names []string
		for _, f := range scc {
			set[f] = true
			names = append(names, fnName(f))
		}
		sort.Strings(names)
		var inside []*recEdge
		for _, e := range a.edges {
			if set[e.from] && set[e.to] && !a.reviewed(e) {
				inside = append(inside, e)
			}
		}
		left, how := a.solve(inside, 0)
		r.Counts["recursions"]++
		r.Counts["calls of recursions"] += len(inside)
		if len(left) == 0 {
			r.Obligations++
			r.Discharged++
			for _, h := range how {
				r.Counts["recursions: "+h]++
			}
			r.sample("recursion of %s (%d calls): %s", strings.Join(names, ", "), len(inside), strings.Join(how, ", "))
			r.sample("recursion of %s (%d calls): %s", strings.Join(names, ", "), len(inside), strings.Join(how, ", "))
			continue
		}
		// the calls that hand on nothing smaller
		if os.Getenv("DBG_REC") != "" {
			for _, e := range left {
				fmt.Fprintf(os.Stderr, "LEFT %s -> %s at %s\n", fnName(e.from), fnName(e.to), p.instrPos(e.site))
				if e.call != nil {
					var args []ssa.Value
					if e.call.IsInvoke() {
						args = append(args, e.call.Value)
					}
					for _, x := range append(args, e.call.Args...) {
						rr, n := a.parts(x)
						fmt.Fprintf(os.Stderr, "      %s %s = %v neutral %v\n", x.Name(), x, rr, n)
					}
				}
			}
		}
		e := a.worst(left)
		r.bad("ends|recursion|"+names[0], p.instrPos(e.site), "%s and the functions it calls may call one another for ever: what is handed on to %s is not known to be smaller than what was given", fnName(e.from), fnName(e.to))
	}
}

// worst chooses the call to be reported: one that hands on nothing related to what was given.
func (a *recAn) worst(left []*recEdge) *recEdge {
	for _, e := range left {
		related := e.call == nil
		if e.call != nil {
			args := e.call.Args
			if e.call.IsInvoke() {
				args = append([]ssa.Value{e.call.Value}, args...)
			}
			for _, x := range args {
				if r, n := a.parts(x); !n {
					for _, v := range r {
						related = related || v == relStrict
					}
				}
			}
		}
		if !related {
			return e
		}
	}
	return left[0]
}

// reviewed: a list is enlarged with nothing.
func (a *recAn) reviewed(e *recEdge) bool {
	if e.call == nil || !growers[calledName(e.to)] || len(e.call.Args) == 0 {
		return false
	}
	last := e.call.Args[len(e.call.Args)-1]
	if _, ok := last.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	_, neutral := a.parts(last)
	return neutral
}

// guards gives the conditions known to hold (or not) where a call is made.
func guards(in ssa.Instruction, f func(cond ssa.Value, val bool)) {
	for b := in.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			return
		}
		ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || len(b.Preds) != 1 || d.Succs[0] == d.Succs[1] {
			continue
		}
		c, val := ifi.Cond, d.Succs[0] == b
		for {
			u, ok := c.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			c, val = u.X, !val
		}
		if b, ok := c.(*ssa.BinOp); ok { // the constant on the right
			if _, ok := b.X.(*ssa.Const); ok {
				if op, ok := flippedOp[b.Op]; ok {
					c = &ssa.BinOp{Op: op, X: b.Y, Y: b.X}
				}
			}
		}
		f(c, val)
	}
}

var flippedOp = map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}

func strConst(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

// token: the call is only made when a text holds something that is taken out of what is handed on.
func (a *recAn) token(e *recEdge) bool {
	if e.call == nil {
		return false
	}
	tokens := map[string]bool{}
	guards(e.site, func(c ssa.Value, val bool) {
		call := func(v ssa.Value) (string, string) {
			if x, ok := v.(*ssa.Call); ok && len(x.Call.Args) == 2 {
				n := a.p.calleeName(x.Common())
				if t, ok := strConst(x.Call.Args[1]); ok && hasPrefixAny(n, "strings.") {
					return n, t
				}
			}
			return "", ""
		}
		if n, t := call(c); (n == "strings.Contains" || n == "strings.ContainsAny" && len(t) == 1) && val {
			tokens[t] = true
		}
		if b, ok := c.(*ssa.BinOp); ok {
			n, t := call(b.X)
			k, isC := b.Y.(*ssa.Const)
			if !isC || k.Value == nil || k.Value.Kind() != constant.Int {
				return
			}
			i, _ := constant.Int64Val(k.Value)
			op := b.Op
			if !val {
				op = negateOp(op)
			}
			switch n {
			case "strings.Count":
				if i == 0 && (op == token.NEQ || op == token.GTR) || i == 1 && op == token.GEQ {
					tokens[t] = true
				}
			case "strings.Index", "strings.IndexByte":
				if i == 0 && op == token.GEQ || i == -1 && (op == token.NEQ || op == token.GTR) {
					tokens[t] = true
				}
			}
		}
	})
	for t := range tokens {
		if t == "" {
			continue
		}
		for _, x := range e.call.Args {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && a.removes(x, t, 0) {
				return true
			}
		}
	}
	return false
}

// removes: whatever the text was, the token is taken out of it and not put back.
func (a *recAn) removes(v ssa.Value, t string, d int) bool {
	if d > 20 {
		return false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD {
			if s, ok := strConst(x.Y); ok && !strings.Contains(s, t) {
				return a.removes(x.X, t, d+1)
			}
			if s, ok := strConst(x.X); ok && !strings.Contains(s, t) {
				return a.removes(x.Y, t, d+1)
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !a.removes(e, t, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		n := a.p.calleeName(x.Common())
		args := x.Call.Args
		switch n {
		case "strings.Replace", "strings.ReplaceAll":
			old, ok1 := strConst(args[1])
			repl, ok2 := strConst(args[2])
			if !ok2 || strings.Contains(repl, t) {
				return false
			}
			if ok1 && old == t {
				if n == "strings.ReplaceAll" {
					return true
				}
				if c, ok := args[3].(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) < 0 {
					return true
				}
			}
			return a.removes(args[0], t, d+1)
		case "(*regexp.Regexp).ReplaceAllString", "(*regexp.Regexp).ReplaceAllLiteralString":
			repl, ok := strConst(args[2])
			if !ok || strings.Contains(repl, t) {
				return false
			}
			if pat, ok := regexpText(args[0]); ok {
				if re, err := syntax.Parse(pat, syntax.Perl); err == nil && alwaysMatches(re, t) {
					return true
				}
			}
			return a.removes(args[1], t, d+1)
		case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper":
			return a.removes(args[0], t, d+1)
		}
	}
	return false
}

// regexpText gives the text of an expression compiled from a constant.
func regexpText(v ssa.Value) (string, bool) {
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil {
			for _, m := range g.Pkg.Members {
				f, ok := m.(*ssa.Function)
				if !ok || !strings.HasPrefix(f.Name(), "init") {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
							return regexpText(st.Val)
						}
					}
				}
			}
		}
	}
	if c, ok := v.(*ssa.Call); ok && c.Call.StaticCallee() != nil && fnName(c.Call.StaticCallee()) == "regexp.MustCompile" {
		return strConst(c.Call.Args[0])
	}
	return "", false
}

// alwaysMatches: the expression matches wherever the token is, taking it (a literal in a
// sequence of parts that may be empty).
func alwaysMatches(re *syntax.Regexp, t string) bool {
	switch re.Op {
	case syntax.OpLiteral:
		return string(re.Rune) == t
	case syntax.OpCapture, syntax.OpPlus:
		return alwaysMatches(re.Sub[0], t)
	case syntax.OpConcat:
		found := false
		for _, s := range re.Sub {
			switch {
			case s.Op == syntax.OpStar || s.Op == syntax.OpQuest || s.Op == syntax.OpEmptyMatch:
			case !found && alwaysMatches(s, t):
				found = true
			default:
				return false
			}
		}
		return found
	}
	return false
}

// stage: the call is only made when a group of an expression matched, and hands on an
// expression that has no such group.
func (a *recAn) stage(e *recEdge) bool {
	if e.call == nil {
		return false
	}
	groups := map[string]bool{}
	guards(e.site, func(c ssa.Value, val bool) {
		b, ok := c.(*ssa.BinOp)
		if !ok || !(b.Op == token.NEQ && val || b.Op == token.EQL && !val) {
			return
		}
		if s, ok := strConst(b.Y); !ok || s != "" {
			return
		}
		if l, ok := b.X.(*ssa.Lookup); ok {
			if k, ok := strConst(l.Index); ok {
				groups[k] = true
			}
		}
	})
	if len(groups) == 0 {
		return false
	}
	for _, x := range e.call.Args {
		var texts []string
		c, ok := x.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil {
			continue
		}
		// the expressions of the variable given by the function
		for _, b := range c.Call.StaticCallee().Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					if g, ok := u.X.(*ssa.Global); ok {
						texts = append(texts, a.initTexts(g)...)
					}
				}
			}
		}
		if len(texts) == 0 {
			continue
		}
		for k := range groups {
			has := false
			for _, t := range texts {
				has = has || strings.Contains(t, "<"+k+">")
			}
			if !has {
				return true
			}
		}
	}
	return false
}

// initTexts lists the constants a package variable is made from.
func (a *recAn) initTexts(g *ssa.Global) (res []string) {
	seen := map[ssa.Value]bool{}
	var collect func(v ssa.Value)
	collect = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if s, ok := strConst(v); ok {
			res = append(res, s)
			return
		}
		if al, ok := v.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if fa, ok := r.(*ssa.FieldAddr); ok {
					for _, r2 := range *fa.Referrers() {
						if st, ok := r2.(*ssa.Store); ok {
							collect(st.Val)
						}
					}
				}
			}
			return
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				collect(*op)
			}
		}
	}
	f := g.Pkg.Func("init")
	if f == nil {
		return nil
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ad := st.Addr
			if fa, ok := ad.(*ssa.FieldAddr); ok {
				ad = fa.X
			}
			if ad == ssa.Value(g) {
				collect(st.Val)
			}
		}
	}
	return
}

// number: the call is only made for something that is not a number, and hands on numbers.
func (a *recAn) number(e *recEdge) bool {
	if e.call == nil || len(e.call.Args) == 0 {
		return false
	}
	notNumber := false
	guards(e.site, func(c ssa.Value, val bool) {
		b, ok := c.(*ssa.BinOp)
		if !ok || !(b.Op == token.NEQ && val || b.Op == token.EQL && !val) {
			return
		}
		x, ok := b.X.(*ssa.Extract)
		if !ok {
			return
		}
		if call, ok := x.Tuple.(*ssa.Call); ok && a.p.calleeName(call.Common()) == "strconv.ParseFloat" {
			notNumber = true
		}
	})
	sl, ok := e.call.Args[len(e.call.Args)-1].(*ssa.Slice)
	if !ok || !notNumber {
		return false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	n := 0
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok {
					continue
				}
				mi, ok := st.Val.(*ssa.MakeInterface)
				if !ok {
					return false
				}
				if b, ok := mi.X.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsNumeric == 0 {
					return false
				}
				n++
			}
		}
	}
	return n > 0
}

func dumpSSA(p *Program, n string) {
	for _, f := range p.Funcs {
		if strings.HasSuffix(fnName(f), n) {
			f.WriteTo(os.Stderr)
		}
	}
}
