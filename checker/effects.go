package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effects is a compositional effect and aliasing analysis. For every function it computes which
// storage reachable from its parameters it may write, what its results may share with its
// parameters, and what it stores into the storage of its parameters.
//
// Storage is abstracted as: the storage a parameter (or free variable) directly denotes (depth 0:
// the entries of a map, the elements of a slice, the fields behind a pointer), everything reachable
// from it (depth 1), storage allocated in the function (one object per allocation site and call),
// and package variables.
type loc struct {
	k byte // 'p' parameter, 's' site, 'g' global, 'f' fresh (only in summaries)
	v interface{}
	d int
}

func (l loc) String() string {
	if l.k == 'p' {
		return fmt.Sprintf("p%v.%d", l.v, l.d)
	}
	if l.k == 'f' {
		return "fresh"
	}
	return fmt.Sprintf("%c:%v.%d", l.k, l.v, l.d)
}

type locSet map[loc]bool

func (s locSet) add(o locSet) bool {
	ch := false
	for l := range o {
		if !s[l] {
			s[l] = true
			ch = true
		}
	}
	return ch
}

func (s locSet) sorted() []loc {
	var r []loc
	for l := range s {
		r = append(r, l)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

type resultSum struct {
	direct locSet // 'p', 'g' and the marker 'f'
	inner  locSet // what fresh storage of the result contains
}

type effSum struct {
	writes  map[loc]map[string]writeInfo // by the function doing the actual write
	results []resultSum
	caps    map[loc]locSet // storage of parameters receives
}

// writeInfo tells where a write happens: here, and where the callees finally do it.
type writeInfo struct {
	at    string // in this function
	deep  string // the actual write
	chain string // callees in between
}

type effects struct {
	p     *Program
	sums  map[*ssa.Function]*effSum
	vars  map[variant]*effSum // for calls with constant boolean arguments
	vlist []variant
	dyn   map[string][]*ssa.Function
	funcs []*ssa.Function
	grown bool
}

var fresh = loc{k: 'f'}

// maxDepth is how many levels below a parameter are told apart (the last one stands for all the rest).
const maxDepth = 3

// effectsOf computes the analysis once.
func (p *Program) effectsOf() *effects {
	if p.eff != nil {
		return p.eff
	}
	e := &effects{p: p, sums: map[*ssa.Function]*effSum{}, vars: map[variant]*effSum{}, dyn: map[string][]*ssa.Function{}}
	p.eff = e
	for _, fn := range p.Funcs {
		if len(fn.Blocks) > 0 {
			e.funcs = append(e.funcs, fn)
		}
	}
	// functions used as values, by signature
	seen := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for i, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					var f *ssa.Function
					switch v := (*op).(type) {
					case *ssa.Function:
						f = v
					case *ssa.MakeClosure:
						f = p.realFunc(v.Fn.(*ssa.Function))
					}
					if f == nil || seen[f] || !p.inRepo(f) {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && i == 0 && c.Common().StaticCallee() == f {
						continue
					}
					if _, ok := in.(*ssa.MakeClosure); ok {
						continue
					}
					seen[f] = true
					k := sigKey(f.Signature)
					e.dyn[k] = append(e.dyn[k], f)
				}
			}
		}
	}
	for round := 0; round < 40; round++ {
		changed := false
		for _, fn := range e.funcs {
			if e.analyse(fn, "", e.sum(fn)) {
				changed = true
			}
		}
		for _, v := range append([]variant{}, e.vlist...) {
			if e.analyse(v.fn, v.bools, e.vars[v]) {
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	return e
}

// sigKey identifies a signature by its types only.
func sigKey(s *types.Signature) string {
	anon := func(t *types.Tuple) *types.Tuple {
		vs := make([]*types.Var, t.Len())
		for i := range vs {
			vs[i] = types.NewVar(0, nil, "", t.At(i).Type())
		}
		return types.NewTuple(vs...)
	}
	return types.TypeString(types.NewSignatureType(nil, nil, nil, anon(s.Params()), anon(s.Results()), s.Variadic()), nil)
}

// holdsRefs tells whether values of a type can denote shared storage.
func holdsRefs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsRefs(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return holdsRefs(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if holdsRefs(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	if isErrorType(t) {
		return false
	}
	return true
}

func (e *effects) sum(fn *ssa.Function) *effSum {
	s := e.sums[fn]
	if s == nil {
		s = newEffSum(fn)
		e.sums[fn] = s
	}
	return s
}

func newEffSum(fn *ssa.Function) *effSum {
	s := &effSum{writes: map[loc]map[string]writeInfo{}, caps: map[loc]locSet{}}
	s.results = make([]resultSum, fn.Signature.Results().Len())
	for i := range s.results {
		s.results[i] = resultSum{locSet{}, locSet{}}
	}
	return s
}

// libWrites lists library functions that change what they are given, with the index of the argument.
var libWrites = map[string][]int{
	"sort.Strings": {0}, "sort.Ints": {0}, "sort.Float64s": {0}, "sort.Slice": {0}, "sort.SliceStable": {0}, "sort.Sort": {0}, "sort.Stable": {0},
	"slices.Sort": {0}, "slices.SortFunc": {0}, "slices.SortStableFunc": {0}, "slices.Reverse": {0}, "slices.Delete": {0}, "slices.DeleteFunc": {0}, "slices.Compact": {0}, "slices.CompactFunc": {0}, "slices.Replace": {0}, "slices.Insert": {0},
	"maps.Copy": {0}, "maps.DeleteFunc": {0}, "reflect.Copy": {0},
	"(reflect.Value).Set": {0}, "(reflect.Value).SetMapIndex": {0}, "(reflect.Value).SetString": {0}, "(reflect.Value).SetInt": {0}, "(reflect.Value).SetBool": {0}, "(reflect.Value).SetFloat": {0}, "(reflect.Value).SetLen": {0},
}

// libSameStorage: the result denotes the same storage as the argument.
var libSame = map[string]bool{"(reflect.Value).Elem": true, "reflect.ValueOf": true, "(reflect.Value).Interface": true, "(reflect.Value).Convert": true, "(reflect.Value).Slice": true, "(reflect.Value).Addr": true, "reflect.Indirect": true, "(reflect.Value).Slice3": true}

// libInner: the result denotes something inside the argument.
var libInner = map[string]bool{"(reflect.Value).Index": true, "(reflect.Value).MapIndex": true, "(reflect.Value).Field": true, "(reflect.Value).FieldByName": true, "(reflect.Value).MapKeys": true}

type effState struct {
	e    *effects
	fn   *ssa.Function
	pts  map[ssa.Value]locSet
	heap map[loc]locSet
	s    *effSum
	chg  bool // the summary changed
	loc  bool // local state changed
}

// variant is a function together with the constant values of its boolean parameters ("t", "f" or "-").
type variant struct {
	fn    *ssa.Function
	bools string
}

// variantOf gives the summary to use for a call.
func (e *effects) variantOf(f *ssa.Function, in ssa.Instruction) *effSum {
	c, ok := in.(*ssa.Call)
	if !ok || len(c.Call.Args) != len(f.Params) || c.Call.IsInvoke() {
		return e.sums[f]
	}
	key, any := "", false
	for i, prm := range f.Params {
		x := "-"
		if b, ok := prm.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			if k, ok := c.Call.Args[i].(*ssa.Const); ok {
				x = "f"
				if k.Value.String() == "true" {
					x = "t"
				}
				any = true
			}
		}
		key += x
	}
	if !any {
		return e.sums[f]
	}
	v := variant{f, key}
	s := e.vars[v]
	if s == nil {
		s = newEffSum(f)
		e.vars[v] = s
		e.vlist = append(e.vlist, v)
		e.grown = true
	}
	return s
}

// feasible gives the blocks reachable when the boolean parameters have the given values.
func feasible(fn *ssa.Function, bools string) map[*ssa.BasicBlock]bool {
	val := func(v ssa.Value) string {
		neg := false
		for {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op.String() != "!" {
				break
			}
			v, neg = u.X, !neg
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op.String() == "*" {
			if a, ok := u.X.(*ssa.Alloc); ok {
				if s := onlyStore(a); s != nil {
					v = s.Val
				}
			}
		}
		for i, p := range fn.Params {
			if p == v && i < len(bools) && bools[i] != '-' {
				if (bools[i] == 't') != neg {
					return "t"
				}
				return "f"
			}
		}
		return "-"
	}
	res := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if res[b] {
			return
		}
		res[b] = true
		if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			switch val(ifi.Cond) {
			case "t":
				walk(b.Succs[0])
				return
			case "f":
				walk(b.Succs[1])
				return
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(fn.Blocks[0])
	if fn.Recover != nil {
		walk(fn.Recover)
	}
	return res
}

func (e *effects) analyse(fn *ssa.Function, bools string, sum *effSum) bool {
	e.grown = false
	st := &effState{e: e, fn: fn, pts: map[ssa.Value]locSet{}, heap: map[loc]locSet{}, s: sum}
	blocks := fn.Blocks
	if bools != "" {
		live := feasible(fn, bools)
		blocks = nil
		for _, b := range fn.Blocks {
			if live[b] {
				blocks = append(blocks, b)
			}
		}
	}
	for i, prm := range fn.Params {
		if holdsRefs(prm.Type()) {
			st.pts[prm] = locSet{loc{'p', i, 0}: true}
		}
	}
	for i, fv := range fn.FreeVars {
		st.pts[fv] = locSet{loc{'p', len(fn.Params) + i, 0}: true}
	}
	for round := 0; round < 30; round++ {
		st.loc = false
		for _, b := range blocks {
			for _, in := range b.Instrs {
				st.instr(in)
			}
		}
		if !st.loc {
			break
		}
	}
	return st.chg || e.grown
}

func (st *effState) of(v ssa.Value) locSet {
	switch x := v.(type) {
	case *ssa.Global:
		return locSet{loc{'g', x, 0}: true}
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	}
	return st.pts[v]
}

func (st *effState) set(v ssa.Value, s locSet) {
	if len(s) == 0 {
		return
	}
	cur := st.pts[v]
	if cur == nil {
		cur = locSet{}
		st.pts[v] = cur
	}
	if cur.add(s) {
		st.loc = true
	}
}

// content gives what the storage of s holds.
func (st *effState) content(s locSet) locSet {
	r := locSet{}
	for l := range s {
		switch l.k {
		case 'p', 'g':
			d := l.d + 1
			if d > maxDepth {
				d = maxDepth
			}
			r[loc{l.k, l.v, d}] = true
		}
		r.add(st.heap[l])
	}
	return r
}

// inside gives everything reachable from s, s itself excluded unless it is reachable from itself.
func (st *effState) inside(s locSet) locSet {
	r := st.content(s)
	for {
		if !r.add(st.content(r)) {
			return r
		}
	}
}

func (st *effState) store(target, v locSet) {
	for l := range target {
		if l.k == 'p' && st.engine(l.v.(int)) {
			continue // what the engine keeps (aliases, contexts) is its own state
		}
		h := st.heap[l]
		if h == nil {
			h = locSet{}
			st.heap[l] = h
		}
		if h.add(v) {
			st.loc = true
		}
		if l.k == 'p' {
			c := st.s.caps[l]
			if c == nil {
				c = locSet{}
				st.s.caps[l] = c
			}
			if c.add(st.export(v)) {
				st.chg = true
			}
		}
	}
}

// engine tells whether a parameter or free variable is the template engine object.
func (st *effState) engine(i int) bool {
	var t types.Type
	if i < len(st.fn.Params) {
		t = st.fn.Params[i].Type()
	} else {
		t = st.fn.FreeVars[i-len(st.fn.Params)].Type()
	}
	for {
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		t = pt.Elem()
	}
	return shortType(t) == "template.Template"
}

// export gives the part of s meaningful outside of the function: parameters reachable from it.
func (st *effState) export(s locSet) locSet {
	r := locSet{}
	all := locSet{}
	all.add(s)
	all.add(st.inside(s))
	for l := range all {
		if l.k == 'p' || l.k == 'g' {
			r[l] = true
		}
	}
	return r
}

func (st *effState) write(target locSet, in ssa.Instruction, by string) {
	at := st.e.p.instrPos(in)
	o := "direct"
	if by == "append" {
		o = by
	}
	st.wrote(target, o, writeInfo{at, at, ""})
}

func (st *effState) wrote(target locSet, origin string, w writeInfo) {
	for l := range target {
		if l.k == 'p' || l.k == 'g' {
			m := st.s.writes[l]
			if m == nil {
				m = map[string]writeInfo{}
				st.s.writes[l] = m
			}
			if _, ok := m[origin]; !ok {
				m[origin] = w
				st.chg = true
			}
		}
	}
}

func (st *effState) pkg() string {
	f := st.fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return ""
	}
	return f.Pkg.Pkg.Path()
}

// collectionOp names the operation of a list or dictionary a method implements.
func collectionOp(f *ssa.Function) string {
	recv := f.Signature.Recv()
	if recv == nil {
		return ""
	}
	for _, m := range []string{"AsMap", "AsArray"} {
		if obj, _, _ := types.LookupFieldOrMethod(recv.Type(), true, nil, m); obj != nil {
			return f.Name()
		}
	}
	return ""
}

func (st *effState) site(v interface{}) loc { return loc{'s', v, 0} }

func (st *effState) instr(in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		st.set(in, locSet{st.site(in): true})
	case *ssa.MakeSlice:
		st.set(in, locSet{st.site(in): true})
	case *ssa.MakeMap:
		st.set(in, locSet{st.site(in): true})
	case *ssa.MakeChan:
		st.set(in, locSet{st.site(in): true})
	case *ssa.MakeClosure:
		l := st.site(in)
		st.set(in, locSet{l: true})
		f := st.e.p.realFunc(in.Fn.(*ssa.Function))
		for _, b := range in.Bindings {
			st.store(locSet{l: true}, st.of(b))
		}
		if f == in.Fn && len(f.Blocks) > 0 {
			// effects on the captured variables, whoever calls it
			args := make([]locSet, len(f.Params)+len(f.FreeVars))
			for i, b := range in.Bindings {
				args[len(f.Params)+i] = st.of(b)
			}
			st.apply(f, args, in, nil)
		}
	case *ssa.Phi:
		for i, ed := range in.Edges {
			if st.e.p.plainAt(ed, in.Block().Preds[i], in.Block()) {
				continue
			}
			if holdsRefs(in.Type()) {
				st.set(in, st.of(ed))
			}
		}
	case *ssa.ChangeType, *ssa.Convert, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.SliceToArrayPointer:
		v := in.(ssa.Value)
		if holdsRefs(v.Type()) {
			x := *in.Operands(nil)[0]
			if cv, ok := in.(*ssa.Convert); ok { // []byte(s) and []rune(s) allocate
				if _, isStr := cv.X.Type().Underlying().(*types.Basic); isStr {
					st.set(v, locSet{st.site(v): true})
					return
				}
			}
			st.set(v, st.of(x))
		}
	case *ssa.TypeAssert:
		if holdsRefs(in.AssertedType) {
			st.set(in, st.of(in.X))
		}
	case *ssa.Slice:
		if holdsRefs(in.Type()) {
			st.set(in, st.of(in.X))
		}
	case *ssa.FieldAddr:
		st.set(in, st.of(in.X))
	case *ssa.IndexAddr:
		st.set(in, st.of(in.X))
	case *ssa.Field:
		if holdsRefs(in.Type()) {
			st.set(in, st.of(in.X))
		}
	case *ssa.Index:
		if holdsRefs(in.Type()) {
			st.set(in, st.of(in.X))
		}
	case *ssa.Lookup:
		if holdsRefs(in.Type()) {
			st.set(in, st.content(st.of(in.X)))
		}
	case *ssa.Range:
		st.set(in, st.of(in.X))
	case *ssa.Next:
		if !in.IsString {
			st.set(in, st.content(st.of(in.Iter)))
		}
	case *ssa.Extract:
		if !holdsRefs(in.Type()) {
			return
		}
		if c, ok := in.Tuple.(*ssa.Call); ok {
			st.set(in, st.pts[resKey(st, c, in.Index)])
			return
		}
		st.set(in, st.of(in.Tuple))
	case *ssa.UnOp:
		switch in.Op.String() {
		case "*":
			if holdsRefs(in.Type()) {
				if isStructVal(in.X.Type()) && false {
					return
				}
				st.set(in, st.content(st.of(in.X)))
			}
		case "<-":
			st.set(in, st.content(st.of(in.X)))
		}
	case *ssa.Store:
		st.write(st.of(in.Addr), in, "")
		if holdsRefs(in.Val.Type()) && !st.e.p.plainAt(in.Val, in.Block(), nil) {
			st.store(st.of(in.Addr), st.of(in.Val))
		}
	case *ssa.MapUpdate:
		st.write(st.of(in.Map), in, "")
		if holdsRefs(in.Value.Type()) && !st.e.p.plainAt(in.Value, in.Block(), nil) {
			st.store(st.of(in.Map), st.of(in.Value))
		}
	case *ssa.Send:
		st.store(st.of(in.Chan), st.of(in.X))
	case *ssa.Return:
		for i, r := range in.Results {
			if !holdsRefs(r.Type()) || st.e.p.plainAt(r, in.Block(), nil) {
				continue
			}
			st.result(i, st.of(r))
		}
	case ssa.CallInstruction:
		st.call(in)
	}
}

func isStructVal(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

func (st *effState) result(i int, s locSet) {
	rs := st.s.results[i]
	for l := range s {
		x := l
		if l.k == 's' {
			x = fresh
			if rs.inner.add(st.export(locSet{l: true})) {
				st.chg = true
			}
		}
		if !rs.direct[x] {
			rs.direct[x] = true
			st.chg = true
		}
	}
}

// resKeyV identifies one result of a call returning several.
type resKeyV struct {
	ssa.Value
	i int
}

var resKeys = map[*ssa.Call]map[int]*resKeyV{}

func resKey(st *effState, c *ssa.Call, i int) ssa.Value {
	m := resKeys[c]
	if m == nil {
		m = map[int]*resKeyV{}
		resKeys[c] = m
	}
	if m[i] == nil {
		m[i] = &resKeyV{c, i}
	}
	return m[i]
}

func (st *effState) call(in ssa.CallInstruction) {
	c := in.Common()
	p := st.e.p
	var args []locSet
	if c.IsInvoke() {
		args = append(args, st.of(c.Value))
	}
	for _, a := range c.Args {
		if !holdsRefs(a.Type()) || p.plainAt(a, in.Block(), nil) {
			args = append(args, nil)
			continue
		}
		args = append(args, st.of(a))
	}
	val, _ := in.(*ssa.Call)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if val != nil {
				l := st.site(val)
				st.set(val, locSet{l: true})
				if !capped(c.Args[0]) {
					st.set(val, args[0])
					st.write(args[0], in, "append")
					if len(args) > 1 {
						st.store(args[0], st.content(args[1]))
					}
				}
				st.store(locSet{l: true}, st.content(args[0]))
				if len(args) > 1 {
					st.store(locSet{l: true}, st.content(args[1]))
				}
			}
		case "copy":
			st.write(args[0], in, "copy")
			st.store(args[0], st.content(args[1]))
		case "delete", "clear":
			st.write(args[0], in, b.Name())
		}
		return
	}
	cals := p.Callees(c)
	if len(cals) == 0 && !c.IsInvoke() {
		cals = st.e.dyn[sigKey(c.Signature())]
		if mc := closureOf(c.Value); mc != nil {
			cals = []*ssa.Function{p.realFunc(mc.Fn.(*ssa.Function))}
		}
	}
	var lib []*ssa.Function
	known := false
	for _, f := range cals {
		r := f
		if r.Synthetic != "" && len(r.Blocks) > 0 && !p.inRepo(r) || strings.HasPrefix(r.Synthetic, "wrapper for") {
			if obj, ok := f.Object().(*types.Func); ok {
				if g := p.SSA.FuncValue(obj); g != nil {
					r = g
				}
			}
		}
		if !p.inRepo(r) || len(r.Blocks) == 0 {
			lib = append(lib, r)
			continue
		}
		known = true
		full := make([]locSet, len(r.Params)+len(r.FreeVars))
		a := args
		if mc := closureOf(c.Value); mc != nil && mc.Fn == r {
			for i, b := range mc.Bindings {
				full[len(r.Params)+i] = st.of(b)
			}
		} else if mc != nil && len(a) < len(r.Params) { // bound method
			a = append([]locSet{st.of(mc.Bindings[0])}, a...)
		}
		if r != f && len(a) > 0 { // promoted through embedding
			w := locSet{}
			w.add(a[0])
			w.add(st.content(a[0]))
			a = append([]locSet{w}, a[1:]...)
		}
		if len(a) < len(r.Params) { // a method used as a function value: receiver unknown
			pad := len(r.Params) - len(a)
			for i := range a {
				full[pad+i] = a[i]
			}
		} else {
			for i := range r.Params {
				full[i] = a[i]
			}
		}
		st.apply(r, full, in, val)
	}
	if known && len(lib) == 0 {
		return
	}
	if known && c.IsInvoke() {
		return
	}
	// library
	n := p.calleeName(c)
	for _, i := range libWrites[n] {
		if i < len(args) {
			st.write(args[i], in, n)
		}
	}
	if strings.HasSuffix(n, "Unmarshal") || strings.HasSuffix(n, ".Decode") {
		if len(args) > 1 {
			st.write(args[len(args)-1], in, n)
			st.store(args[len(args)-1], locSet{st.site(in): true})
		}
	}
	if val == nil || !holdsRefs(val.Type()) {
		return
	}
	res := locSet{}
	switch {
	case libSame[n]:
		res.add(args[0])
	case libInner[n]:
		res.add(args[0])
		res.add(st.content(args[0]))
	case libFresh(n):
		res[st.site(val)] = true
	default:
		l := st.site(val)
		res[l] = true
		ai := 0
		if c.IsInvoke() {
			ai = -1
		}
		for _, a := range args {
			var av ssa.Value
			if ai >= 0 {
				av = c.Args[ai]
			}
			ai++
			if av != nil && differentStorage(av, val.Type()) {
				continue
			}
			res.add(a)
			st.store(locSet{l: true}, a)
			st.store(locSet{l: true}, st.inside(a))
		}
	}
	if tup, ok := val.Type().(*types.Tuple); ok {
		for i := 0; i < tup.Len(); i++ {
			if holdsRefs(tup.At(i).Type()) {
				st.set(resKey(st, val, i), res)
			}
		}
	} else {
		st.set(val, res)
	}
}

// libFresh: library functions whose result is new storage.
func libFresh(n string) bool {
	return strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "strconv.") || strings.HasPrefix(n, "os.") || strings.HasPrefix(n, "regexp.") || strings.HasPrefix(n, "(*regexp.Regexp).") || strings.HasPrefix(n, "path/filepath.") ||
		strings.HasSuffix(n, ".Marshal") || strings.HasSuffix(n, ".MarshalIndent") || n == "reflect.MakeSlice" || n == "reflect.MakeMap" || n == "reflect.New" || n == "reflect.TypeOf" || n == "maps.Clone" || n == "slices.Clone" || n == "sort.StringSlice"
}

func closureOf(v ssa.Value) *ssa.MakeClosure {
	switch v := v.(type) {
	case *ssa.MakeClosure:
		return v
	case *ssa.ChangeType:
		return closureOf(v.X)
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok {
			if s := onlyStore(a); s != nil {
				return closureOf(s.Val)
			}
		}
	}
	return nil
}

// capped: the slice given to append cannot have spare capacity.
func capped(v ssa.Value) bool {
	if s, ok := v.(*ssa.Slice); ok {
		return s.Max != nil
	}
	if c, ok := v.(*ssa.Const); ok {
		return c.IsNil()
	}
	return false
}

// apply uses the summary of a callee.
func (st *effState) apply(f *ssa.Function, args []locSet, in ssa.Instruction, val *ssa.Call) {
	s := st.e.sums[f]
	if val != nil {
		s = st.e.variantOf(f, in)
	}
	if s == nil {
		return
	}
	tr := func(set locSet) locSet {
		r := locSet{}
		for l := range set {
			switch l.k {
			case 'p':
				i := l.v.(int)
				if i >= len(args) {
					continue
				}
				cur := args[i]
				for d := 0; d < l.d; d++ {
					cur = st.content(cur)
				}
				r.add(cur)
				if l.d == maxDepth {
					r.add(st.inside(cur))
				}
			case 'g':
				r[l] = true
			}
		}
		return r
	}
	for l, ws := range s.writes {
		t := tr(locSet{l: true})
		if len(t) == 0 {
			continue
		}
		for o, w := range ws {
			chain := fnName(f)
			if w.chain != "" && len(w.chain) < 200 {
				chain += " > " + w.chain
			}
			if op := collectionOp(f); op != "" && !strings.HasPrefix(st.pkg(), collPkg) {
				o = op
			}
			st.wrote(t, o, writeInfo{st.e.p.instrPos(in), w.deep, chain})
		}
	}
	for l, c := range s.caps {
		st.store(tr(locSet{l: true}), tr(c))
	}
	if val == nil {
		return
	}
	for i, rs := range s.results {
		out := tr(rs.direct)
		var key interface{} = val
		if len(s.results) > 1 {
			key = resKey(st, val, i)
		}
		if rs.direct[fresh] {
			l := st.site(key)
			out[l] = true
			st.store(locSet{l: true}, tr(rs.inner))
		}
		st.set(key.(ssa.Value), out)
	}
}

// plainAt tells whether v is known not to be a dictionary nor a list when control is at block b (or
// goes from b to next): it is nil, or converting it to both has failed.
func (p *Program) plainAt(v ssa.Value, b, next *ssa.BasicBlock) bool {
	if v == nil {
		return false
	}
	if _, ok := v.Type().Underlying().(*types.Interface); !ok {
		return false
	}
	dict, list := false, false
	consider := func(parent, d *ssa.BasicBlock) bool {
		ifi, ok := parent.Instrs[len(parent.Instrs)-1].(*ssa.If)
		if !ok || parent.Succs[0] == parent.Succs[1] {
			return false
		}
		branch := -1
		for i, s := range parent.Succs {
			if s == d {
				branch = i
			}
		}
		if branch < 0 {
			return false
		}
		cond := ifi.Cond
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op.String() != "!" {
				break
			}
			cond, branch = u.X, 1-branch
		}
		switch c := cond.(type) {
		case *ssa.BinOp:
			eq := c.Op.String() == "=="
			if !eq && c.Op.String() != "!=" {
				return false
			}
			isNilBranch := eq == (branch == 0)
			x, y := c.X, c.Y
			if k, ok := x.(*ssa.Const); ok && k.IsNil() {
				x, y = y, x
			}
			if k, ok := y.(*ssa.Const); !ok || !k.IsNil() {
				return false
			}
			if sameValue(x, v) && isNilBranch {
				return true
			}
			if ex, ok := x.(*ssa.Extract); ok && isErrorType(ex.Type()) && !isNilBranch {
				if call, ok := ex.Tuple.(*ssa.Call); ok {
					nm := p.calleeName(&call.Call)
					n := nm[strings.LastIndex(nm, ".")+1:]
					for _, a := range call.Call.Args {
						if sameValue(a, v) {
							switch n {
							case "TryAsDictionary":
								dict = true
							case "TryAsList":
								list = true
							}
						}
					}
				}
			}
		case *ssa.Extract:
			if ta, ok := c.Tuple.(*ssa.TypeAssert); ok && c.Index == 1 && sameValue(ta.X, v) && branch == 1 {
				switch shortType(ta.AssertedType) {
				case "collections.IDictionary":
					dict = true
				case "collections.IGenericList":
					list = true
				}
			}
		}
		return dict && list
	}
	if next != nil {
		if consider(b, next) {
			return true
		}
	}
	for d := b; d != nil; d = d.Idom() {
		parent := d.Idom()
		if parent == nil {
			break
		}
		if len(d.Preds) == 1 && consider(parent, d) {
			return true
		}
	}
	return false
}

func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ua, ub := unwrap(a), unwrap(b)
	if ua == ub {
		return true
	}
	// two reads of the same element
	la, ok1 := ua.(*ssa.UnOp)
	lb, ok2 := ub.(*ssa.UnOp)
	if ok1 && ok2 && la.Op.String() == "*" && lb.Op.String() == "*" {
		if la.X == lb.X {
			return true
		}
		ia, ok1 := la.X.(*ssa.IndexAddr)
		ib, ok2 := lb.X.(*ssa.IndexAddr)
		if ok1 && ok2 && ia.X == ib.X && ia.Index == ib.Index {
			return true
		}
	}
	return false
}

// differentStorage: the result of a library function, a slice or map whose elements hold no reference,
// cannot be an argument of another concrete type.
func differentStorage(arg ssa.Value, res types.Type) bool {
	switch u := res.Underlying().(type) {
	case *types.Slice:
		if holdsRefs(u.Elem()) {
			return false
		}
	case *types.Map:
		if holdsRefs(u.Elem()) {
			return false
		}
	default:
		return false
	}
	t := unwrap(arg).Type()
	if types.IsInterface(t) {
		return false
	}
	return !types.Identical(t, res)
}
