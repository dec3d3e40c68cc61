package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The end of the loops: every path from the header of a loop back to it must make
// something progress that cannot progress for ever: an iterator, an input that is read, or
// a linear expression of the variables of the loop that decreases and that the conditions
// met on the path keep from being below a limit.

// sv is what is known of a value: the integer it is, the length it has, and its identity.
type sv struct {
	i, n lin
	key  string
	inv  bool // the same at every iteration
	cmp  *svCmp
}

type svCmp struct {
	op   token.Token
	x, y sv
	seq  bool // comparison of texts
	flt  bool
}

type loopAn struct {
	p      *Program
	fn     *ssa.Function
	h      *ssa.BasicBlock
	in     map[*ssa.BasicBlock]bool
	inner  map[*ssa.BasicBlock]bool // headers of the inner loops
	stored map[string]bool          // cells changed by the loop
	out    map[ssa.Value]sv         // values made before the loop
	base   []lin
	baseNE [][2]lin
	baseB  map[string]bool // booleans known before the loop
	fresh  int
	paths  []*loopPath
	cap    int
	over   bool
	mem    bool // memory that is not changed is read before the loop too
}

type loopPath struct {
	facts []lin
	ne    [][2]lin
	bools map[string]bool
	env   map[ssa.Value]sv
	cells map[string]sv
	next  map[string]sv
	seen  map[*ssa.BasicBlock]bool
	done  string // why the path cannot be followed for ever
	trace []string
}

func (q *loopPath) clone() *loopPath {
	c := &loopPath{done: q.done}
	c.facts = append([]lin{}, q.facts...)
	c.ne = append([][2]lin{}, q.ne...)
	c.trace = append([]string{}, q.trace...)
	c.bools, c.env, c.cells, c.seen = map[string]bool{}, map[ssa.Value]sv{}, map[string]sv{}, map[*ssa.BasicBlock]bool{}
	for k, v := range q.bools {
		c.bools[k] = v
	}
	for k, v := range q.env {
		c.env[k] = v
	}
	for k, v := range q.cells {
		c.cells[k] = v
	}
	for k, v := range q.seen {
		c.seen[k] = v
	}
	return c
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isIntLike(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

func (a *loopAn) opaque(kind, key string, t types.Type, inv bool) sv {
	if key == "" || !inv && kind == "K" {
		a.fresh++
		key = fmt.Sprintf("F:%d", a.fresh)
		inv = false
	} else {
		key = kind + ":" + key
	}
	if t != nil && isFloat(t) {
		key += "#f"
	}
	return sv{i: linAtom(key + ".i"), n: linAtom(key + ".n"), key: key, inv: inv}
}

func constSv(c *ssa.Const) sv {
	s := sv{key: "C:" + c.String(), inv: true}
	if c.Value == nil {
		return s
	}
	switch c.Value.Kind() {
	case constant.Int:
		if isFloat(c.Type()) {
			s.i, s.n = linAtom(s.key+"#f.i"), linAtom(s.key+"#f.n")
			return s
		}
		v, _ := constant.Int64Val(c.Value)
		s.i = linConst(v)
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			s.i = linConst(1)
		}
	case constant.String:
		s.n = linConst(int64(len(constant.StringVal(c.Value))))
		s.i = linAtom(s.key + ".i")
	default:
		s.i, s.n = linAtom(s.key+"#f.i"), linAtom(s.key+"#f.n")
	}
	return s
}

// addrKey names the memory an address designates.
func (a *loopAn) addrKey(q *loopPath, v ssa.Value) (string, bool) {
	switch v := v.(type) {
	case *ssa.Alloc:
		return "A:" + turnVar(v).Name(), true
	case *ssa.Phi:
		if g := turnGroup(v); g != nil {
			return "A:" + g.Name(), true
		}
	case *ssa.Global:
		return "G:" + v.String(), true
	case *ssa.FreeVar:
		return "FV:" + v.Name(), true
	case *ssa.Parameter:
		return "PR:" + v.Name(), true
	case *ssa.FieldAddr:
		if al, ok := v.X.(*ssa.Alloc); ok {
			v = &ssa.FieldAddr{X: copied(al, v.Field), Field: v.Field}
		}
		if k, ok := a.addrKey(q, v.X); ok {
			return fmt.Sprintf("%s.%d", k, v.Field), true
		}
		b := a.eval(q, v.X)
		return fmt.Sprintf("(%s).%d", b.key, v.Field), b.inv
	}
	return "", false
}

// copied gives the variable that a variable is a copy of, when nothing changes either.
func copied(al *ssa.Alloc, f int) *ssa.Alloc {
	for i := 0; i < 5; i++ {
		sts := allStores(al)
		if len(sts) != 1 || givenAway(al) || written(al, f) {
			return al
		}
		u, ok := sts[0].Val.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return al
		}
		src, ok := u.X.(*ssa.Alloc)
		if !ok || len(allStores(src)) != 1 || givenAway(src) || written(src, f) {
			return al
		}
		al = src
	}
	return al
}

// written tells whether a field of a variable is set on its own, or given to something.
func written(al *ssa.Alloc, f int) bool {
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			for _, r2 := range *x.Referrers() {
				switch r2.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					if x.Field == f {
						return true
					}
				}
			}
		case *ssa.IndexAddr, *ssa.MakeClosure, *ssa.Slice, *ssa.Phi:
			return true
		}
	}
	return false
}

// turnGroup: a variable of a for statement which is copied at each turn, since it is captured.
func turnGroup(phi *ssa.Phi) *ssa.Alloc {
	var first *ssa.Alloc
	for _, e := range phi.Edges {
		al, ok := e.(*ssa.Alloc)
		if !ok {
			return nil
		}
		if !phi.Block().Dominates(al.Block()) {
			if first != nil && first != al {
				return nil
			}
			first = al
		}
	}
	if first == nil || !readOnly(phi, phi.Parent()) {
		return nil
	}
	for _, e := range phi.Edges {
		al := e.(*ssa.Alloc)
		if !readOnly(al, phi.Parent()) {
			return nil
		}
		if al == first {
			continue
		}
		b := al.Block()
		if len(b.Succs) != 1 || b.Succs[0] != phi.Block() {
			return nil
		}
		after, initial := false, false
		for _, in := range b.Instrs {
			if in == ssa.Instruction(al) {
				after = true
				continue
			}
			if !after {
				continue
			}
			if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(al) && !initial {
				u, ok := st.Val.(*ssa.UnOp)
				if !ok || u.X != ssa.Value(phi) {
					return nil
				}
				initial = true
			}
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(phi) {
					return nil
				}
			}
		}
		if !initial {
			return nil
		}
	}
	return first
}

// readOnly: the variable is only changed by its function, and only known to it and to closures.
func readOnly(v ssa.Value, fn *ssa.Function) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef, *ssa.Phi:
		case *ssa.UnOp:
		case *ssa.Store:
			if x.Addr != v || x.Parent() != fn {
				return false
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v && !readOnly(x.Fn.(*ssa.Function).FreeVars[i], fn) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// turnVar gives the variable a variable is the copy of, for the next turn.
func turnVar(al *ssa.Alloc) *ssa.Alloc {
	if al.Referrers() == nil {
		return al
	}
	for _, r := range *al.Referrers() {
		if phi, ok := r.(*ssa.Phi); ok {
			if g := turnGroup(phi); g != nil {
				return g
			}
		}
	}
	return al
}

func (a *loopAn) cell(q *loopPath, key string, t types.Type) sv {
	if key == "" {
		return a.opaque("F", "", t, false)
	}
	if q != nil {
		if s, ok := q.cells[key]; ok {
			return s
		}
	}
	if a.stored[key] {
		if q == nil {
			return a.opaque("F", "", t, false)
		}
		return a.opaque("M", key, t, false)
	}
	return a.opaque("V", "mem "+key, t, true)
}

func (a *loopAn) fact(q *loopPath, l lin) {
	if len(l.t) == 0 && l.c >= 0 {
		return
	}
	if q == nil {
		a.base = append(a.base, l)
		return
	}
	q.facts = append(q.facts, l)
}

// eval gives what is known of a value: with a path, as of the current point of the path.
func (a *loopAn) eval(q *loopPath, v ssa.Value) sv {
	switch v := v.(type) {
	case *ssa.Const:
		return constSv(v)
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return a.opaque("V", v.Name(), v.Type(), true)
	}
	in, _ := v.(ssa.Instruction)
	if in == nil || in.Block() == nil {
		return a.opaque("V", v.Name(), v.Type(), true)
	}
	if !a.in[in.Block()] {
		if s, ok := a.out[v]; ok {
			return s
		}
		a.out[v] = a.opaque("V", v.Name(), v.Type(), true)
		s := a.compute(nil, v)
		a.out[v] = s
		return s
	}
	if q == nil {
		return a.compute(nil, v)
	}
	if s, ok := q.env[v]; ok {
		return s
	}
	s := a.compute(q, v)
	q.env[v] = s
	return s
}

var indexNames = map[string]bool{"Index": true, "IndexAny": true, "IndexByte": true, "IndexRune": true, "IndexFunc": true, "LastIndex": true, "LastIndexAny": true, "LastIndexByte": true, "LastIndexFunc": true}

// growers: methods that give a container longer by the values they are given.
var growers = map[string]bool{"Add": true, "Append": true, "Prepend": true}

// lengthNames: methods giving the number of things held by what they are called on.
var lengthNames = map[string]bool{"Len": true}

// stable: calls that give the same thing when given the same things.
func stableCall(n string) bool {
	return hasPrefixAny(n, "strings.", "(reflect.", "reflect.", "invoke reflect.", "(*reflect.", "unicode", "math.", "path", "strconv.", "(strings.", "bytes.", "fmt.Sprint", "(go/", "invoke go/", "len", "(collections.String)")
}

func lastName(n string) string {
	if i := strings.LastIndex(n, "."); i >= 0 {
		n = n[i+1:]
	}
	return n
}

func (a *loopAn) compute(q *loopPath, v ssa.Value) sv {
	t := v.Type()
	in := v.(ssa.Instruction)
	outside := !a.in[in.Block()]
	name := func() sv {
		if outside {
			return a.opaque("V", v.Name(), t, true)
		}
		return a.opaque("F", "", t, false)
	}
	switch v := v.(type) {
	case *ssa.Phi:
		if v.Block() == a.h {
			return a.opaque("P", v.Name(), t, false)
		}
		return name()
	case *ssa.BinOp:
		x, y := a.eval(q, v.X), a.eval(q, v.Y)
		switch v.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			bt, _ := v.X.Type().Underlying().(*types.Basic)
			s := a.opaque("K", v.Op.String()+"("+x.key+","+y.key+")", t, x.inv && y.inv)
			s.cmp = &svCmp{op: v.Op, x: x, y: y, seq: bt != nil && bt.Info()&types.IsString != 0, flt: isFloat(v.X.Type())}
			if bt == nil {
				s.cmp = nil
			}
			return s
		case token.ADD:
			if isIntLike(t) {
				return sv{i: x.i.add(y.i, 1), n: linConst(0), key: "+(" + x.key + "," + y.key + ")", inv: x.inv && y.inv}
			}
			if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				return sv{i: linConst(0), n: x.n.add(y.n, 1), key: "+(" + x.key + "," + y.key + ")", inv: x.inv && y.inv}
			}
		case token.SUB:
			if isIntLike(t) {
				return sv{i: x.i.add(y.i, -1), n: linConst(0), key: "-(" + x.key + "," + y.key + ")", inv: x.inv && y.inv}
			}
		case token.MUL:
			if isIntLike(t) {
				for _, p := range [][2]sv{{x, y}, {y, x}} {
					if len(p[0].i.t) == 0 {
						return sv{i: lin{}.add(p[1].i, p[0].i.c), key: "*(" + x.key + "," + y.key + ")", inv: x.inv && y.inv}
					}
				}
			}
		case token.QUO:
			if isIntLike(t) && len(y.i.t) == 0 && y.i.c > 0 {
				s := a.opaque("K", "/("+x.key+","+y.key+")", t, x.inv && y.inv)
				if proves(a.all(q), x.i) {
					// 0 <= x - y*s < y
					d := x.i.add(s.i, -y.i.c)
					a.fact(q, d)
					a.fact(q, lin{}.add(d, -1).plus(y.i.c-1))
				}
				return s
			}
		case token.REM:
			s := a.opaque("K", "%("+x.key+","+y.key+")", t, x.inv && y.inv)
			if isIntLike(t) && proves(a.all(q), x.i) && proves(a.all(q), y.i.plus(-1)) {
				a.fact(q, s.i)
				a.fact(q, y.i.add(s.i, -1).plus(-1))
			}
			return s
		}
		return a.opaque("K", v.Op.String()+"("+x.key+","+y.key+")", t, x.inv && y.inv)
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			if outside {
				if k, _ := a.addrKey(q, v.X); a.mem && k != "" && !a.stored[k] {
					return a.cell(q, k, t)
				}
				return name()
			}
			if k, _ := a.addrKey(q, v.X); k != "" {
				return a.cell(q, k, t)
			}
			return name()
		case token.NOT:
			x := a.eval(q, v.X)
			s := sv{i: lin{}.add(x.i, -1).plus(1), key: "!(" + x.key + ")", inv: x.inv}
			if x.cmp != nil {
				c := *x.cmp
				c.op = negateOp(c.op)
				s.cmp = &c
			}
			return s
		case token.SUB:
			if isIntLike(t) {
				x := a.eval(q, v.X)
				return sv{i: lin{}.add(x.i, -1), key: "-(" + x.key + ")", inv: x.inv}
			}
		case token.ARROW:
			if q != nil {
				q.done = "something is received"
			}
		}
		return name()
	case *ssa.Convert:
		x := a.eval(q, v.X)
		if isIntLike(t) && isIntLike(v.X.Type()) {
			return x
		}
		if seqType(t) && seqType(v.X.Type()) {
			if runes(t) == runes(v.X.Type()) {
				return x
			}
			return a.opaque("K", "conv("+t.String()+","+x.key+")", t, x.inv)
		}
		return a.opaque("K", "conv("+t.String()+","+x.key+")", t, x.inv)
	case *ssa.ChangeType:
		return a.eval(q, v.X)
	case *ssa.MakeInterface:
		return a.eval(q, v.X)
	case *ssa.ChangeInterface:
		return a.eval(q, v.X)
	case *ssa.TypeAssert:
		if !v.CommaOk {
			return a.eval(q, v.X)
		}
	case *ssa.Slice:
		x := a.eval(q, v.X)
		n := x.n
		arr := false
		if pt, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				n, arr = linConst(at.Len()), true
			}
		}
		lo, hi := linConst(0), n
		if v.Low != nil {
			lo = a.eval(q, v.Low).i
			a.fact(q, lo)
		}
		bt, _ := t.Underlying().(*types.Basic)
		if v.High != nil {
			hi = a.eval(q, v.High).i
			if arr || bt != nil {
				a.fact(q, n.add(hi, -1))
			}
		}
		a.fact(q, hi.add(lo, -1))
		s := name()
		if x.inv && v.High == nil {
			s = a.opaque("K", "slice("+x.key+","+lo.String()+")", t, x.inv && (v.Low == nil || a.eval(q, v.Low).inv))
		}
		s.n = hi.add(lo, -1)
		return s
	case *ssa.Lookup:
		x := a.eval(q, v.X)
		if bt, ok := v.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			i := a.eval(q, v.Index)
			a.fact(q, i.i)
			a.fact(q, x.n.add(i.i, -1).plus(-1))
		}
		return name()
	case *ssa.Index:
		if _, ok := v.X.Type().Underlying().(*types.Basic); ok {
			x, i := a.eval(q, v.X), a.eval(q, v.Index)
			a.fact(q, i.i)
			a.fact(q, x.n.add(i.i, -1).plus(-1))
		}
		return name()
	case *ssa.IndexAddr:
		x := a.eval(q, v.X)
		i := a.eval(q, v.Index)
		n := x.n
		if pt, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				n = linConst(at.Len())
			}
		}
		a.fact(q, i.i)
		a.fact(q, n.add(i.i, -1).plus(-1))
		return name()
	case *ssa.Next:
		if iter, ok := v.Iter.(ssa.Instruction); ok && iter.Block() != nil && !a.in[iter.Block()] && q != nil {
			q.done = "the next element is taken"
		}
		return name()
	case *ssa.Extract:
		if ta, ok := v.Tuple.(*ssa.TypeAssert); ok && v.Index == 0 && !outside {
			x := a.eval(q, ta.X)
			return a.opaque("ta", x.key, t, x.inv)
		}
		return name()
	case *ssa.FieldAddr, *ssa.Field:
		if f, ok := v.(*ssa.Field); ok {
			x := a.eval(q, f.X)
			return a.opaque("K", fmt.Sprintf("field(%s,%d)", x.key, f.Field), t, x.inv)
		}
		return name()
	case *ssa.MakeSlice:
		s := name()
		s.n = a.eval(q, v.Len).i
		return s
	case *ssa.Call:
		return a.call(q, v, name)
	}
	return name()
}

func seqType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return true
	}
	return false
}

// runes tells whether a text is held as runes rather than as bytes.
func runes(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok {
			return b.Kind() == types.Int32
		}
	}
	return false
}

func (a *loopAn) call(q *loopPath, v *ssa.Call, name func() sv) sv {
	c := v.Common()
	n := a.p.calleeName(c)
	t := v.Type()
	var args []sv
	if c.IsInvoke() {
		args = append(args, a.eval(q, c.Value))
	}
	for _, x := range c.Args {
		args = append(args, a.eval(q, x))
	}
	if q != nil && reads(n) {
		q.done = "an input is read"
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len":
			s := sv{i: args[0].n, n: linConst(0), key: "len(" + args[0].key + ")", inv: args[0].inv}
			a.fact(q, s.i)
			return s
		case "cap":
			return a.opaque("K", "cap("+args[0].key+")", t, args[0].inv)
		case "append":
			s := name()
			s.n = args[0].n
			if len(args) > 1 {
				s.n = s.n.add(args[1].n, 1)
				a.fact(q, args[1].n)
			}
			a.fact(q, args[0].n)
			return s
		case "min", "max":
			s := name()
			for _, x := range args {
				if bi.Name() == "min" {
					a.fact(q, x.i.add(s.i, -1))
				} else {
					a.fact(q, s.i.add(x.i, -1))
				}
			}
			return s
		}
		return name()
	}
	short := lastName(strings.TrimSuffix(n, "]"))
	if i := strings.Index(short, "["); i > 0 {
		short = short[:i]
	}
	if indexNames[short] && len(args) == 2 && isIntLike(t) {
		inv := args[0].inv && args[1].inv
		s := a.opaque("K", short+"("+args[0].key+","+args[1].key+")", t, inv)
		a.fact(q, s.i.plus(1))
		a.fact(q, args[0].n)
		a.fact(q, args[0].n.add(s.i, -1).plus(-1).add(linConst(0), 1))
		if !strings.HasSuffix(short, "Func") {
			// found before the end, or not found (-1, below the length in any case)
		}
		return s
	}
	if lengthNames[short] && len(args) == 1 && isIntLike(t) && !a.grows(v, c) {
		s := sv{i: args[0].n, key: "len(" + args[0].key + ")", inv: args[0].inv}
		a.fact(q, s.i)
		return s
	}
	if growers[short] && len(c.Args) > 0 {
		// the values are in a slice made for the call
		last := c.Args[len(c.Args)-1]
		if _, ok := last.Type().Underlying().(*types.Slice); ok {
			for i, x := range args[:len(args)-1] {
				var at types.Type
				if c.IsInvoke() && i == 0 {
					at = c.Value.Type()
				} else if c.IsInvoke() {
					at = c.Args[i-1].Type()
				} else {
					at = c.Args[i].Type()
				}
				if types.Identical(at, t) || types.AssignableTo(at, t) && types.IsInterface(t) && hasLen(at) {
					s := name()
					s.n = x.n.add(args[len(args)-1].n, 1)
					return s
				}
			}
		}
	}
	if stableCall(n) || indexNames[short] {
		inv := true
		var keys []string
		for _, x := range args {
			inv = inv && x.inv
			keys = append(keys, x.key)
		}
		return a.opaque("K", n+"("+strings.Join(keys, ",")+")", t, inv)
	}
	return name()
}

func hasLen(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "Len" {
			return true
		}
	}
	return false
}

// grows tells whether the loop makes what a length is asked of grow in place.
func (a *loopAn) grows(v *ssa.Call, c *ssa.CallCommon) bool {
	recv := c.Value
	if !c.IsInvoke() {
		if len(c.Args) == 0 {
			return true
		}
		recv = c.Args[0]
	}
	if strings.HasPrefix(recv.Type().String(), "reflect.") {
		return false
	}
	for b := range a.in {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || ci == ssa.CallInstruction(v) {
				continue
			}
			cc := ci.Common()
			short := lastName(a.p.calleeName(cc))
			if !hasPrefixAny(short, "Append", "Prepend", "Add", "Push", "Set", "Insert", "Merge") {
				continue
			}
			if cc.IsInvoke() && cc.Value == recv || !cc.IsInvoke() && len(cc.Args) > 0 && cc.Args[0] == recv {
				if short == "Set" && a.within(v, cc) {
					continue
				}
				return true
			}
		}
	}
	return false
}

// within tells whether the index given to a call is the one compared with the length.
func (a *loopAn) within(length *ssa.Call, set *ssa.CallCommon) bool {
	for _, r := range *length.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok {
			for _, x := range set.Args {
				if x == b.X && (b.Op == token.LSS || b.Op == token.NEQ) || x == b.Y && b.Op == token.GTR {
					return true
				}
			}
		}
	}
	return false
}

// reads tells whether a call consumes an input (which has an end of its own).
func reads(n string) bool {
	switch lastName(n) {
	case "Scan", "Token", "ReadString", "ReadBytes", "ReadLine", "ReadRune", "ReadByte", "NextToken":
		return hasPrefixAny(n, "(*bufio.", "(*encoding/", "(*text/scanner", "(*bytes.", "(*strings.", "(*go/scanner", "invoke io.")
	}
	return false
}

func negateOp(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	}
	return op
}

func (a *loopAn) all(q *loopPath) []lin {
	if q == nil {
		return a.base
	}
	return append(append([]lin{}, a.base...), q.facts...)
}

// assume records a condition; false when it cannot hold.
func (a *loopAn) assume(q *loopPath, c sv, val bool) bool {
	if len(c.i.t) == 0 && c.cmp == nil {
		return c.i.c == 1 == val
	}
	add := func(l lin) bool {
		if len(l.t) == 0 {
			return l.c >= 0
		}
		a.fact(q, l)
		return true
	}
	if k := c.key; k != "" {
		v := val
		for strings.HasPrefix(k, "!(") && strings.HasSuffix(k, ")") {
			k, v = k[2:len(k)-1], !v
		}
		m := a.baseB
		if q != nil {
			if old, ok := m[k]; ok && old != v && c.inv {
				return false
			}
			m = q.bools
		}
		if old, ok := m[k]; ok && old != v {
			return false
		}
		m[k] = v
	}
	if c.cmp == nil {
		if val {
			return add(c.i.plus(-1)) && add(lin{}.add(c.i, -1).plus(1))
		}
		return add(c.i) && add(lin{}.add(c.i, -1))
	}
	m := *c.cmp
	op := m.op
	if !val {
		if m.flt && op != token.EQL && op != token.NEQ {
			// not x < y is not y <= x for values that are not numbers
			op = negateOp(op)
			if op == token.LSS || op == token.GTR {
				return true
			}
		} else {
			op = negateOp(op)
		}
	}
	x, y := m.x.i, m.y.i
	if m.seq {
		x, y = m.x.n, m.y.n
		a.fact(q, x)
		a.fact(q, y)
		switch op {
		case token.EQL:
			return add(x.add(y, -1)) && add(y.add(x, -1))
		case token.NEQ:
			if len(y.t) == 0 && y.c == 0 {
				return add(x.plus(-1))
			}
			if len(x.t) == 0 && x.c == 0 {
				return add(y.plus(-1))
			}
		}
		return true
	}
	switch op {
	case token.EQL:
		return add(x.add(y, -1)) && add(y.add(x, -1))
	case token.NEQ:
		if d := x.add(y, -1); len(d.t) == 0 {
			return d.c != 0
		}
		if q != nil {
			q.ne = append(q.ne, [2]lin{x, y})
		} else {
			a.baseNE = append(a.baseNE, [2]lin{x, y})
		}
	case token.LSS:
		return add(y.add(x, -1).plus(-1))
	case token.LEQ:
		return add(y.add(x, -1))
	case token.GTR:
		return add(x.add(y, -1).plus(-1))
	case token.GEQ:
		return add(x.add(y, -1))
	}
	return true
}

// dominating collects what is known when the loop is entered.
func (a *loopAn) dominating() {
	for b := a.h; b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		if ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok {
			for i, s := range d.Succs {
				if s != d.Succs[1-i] && len(s.Preds) == 1 && s.Dominates(a.h) && !a.in[d] {
					a.assume(nil, a.eval(nil, ifi.Cond), i == 0)
				}
			}
		}
		if a.in[d] {
			continue
		}
		for _, in := range d.Instrs {
			switch v := in.(type) {
			case *ssa.Slice, *ssa.Lookup, *ssa.Index, *ssa.IndexAddr:
				a.eval(nil, v.(ssa.Value))
			}
		}
	}
	// the lengths
	for _, s := range a.out {
		for n := range s.n.t {
			if strings.HasSuffix(n, ".n") {
				a.base = append(a.base, linAtom(n))
			}
		}
	}
}

// changedCells lists the memory changed inside of the loop.
func (a *loopAn) changedCells() {
	for b := range a.in {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if k, _ := a.addrKey(nil, st.Addr); k != "" {
					a.stored[k] = true
				}
			}
		}
	}
	for _, b := range a.fn.Blocks {
		for _, in := range b.Instrs {
			al, ok := in.(*ssa.Alloc)
			if !ok {
				continue
			}
			if a.capturedChange(al) && a.loopCalls() {
				a.stored["A:"+turnVar(al).Name()] = true
			}
		}
	}
	for _, fv := range a.fn.FreeVars {
		if a.loopCalls() {
			if _, ok := fv.Type().Underlying().(*types.Pointer); ok {
				a.stored["FV:"+fv.Name()] = true
			}
		}
	}
}

// capturedChange: a variable changed by a closure that is not only deferred.
func (a *loopAn) capturedChange(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		mc, ok := r.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		only := true
		for _, u := range *mc.Referrers() {
			if _, ok := u.(*ssa.Defer); !ok {
				only = false
			}
		}
		if only {
			continue
		}
		for _, st := range allStores(al) {
			if st.Parent() != al.Parent() {
				return true
			}
		}
	}
	return false
}

// loopCalls tells whether the loop may call a closure.
func (a *loopAn) loopCalls() bool {
	for b := range a.in {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && a.callsClosure(c) {
				return true
			}
		}
	}
	return false
}

func (a *loopAn) callsClosure(c ssa.CallInstruction) bool {
	cc := c.Common()
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return false
	}
	for _, x := range cc.Args {
		if _, ok := x.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	if cc.IsInvoke() {
		return false
	}
	f := a.p.Callee(cc)
	return f == nil || f.Parent() != nil
}

// step executes an instruction along a path.
func (a *loopAn) step(q *loopPath, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Store:
		val := a.eval(q, in.Val)
		k, _ := a.addrKey(q, in.Addr)
		if k == "" {
			return
		}
		q.cells[k] = val
		return
	case ssa.Value:
		if _, ok := in.(*ssa.Phi); ok {
			return
		}
		a.eval(q, in)
	}
	if c, ok := in.(ssa.CallInstruction); ok {
		if _, ok := in.(*ssa.Defer); ok {
			return
		}
		if a.callsClosure(c) {
			for k := range a.stored {
				if strings.HasPrefix(k, "FV:") {
					q.cells[k] = a.opaque("F", "", nil, false)
				}
				if strings.HasPrefix(k, "A:") {
					for _, b := range a.fn.Blocks {
						for _, x := range b.Instrs {
							if al, ok := x.(*ssa.Alloc); ok && "A:"+turnVar(al).Name() == k && a.capturedChange(al) {
								q.cells[k] = a.opaque("F", "", nil, false)
							}
						}
					}
				}
			}
		}
		// what is given by address may be changed
		for _, x := range c.Common().Args {
			if al, ok := x.(*ssa.Alloc); ok {
				q.cells["A:"+turnVar(al).Name()] = a.opaque("F", "", nil, false)
			}
		}
	}
}

func (a *loopAn) walk(q *loopPath, b, from *ssa.BasicBlock) {
	if a.over {
		return
	}
	if b == a.h && from != nil {
		a.end(q, from)
		return
	}
	if q.seen[b] {
		return
	}
	q.seen[b] = true
	if b != a.h {
		set := map[ssa.Value]sv{}
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if a.inner[b] {
				s := a.opaque("F", "", phi.Type(), false)
				set[phi] = s
				continue
			}
			for i, p := range b.Preds {
				if p == from {
					set[phi] = a.eval(q, phi.Edges[i])
				}
			}
		}
		for k, v := range set {
			q.env[k] = v
		}
		if a.inner[b] {
			// what the inner loop changes is not known any more
			li := newLoopInfo(a.fn)
			for _, x := range li.body(b) {
				for _, in := range x.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if k, _ := a.addrKey(q, st.Addr); k != "" {
							q.cells[k] = a.opaque("F", "", nil, false)
						}
					}
				}
			}
		}
	}
	for _, in := range b.Instrs {
		a.step(q, in)
	}
	if infeasibleQuick(q.facts) {
		return
	}
	last := b.Instrs[len(b.Instrs)-1]
	for i, s := range b.Succs {
		if !a.in[s] {
			continue
		}
		r := q
		if len(b.Succs) > 1 {
			r = q.clone()
		}
		if ifi, ok := last.(*ssa.If); ok {
			if !a.assume(r, a.eval(r, ifi.Cond), i == 0) {
				continue
			}
			r.trace = append(r.trace, fmt.Sprintf("%s=%v", a.p.instrPos(ifi), i == 0))
		}
		a.walk(r, s, b)
	}
}

func infeasibleQuick(f []lin) bool {
	for _, l := range f {
		if len(l.t) == 0 && l.c < 0 {
			return true
		}
	}
	return false
}

// end closes a path: the variables take their new values and the condition at the top of
// the loop must let another iteration start.
func (a *loopAn) end(q *loopPath, from *ssa.BasicBlock) {
	q.next = map[string]sv{}
	next := map[ssa.Value]sv{}
	for _, in := range a.h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range a.h.Preds {
			if p == from {
				s := a.eval(q, phi.Edges[i])
				next[phi] = s
				key := "P:" + phi.Name()
				if isFloat(phi.Type()) {
					key += "#f"
				}
				q.next[key] = s
			}
		}
	}
	for k := range a.stored {
		for _, suf := range []string{"", "#f"} {
			if s, ok := q.cells[k]; ok {
				q.next["M:"+k+suf] = s
			}
		}
	}
	if ifi, ok := a.h.Instrs[len(a.h.Instrs)-1].(*ssa.If); ok && q.done == "" {
		stay := -1
		for i, s := range a.h.Succs {
			if a.in[s] {
				if stay >= 0 {
					stay = -2
					break
				}
				stay = i
			}
		}
		if stay >= 0 {
			r := q.clone()
			for k := range r.env {
				if in, ok := k.(ssa.Instruction); ok && in.Block() == a.h {
					delete(r.env, k)
				}
			}
			for k, v := range next {
				r.env[k] = v
			}
			for _, in := range a.h.Instrs {
				a.step(r, in)
			}
			if !a.assume(r, a.eval(r, ifi.Cond), stay == 0) {
				return
			}
			q.facts, q.ne = r.facts, r.ne
		}
	}
	a.paths = append(a.paths, q)
	if len(a.paths) > a.cap {
		a.over = true
	}
}

// next gives the value of an expression after a path.
func (q *loopPath) subst(l lin) (lin, bool) {
	r := linConst(l.c)
	for n, k := range l.t {
		base, suf := n[:len(n)-2], n[len(n)-2:]
		if s, ok := q.next[base]; ok {
			if suf == ".i" {
				r = r.add(s.i, k)
			} else {
				r = r.add(s.n, k)
			}
			continue
		}
		r = r.add(linAtom(n), k)
	}
	return r, true
}

// facts of a path, the differences being resolved when one side is known to be reached from below.
func (a *loopAn) known(q *loopPath) []lin {
	f := a.all(q)
	seen := map[string]bool{}
	atoms := map[string]bool{}
	for _, l := range f {
		for n := range l.t {
			atoms[n] = true
		}
	}
	for _, s := range q.next {
		for n := range s.n.t {
			atoms[n] = true
		}
	}
	for n := range atoms {
		if strings.HasSuffix(n, ".n") {
			f = append(f, linAtom(n))
		}
	}
	for _, d := range append(append([][2]lin{}, a.baseNE...), q.ne...) {
		x := d[0].add(d[1], -1)
		if seen[x.String()] {
			continue
		}
		seen[x.String()] = true
		if proves(f, x) {
			f = append(f, x.plus(-1))
		} else if proves(f, lin{}.add(x, -1)) {
			f = append(f, lin{}.add(x, -1).plus(-1))
		}
	}
	return f
}

// ends decides whether a loop ends; otherwise it gives a path that makes nothing progress.
func (p *Program) loopEnds(fn *ssa.Function, li *loopInfo, h *ssa.BasicBlock) (how string, bad string) {
	a := &loopAn{p: p, fn: fn, h: h, in: map[*ssa.BasicBlock]bool{}, inner: map[*ssa.BasicBlock]bool{}, stored: map[string]bool{}, out: map[ssa.Value]sv{}, cap: 3000, baseB: map[string]bool{}}
	for _, b := range li.body(h) {
		a.in[b] = true
	}
	for x := range li.bodies {
		if x != h && a.in[x] {
			a.inner[x] = true
		}
	}
	a.changedCells()
	if how := a.simple(); how != "" {
		return how, ""
	}
	a.dominating()
	q := &loopPath{bools: map[string]bool{}, env: map[ssa.Value]sv{}, cells: map[string]sv{}, seen: map[*ssa.BasicBlock]bool{}}
	a.walk(q, h, nil)
	if a.over {
		return "", "it has too many paths to be followed"
	}
	var left []*loopPath
	facts := map[*loopPath][]lin{}
	for _, q := range a.paths {
		if q.done != "" {
			continue
		}
		f := a.known(q)
		if infeasible(f) {
			continue
		}
		facts[q] = f
		if a.descends(q) {
			continue
		}
		left = append(left, q)
	}
	if os.Getenv("DBG_ENDS") != "" {
		fmt.Fprintf(os.Stderr, "LOOP %s %s: %d paths, %d left\n", fnName(fn), p.instrPos(firstPos(h)), len(a.paths), len(left))
		for _, q := range left {
			fmt.Fprintf(os.Stderr, "  path %v bools %v next:", q.trace, q.bools)
			for k, s := range q.next {
				fmt.Fprintf(os.Stderr, " %s -> i %s n %s;", k, s.i, s.n)
			}
			fmt.Fprintln(os.Stderr)
			for _, l := range facts[q] {
				fmt.Fprintf(os.Stderr, "      %s >= 0\n", l)
			}
		}
	}
	if len(left) == 0 {
		return "each way around takes another element", ""
	}
	// what never changes splits the ways around that cannot follow one another
	var split []string
	vals := map[string]map[bool]bool{}
	for _, q := range left {
		for k, v := range q.bools {
			if strings.HasPrefix(k, "V:") || strings.HasPrefix(k, "K:") {
				if vals[k] == nil {
					vals[k] = map[bool]bool{}
				}
				vals[k][v] = true
			}
		}
	}
	for k, m := range vals {
		if len(m) == 2 {
			split = append(split, k)
		}
	}
	sort.Strings(split)
	if len(split) > 4 {
		split = split[:4]
	}
	var bads []string
	for mask := 0; mask < 1<<len(split); mask++ {
		var set []*loopPath
		for _, q := range left {
			ok := true
			for i, k := range split {
				if v, known := q.bools[k]; known && v != (mask>>i&1 == 1) {
					ok = false
				}
			}
			if ok {
				set = append(set, q)
			}
		}
		if rest := a.rank(set, facts); len(rest) > 0 {
			bads = append(bads, strings.Join(rest[0].trace, " "))
			break
		}
	}
	if len(bads) > 0 {
		return "", "nothing is known to make it end on the way " + bads[0]
	}
	return "an expression of its variables decreases down to a limit", ""
}

// dominating2 adds the lengths that the paths speak about.

func firstPos(b *ssa.BasicBlock) ssa.Instruction {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in
			}
		}
	}
	return b.Instrs[0]
}

// descends: a variable is replaced by a part of what it designates (its parent, its next...).
func (a *loopAn) descends(q *loopPath) bool {
	for k, s := range q.next {
		s.key = strings.ReplaceAll(s.key, "ta:", "")
		if s.key != "" && s.key != k && strings.Contains(s.key, "("+k+").") && strings.HasPrefix(s.key, "V:mem ") {
			return true
		}
		if strings.HasPrefix(s.key, "K:") && strings.Contains(s.key, "field("+k+",") {
			return true
		}
		if s.key == "desc:"+k {
			return true
		}
	}
	return false
}

// rank removes the ways around on which some expression decreases while no other way
// makes it grow, again and again; it gives those that are left.
func (a *loopAn) rank(set []*loopPath, facts map[*loopPath][]lin) []*loopPath {
	for len(set) > 0 {
		removed := false
		for _, r := range a.candidates(set, facts) {
			var keep []*loopPath
			ok := true
			for _, q := range set {
				n, _ := q.subst(r)
				d := r.add(n, -1)
				f := facts[q]
				strict := false
				if len(d.t) == 0 {
					if d.c < 0 {
						ok = false
						break
					}
					strict = d.c >= 1
				} else if proves(f, d.plus(-1)) {
					strict = true
				} else if !proves(f, d) {
					ok = false
					break
				}
				if strict {
					flt := len(r.t) == 1
					for n := range r.t {
						flt = flt && strings.HasSuffix(n, "#f.i")
					}
					if !flt && !bounded(f, r) && !bounded(f, n) {
						strict = false
					}
				}
				if !strict {
					keep = append(keep, q)
				}
			}
			if ok && len(keep) < len(set) {
				set, removed = keep, true
				break
			}
		}
		if !removed {
			return set
		}
	}
	return nil
}

// bounded tells whether an expression is at least some constant.
func bounded(f []lin, l lin) bool {
	for _, c := range []int64{0, 1, 2, 8} {
		if proves(f, l.plus(c)) {
			return true
		}
	}
	return false
}

func (a *loopAn) candidates(set []*loopPath, facts map[*loopPath][]lin) []lin {
	vary, inv := map[string]bool{}, map[string]bool{}
	for _, q := range set {
		for _, l := range facts[q] {
			for n := range l.t {
				switch {
				case strings.HasPrefix(n, "P:"), strings.HasPrefix(n, "M:"):
					vary[n] = true
				case strings.HasPrefix(n, "V:"), strings.HasPrefix(n, "K:"):
					inv[n] = true
				}
			}
		}
		for k := range q.next {
			vary[k+".i"] = true
			vary[k+".n"] = true
		}
	}
	keys := func(m map[string]bool) (r []string) {
		for k := range m {
			r = append(r, k)
		}
		sort.Strings(r)
		return
	}
	vs, is := keys(vary), keys(inv)
	var res []lin
	for _, x := range vs {
		for _, s := range []int64{1, -1} {
			res = append(res, lin{}.add(linAtom(x), s))
		}
	}
	for _, x := range vs {
		for _, s := range []int64{1, -1} {
			for _, y := range append(append([]string{}, is...), vs...) {
				if y == x || strings.HasSuffix(y, "#f.i") || strings.HasSuffix(x, "#f.i") {
					continue
				}
				for _, s2 := range []int64{1, -1} {
					res = append(res, lin{}.add(linAtom(x), s).add(linAtom(y), s2))
				}
			}
		}
	}
	return res
}

// simple recognises the loops whose shape tells that they end: an iterator or an input
// consumed by every iteration, or a counter compared with a limit at every iteration.
func (a *loopAn) simple() string {
	var latches []*ssa.BasicBlock
	for _, p := range a.h.Preds {
		if a.in[p] {
			latches = append(latches, p)
		}
	}
	every := func(b *ssa.BasicBlock) bool {
		for _, l := range latches {
			if !b.Dominates(l) {
				return false
			}
		}
		return true
	}
	for b := range a.in {
		if !every(b) {
			continue
		}
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Next:
				if it, ok := v.Iter.(ssa.Instruction); ok && !a.in[it.Block()] {
					return "range"
				}
			case *ssa.UnOp:
				if v.Op == token.ARROW {
					return "received"
				}
			case *ssa.Select:
				if v.Blocking {
					return "received"
				}
			case *ssa.Call:
				if reads(a.p.calleeName(v.Common())) {
					return "read"
				}
			}
		}
	}
	for _, in := range a.h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isIntLike(phi.Type()) {
			continue
		}
		lo, hi, ok := int64(1<<40), int64(-1<<40), true
		for i, p := range a.h.Preds {
			if !a.in[p] {
				continue
			}
			l, h, k := a.delta(phi.Edges[i], phi, 0, map[ssa.Value]bool{})
			if !k {
				ok = false
				break
			}
			lo, hi = min(lo, l), max(hi, h)
		}
		if !ok || lo <= 0 && hi >= 0 {
			continue
		}
		atom := "P:" + phi.Name() + ".i"
		for b := range a.in {
			if !every(b) {
				continue
			}
			ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			for i, s := range b.Succs {
				if a.in[s] {
					continue
				}
				c := a.eval(nil, ifi.Cond)
				if c.cmp == nil || c.cmp.seq || c.cmp.flt {
					continue
				}
				if c.cmp.op == token.EQL && i == 0 || c.cmp.op == token.NEQ && i == 1 {
					if lo == hi && (lo == 1 || lo == -1) && a.limit(c.cmp.x.i.add(c.cmp.y.i, -1), atom) != 0 {
						return "counter"
					}
				}
				// staying means that the condition is i==1
				op := c.cmp.op
				if i == 0 {
					op = negateOp(op)
				}
				var l lin
				switch op {
				case token.LSS, token.LEQ:
					l = c.cmp.y.i.add(c.cmp.x.i, -1)
				case token.GTR, token.GEQ:
					l = c.cmp.x.i.add(c.cmp.y.i, -1)
				default:
					continue
				}
				if k := a.limit(l, atom); k < 0 && lo > 0 || k > 0 && hi < 0 {
					return "counter"
				}
			}
		}
	}
	return ""
}

// limit gives the coefficient of the counter in an expression made otherwise of what the
// loop does not change.
func (a *loopAn) limit(l lin, atom string) int64 {
	for n := range l.t {
		if n != atom && !strings.HasPrefix(n, "V:") && !strings.HasPrefix(n, "K:") {
			return 0
		}
	}
	return l.t[atom]
}

// delta gives the least and the most that a value adds to a variable of the loop.
func (a *loopAn) delta(v ssa.Value, phi *ssa.Phi, d int, busy map[ssa.Value]bool) (lo, hi int64, ok bool) {
	if v == ssa.Value(phi) {
		return 0, 0, true
	}
	if d > 20 || busy[v] {
		return 0, 0, false
	}
	busy[v] = true
	defer delete(busy, v)
	switch x := v.(type) {
	case *ssa.BinOp:
		k := int64(1)
		if x.Op == token.SUB {
			k = -1
		} else if x.Op != token.ADD {
			return 0, 0, false
		}
		c := a.eval(nil, x.Y)
		if len(c.i.t) == 0 {
			l, h, ok := a.delta(x.X, phi, d+1, busy)
			return l + k*c.i.c, h + k*c.i.c, ok
		}
		if c = a.eval(nil, x.X); k == 1 && len(c.i.t) == 0 {
			l, h, ok := a.delta(x.Y, phi, d+1, busy)
			return l + c.i.c, h + c.i.c, ok
		}
	case *ssa.Phi:
		if !a.in[x.Block()] || a.inner[x.Block()] {
			return 0, 0, false
		}
		lo, hi = 1<<40, -1<<40
		for _, e := range x.Edges {
			l, h, ok := a.delta(e, phi, d+1, busy)
			if !ok {
				return 0, 0, false
			}
			lo, hi = min(lo, l), max(hi, h)
		}
		return lo, hi, true
	case *ssa.Convert:
		if isIntLike(x.Type()) {
			return a.delta(x.X, phi, d+1, busy)
		}
	}
	return 0, 0, false
}
