package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", "Typestate and ownership of files, temporary files and folders, and network responses: from each place where one is obtained, every path to the end of its owner is followed until it is released or handed over to the caller; releases made by deferred calls and by helpers are followed too.", ruleRelease,
		"a path ended by a panic or by the end of the program is not followed, except for the temporary folder of the program",
		"what is stored in a structure or a package variable is owned by it")
}

// what has to be done with what a function gives
type resKind struct {
	what          string
	close, remove bool
}

var acquisitions = map[string]resKind{
	"os.Open": {"file", true, false}, "os.Create": {"file", true, false}, "os.OpenFile": {"file", true, false},
	"os.CreateTemp": {"temporary file", true, true}, "os.MkdirTemp": {"temporary folder", false, true},
	"io/ioutil.TempFile": {"temporary file", true, true}, "io/ioutil.TempDir": {"temporary folder", false, true},
	"net/http.Get": {"response", true, false}, "net/http.Post": {"response", true, false}, "net/http.PostForm": {"response", true, false}, "net/http.Head": {"response", true, false},
	"(*net/http.Client).Do": {"response", true, false}, "(*net/http.Client).Get": {"response", true, false}, "(*net/http.Client).Post": {"response", true, false},
	"(*net/http.Client).PostForm": {"response", true, false}, "(*net/http.Client).Head": {"response", true, false},
	"net.Dial": {"connection", true, false}, "net.Listen": {"listener", true, false},
}

type ownerKey struct {
	fn  *ssa.Function
	res int
}

type owned struct {
	kind    resKind
	isName  bool // the result is the name of what has to be removed
	withErr bool // it may be given together with an error
	from    string
}

type releases struct {
	p     *Program
	given map[ownerKey]owned // results that hand a resource over to the caller
	r     *Report
	quiet bool
}

// a path through a function, with what is known along it
type relPath struct {
	mem  map[ssa.Value]ssa.Value
	from map[*ssa.BasicBlock]*ssa.BasicBlock
}

func (q *relPath) resolve(v ssa.Value) ssa.Value {
	for i := 0; i < 30; i++ {
		switch x := v.(type) {
		case *ssa.Phi:
			prev := q.from[x.Block()]
			if prev == nil {
				return v
			}
			found := false
			for i, b := range x.Block().Preds {
				if b == prev {
					v, found = x.Edges[i], true
					break
				}
			}
			if !found {
				return v
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			val, ok := q.mem[x.X]
			if !ok {
				return v
			}
			v = val
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.TypeAssert:
			if x.CommaOk {
				return v
			}
			v = x.X
		default:
			return v
		}
	}
	return v
}

// same tells whether a value is the resource itself: 1, or its name: 2.
func (q *relPath) same(v ssa.Value, is func(ssa.Value) bool, depth int) int {
	if depth > 6 {
		return 0
	}
	v = q.resolve(v)
	if is(v) {
		return 1
	}
	switch x := v.(type) {
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && len(x.Call.Args) == 1 && f.Name() == "Name" && q.same(x.Call.Args[0], is, depth+1) == 1 {
			return 2
		}
		// must(os.MkdirTemp(…)) and the like: what is given comes through
		if f := x.Call.StaticCallee(); f != nil && strings.HasPrefix(f.Name(), "Must") && len(x.Call.Args) == 1 {
			if list, ok := variadic(x.Call.Args[0]); ok && len(list) == 2 {
				return q.same(list[0], is, depth+1)
			}
		}
	case *ssa.UnOp: // the body of a response
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "Body" {
				return q.same(fa.X, is, depth+1)
			}
		}
	}
	return 0
}

type relState struct{ closed, removed bool }

// effect tells what a call (or a deferred call) releases, is telling which values are the resource.
func (a *releases) effect(q *relPath, c *ssa.CallCommon, is func(ssa.Value) bool, depth int) (st relState) {
	name := a.p.calleeName(c)
	if c.IsInvoke() {
		if c.Method.Name() == "Close" && q.same(c.Value, is, 0) == 1 {
			st.closed = true
		}
		return
	}
	if strings.HasSuffix(name, ".Close") && len(c.Args) >= 1 && q.same(c.Args[0], is, 0) == 1 {
		st.closed = true
		return
	}
	if (name == "os.Remove" || name == "os.RemoveAll" || name == "os.Rename") && q.same(c.Args[0], is, 0) != 0 {
		st.removed = true
		return
	}
	callee := a.p.Callee(c)
	mc, _ := q.resolve(c.Value).(*ssa.MakeClosure)
	if mc != nil {
		callee = mc.Fn.(*ssa.Function)
	}
	if callee == nil || depth > 4 {
		return
	}
	callee = a.p.realFunc(callee)
	// what the called function sees of it
	inside := map[ssa.Value]int{}
	for i, arg := range c.Args {
		if k := q.same(arg, is, 0); k != 0 && i < len(callee.Params) {
			inside[callee.Params[i]] = k
		} else if val, ok := q.mem[arg]; ok && i < len(callee.Params) && q.same(val, is, 0) != 0 {
			inside[callee.Params[i]] = 10 + q.same(val, is, 0)
		}
	}
	if mc != nil {
		for i, b := range mc.Bindings {
			if i >= len(callee.FreeVars) {
				break
			}
			if val, ok := q.mem[b]; ok {
				if k := q.same(val, is, 0); k != 0 {
					inside[callee.FreeVars[i]] = 10 + k
				}
			} else if k := q.same(b, is, 0); k != 0 {
				inside[callee.FreeVars[i]] = k
			}
		}
	}
	if len(inside) == 0 || len(callee.Blocks) == 0 || !a.p.inRepo(callee) {
		return
	}
	// released on every path of the function
	mem := map[ssa.Value]ssa.Value{}
	asName := map[ssa.Value]bool{}
	base := map[ssa.Value]bool{}
	for v, k := range inside {
		if k > 10 { // a variable holding it
			mem[v] = v
		}
		base[v] = true
		asName[v] = k%10 == 2
	}
	is2 := func(v ssa.Value) bool { return base[v] }
	all := relState{true, true}
	n := 0
	a.walk(callee.Blocks[0], 0, mem, map[*ssa.BasicBlock]*ssa.BasicBlock{}, is2, nil, nil, depth+1, func(_ *ssa.Return, _ *relPath, st relState) {
		n++
		all.closed = all.closed && st.closed
		all.removed = all.removed && st.removed
	})
	if n > 0 {
		st = all
	}
	return
}

// walk follows the paths from an instruction; valid tells which branch of a test means that there is a
// resource (0 or 1; -1 when the test is about something else).
func (a *releases) walk(b *ssa.BasicBlock, start int, mem map[ssa.Value]ssa.Value, from map[*ssa.BasicBlock]*ssa.BasicBlock, is func(ssa.Value) bool, errOf func(ssa.Value) bool, stored func(*relPath, ssa.Instruction) bool, depth int, end func(*ssa.Return, *relPath, relState)) {
	steps := 0
	var walk func(b, prev *ssa.BasicBlock, start int, q *relPath, st relState, count map[*ssa.BasicBlock]int)
	walk = func(b, prev *ssa.BasicBlock, start int, old *relPath, st relState, count map[*ssa.BasicBlock]int) {
		steps++
		if count[b] >= 2 || steps > 4000 {
			return
		}
		q := &relPath{mem: map[ssa.Value]ssa.Value{}, from: map[*ssa.BasicBlock]*ssa.BasicBlock{}}
		for k, v := range old.mem {
			q.mem[k] = v
		}
		for k, v := range old.from {
			q.from[k] = v
		}
		count2 := map[*ssa.BasicBlock]int{}
		for k, v := range count {
			count2[k] = v
		}
		if prev != nil {
			q.from[b] = prev
		}
		count2[b]++
		for i := start; i < len(b.Instrs); i++ {
			switch in := b.Instrs[i].(type) {
			case *ssa.Store:
				if stored != nil && stored(q, in) {
					return // owned by something else from now on
				}
				q.mem[in.Addr] = in.Val
			case *ssa.MapUpdate, *ssa.Send:
				if stored != nil && stored(q, in.(ssa.Instruction)) {
					return
				}
			case ssa.CallInstruction:
				e := a.effect(q, in.Common(), is, depth)
				st.closed = st.closed || e.closed
				st.removed = st.removed || e.removed
				if n := a.p.calleeName(in.Common()); n == "os.Exit" {
					return
				}
			case *ssa.Return:
				end(in, q, st)
				return
			case *ssa.Panic:
				return
			case *ssa.If:
				taken := -1
				if cmp, ok := in.Cond.(*ssa.BinOp); ok && (cmp.Op == token.EQL || cmp.Op == token.NEQ) {
					x, y := cmp.X, cmp.Y
					if _, isConst := x.(*ssa.Const); isConst {
						x, y = y, x
					}
					if c, isConst := y.(*ssa.Const); isConst {
						empty := c.IsNil() || c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == ""
						rx := q.resolve(x)
						switch {
						case empty && q.same(x, is, 0) != 0: // it exists
							taken = 0
							if cmp.Op == token.EQL {
								taken = 1
							}
						case c.IsNil() && errOf != nil && errOf(rx): // obtained without error
							taken = 1
							if cmp.Op == token.EQL {
								taken = 0
							}
						case c.IsNil() && isErrorType(x.Type()):
							if k, isConst := rx.(*ssa.Const); isConst && k.IsNil() {
								taken = 1
								if cmp.Op == token.EQL {
									taken = 0
								}
							}
						}
					}
				}
				for k, s := range b.Succs {
					if taken < 0 || taken == k {
						walk(s, b, 0, q, st, count2)
					}
				}
				return
			}
		}
		for _, s := range b.Succs {
			walk(s, b, 0, q, st, count2)
		}
	}
	walk(b, nil, start, &relPath{mem: mem, from: from}, relState{}, map[*ssa.BasicBlock]int{})
}

// owner follows what a call gives until the end of the function.
func (a *releases) owner(fn *ssa.Function, call *ssa.Call, idx int, o owned) (changed bool) {
	name := fnName(fn)
	what := fmt.Sprintf("the %s obtained from %s", o.kind.what, o.from)
	tuple := call.Call.Signature().Results().Len() > 1
	is := func(v ssa.Value) bool {
		if !tuple {
			return v == ssa.Value(call)
		}
		ex, ok := v.(*ssa.Extract)
		return ok && ex.Tuple == ssa.Value(call) && ex.Index == idx
	}
	var errOf func(ssa.Value) bool
	if !o.withErr {
		errOf = func(v ssa.Value) bool {
			ex, ok := v.(*ssa.Extract)
			return ok && ex.Tuple == ssa.Value(call) && isErrorType(ex.Type())
		}
	}
	stored := func(q *relPath, in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.Store:
			if _, local := in.Addr.(*ssa.Alloc); local {
				return false
			}
			if _, outer := in.Addr.(*ssa.FreeVar); outer {
				return q.same(in.Val, is, 0) != 0
			}
			if ia, ok := in.Addr.(*ssa.IndexAddr); ok { // the arguments of a call
				if al, ok := ia.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
					return false
				}
			}
			return q.same(in.Val, is, 0) != 0
		case *ssa.MapUpdate:
			return q.same(in.Value, is, 0) != 0
		case *ssa.Send:
			return q.same(in.X, is, 0) != 0
		}
		return false
	}
	at := 0
	for i, in := range call.Block().Instrs {
		if in == ssa.Instruction(call) {
			at = i + 1
		}
	}
	why, where := "", ""
	n := 0
	a.walk(call.Block(), at, map[ssa.Value]ssa.Value{}, map[*ssa.BasicBlock]*ssa.BasicBlock{}, is, errOf, stored, 0, func(ret *ssa.Return, q *relPath, st relState) {
		n++
		handed, byName := -1, false
		for i, v := range ret.Results {
			if k := q.same(v, is, 0); k != 0 {
				handed, byName = i, k == 2 || o.isName
			}
		}
		for _, v := range ret.Results {
			if mc, ok := q.resolve(v).(*ssa.MakeClosure); ok {
				for _, b := range mc.Bindings {
					if q.same(b, is, 0) != 0 || q.mem[b] != nil && q.same(q.mem[b], is, 0) != 0 {
						return // owned by the function that is returned
					}
				}
			}
		}
		needClose := o.kind.close && !st.closed
		needRemove := o.kind.remove && !st.removed
		if !needClose && !needRemove {
			return
		}
		if handed >= 0 && !(byName && needClose) {
			key := ownerKey{fn, handed}
			g, known := a.given[key]
			kind := o.kind
			kind.close = needClose
			ng := owned{kind: kind, isName: byName, from: name, withErr: g.withErr}
			for i, v := range ret.Results {
				if i == handed || !isErrorType(v.Type()) {
					continue
				}
				if c, ok := q.resolve(v).(*ssa.Const); !ok || !c.IsNil() {
					if errOf == nil || !errOf(q.resolve(v)) {
						ng.withErr = true
					}
				}
			}
			if !known || ng.withErr != g.withErr {
				a.given[key] = ng
				changed = true
			}
			return
		}
		where = a.p.instrPos(ret)
		switch {
		case needClose:
			why = "is not closed"
		default:
			why = "is not removed"
		}
	})
	if a.quiet {
		return
	}
	if why != "" {
		a.r.bad("leak|"+name+"|"+o.from, a.p.instrPos(call), "%s %s on a path of %s that ends at %s", what, why, name, where)
	} else {
		a.r.ok("%s: %s is released on every path, or handed over (%d paths)", name, what, n)
	}
	return
}

func ruleRelease(p *Program, r *Report) {
	a := &releases{p: p, r: r, given: map[ownerKey]owned{}, quiet: true}
	r.rule("a file is closed, a temporary file or folder removed and the body of a response closed, on every path of the function that owns it once it was obtained")
	run := func() (changed bool, n int) {
		for _, fn := range p.Funcs {
			callsIn(fn, func(c ssa.CallInstruction) {
				call, ok := c.(*ssa.Call)
				if !ok {
					return
				}
				if k, ok := acquisitions[p.calleeName(c.Common())]; ok {
					n++
					changed = a.owner(fn, call, 0, owned{kind: k, isName: !k.close, from: p.calleeName(c.Common())}) || changed
				}
				if callee := p.Callee(c.Common()); callee != nil {
					callee = p.realFunc(callee)
					for i := 0; i < callee.Signature.Results().Len(); i++ {
						if o, ok := a.given[ownerKey{callee, i}]; ok {
							n++
							changed = a.owner(fn, call, i, o) || changed
						}
					}
				}
			})
		}
		return
	}
	for i := 0; i < 10; i++ {
		if changed, _ := run(); !changed {
			break
		}
	}
	a.quiet = false
	_, n := run()
	r.need("resources followed", n, 3)

	a.programFolders(r)
}

// programFolders checks that what is created when the program starts is removed whichever way it ends.
func (a *releases) programFolders(r *Report) {
	p := a.p
	r.rule("the temporary folder of the program is removed before each place where the program ends")
	var globals []*ssa.Global
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Name(), "init") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if ok && a.fromTemp(st.Val, 0) {
					globals = append(globals, g)
				}
			}
		}
	}
	sort.Slice(globals, func(i, j int) bool { return globals[i].Name() < globals[j].Name() })
	r.count("temporary folders of the program", len(globals))
	for _, g := range globals {
		// functions that remove it on every path
		removes := map[*ssa.Function]bool{}
		var removing func(in ssa.Instruction) bool
		removing = func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			n := p.calleeName(c.Common())
			if n == "os.RemoveAll" || n == "os.Remove" {
				if ld, ok := c.Common().Args[0].(*ssa.UnOp); ok && ld.X == ssa.Value(g) {
					return true
				}
			}
			f := p.Callee(c.Common())
			return f != nil && removes[p.realFunc(f)]
		}
		for changed := true; changed; {
			changed = false
			for _, fn := range p.Funcs {
				if removes[fn] || len(fn.Blocks) == 0 {
					continue
				}
				if everyPath(fn, removing) {
					removes[fn] = true
					changed = true
				}
			}
		}
		exits := 0
		// the calls that end the program
		ends := map[*ssa.Function]bool{}
		isEnd := func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			if _, isDefer := in.(*ssa.Defer); isDefer {
				return false
			}
			switch p.calleeName(c.Common()) {
			case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln":
				return true
			}
			return false
		}
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for i, in := range b.Instrs {
					if !isEnd(in) {
						continue
					}
					exits++
					if precededBy(fn, b, i, func(in ssa.Instruction) bool {
						_, isDefer := in.(*ssa.Defer)
						return !isDefer && removing(in)
					}) {
						r.ok("%s: the temporary folder is removed before the program ends", fnName(fn))
					} else {
						ends[fn] = true
						r.bad("exit|"+fnName(fn), p.instrPos(in), "%s ends the program while the temporary folder %s was not removed", fnName(fn), g.Name())
					}
				}
			}
			if fn.Name() == "main" && fn.Parent() == nil && fn.Pkg == g.Pkg {
				exits++
				if everyPath(fn, func(in ssa.Instruction) bool { return removing(in) || isEnd(in) }) {
					r.ok("main: the temporary folder is removed")
				} else {
					r.bad("exit|main|"+g.Name(), p.pos(fn.Pos()), "main may end while the temporary folder %s was not removed", g.Name())
				}
			}
		}
		r.need("ends of the program", exits, 1)
	}
}

func (a *releases) fromTemp(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Extract:
		return a.fromTemp(v.Tuple, depth+1)
	case *ssa.TypeAssert:
		return a.fromTemp(v.X, depth+1)
	case *ssa.MakeInterface:
		return a.fromTemp(v.X, depth+1)
	case *ssa.Call:
		n := a.p.calleeName(v.Common())
		if k, ok := acquisitions[n]; ok && k.remove {
			return true
		}
		for _, arg := range v.Call.Args {
			if list, ok := variadic(arg); ok {
				for _, x := range list {
					if a.fromTemp(x, depth+1) {
						return true
					}
				}
			} else if a.fromTemp(arg, depth+1) {
				return true
			}
		}
		if f := a.p.Callee(v.Common()); f != nil {
			for i := 0; i < f.Signature.Results().Len(); i++ {
				if o, ok := a.given[ownerKey{a.p.realFunc(f), i}]; ok && o.kind.remove {
					return true
				}
			}
		}
	}
	return false
}

// everyPath tells whether every path of a function to its end goes through an instruction (deferred calls count).
func everyPath(fn *ssa.Function, is func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	ok, ended := true, false
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if is(in) {
				ended = true
				return
			}
			if _, isRet := in.(*ssa.Return); isRet {
				ok = false
				return
			}
		}
		for _, s := range b.Succs {
			visit(s)
		}
	}
	visit(fn.Blocks[0])
	return ok && ended
}

// precededBy tells whether every path to an instruction goes through another one.
func precededBy(fn *ssa.Function, at *ssa.BasicBlock, idx int, is func(ssa.Instruction) bool) bool {
	for i := 0; i < idx; i++ {
		if is(at.Instrs[i]) {
			return true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	reached := false
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if b == at {
			reached = true
			return
		}
		if seen[b] {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if is(in) {
				return
			}
		}
		for _, s := range b.Succs {
			visit(s)
		}
	}
	visit(fn.Blocks[0])
	return !reached
}
