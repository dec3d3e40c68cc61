package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockAnalysis computes, for every function of the repository, the locks that are held (on every
// path, and on some path) before each instruction. Locks are named by the path of their variable.
// It follows static calls, calls of functions received as arguments, deferred calls, closures, and the
// calls made by the template engine to the functions registered in it.
type lockAnalysis struct {
	p       *Program
	funcs   []*ssa.Function
	must    map[*ssa.Function]*lockFlow
	may     map[*ssa.Function]*lockFlow
	entry   map[bool]map[*ssa.Function]lockSet // true: must
	open    map[*ssa.Function]bool             // can be called from outside, with no lock held
	reflect []*ssa.Function                    // functions stored as plain values: called by the engine
	byArg   map[*ssa.Function]map[int][]*ssa.Function
	targets map[ssa.CallInstruction][]*ssa.Function
	dyn     map[string][]*ssa.Function
	initFn  map[*ssa.Function]bool
}

type lockSet map[string]bool

func (s lockSet) clone() lockSet {
	r := lockSet{}
	for k := range s {
		r[k] = true
	}
	return r
}

func (s lockSet) String() string {
	var r []string
	for k := range s {
		r = append(r, k)
	}
	sort.Strings(r)
	return strings.Join(r, ", ")
}

// lockFlow is the result for one function: the locks before each instruction, the net effect.
type lockFlow struct {
	at       map[ssa.Instruction]lockSet
	deferred map[ssa.Instruction]lockSet // releases registered so far
	acquires lockSet                     // held at (every, some) return and not at entry
	releases lockSet                     // may be released
	exits    []lockExit
}

type lockExit struct {
	ret  ssa.Instruction
	held lockSet
}

// lockOp recognises the operations of sync locks: the path of the lock, the operation.
func (p *Program) lockOp(c *ssa.CallCommon) (string, string) {
	f := c.StaticCallee()
	if mc, ok := c.Value.(*ssa.MakeClosure); ok && len(mc.Bindings) == 1 && strings.HasPrefix(f.RelString(nil), "(*sync.") && strings.HasSuffix(f.Name(), "$bound") {
		return varPath(mc.Bindings[0], 0), strings.TrimSuffix(f.Name(), "$bound")
	}
	if f == nil || len(c.Args) == 0 {
		if c.IsInvoke() && c.Value.Type().String() == "sync.Locker" {
			return varPath(c.Value, 0), c.Method.Name()
		}
		return "", ""
	}
	switch n := f.RelString(nil); n {
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Once).Do":
		return varPath(c.Args[0], 0), n[strings.LastIndex(n, ".")+1:]
	}
	return "", ""
}

// varPath names the storage an address or a value denotes, starting from a package variable or a parameter.
func varPath(v ssa.Value, depth int) string {
	if depth > 8 {
		return ""
	}
	switch v := v.(type) {
	case *ssa.Global:
		return shortPkg(v.Pkg.Pkg.Path()) + "." + v.Name()
	case *ssa.FieldAddr:
		if b := varPath(v.X, depth+1); b != "" {
			return b + "." + fieldName(v.X.Type(), v.Field)
		}
		return "(" + shortType(v.X.Type()) + ")." + fieldName(v.X.Type(), v.Field)
	case *ssa.Field:
		if b := varPath(v.X, depth+1); b != "" {
			return b + "." + fieldName(v.X.Type(), v.Field)
		}
	case *ssa.IndexAddr:
		return varPath(v.X, depth+1)
	case *ssa.Index:
		return varPath(v.X, depth+1)
	case *ssa.Lookup:
		return varPath(v.X, depth+1)
	case *ssa.Slice:
		return varPath(v.X, depth+1)
	case *ssa.ChangeType:
		return varPath(v.X, depth+1)
	case *ssa.MakeInterface:
		return varPath(v.X, depth+1)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return ""
		}
		if a, ok := v.X.(*ssa.Alloc); ok {
			if st := onlyStore(a); st != nil {
				return varPath(st.Val, depth+1)
			}
			return ""
		}
		return varPath(v.X, depth+1)
	case *ssa.FreeVar:
		if b := freeVarBinding(v); b != nil {
			return varPath(b, depth+1)
		}
	}
	return ""
}

func (p *Program) locksOf() *lockAnalysis {
	if p.locks != nil {
		return p.locks
	}
	a := &lockAnalysis{p: p, must: map[*ssa.Function]*lockFlow{}, may: map[*ssa.Function]*lockFlow{}, open: map[*ssa.Function]bool{},
		byArg: map[*ssa.Function]map[int][]*ssa.Function{}, targets: map[ssa.CallInstruction][]*ssa.Function{}, dyn: map[string][]*ssa.Function{}, initFn: map[*ssa.Function]bool{},
		entry: map[bool]map[*ssa.Function]lockSet{true: {}, false: {}}}
	p.locks = a
	for _, fn := range p.Funcs {
		if len(fn.Blocks) > 0 && p.inRepo(fn) {
			a.funcs = append(a.funcs, fn)
		}
	}
	a.resolve()
	for round := 0; round < 30; round++ {
		changed := false
		for _, fn := range a.funcs {
			if a.flow(fn, true) {
				changed = true
			}
			if a.flow(fn, false) {
				changed = true
			}
		}
		if a.entries() {
			changed = true
		}
		if !changed {
			break
		}
	}
	return a
}

// resolve finds the targets of the dynamic calls and the functions callable from outside.
func (a *lockAnalysis) resolve() {
	p := a.p
	for _, fn := range a.funcs {
		if fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) {
			a.initFn[fn] = true
		}
		if fn.Object() != nil && fn.Object().Exported() && fn.Parent() == nil {
			a.open[fn] = true
		}
		if fn.Parent() == nil && fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main" && fn.Name() == "main" {
			a.open[fn] = true
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					f := asFunc(p, *op)
					if f == nil || !p.inRepo(f) {
						continue
					}
					a.use(in, *op, f)
				}
			}
		}
	}
	for _, fn := range a.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if ts := p.Callees(c.Common()); len(ts) > 0 {
					a.targets[c] = append(a.targets[c], ts...)
					continue
				}
				if _, isB := c.Common().Value.(*ssa.Builtin); isB || c.Common().IsInvoke() {
					continue
				}
				// a parameter of the function, or any function used as a value with this signature
				if prm, i := paramOf(c.Common().Value); prm != nil {
					if ts := a.byArg[prm][i]; len(ts) > 0 {
						a.targets[c] = ts
						if prm.Object() == nil || !prm.Object().Exported() {
							continue
						}
					}
				}
				a.targets[c] = append(a.targets[c], a.dyn[sigKey(c.Common().Signature())]...)
			}
		}
	}
}

func asFunc(p *Program, v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.Function:
		return p.realFunc(v)
	case *ssa.MakeClosure:
		return p.realFunc(v.Fn.(*ssa.Function))
	}
	return nil
}

// paramOf: v is a parameter (possibly captured or kept in a variable) of a function.
func paramOf(v ssa.Value) (*ssa.Function, int) {
	for depth := 0; depth < 6; depth++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			for i, prm := range x.Parent().Params {
				if prm == x {
					return x.Parent(), i
				}
			}
			return nil, 0
		case *ssa.FreeVar:
			if v = freeVarBinding(x); v == nil {
				return nil, 0
			}
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			switch y := x.X.(type) {
			case *ssa.Alloc:
				st := onlyStore(y)
				if st == nil {
					return nil, 0
				}
				v = st.Val
			case *ssa.FreeVar:
				al := freeVarAlloc(y)
				if al == nil || onlyStore(al) == nil {
					return nil, 0
				}
				v = onlyStore(al).Val
			default:
				return nil, 0
			}
		default:
			return nil, 0
		}
	}
	return nil, 0
}

// use records what instruction in does with the function value f.
func (a *lockAnalysis) use(in ssa.Instruction, op ssa.Value, f *ssa.Function) {
	switch in := in.(type) {
	case ssa.CallInstruction:
		if in.Common().Value == op {
			return
		}
		for i, arg := range in.Common().Args {
			if arg == op {
				a.passed(in, i, f)
			}
		}
	case *ssa.MakeClosure, *ssa.DebugRef:
	case *ssa.ChangeType:
		a.follow(in, f)
	case *ssa.MakeInterface:
		if _, named := in.X.Type().(*types.Named); named {
			a.dynamic(f)
		} else {
			a.outside(f)
		}
	case *ssa.Store:
		if al, ok := in.Addr.(*ssa.Alloc); ok && onlyStore(al) != nil && op == in.Val {
			return // calls of the variable are resolved
		}
		a.dynamic(f)
	default:
		a.dynamic(f)
	}
}

func (a *lockAnalysis) follow(v ssa.Value, f *ssa.Function) {
	if v.Referrers() == nil {
		return
	}
	for _, r := range *v.Referrers() {
		a.use(r, v, f)
	}
}

func (a *lockAnalysis) passed(c ssa.CallInstruction, i int, f *ssa.Function) {
	ts := a.p.Callees(c.Common())
	known := len(ts) > 0
	for _, t := range ts {
		if !a.p.inRepo(t) || len(t.Blocks) == 0 {
			known = false
			continue
		}
		k := i
		if c.Common().IsInvoke() {
			k++
		}
		if a.byArg[t] == nil {
			a.byArg[t] = map[int][]*ssa.Function{}
		}
		a.byArg[t][k] = append(a.byArg[t][k], f)
	}
	if known {
		return
	}
	if len(ts) == 0 {
		a.dynamic(f)
		return
	}
	// a library function calls it back before it returns
	a.callback(c, f)
}

var goers = map[string]bool{"time.AfterFunc": true, "net/http.HandleFunc": true}

func (a *lockAnalysis) callback(c ssa.CallInstruction, f *ssa.Function) {
	if goers[a.p.calleeName(c.Common())] {
		a.open[f] = true
		return
	}
	a.targets[c] = append(a.targets[c], f)
}

func (a *lockAnalysis) dynamic(f *ssa.Function) {
	k := sigKey(f.Signature)
	for _, g := range a.dyn[k] {
		if g == f {
			return
		}
	}
	a.dyn[k] = append(a.dyn[k], f)
}

func (a *lockAnalysis) outside(f *ssa.Function) {
	a.dynamic(f)
	if !a.open[f] {
		a.open[f] = true
		a.reflect = append(a.reflect, f)
	}
}

// calls lists the functions a call instruction may run.
func (a *lockAnalysis) calls(c ssa.CallInstruction) []*ssa.Function {
	ts := append([]*ssa.Function{}, a.targets[c]...)
	switch a.p.calleeName(c.Common()) {
	case "(*text/template.Template).Execute", "(*text/template.Template).ExecuteTemplate":
		ts = append(ts, a.reflect...)
	}
	return ts
}

func (a *lockAnalysis) table(must bool) map[*ssa.Function]*lockFlow {
	if must {
		return a.must
	}
	return a.may
}

func join(must bool, x, y lockSet) lockSet {
	r := lockSet{}
	for k := range x {
		if !must || y[k] {
			r[k] = true
		}
	}
	if !must {
		for k := range y {
			r[k] = true
		}
	}
	return r
}

func same(x, y lockSet) bool {
	if len(x) != len(y) {
		return false
	}
	for k := range x {
		if !y[k] {
			return false
		}
	}
	return true
}

// flow runs the dataflow of one function from its entry locks.
func (a *lockAnalysis) flow(fn *ssa.Function, must bool) bool {
	entry, reached := a.entry[must][fn]
	if a.open[fn] || a.initFn[fn] {
		reached = true
		if must {
			entry = lockSet{}
		}
	}
	if !reached {
		return false
	}
	if entry == nil {
		entry = lockSet{}
	}
	fl := &lockFlow{at: map[ssa.Instruction]lockSet{}, deferred: map[ssa.Instruction]lockSet{}, releases: lockSet{}}
	type st struct{ held, def lockSet }
	in := map[*ssa.BasicBlock]*st{fn.Blocks[0]: {entry.clone(), lockSet{}}}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		cur := &st{in[b].held.clone(), in[b].def.clone()}
		for _, i := range b.Instrs {
			fl.at[i] = cur.held.clone()
			fl.deferred[i] = cur.def.clone()
			switch i := i.(type) {
			case *ssa.Go:
			case *ssa.Defer:
				if l, op := a.p.lockOp(i.Common()); strings.HasSuffix(op, "Unlock") {
					cur.def[lockName(l, op)] = true
					fl.deferred[i] = cur.def.clone()
					continue
				}
				ts := a.calls(i)
				if len(ts) == 0 {
					if _, dynamicCall := i.Call.Value.(*ssa.Call); dynamicCall {
						cur.def["*"] = true // what the call returned may release
					}
				}
				for _, t := range ts {
					if f := a.table(must)[t]; f != nil {
						for k := range f.releases {
							cur.def[k] = true
						}
					} else if a.p.inRepo(t) && len(t.Blocks) > 0 {
						cur.def["*"] = true // not followed yet
					}
				}
				fl.deferred[i] = cur.def.clone() // what it releases is held when it runs
			case *ssa.RunDefers:
				for k := range cur.def {
					delete(cur.held, k)
					fl.releases[k] = true
				}
				if cur.def["*"] {
					cur.held = join(true, cur.held, entry)
				}
			case *ssa.Call:
				if l, op := a.p.lockOp(i.Common()); l != "" || op != "" {
					switch op {
					case "Lock", "RLock", "Do":
						cur.held[lockName(l, op)] = true
					case "Unlock", "RUnlock":
						delete(cur.held, lockName(l, op))
						fl.releases[lockName(l, op)] = true
					}
					continue
				}
				ts := a.calls(i)
				var eff lockSet
				n := 0
				for _, t := range ts {
					f := a.table(must)[t]
					if f == nil {
						continue
					}
					for k := range f.releases {
						if !f.acquires[k] {
							if !entryHas(a, t, k, must) {
								continue // acquired and released inside
							}
							delete(cur.held, k)
							fl.releases[k] = true
						}
					}
					if n == 0 {
						eff = f.acquires.clone()
					} else {
						eff = join(must, eff, f.acquires)
					}
					n++
				}
				if n > 0 && (n == len(ts) || !must) {
					for k := range eff {
						cur.held[k] = true
					}
				}
			case *ssa.Return:
				fl.exits = append(fl.exits, lockExit{i, cur.held.clone()})
			}
		}
		for _, s := range b.Succs {
			o := in[s]
			if o == nil {
				in[s] = &st{cur.held.clone(), cur.def.clone()}
				work = append(work, s)
				continue
			}
			nh, nd := join(must, o.held, cur.held), join(must, o.def, cur.def)
			if !same(nh, o.held) || !same(nd, o.def) {
				in[s] = &st{nh, nd}
				work = append(work, s)
			}
		}
	}
	// keep one exit per return: the last computed state
	last := map[ssa.Instruction]lockSet{}
	var order []ssa.Instruction
	for _, e := range fl.exits {
		if _, ok := last[e.ret]; !ok {
			order = append(order, e.ret)
		}
		last[e.ret] = e.held
	}
	fl.exits = nil
	for k, ret := range order {
		fl.exits = append(fl.exits, lockExit{ret, last[ret]})
		net := lockSet{}
		for l := range last[ret] {
			if !entry[l] {
				net[l] = true
			}
		}
		if k == 0 {
			fl.acquires = net
		} else {
			fl.acquires = join(must, fl.acquires, net)
		}
	}
	if fl.acquires == nil {
		fl.acquires = lockSet{}
	}
	old := a.table(must)[fn]
	a.table(must)[fn] = fl
	return old == nil || !same(old.acquires, fl.acquires) || !same(old.releases, fl.releases)
}

// entryHas: the function releases a lock of its caller (it does not take it itself first).
func entryHas(a *lockAnalysis, fn *ssa.Function, l string, must bool) bool {
	f := a.table(must)[fn]
	for i := range f.at {
		c, ok := i.(ssa.CallInstruction)
		if !ok {
			continue
		}
		if _, isD := i.(*ssa.Defer); isD {
			continue
		}
		if n, op := a.p.lockOp(c.Common()); strings.HasSuffix(op, "ock") && !strings.HasSuffix(op, "nlock") && lockName(n, op) == l {
			return false
		}
	}
	return true
}

func lockName(l, op string) string {
	switch op {
	case "RLock", "RUnlock":
		return l + "/R"
	case "Do":
		return l + "/once"
	}
	return l
}

// entries recomputes the locks held when each function starts.
func (a *lockAnalysis) entries() bool {
	changed := false
	for _, must := range []bool{true, false} {
		ent := map[*ssa.Function]lockSet{}
		add := func(t *ssa.Function, s lockSet) {
			if o, ok := ent[t]; ok {
				ent[t] = join(must, o, s)
			} else {
				ent[t] = s.clone()
			}
		}
		for _, fn := range a.funcs {
			fl := a.table(must)[fn]
			if fl == nil {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					held, seen := fl.at[in]
					if !seen {
						continue
					}
					switch in.(type) {
					case *ssa.Go:
						held = lockSet{}
					case *ssa.Defer:
						held = a.atDefers(fn, fl, in, must)
					}
					if l, op := a.p.lockOp(c.Common()); op == "Do" {
						held = held.clone()
						held[lockName(l, op)] = true
						for _, f := range a.onceArgs(c) {
							add(f, held)
						}
						continue
					}
					for _, t := range a.calls(c) {
						add(t, held)
					}
				}
			}
		}
		for fn := range a.open {
			if must {
				ent[fn] = lockSet{}
			} else if ent[fn] == nil {
				ent[fn] = lockSet{}
			}
		}
		for fn, s := range ent {
			o, ok := a.entry[must][fn]
			if !ok || !same(o, s) {
				a.entry[must][fn] = s
				changed = true
			}
		}
	}
	return changed
}

func (a *lockAnalysis) onceArgs(c ssa.CallInstruction) []*ssa.Function {
	args := c.Common().Args
	if len(args) < 2 {
		return nil
	}
	if f := asFunc(a.p, args[1]); f != nil {
		return []*ssa.Function{f}
	}
	if f := a.p.funcValue(args[1], 0); f != nil {
		return []*ssa.Function{f}
	}
	return nil
}

// atDefers: what is held when the deferred call d runs: what is held at the end, less the releases
// deferred after it (they run before).
func (a *lockAnalysis) atDefers(fn *ssa.Function, fl *lockFlow, d ssa.Instruction, must bool) lockSet {
	var res lockSet
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.RunDefers); !ok {
				continue
			}
			held, seen := fl.at[in]
			if !seen {
				continue
			}
			h := lockSet{}
			for k := range held {
				if !fl.deferred[in][k] || fl.deferred[d][k] {
					h[k] = true
				}
			}
			if res == nil {
				res = h
			} else {
				res = join(must, res, h)
			}
		}
	}
	if res == nil {
		return lockSet{}
	}
	return res
}
