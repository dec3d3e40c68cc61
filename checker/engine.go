package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The property-simulation engine: a worklist dataflow over (block, state) pairs
// where a state is the finite set of facts a rule cares about (truth of branch
// atoms, contents of tracked cells, events that must have happened). Repository
// callees are analysed in the context of the call (inlined), so extracting or
// inlining a helper does not change the verdict. There is no solver: two
// conditions are the same only when their canonical terms are the same.

// Frame is one inlining context.
type Frame struct {
	fn     *ssa.Function
	params []string
	free   []string
	parent *Frame
	site   ssa.Instruction
	id     string
	depth  int
}

func (f *Frame) stack() string {
	var parts []string
	for x := f; x != nil; x = x.parent {
		parts = append([]string{fnName(x.fn)}, parts...)
	}
	return strings.Join(parts, " > ")
}

// State is one disjunct of the dataflow fact.
type State struct {
	atoms  map[string]bool
	mem    map[string]string
	regs   map[string]string
	ev     map[string]bool
	defers map[string][]string // frame id -> pending deferred sites, in order
}

func newState() *State {
	return &State{map[string]bool{}, map[string]string{}, map[string]string{}, map[string]bool{}, map[string][]string{}}
}

func (s *State) clone() *State {
	n := newState()
	for k, v := range s.atoms {
		n.atoms[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.regs {
		n.regs[k] = v
	}
	for k, v := range s.ev {
		n.ev[k] = v
	}
	for k, v := range s.defers {
		n.defers[k] = append([]string(nil), v...)
	}
	return n
}

func (s *State) key() string {
	var parts []string
	for k, v := range s.atoms {
		parts = append(parts, fmt.Sprintf("a|%s=%v", k, v))
	}
	for k, v := range s.mem {
		parts = append(parts, "m|"+k+"="+v)
	}
	for k, v := range s.regs {
		parts = append(parts, "r|"+k+"="+v)
	}
	for k := range s.ev {
		parts = append(parts, "e|"+k)
	}
	for k, v := range s.defers {
		parts = append(parts, "d|"+k+"="+strings.Join(v, ","))
	}
	sort.Strings(parts)
	return strings.Join(parts, "\n")
}

func (s *State) describe() string {
	var parts []string
	for k, v := range s.atoms {
		if v {
			parts = append(parts, k)
		} else {
			parts = append(parts, "!"+k)
		}
	}
	for k := range s.ev {
		parts = append(parts, "event:"+k)
	}
	sort.Strings(parts)
	return strings.Join(parts, " & ")
}

// Exit is one way a function is left.
type Exit struct {
	st      *State
	results []string
	ret     *ssa.Return // nil for panics
	panics  bool
	exits   bool // the process ended
}

// Outcome is one modelled result of a call.
type Outcome struct {
	st      *State
	results []string
	stop    bool // the call does not return
	exit    bool // the process ends: no deferred call runs
}

// Sim configures a property simulation.
type Sim struct {
	p        *Program
	maxDepth int
	// inline decides whether a repository callee is analysed in context.
	inline func(fr *Frame, callee *ssa.Function) bool
	// relevant selects the branch atoms worth remembering.
	relevant func(atom string) bool
	// track selects the types whose cells and phis are remembered path by path.
	track func(t types.Type) bool
	// onCall observes (and may model) a call. Return nil to use the default.
	onCall func(s *Sim, fr *Frame, st *State, site ssa.CallInstruction, name string, args []string) []Outcome
	// onInstr observes every other instruction.
	onInstr func(s *Sim, fr *Frame, st *State, in ssa.Instruction)
	// onReturn observes every return of every frame.
	onReturn func(s *Sim, fr *Frame, st *State, ret *ssa.Return, results []string)
	// onBack observes (and may widen) the state carried by a loop back edge.
	onBack func(s *Sim, fr *Frame, st *State, header *ssa.BasicBlock)
	// onEnter observes the state carried by any other edge.
	onEnter func(s *Sim, fr *Frame, st *State, to *ssa.BasicBlock)
	budget  int

	steps    int
	overflow string
	analysed map[*ssa.Function]bool
	live     map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	memo     map[string][]Exit
	sites    int
}

func newSim(p *Program) *Sim {
	return &Sim{p: p, maxDepth: 8, budget: 400000,
		analysed: map[*ssa.Function]bool{},
		live:     map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{},
		relevant: func(string) bool { return true },
		track:    defaultTrack,
		inline:   func(*Frame, *ssa.Function) bool { return false },
	}
}

func defaultTrack(t types.Type) bool {
	if isErrorType(t) {
		return true
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind() == types.Bool || b.Kind() == types.UntypedBool
	}
	return false
}

func trackAll(types.Type) bool { return true }

// trackScalars also follows strings path by path.
func trackScalars(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return true
	}
	return defaultTrack(t)
}

// Run analyses fn from its entry with the given parameter terms.
func (s *Sim) Run(fn *ssa.Function, st *State, params []string) []Exit {
	if params == nil {
		for _, prm := range fn.Params {
			params = append(params, "p:"+prm.Name())
		}
	}
	fr := &Frame{fn: fn, params: params, id: "0"}
	for _, fv := range fn.FreeVars {
		fr.free = append(fr.free, "&fv:"+fv.Name())
	}
	return s.run(fr, st)
}

type workItem struct {
	b  *ssa.BasicBlock
	i  int
	st *State
}

func (s *Sim) run(fr *Frame, entry *State) []Exit {
	s.analysed[fr.fn] = true
	var exits []Exit
	exitSeen := map[string]bool{}
	addExit := func(e Exit) {
		for k := range e.st.regs {
			if strings.HasPrefix(k, fr.id+"/") {
				delete(e.st.regs, k)
			}
		}
		pre := "&" + fr.id + ":"
		for k := range e.st.mem {
			if strings.HasPrefix(k, pre) {
				keep := false
				for _, r := range e.results {
					if strings.Contains(r, strings.SplitN(k, ".", 2)[0]) {
						keep = true
					}
				}
				if !keep && fr.parent != nil {
					delete(e.st.mem, k)
				}
			}
		}
		delete(e.st.defers, fr.id)
		k := fmt.Sprintf("%v|%v|%s", e.panics, e.results, e.st.key())
		if fr.parent == nil && e.ret != nil {
			k = fmt.Sprintf("%d|", e.ret.Pos()) + k
		}
		if !exitSeen[k] {
			exitSeen[k] = true
			exits = append(exits, e)
		}
	}
	seen := map[string]bool{}
	var work []workItem
	push := func(b *ssa.BasicBlock, i int, st *State) {
		if i == 0 {
			dbgHook(s, fr, b, st)
		}
		if i == 0 {
			s.prune(fr, b, st)
		}
		k := fmt.Sprintf("%d.%d|", b.Index, i) + st.key()
		if !seen[k] {
			seen[k] = true
			work = append(work, workItem{b, i, st})
		}
	}
	push(fr.fn.Blocks[0], 0, entry.clone())
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		s.steps++
		if s.steps > s.budget {
			s.overflow = fmt.Sprintf("state budget exceeded in %s", fnName(fr.fn))
			return exits
		}
		st := it.st
		b := it.b
		i := it.i
	instrs:
		for ; i < len(b.Instrs); i++ {
			switch in := b.Instrs[i].(type) {
			case *ssa.Phi:
				// handled on edge
			case *ssa.If:
				t, neg := s.atom(fr, st, in.Cond)
				for k := 0; k < 2; k++ {
					val := (k == 0) != neg
					ns, ok := s.assume(st, t, val)
					if !ok {
						continue
					}
					s.setCond(fr, ns, in.Cond, k == 0)
					s.edge(fr, b, b.Succs[k], ns)
					push(b.Succs[k], 0, ns)
				}
				break instrs
			case *ssa.Jump:
				ns := st.clone()
				s.edge(fr, b, b.Succs[0], ns)
				push(b.Succs[0], 0, ns)
				break instrs
			case *ssa.Return:
				var res []string
				for _, r := range in.Results {
					res = append(res, s.term(fr, st, r))
				}
				if s.onReturn != nil {
					s.onReturn(s, fr, st, in, res)
				}
				addExit(Exit{st: st.clone(), results: res, ret: in})
				break instrs
			case *ssa.Panic:
				// deferred calls run while panicking
				for _, o := range s.runDefers(fr, st, true) {
					if o.ev["recovered"] && fr.fn.Recover != nil {
						delete(o.ev, "recovered")
						push(fr.fn.Recover, 0, o)
						continue
					}
					addExit(Exit{st: o, panics: true})
				}
				break instrs
			case *ssa.Defer:
				st.defers[fr.id] = append(st.defers[fr.id], s.deferKey(fr, st, in))
				if s.onInstr != nil {
					s.onInstr(s, fr, st, in)
				}
			case *ssa.Go:
				if s.onInstr != nil {
					s.onInstr(s, fr, st, in)
				}
			case *ssa.RunDefers:
				outs := s.runDefers(fr, st, false)
				if len(outs) == 1 {
					st = outs[0]
					continue
				}
				for _, o := range outs {
					push(b, i+1, o)
				}
				break instrs
			case *ssa.Call:
				outs := s.call(fr, st, in, in)
				if len(outs) == 1 && !outs[0].stop {
					st = outs[0].st
					s.bind(fr, st, in, outs[0].results)
					continue
				}
				for _, o := range outs {
					if o.stop {
						if o.exit {
							addExit(Exit{st: o.st, panics: true, exits: true})
							continue
						}
						for _, ps := range s.runDefers(fr, o.st, true) {
							if ps.ev["recovered"] && fr.fn.Recover != nil {
								delete(ps.ev, "recovered")
								push(fr.fn.Recover, 0, ps)
								continue
							}
							addExit(Exit{st: ps, panics: true})
						}
						continue
					}
					s.bind(fr, o.st, in, o.results)
					push(b, i+1, o.st)
				}
				break instrs
			case *ssa.Store:
				addr := s.term(fr, st, in.Addr)
				val := s.term(fr, st, in.Val)
				if s.onInstr != nil {
					s.onInstr(s, fr, st, in)
				}
				s.store(st, addr, val, in.Val.Type())
				if _, ok := in.Val.Type().Underlying().(*types.Struct); ok && strings.HasPrefix(val, "*(") {
					// a structure copied from a memory cell: its fields are what they were there
					src := val[2:len(val)-1] + "."
					for k, v := range st.mem {
						if strings.HasPrefix(k, src) {
							st.mem[addr+"."+k[len(src):]] = v
						}
					}
				}
			case *ssa.UnOp:
				if in.Op == token.MUL {
					s.loadReg(fr, st, in)
				}
				if s.onInstr != nil {
					s.onInstr(s, fr, st, in)
				}
			case *ssa.Alloc:
				// A fresh cell per execution: forget the previous contents.
				base := s.term(fr, st, in)
				for k := range st.mem {
					if k == base || strings.HasPrefix(k, base+".") || strings.HasPrefix(k, base+"#") {
						delete(st.mem, k)
					}
				}
				if pt, ok := in.Type().Underlying().(*types.Pointer); ok && s.track(pt.Elem()) {
					st.mem[base] = zeroTerm(pt.Elem())
				}
			default:
				if s.onInstr != nil {
					s.onInstr(s, fr, st, b.Instrs[i])
				}
			}
		}
	}
	return exits
}

func zeroTerm(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "c:false"
		case u.Info()&types.IsString != 0:
			return `c:""`
		case u.Info()&types.IsNumeric != 0:
			return "c:0"
		}
	case *types.Interface, *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return "c:nil"
	}
	return "zero"
}

func (s *Sim) store(st *State, addr, val string, t types.Type) {
	if strings.HasPrefix(addr, "&") || strings.HasPrefix(addr, "p:") || strings.Contains(addr, ".") {
		if len(val) > 3000 {
			val = abridge(val)
		}
		if !s.track(t) {
			// forget anything known below
			if _, ok := st.mem[addr]; ok {
				st.mem[addr] = "untracked"
			}
			for k := range st.mem {
				if strings.HasPrefix(k, addr+".") {
					delete(st.mem, k)
				}
			}
			return
		}
		if old := st.mem[addr]; repeated(old, val) {
			return
		}
		st.mem[addr] = val
	}
}

// repeated: val applies once more to old what made old; one application stands for any number.
func repeated(old, val string) bool {
	if len(old) < 8 || len(val) <= len(old) {
		return false
	}
	i := strings.Index(val, old)
	if i <= 0 {
		return false
	}
	a, b := val[:i], val[i+len(old):]
	return len(a)+len(b) < len(old) && strings.HasPrefix(old, a) && strings.HasSuffix(old, b) && strings.Contains(a, "(")
}

// abridge replaces the innermost parts of a very long term by digests: equal terms stay equal.
func abridge(t string) string {
	for keep := 6; keep > 0 && len(t) > 3000; keep-- {
		var b strings.Builder
		depth, from := 0, 0
		quoted := false
		for i := 0; i < len(t); i++ {
			switch c := t[i]; {
			case c == '\\' && quoted:
				i++
			case c == '"':
				quoted = !quoted
			case quoted:
			case c == '(':
				depth++
				if depth == keep {
					b.WriteString(t[from : i+1])
					from = i + 1
				}
			case c == ')':
				if depth == keep {
					if inner := t[from:i]; len(inner) > 40 {
						h := fnv.New64a()
						h.Write([]byte(inner))
						fmt.Fprintf(&b, "#%x", h.Sum64())
					} else {
						b.WriteString(inner)
					}
					from = i
				}
				depth--
			}
		}
		if depth != 0 || quoted {
			return "big"
		}
		b.WriteString(t[from:])
		t = b.String()
	}
	if len(t) > 3000 {
		return "big"
	}
	return t
}

func (s *Sim) loadReg(fr *Frame, st *State, in *ssa.UnOp) {
	addr := s.term(fr, st, in.X)
	if v, ok := st.mem[addr]; ok {
		st.regs[fr.id+"/"+in.Name()] = v
	} else {
		delete(st.regs, fr.id+"/"+in.Name())
	}
}

// setCond remembers the value a branch gave to its condition while that value is live.
func (s *Sim) setCond(fr *Frame, st *State, v ssa.Value, val bool) {
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		v, val = u.X, !val
	}
	c := "c:false"
	if val {
		c = "c:true"
	}
	switch v := v.(type) {
	case *ssa.Call:
		st.regs[fr.id+"/"+v.Name()] = c
	case *ssa.Phi:
		st.regs[fr.id+"/"+v.Name()] = c
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok {
			st.regs[fmt.Sprintf("%s/%s#%d", fr.id, call.Name(), v.Index)] = c
		}
	}
}

// edge evaluates the phis of the target block.
func (s *Sim) edge(fr *Frame, from, to *ssa.BasicBlock, st *State) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	upd := map[string]string{}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		k := fr.id + "/" + ph.Name()
		if !s.track(ph.Type()) {
			continue
		}
		t := s.term(fr, st, ph.Edges[idx])
		if old, ok := st.regs[k]; ok && t != old && to.Dominates(from) && strings.Contains(t, old) && !strings.HasPrefix(old, "c:") {
			// a value derived from itself around a loop
			t = old
			if !strings.HasPrefix(old, "derived(") {
				t = "derived(" + old + ")"
			}
		}
		if len(t) > 3000 || strings.Contains(t, "phi:"+fr.id+"/"+ph.Name()+"+") {
			t = "phi:" + k + "+"
		}
		upd[k] = t
	}
	for k, v := range upd {
		st.regs[k] = v
	}
	if s.onEnter != nil && !to.Dominates(from) {
		s.onEnter(s, fr, st, to)
	}
	if to.Dominates(from) {
		s.dropLoop(fr, st, to)
		if s.onBack != nil {
			s.onBack(s, fr, st, to)
		}
	}
}

// dropLoop forgets, on a back edge, what the loop body will compute again.
func (s *Sim) dropLoop(fr *Frame, st *State, h *ssa.BasicBlock) {
	for _, b := range fr.fn.Blocks {
		if !h.Dominates(b) {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			if _, ok := v.(*ssa.Phi); ok && b == h {
				continue
			}
			k := fr.id + "/" + v.Name()
			delete(st.regs, k)
			if tup, ok := v.Type().(*types.Tuple); ok {
				for i := 0; i < tup.Len(); i++ {
					delete(st.regs, fmt.Sprintf("%s#%d", k, i))
				}
			}
			if _, ok := v.(*ssa.Alloc); ok {
				base := "&" + fr.id + ":" + v.Name()
				for m := range st.mem {
					if m == base || strings.HasPrefix(m, base+".") || strings.HasPrefix(m, base+"#") {
						delete(st.mem, m)
					}
				}
			}
		}
	}
}

// prune drops the registers that are dead on entry to b.
func (s *Sim) prune(fr *Frame, b *ssa.BasicBlock, st *State) {
	live := s.liveness(fr.fn)[b]
	for k := range st.regs {
		if strings.HasPrefix(k, fr.id+"/") {
			name := k[len(fr.id)+1:]
			if i := strings.IndexByte(name, '#'); i >= 0 {
				name = name[:i]
			}
			ok := false
			for v := range live {
				if v.Name() == name {
					ok = true
					break
				}
			}
			if !ok {
				delete(st.regs, k)
			}
		}
	}
}

func (s *Sim) liveness(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := s.live[fn]; ok {
		return l
	}
	liveIn := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	var deferred []ssa.Value
	for _, b := range fn.Blocks {
		liveIn[b] = map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				for _, a := range d.Call.Args {
					if _, ok := a.(ssa.Instruction); ok {
						deferred = append(deferred, a)
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for bi := len(fn.Blocks) - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			cur := map[ssa.Value]bool{}
			for _, sc := range b.Succs {
				for v := range liveIn[sc] {
					cur[v] = true
				}
				for _, in := range sc.Instrs {
					if ph, ok := in.(*ssa.Phi); ok {
						for i, p := range sc.Preds {
							if p == b {
								cur[ph.Edges[i]] = true
							}
						}
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if _, ok := in.(*ssa.Phi); ok {
					continue // phis are live-in: their register is set on the edge
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				var ops [12]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if *op != nil {
						cur[*op] = true
					}
				}
			}
			// the arguments of deferred calls are needed until the end
			for _, v := range deferred {
				cur[v] = true
			}
			// values computed from a live value by re-evaluation also keep their operands
			for v := range cur {
				s.addOperands(v, cur, 0)
			}
			for v := range cur {
				if !liveIn[b][v] {
					liveIn[b][v] = true
					changed = true
				}
			}
		}
	}
	s.live[fn] = liveIn
	return liveIn
}

// addOperands keeps the registers a lazily evaluated term depends on.
func (s *Sim) addOperands(v ssa.Value, cur map[ssa.Value]bool, d int) {
	if d > 10 {
		return
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return
	}
	if _, ok := v.(*ssa.Phi); ok {
		return
	}
	var ops [12]*ssa.Value
	for _, op := range in.Operands(ops[:0]) {
		if *op != nil && !cur[*op] {
			cur[*op] = true
			s.addOperands(*op, cur, d+1)
		}
	}
	if sl, ok := v.(*ssa.Slice); ok {
		if els, ok := variadic(sl); ok {
			for _, e := range els {
				if !cur[e] {
					cur[e] = true
					s.addOperands(e, cur, d+1)
				}
			}
		}
	}
}

func (s *Sim) bind(fr *Frame, st *State, call *ssa.Call, results []string) {
	if results == nil {
		return
	}
	k := fr.id + "/" + call.Name()
	if tup, ok := call.Type().(*types.Tuple); ok {
		for i := 0; i < tup.Len() && i < len(results); i++ {
			if results[i] != "" {
				st.regs[fmt.Sprintf("%s#%d", k, i)] = results[i]
			}
		}
		return
	}
	if len(results) > 0 && results[0] != "" {
		st.regs[k] = results[0]
	}
}

// siteID identifies a call site in its inlining context. It is stable under
// unrelated edits (no line numbers).
func (s *Sim) siteID(fr *Frame, in ssa.Instruction) string {
	n := 0
	for _, b := range fr.fn.Blocks {
		for _, x := range b.Instrs {
			if x == in {
				return fmt.Sprintf("@%s:%d", fr.id, n)
			}
			if _, ok := x.(ssa.CallInstruction); ok {
				n++
			}
		}
	}
	return "@?"
}

func (s *Sim) deferKey(fr *Frame, st *State, d *ssa.Defer) string {
	n := 0
	for _, b := range fr.fn.Blocks {
		for _, x := range b.Instrs {
			if x == ssa.Instruction(d) {
				return fmt.Sprint(n)
			}
			if _, ok := x.(*ssa.Defer); ok {
				n++
			}
		}
	}
	return "?"
}

func (s *Sim) deferByKey(fr *Frame, k string) *ssa.Defer {
	n := 0
	for _, b := range fr.fn.Blocks {
		for _, x := range b.Instrs {
			if d, ok := x.(*ssa.Defer); ok {
				if fmt.Sprint(n) == k {
					return d
				}
				n++
			}
		}
	}
	return nil
}

func (s *Sim) runDefers(fr *Frame, st *State, panicking bool) []*State {
	cur := []*State{st.clone()}
	list := st.defers[fr.id]
	if panicking {
		for _, c := range cur {
			c.ev["panicking"] = true
		}
	}
	for i := len(list) - 1; i >= 0; i-- {
		d := s.deferByKey(fr, list[i])
		var next []*State
		for _, c := range cur {
			c.defers[fr.id] = c.defers[fr.id][:i]
			for _, o := range s.call(fr, c, d, nil) {
				next = append(next, o.st)
			}
		}
		cur = next
	}
	if panicking {
		for _, c := range cur {
			delete(c.ev, "panicking")
		}
	}
	return cur
}

func (s *Sim) args(fr *Frame, st *State, c *ssa.CallCommon) []string {
	var args []string
	if c.IsInvoke() {
		args = append(args, s.term(fr, st, c.Value))
	} else if mc, ok := c.Value.(*ssa.MakeClosure); ok && strings.HasPrefix(mc.Fn.(*ssa.Function).Synthetic, "bound method wrapper") {
		args = append(args, s.term(fr, st, mc.Bindings[0]))
	}
	for _, a := range c.Args {
		args = append(args, s.term(fr, st, a))
	}
	return args
}

// call models one call instruction and returns its possible outcomes.
func (s *Sim) call(fr *Frame, st *State, site ssa.CallInstruction, val *ssa.Call) []Outcome {
	c := site.Common()
	name := s.p.calleeName(c)
	args := s.args(fr, st, c)
	s.sites++
	if s.onCall != nil {
		if outs := s.onCall(s, fr, st, site, name, args); outs != nil {
			return outs
		}
	}
	switch name {
	case "github.com/coveooss/multilogger/errors.Must":
		return s.must(fr, st, site)
	case "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf":
		return []Outcome{{st: st, stop: true, exit: true}}
	case "builtin recover":
		if st.ev["panicking"] {
			ns := st.clone()
			delete(ns.ev, "panicking")
			ns.ev["recovered"] = true
			return []Outcome{{st: ns, results: []string{"&panic value"}}}
		}
		return []Outcome{{st: st, results: []string{"c:nil"}}}
	}
	callee := s.p.Callee(c)
	if callee == nil || len(callee.Blocks) == 0 || !s.p.inRepo(callee) || fr.depth >= s.maxDepth || !s.inline(fr, callee) {
		return []Outcome{{st: st}}
	}
	for x := fr; x != nil; x = x.parent {
		if x.fn == callee && x.depth < fr.depth {
			// recursion: bounded to one unrolling
			return []Outcome{{st: st}}
		}
	}
	nf := &Frame{fn: callee, params: args, parent: fr, site: site, depth: fr.depth + 1, id: fr.id + s.siteID(fr, site)[1+len(fr.id):]}
	if mc := s.closure(c.Value); mc != nil && mc.Fn == callee {
		for _, b := range mc.Bindings {
			nf.free = append(nf.free, s.closureTerm(fr, st, mc, b))
		}
	}
	for len(nf.free) < len(callee.FreeVars) {
		nf.free = append(nf.free, "&fv:"+callee.FreeVars[len(nf.free)].Name())
	}
	var outs []Outcome
	for _, e := range s.run(nf, st) {
		outs = append(outs, Outcome{st: e.st, results: e.results, stop: e.panics, exit: e.exits})
	}
	return outs
}

// closure finds the MakeClosure a called value comes from.
func (s *Sim) closure(v ssa.Value) *ssa.MakeClosure {
	switch v := v.(type) {
	case *ssa.MakeClosure:
		return v
	case *ssa.UnOp:
		switch a := v.X.(type) {
		case *ssa.Alloc:
			if st := onlyStore(a); st != nil {
				return s.closure(st.Val)
			}
		case *ssa.FreeVar:
			if al := freeVarAlloc(a); al != nil {
				if st := onlyStore(al); st != nil {
					return s.closure(st.Val)
				}
			}
		}
	case *ssa.FreeVar:
		if b := freeVarBinding(v); b != nil {
			return s.closure(b)
		}
	}
	return nil
}

// closureTerm evaluates a closure binding; the closure may have been created in an outer frame.
func (s *Sim) closureTerm(fr *Frame, st *State, mc *ssa.MakeClosure, b ssa.Value) string {
	for x := fr; x != nil; x = x.parent {
		if x.fn == mc.Parent() {
			return s.term(x, st, b)
		}
	}
	return "&fv:" + b.Name()
}

// must models errors.Must: it returns only if the trailing error is nil.
func (s *Sim) must(fr *Frame, st *State, site ssa.CallInstruction) []Outcome {
	c := site.Common()
	els, ok := []ssa.Value(nil), false
	if len(c.Args) > 0 {
		els, ok = variadic(c.Args[len(c.Args)-1])
	}
	if !ok || len(els) == 0 {
		return []Outcome{{st: st}}
	}
	var outs []Outcome
	last := els[len(els)-1]
	res := s.term(fr, st, els[0])
	if isErrorType(unwrap(last).Type()) {
		t := s.term(fr, st, last)
		if ns, ok := s.assume(st, nilAtom(t), true); ok {
			outs = append(outs, Outcome{st: ns, results: []string{res}})
		}
		if ns, ok := s.assume(st, nilAtom(t), false); ok {
			outs = append(outs, Outcome{st: ns, stop: true})
		}
		return outs
	}
	return []Outcome{{st: st, results: []string{res}}}
}

func nilAtom(t string) string { return "nil?(" + t + ")" }

// assume adds the fact atom=val; ok is false when it contradicts the state.
func (s *Sim) assume(st *State, atom string, val bool) (*State, bool) {
	if v, known := s.decide(st, atom); known {
		if v != val {
			return nil, false
		}
		return st.clone(), true
	}
	ns := st.clone()
	if s.relevant(atom) {
		ns.atoms[atom] = val
	}
	return ns, true
}

// decide evaluates an atom in a state.
func (s *Sim) decide(st *State, atom string) (bool, bool) {
	switch atom {
	case "c:true":
		return true, true
	case "c:false":
		return false, true
	}
	if strings.HasPrefix(atom, "nil?(") {
		t := atom[5 : len(atom)-1]
		if t == "c:nil" {
			return true, true
		}
		if neverNil(t) {
			return false, true
		}
	}
	if strings.HasPrefix(atom, "eq(") {
		a, b := splitPair(atom[3 : len(atom)-1])
		if a == b && a != "" {
			return true, true
		}
		if strings.HasPrefix(a, "c:") && strings.HasPrefix(b, "c:") {
			return a == b, true
		}
	}
	v, ok := st.atoms[atom]
	return v, ok
}

func splitPair(s string) (string, string) { return splitAt(s, ';') }

// splitAt splits a term at a separator that is not inside of a part of it.
func splitAt(s string, sep byte) (string, string) {
	d := 0
	q := false
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			if i == 0 || s[i-1] != '\\' {
				q = !q
			}
		case '(', '[', '{':
			if !q {
				d++
			}
		case ')', ']', '}':
			if !q {
				d--
			}
		case sep:
			if d == 0 && !q {
				return s[:i], s[i+1:]
			}
		}
	}
	return s, ""
}

func neverNil(t string) bool {
	return strings.HasPrefix(t, "&") || strings.HasPrefix(t, "mk(") || strings.HasPrefix(t, "closure:") ||
		strings.HasPrefix(t, "call:fmt.Errorf(") || strings.HasPrefix(t, "call:errors.New(") ||
		strings.HasPrefix(t, "fn:")
}

// atom canonicalises a boolean value into (atom, negated).
func (s *Sim) atom(fr *Frame, st *State, v ssa.Value) (string, bool) {
	return canonAtom(s.term(fr, st, v))
}

func canonAtom(t string) (string, bool) {
	neg := false
	for {
		if strings.HasPrefix(t, "!(") && strings.HasSuffix(t, ")") {
			t = t[2 : len(t)-1]
			neg = !neg
			continue
		}
		break
	}
	return t, neg
}

// term evaluates an SSA value to its canonical term in a frame and state.
func (s *Sim) term(fr *Frame, st *State, v ssa.Value) string {
	return s.termD(fr, st, v, 0)
}

func (s *Sim) termD(fr *Frame, st *State, v ssa.Value, d int) string {
	if d > 25 {
		return "deep"
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return "c:nil"
		}
		if x.Value == nil {
			return "zero"
		}
		if x.Value.Kind() == constant.String {
			return "c:" + fmt.Sprintf("%q", constant.StringVal(x.Value))
		}
		return "c:" + x.Value.ExactString()
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == x && i < len(fr.params) {
				return fr.params[i]
			}
		}
		return "p:" + x.Name()
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == x && i < len(fr.free) {
				return fr.free[i]
			}
		}
		return "&fv:" + x.Name()
	case *ssa.Global:
		return "&g:" + shortPkg(x.Pkg.Pkg.Path()) + "." + x.Name()
	case *ssa.Function:
		return "fn:" + fnName(x)
	case *ssa.Builtin:
		return "builtin:" + x.Name()
	case *ssa.Alloc:
		return "&" + fr.id + ":" + x.Name()
	case *ssa.Phi:
		if t, ok := st.regs[fr.id+"/"+x.Name()]; ok {
			return t
		}
		return "phi:" + fr.id + "/" + x.Name()
	case *ssa.Call:
		if t, ok := st.regs[fr.id+"/"+x.Name()]; ok {
			return t
		}
		return s.callTerm(fr, st, x, d)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if t, ok := st.regs[fmt.Sprintf("%s/%s#%d", fr.id, c.Name(), x.Index)]; ok {
				return t
			}
		}
		return fmt.Sprintf("%s#%d", s.termD(fr, st, x.Tuple, d+1), x.Index)
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			t, neg := canonAtom(s.termD(fr, st, x.X, d+1))
			if neg {
				return t
			}
			switch t {
			case "c:true":
				return "c:false"
			case "c:false":
				return "c:true"
			}
			return "!(" + t + ")"
		case token.MUL:
			if t, ok := st.regs[fr.id+"/"+x.Name()]; ok {
				return t
			}
			return deref(s.termD(fr, st, x.X, d+1))
		}
		return x.Op.String() + "(" + s.termD(fr, st, x.X, d+1) + ")"
	case *ssa.BinOp:
		return binTerm(x.Op, s.termD(fr, st, x.X, d+1), s.termD(fr, st, x.Y, d+1))
	case *ssa.FieldAddr:
		return s.termD(fr, st, x.X, d+1) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.Field:
		base := s.termD(fr, st, x.X, d+1)
		f := fieldName(x.X.Type(), x.Field)
		if strings.HasPrefix(base, "*(") {
			addr := base[2:len(base)-1] + "." + f
			if v, ok := st.mem[addr]; ok {
				return v
			}
			return deref(addr)
		}
		return base + "." + f
	case *ssa.IndexAddr:
		return s.termD(fr, st, x.X, d+1) + "#" + s.termD(fr, st, x.Index, d+1)
	case *ssa.Index:
		return s.termD(fr, st, x.X, d+1) + "#" + s.termD(fr, st, x.Index, d+1)
	case *ssa.Lookup:
		if t, ok := st.regs[fr.id+"/"+x.Name()]; ok {
			return t
		}
		t := s.termD(fr, st, x.X, d+1) + "[" + s.termD(fr, st, x.Index, d+1) + "]"
		return t
	case *ssa.MakeInterface:
		t := s.termD(fr, st, x.X, d+1)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok && !strings.HasPrefix(t, "c:") && types.IsInterface(x.Type()) && isErrorType(x.Type()) {
			return "mk(" + t + ")"
		}
		return t
	case *ssa.ChangeInterface:
		return s.termD(fr, st, x.X, d+1)
	case *ssa.ChangeType:
		return s.termD(fr, st, x.X, d+1)
	case *ssa.Convert:
		return s.termD(fr, st, x.X, d+1)
	case *ssa.TypeAssert:
		t := s.termD(fr, st, x.X, d+1)
		if x.CommaOk {
			return "assert<" + shortType(x.AssertedType) + ">(" + t + ")"
		}
		return t
	case *ssa.Slice:
		if els, ok := variadic(x); ok {
			var ts []string
			for _, e := range els {
				ts = append(ts, s.termD(fr, st, e, d+1))
			}
			return "va(" + strings.Join(ts, ",") + ")"
		}
		t := s.termD(fr, st, x.X, d+1)
		if x.Low == nil && x.High == nil {
			return t
		}
		lo, hi := "", ""
		if x.Low != nil {
			lo = s.termD(fr, st, x.Low, d+1)
		}
		if x.High != nil {
			hi = s.termD(fr, st, x.High, d+1)
		}
		return "slice(" + t + "," + lo + "," + hi + ")"
	case *ssa.MakeClosure:
		return "closure:" + fnName(x.Fn.(*ssa.Function))
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		return "mk(" + fr.id + "/" + v.Name() + ")"
	case *ssa.Next:
		return "next(" + s.termD(fr, st, x.Iter, d+1) + ")"
	case *ssa.Range:
		return "range(" + s.termD(fr, st, x.X, d+1) + ")"
	}
	return fr.id + "/" + v.Name()
}

func deref(addr string) string {
	if strings.HasPrefix(addr, "&g:") {
		return addr[1:]
	}
	// a field of something reached by pointer: the canonical term is the path itself
	if i := strings.LastIndexAny(addr, ".#"); i > 0 && !strings.HasSuffix(addr, ")") {
		return strings.TrimPrefix(addr, "&") // what a field of a local holds, not its address
	}
	return "*(" + addr + ")"
}

func binTerm(op token.Token, a, b string) string {
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		var t string
		switch {
		case b == "c:nil":
			t = nilAtom(a)
		case a == "c:nil":
			t = nilAtom(b)
		case b == "c:true":
			t = a
		case a == "c:true":
			t = b
		case b == "c:false":
			t, neg = a, !neg
		case a == "c:false":
			t, neg = b, !neg
		default:
			if a > b {
				a, b = b, a
			}
			t = "eq(" + a + ";" + b + ")"
		}
		if neg {
			return "!(" + t + ")"
		}
		return t
	case token.LSS:
		return "lt(" + a + ";" + b + ")"
	case token.GTR:
		return "lt(" + b + ";" + a + ")"
	case token.LEQ:
		return "!(lt(" + b + ";" + a + "))"
	case token.GEQ:
		return "!(lt(" + a + ";" + b + "))"
	}
	return op.String() + "(" + a + "," + b + ")"
}

// pureCalls are library functions whose result depends only on their arguments,
// so equal calls denote equal values.
var pureCalls = map[string]bool{
	"strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Contains": true, "strings.TrimSpace": true,
	"strings.TrimSuffix": true, "strings.TrimPrefix": true, "builtin len": true, "path.Ext": true, "filepath.Ext": true,
	"path/filepath.Ext": true, "path/filepath.Dir": true, "path/filepath.Base": true, "strings.ToLower": true, "strings.ToUpper": true,
	"path/filepath.Join": true, "strings.Split": true,
}

func (s *Sim) callTerm(fr *Frame, st *State, x *ssa.Call, d int) string {
	name := s.p.calleeName(&x.Call)
	var args []string
	if x.Call.IsInvoke() {
		args = append(args, s.termD(fr, st, x.Call.Value, d+1))
	}
	for _, a := range x.Call.Args {
		args = append(args, s.termD(fr, st, a, d+1))
	}
	t := "call:" + name + "(" + strings.Join(args, ",") + ")"
	if pureCalls[name] || s.pureRepo(s.p.Callee(&x.Call)) {
		return t
	}
	return t + s.siteID(fr, x)
}

// pureRepo holds for repository functions returning a single bool/string computed without
// stores or impure calls.
func (s *Sim) pureRepo(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 || !s.p.inRepo(f) || len(f.FreeVars) > 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send:
				if st, ok := in.(*ssa.Store); ok {
					if _, ok := st.Addr.(*ssa.IndexAddr); ok {
						continue
					}
				}
				return false
			case *ssa.Call:
				n := s.p.calleeName(&in.Call)
				if !pureCalls[n] {
					if c := s.p.Callee(&in.Call); c == nil || c == f || !s.pureRepo(c) {
						return false
					}
				}
			}
		}
	}
	return true
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		return varName(st.Field(i))
	}
	return fmt.Sprint(i)
}
