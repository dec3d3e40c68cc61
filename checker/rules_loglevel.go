package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C31", "Forward flow of the settings of the logs (levels, flags and variables configuring the loggers) through values, variables, fields, parameters and results; everything executed only for some of their values is an obligation: nothing outside of the region is changed, printed or returned; the logging functions of templates are followed to the method of the logger and to the empty text.", ruleLogLevel,
		"methods of the loggers do not change what they are given, write to the error stream or to the log file only (Print excepted), and return only errors about the logs",
		"reading a level, formatting and regular expressions have no effect")
}

type levelFlow struct {
	p       *Program
	r       *Report
	vals    map[ssa.Value]string
	globals map[*ssa.Global]string
	fields  map[*types.Var]string
	results map[*ssa.Function]string
	regions map[*ssa.If]map[*ssa.BasicBlock]bool
	parsers map[*ssa.Function]bool // of the rules having a name
	unnamed map[*ssa.Function]bool // of the others
	grown   bool
	final   bool
	sources int
	quiets  map[*ssa.Function]bool // closures made in a region
	called  map[*ssa.Function]bool // functions followed in a region
	done    map[string]bool
	params  []func(*ssa.Parameter) *ssa.Global
	busy    map[*ssa.Function]bool
}

// logMethod tells whether a call is made on a logger, and the name of the method.
func logMethod(n string) (string, bool) {
	for _, pkg := range []string{"coveooss/multilogger", "sirupsen/logrus"} {
		if i := strings.Index(n, pkg); i >= 0 {
			rest := n[i+len(pkg):]
			if strings.HasPrefix(rest, "/color") || strings.HasPrefix(rest, "/reutils") {
				return "", false
			}
			return rest[strings.LastIndex(rest, ".")+1:], true
		}
	}
	return "", false
}

var levelQueries = map[string]bool{"IsLevelEnabled": true, "GetLevel": true, "GetHookLevel": true, "GetDefaultConsoleHookLevel": true, "GetHookLevels": true}

// endsLog: the methods of the loggers that do more than logging.
func endsLog(m string) bool {
	return hasPrefixAny(m, "Fatal", "Panic", "Exit", "Print", "SetStdout", "SetOutput", "SetAllOutputs")
}

// loudCall: calls to the libraries seen from the outside.
func loudCall(n string) bool {
	if m, ok := logMethod(n); ok {
		return hasPrefixAny(m, "Fatal", "Panic", "Exit") && !strings.Contains(n, "multilogger/errors") || strings.HasPrefix(m, "Print") && !strings.Contains(n, "multilogger/errors")
	}
	switch n {
	case "os.Getenv", "os.LookupEnv", "os.Getwd", "os.Stat", "os.Lstat", "os.IsNotExist", "os.IsExist", "os.ExpandEnv", "os.Environ", "os.Hostname", "os.Getpid", "os.ReadFile", "os.ReadDir", "os.UserHomeDir", "os.TempDir":
		return false
	case "fmt.Print", "fmt.Printf", "fmt.Println", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "builtin print", "builtin println", "builtin panic", "io.WriteString", "io.Copy", "io/ioutil.WriteFile", "runtime.Goexit", "math/rand.Seed":
		return true
	}
	return hasPrefixAny(n, "os.", "(*os.File).", "os/exec.", "(*os/exec.Cmd).", "syscall.", "net.", "net/http.", "os/signal.")
}

func (f *levelFlow) taint(v ssa.Value, why string) {
	if v == nil {
		return
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return
	}
	if _, ok := f.vals[v]; !ok {
		f.vals[v] = why
		f.grown = true
	}
}

func (f *levelFlow) taintGlobal(g *ssa.Global, why string) {
	if _, ok := f.globals[g]; !ok {
		f.globals[g] = why
		f.grown = true
	}
}

func (f *levelFlow) bad(kind string, in ssa.Instruction, format string, a ...interface{}) {
	if f.final {
		f.r.bad("loglevel|"+fnName(in.Parent())+"|"+kind, f.p.instrPos(in), format, a...)
	}
}

func fieldVar(t types.Type, i int) *types.Var {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i)
	}
	return nil
}

// base follows an address or a container to what holds the storage.
func base(v ssa.Value) ssa.Value {
	for i := 0; i < 30; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return v
		}
	}
	return v
}

// stored records that something depending on the settings is put at addr.
func (f *levelFlow) stored(addr ssa.Value, in ssa.Instruction, why string) {
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		if _, local := base(addr).(*ssa.Alloc); !local {
			if fv := fieldVar(fa.X.Type(), fa.Field); fv != nil && fv.Pkg() != nil && strings.HasPrefix(fv.Pkg().Path(), modPath) {
				if _, ok := f.fields[fv]; !ok {
					f.fields[fv] = why
					f.grown = true
				}
				return
			}
		}
	}
	b := base(addr)
	if ld, ok := b.(*ssa.UnOp); ok && ld.Op == token.MUL { // what a variable or a field designates
		switch a := ld.X.(type) {
		case *ssa.Global:
			f.taintGlobal(a, why)
			return
		case *ssa.Alloc, *ssa.FreeVar:
			b = a
		case *ssa.FieldAddr:
			f.stored(a, in, why)
			return
		}
	}
	switch b := b.(type) {
	case *ssa.Alloc:
		f.taint(b, why)
	case *ssa.Global:
		f.taintGlobal(b, why)
	case *ssa.FreeVar:
		f.taint(b, why)
		if al := freeVarAlloc(b); al != nil {
			f.taint(al, why)
		}
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.Call, *ssa.Phi:
		f.taint(b.(ssa.Value), why)
	default:
		f.bad("stored", in, "%s stores what depends on the settings of the logs (%s) in what its caller gave it", fnName(in.Parent()), why)
	}
}

func (f *levelFlow) run() {
	p := f.p
	for round := 0; round < 40; round++ {
		f.grown = false
		f.done = map[string]bool{}
		for _, fn := range p.Funcs {
			if len(fn.Blocks) > 0 {
				f.function(fn)
			}
		}
		if !f.grown {
			break
		}
	}
	f.final = true
	f.done = map[string]bool{}
	for _, fn := range p.Funcs {
		if len(fn.Blocks) > 0 {
			f.function(fn)
		}
	}
}

// source tells whether a call reads a setting of the logs.
func (f *levelFlow) source(c *ssa.CallCommon) string {
	n := f.p.calleeName(c)
	if m, ok := logMethod(n); ok {
		if levelQueries[m] {
			return "the level of the logs"
		}
		return ""
	}
	switch {
	case n == "os.Getenv" || n == "os.LookupEnv":
		if k, ok := constString(c.Args[0]); ok && strings.Contains(k, "LOG") {
			return "the variable " + k
		}
	case strings.HasSuffix(n, ".Flag") && strings.Contains(n, "kingpin"):
		for _, a := range c.Args {
			if k, ok := constString(a); ok {
				for _, part := range strings.Split(k, "-") {
					if part == "log" {
						return "the option --" + k
					}
				}
				return ""
			}
		}
	}
	return ""
}

func constString(v ssa.Value) (string, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value), true
	}
	return "", false
}

func (f *levelFlow) function(fn *ssa.Function) {
	p := f.p
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			// what uses a value depending on the settings
			why := ""
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if g, ok := (*op).(*ssa.Global); ok {
					if w, ok := f.globals[g]; ok && why == "" {
						if st, isStore := in.(*ssa.Store); !isStore || st.Addr != g {
							why = w
						}
					}
					continue
				}
				if w, ok := f.vals[*op]; ok && why == "" {
					if st, isStore := in.(*ssa.Store); isStore && st.Addr == *op {
						continue // being stored to
					}
					why = w
				}
			}
			switch in := in.(type) {
			case *ssa.Call, *ssa.Defer, *ssa.Go:
				f.call(in.(ssa.CallInstruction), why)
			case *ssa.FieldAddr:
				if fv := fieldVar(in.X.Type(), in.Field); fv != nil {
					if w, ok := f.fields[fv]; ok {
						why = w
					}
				}
				if why != "" {
					f.taint(in, why)
				}
			case *ssa.Field:
				if fv := fieldVar(in.X.Type(), in.Field); fv != nil {
					if w, ok := f.fields[fv]; ok {
						why = w
					}
				}
				if why != "" {
					f.taint(in, why)
				}
			case *ssa.Store:
				if why != "" {
					f.stored(in.Addr, in, why)
				}
			case *ssa.MapUpdate:
				if why != "" && (f.vals[in.Key] != "" || f.vals[in.Value] != "") {
					f.stored(in.Map, in, why)
				}
			case *ssa.Send:
				if why != "" {
					f.bad("sent", in, "%s sends what depends on the settings of the logs (%s)", fnName(fn), why)
				}
			case *ssa.Panic:
				if why != "" {
					f.bad("panic", in, "%s panics with what depends on the settings of the logs (%s)", fnName(fn), why)
				}
			case *ssa.Return:
				if why != "" {
					f.result(fn, in, why)
				}
			case *ssa.If:
				if why != "" {
					f.region(in, why)
				}
			case *ssa.MakeClosure:
				cl := in.Fn.(*ssa.Function)
				for i, bd := range in.Bindings {
					if w, ok := f.vals[bd]; ok && i < len(cl.FreeVars) {
						f.taint(cl.FreeVars[i], w)
					}
				}
			case *ssa.Jump, *ssa.RunDefers, *ssa.DebugRef:
			case ssa.Value:
				if why != "" {
					f.taint(in, why)
				}
			}
		}
	}
	_ = p
}

func (f *levelFlow) result(fn *ssa.Function, in ssa.Instruction, why string) {
	if _, ok := f.results[fn]; !ok {
		f.results[fn] = why
		f.grown = true
	}
	if !f.final || f.quiets[fn] {
		return
	}
	// a function that only the templates or other programs call
	called := false
	for _, g := range f.p.Funcs {
		callsIn(g, func(c ssa.CallInstruction) {
			for _, cal := range f.p.Callees(c.Common()) {
				if f.p.realFunc(cal) == fn {
					called = true
				}
			}
		})
	}
	if fnName(fn) == "main.main" || fn.Signature.Results().Len() == 0 {
		return
	}
	if !called {
		f.bad("returned", in, "what %s returns depends on the settings of the logs (%s)", fnName(fn), why)
	}
}

func (f *levelFlow) call(in ssa.CallInstruction, why string) {
	c := in.Common()
	p := f.p
	val, _ := in.(*ssa.Call)
	if src := f.source(c); src != "" {
		if f.final {
			f.sources++
			f.r.sample("%s: %s", p.instrPos(in), src)
		}
		if val != nil {
			f.taint(val, src)
		}
		return
	}
	n := p.calleeName(c)
	for _, cal := range p.Callees(c) {
		cal = p.realFunc(cal)
		if w, ok := f.results[cal]; ok && val != nil {
			f.taint(val, w)
		}
	}
	if why == "" {
		return
	}
	if m, ok := logMethod(n); ok && !endsLog(m) || ok && strings.Contains(n, "multilogger/errors") {
		if val != nil {
			f.taint(val, why)
		}
		return
	}
	if strings.Contains(n, "kingpin") {
		if val != nil {
			f.taint(val, why)
		}
		return
	}
	repo := false
	for _, cal := range p.Callees(c) {
		cal = p.realFunc(cal)
		if cal == nil || !p.inRepo(cal) || len(cal.Blocks) == 0 {
			continue
		}
		repo = true
		args := c.Args
		off := len(cal.Params) - len(args)
		for i, a := range args {
			if w := f.whyOf(a); w != "" && i+off >= 0 && i+off < len(cal.Params) {
				f.taint(cal.Params[i+off], w)
			}
		}
	}
	if repo {
		return
	}
	if loudCall(n) || endsLogName(n) {
		f.bad("call "+n, in, "%s gives what depends on the settings of the logs (%s) to %s", fnName(in.Parent()), why, n)
		return
	}
	if val != nil {
		f.taint(val, why)
	}
	for _, i := range libWrites[n] {
		if i < len(c.Args) {
			f.stored(c.Args[i], in, why)
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "copy" {
		f.stored(c.Args[0], in, why)
	}
}

func endsLogName(n string) bool {
	m, ok := logMethod(n)
	return ok && endsLog(m) && !strings.Contains(n, "multilogger/errors")
}

func (f *levelFlow) whyOf(v ssa.Value) string {
	if g, ok := v.(*ssa.Global); ok {
		return f.globals[g]
	}
	return f.vals[v]
}

// region checks what is executed for some values of a condition only.
func (f *levelFlow) region(br *ssa.If, why string) {
	b := br.Block()
	fn := b.Parent()
	join := postDominator(b)
	region := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		if x == join || region[x] {
			return
		}
		region[x] = true
		for _, s := range x.Succs {
			walk(s)
		}
	}
	for _, s := range b.Succs {
		walk(s)
	}
	if f.final {
		f.r.count("regions depending on the settings of the logs", 1)
	}
	// values chosen by the condition
	phis := func(blk *ssa.BasicBlock) {
		for _, in := range blk.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			var first ssa.Value
			differ := false
			for i, pr := range blk.Preds {
				if pr != b && !region[pr] {
					continue
				}
				e := phi.Edges[i]
				if first == nil {
					first = e
				} else if !sameConst(first, e) {
					differ = true
				}
			}
			if differ {
				f.taint(phi, why)
			}
		}
	}
	if join != nil {
		phis(join)
	}
	local := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && in.Parent() == fn && region[in.Block()]
	}
	var rets []*ssa.Return
	for blk := range region {
		if blk == b { // the condition of a loop
			continue
		}
		for _, in := range blk.Instrs {
			if ret, ok := in.(*ssa.Return); ok {
				rets = append(rets, ret)
				continue
			}
			f.quiet(in, local, why, named(blk))
		}
	}
	sort.Slice(rets, func(i, j int) bool { return rets[i].Block().Index < rets[j].Block().Index })
	if len(rets) > 1 {
		for i := range rets[0].Results {
			for _, r := range rets[1:] {
				if !sameConst(rets[0].Results[i], r.Results[i]) && !sameCell(rets[0].Results[i], r.Results[i], f) {
					f.result(fn, r, why)
				}
			}
		}
	} else if len(rets) == 1 && join == nil && len(rets[0].Results) > 0 {
		// the other branch panics or never ends; a panic is reported by itself
		_ = rets
	}
}

func sameConst(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	if ok1 && ok2 {
		if x.Value == nil || y.Value == nil {
			return x.Value == nil && y.Value == nil
		}
		return x.Value.ExactString() == y.Value.ExactString()
	}
	return false
}

// sameCell: the same variable, which nothing depending on the settings changes.
func sameCell(a, b ssa.Value, f *levelFlow) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && x.X == y.X && f.vals[x.X] == ""
}

// postDominator gives the first block every path from b goes through (nil: the end of the function).
func postDominator(b *ssa.BasicBlock) *ssa.BasicBlock {
	n := len(b.Parent().Blocks)
	pd := make([]map[int]bool, n)
	exit := func(x *ssa.BasicBlock) bool { return len(x.Succs) == 0 }
	for _, x := range b.Parent().Blocks {
		m := map[int]bool{}
		if exit(x) {
			m[x.Index] = true
		} else {
			for i := 0; i < n; i++ {
				m[i] = true
			}
		}
		pd[x.Index] = m
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			x := b.Parent().Blocks[i]
			if exit(x) {
				continue
			}
			m := map[int]bool{}
			for j := range pd[x.Succs[0].Index] {
				all := true
				for _, s := range x.Succs[1:] {
					if !pd[s.Index][j] {
						all = false
					}
				}
				if all {
					m[j] = true
				}
			}
			m[i] = true
			if len(m) != len(pd[i]) {
				pd[i] = m
				ch = true
			}
		}
	}
	// the closest: the one post-dominated by all the others
	var best *ssa.BasicBlock
	for j := range pd[b.Index] {
		if j == b.Index {
			continue
		}
		x := b.Parent().Blocks[j]
		if best == nil || len(pd[j]) > len(pd[best.Index]) {
			best = x
		}
	}
	return best
}

// quiet checks an instruction executed only for some settings of the logs.
func (f *levelFlow) quiet(in ssa.Instruction, local func(ssa.Value) bool, why string, named bool) {
	fn := in.Parent()
	change := func(target ssa.Value, what string) {
		b := base(target)
		if ld, ok := b.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if al, ok := ld.X.(*ssa.Alloc); ok && local(al) {
				return
			}
			if g, ok := ld.X.(*ssa.Global); ok {
				f.taintGlobal(g, why)
				return
			}
		}
		if local(b) {
			if c, ok := b.(*ssa.Call); !ok || !f.shares(c) {
				return
			}
		}
		switch b := b.(type) {
		case *ssa.Global:
			f.taintGlobal(b, why)
		case *ssa.Alloc:
			f.taint(b, why)
		case *ssa.FreeVar:
			f.taint(b, why)
			if al := freeVarAlloc(b); al != nil {
				f.taint(al, why)
			}
		case *ssa.MakeMap, *ssa.MakeSlice:
			f.taint(b.(ssa.Value), why)
		case *ssa.Call:
			if f.shares(b) {
				f.bad(what, in, "%s changes what is not only used by the logs (%s) when %s", fnName(fn), what, whenText(why))
			}
			f.taint(b, why)
		case *ssa.Const:
		case *ssa.Parameter:
			if len(f.params) > 0 {
				if g := f.params[len(f.params)-1](b); g != nil {
					f.taintGlobal(g, why)
					return
				}
			}
			f.bad(what, in, "%s changes what is not only used by the logs (%s) when %s", fnName(fn), what, whenText(why))
		default:
			f.bad(what, in, "%s changes what is not only used by the logs (%s) when %s", fnName(fn), what, whenText(why))
		}
	}
	switch in := in.(type) {
	case *ssa.Store:
		change(in.Addr, "store")
	case *ssa.MapUpdate:
		change(in.Map, "map update")
	case *ssa.Send:
		f.bad("send", in, "%s sends on a channel when %s", fnName(fn), whenText(why))
	case *ssa.Panic:
		f.bad("panic", in, "%s panics when %s", fnName(fn), whenText(why))
	case *ssa.Go, *ssa.Defer, *ssa.Call:
		f.quietCall(in.(ssa.CallInstruction), local, change, why, named)
	}
}

func whenText(why string) string { return "the settings of the logs ask for it (" + why + ")" }

// shares tells whether the result of a call may be storage others have.
func (f *levelFlow) shares(c *ssa.Call) bool {
	for _, cal := range f.p.Callees(&c.Call) {
		cal = f.p.realFunc(cal)
		if !f.p.inRepo(cal) || len(cal.Blocks) == 0 {
			continue
		}
		for _, rs := range f.p.effectsOf().sum(cal).results {
			for l := range rs.direct {
				if l.k == 'g' {
					return true
				}
				if i, ok := l.v.(int); ok && l.k == 'p' && i < len(c.Call.Args) {
					return true
				}
			}
		}
	}
	return false
}

func (f *levelFlow) quietCall(in ssa.CallInstruction, local func(ssa.Value) bool, change func(ssa.Value, string), why string, isNamed bool) {
	p := f.p
	c := in.Common()
	n := p.calleeName(c)
	fn := in.Parent()
	// closures handed over or deferred are executed in the region
	for _, op := range append(append([]ssa.Value{}, c.Args...), c.Value) {
		if mc, ok := op.(*ssa.MakeClosure); ok {
			f.quietBody(p.realFunc(mc.Fn.(*ssa.Function)), mc, local, why, isNamed)
		}
	}
	if m, ok := logMethod(n); ok {
		if endsLogName(n) {
			f.bad("log "+m, in, "%s calls %s, which does more than logging, when %s", fnName(fn), n, whenText(why))
		}
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if !capped(c.Args[0]) && !freshIn(c.Args[0], local, 0) {
				change(c.Args[0], "append")
			}
		case "copy", "delete", "clear", "close":
			change(c.Args[0], b.Name())
		case "panic":
			f.bad("panic", in, "%s panics when %s", fnName(fn), whenText(why))
		}
		return
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok && p.inRepo(p.realFunc(mc.Fn.(*ssa.Function))) {
		return
	}
	cals := p.Callees(c)
	if len(cals) == 0 && !c.IsInvoke() {
		cals = f.dynamic(c, isNamed)
	}
	for _, cal := range cals {
		cal = p.realFunc(cal)
		if !p.inRepo(cal) || len(cal.Blocks) == 0 {
			continue
		}
		args := c.Args
		if c.IsInvoke() {
			args = append([]ssa.Value{c.Value}, args...)
		}
		f.quietCallee(cal, args, local, why, isNamed)
	}
	if len(cals) > 0 && p.inRepo(p.realFunc(cals[0])) {
		return
	}
	if loudCall(n) {
		f.bad("call "+n, in, "%s calls %s when %s", fnName(fn), n, whenText(why))
	}
	for _, i := range libWrites[n] {
		if i < len(c.Args) {
			change(c.Args[i], n)
		}
	}
}

// quietCallee checks a function called in the region.
func (f *levelFlow) quietCallee(fn *ssa.Function, args []ssa.Value, local func(ssa.Value) bool, why string, isNamed bool) {
	if f.busy[fn] {
		return
	}
	off := len(fn.Params) - len(args)
	given := make([]bool, len(fn.Params))
	key := fnName(fn) + "|" + why
	for i := range fn.Params {
		if !holdsRefs(fn.Params[i].Type()) {
			given[i] = true
		} else if j := i - off; j >= 0 && j < len(args) {
			given[i] = local(base(args[j]))
			if c, ok := base(args[j]).(*ssa.Const); ok && c.Value == nil {
				given[i] = true
			}
			if g := readGlobal(args[j]); g != nil && !given[i] {
				key += "|" + g.Name()
			}
		}
		if given[i] {
			key += "1"
		} else {
			key += "0"
		}
	}
	if isNamed {
		key += "n"
	}
	if f.done[key] {
		return
	}
	f.done[key] = true
	f.busy[fn] = true
	defer delete(f.busy, fn)
	f.called[fn] = true
	inner := func(v ssa.Value) bool {
		if prm, ok := v.(*ssa.Parameter); ok {
			for i, x := range fn.Params {
				if x == prm {
					return given[i]
				}
			}
		}
		in, ok := v.(ssa.Instruction)
		return ok && in.Parent() == fn
	}
	f.params = append(f.params, func(prm *ssa.Parameter) *ssa.Global {
		for i, x := range fn.Params {
			if j := i - off; x == prm && j >= 0 && j < len(args) {
				if q, ok := base(args[j]).(*ssa.Parameter); ok && len(f.params) > 1 {
					return f.params[len(f.params)-2](q)
				}
				return readGlobal(args[j])
			}
		}
		return nil
	})
	defer func() { f.params = f.params[:len(f.params)-1] }()
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f.quiet(in, inner, why, isNamed || named(b))
		}
	}
}

// readGlobal gives the package variable a value is read from.
func readGlobal(v ssa.Value) *ssa.Global {
	b := base(v)
	if ld, ok := b.(*ssa.UnOp); ok && ld.Op == token.MUL {
		b = base(ld.X)
	}
	g, _ := b.(*ssa.Global)
	return g
}

// freshIn tells whether a slice is made in the region.
func freshIn(v ssa.Value, local func(ssa.Value) bool, depth int) bool {
	if depth > 10 {
		return false
	}
	v = base(v)
	if c, ok := v.(*ssa.Const); ok {
		return c.IsNil()
	}
	if phi, ok := v.(*ssa.Phi); ok && local(v) {
		for _, e := range phi.Edges {
			if e != v && !freshIn(e, local, depth+1) {
				return false
			}
		}
		return true
	}
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return depth > 5 || freshIn(c.Call.Args[0], local, depth+1)
		}
	}
	return local(v)
}

// quietBody checks the body of a closure made in the region.
func (f *levelFlow) quietBody(fn *ssa.Function, mc *ssa.MakeClosure, local func(ssa.Value) bool, why string, isNamed bool) {
	if fn == nil || len(fn.Blocks) == 0 || !f.p.inRepo(fn) || f.busy[fn] {
		return
	}
	f.busy[fn] = true
	defer delete(f.busy, fn)
	f.quiets[fn] = true
	inner := func(v ssa.Value) bool {
		if fv, ok := v.(*ssa.FreeVar); ok {
			for i, x := range fn.FreeVars {
				if x == fv && i < len(mc.Bindings) {
					return local(mc.Bindings[i])
				}
			}
		}
		in, ok := v.(ssa.Instruction)
		return ok && in.Parent() == fn
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f.quiet(in, inner, why, isNamed || named(b))
		}
	}
}

// named tells whether the rule at hand is known to have a name: an empty string field of a rule was excluded.
func named(b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil || len(d.Preds) != 1 || d.Preds[0] != id || len(id.Instrs) == 0 {
			continue
		}
		br, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := br.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, pair := range [][2]ssa.Value{{cmp.X, cmp.Y}, {cmp.Y, cmp.X}} {
			empty := false
			if k, ok := constString(pair[1]); ok && k == "" && isFieldRead(pair[0]) {
				empty = true
				if cmp.Op == token.EQL && d == id.Succs[1] || cmp.Op == token.NEQ && d == id.Succs[0] {
					return true
				}
			}
			if k, ok := pair[1].(*ssa.Const); !empty && ok && k.Value != nil && k.Value.ExactString() == "0" {
				if c, ok := pair[0].(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && isFieldRead(c.Call.Args[0]) {
						if cmp.Op == token.EQL && d == id.Succs[1] || (cmp.Op == token.NEQ || cmp.Op == token.GTR) && d == id.Succs[0] {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func isFieldRead(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Field:
		return true
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.FieldAddr)
		return ok && x.Op == token.MUL
	}
	return false
}

// dynamic lists what a call through a value may execute.
func (f *levelFlow) dynamic(c *ssa.CallCommon, isNamed bool) (res []*ssa.Function) {
	cand := f.p.effectsOf().dyn[sigKey(c.Signature())]
	rule := len(cand) > 0
	for _, g := range cand {
		if !f.parsers[g] && !f.unnamed[g] {
			rule = false
		}
	}
	for _, g := range cand {
		if rule && isNamed && !f.parsers[g] {
			continue
		}
		res = append(res, g)
	}
	return
}

func ruleLogLevel(p *Program, r *Report) {
	r.rule("A value depending on the settings of the logs (level queries, GOTEMPLATE_*LOG* variables, --*-log-* options, variables changed only for the logs) is only given to the loggers, formatted, compared or used to decide what is logged: it is never returned by what templates or programs call, stored in what a caller gave, printed, written nor sent.")
	r.rule("What is executed for some settings only (region between the condition and its post-dominator, with the closures it defers or hands over and the functions it calls) changes nothing but its own variables and variables that obey the first rule, prints and writes nothing, does not panic nor end the program; no result depends on the branch taken.")
	r.rule("Every logging function of templates (and its aliases) logs on the logger of templates at the level of its name, whatever the level enabled, and gives the empty text.")
	f := &levelFlow{p: p, r: r, vals: map[ssa.Value]string{}, globals: map[*ssa.Global]string{}, fields: map[*types.Var]string{}, results: map[*ssa.Function]string{},
		regions: map[*ssa.If]map[*ssa.BasicBlock]bool{}, parsers: map[*ssa.Function]bool{}, unnamed: map[*ssa.Function]bool{}, quiets: map[*ssa.Function]bool{}, called: map[*ssa.Function]bool{}, busy: map[*ssa.Function]bool{}}
	for _, row := range p.razor().rows {
		for _, fn := range row.parsers {
			if row.name == "" {
				f.unnamed[p.realFunc(fn)] = true
			} else {
				f.parsers[p.realFunc(fn)] = true
			}
		}
	}
	f.run()
	r.need("reads of the settings of the logs", f.sources, 8)
	if r.Counts["regions depending on the settings of the logs"] == 0 {
		r.bad("anchor|regions", "-", "no condition on the level of the logs was found")
	}
	r.count("functions executed for some settings only", len(f.quiets)+len(f.called))
	r.count("variables of the logs", len(f.globals))
	r.Obligations += len(f.vals)
	r.Discharged += len(f.vals)
	var gs []string
	for g := range f.globals {
		gs = append(gs, g.Name())
	}
	sort.Strings(gs)
	r.note("package variables used only for the logs: %s", strings.Join(gs, ", "))
	logFunctions(p, r)
}

var logLevels = map[string]string{"trace": "Trace", "debug": "Debug", "info": "Info", "warning": "Warn", "error": "Error", "fatal": "Fatal", "panic": "Panic", "notice": "Info", "critical": "Error",
	"tracef": "Trace", "debugf": "Debug", "infof": "Info", "warn": "Warn", "warnf": "Warn", "warningf": "Warn", "errorf": "Error", "fatalf": "Fatal", "panicf": "Panic", "noticef": "Info", "criticalf": "Error"}

// logFunctions checks the logging functions given to templates.
func logFunctions(p *Program, r *Report) {
	names, _ := p.funcNames()
	var logger *ssa.Global
	for _, g := range allGlobals(p.SSAPkgs[tmplPkg]) {
		if g.Name() == "TemplateLog" {
			logger = g
		}
	}
	if logger == nil {
		r.bad("anchor|logger", "-", "the logger of templates was not found")
		return
	}
	n := 0
	var keys []string
	for k := range logLevels {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fn := names[k]
		if fn == nil {
			continue
		}
		n++
		found := map[string]bool{}
		for g := range p.callReach(fn) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					var m string
					var recv ssa.Value
					switch in := in.(type) {
					case *ssa.MakeClosure: // method value
						if name, ok := logMethod(fnName(in.Fn.(*ssa.Function))); ok && len(in.Bindings) > 0 {
							m, recv = name, in.Bindings[0]
						}
					case ssa.CallInstruction:
						if name, ok := logMethod(p.calleeName(in.Common())); ok && len(in.Common().Args) > 0 {
							m, recv = name, in.Common().Args[0]
							if strings.HasPrefix(m, "Log") && len(in.Common().Args) > 1 {
								if c, ok := in.Common().Args[1].(*ssa.Const); ok && c.Value != nil {
									lv := map[string]string{"0": "Panic", "1": "Fatal", "2": "Error", "3": "Warn", "4": "Info", "5": "Debug", "6": "Trace"}
									m = lv[c.Value.ExactString()]
								}
							}
						}
					}
					if recv == nil || !fromGlobal(recv, logger, 0) {
						continue
					}
					for _, lv := range []string{"Trace", "Debug", "Info", "Warn", "Error", "Fatal", "Panic", "Print"} {
						if strings.HasPrefix(m, lv) {
							found[lv] = true
						}
					}
				}
			}
		}
		want := logLevels[k]
		var got []string
		for m := range found {
			got = append(got, m)
		}
		sort.Strings(got)
		switch {
		case len(got) == 1 && got[0] == want:
			r.ok("%s logs at the level %s", k, want)
		case len(got) == 0:
			r.bad("logfunc|"+k, p.pos(fn.Pos()), "the function %s does not log on the logger of templates", k)
		default:
			r.bad("logfunc|"+k, p.pos(fn.Pos()), "the function %s logs at the level %s instead of %s", k, strings.Join(got, ", "), want)
		}
		if why := givesText(p, fn, map[*ssa.Function]bool{}); why != "" {
			r.bad("logtext|"+k, p.pos(fn.Pos()), "the function %s puts something in the text: %s", k, why)
		} else {
			r.ok("")
		}
	}
	r.need("logging functions of templates", n, 18)
}

// fromGlobal tells whether v is (a part of) the value of a package variable.
func fromGlobal(v ssa.Value, g *ssa.Global, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Global:
		return x == g
	case *ssa.UnOp:
		return fromGlobal(x.X, g, depth+1)
	case *ssa.FieldAddr:
		return fromGlobal(x.X, g, depth+1)
	case *ssa.Field:
		return fromGlobal(x.X, g, depth+1)
	case *ssa.MakeInterface:
		return fromGlobal(x.X, g, depth+1)
	}
	return false
}

// givesText tells why a function may give something else than the empty text.
func givesText(p *Program, fn *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[fn] {
		return ""
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ret, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			for _, v := range ret.Results {
				if why := emptyText(p, v, seen, 0); why != "" {
					return why + " at " + p.instrPos(ret)
				}
			}
		}
	}
	return ""
}

func emptyText(p *Program, v ssa.Value, seen map[*ssa.Function]bool, depth int) string {
	if depth > 10 {
		return "an unknown value"
	}
	switch x := v.(type) {
	case *ssa.Const:
		if s, ok := constString(x); ok && s == "" || x.Value == nil {
			return ""
		}
		return x.String()
	case *ssa.MakeInterface:
		return emptyText(p, x.X, seen, depth+1)
	case *ssa.ChangeType:
		return emptyText(p, x.X, seen, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if why := emptyText(p, e, seen, depth+1); why != "" {
				return why
			}
		}
		return ""
	case *ssa.Extract:
		return emptyText(p, x.Tuple, seen, depth+1)
	case *ssa.Call:
		cals := p.Callees(&x.Call)
		if len(cals) == 0 {
			return "the result of a call"
		}
		for _, c := range cals {
			c = p.realFunc(c)
			if !p.inRepo(c) || len(c.Blocks) == 0 {
				return "the result of " + fnName(c)
			}
			if why := givesText(p, c, seen); why != "" {
				return why
			}
		}
		return ""
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
					if why := emptyText(p, st.Val, seen, depth+1); why != "" {
						return why
					}
				}
			}
			return ""
		}
	}
	return "a computed value"
}
