package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// razorTables is the content of the razor translation tables, found by what they contain.
type razorTables struct {
	operators *foldMap    // Go operator -> template function
	opPos     string      //
	meta      [][2]string // ordered shorthand -> regular expression
	exprList  []string    // alternatives of [expr]
	rows      []razorRow
	rowsPos   string
}

type razorRow struct {
	name, pattern, replace string
	parsers                []*ssa.Function
	pos                    string
}

// allGlobals lists the package variables of a package, by name.
func allGlobals(sp *ssa.Package) []*ssa.Global {
	var res []*ssa.Global
	for _, m := range sp.Members {
		if g, ok := m.(*ssa.Global); ok {
			res = append(res, g)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Name() < res[j].Name() })
	return res
}

func (p *Program) foldGlobal(g *ssa.Global) interface{} {
	return (&folder{p: p, busy: map[ssa.Value]bool{}, env: map[ssa.Value]interface{}{}}).global(g)
}

func foldValues(v interface{}) []interface{} {
	switch v := v.(type) {
	case foldList:
		return v
	case foldStruct:
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var r []interface{}
		for _, k := range ks {
			r = append(r, v[k])
		}
		return r
	}
	return nil
}

func (p *Program) razor() *razorTables {
	t := &razorTables{}
	sp := p.SSAPkgs[tmplPkg]
	if sp == nil {
		return t
	}
	for _, g := range allGlobals(sp) {
		et := g.Type().(*types.Pointer).Elem().Underlying()
		switch et := et.(type) {
		case *types.Map:
			if m, ok := p.foldGlobal(g).(*foldMap); ok {
				if _, a := m.get("=="); a {
					if _, b := m.get("&&"); b {
						t.operators, t.opPos = m, p.pos(g.Pos())
					}
				}
			}
		case *types.Slice, *types.Array:
			_ = et
			l, ok := p.foldGlobal(g).(foldList)
			if !ok || len(l) == 0 {
				continue
			}
			if _, isStr := l[0].(string); isStr {
				ss, ok := asStrings(l)
				if ok && containsStr(ss, `[^\n]`) {
					t.exprList = ss
				}
				continue
			}
			var pairs [][2]string
			isMeta := false
			var rows []razorRow
			razor := false
			for _, e := range l {
				vals := foldValues(e)
				if st, isStruct := e.(foldStruct); isStruct {
					if row, ok := structRow(st); ok {
						if strings.Contains(row.pattern, "@reduce;") {
							razor = true
						}
						rows = append(rows, row)
					}
				} else if len(vals) >= 3 {
					row := razorRow{}
					row.name, _ = vals[0].(string)
					row.pattern, _ = vals[1].(string)
					row.replace, _ = vals[2].(string)
					for _, x := range vals[3:] {
						if f, ok := x.(foldFunc); ok && f.fn != nil {
							row.parsers = append(row.parsers, f.fn)
						}
					}
					if strings.Contains(row.pattern, "@reduce;") {
						razor = true
					}
					rows = append(rows, row)
				}
				if len(vals) == 2 {
					a, ok1 := vals[0].(string)
					b, ok2 := vals[1].(string)
					if ok1 && ok2 {
						if a == "[id]" {
							isMeta = true
						}
						pairs = append(pairs, [2]string{a, b})
					}
				}
			}
			if isMeta {
				t.meta = pairs
			}
			if razor {
				t.rows, t.rowsPos = rows, p.pos(g.Pos())
			}
		}
	}
	return t
}

// structRow reads a rule kept in a structure: the pattern is the string using the shorthands of
// the rules (or naming groups), the replacement the one using the groups.
func structRow(st foldStruct) (razorRow, bool) {
	var row razorRow
	n := 0
	for k, v := range st {
		lk := strings.ToLower(k)
		switch v := v.(type) {
		case string:
			n++
			switch {
			case strings.HasPrefix(lk, "repl"):
				row.replace = v
			case strings.Contains(lk, "expr") || strings.Contains(lk, "pattern") || strings.Contains(lk, "search") || lk == "re" || strings.Contains(lk, "regex"):
				row.pattern = v
			default:
				row.name = v
			}
		case foldFunc:
			if v.fn != nil {
				row.parsers = append(row.parsers, v.fn)
			}
		}
	}
	return row, n >= 2 && row.pattern != ""
}

func containsStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// patterns expands the pattern of a row the way the engine does, for the default delimiters.
func (t *razorTables) patterns(row razorRow) []string {
	re := row.pattern
	for _, m := range t.meta {
		re = strings.ReplaceAll(re, m[0], m[1])
	}
	if !strings.Contains(re, "[expr]") {
		return []string{re}
	}
	var res []string
	for _, e := range t.exprList {
		res = append(res, strings.ReplaceAll(re, "[expr]", e))
	}
	return res
}

// goBuiltins are the functions and keywords text/template provides.
var tmplBuiltins = map[string]bool{"and": true, "or": true, "not": true, "len": true, "index": true, "slice": true, "print": true, "printf": true, "println": true,
	"html": true, "js": true, "urlquery": true, "call": true, "eq": true, "ne": true, "lt": true, "le": true, "gt": true, "ge": true}
var tmplKeywords = map[string]bool{"if": true, "else": true, "end": true, "range": true, "with": true, "define": true, "template": true, "block": true,
	"break": true, "continue": true, "nil": true, "true": true, "false": true}

// funcNames maps every registered function or alias name to the function body it denotes (nil when unknown).
func (p *Program) funcNames() (map[string]*ssa.Function, map[string][]string) {
	res := map[string]*ssa.Function{}
	owners := map[string][]string{}
	rep := &Report{Counts: map[string]int{}}
	for _, g := range p.registrations(rep) {
		for f := range g.funcs {
			if res[f] == nil {
				res[f] = g.bodies[f]
			}
			owners[f] = append(owners[f], g.where)
		}
		for f, als := range g.aliases {
			for _, a := range als {
				if _, dup := res[a]; !dup {
					res[a] = g.bodies[f]
				}
				owners[a] = append(owners[a], g.where)
			}
		}
	}
	return res, owners
}

type opSpec struct {
	fn   string      // name required when it is a builtin of text/template
	tok  token.Token // or: operation the registered function must perform on its arguments
	call string      // or: library function it must reach
}

var razorOps = map[string]opSpec{
	"==": {fn: "eq"}, "!=": {fn: "ne"}, "<": {fn: "lt"}, "<=": {fn: "le"}, ">": {fn: "gt"}, ">=": {fn: "ge"},
	"||": {fn: "or"}, "&&": {fn: "and"}, "!": {fn: "not"},
	"+": {tok: token.ADD}, "-": {tok: token.SUB}, "*": {tok: token.MUL}, "/": {tok: token.QUO}, "%": {call: "math.Mod"},
	"<<": {tok: token.SHL}, ">>": {tok: token.SHR}, "|": {tok: token.OR}, "&": {tok: token.AND}, "^": {tok: token.XOR}, "&^": {tok: token.AND_NOT},
}

var razorSynonyms = map[string]string{"<>": "!=", "≠": "!=", "÷": "/", "≦": "<=", "≧": ">=", "«": "<<", "»": ">>"}

var razorAssign = []string{":=", "=", "+=", "-=", "*=", "/=", "÷=", "%=", "&=", "|=", "^=", "<<=", "«=", ">>=", "»=", "&^="}

func init() {
	register("C20", "Folds the razor operator table, the operator synonyms and the assignment operators, resolves each translated name through the function registrations down to the operation its implementation performs, checks that operands are emitted in source order, and that every function name the translation emits is registered.", ruleRazorOps,
		"the comparison and logical functions of text/template (eq, ne, lt, le, gt, ge, and, or, not) do what their names say")
	register("C29", "Expands every razor rule the way the engine does (shorthands, expression alternatives) and compiles it, together with every other constant regular expression; checks each group used in a replacement or read from a match against the groups the pattern defines.", ruleRegex,
		"the delimiters are quoted where they enter a pattern (C21)")
}

// performs lists the operations a function computes on non-constant operands, directly or in closures it creates and helpers it is the only user of.
func (p *Program) performs(fn *ssa.Function) (map[token.Token]bool, map[string]bool) {
	toks, calls := map[token.Token]bool{}, map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function, depth int)
	walk = func(f *ssa.Function, depth int) {
		if f == nil || seen[f] || depth > 3 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.BinOp:
					_, cx := in.X.(*ssa.Const)
					_, cy := in.Y.(*ssa.Const)
					if bt, ok := in.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsNumeric != 0 && !cx && !cy {
						toks[in.Op] = true
					}
				case ssa.CallInstruction:
					for _, a := range in.Common().Args {
						if f2 := p.funcValue(a, 0); f2 != nil {
							calls[fnName(f2)] = true
						}
					}
					if c := p.Callee(in.Common()); c != nil {
						calls[fnName(c)] = true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a, depth+1)
		}
		// helpers taking the operands and nothing else
		callsIn(f, func(c ssa.CallInstruction) {
			if cal := p.Callee(c.Common()); cal != nil && p.inRepo(cal) && strings.HasPrefix(fnName(cal), "template.") && sigNumeric(cal.Signature) {
				walk(cal, depth+1)
			}
		})
	}
	walk(fn, 0)
	return toks, calls
}

// operandOf tells which parameter of the registered function a value comes from: -1 unknown.
func (p *Program) operandOf(v ssa.Value, depth int) (fn *ssa.Function, idx int) {
	if depth > 8 {
		return nil, -1
	}
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, q := range v.Parent().Params {
			if q == v {
				return v.Parent(), i
			}
		}
	case *ssa.FreeVar:
		if b := freeVarBinding(v); b != nil {
			return p.operandOf(b, depth+1)
		}
		if al := freeVarAlloc(v); al != nil {
			if st := onlyStore(al); st != nil {
				return p.operandOf(st.Val, depth+1)
			}
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			switch a := v.X.(type) {
			case *ssa.FreeVar:
				if al := freeVarAlloc(a); al != nil {
					if st := onlyStore(al); st != nil {
						return p.operandOf(st.Val, depth+1)
					}
				}
			case *ssa.Alloc:
				if st := onlyStore(a); st != nil {
					return p.operandOf(st.Val, depth+1)
				}
			}
		}
	case *ssa.Call:
		if len(v.Call.Args) == 1 {
			return p.operandOf(v.Call.Args[0], depth+1)
		}
	case *ssa.MakeInterface:
		return p.operandOf(v.X, depth+1)
	case *ssa.TypeAssert:
		return p.operandOf(v.X, depth+1)
	case *ssa.Convert:
		return p.operandOf(v.X, depth+1)
	}
	return nil, -1
}

// exchanged looks for an operation that takes the operands of an operator in the wrong order.
func (p *Program) exchanged(body *ssa.Function, tok token.Token) string {
	fns := append([]*ssa.Function{body}, body.AnonFuncs...)
	wrong := func(a, b ssa.Value) bool {
		fa, ia := p.operandOf(a, 0)
		fb, ib := p.operandOf(b, 0)
		if fa == nil || fb == nil {
			return false
		}
		if fa == fb {
			return ia > ib
		}
		// the second operand of the function is captured, the first one is what the closure is applied to
		return fa == body && ia > 0 && fb != body
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.BinOp:
					if in.Op == tok && wrong(in.X, in.Y) {
						return p.instrPos(in)
					}
				case *ssa.Call:
					cal := p.Callee(&in.Call)
					a := in.Call.Args
					if cal != nil && p.inRepo(cal) && f == body && len(a) >= 2 && len(a) <= 3 && types.Identical(a[0].Type(), a[1].Type()) && wrong(a[0], a[1]) {
						return p.instrPos(in)
					}
					if cal != nil && fnName(cal) == "math.Mod" && wrong(a[0], a[1]) {
						return p.instrPos(in)
					}
				}
			}
		}
	}
	return ""
}

func sigNumeric(s *types.Signature) bool {
	for i := 0; i < s.Params().Len(); i++ {
		b, ok := s.Params().At(i).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsNumeric == 0 {
			return false
		}
	}
	return s.Params().Len() > 0
}

func ruleRazorOps(p *Program, r *Report) {
	r.rule("operator table: each operator of the language maps to the text/template builtin of that meaning, or to a registered function whose implementation computes that operation on its operands")
	r.rule("synonyms map to their operator; each assignment operator is recognised, not shadowed by a shorter alternative, and names an operator or a synonym of the table")
	r.rule("the parts of an expression are emitted in source order; every name emitted as a function is registered or built in")
	t := p.razor()
	names, _ := p.funcNames()
	r.need("registered names", len(names), 300)
	if t.operators == nil {
		r.note("no operator table was found as a literal: operators are not decided")
		return
	}
	ops := t.operators
	var spec []string
	for op := range razorOps {
		spec = append(spec, op)
	}
	sort.Strings(spec)
	for _, op := range spec {
		s := razorOps[op]
		v, found := ops.get(op)
		name, _ := v.(string)
		if !found {
			r.bad("operator|"+op, t.opPos, "the operator %s is no longer translated", op)
			continue
		}
		if s.fn != "" {
			if name != s.fn {
				r.bad("operator|"+op, t.opPos, "the operator %s is translated to %q, %q is expected", op, name, s.fn)
			} else if b := names[name]; b != nil {
				r.bad("operator|"+op, t.opPos, "the operator %s is translated to %q, which is redefined by %s", op, name, fnName(b))
			} else {
				r.ok("operator %s is the builtin %s", op, name)
			}
			continue
		}
		body, found := names[name]
		if !found {
			r.bad("operator|"+op, t.opPos, "the operator %s is translated to %q, which is not a registered function", op, name)
			continue
		}
		if body == nil {
			r.note("the implementation of %s is not statically known", name)
			continue
		}
		toks, calls := p.performs(body)
		good := s.tok != 0 && toks[s.tok] || s.call != "" && calls[s.call]
		if !good {
			r.bad("operator|"+op, t.opPos, "the operator %s is translated to %q, whose implementation (%s) never computes it", op, name, fnName(body))
			continue
		}
		if s.tok != 0 && s.tok != token.ADD && s.tok != token.SUB && s.tok != token.MUL && s.tok != token.QUO {
			other := ""
			for tk := range toks {
				if tk != s.tok {
					other = tk.String()
				}
			}
			if other != "" {
				r.bad("operator|"+op+"|mixed", t.opPos, "the implementation of the operator %s (%s) also combines its operands with %s", op, fnName(body), other)
				continue
			}
		}
		if s.tok != token.ADD && s.tok != token.MUL && s.tok != token.OR && s.tok != token.AND && s.tok != token.XOR {
			if where := p.exchanged(body, s.tok); where != "" {
				r.bad("operator|"+op+"|order", where, "the implementation of the operator %s (%s) exchanges its operands", op, fnName(body))
				continue
			}
		}
		r.ok("operator %s is %s, implemented by %s", op, name, fnName(body))
	}
	for i, k := range ops.keys {
		op, _ := k.(string)
		name, _ := ops.vals[i].(string)
		if _, ok := names[name]; !ok && !tmplBuiltins[name] {
			r.bad("operator|"+op+"|name", t.opPos, "the operator %s is translated to %q, which is not a function", op, name)
		}
	}
	// Synonyms: pairs of constants found side by side in the razor code.
	syn := map[string]map[string]bool{}
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != tmplPkg {
			continue
		}
		for _, pr := range p.constPairs(fn) {
			if _, ok := razorSynonyms[pr[0]]; ok {
				if syn[pr[0]] == nil {
					syn[pr[0]] = map[string]bool{}
				}
				syn[pr[0]][pr[1]] = true
			}
		}
	}
	var sk []string
	for s := range razorSynonyms {
		sk = append(sk, s)
	}
	sort.Strings(sk)
	for _, s := range sk {
		switch {
		case len(syn) == 0:
			r.note("the synonym table was not found: not decided")
		case !syn[s][razorSynonyms[s]] || len(syn[s]) > 1:
			var got []string
			for g := range syn[s] {
				got = append(got, g)
			}
			sort.Strings(got)
			r.bad("synonym|"+s, t.opPos, "the synonym %s is not translated to %s (found: %s)", s, razorSynonyms[s], strings.Join(got, " "))
		default:
			r.ok("synonym %s is %s", s, razorSynonyms[s])
		}
	}
	for _, m := range t.meta {
		if !strings.HasPrefix(m[0], "assign_op") {
			continue
		}
		alts := strings.Split(m[1], "|")
		var plain []string
		rest := m[1]
		alts = alts[:0]
		for _, a := range splitAlternatives(rest) {
			alts = append(alts, a)
			plain = append(plain, unquoteRe(a))
		}
		for _, op := range razorAssign {
			if !containsStr(plain, op) {
				r.bad("assign|"+op, t.rowsPos, "the assignment operator %s is no longer recognised", op)
				continue
			}
			base := strings.TrimSuffix(op, "=")
			if base == "" || base == ":" {
				r.ok("assignment %s", op)
				continue
			}
			if s, ok := razorSynonyms[base]; ok {
				base = s
			}
			if _, ok := ops.get(base); !ok {
				r.bad("assign|"+op, t.rowsPos, "the assignment operator %s uses %s, which is not an operator", op, base)
				continue
			}
			r.ok("assignment operator %s", op)
		}
		for i, a := range plain {
			for _, b := range plain[i+1:] {
				if a != b && strings.HasPrefix(b, a) {
					r.bad("assign|shadow|"+b, t.rowsPos, "the assignment operator %s can never be recognised: %s is tried first", b, a)
				}
			}
		}
	}
	p.operandOrder(r)
	p.emittedNames(r, t, names)
}

func splitAlternatives(s string) []string {
	var res []string
	cur := ""
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\' && i+1 < len(s):
			cur += s[i : i+2]
			i++
		case s[i] == '|':
			res = append(res, cur)
			cur = ""
		default:
			cur += s[i : i+1]
		}
	}
	return append(res, cur)
}

func unquoteRe(s string) string { return strings.ReplaceAll(s, `\`, "") }

// constPairs lists constants used as key and value, as neighbouring elements of an array literal,
// or as neighbouring arguments of a call.
func (p *Program) constPairs(fn *ssa.Function) [][2]string {
	var res [][2]string
	str := func(v ssa.Value) (string, bool) {
		s, ok := p.fold(unwrap(v)).(string)
		return s, ok
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				k, ok1 := str(in.Key)
				v, ok2 := str(in.Value)
				if ok1 && ok2 {
					res = append(res, [2]string{k, v})
				}
			case *ssa.Alloc:
				if arr, ok := in.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
					if bt, ok := arr.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.String {
						if l, ok := (&folder{p: p, busy: map[ssa.Value]bool{}, env: map[ssa.Value]interface{}{}}).cell(in).(foldList); ok {
							res = append(res, listPairs(l)...)
						}
					} else if l, ok := p.fold(in).(foldList); ok {
						for _, e := range l {
							if el, ok := e.(foldList); ok {
								res = append(res, listPairs(el)...)
							}
							if st, ok := e.(foldStruct); ok {
								vs := foldValues(st)
								if len(vs) == 2 {
									res = append(res, listPairs(vs)...)
									res = append(res, listPairs(foldList{vs[1], vs[0]})...)
								}
							}
						}
					}
				}
			case ssa.CallInstruction:
				a := in.Common().Args
				for i := 0; i+1 < len(a); i++ {
					k, ok1 := str(a[i])
					v, ok2 := str(a[i+1])
					if ok1 && ok2 {
						res = append(res, [2]string{k, v})
					}
				}
			}
		}
	}
	return res
}

func listPairs(l foldList) [][2]string {
	var res [][2]string
	for i := 0; i+1 < len(l); i += 2 {
		a, ok1 := l[i].(string)
		b, ok2 := l[i+1].(string)
		if ok1 && ok2 {
			res = append(res, [2]string{a, b})
		}
	}
	return res
}

// astParts lists the fields of syntax nodes a value is computed from (through calls, extracts and merges).
func (p *Program) astParts(v ssa.Value, seen map[ssa.Value]bool, out map[string]int) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Extract:
		p.astParts(v.Tuple, seen, out)
	case *ssa.Call:
		for _, a := range v.Call.Args {
			p.astParts(a, seen, out)
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			p.astParts(e, seen, out)
		}
	case *ssa.MakeInterface:
		p.astParts(v.X, seen, out)
	case *ssa.ChangeInterface:
		p.astParts(v.X, seen, out)
	case *ssa.Slice:
		if al, ok := v.X.(*ssa.Alloc); ok {
			p.astParts(al, seen, out)
		} else {
			p.astParts(v.X, seen, out)
		}
	case *ssa.MakeSlice:
		for _, r := range *v.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
						p.astParts(st.Val, seen, out)
					}
				}
			}
		}
	case *ssa.Alloc:
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					p.astParts(r.Val, seen, out)
				}
			case *ssa.IndexAddr:
				for _, r2 := range *r.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == r {
						p.astParts(st.Val, seen, out)
					}
				}
			}
		}
	case *ssa.UnOp:
		switch a := v.X.(type) {
		case *ssa.FieldAddr:
			t := a.X.Type().String()
			if strings.HasPrefix(t, "*go/ast.") {
				out[strings.TrimPrefix(t, "*go/ast.")+"."+foldField(a.X.Type(), a.Field)] = a.Field
				return
			}
		case *ssa.IndexAddr:
			p.astParts(a.X, seen, out)
		case *ssa.Alloc:
			p.astParts(a, seen, out)
		}
	case *ssa.BinOp:
		p.astParts(v.X, seen, out)
		p.astParts(v.Y, seen, out)
	}
}

var operandFields = map[string]int{"BinaryExpr.X": 1, "BinaryExpr.Y": 2, "CallExpr.Fun": 1, "CallExpr.Args": 2, "SliceExpr.X": 1, "SliceExpr.Low": 2,
	"SliceExpr.High": 3, "IndexExpr.X": 1, "IndexExpr.Index": 2, "SelectorExpr.X": 1, "SelectorExpr.Sel": 2}

// together lists the values the arguments of a call have, for each way of reaching it: the values that
// several variables get where paths join are taken from the same path.
func together(args []ssa.Value) [][]ssa.Value {
	all := [][]ssa.Value{append([]ssa.Value{}, args...)}
	for round := 0; round < 8; round++ {
		var next [][]ssa.Value
		changed := false
		for _, values := range all {
			var at *ssa.BasicBlock
			for _, v := range values {
				if phi, ok := withoutInterface(v).(*ssa.Phi); ok && (at == nil || at.Dominates(phi.Block())) {
					at = phi.Block() // the last join first
				}
			}
			if at == nil || len(all)*len(at.Preds) > 200 {
				next = append(next, values)
				continue
			}
			changed = true
			for i := range at.Preds {
				alt := make([]ssa.Value, len(values))
				for j, v := range values {
					alt[j] = v
					if phi, ok := withoutInterface(v).(*ssa.Phi); ok && phi.Block() == at {
						alt[j] = phi.Edges[i]
					}
				}
				next = append(next, alt)
			}
		}
		all = next
		if !changed {
			break
		}
	}
	return all
}

func withoutInterface(v ssa.Value) ssa.Value {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return mi.X
	}
	return v
}

// operandOrder checks that texts built from the parts of one syntax node keep the source order.
func (p *Program) operandOrder(r *Report) {
	n := 0
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != tmplPkg {
			continue
		}
		idx := map[string]int{}
		callsIn(fn, func(c ssa.CallInstruction) {
			if p.calleeName(c.Common()) != "fmt.Sprintf" || len(c.Common().Args) != 2 {
				return
			}
			args, ok := variadic(c.Common().Args[1])
			format, ok2 := p.fold(c.Common().Args[0]).(string)
			if !ok || !ok2 {
				return
			}
			involved := false
			if m := negated.FindStringIndex(format); m != nil {
				// the number that is negated comes after the zero
				for i, ai := range verbOrder(format, len(args)) {
					parts := map[string]int{}
					p.astParts(args[ai], map[ssa.Value]bool{}, parts)
					verbs := verbRe.FindAllStringIndex(format, -1)
					if parts["UnaryExpr.X"] > 0 && len(parts) == 1 && i < len(verbs) && verbs[i][0] < m[1] {
						r.bad(fmt.Sprintf("operands|%s|negation", fnName(fn)), p.instrPos(c), "%s emits %q for the opposite of a value: the operands are exchanged", fnName(fn), format)
					}
				}
			}
			order := verbOrder(format, len(args))
			for _, values := range together(args) {
				last, lastName := map[string]int{}, map[string]string{}
				for _, ai := range order {
					parts := map[string]int{}
					p.astParts(values[ai], map[ssa.Value]bool{}, parts)
					if len(parts) != 1 {
						continue // an operator name, or a part already combined
					}
					for f := range parts {
						rank, ok := operandFields[f]
						if !ok {
							continue
						}
						node := strings.SplitN(f, ".", 2)[0]
						involved = true
						if last[node] > rank {
							idx[node]++
							r.bad(fmt.Sprintf("operands|%s|%s", fnName(fn), node), p.instrPos(c), "%s emits %s after %s: the operands are exchanged", fnName(fn), f, lastName[node])
						}
						last[node], lastName[node] = rank, f
					}
				}
			}
			if involved {
				n++
				r.ok("%s keeps the operands of %q in order", fnName(fn), format)
			}
		})
	}
	r.count("texts built from syntax nodes", n)
}

// negated: a subtraction where a zero is written.
var negated = regexp.MustCompile(`^\(?(?:sub|subtract|minus)\b.* 0`)

// constLeaves lists the constant texts a value may be.
func constLeaves(v ssa.Value, seen map[ssa.Value]bool) []string {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.String {
			return []string{constant.StringVal(v.Value)}
		}
	case *ssa.Phi:
		var res []string
		for _, e := range v.Edges {
			res = append(res, constLeaves(e, seen)...)
		}
		return res
	}
	return nil
}

var verbRe = regexp.MustCompile(`%(?:\[(\d+)\])?[-+# 0]*[\d.*]*[a-zA-Z%]`)

// verbOrder lists the argument index of each verb of a format, in the order of the text.
func verbOrder(format string, n int) []int {
	var res []int
	next := 0
	for _, m := range verbRe.FindAllStringSubmatch(format, -1) {
		if strings.HasSuffix(m[0], "%") {
			continue
		}
		if m[1] != "" {
			fmt.Sscan(m[1], &next)
			next--
		}
		if next >= 0 && next < n {
			res = append(res, next)
		}
		next++
	}
	return res
}

var (
	emitStart = regexp.MustCompile(`^(?:\(|\{\{-? ?)?([a-zA-Z]\w*) (?:%|\$|0 |"|\()`)
	emitParen = regexp.MustCompile(`\(([a-zA-Z]\w*) (?:%|\$|\.|"|\()`)
	emitAct   = regexp.MustCompile(`(?:\{\{-?|\$\{reduce1\}|%\[1\]s-) ([a-zA-Z]\w*)`)
	emitCall  = regexp.MustCompile(`(?:^|[^\w.$])([a-zA-Z]\w*)\(`)
	groupRef  = regexp.MustCompile(`\$(?:\{(\w+)\}|(\w+))`)
)

// emittedNames checks that the function names the translation writes exist.
func (p *Program) emittedNames(r *Report, t *razorTables, names map[string]*ssa.Function) {
	n := 0
	check := func(name, where, what string) {
		if tmplKeywords[name] {
			return
		}
		n++
		if _, ok := names[name]; !ok && !tmplBuiltins[name] {
			r.bad("emitted|"+name, where, "%s emits a call to %q, which is not a function available to templates", what, name)
		} else {
			r.ok("%s emits the function %s", what, name)
		}
	}
	for _, row := range t.rows {
		rep := strings.NewReplacer("$$", "$").Replace(row.replace)
		for _, re := range []*regexp.Regexp{emitAct, emitParen} {
			for _, m := range re.FindAllStringSubmatch(rep, -1) {
				check(m[1], t.rowsPos, "the rule "+row.name)
			}
		}
		for _, m := range regexp.MustCompile(`@[<-]*(?:\$\{reduce\})?([a-zA-Z]\w*)\(`).FindAllStringSubmatch(rep, -1) {
			check(m[1], t.rowsPos, "the rule "+row.name)
		}
	}
	// names that stand for the function in the replacements
	standins := map[string]bool{}
	for _, row := range t.rows {
		for _, m := range regexp.MustCompile(`\$\{reduce1\} (\$\{\w+\}) `).FindAllStringSubmatch(row.replace, -1) {
			standins[m[1]] = true
		}
	}
	// constants handed to Sprintf or to a replacement in functions the rules use
	var roots []*ssa.Function
	for _, row := range t.rows {
		roots = append(roots, row.parsers...)
	}
	for fn := range p.forwardReach(roots...) {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != tmplPkg {
			continue
		}
		callsIn(fn, func(c ssa.CallInstruction) {
			name := p.calleeName(c.Common())
			if name != "fmt.Sprintf" && name != "strings.Replace" {
				return
			}
			var texts []string
			a := c.Common().Args
			if name == "strings.Replace" {
				if s, ok := p.fold(a[1]).(string); ok && standins[s] {
					for _, l := range constLeaves(a[2], map[ssa.Value]bool{}) {
						check(l, p.instrPos(c), fnName(fn))
					}
				}
			}
			if name == "fmt.Sprintf" {
				if call, ok := c.(*ssa.Call); ok && p.onlyLogged(call) {
					return
				}
				if s, ok := p.fold(a[0]).(string); ok {
					texts = append(texts, s)
				}
			} else if s, ok := p.fold(a[2]).(string); ok && strings.Contains(s, " ") {
				texts = append(texts, s)
			}
			for _, s := range texts {
				for _, re := range []*regexp.Regexp{emitStart, emitParen, emitAct} {
					for _, m := range re.FindAllStringSubmatch(s, -1) {
						check(m[1], p.instrPos(c), fnName(fn))
					}
				}
				if strings.Contains(s, "%s") && strings.Contains(s, "(") {
					for _, m := range emitCall.FindAllStringSubmatch(strings.ReplaceAll(s, "%s", " "), -1) {
						check(m[1], p.instrPos(c), fnName(fn))
					}
				}
			}
		})
	}
	r.need("emitted names", n, 5)
}

// onlyLogged tells whether a text only goes to error or log messages.
func (p *Program) onlyLogged(c *ssa.Call) bool {
	if c.Referrers() == nil {
		return true
	}
	for _, u := range *c.Referrers() {
		switch u := u.(type) {
		case ssa.CallInstruction:
			n := p.calleeName(u.Common())
			if strings.Contains(n, "fatih/color") || strings.Contains(n, "Log") {
				continue
			}
			return false
		case *ssa.MakeInterface, *ssa.DebugRef:
			continue
		default:
			return false
		}
	}
	return true
}

func groupNames(re *regexp.Regexp) map[string]bool {
	res := map[string]bool{}
	for i, n := range re.SubexpNames() {
		if n != "" {
			res[n] = true
		}
		res[fmt.Sprint(i)] = true
	}
	return res
}

func ruleRegex(p *Program, r *Report) {
	r.rule("every constant handed to a regular-expression constructor compiles; every razor rule compiles for every alternative of its expression")
	r.rule("every group named in a replacement is a group of its pattern, or is substituted by the rule's own function; every group read from a match is defined by the patterns matched there")
	// constant patterns, and the variables that hold them
	nc := 0
	reOf := map[*ssa.Global]*regexp.Regexp{}
	for _, fn := range p.Funcs {
		callsIn(fn, func(c ssa.CallInstruction) {
			n := p.calleeName(c.Common())
			if n != "regexp.MustCompile" && n != "regexp.Compile" {
				return
			}
			s, ok := p.fold(c.Common().Args[0]).(string)
			if !ok {
				return
			}
			nc++
			re, err := regexp.Compile(s)
			if err != nil {
				r.bad("regex|"+s, p.instrPos(c), "the regular expression %q is not valid: %v", s, err)
				return
			}
			r.ok("%q compiles", s)
			if v, ok := c.(*ssa.Call); ok {
				for _, u := range *v.Referrers() {
					if st, ok := u.(*ssa.Store); ok {
						if g, ok := st.Addr.(*ssa.Global); ok {
							reOf[g] = re
						}
					}
				}
				p.regexUses(r, re, v)
			}
		})
	}
	for g, re := range reOf {
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
						p.regexUses(r, re, u)
					}
				}
			}
		}
	}
	r.need("constant patterns", nc, 8)
	// patterns handed as a group
	for _, fn := range p.Funcs {
		callsIn(fn, func(c ssa.CallInstruction) {
			if !strings.HasSuffix(p.calleeName(c.Common()), "reutils.NewRegexGroup") {
				return
			}
			a := c.Common().Args
			l, ok := p.fold(a[len(a)-1]).(foldList)
			if !ok {
				return
			}
			groups := map[string]bool{}
			for _, e := range l {
				s, ok := e.(string)
				if !ok {
					return
				}
				re, err := regexp.Compile(s)
				if err != nil {
					r.bad("regex|"+s, p.instrPos(c), "the regular expression %q is not valid: %v", s, err)
					continue
				}
				r.ok("%q compiles", s)
				for g := range groupNames(re) {
					groups[g] = true
				}
			}
			// the variable holding the group
			call, ok := c.(*ssa.Call)
			if !ok {
				return
			}
			for _, u := range *call.Referrers() {
				ex, ok := u.(*ssa.Extract)
				if !ok || ex.Index != 0 {
					continue
				}
				for _, u2 := range *ex.Referrers() {
					if st, ok := u2.(*ssa.Store); ok {
						if g, ok := st.Addr.(*ssa.Global); ok {
							p.matchLookups(r, g, groups)
						}
					}
				}
			}
		})
	}
	// razor rules
	t := p.razor()
	if len(t.rows) == 0 || len(t.meta) == 0 {
		r.note("the razor rules were not found as literals: not decided")
		return
	}
	r.need("razor rules", len(t.rows), 30)
	np := 0
	// groups substituted by the functions of a rule
	type parserInfo struct{ substituted, read map[string]string }
	info := map[*ssa.Function]*parserInfo{}
	parserOf := func(f *ssa.Function) *parserInfo {
		if i, ok := info[f]; ok {
			return i
		}
		pi := &parserInfo{map[string]string{}, map[string]string{}}
		info[f] = pi
		for fn := range p.forwardReach(f) {
			if fn.Pkg == nil || fn.Pkg.Pkg.Path() != tmplPkg {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Lookup:
						if s, ok := p.fold(in.Index).(string); ok && p.isMatchMap(in.X) && p.ruleMatch(in.X) {
							pi.read[s] = p.instrPos(in)
						}
					case ssa.CallInstruction:
						for _, a := range in.Common().Args {
							if s, ok := p.fold(a).(string); ok && strings.HasPrefix(s, "${") && strings.HasSuffix(s, "}") {
								pi.substituted[s[2:len(s)-1]] = p.instrPos(in)
							}
						}
					}
				}
			}
		}
		return pi
	}
	used := map[*ssa.Function]map[string]int{} // groups defined by the rules using a parser
	rowsOf := map[*ssa.Function]int{}
	for i, row := range t.rows {
		what := fmt.Sprintf("the razor rule %d %q", i, row.name)
		for _, pat := range t.patterns(row) {
			np++
			re, err := regexp.Compile(pat)
			if err != nil {
				r.bad("razor|"+row.pattern, t.rowsPos, "%s is not a valid regular expression: %v", what, err)
				break
			}
			groups := groupNames(re)
			r.ok("%q compiles", pat)
			subst := map[string]bool{}
			for _, f := range row.parsers {
				for g := range parserOf(f).substituted {
					subst[g] = true
				}
				if used[f] == nil {
					used[f] = map[string]int{}
				}
				for g := range groups {
					used[f][g]++
				}
				rowsOf[f]++
			}
			rep := strings.ReplaceAll(row.replace, "$$", "")
			for _, m := range groupRef.FindAllStringSubmatch(rep, -1) {
				g := m[1] + m[2]
				if groups[g] || subst[g] {
					r.ok("%s: group %s", what, g)
				} else {
					r.bad("razor|"+row.pattern+"|"+g, t.rowsPos, "%s replaces by %q, but its pattern has no group %s: that part of the text is dropped", what, row.replace, g)
				}
			}
			// a name defined twice: only the last one is seen by a lookup
			seen := map[string]bool{}
			for _, n := range re.SubexpNames() {
				if n != "" && seen[n] && readBy(row.parsers, n, func(f *ssa.Function) map[string]string { return parserOf(f).read }) {
					r.bad("razor|"+row.pattern+"|twice|"+n, t.rowsPos, "%s defines the group %s twice", what, n)
				}
				seen[n] = true
			}
		}
	}
	r.need("expanded razor patterns", np, 60)
	var fs []*ssa.Function
	for f := range used {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
	for _, f := range fs {
		pi := parserOf(f)
		var gs []string
		for g := range pi.read {
			gs = append(gs, g)
		}
		sort.Strings(gs)
		for _, g := range gs {
			if used[f][g] == 0 {
				// the name may belong to the rules of another function sharing the helper
				elsewhere := false
				for f2 := range used {
					if f2 != f && used[f2][g] > 0 {
						if _, ok := parserOf(f2).read[g]; ok {
							elsewhere = true
						}
					}
				}
				if !elsewhere {
					r.bad("lookup|"+fnName(f)+"|"+g, pi.read[g], "%s reads the group %q, which none of its rules defines", fnName(f), g)
					continue
				}
			}
			r.ok("%s reads the group %s", fnName(f), g)
		}
	}
}

func readBy(fs []*ssa.Function, g string, read func(*ssa.Function) map[string]string) bool {
	for _, f := range fs {
		if _, ok := read(f)[g]; ok {
			return true
		}
	}
	return false
}

// isMatchMap: a value returned by a multi-pattern match.
func (p *Program) isMatchMap(v ssa.Value) bool { return p.matchCall(v) != nil }

func (p *Program) matchCall(v ssa.Value) *ssa.Call {
	if ex, ok := v.(*ssa.Extract); ok {
		if c, ok := ex.Tuple.(*ssa.Call); ok && strings.HasSuffix(p.calleeName(&c.Call), "reutils.MultiMatch") {
			return c
		}
	}
	return nil
}

// ruleMatch: the match uses the expression of the rule (a field of it), not a fixed group.
func (p *Program) ruleMatch(v ssa.Value) bool {
	c := p.matchCall(v)
	if c == nil {
		return false
	}
	a := c.Call.Args
	els, ok := variadic(a[len(a)-1])
	if !ok {
		return false
	}
	for _, e := range els {
		switch e := e.(type) {
		case *ssa.UnOp:
			if _, isG := e.X.(*ssa.Global); isG {
				return false
			}
		case *ssa.Field:
		}
	}
	return true
}

// regexUses checks the group references of replacements and submatch indexes for one known expression.
func (p *Program) regexUses(r *Report, re *regexp.Regexp, v ssa.Value) {
	groups := groupNames(re)
	for _, u := range *v.Referrers() {
		c, ok := u.(*ssa.Call)
		if !ok || len(c.Call.Args) == 0 || c.Call.Args[0] != v {
			continue
		}
		n := p.calleeName(&c.Call)
		switch {
		case strings.HasSuffix(n, "regexp.Regexp).ReplaceAllString") || strings.HasSuffix(n, "regexp.Regexp).ReplaceAll"):
			if s, ok := p.fold(c.Call.Args[2]).(string); ok {
				for _, m := range groupRef.FindAllStringSubmatch(strings.ReplaceAll(s, "$$", ""), -1) {
					g := m[1] + m[2]
					if !groups[g] {
						r.bad("replace|"+re.String()+"|"+g, p.instrPos(c), "the replacement %q uses the group %s, which %q does not define", s, g, re)
					} else {
						r.ok("replacement %q of %q", s, re)
					}
				}
			}
		case strings.HasSuffix(n, "regexp.Regexp).FindStringSubmatch"):
			for _, u2 := range *c.Referrers() {
				if ia, ok := u2.(*ssa.IndexAddr); ok {
					if k, ok := ia.Index.(*ssa.Const); ok {
						if int(k.Int64()) > re.NumSubexp() {
							r.bad("submatch|"+re.String(), p.instrPos(ia), "group %d of %q is read, it has %d", k.Int64(), re, re.NumSubexp())
						} else {
							r.ok("group %d of %q", k.Int64(), re)
						}
					}
				}
			}
		}
	}
}

// matchLookups checks the groups read from matches of a group of expressions kept in a variable.
func (p *Program) matchLookups(r *Report, g *ssa.Global, groups map[string]bool) {
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				lk, ok := in.(*ssa.Lookup)
				if !ok {
					continue
				}
				c := p.matchCall(lk.X)
				if c == nil {
					continue
				}
				u, ok := c.Call.Args[len(c.Call.Args)-1].(*ssa.UnOp)
				if !ok || u.X != ssa.Value(g) {
					continue
				}
				s, ok := p.fold(lk.Index).(string)
				if !ok {
					continue
				}
				if !groups[s] {
					r.bad("lookup|"+fnName(fn)+"|"+s, p.instrPos(lk), "%s reads the group %q, which no expression of %s defines", fnName(fn), s, g.Name())
				} else {
					r.ok("%s reads the group %s", fnName(fn), s)
				}
			}
		}
	}
}
