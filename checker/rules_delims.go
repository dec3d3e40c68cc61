package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "Backward data-flow slice over strings: finds the configured delimiters by the field initialised with the default ones, then checks every place where a delimiter (or a literal default delimiter) reaches a regular expression, a cache key, a generated text, a test on the code or the template engine.", ruleDelims,
		"regexp.QuoteMeta neutralises any text", "text/template honours the delimiters it is given")
}

// flow is what a string is made of: the delimiters (0 left, 1 right, 2 razor, 3 all of them) it contains,
// and those that got there without being quoted for a regular expression.
type flow struct {
	kinds    map[int]bool
	unquoted map[int]bool
}

func (f *flow) all() bool { return f.kinds[3] || f.kinds[0] && f.kinds[1] && f.kinds[2] }

type delimFlow struct {
	p      *Program
	fields map[string]bool // "Type.field" holding the delimiters
	memo   map[ssa.Value]*flow
}

func fieldKey(x ssa.Value, i int) string {
	t := x.Type()
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	return t.String() + "." + foldField(t, i)
}

// newDelimFlow finds the fields that hold the delimiters.
func newDelimFlow(p *Program) *delimFlow {
	d := &delimFlow{p: p, fields: map[string]bool{}, memo: map[ssa.Value]*flow{}}
	each := func(f func(fa *ssa.FieldAddr, val ssa.Value)) {
		for _, fn := range p.Funcs {
			if fn.Pkg == nil || fn.Pkg.Pkg.Path() != tmplPkg {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
							f(fa, st.Val)
						}
					}
				}
			}
		}
	}
	each(func(fa *ssa.FieldAddr, val ssa.Value) {
		if l, ok := p.fold(val).(foldList); ok && len(l) == 3 {
			ss, _ := asStrings(l)
			if len(ss) == 3 && ss[0] == "{{" && ss[1] == "}}" && ss[2] == "@" {
				d.fields[fieldKey(fa.X, fa.Field)] = true
			}
		}
	})
	for changed := true; changed; {
		changed = false
		each(func(fa *ssa.FieldAddr, val ssa.Value) {
			k := fieldKey(fa.X, fa.Field)
			if d.fields[k] {
				return
			}
			if d.isDelims(val) {
				d.fields[k] = true
				changed = true
			}
		})
	}
	return d
}

// isDelims: the whole set of delimiters.
func (d *delimFlow) isDelims(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			return d.fields[fieldKey(fa.X, fa.Field)]
		}
		if al, ok := v.X.(*ssa.Alloc); ok {
			if st := onlyStore(al); st != nil {
				return d.isDelims(st.Val)
			}
		}
	case *ssa.Field:
		return d.fields[fieldKey(v.X, v.Field)]
	}
	return false
}

// of computes which delimiters reach a value, by a backward traversal; quoted paths are told apart.
func (d *delimFlow) of(v ssa.Value) *flow {
	res := &flow{map[int]bool{}, map[int]bool{}}
	if v == nil {
		return res
	}
	if f, ok := d.memo[v]; ok {
		return f
	}
	type node struct {
		v      ssa.Value
		quoted bool
	}
	seen := map[node]bool{}
	work := []node{{v, false}}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		if n.v == nil || seen[n] {
			continue
		}
		seen[n] = true
		deps, kinds, quotes := d.deps(n.v)
		for _, kind := range kinds {
			res.kinds[kind] = true
			if !n.quoted {
				res.unquoted[kind] = true
			}
		}
		if len(kinds) > 0 {
			continue
		}
		for _, x := range deps {
			work = append(work, node{x, n.quoted || quotes})
		}
	}
	d.memo[v] = res
	return res
}

// deps lists the values a string is made of, or the delimiter it is.
func (d *delimFlow) deps(v ssa.Value) (res []ssa.Value, kinds []int, quotes bool) {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op != token.MUL {
			break
		}
		switch a := v.X.(type) {
		case *ssa.FieldAddr:
			if d.isDelims(v) {
				kinds = []int{3}
			}
		case *ssa.IndexAddr:
			if d.isDelims(a.X) {
				kinds = []int{3}
				if c, ok := a.Index.(*ssa.Const); ok {
					kinds = []int{int(c.Int64())}
				}
			} else {
				res = append(res, a.X)
			}
		case *ssa.Alloc:
			res = d.content(a)
		case *ssa.FreeVar:
			if al := freeVarAlloc(a); al != nil {
				res = d.content(al)
			}
		}
	case *ssa.Field:
		if d.isDelims(v) {
			kinds = []int{3}
		}
	case *ssa.Index:
		res = append(res, v.X)
	case *ssa.Phi:
		res = append(d.content(v), v.Edges...)
	case *ssa.BinOp:
		if v.Op == token.ADD {
			res = append(res, v.X, v.Y)
		}
	case *ssa.MakeInterface:
		res = append(res, v.X)
	case *ssa.ChangeType:
		res = append(res, v.X)
	case *ssa.ChangeInterface:
		res = append(res, v.X)
	case *ssa.Convert:
		res = append(res, v.X)
	case *ssa.TypeAssert:
		res = append(res, v.X)
	case *ssa.Extract:
		res = append(res, v.Tuple)
	case *ssa.Slice:
		if d.isDelims(v.X) && (v.Low != nil || v.High != nil) {
			lo, hi := int64(0), int64(3)
			if c, ok := v.Low.(*ssa.Const); ok {
				lo = c.Int64()
			}
			if c, ok := v.High.(*ssa.Const); ok {
				hi = c.Int64()
			}
			for i := lo; i < hi && i < 3; i++ {
				kinds = append(kinds, int(i))
			}
			break
		}
		res = append(d.content(v), v.X)
	case *ssa.Alloc:
		res = d.content(v)
	case *ssa.MakeSlice:
		res = d.content(v)
	case *ssa.FreeVar:
		if b := freeVarBinding(v); b != nil {
			res = append(res, b)
		}
	case *ssa.Parameter:
		res = d.p.argsFor(v)
	case *ssa.Call:
		lib := d.p.Callee(&v.Call)
		for _, cal := range d.p.Callees(&v.Call) {
			if d.p.inRepo(cal) && len(cal.Blocks) > 0 {
				for _, b := range cal.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						res = append(res, ret.Results...)
					}
				}
			}
		}
		if lib == nil || !d.p.inRepo(lib) {
			res = append(res, v.Call.Args...)
			quotes = d.p.calleeName(&v.Call) == "regexp.QuoteMeta"
		}
	}
	return
}

// content lists what is stored in a memory cell, a slice or an array.
func (d *delimFlow) content(v ssa.Value) (res []ssa.Value) {
	if v == nil || v.Referrers() == nil {
		return
	}
	seen := map[ssa.Value]bool{}
	var visit func(addr ssa.Value)
	visit = func(addr ssa.Value) {
		if seen[addr] || addr.Referrers() == nil {
			return
		}
		seen[addr] = true
		for _, r := range *addr.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == addr {
					res = append(res, r.Val)
				}
			case *ssa.IndexAddr:
				if r.X == addr {
					visit(r)
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == addr && i < len(fn.FreeVars) {
						visit(fn.FreeVars[i])
					}
				}
			case *ssa.UnOp:
				if r.X == addr {
					if _, ok := r.Type().Underlying().(*types.Slice); ok {
						visit(r)
					}
				}
			case *ssa.Phi:
				if _, ok := r.Type().Underlying().(*types.Slice); ok {
					visit(r)
				}
			}
		}
	}
	visit(v)
	return
}

// argsFor lists the values given to a parameter by the static calls of its function.
func (p *Program) argsFor(prm *ssa.Parameter) []ssa.Value {
	fn := prm.Parent()
	idx := -1
	for i, q := range fn.Params {
		if q == prm {
			idx = i
		}
	}
	var res []ssa.Value
	for _, c := range p.callers[fn] {
		a := c.Common().Args
		if idx < len(a) {
			res = append(res, a[idx])
		}
	}
	return res
}

func hasDefaultDelim(s string) bool {
	return strings.Contains(s, "{{") || strings.Contains(s, "}}") || strings.Contains(s, "@")
}

// delimAware tells whether a function runs with configured delimiters at hand.
func (d *delimFlow) delimAware(fn *ssa.Function) bool {
	types_ := []types.Type{}
	for f := fn; f != nil; f = f.Parent() {
		for _, prm := range f.Params {
			types_ = append(types_, prm.Type())
		}
	}
	for _, t := range types_ {
		if d.holds(t, 0) {
			return true
		}
	}
	return false
}

func (d *delimFlow) holds(t types.Type, depth int) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 2 {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if d.fields[t.String()+"."+varName(st.Field(i))] {
			return true
		}
		if st.Field(i).Embedded() && d.holds(st.Field(i).Type(), depth+1) {
			return true
		}
	}
	return false
}

func ruleDelims(p *Program, r *Report) {
	r.rule("a delimiter reaches a regular expression only through regexp.QuoteMeta")
	r.rule("rules and replacements compiled from the razor tables contain the three configured delimiters; what is cached for them is keyed by the whole set")
	r.rule("a function that has configured delimiters at hand never tests for, or emits, a literal default delimiter")
	r.rule("left and right delimiters are handed over in that order")
	d := newDelimFlow(p)
	r.need("fields holding the delimiters", len(d.fields), 1)
	nre, ncache, ntests, npairs, nrows := 0, 0, 0, 0, 0
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != tmplPkg {
			continue
		}
		aware := d.delimAware(fn)
		name := fnName(fn)
		ord := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					cn := p.calleeName(in.Common())
					args := in.Common().Args
					switch {
					case cn == "regexp.MustCompile" || cn == "regexp.Compile" || strings.HasSuffix(cn, "reutils.NewRegexGroup"):
						f := d.of(args[len(args)-1])
						if len(f.kinds) == 0 {
							break
						}
						nre++
						if len(f.unquoted) > 0 {
							r.bad("quote|"+name, p.instrPos(in), "%s puts the %s delimiter in a regular expression without quoting it: a delimiter such as [[ or $ is not matched literally", name, kindNames(f.unquoted))
						} else {
							r.ok("%s: delimiters are quoted in the regular expression", name)
						}
						if strings.HasSuffix(cn, "reutils.NewRegexGroup") {
							ncache++
							if k := d.of(args[0]); !k.all() && !covers(k.kinds, f.kinds) {
								r.bad("cache|"+name, p.instrPos(in), "%s registers expressions built from the delimiters under a name that does not depend on all of them", name)
							} else {
								r.ok("%s: the expression group is named after the delimiters", name)
							}
						}
					}
					// order of the pair
					li, ri := -1, -1
					flat := args
					if len(args) > 0 {
						if els, ok := variadic(args[len(args)-1]); ok {
							flat = append(append([]ssa.Value{}, args[:len(args)-1]...), els...)
						}
					}
					for i, a := range flat {
						f := d.of(a)
						if len(f.kinds) == 1 && isExact(d, a) {
							if f.kinds[0] && li < 0 {
								li = i
							}
							if f.kinds[1] && ri < 0 {
								ri = i
							}
						}
					}
					if li >= 0 && ri >= 0 {
						npairs++
						if ri < li && !strings.HasSuffix(cn, "NewReplacer") {
							r.bad(fmt.Sprintf("pair|%s|%s", name, shorten(cn)), p.instrPos(in), "%s hands the right delimiter before the left one to %s", name, shorten(cn))
						} else {
							r.ok("%s hands the left then the right delimiter to %s", name, shorten(cn))
						}
					}
					if strings.HasSuffix(cn, "template.Template).Delims") {
						a := args[1:]
						if len(a) == 2 && (!d.of(a[0]).kinds[0] || !d.of(a[1]).kinds[1]) {
							r.bad("delims|"+name, p.instrPos(in), "%s does not give the configured delimiters to the template engine", name)
						} else {
							r.ok("%s gives the configured delimiters to the engine", name)
						}
					}
					if aware {
						p.literalDelims(r, d, fn, in, cn, args, &ord, &ntests)
					}
				case *ssa.BinOp:
					if aware && in.Op == token.ADD {
						for _, x := range []ssa.Value{in.X, in.Y} {
							c, ok := x.(*ssa.Const)
							if !ok || c.Value == nil || c.Value.Kind() != constant.String {
								continue
							}
							if s := constant.StringVal(c.Value); s == "@" || strings.Contains(s, "{{") || strings.Contains(s, "}}") {
								r.bad("literal|"+name+"|concat", p.instrPos(in), "%s emits the default delimiter %q although custom ones may be configured", name, s)
							}
						}
					}
					if !aware || in.Op != token.EQL && in.Op != token.NEQ {
						continue
					}
					for _, pair := range [][2]ssa.Value{{in.X, in.Y}, {in.Y, in.X}} {
						c, ok := pair[0].(*ssa.Const)
						if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
							continue
						}
						if bt, ok := c.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Uint8 && bt.Kind() != types.Int32 {
							continue
						}
						n := c.Int64()
						if n == '@' || n == '{' && false {
							r.bad("literal|"+name+"|byte", p.instrPos(in), "%s compares a character with the default razor delimiter", name)
						}
					}
				case *ssa.MapUpdate:
					// caches kept in package variables
					if !isGlobalMap(in.Map) {
						continue
					}
					if !aware {
						continue
					}
					vf := d.of(in.Value)
					if len(vf.kinds) == 0 && !d.sliceHasRule(in.Value) {
						continue
					}
					ncache++
					if k := d.of(in.Key); !k.all() {
						r.bad("cache|"+name+"|key", p.instrPos(in), "%s caches what is built for a set of delimiters under a key that does not identify the three of them", name)
					} else if why := p.mixedUp(in.Key, 0, map[ssa.Value]bool{}); why != "" {
						r.bad("cache|"+name+"|mixed", p.instrPos(in), "%s caches what is built for a set of delimiters under a key that other delimiters may share: %s", name, why)
					} else {
						r.ok("%s: cache keyed by the whole set of delimiters", name)
					}
				case *ssa.Lookup:
					if aware && isGlobalMap(in.X) && d.cacheOfRules(in.X) {
						ncache++
						if k := d.of(in.Index); !k.all() {
							r.bad("cache|"+name+"|lookup", p.instrPos(in), "%s reads the cache of a set of delimiters with a key that does not identify the three of them", name)
						} else if why := p.mixedUp(in.Index, 0, map[ssa.Value]bool{}); why != "" {
							r.bad("cache|"+name+"|lookup mixed", p.instrPos(in), "%s reads the cache of a set of delimiters with a key that other delimiters may share: %s", name, why)
						} else {
							r.ok("%s: cache read with the whole set of delimiters", name)
						}
					}
				case *ssa.Store:
					// a rule: a structure with an expression, its replacement and the delimiters
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok || !aware {
						continue
					}
					st, isRule := d.ruleType(fa.X.Type())
					if !isRule {
						continue
					}
					if d.fields[fieldKey(fa.X, fa.Field)] && len(d.of(in.Val).kinds) == 0 && !d.isDelims(in.Val) && literalList(in.Val) {
						r.bad("rule|"+name+"|delimiters", p.instrPos(in), "%s prepares a rule with delimiters written in the code instead of the configured ones", name)
					}
					ft := st.Field(fa.Field)
					if (ft.Type().String() == "*regexp.Regexp" || p.replacementField(fa)) && !p.updatesField(in.Val, fieldKey(fa.X, fa.Field), 0) {
						nrows++
						f := d.of(in.Val)
						if c, ok := in.Val.(*ssa.Call); ok && ft.Type().String() == "*regexp.Regexp" {
							f = d.of(c.Call.Args[0])
						}
						if !f.all() {
							r.bad("rule|"+name+"|"+ft.Name(), p.instrPos(in), "%s prepares a rule whose %s does not contain the three configured delimiters (only %s)", name, ft.Name(), kindNames(f.kinds))
						} else {
							r.ok("%s: the %s of a rule is adapted to the delimiters", name, ft.Name())
						}
					}
				}
			}
		}
	}
	r.need("expressions containing delimiters", nre, 3)
	r.need("caches", ncache, 2)
	r.count("literal delimiter uses examined", ntests)
	r.count("delimiter pairs", npairs)
	r.count("rule fields", nrows)
}

func kindNames(m map[int]bool) string {
	n := []string{"left", "right", "razor", "whole set of"}
	var r []string
	for k := range m {
		if k < len(n) {
			r = append(r, n[k])
		}
	}
	sort.Strings(r)
	if len(r) == 0 {
		return "none"
	}
	return strings.Join(r, ", ")
}

// isExact: the value is a delimiter itself, possibly quoted, not a text containing it.
func isExact(d *delimFlow, v ssa.Value) bool {
	switch v := unwrap(v).(type) {
	case *ssa.UnOp:
		if ia, ok := v.X.(*ssa.IndexAddr); ok {
			return d.isDelims(ia.X)
		}
		return false
	case *ssa.Call:
		if cal := d.p.Callee(&v.Call); cal != nil && d.p.inRepo(cal) && len(v.Call.Args) == 1 {
			_, isStr := v.Call.Args[0].Type().Underlying().(*types.Basic)
			return !isStr
		}
	}
	return false
}

func isGlobalMap(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	_, ok = u.X.(*ssa.Global)
	return ok
}

func (d *delimFlow) ruleType(t types.Type) (*types.Struct, bool) {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	re, dl := false, false
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Type().String() == "*regexp.Regexp" {
			re = true
		}
		if d.fields[t.String()+"."+varName(st.Field(i))] {
			dl = true
		}
	}
	return st, re && dl
}

func (d *delimFlow) sliceHasRule(v ssa.Value) bool {
	sl, ok := v.Type().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, is := d.ruleType(sl.Elem())
	return is
}

func (d *delimFlow) cacheOfRules(m ssa.Value) bool {
	mt, ok := m.Type().Underlying().(*types.Map)
	if !ok {
		return false
	}
	sl, ok := mt.Elem().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, is := d.ruleType(sl.Elem())
	return is
}

// updatesField: the value is computed from the previous content of the field.
func (p *Program) updatesField(v ssa.Value, key string, depth int) bool {
	if depth > 8 {
		return false
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			return fieldKey(fa.X, fa.Field) == key
		}
	case *ssa.Field:
		return fieldKey(v.X, v.Field) == key
	case *ssa.Call:
		for _, a := range v.Call.Args {
			if p.updatesField(a, key, depth+1) {
				return true
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if p.updatesField(e, key, depth+1) {
				return true
			}
		}
	}
	return false
}

// replacementField: a string field that is given as replacement text to a regular expression somewhere.
func (p *Program) replacementField(fa *ssa.FieldAddr) bool {
	key := fieldKey(fa.X, fa.Field)
	if p.replFields == nil {
		p.replFields = map[string]bool{}
		for _, fn := range p.Funcs {
			callsIn(fn, func(c ssa.CallInstruction) {
				n := p.calleeName(c.Common())
				if !strings.HasSuffix(n, "regexp.Regexp).ReplaceAll") && !strings.HasSuffix(n, "regexp.Regexp).ReplaceAllString") {
					return
				}
				switch v := unwrap(c.Common().Args[2]).(type) {
				case *ssa.UnOp:
					if f, ok := v.X.(*ssa.FieldAddr); ok {
						p.replFields[fieldKey(f.X, f.Field)] = true
					}
				case *ssa.Field:
					p.replFields[fieldKey(v.X, v.Field)] = true
				}
			})
		}
	}
	return p.replFields[key]
}

// testsDefaults: a function that looks for the default delimiters in a text.
func (p *Program) testsDefaults(fn *ssa.Function) bool {
	if fn.Pkg == nil || fn.Pkg.Pkg.Path() != tmplPkg || len(fn.Blocks) == 0 {
		return false
	}
	found := false
	callsIn(fn, func(c ssa.CallInstruction) {
		if n := p.calleeName(c.Common()); strings.HasPrefix(n, "strings.Contains") || strings.HasPrefix(n, "strings.Index") || strings.HasPrefix(n, "strings.Has") {
			if s, ok := p.fold(c.Common().Args[1]).(string); ok && (s == "@" || s == "{{" || s == "}}") {
				found = true
			}
		}
	})
	return found
}

// literalDelims checks the literal default delimiters handed to string functions.
func (p *Program) literalDelims(r *Report, d *delimFlow, fn *ssa.Function, in ssa.CallInstruction, cn string, args []ssa.Value, ord, n *int) {
	name := fnName(fn)
	flat := args
	if len(args) > 0 {
		if els, ok := variadic(args[len(args)-1]); ok {
			flat = append(append([]ssa.Value{}, args[:len(args)-1]...), els...)
		}
	}
	lit := func(i int) (string, bool) {
		if i >= len(flat) {
			return "", false
		}
		s, ok := p.fold(unwrap(flat[i])).(string)
		return s, ok && hasDefaultDelim(s)
	}
	short := cn
	if cal := p.Callee(in.Common()); cal != nil && p.inRepo(cal) && !d.delimAware(cal) && p.testsDefaults(cal) {
		*n++
		r.bad("literal|"+name+"|"+fnName(cal), p.instrPos(in), "%s relies on %s, which only knows the default delimiters, although custom ones may be configured", name, fnName(cal))
	}
	switch {
	case strings.HasPrefix(cn, "strings.Contains"), strings.HasPrefix(cn, "strings.HasPrefix"), strings.HasPrefix(cn, "strings.HasSuffix"),
		strings.HasPrefix(cn, "strings.Index"), strings.HasPrefix(cn, "strings.Count"), strings.HasPrefix(cn, "strings.Split"), strings.HasPrefix(cn, "strings.Cut"),
		strings.HasPrefix(cn, "strings.TrimPrefix"), strings.HasPrefix(cn, "strings.TrimSuffix"):
		if s, ok := lit(1); ok && (s == "@" || strings.Contains(s, "{{") || strings.Contains(s, "}}")) {
			*n++
			r.bad("literal|"+name+"|"+s, p.instrPos(in), "%s looks for the default delimiter %q with %s although custom ones may be configured", name, s, short)
		}
	case cn == "strings.Replace" || cn == "strings.ReplaceAll":
		if s, ok := lit(1); ok && (s == "@" || s == "{{" || s == "}}") {
			*n++
			if len(d.of(flat[2]).kinds) == 0 {
				r.bad("literal|"+name+"|"+s, p.instrPos(in), "%s replaces the default delimiter %q although custom ones may be configured", name, s)
			} else {
				r.ok("%s translates %q to the configured delimiter", name, s)
			}
		}
	case cn == "strings.NewReplacer":
		for i := 0; i+1 < len(flat); i += 2 {
			s, ok := lit(i)
			if !ok {
				continue
			}
			*n++
			want := map[string]int{"@": 2, "{{": 0, "}}": 1, "}}}": 1}
			f := d.of(flat[i+1])
			if k, known := want[s]; known && !f.kinds[k] {
				r.bad("literal|"+name+"|"+s, p.instrPos(in), "%s translates the default delimiter %q to something else than the configured one", name, s)
			} else {
				r.ok("%s translates %q to the configured delimiter", name, s)
			}
		}
	case cn == "fmt.Sprintf":
		s, ok := lit(0)
		for i := 1; i < len(flat) && !ok; i++ {
			if a, is := p.fold(unwrap(flat[i])).(string); is && (a == "@" || a == "{{" || a == "}}") {
				s, ok = a, true
			}
		}
		if !ok {
			break
		}
		if c, isCall := in.(*ssa.Call); isCall && p.onlyLogged(c) {
			break
		}
		*n++
		{
			r.bad("literal|"+name+"|format", p.instrPos(in), "%s emits the default delimiters in %q although custom ones may be configured", name, s)
		}
	case strings.HasSuffix(cn, "collections.String).Replace") || strings.HasSuffix(cn, "collections.String).SelectContext") || strings.HasSuffix(cn, "collections.String).Contains"):
		for i := 1; i < len(flat); i++ {
			s, ok := lit(i)
			if ok && (s == "@" || s == "{{" || s == "}}") {
				*n++
				r.bad("literal|"+name+"|"+s, p.instrPos(in), "%s uses the default delimiter %q with %s although custom ones may be configured", name, s, shorten(cn))
			}
		}
	}
}

// mixedUp tells why different sets of delimiters may give the same key: their texts are put together
// with nothing between them, or part of them is lost.
func (p *Program) mixedUp(v ssa.Value, depth int, seen map[ssa.Value]bool) string {
	if depth > 12 || seen[v] {
		return ""
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if why := p.mixedUp(e, depth+1, seen); why != "" {
				return why
			}
		}
	case *ssa.Slice:
		if bt, ok := v.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 && (v.Low != nil || v.High != nil) {
			return "only a part of the text is kept"
		}
		return p.mixedUp(v.X, depth+1, seen)
	case *ssa.MakeInterface:
		return p.mixedUp(v.X, depth+1, seen)
	case *ssa.ChangeType:
		return p.mixedUp(v.X, depth+1, seen)
	case *ssa.Convert:
		return p.mixedUp(v.X, depth+1, seen)
	case *ssa.Extract:
		return p.mixedUp(v.Tuple, depth+1, seen)
	case *ssa.Parameter:
		for _, f := range p.Funcs {
			why := ""
			callsIn(f, func(site ssa.CallInstruction) {
				if why != "" || site.Common().StaticCallee() != v.Parent() {
					return
				}
				for i, prm := range v.Parent().Params {
					if prm == v && i < len(site.Common().Args) {
						why = p.mixedUp(site.Common().Args[i], depth+1, seen)
					}
				}
			})
			if why != "" {
				return why
			}
		}
	case *ssa.BinOp:
		if v.Op != token.ADD {
			return ""
		}
		var parts []ssa.Value
		var flat func(x ssa.Value)
		flat = func(x ssa.Value) {
			if b, ok := x.(*ssa.BinOp); ok && b.Op == token.ADD {
				flat(b.X)
				flat(b.Y)
				return
			}
			if c, ok := x.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "" {
				return
			}
			parts = append(parts, x)
		}
		flat(v)
		for i, x := range parts {
			_, isConst := x.(*ssa.Const)
			if !isConst && i > 0 {
				if _, prev := parts[i-1].(*ssa.Const); !prev {
					return "the texts are put together with nothing between them"
				}
			}
			if why := p.mixedUp(x, depth+1, seen); why != "" {
				return why
			}
		}
	case *ssa.Call:
		callee := v.Call.StaticCallee()
		if callee == nil {
			return ""
		}
		args := v.Call.Args
		switch name := callee.String(); name {
		case "strings.Join":
			if c, ok := args[1].(*ssa.Const); ok && c.Value != nil && constant.StringVal(c.Value) == "" {
				return "the texts are joined with nothing between them"
			}
		case "fmt.Sprint":
			if list, ok := variadic(args[0]); ok && len(list) > 1 {
				for i, x := range list {
					if i > 0 && isStringy(x) && isStringy(list[i-1]) {
						return "fmt.Sprint puts nothing between texts"
					}
				}
			}
		case "fmt.Sprintf":
			if c, ok := args[0].(*ssa.Const); ok && c.Value != nil {
				format := constant.StringVal(c.Value)
				for _, verbs := range []string{"%s%s", "%v%v", "%s%v", "%v%s", "%[1]s%[2]s", "%[2]s%[3]s", "%[1]v%[2]v", "%[2]v%[3]v"} {
					if strings.Contains(format, verbs) {
						return "the format puts nothing between the texts"
					}
				}
			}
		case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.Title", "strings.ToTitle", "path.Clean", "path/filepath.Clean", "path/filepath.Base", "path.Base":
			return "part of the text is lost in " + name
		default:
			if callee.Blocks == nil || !p.inRepo(callee) {
				return ""
			}
			for _, b := range callee.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, x := range ret.Results {
						if why := p.mixedUp(x, depth+1, seen); why != "" {
							return why
						}
					}
				}
			}
		}
	}
	return ""
}

// isStringy tells whether a value put in an interface is a text.
func isStringy(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	bt, ok := v.Type().Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsString != 0
}

// covers: every kind of delimiter of a set is in another one.
func covers(have, want map[int]bool) bool {
	for k := range want {
		if !have[k] {
			return false
		}
	}
	return true
}

// literalList: a list made of texts written in the code.
func literalList(v ssa.Value) bool {
	els, ok := variadic(v)
	if !ok || len(els) == 0 {
		return false
	}
	for _, e := range els {
		if _, ok := e.(*ssa.Const); !ok {
			return false
		}
	}
	return true
}
