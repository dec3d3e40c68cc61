package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const collPkg = modPath + "/collections"

func init() {
	register("C13", "Compositional effect analysis over SSA (which storage reachable from its arguments each function may write, through every callee and every implementation of an interface), compared with what each operation is documented to change.", ruleEffects,
		"library functions change only the arguments listed in the analysis", "native Go values nested in a dictionary or list other than maps and slices are not containers")
}

// mutators lists, per interface, the operations documented to change their receiver in place.
var mutators = map[string]map[string]bool{
	"IGenericList": {"Set": true},
	"IDictionary":  {"Add": true, "Delete": true, "Flush": true, "Merge": true, "Pop": true, "Set": true},
}

// implementationsOf lists the methods implementing an interface method in the repository.
func (p *Program) implementationsOf(ifaceName, method string) []*ssa.Function {
	pk := p.ByPath[collPkg]
	if pk == nil {
		return nil
	}
	obj := pk.Types.Scope().Lookup(ifaceName)
	if obj == nil {
		return nil
	}
	iface, ok := obj.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var res []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, sp := range p.sortedSSAPkgs() {
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			tm, ok := sp.Members[n].(*ssa.Type)
			if !ok || types.IsInterface(tm.Type()) || !types.Implements(tm.Type(), iface) {
				continue
			}
			f := p.SSA.LookupMethod(tm.Type(), nil, method)
			if f != nil && len(f.Blocks) > 0 && !seen[f] {
				seen[f] = true
				res = append(res, f)
			}
		}
	}
	return res
}

func (p *Program) ifaceMethods(name string) []*types.Func {
	pk := p.ByPath[collPkg]
	if pk == nil {
		return nil
	}
	obj := pk.Types.Scope().Lookup(name)
	if obj == nil {
		return nil
	}
	iface, ok := obj.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var res []*types.Func
	for i := 0; i < iface.NumMethods(); i++ {
		res = append(res, iface.Method(i))
	}
	return res
}

func paramName(fn *ssa.Function, i int) string {
	if i < len(fn.Params) {
		return fn.Params[i].Name()
	}
	return "?"
}

func argWritten(fn *ssa.Function, l loc) string {
	i := l.v.(int)
	if i == 0 && fn.Signature.Recv() != nil {
		if l.d == 0 {
			return "the object it is called on"
		}
		return "a value held by the object it is called on"
	}
	if l.d == 0 {
		return fmt.Sprintf("its argument %s", paramName(fn, i))
	}
	return fmt.Sprintf("a value held by its argument %s", paramName(fn, i))
}

func ruleEffects(p *Program, r *Report) {
	r.rule("an operation on a list or dictionary changes its receiver only if it is documented to (Set on a list; Add, Delete, Flush, Merge, Pop and Set on a dictionary) and never its arguments; a registered template function changes none of its arguments, except set and unset (the dictionary) and merge (the destination)")
	e := p.effectsOf()
	if d := os.Getenv("DBG_EFF"); d != "" {
		e.dump(d)
	}
	n := 0
	check := func(what string, fn *ssa.Function, allowed func(l loc) bool) {
		n++
		s := e.sum(fn)
		var bad []loc
		for l := range s.writes {
			if l.k == 'p' && l.v.(int) < len(fn.Params) && !allowed(l) {
				bad = append(bad, l)
			}
		}
		sort.Slice(bad, func(i, j int) bool { return bad[i].String() < bad[j].String() })
		if len(bad) == 0 {
			r.ok("%s changes nothing it should not", what)
			return
		}
		for _, l := range bad {
			var os []string
			for o := range s.writes[l] {
				os = append(os, o)
			}
			sort.Strings(os)
			for _, o := range os {
				w := s.writes[l][o]
				via := ""
				if w.chain != "" {
					via = " through " + w.chain
				}
				r.bad("effect|"+what+"|"+fmt.Sprint(l.v)+"|"+o, w.at, "%s may change %s%s (written at %s)", what, argWritten(fn, l), via, w.deep)
			}
		}
	}
	for _, iface := range []string{"IGenericList", "IDictionary"} {
		for _, m := range p.ifaceMethods(iface) {
			for _, fn := range p.implementationsOf(iface, m.Name()) {
				mut := mutators[iface][m.Name()]
				check(fnName(fn), fn, func(l loc) bool { return mut && l.v.(int) == 0 })
			}
		}
	}
	r.need("list and dictionary operations", n, 100)
	n2 := n
	for _, g := range p.registrations(r) {
		if g.fn == nil {
			continue
		}
		var fs []string
		for f := range g.funcs {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		for _, f := range fs {
			body := g.bodies[f]
			if body == nil || !p.inRepo(body) || len(body.Blocks) == 0 {
				continue
			}
			first := 0
			if body.Signature.Recv() != nil {
				first = 1
			}
			name := f
			check("the template function "+f, body, func(l loc) bool {
				i := l.v.(int) - first
				if i < 0 {
					return true // the engine itself
				}
				if body.Signature.Variadic() && l.v.(int) == len(body.Params)-1 && l.d == 0 {
					return true // the list of arguments is built by the template engine for this call
				}
				switch name {
				case "set", "unset":
					return true
				case "merge":
					return i == 0
				}
				return false
			})
		}
	}
	r.need("template functions", n-n2, 120)
}

func init() {
	register("C14", "Compositional aliasing analysis over SSA: what the result of every copying operation may share with the object it is called on or with its arguments, through every callee and implementation.", ruleCopies,
		"library functions return what the analysis lists", "values that are neither dictionaries nor lists (pointers, structures) are not copied and may be shared")
}

// deepCopies are the operations whose result must be independent at every level, freshLists those whose
// result must not share its own storage with any operand.
var deepCopies = map[string]map[string]bool{
	"IGenericList": {"Clone": true},
	"IDictionary":  {"Clone": true, "Omit": true},
}

var freshResults = map[string]map[string]bool{
	"IGenericList": {"Append": true, "Clone": true, "Create": true, "CreateDict": true, "Find": true, "FindStrict": true, "GetKinds": true, "GetTypes": true, "Intersect": true, "New": true, "Prepend": true, "Remove": true, "RemoveEmpty": true, "RemoveNil": true, "Reverse": true, "StringArray": true, "Strings": true, "Union": true, "Unique": true, "Without": true},
	"IDictionary":  {"Clone": true, "Create": true, "CreateList": true, "GetKeys": true, "GetKinds": true, "GetTypes": true, "GetValues": true, "KeysAsString": true, "Omit": true, "Transpose": true},
}

// freshFuncs are the template functions documented to create a new list or dictionary, with true when it
// must be independent at every level.
var freshFuncs = map[string]bool{
	"append": false, "prepend": false, "reverse": false, "unique": false, "union": false, "without": false, "intersect": false, "removeEmpty": false, "removeNil": false,
	"pick": true, "pickv": true, "omit": true, "keys": false, "values": false, "dict": false,
}

func ruleCopies(p *Program, r *Report) {
	r.rule("the copy made by Clone (list or dictionary) and Omit shares no dictionary and no list with the original at any level; the list or dictionary returned by every operation that builds a new one (Append, Prepend, Reverse, Unique, Union, Without, Intersect, Remove*, Transpose, ...) is new storage, so that later changes or additions to one are never seen in another; the same for the template functions documented to create a new list or dictionary")
	e := p.effectsOf()
	if d := os.Getenv("DBG_EFF"); d != "" {
		e.dump(d)
	}
	n := 0
	check := func(what string, fn *ssa.Function, deep bool) {
		n++
		s := e.sum(fn)
		good := true
		for i, rs := range s.results {
			for _, l := range rs.direct.sorted() {
				if l.k == 'p' && l.v.(int) < len(fn.Params) && !(l.v.(int) == 0 && isEngineParam(fn)) {
					good = false
					r.bad("copy|"+what+"|storage|"+fmt.Sprint(l.v), p.pos(fn.Pos()), "the result %d of %s may share its storage with %s", i, what, argShared(fn, l))
					break
				}
			}
			if deep && good {
				for _, l := range rs.inner.sorted() {
					if l.k == 'p' && l.v.(int) < len(fn.Params) && !(l.v.(int) == 0 && isEngineParam(fn)) {
						good = false
						r.bad("copy|"+what+"|nested|"+fmt.Sprint(l.v), p.pos(fn.Pos()), "the copy returned by %s may hold a dictionary or list also held by %s", what, argShared(fn, l))
						break
					}
				}
			}
		}
		if good {
			r.ok("%s returns new storage%s", what, map[bool]string{true: " at every level"}[deep])
		}
	}
	for _, iface := range []string{"IGenericList", "IDictionary"} {
		for _, m := range p.ifaceMethods(iface) {
			if !freshResults[iface][m.Name()] {
				continue
			}
			for _, fn := range p.implementationsOf(iface, m.Name()) {
				check(fnName(fn), fn, deepCopies[iface][m.Name()])
			}
		}
	}
	r.need("copying operations", n, 80)
	n = 0
	for _, g := range p.registrations(r) {
		if g.fn == nil {
			continue
		}
		var fs []string
		for f := range g.funcs {
			if _, ok := freshFuncs[f]; ok {
				fs = append(fs, f)
			}
		}
		sort.Strings(fs)
		for _, f := range fs {
			if body := g.bodies[f]; body != nil && p.inRepo(body) && len(body.Blocks) > 0 {
				check("the template function "+f, body, freshFuncs[f])
			}
		}
	}
	r.need("template functions", n, 10)
}

func isEngineParam(fn *ssa.Function) bool {
	return fn.Signature.Recv() != nil && strings.HasSuffix(shortType(fn.Params[0].Type()), "template.Template")
}

func argShared(fn *ssa.Function, l loc) string {
	return strings.Replace(argWritten(fn, l), "its argument", "the argument", 1)
}

func init() {
	register("C15", "Use analysis over SSA: every call of an operation that returns a new list or dictionary and leaves its receiver unchanged must have its result used; a discarded Set on a list must be on a list created with a size.", ruleDiscarded,
		"an operation that is documented to return a new object does not also have another wanted effect")
}

// collCall gives the interface and operation of a call on a list or dictionary.
func (p *Program) collCall(c *ssa.CallCommon) (iface, op string) {
	var t types.Type
	if c.IsInvoke() {
		t, op = c.Value.Type(), c.Method.Name()
	} else if f := p.Callee(c); f != nil && f.Signature.Recv() != nil {
		t, op = f.Signature.Recv().Type(), f.Name()
	} else {
		return "", ""
	}
	pk := p.ByPath[collPkg]
	if pk == nil {
		return "", ""
	}
	for _, n := range []string{"IGenericList", "IDictionary"} {
		obj := pk.Types.Scope().Lookup(n)
		if obj == nil {
			continue
		}
		if i, ok := obj.Type().Underlying().(*types.Interface); ok && types.Implements(t, i) {
			return n, op
		}
	}
	if shortType(t) == "collections.StringArray" {
		return "StringArray", op
	}
	return "", ""
}

// used tells whether a result of a call is looked at.
func used(c *ssa.Call, i int) bool {
	if _, ok := c.Type().(*types.Tuple); !ok {
		return len(*c.Referrers()) > 0
	}
	for _, r := range *c.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok {
			if ex.Index == i && len(*ex.Referrers()) > 0 {
				return true
			}
		} else {
			return true
		}
	}
	return false
}

func ruleDiscarded(p *Program, r *Report) {
	r.rule("the list or dictionary returned by an operation that leaves its receiver unchanged (Append, Prepend, Remove, Reverse, Union, Unique, Without, Intersect, RemoveEmpty, RemoveNil, Clone, Omit, Pop of a list, Transpose, ...) is used; when the result of Set on a list is dropped, the list was not created empty (Set then puts the value in another list)")
	n := 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				iface, op := p.collCall(ci.Common())
				if iface == "" {
					continue
				}
				c, isCall := in.(*ssa.Call)
				isUsed := isCall && (used(c, 0) || used(c, 1))
				construct := fnName(enclosing(fn)) + "|" + iface + "." + op
				switch {
				case iface == "IGenericList" && op == "Set":
					n++
					if isUsed && used(c, 0) {
						r.ok("%s uses the list returned by Set", fnName(fn))
						continue
					}
					var recv ssa.Value
					if ci.Common().IsInvoke() {
						recv = ci.Common().Value
					} else {
						recv = ci.Common().Args[0]
					}
					if p.createdEmpty(recv) {
						r.bad("discard|"+construct, p.instrPos(in), "the list returned by Set is dropped while the list was created empty: the value is lost")
					} else {
						r.ok("%s sets an element in place", fnName(fn))
					}
				case freshResults[iface][op] || iface == "IGenericList" && op == "Pop" || iface == "StringArray":
					n++
					ok := isUsed
					if op == "Pop" && isCall {
						ok = used(c, 0) || used(c, 1)
					} else if isCall {
						ok = used(c, 0)
					}
					if ok {
						r.ok("%s uses the result of %s", fnName(fn), op)
					} else {
						r.bad("discard|"+construct, p.instrPos(in), "the result of %s is dropped: it returns a new object and does not change the one it is called on", op)
					}
				}
			}
		}
	}
	r.need("calls of copying operations", n, 60)

	r.rule("the extra arguments of a function are handed on one by one to another operation taking several, not as a single value")
	m := 0
	for _, fn := range p.Funcs {
		if !fn.Signature.Variadic() || len(fn.Params) == 0 {
			continue
		}
		own := fn.Params[len(fn.Params)-1]
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !c.Common().Signature().Variadic() || len(c.Common().Args) == 0 {
					continue
				}
				cals := p.Callees(c.Common())
				if len(cals) == 0 || !p.inRepo(cals[0]) || cals[0].Signature.Results().Len() == 0 {
					continue
				}
				vs, isList := variadic(c.Common().Args[len(c.Common().Args)-1])
				if !isList {
					m++
					continue
				}
				for _, v := range vs {
					if mi, ok := v.(*ssa.MakeInterface); ok && fromList(mi.X, own, 0) {
						r.bad("spread|"+fnName(enclosing(fn))+"|"+p.calleeName(c.Common()), p.instrPos(in), "the list of the extra arguments of %s is handed to %s as a single value", fnName(fn), p.calleeName(c.Common()))
					} else {
						m++
					}
				}
			}
		}
	}
	r.count("argument lists handed on", m)
}

// createdEmpty: the list comes from CreateList/Create with a size of zero.
func (p *Program) createdEmpty(v ssa.Value) bool {
	c, ok := unwrap(v).(*ssa.Call)
	if !ok {
		return false
	}
	nm := p.calleeName(&c.Call)
	nm = nm[strings.LastIndex(nm, ".")+1:]
	if nm != "CreateList" && nm != "Create" {
		return false
	}
	args := c.Call.Args
	if len(args) == 0 {
		return false
	}
	vs, ok := variadic(args[len(args)-1])
	if !ok {
		k, isNil := args[len(args)-1].(*ssa.Const)
		return isNil && k.IsNil()
	}
	if len(vs) == 0 {
		return true
	}
	k, isC := vs[0].(*ssa.Const)
	return isC && k.Value != nil && k.Int64() == 0
}

// fromList: v is the list l, a part of it, or the result of adding to it.
func fromList(v, l ssa.Value, depth int) bool {
	if depth > 6 || v == nil {
		return false
	}
	if v == l {
		return true
	}
	switch v := v.(type) {
	case *ssa.ChangeType:
		return fromList(v.X, l, depth+1)
	case *ssa.Slice:
		return fromList(v.X, l, depth+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if fromList(e, l, depth+1) {
				return true
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if fromList(v.Call.Args[0], l, depth+1) {
				return true
			}
			return len(v.Call.Args) > 1 && fromList(v.Call.Args[1], l, depth+1)
		}
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok {
			if s := onlyStore(a); s != nil {
				return fromList(s.Val, l, depth+1)
			}
		}
	}
	return false
}
