package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Constant folding of the declarative tables of the program: map, slice and struct literals,
// string constants built from other constants and from small pure helpers.

type (
	foldList   []interface{}
	foldStruct map[string]interface{}
	foldMap    struct {
		keys []interface{}
		vals []interface{}
		pos  []token.Pos
	}
	foldFunc struct {
		fn  *ssa.Function
		sig *types.Signature
		val ssa.Value
	}
	foldUnknown struct{ v ssa.Value }
	foldNil     struct{}
)

func (m *foldMap) get(k interface{}) (interface{}, bool) {
	for i := range m.keys {
		if m.keys[i] == k {
			return m.vals[i], true
		}
	}
	return nil, false
}

// strKeys lists the string keys of the map, sorted.
func (m *foldMap) strKeys() []string {
	var r []string
	for _, k := range m.keys {
		if s, ok := k.(string); ok {
			r = append(r, s)
		}
	}
	sort.Strings(r)
	return r
}

type folder struct {
	p    *Program
	busy map[ssa.Value]bool
	env  map[ssa.Value]interface{}
	deep int
}

func (p *Program) fold(v ssa.Value) interface{} {
	return (&folder{p: p, busy: map[ssa.Value]bool{}, env: map[ssa.Value]interface{}{}}).fold(v)
}

func (f *folder) fold(v ssa.Value) interface{} {
	if v == nil {
		return foldNil{}
	}
	if r, ok := f.env[v]; ok {
		return r
	}
	if f.busy[v] {
		return foldUnknown{v}
	}
	f.busy[v] = true
	defer delete(f.busy, v)
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return foldNil{}
		}
		switch v.Value.Kind() {
		case constant.String:
			return constant.StringVal(v.Value)
		case constant.Bool:
			return constant.BoolVal(v.Value)
		case constant.Int:
			if n, ok := constant.Int64Val(v.Value); ok {
				return n
			}
		}
		fl, _ := constant.Float64Val(v.Value)
		return fl
	case *ssa.Function:
		return foldFunc{f.p.realFunc(v), v.Signature, v}
	case *ssa.MakeClosure:
		fn := v.Fn.(*ssa.Function)
		return foldFunc{f.p.realFunc(fn), fn.Signature, v}
	case *ssa.MakeInterface:
		return f.fold(v.X)
	case *ssa.ChangeInterface:
		return f.fold(v.X)
	case *ssa.ChangeType:
		return f.fold(v.X)
	case *ssa.TypeAssert:
		if !v.CommaOk {
			return f.fold(v.X)
		}
	case *ssa.Convert:
		r := f.fold(v.X)
		if n, ok := r.(int64); ok {
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return string(rune(n))
			}
		}
		return r
	case *ssa.Slice:
		if v.Low == nil && v.High == nil {
			if al, ok := v.X.(*ssa.Alloc); ok {
				return f.cell(al)
			}
		}
	case *ssa.Alloc:
		return f.cell(v)
	case *ssa.MakeMap:
		return f.mapOf(v)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			switch a := v.X.(type) {
			case *ssa.Global:
				return f.global(a)
			case *ssa.Alloc:
				return f.cell(a)
			case *ssa.FieldAddr, *ssa.IndexAddr:
				return f.load(v.X)
			case *ssa.FreeVar:
				if al := freeVarAlloc(a); al != nil {
					return f.cell(al)
				}
			}
		}
		if v.Op == token.NOT {
			if b, ok := f.fold(v.X).(bool); ok {
				return !b
			}
		}
	case *ssa.FreeVar:
		if b := freeVarBinding(v); b != nil {
			return f.fold(b)
		}
	case *ssa.BinOp:
		if v.Op == token.ADD {
			x, y := f.fold(v.X), f.fold(v.Y)
			if a, ok := x.(string); ok {
				if b, ok := y.(string); ok {
					return a + b
				}
			}
			if a, ok := x.(int64); ok {
				if b, ok := y.(int64); ok {
					return a + b
				}
			}
		}
	case *ssa.Lookup:
		if !v.CommaOk {
			if m, ok := f.fold(v.X).(*foldMap); ok {
				if r, ok := m.get(f.fold(v.Index)); ok {
					return r
				}
			}
		}
	case *ssa.Call:
		return f.call(v)
	}
	return foldUnknown{v}
}

func (f *folder) load(addr ssa.Value) interface{} {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		var base interface{}
		switch x := a.X.(type) {
		case *ssa.Alloc:
			base = f.cell(x)
		default:
			base = f.fold(x)
		}
		if s, ok := base.(foldStruct); ok {
			return s[foldField(a.X.Type(), a.Field)]
		}
	case *ssa.IndexAddr:
		idx, ok := f.fold(a.Index).(int64)
		var base interface{}
		if g, isG := a.X.(*ssa.Global); isG {
			base = f.global(g)
		} else {
			base = f.fold(a.X)
		}
		if l, isL := base.(foldList); ok && isL && idx >= 0 && int(idx) < len(l) {
			return l[idx]
		}
	}
	return foldUnknown{addr}
}

func foldField(t types.Type, i int) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return varName(st.Field(i))
	}
	return fmt.Sprint(i)
}

func (f *folder) global(g *ssa.Global) interface{} {
	if r, ok := f.env[g]; ok {
		return r
	}
	sts := f.p.globStores[g]
	if len(sts) == 1 {
		return f.fold(sts[0].Val)
	}
	if len(sts) == 0 {
		return f.cell(g)
	}
	// Declared empty then assigned once.
	var real []*ssa.Store
	for _, s := range sts {
		if c, ok := s.Val.(*ssa.Const); ok && c.Value == nil {
			continue
		}
		real = append(real, s)
	}
	if len(real) == 1 {
		return f.fold(real[0].Val)
	}
	return foldUnknown{g}
}

// cell folds the content of a memory cell from the stores made to it and to its parts.
func (f *folder) cell(addr ssa.Value) interface{} {
	pt, ok := addr.Type().Underlying().(*types.Pointer)
	if !ok {
		return foldUnknown{addr}
	}
	var refs []ssa.Instruction
	if g, isG := addr.(*ssa.Global); isG {
		for _, fn := range f.p.Funcs {
			if fn.Pkg != g.Pkg || fn.Name() != "init" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if *op == ssa.Value(g) {
							refs = append(refs, in)
						}
					}
				}
			}
		}
	} else if addr.Referrers() != nil {
		refs = *addr.Referrers()
	}
	var direct []ssa.Value
	parts := map[int64]interface{}{}
	fields := map[string]interface{}{}
	for _, r := range refs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == addr {
				direct = append(direct, r.Val)
			}
		case *ssa.IndexAddr:
			if c, ok := r.Index.(*ssa.Const); ok && r.X == addr {
				if hasStore(r) {
					parts[c.Int64()] = f.cell(r)
				}
			}
		case *ssa.FieldAddr:
			if r.X == addr && hasStore(r) {
				fields[foldField(addr.Type(), r.Field)] = f.cell(r)
			}
		}
	}
	if len(parts) > 0 {
		if arr, ok := pt.Elem().Underlying().(*types.Array); ok {
			l := make(foldList, arr.Len())
			for i := range l {
				l[i] = parts[int64(i)]
			}
			return l
		}
	}
	if len(fields) > 0 {
		return foldStruct(fields)
	}
	if len(direct) == 1 {
		return f.fold(direct[0])
	}
	if len(direct) == 0 {
		switch pt.Elem().Underlying().(type) {
		case *types.Struct:
			return foldStruct{}
		case *types.Array:
			return foldList{}
		}
	}
	return foldUnknown{addr}
}

func hasStore(addr ssa.Value) bool {
	if addr.Referrers() == nil {
		return false
	}
	for _, r := range *addr.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == addr {
				return true
			}
		case *ssa.IndexAddr:
			if hasStore(r) {
				return true
			}
		case *ssa.FieldAddr:
			if hasStore(r) {
				return true
			}
		}
	}
	return false
}

func (f *folder) mapOf(v *ssa.MakeMap) interface{} {
	m := &foldMap{}
	visit := func(refs []ssa.Instruction) {
		for _, r := range refs {
			if mu, ok := r.(*ssa.MapUpdate); ok && mu.Map == ssa.Value(v) {
				m.keys = append(m.keys, f.fold(mu.Key))
				m.vals = append(m.vals, f.fold(mu.Value))
				m.pos = append(m.pos, mu.Pos())
			}
		}
	}
	visit(*v.Referrers())
	return m
}

// call folds pure library functions on constants, and small repository helpers.
func (f *folder) call(c *ssa.Call) interface{} {
	name := f.p.calleeName(c.Common())
	args := make([]interface{}, len(c.Call.Args))
	for i, a := range c.Call.Args {
		args[i] = f.fold(a)
	}
	str := func(i int) (string, bool) {
		if i >= len(args) {
			return "", false
		}
		s, ok := args[i].(string)
		return s, ok
	}
	switch name {
	case "fmt.Sprintf":
		s, ok := str(0)
		if l, isL := args[1].(foldList); ok && isL {
			for _, x := range l {
				switch x.(type) {
				case string, int64, bool, float64:
				default:
					return foldUnknown{c}
				}
			}
			return fmt.Sprintf(s, l...)
		}
		if _, isNil := args[1].(foldNil); ok && isNil {
			return fmt.Sprintf(s)
		}
	case "strings.TrimSpace":
		if s, ok := str(0); ok {
			return strings.TrimSpace(s)
		}
	case "strings.ToLower":
		if s, ok := str(0); ok {
			return strings.ToLower(s)
		}
	case "strings.Replace", "strings.ReplaceAll":
		a, ok1 := str(0)
		b, ok2 := str(1)
		d, ok3 := str(2)
		if ok1 && ok2 && ok3 && (len(args) == 3 || args[3] == int64(-1)) {
			return strings.ReplaceAll(a, b, d)
		}
	}
	fn := f.p.Callee(c.Common())
	if fn != nil && f.p.inRepo(fn) && len(fn.Blocks) == 1 && len(fn.Params) == len(args) && f.deep < 6 {
		b := fn.Blocks[0]
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
			sub := &folder{p: f.p, busy: map[ssa.Value]bool{}, env: map[ssa.Value]interface{}{}, deep: f.deep + 1}
			for i, prm := range fn.Params {
				sub.env[prm] = args[i]
			}
			return sub.fold(ret.Results[0])
		}
	}
	return foldUnknown{c}
}
