package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type varUse struct {
	v        *types.Var
	assigned bool
}

// used gives the local variables of the function declared outside of [from,to) and used by the nodes.
func (c *ctx) used(d *ast.FuncDecl, nodes []ast.Node, from, to token.Pos) ([]varUse, bool) {
	m := map[*types.Var]*varUse{}
	ok := true
	for _, n := range nodes {
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.Ident:
				if v, isV := c.pkg.TypesInfo.Uses[x].(*types.Var); isV && !v.IsField() && v.Pos() >= d.Pos() && v.Pos() < d.End() && !(v.Pos() >= from && v.Pos() < to) {
					if m[v] == nil {
						m[v] = &varUse{v: v}
					}
				}
				if t, isT := c.pkg.TypesInfo.Uses[x].(*types.TypeName); isT && t.Pos() >= d.Pos() && t.Pos() < d.End() {
					ok = false
				}
				if t, isT := c.pkg.TypesInfo.Uses[x].(*types.Const); isT && t.Pos() >= d.Pos() && t.Pos() < d.End() && !(t.Pos() >= from && t.Pos() < to) {
					ok = false
				}
			}
			return true
		})
		mark := func(e ast.Expr) {
			for {
				switch y := e.(type) {
				case *ast.ParenExpr:
					e = y.X
					continue
				case *ast.SelectorExpr:
					if _, isS := c.pkg.TypesInfo.TypeOf(y.X).Underlying().(*types.Struct); isS {
						e = y.X
						continue
					}
				case *ast.IndexExpr:
					if _, isA := c.pkg.TypesInfo.TypeOf(y.X).Underlying().(*types.Array); isA {
						e = y.X
						continue
					}
				}
				break
			}
			if id, isId := e.(*ast.Ident); isId {
				if v, isV := c.pkg.TypesInfo.Uses[id].(*types.Var); isV && m[v] != nil {
					m[v].assigned = true
				}
			}
		}
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(x.X)
			case *ast.RangeStmt:
				if x.Tok == token.ASSIGN {
					if x.Key != nil {
						mark(x.Key)
					}
					if x.Value != nil {
						mark(x.Value)
					}
				}
			}
			return true
		})
	}
	var res []varUse
	for _, u := range m {
		// captured, or address taken, anywhere
		if c.escapes(d, u.v) {
			ok = false
		}
		// method with a pointer receiver called on a struct variable
		res = append(res, *u)
	}
	sort.Slice(res, func(i, j int) bool { return res[i].v.Pos() < res[j].v.Pos() })
	return res, ok
}

func (c *ctx) escapes(d *ast.FuncDecl, v *types.Var) bool {
	found := false
	assigned := 0
	captured := false
	var walk func(n ast.Node, lit bool)
	walk = func(n ast.Node, lit bool) {
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncLit:
				if x != n {
					walk(x.Body, true)
					return false
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					e := x.X
					for {
						if s, ok := e.(*ast.SelectorExpr); ok {
							e = s.X
							continue
						}
						break
					}
					if id, ok := e.(*ast.Ident); ok && c.pkg.TypesInfo.Uses[id] == v {
						found = true
					}
				}
			case *ast.SelectorExpr:
				if id, ok := x.X.(*ast.Ident); ok && c.pkg.TypesInfo.Uses[id] == v {
					if sel := c.pkg.TypesInfo.Selections[x]; sel != nil && sel.Kind() == types.MethodVal {
						if _, isP := sel.Obj().Type().(*types.Signature).Recv().Type().(*types.Pointer); isP {
							if _, isP := v.Type().Underlying().(*types.Pointer); !isP {
								found = true
							}
						}
					}
				}
			case *ast.Ident:
				if c.pkg.TypesInfo.Uses[x] == v {
					if lit && !(v.Pos() >= n.Pos() && v.Pos() < n.End()) {
						captured = true
					}
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); ok && c.pkg.TypesInfo.Uses[id] == v {
						assigned++
					}
				}
			}
			return true
		})
	}
	walk(d.Body, false)
	return found || captured && assigned > 0
}

func (c *ctx) params(us []varUse) (ps, args []string, ok bool) {
	for _, u := range us {
		t, good := c.typeText(u.v.Type())
		if !good {
			return nil, nil, false
		}
		ps = append(ps, u.v.Name()+" "+t)
		args = append(args, u.v.Name())
	}
	return ps, args, true
}

// shadows tells whether the names used inside would change meaning in a package function.
func jumps(n ast.Node, ret bool) bool {
	found := false
	var walk func(n ast.Node, loops int)
	walk = func(n ast.Node, loops int) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.FuncLit:
				ast.Inspect(m, func(x ast.Node) bool {
					if id, ok := x.(*ast.Ident); ok && id.Name == "recover" {
						found = true
					}
					return true
				})
				return false
			case *ast.ReturnStmt:
				if !ret {
					found = true
				}
			case *ast.DeferStmt, *ast.LabeledStmt:
				found = true
			case *ast.ForStmt:
				if m != n {
					walk(m.Body, loops+1)
					return false
				}
			case *ast.RangeStmt:
				if m != n {
					walk(m.Body, loops+1)
					return false
				}
			case *ast.SwitchStmt:
				if m != n {
					walk(m.Body, loops+1) // a continue inside is wrong, and detected below
					ast.Inspect(m.Body, func(x ast.Node) bool {
						if b, ok := x.(*ast.BranchStmt); ok && b.Tok == token.CONTINUE && loops == 0 {
							found = true
						}
						return true
					})
					return false
				}
			case *ast.BranchStmt:
				if m.Label != nil || loops == 0 && m.Tok != token.FALLTHROUGH {
					found = true
				}
			case *ast.CallExpr:
				if id, ok := m.Fun.(*ast.Ident); ok && id.Name == "recover" {
					found = true
				}
			}
			return !found
		})
	}
	walk(n, 0)
	return found
}

func terminates(list []ast.Stmt) bool {
	if len(list) == 0 {
		return false
	}
	_, ok := list[len(list)-1].(*ast.ReturnStmt)
	return ok
}

func init() {
	// the body of an if or of a loop becomes a function
	mutators["extract"] = func(c *ctx) {
		c.funcs(func(d *ast.FuncDecl) {
			if d.Type.TypeParams != nil || c.generic(d) {
				return
			}
			outermost(d.Body, func(n ast.Node) bool {
				var body *ast.BlockStmt
				switch s := n.(type) {
				case *ast.IfStmt:
					body = s.Body
				case *ast.ForStmt:
					body = s.Body
				case *ast.RangeStmt:
					body = s.Body
				default:
					return false
				}
				if len(body.List) == 0 || jumps(body, false) {
					return false
				}
				us, ok := c.used(d, []ast.Node{body}, body.Lbrace, body.Rbrace)
				if !ok {
					return false
				}
				ps, args, ok := c.params(us)
				if !ok {
					return false
				}
				var outs, outT []string
				for _, u := range us {
					if u.assigned {
						t, _ := c.typeText(u.v.Type())
						outs = append(outs, u.v.Name())
						outT = append(outT, t)
					}
				}
				f := "helper" + strings.Title(d.Name.Name) + c.fresh("")
				call := f + "(" + strings.Join(args, ", ") + ")"
				inner := "{" + c.src[c.off(body.Lbrace)+1:c.off(body.Rbrace)] + "}\n"
				if len(outs) > 0 {
					call = strings.Join(outs, ", ") + " = " + call
					inner += "\nreturn " + strings.Join(outs, ", ") + "\n"
				}
				c.edits = append(c.edits, edit{c.off(body.Lbrace) + 1, c.off(body.Rbrace), "\n" + call + "\n"})
				c.insert(d.End(), fmt.Sprintf("\n\nfunc %s(%s) (%s) {%s}\n", f, strings.Join(ps, ", "), strings.Join(outT, ", "), inner))
				return true
			})
		})
	}
	// the end of a function becomes another function
	mutators["extractret"] = func(c *ctx) {
		c.funcs(func(d *ast.FuncDecl) {
			if d.Type.TypeParams != nil || c.generic(d) {
				return
			}
			rs := ""
			if d.Type.Results != nil {
				for _, f := range d.Type.Results.List {
					if len(f.Names) > 0 {
						return
					}
				}
				rs = c.text(d.Type.Results)
			}
			l := d.Body.List
			if len(l) < 3 {
				return
			}
			tail := l[len(l)/2:]
			if rs != "" && !terminates(tail) {
				return
			}
			nodes := []ast.Node{}
			for _, s := range tail {
				if jumps(s, true) {
					return
				}
				nodes = append(nodes, s)
			}
			us, ok := c.used(d, nodes, tail[0].Pos(), d.Body.Rbrace)
			if !ok {
				return
			}
			ps, args, ok := c.params(us)
			if !ok {
				return
			}
			f := "rest" + strings.Title(d.Name.Name) + c.fresh("")
			call := f + "(" + strings.Join(args, ", ") + ")"
			if rs != "" {
				call = "return " + call
			}
			inner := c.src[c.off(tail[0].Pos()):c.off(d.Body.Rbrace)]
			c.edits = append(c.edits, edit{c.off(tail[0].Pos()), c.off(d.Body.Rbrace), call + "\n"})
			c.insert(d.End(), fmt.Sprintf("\n\nfunc %s(%s) %s {\n%s}\n", f, strings.Join(ps, ", "), rs, inner))
		})
	}
	// conditions become predicates
	mutators["pred"] = func(c *ctx) {
		c.funcs(func(d *ast.FuncDecl) {
			if d.Type.TypeParams != nil || c.generic(d) {
				return
			}
			outermost(d.Body, func(n ast.Node) bool {
				s, ok := n.(*ast.IfStmt)
				if !ok || literal(s.Cond) {
					return false
				}
				us, ok := c.used(d, []ast.Node{s.Cond}, s.Cond.Pos(), s.Cond.End())
				if !ok || len(us) == 0 {
					return false
				}
				ps, args, ok := c.params(us)
				if !ok {
					return false
				}
				f := "cond" + strings.Title(d.Name.Name) + c.fresh("")
				c.replace(s.Cond, f+"("+strings.Join(args, ", ")+")")
				c.insert(d.End(), fmt.Sprintf("\n\nfunc %s(%s) bool { return %s }\n", f, strings.Join(ps, ", "), c.text(s.Cond)))
				return true
			})
		})
	}
	// a trailing if becomes an early exit
	mutators["guard"] = func(c *ctx) {
		c.funcs(func(d *ast.FuncDecl) {
			do := func(list []ast.Stmt, exit string) {
				if len(list) == 0 {
					return
				}
				s, ok := list[len(list)-1].(*ast.IfStmt)
				if !ok || s.Else != nil || s.Init != nil {
					return
				}
				body := c.src[c.off(s.Body.Lbrace)+1 : c.off(s.Body.Rbrace)]
				c.replace(s, "if !("+c.text(s.Cond)+") {\n"+exit+"\n}\n{"+body+"}")
			}
			if d.Type.Results == nil {
				do(d.Body.List, "return")
			}
			ast.Inspect(d.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.ForStmt:
					do(n.Body.List, "continue")
				case *ast.RangeStmt:
					do(n.Body.List, "continue")
				}
				return true
			})
		})
	}
	// if c { ...; return } rest  =>  if c { ...; return } else { rest }
	mutators["ifelse"] = func(c *ctx) {
		c.funcs(func(d *ast.FuncDecl) {
			if d.Type.Results != nil && len(d.Type.Results.List[0].Names) > 0 {
				return
			}
			l := d.Body.List
			for i, st := range l {
				s, ok := st.(*ast.IfStmt)
				if !ok || s.Else != nil || !terminates(s.Body.List) || i == len(l)-1 {
					continue
				}
				lab := false
				ast.Inspect(d.Body, func(n ast.Node) bool {
					if _, ok := n.(*ast.LabeledStmt); ok {
						lab = true
					}
					return true
				})
				if lab || d.Type.Results != nil && !terminates(l) {
					return
				}
				c.insert(s.End(), " else {")
				c.insert(d.Body.Rbrace, "}\n")
				return
			}
		})
	}
	// for c { } => for { if !c { break } ... }
	mutators["forbreak"] = func(c *ctx) {
		c.funcs(func(d *ast.FuncDecl) {
			ast.Inspect(d.Body, func(n ast.Node) bool {
				s, ok := n.(*ast.ForStmt)
				if !ok || s.Cond == nil {
					return true
				}
				cond := c.text(s.Cond)
				c.replace(s.Cond, "")
				if s.Init == nil && s.Post == nil {
					c.edits[len(c.edits)-1].text = ""
				}
				c.insert(s.Body.Lbrace+1, "\nif !("+cond+") {\nbreak\n}\n")
				return true
			})
		})
	}
}

func (c *ctx) generic(d *ast.FuncDecl) bool {
	if d.Recv == nil {
		return false
	}
	t := d.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	_, ok := t.(*ast.IndexExpr)
	return ok
}
