// mutate rewrites a copy of the repository without changing what it does. It is used to find the
// places where the checker judges how the code is written rather than what it does.
// usage: mutate -dir COPY -m NAME [-only file[:func]]
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	from, to int
	text     string
}

type ctx struct {
	pkg   *packages.Package
	file  *ast.File
	src   string
	base  int
	edits []edit
	n     int
}

func (c *ctx) off(p token.Pos) int    { return c.pkg.Fset.Position(p).Offset }
func (c *ctx) text(n ast.Node) string { return c.src[c.off(n.Pos()):c.off(n.End())] }
func (c *ctx) replace(n ast.Node, t string) {
	c.edits = append(c.edits, edit{c.off(n.Pos()), c.off(n.End()), t})
}
func (c *ctx) insert(p token.Pos, t string) { c.edits = append(c.edits, edit{c.off(p), c.off(p), t}) }

var counter int

func (c *ctx) fresh(s string) string { counter++; return fmt.Sprintf("%sZ%d", s, counter) }

var only = flag.String("only", "", "file[:func]")

// wanted functions of the file
func (c *ctx) funcs(f func(d *ast.FuncDecl)) {
	for _, d := range c.file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		if i := strings.Index(*only, ":"); i >= 0 && (*only)[i+1:] != fd.Name.Name {
			continue
		}
		f(fd)
	}
}

// outermost calls f on nodes, not descending into those f accepts (so that edits do not overlap)
func outermost(n ast.Node, f func(ast.Node) bool) {
	ast.Inspect(n, func(m ast.Node) bool {
		if m == nil {
			return false
		}
		return !f(m)
	})
}

func hasJump(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.LabeledStmt:
			found = true
		case *ast.CallExpr:
			if id, ok := m.Fun.(*ast.Ident); ok && id.Name == "recover" {
				found = true
			}
		}
		return !found
	})
	return found
}

func local(t types.Type) bool {
	switch t := t.(type) {
	case *types.Named:
		return t.Obj().Pkg() != nil && t.Obj().Parent() != t.Obj().Pkg().Scope()
	case *types.Pointer:
		return local(t.Elem())
	case *types.Slice:
		return local(t.Elem())
	case *types.Map:
		return local(t.Elem()) || local(t.Key())
	}
	return false
}

func (c *ctx) typeText(t types.Type) (string, bool) {
	ok := !local(t)
	s := types.TypeString(t, func(p *types.Package) string {
		if p == c.pkg.Types {
			return ""
		}
		for _, im := range c.file.Imports {
			if strings.Trim(im.Path.Value, `"`) == p.Path() && p.Name() != "main" {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	})
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '.' && s[i+1] >= 'a' && s[i+1] <= 'z' {
			ok = false
		}
	}
	return s, ok
}

var mutators = map[string]func(c *ctx){
	"defer": func(c *ctx) {
		c.funcs(func(d *ast.FuncDecl) { c.insert(d.Body.Lbrace+1, "\n\tdefer func() {}()\n") })
	},
	"noop": func(c *ctx) {
		c.funcs(func(d *ast.FuncDecl) {
			c.insert(d.Body.Lbrace+1, "\n\tif unusedZ := len(\"x\"); unusedZ == 0 {\n\t\tunusedZ++\n\t}\n")
		})
	},
	"rename": func(c *ctx) {
		c.funcs(func(d *ast.FuncDecl) {
			from, to := d.Pos(), d.End()
			ast.Inspect(d, func(n ast.Node) bool {
				id, ok := n.(*ast.Ident)
				if !ok || id.Name == "_" {
					return true
				}
				obj := c.pkg.TypesInfo.ObjectOf(id)
				if v, ok := obj.(*types.Var); ok && !v.IsField() && v.Pos() >= from && v.Pos() < to {
					c.replace(id, id.Name+"Zz")
				}
				if obj == nil { // symbol of a type switch
					if _, def := c.pkg.TypesInfo.Defs[id]; def {
						c.replace(id, id.Name+"Zz")
					}
				}
				return true
			})
		})
	},
	"swapif": func(c *ctx) {
		c.funcs(func(d *ast.FuncDecl) {
			outermost(d.Body, func(n ast.Node) bool {
				s, ok := n.(*ast.IfStmt)
				if !ok || s.Else == nil {
					return false
				}
				init := ""
				if s.Init != nil {
					init = c.text(s.Init) + "; "
				}
				els := c.text(s.Else)
				if _, isIf := s.Else.(*ast.IfStmt); isIf {
					els = "{\n" + els + "\n}"
				}
				c.replace(s, "if "+init+"!("+c.text(s.Cond)+") "+els+" else "+c.text(s.Body))
				return true
			})
		})
	},
	"splitif": func(c *ctx) {
		c.funcs(func(d *ast.FuncDecl) {
			ast.Inspect(d.Body, func(n ast.Node) bool {
				if s, ok := n.(*ast.IfStmt); ok {
					if e, ok := s.Else.(*ast.IfStmt); ok {
						if e.Init != nil {
							return true
						}
					}
				}
				var list []ast.Stmt
				switch n := n.(type) {
				case *ast.BlockStmt:
					list = n.List
				case *ast.CaseClause:
					list = n.Body
				}
				for _, st := range list {
					if s, ok := st.(*ast.IfStmt); ok && s.Init != nil {
						c.edits = append(c.edits, edit{c.off(s.Pos()), c.off(s.Cond.Pos()), "{\n" + c.text(s.Init) + "\nif "})
						c.insert(s.End(), "\n}")
					}
				}
				return true
			})
		})
	},
	"returns": func(c *ctx) {
		c.funcs(func(d *ast.FuncDecl) {
			var walk func(body ast.Node, sig *types.Signature)
			walk = func(body ast.Node, sig *types.Signature) {
				ast.Inspect(body, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.FuncLit:
						walk(n.Body, c.pkg.TypesInfo.TypeOf(n).(*types.Signature))
						return false
					case *ast.ReturnStmt:
						if len(n.Results) == 0 {
							return true
						}
						lit := false
						for _, r := range n.Results {
							ast.Inspect(r, func(m ast.Node) bool {
								if _, ok := m.(*ast.FuncLit); ok {
									lit = true
								}
								return !lit
							})
						}
						if lit {
							return true
						}
						var names []string
						out := ""
						if len(n.Results) == sig.Results().Len() {
							for i, r := range n.Results {
								t, ok := c.typeText(sig.Results().At(i).Type())
								if !ok {
									return true
								}
								nm := c.fresh("res")
								names = append(names, nm)
								out += fmt.Sprintf("var %s %s = %s\n", nm, t, c.text(r))
							}
						} else {
							for i := 0; i < sig.Results().Len(); i++ {
								names = append(names, c.fresh("res"))
							}
							out = strings.Join(names, ", ") + " := " + c.text(n.Results[0]) + "\n"
						}
						c.replace(n, out+"return "+strings.Join(names, ", "))
						return false
					}
					return true
				})
			}
			walk(d.Body, c.pkg.TypesInfo.Defs[d.Name].Type().(*types.Signature))
		})
	},
	"wrap": func(c *ctx) {
		c.funcs(func(d *ast.FuncDecl) {
			if d.Recv == nil && (d.Name.Name == "init" || d.Name.Name == "main") || d.Type.TypeParams != nil {
				return
			}
			names := map[string]bool{}
			args := []string{}
			head := "func "
			recv := ""
			k := 0
			nm := func(id *ast.Ident) string {
				k++
				if id == nil || id.Name == "_" {
					return fmt.Sprintf("arg%d", k)
				}
				names[id.Name] = true
				return id.Name
			}
			if d.Recv != nil {
				f := d.Recv.List[0]
				var id *ast.Ident
				if len(f.Names) > 0 {
					id = f.Names[0]
				}
				if _, ok := f.Type.(*ast.IndexExpr); ok {
					return
				}
				recv = nm(id)
				head += "(" + recv + " " + c.text(f.Type) + ") "
			}
			var ps []string
			for _, f := range d.Type.Params.List {
				t := c.text(f.Type)
				ids := f.Names
				if len(ids) == 0 {
					ids = []*ast.Ident{nil}
				}
				for _, id := range ids {
					n := nm(id)
					ps = append(ps, n+" "+t)
					if strings.HasPrefix(t, "...") {
						n += "..."
					}
					args = append(args, n)
				}
			}
			head += d.Name.Name + "(" + strings.Join(ps, ", ") + ") "
			ret := ""
			if d.Type.Results != nil && len(d.Type.Results.List) > 0 {
				var rs []string
				for _, f := range d.Type.Results.List {
					n := len(f.Names)
					if n == 0 {
						n = 1
					}
					for i := 0; i < n; i++ {
						rs = append(rs, c.text(f.Type))
					}
				}
				head += "(" + strings.Join(rs, ", ") + ") "
				ret = "return "
			}
			inner := "zz" + d.Name.Name
			if recv != "" {
				inner = recv + "." + inner
			}
			c.replace(d.Name, "zz"+d.Name.Name)
			c.insert(d.End(), "\n\n"+head+"{ "+ret+inner+"("+strings.Join(args, ", ")+") }\n")
		})
	},
	"switch": func(c *ctx) {
		c.funcs(func(d *ast.FuncDecl) {
			outermost(d.Body, func(n ast.Node) bool {
				s, ok := n.(*ast.SwitchStmt)
				if !ok || s.Init != nil {
					return false
				}
				bad := false
				ast.Inspect(s, func(m ast.Node) bool {
					if b, ok := m.(*ast.BranchStmt); ok && (b.Tok == token.FALLTHROUGH || b.Tok == token.BREAK) {
						bad = true
					}
					return !bad
				})
				if bad {
					return false
				}
				out, def := "", ""
				tag := ""
				pre := ""
				if s.Tag != nil {
					tag = c.fresh("tag")
					pre = tag + " := " + c.text(s.Tag) + "; "
				}
				for _, cl := range s.Body.List {
					cc := cl.(*ast.CaseClause)
					body := "{\n"
					if len(cc.Body) > 0 {
						body += c.src[c.off(cc.Body[0].Pos()):c.off(cc.Body[len(cc.Body)-1].End())]
					}
					body += "\n}"
					if cc.List == nil {
						def = body
						continue
					}
					var conds []string
					for _, e := range cc.List {
						if tag != "" {
							conds = append(conds, tag+" == "+c.text(e))
						} else {
							conds = append(conds, "("+c.text(e)+")")
						}
					}
					if out != "" {
						out += " else "
					}
					out += "if " + pre + strings.Join(conds, " || ") + " " + body
					pre = ""
				}
				if out == "" {
					return false
				}
				if def != "" {
					out += " else " + def
				}
				c.replace(s, out)
				return true
			})
		})
	},
	"flipcmp": func(c *ctx) {
		flip := map[token.Token]string{token.EQL: "==", token.NEQ: "!=", token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<="}
		c.funcs(func(d *ast.FuncDecl) {
			outermost(d.Body, func(n ast.Node) bool {
				b, ok := n.(*ast.BinaryExpr)
				if !ok || flip[b.Op] == "" || calls(b.X) && calls(b.Y) {
					return false
				}
				c.replace(b, c.text(b.Y)+" "+flip[b.Op]+" "+c.text(b.X))
				return true
			})
		})
	},
	"demorgan": func(c *ctx) {
		c.funcs(func(d *ast.FuncDecl) {
			outermost(d.Body, func(n ast.Node) bool {
				b, ok := n.(*ast.BinaryExpr)
				if !ok || b.Op != token.LAND && b.Op != token.LOR {
					return false
				}
				op := "||"
				if b.Op == token.LOR {
					op = "&&"
				}
				c.replace(b, "!(!("+c.text(b.X)+") "+op+" !("+c.text(b.Y)+"))")
				return true
			})
		})
	},
	"nestif": func(c *ctx) { // if a && b {x} without else => if a { if b {x} }
		c.funcs(func(d *ast.FuncDecl) {
			outermost(d.Body, func(n ast.Node) bool {
				s, ok := n.(*ast.IfStmt)
				if !ok || s.Else != nil {
					return ok && s.Else != nil
				}
				b, ok := s.Cond.(*ast.BinaryExpr)
				if !ok || b.Op != token.LAND {
					return false
				}
				init := ""
				if s.Init != nil {
					init = c.text(s.Init) + "; "
				}
				c.replace(s, "if "+init+c.text(b.X)+" {\nif "+c.text(b.Y)+" "+c.text(s.Body)+"\n}")
				return true
			})
		})
	},
	"range": func(c *ctx) {
		c.funcs(func(d *ast.FuncDecl) {
			ast.Inspect(d.Body, func(n ast.Node) bool {
				var list []ast.Stmt
				switch n := n.(type) {
				case *ast.BlockStmt:
					list = n.List
				case *ast.CaseClause:
					list = n.Body
				}
				for _, st := range list {
					s, ok := st.(*ast.RangeStmt)
					if !ok || s.Tok == token.ASSIGN {
						continue
					}
					if _, ok := c.pkg.TypesInfo.TypeOf(s.X).Underlying().(*types.Slice); !ok {
						continue
					}
					i, l := c.fresh("i"), c.fresh("list")
					pre := ""
					if s.Key != nil && c.text(s.Key) != "_" {
						i = c.text(s.Key)
						// the index could be modified by the body
					}
					if s.Value != nil && c.text(s.Value) != "_" {
						pre = "\n" + c.text(s.Value) + " := " + l + "[" + i + "]\n"
					}
					c.edits = append(c.edits, edit{c.off(s.Pos()), c.off(s.Body.Lbrace) + 1, "{\n" + l + " := " + c.text(s.X) + "\nfor " + i + " := 0; " + i + " < len(" + l + "); " + i + "++ {" + pre + "{"})
					c.insert(s.End(), "\n}\n}")
				}
				return true
			})
		})
	},
	"hoist": func(c *ctx) {
		c.funcs(func(d *ast.FuncDecl) {
			ast.Inspect(d.Body, func(n ast.Node) bool {
				var list []ast.Stmt
				switch n := n.(type) {
				case *ast.BlockStmt:
					list = n.List
				case *ast.CaseClause:
					list = n.Body
				}
				for _, st := range list {
					var call *ast.CallExpr
					switch s := st.(type) {
					case *ast.ExprStmt:
						call, _ = s.X.(*ast.CallExpr)
					case *ast.AssignStmt:
						if len(s.Rhs) == 1 {
							call, _ = s.Rhs[0].(*ast.CallExpr)
						}
					case *ast.ReturnStmt:
						if len(s.Results) == 1 {
							call, _ = s.Results[0].(*ast.CallExpr)
						}
					}
					if call == nil || c.pkg.TypesInfo.Types[call.Fun].IsType() {
						continue
					}
					if id, ok := call.Fun.(*ast.Ident); ok {
						if _, isB := c.pkg.TypesInfo.Uses[id].(*types.Builtin); isB {
							continue
						}
					}
					pre := ""
					for _, a := range call.Args {
						tv := c.pkg.TypesInfo.Types[a]
						if tv.Value != nil || tv.IsNil() || !calls(a) || literal(a) {
							continue
						}
						if _, tuple := tv.Type.(*types.Tuple); tuple {
							continue
						}
						nm := c.fresh("arg")
						pre += nm + " := " + c.text(a) + "\n"
						c.replace(a, nm)
					}
					if pre != "" {
						c.insert(st.Pos(), pre)
					}
				}
				return true
			})
		})
	},
	"closure": func(c *ctx) {
		c.funcs(func(d *ast.FuncDecl) {
			outermost(d.Body, func(n ast.Node) bool {
				s, ok := n.(*ast.IfStmt)
				if !ok || hasJump(s.Body) || len(s.Body.List) == 0 {
					return false
				}
				c.insert(s.Body.Lbrace+1, "\nfunc() {")
				c.insert(s.Body.Rbrace, "}()\n")
				return true
			})
		})
	},
	"reorder": func(c *ctx) {
		var fds []*ast.FuncDecl
		for _, d := range c.file.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				fds = append(fds, fd)
			}
		}
		for i, fd := range fds {
			o := fds[len(fds)-1-i]
			from := fd.Pos()
			c.edits = append(c.edits, edit{c.off(from), c.off(fd.End()), c.text(o)})
		}
	},
	"vars": func(c *ctx) { // x := e  =>  var x = e
		c.funcs(func(d *ast.FuncDecl) {
			ast.Inspect(d.Body, func(n ast.Node) bool {
				var list []ast.Stmt
				switch n := n.(type) {
				case *ast.BlockStmt:
					list = n.List
				case *ast.CaseClause:
					list = n.Body
				}
				for _, st := range list {
					a, ok := st.(*ast.AssignStmt)
					if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
						continue
					}
					if literal(a.Rhs[0]) {
						continue
					}
					t, ok := c.typeText(c.pkg.TypesInfo.TypeOf(a.Lhs[0]))
					if !ok {
						continue
					}
					c.edits = append(c.edits, edit{c.off(st.Pos()), c.off(a.Rhs[0].Pos()), "var " + c.text(a.Lhs[0]) + " " + t + "\n" + c.text(a.Lhs[0]) + " = "})
				}
				return true
			})
		})
	},
}

func calls(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.CallExpr); ok {
			found = true
		}
		return !found
	})
	return found
}

func literal(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			found = true
		}
		return !found
	})
	return found
}

func main() {
	dir := flag.String("dir", "", "")
	m := flag.String("m", "", "")
	flag.Parse()
	if *m == "" {
		var names []string
		for k := range mutators {
			names = append(names, k)
		}
		sort.Strings(names)
		fmt.Println(strings.Join(names, " "))
		return
	}
	fset := token.NewFileSet()
	pkgs, err := packages.Load(&packages.Config{Mode: packages.NeedName | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedFiles | packages.NeedImports, Dir: *dir, Fset: fset}, "./...")
	if err != nil {
		panic(err)
	}
	total := 0
	for _, pk := range pkgs {
		for _, f := range pk.Syntax {
			name := fset.Position(f.Pos()).Filename
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			if *only != "" && !strings.HasSuffix("/"+name, "/"+strings.SplitN(*only, ":", 2)[0]) && !strings.HasSuffix(name, strings.SplitN(*only, ":", 2)[0]) {
				continue
			}
			b, _ := os.ReadFile(name)
			c := &ctx{pkg: pk, file: f, src: string(b)}
			mutators[*m](c)
			if len(c.edits) == 0 {
				continue
			}
			sort.SliceStable(c.edits, func(i, j int) bool {
				if c.edits[i].from != c.edits[j].from {
					return c.edits[i].from < c.edits[j].from
				}
				return false
			})
			// drop edits inside others
			var out strings.Builder
			pos := 0
			for _, e := range c.edits {
				if e.from < pos {
					continue
				}
				out.WriteString(c.src[pos:e.from])
				out.WriteString(e.text)
				pos = e.to
				total++
			}
			out.WriteString(c.src[pos:])
			os.WriteFile(name, []byte(out.String()), 0o644)
		}
	}
	fmt.Println(*m, total, "edits")
}
