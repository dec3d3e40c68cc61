package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

func (c *ctx) renameObjects(want func(types.Object) bool) {
	ast.Inspect(c.file, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || id.Name == "_" || id.Name == "main" || id.Name == "init" || token.IsExported(id.Name) {
			return true
		}
		o := c.pkg.TypesInfo.Uses[id]
		if o == nil {
			o = c.pkg.TypesInfo.Defs[id]
		}
		if o == nil || o.Pkg() != c.pkg.Types || !want(o) {
			return true
		}
		c.replace(id, id.Name+"Qq")
		return true
	})
}

func init() {
	mutators["renfunc"] = func(c *ctx) {
		c.renameObjects(func(o types.Object) bool { _, ok := o.(*types.Func); return ok })
	}
	mutators["renvar"] = func(c *ctx) {
		c.renameObjects(func(o types.Object) bool {
			switch v := o.(type) {
			case *types.Var:
				return v.Parent() == o.Pkg().Scope()
			case *types.Const:
				return v.Parent() == o.Pkg().Scope()
			}
			return false
		})
	}
	mutators["renfield"] = func(c *ctx) {
		c.renameObjects(func(o types.Object) bool { v, ok := o.(*types.Var); return ok && v.IsField() && !v.Embedded() })
	}
	mutators["rentype"] = func(c *ctx) {
		c.renameObjects(func(o types.Object) bool {
			switch v := o.(type) {
			case *types.TypeName:
				return v.Parent() == o.Pkg().Scope()
			case *types.Var:
				return v.IsField() && v.Embedded()
			}
			return false
		})
	}
}
