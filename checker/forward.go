package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A function that only forwards its parameters to another function, and returns what it gives, is
// that other function: the calls (and values) naming it are redirected.

// forwarded names, for functions only reached through the function forwarding to them.
var forwardTo = map[*ssa.Function]*ssa.Function{}

var forwardName = map[*ssa.Function]*ssa.Function{}

func forwardTarget(fn *ssa.Function) *ssa.Function {
	if len(fn.Blocks) != 1 || fn.Parent() != nil || fn.Synthetic != "" || fn.Origin() != nil || fn.Signature.TypeParams() != nil || fn.Signature.RecvTypeParams() != nil {
		return nil
	}
	var call *ssa.Call
	for _, in := range fn.Blocks[0].Instrs {
		switch x := in.(type) {
		case *ssa.Call:
			if call != nil || x.Call.IsInvoke() {
				return nil
			}
			g, ok := x.Call.Value.(*ssa.Function)
			if !ok || g == fn || len(g.Blocks) == 0 || g.Origin() != nil || g.Parent() != nil || g.Synthetic != "" || len(g.Params) != len(fn.Params) || len(x.Call.Args) != len(fn.Params) {
				return nil
			}
			for i, a := range x.Call.Args {
				if a != ssa.Value(fn.Params[i]) {
					return nil
				}
			}
			rs, rg := fn.Signature.Results(), g.Signature.Results()
			if rs.Len() != rg.Len() {
				return nil
			}
			for i := 0; i < rs.Len(); i++ {
				if !types.Identical(rs.At(i).Type(), rg.At(i).Type()) {
					return nil
				}
			}
			call = x
		case *ssa.Extract:
			if call == nil || x.Tuple != ssa.Value(call) {
				return nil
			}
		case *ssa.Return:
			if call == nil {
				return nil
			}
			if len(x.Results) == 1 {
				if x.Results[0] != ssa.Value(call) {
					return nil
				}
				continue
			}
			for i, v := range x.Results {
				ex, ok := v.(*ssa.Extract)
				if !ok || ex.Tuple != ssa.Value(call) || ex.Index != i {
					return nil
				}
			}
		case *ssa.DebugRef:
		default:
			return nil
		}
	}
	if call == nil {
		return nil
	}
	return call.Call.Value.(*ssa.Function)
}

// redirect replaces the forwarding functions of the repository by the functions they forward to, and
// gives those that nothing can reach any more.
func redirect(all map[*ssa.Function]bool, inRepo func(*ssa.Function) bool) map[*ssa.Function]bool {
	to := map[*ssa.Function]*ssa.Function{}
	for fn := range all {
		if inRepo(fn) {
			if g := forwardTarget(fn); g != nil && inRepo(g) {
				to[fn] = g
			}
		}
	}
	final := func(fn *ssa.Function) *ssa.Function {
		for i := 0; i < 10 && to[fn] != nil; i++ {
			fn = to[fn]
		}
		return fn
	}
	// who names the functions forwarded to
	named := map[*ssa.Function]int{}
	used := map[*ssa.Function]bool{}
	for fn := range all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if fn.Synthetic == "" {
						named[g]++
					}
					if to[fn] != nil || to[g] == nil {
						continue
					}
					*op = final(g)
				}
			}
		}
	}
	dead := map[*ssa.Function]bool{}
	for fn := range to {
		forwardTo[fn] = final(fn)
	}
	for fn := range to {
		g := to[fn]
		if named[g] == 1 {
			forwardName[g] = fn
		}
		used[g] = true
		if !token.IsExported(fn.Name()) && fn.Name() != "main" && fn.Name() != "init" {
			dead[fn] = true
		}
	}
	return dead
}
