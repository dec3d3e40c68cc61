package main

import (
	"strings"
	_ "unsafe"

	"golang.org/x/tools/go/ssa"
)

// The results of a function with a defer are kept in memory by the SSA builder, in case the deferred
// call recovers from a panic. When it cannot, these results are ordinary variables: they are
// turned into values, so a function reads the same with and without its defer.

//go:linkname ssaLift golang.org/x/tools/go/ssa.lift
func ssaLift(*ssa.Function)

//go:linkname ssaDomTree golang.org/x/tools/go/ssa.buildDomTree
func ssaDomTree(*ssa.Function)

//go:linkname ssaNumber golang.org/x/tools/go/ssa.numberRegisters
func ssaNumber(*ssa.Function)

func liftResults(fn *ssa.Function) {
	if fn.Recover == nil || len(fn.Blocks) == 0 {
		return
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			if d.Call.IsInvoke() {
				continue
			}
			c := d.Call.StaticCallee()
			if c == nil {
				if _, ok := d.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				return
			}
			if callsRecover(c) {
				return
			}
		}
	}
	rec := fn.Recover
	if rec == fn.Blocks[0] || len(rec.Preds) > 0 || len(rec.Succs) > 0 {
		return
	}
	fn.Recover = nil
	kept := fn.Blocks[:0]
	for _, b := range fn.Blocks {
		if b != rec {
			b.Index = len(kept)
			kept = append(kept, b)
		}
	}
	fn.Blocks = kept
	for _, in := range rec.Instrs {
		for _, op := range in.Operands(nil) {
			if *op == nil {
				continue
			}
			if refs := (*op).Referrers(); refs != nil {
				l := (*refs)[:0]
				for _, r := range *refs {
					if r != in {
						l = append(l, r)
					}
				}
				*refs = l
			}
		}
	}
	ssaDomTree(fn)
	ssaLift(fn)
	ssaNumber(fn)
}

func callsRecover(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		// functions of the libraries deferred by name (unlocking, closing) do not recover
		return fn.Pkg != nil && strings.Contains(fn.Pkg.Pkg.Path(), "coveooss")
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}
