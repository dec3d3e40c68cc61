package main

import "golang.org/x/tools/go/ssa"

// loopInfo gives the natural loops of a function.
type loopInfo struct {
	bodies map[*ssa.BasicBlock][]*ssa.BasicBlock
}

func newLoopInfo(fn *ssa.Function) *loopInfo {
	li := &loopInfo{bodies: map[*ssa.BasicBlock][]*ssa.BasicBlock{}}
	in := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			if in[h] == nil {
				in[h] = map[*ssa.BasicBlock]bool{h: true}
			}
			var add func(x *ssa.BasicBlock)
			add = func(x *ssa.BasicBlock) {
				if in[h][x] {
					return
				}
				in[h][x] = true
				for _, p := range x.Preds {
					add(p)
				}
			}
			add(b)
		}
	}
	for h, set := range in {
		for _, b := range fn.Blocks {
			if set[b] {
				li.bodies[h] = append(li.bodies[h], b)
			}
		}
	}
	return li
}

func (li *loopInfo) body(h *ssa.BasicBlock) []*ssa.BasicBlock { return li.bodies[h] }

// loopsOf lists the headers of the loops containing b, innermost last.
func (li *loopInfo) loopsOf(b *ssa.BasicBlock) []*ssa.BasicBlock {
	var res []*ssa.BasicBlock
	for h, body := range li.bodies {
		for _, x := range body {
			if x == b {
				res = append(res, h)
			}
		}
	}
	return res
}
