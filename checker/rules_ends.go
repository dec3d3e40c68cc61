package main

func init() {
	register("C26", "Every natural loop: each way around takes an element, reads an input or makes a bounded expression of the variables decrease (linear arithmetic over the loop paths). Every cycle of the call graph: each call around hands on a part of what was given, a number closer to a limit tested before, or something marked as seen and looked up before.", ruleEnds)
}

func ruleEnds(p *Program, r *Report) {
	loops := map[string]int{}
	r.rule("loop: on every path around, some bounded linear expression of its variables decreases, in a fixed order of priority")
	r.rule("recursion: along every cycle of calls one followed quantity never grows and decreases at least once (size change)")
	r.rule("loop: on every path around, some bounded linear expression of its variables decreases, in a fixed order of priority")
	r.rule("recursion: along every cycle of calls one followed quantity never grows and decreases at least once (size change)")
	for _, fn := range p.Funcs {
		if len(fn.Blocks) == 0 {
			continue
		}
		li := newLoopInfo(fn)
		for _, h := range fn.Blocks {
			if li.bodies[h] == nil {
				continue
			}
			how, bad := p.loopEnds(fn, li, h)
			loops["loops"]++
			if bad != "" {
				r.bad("ends|loop|"+fnName(fn)+"|"+p.instrPos(firstPos(h)), p.instrPos(firstPos(h)), "a loop of %s may never end: %s", fnName(fn), bad)
				continue
			}
			r.Obligations++
			r.Discharged++
			loops["loops: "+how]++
			if how != "counter" && how != "range" {
				r.sample("loop of %s (%s): %s", fnName(fn), p.instrPos(firstPos(h)), how)
			}
			if how != "counter" && how != "range" {
				r.sample("loop of %s (%s): %s", fnName(fn), p.instrPos(firstPos(h)), how)
			}
		}
	}
	p.ruleRecursion(r)
	for k, n := range loops {
		r.Counts[k] = n
	}
}
