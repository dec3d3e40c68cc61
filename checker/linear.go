package main

import (
	"fmt"
	"sort"
	"strings"
)

// lin is a linear expression over named integers.
type lin struct {
	c int64
	t map[string]int64
}

func linConst(c int64) lin { return lin{c: c} }

func linAtom(a string) lin { return lin{t: map[string]int64{a: 1}} }

func (a lin) add(b lin, k int64) lin {
	r := lin{c: a.c + k*b.c, t: make(map[string]int64, len(a.t)+len(b.t))}
	for n, v := range a.t {
		r.t[n] = v
	}
	for n, v := range b.t {
		if r.t[n] += k * v; r.t[n] == 0 {
			delete(r.t, n)
		}
	}
	return r
}

func (a lin) plus(k int64) lin { return lin{c: a.c + k, t: a.t} }

func (a lin) String() string {
	var names []string
	for n := range a.t {
		names = append(names, n)
	}
	sort.Strings(names)
	var sb strings.Builder
	for _, n := range names {
		fmt.Fprintf(&sb, "%+d*%s ", a.t[n], n)
	}
	fmt.Fprintf(&sb, "%+d", a.c)
	return sb.String()
}

// infeasible tells whether no values satisfy all the expressions being at least zero
// (Fourier-Motzkin elimination; it gives up by answering no).
func infeasible(facts []lin) bool {
	seen := map[string]bool{}
	var cur []lin
	push := func(l lin) bool {
		if len(l.t) == 0 {
			return l.c < 0
		}
		if g := gcd(l); g > 1 {
			r := lin{t: map[string]int64{}}
			for n, v := range l.t {
				r.t[n] = v / g
			}
			r.c = l.c / g
			if l.c < 0 && l.c%g != 0 {
				r.c--
			}
			l = r
		}
		if k := l.String(); !seen[k] {
			seen[k] = true
			cur = append(cur, l)
		}
		return false
	}
	for _, f := range facts {
		if push(f) {
			return true
		}
	}
	for {
		type cnt struct{ pos, neg int }
		counts := map[string]*cnt{}
		for _, f := range cur {
			for n, v := range f.t {
				if counts[n] == nil {
					counts[n] = &cnt{}
				}
				if v > 0 {
					counts[n].pos++
				} else {
					counts[n].neg++
				}
			}
		}
		best, cost := "", 1<<30
		var names []string
		for n := range counts {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			c := counts[n]
			if k := c.pos*c.neg - c.pos - c.neg; k < cost {
				best, cost = n, k
			}
		}
		if best == "" {
			return false
		}
		var pos, neg, rest []lin
		for _, f := range cur {
			switch v := f.t[best]; {
			case v > 0:
				pos = append(pos, f)
			case v < 0:
				neg = append(neg, f)
			default:
				rest = append(rest, f)
			}
		}
		if len(pos)*len(neg) > 600 {
			return false
		}
		cur, seen = nil, map[string]bool{}
		for _, f := range rest {
			push(f)
		}
		for _, a := range pos {
			for _, b := range neg {
				x := lin{}.add(a, -b.t[best]).add(b, a.t[best])
				if big(x) {
					continue
				}
				if push(x) {
					return true
				}
			}
		}
	}
}

func big(l lin) bool {
	for _, v := range l.t {
		if v > 1<<30 || v < -1<<30 {
			return true
		}
	}
	return l.c > 1<<50 || l.c < -1<<50
}

func gcd(l lin) int64 {
	var g int64
	for _, v := range l.t {
		if v < 0 {
			v = -v
		}
		for v != 0 {
			g, v = v, g%v
		}
	}
	return g
}

// proves tells whether the expression is at least zero whenever the facts hold.
func proves(facts []lin, goal lin) bool {
	neg := lin{}.add(goal, -1).plus(-1)
	// only what is linked to the goal matters
	rel := map[string]bool{}
	for n := range neg.t {
		rel[n] = true
	}
	used := make([]bool, len(facts))
	for grown := true; grown; {
		grown = false
		for i, f := range facts {
			if used[i] {
				continue
			}
			hit := len(f.t) == 0
			for n := range f.t {
				hit = hit || rel[n]
			}
			if hit {
				used[i], grown = true, true
				for n := range f.t {
					rel[n] = true
				}
			}
		}
	}
	set := []lin{neg}
	for i, f := range facts {
		if used[i] {
			set = append(set, f)
		}
	}
	return infeasible(set)
}
