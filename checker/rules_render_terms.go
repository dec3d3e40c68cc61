package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// small: a helper computing booleans and texts.
func small(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || size(fn) > 150 {
		return false
	}
	for _, t := range resultTypes(fn) {
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
		if !isBool(t) && !isString(t) {
			return false
		}
	}
	return len(resultTypes(fn)) > 0
}

// replacementPairs gives the (old, new) pairs of a call replacing all occurrences of a text.
func replacementPairs(name string, args []string) [][2]string {
	switch name {
	case "strings.ReplaceAll":
		return [][2]string{{args[1], args[2]}}
	case "strings.Replace":
		if args[3] == "c:-1" {
			return [][2]string{{args[1], args[2]}}
		}
	case "(*strings.Replacer).Replace":
		const pre = "call:strings.NewReplacer(va("
		if strings.HasPrefix(args[0], pre) {
			els := splitTop(args[0][len(pre):])
			var res [][2]string
			for i := 0; i+1 < len(els); i += 2 {
				res = append(res, [2]string{els[i], els[i+1]})
			}
			return res
		}
	}
	return nil
}

// splitTop splits the elements of a parenthesised term, up to the closing parenthesis.
func splitTop(s string) []string {
	var res []string
	d, start, q := 0, 0, false
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '\\' && q:
			i++
		case c == '"':
			q = !q
		case q:
		case c == '(' || c == '[':
			d++
		case c == ']':
			d--
		case c == ')':
			if d == 0 {
				return append(res, s[start:i])
			}
			d--
		case c == ',' && d == 0:
			res = append(res, s[start:i])
			start = i + 1
		}
	}
	return append(res, s[start:])
}

// isHiding: a computed text (a delimiter) is replaced by a constant.
func isHiding(pr [2]string) bool {
	return strings.HasPrefix(pr[1], `c:"`) && len(pr[1]) > 4 && !strings.HasPrefix(pr[0], "c:")
}

// lineFact is what happened to one line of the text.
type lineFact struct {
	key, pos    string
	code, razor bool // paused
	hidden      string
	unlooked    string // resume marks not looked for although the line is taken as paused
	describe    string
}

// endOfLine follows the paused regions: after each line, the state tells whether code or razor is paused
// and what has been hidden in the line.
func (rs *renderSim) endOfLine(fr *Frame, st *State, header *ssa.BasicBlock) {
	m := docMarks
	var unlooked []string
	next := func(ghost, pause, resume string) (on, known bool) {
		was := st.ev[ghost]
		p, pk := perLineFact(st, pause)
		r, rk := perLineFact(st, resume)
		if !pk && !rk {
			return false, false // this loop does not look at this marker
		}
		on = was || (pk && p)
		if on && !rk {
			// the line may hold the resume mark
			unlooked = append(unlooked, resume)
			return true, true
		}
		return on && !r, true
	}
	code, ck := next("paused code", m.pauseCode, m.resumeCode)
	razor, rk := next("paused razor", m.pauseRazor, m.resumeRazor)
	if !ck && !rk {
		return
	}
	var hidden []string
	for _, e := range sortedKeys(st.ev) {
		if strings.HasPrefix(e, "line|") {
			hidden = append(hidden, e[5:])
			delete(st.ev, e)
		}
	}
	rs.lines = append(rs.lines, lineFact{key: fnName(enclosing(fr.fn)), pos: rs.p.pos(fr.fn.Pos()), code: code, razor: razor, hidden: strings.Join(hidden, " "), unlooked: strings.Join(unlooked, " "), describe: st.describe()})
	set := func(g string, on bool) {
		if on {
			st.ev[g] = true
		} else {
			delete(st.ev, g)
		}
	}
	set("paused code", code)
	set("paused razor", razor)
}

// perLine: the fact is about one line of the text.
func perLine(a string) bool {
	return strings.Contains(a, "#") || strings.Contains(a, "next(") || strings.Contains(a, "phi:")
}

// perLineFact tells whether the current line is known to contain a marker.
func perLineFact(st *State, mark string) (val, known bool) {
	for a, v := range st.atoms {
		if !perLine(a) {
			continue
		}
		if val, ok := containsAtom(a, v, mark); ok {
			return val, true
		}
	}
	return false, false
}

// countFacts gives the facts of a state, with what is known of each number of a sum of numbers of occurrences that is zero.
func countFacts(st *State) map[string]bool {
	res := map[string]bool{}
	for a, v := range st.atoms {
		res[a] = v
		sum := ""
		if strings.HasPrefix(a, "lt(c:0;+(") && !v {
			_, sum = splitPair(a[3 : len(a)-1])
		} else if strings.HasPrefix(a, "eq(") && v {
			x, y := splitPair(a[3 : len(a)-1])
			if y == "c:0" {
				sum = x
			} else if x == "c:0" {
				sum = y
			}
		} else if strings.HasPrefix(a, "lt(+(") && v {
			if x, y := splitPair(a[3 : len(a)-1]); y == "c:1" {
				sum = x
			}
		}
		var parts []string
		var split func(t string) bool
		split = func(t string) bool {
			if strings.HasPrefix(t, "+(") {
				x, y := splitAt(t[2:len(t)-1], ',')
				return split(x) && split(y)
			}
			parts = append(parts, t)
			return strings.HasPrefix(t, "call:strings.Count(") || strings.HasPrefix(t, "call:(collections.String).Count(")
		}
		if strings.HasPrefix(sum, "+(") && split(sum) {
			for _, t := range parts {
				res["eq("+t+";c:0)"] = true
			}
		}
	}
	return res
}

// containsAtom reads a fact about the presence of a text.
func containsAtom(a string, v bool, mark string) (bool, bool) {
	q := "," + fmt.Sprintf("c:%q", mark) + ")"
	is := func(fn string, t string) bool {
		return strings.HasPrefix(t, "call:"+fn+"(") && strings.Contains(t, q)
	}
	inner := func(t string) bool {
		return is("strings.Index", t) || is("strings.Count", t) || is("strings.LastIndex", t) || is("(collections.String).Count", t) || is("(collections.String).Index", t)
	}
	switch {
	case is("strings.Contains", a) || is("(collections.String).Contains", a):
		return v, true
	case strings.HasPrefix(a, "lt("):
		x, y := splitPair(a[3 : len(a)-1])
		switch {
		case inner(x) && y == "c:0": // index < 0
			return !v, true
		case inner(x) && y == "c:1" && strings.Contains(x, "Count("): // count < 1
			return !v, true
		case x == "c:0" && inner(y) && strings.Contains(y, "Count("): // count > 0
			return v, true
		case x == "c:-1" && inner(y): // index > -1
			return v, true
		}
	case strings.HasPrefix(a, "eq("):
		x, y := splitPair(a[3 : len(a)-1])
		if inner(y) {
			x, y = y, x
		}
		if inner(x) && (y == "c:-1" || y == "c:0" && strings.Contains(x, "Count(")) {
			return !v, true
		}
	}
	return false, false
}

func sortedKeys(m map[string]bool) []string {
	var res []string
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

// isProtecting: a constant text is replaced by another one that holds no white space.
func isProtecting(pr [2]string) bool {
	return strings.HasPrefix(pr[1], `c:"`) && strings.HasPrefix(pr[0], `c:"`) && len(pr[1]) > 4 && len(pr[0]) > 4 && pr[0] != pr[1]
}

// wholeText: the text searched by a presence test is not a visible part of another text.
func wholeText(a string) bool {
	i := -1
	for _, fn := range []string{"strings.Contains(", "strings.Index(", "strings.LastIndex(", "strings.Count(", "(collections.String).Contains(", "(collections.String).Count(", "(collections.String).Index("} {
		if j := strings.Index(a, "call:"+fn); j >= 0 && (i < 0 || j < i) {
			i = j
			a = a[j+len("call:"+fn):]
			i = 0
		}
	}
	if i < 0 {
		return true
	}
	t := splitTop(a)[0]
	for n := 0; n < 20; n++ {
		peeled := false
		for _, fn := range []string{"strings.ReplaceAll(", "strings.Replace(", "utils.Substitute(", "strings.ToLower(", "strings.ToUpper("} {
			if strings.HasPrefix(t, "call:"+fn) {
				t = splitTop(t[len("call:"+fn):])[0]
				peeled = true
			}
		}
		if !peeled {
			break
		}
	}
	if i := strings.LastIndex(t, "#"); i >= 0 && !strings.ContainsAny(t[i:], ")\"") && strings.Trim(t[i+1:], "0123456789") != "" {
		return false // an element
	}
	return !strings.HasSuffix(t, "]") && !strings.HasPrefix(t, "slice(") && !strings.HasPrefix(t, "call:strings.Trim") && !strings.HasPrefix(t, "call:strings.Cut(")
}
