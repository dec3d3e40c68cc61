package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The rendering simulation behind C09, C10, C11 and C30: every path of the functions that render a
// text is followed with the facts: opt-out markers found in the text, rendering disabled, undefined
// values accepted, undefined values looked for, texts built so far.

// renderRoot is one way rendering starts: a function and the constant arguments it is given.
type renderRoot struct {
	fn     *ssa.Function
	params []string
	from   string
	froms  []*ssa.Function
	file   bool // renders a file or a content (as opposed to an included template)
}

// renderExit is one successful way out of a rendering.
type renderExit struct {
	root    renderRoot
	pos     string
	stack   string
	results []string
	st      *State
}

// renderCall is a call that parses or executes a template, in the state that reaches it.
type renderCall struct {
	root renderRoot
	name string
	key  string
	pos  string
	args []string
	st   *State
}

type renderSim struct {
	p         *Program
	roots     []renderRoot
	exits     []renderExit
	calls     []renderCall
	functions int
	sites     int
	opts      []*regexp.Regexp
	razor     []renderCall // applications of razor rules
	unscanned []renderCall // translation or parsing reached without going through the loop that looks for paused lines
	late      []renderCall // delimiters hidden after the translation or the parsing
	lines     []lineFact
	scanned   map[*ssa.BasicBlock][]string
	content   map[string]string // the parameter holding the text rendered, by root
	rend      map[*ssa.Function]bool
}

// givenText: the call is given the address of a text.
func givenText(site ssa.CallInstruction) bool {
	for _, a := range site.Common().Args {
		if pt, ok := a.Type().Underlying().(*types.Pointer); ok && isString(pt.Elem()) {
			return true
		}
	}
	return false
}

// renderers are the functions returning (text, changed, error) that reach the execution of a template.
func (p *Program) renderers(reachExec map[*ssa.Function]bool) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	for fn := range reachExec {
		rt := resultTypes(fn)
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != tmplPkg || len(rt) != 3 {
			continue
		}
		var text, changed, err bool
		for _, t := range rt {
			switch {
			case isErrorType(t):
				err = true
			case isBool(t):
				changed = true
			case isString(t):
				text = true
			}
		}
		if text && changed && err {
			res[fn] = true
		}
	}
	return res
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

var renderSimCache *renderSim

func runRenderSim(p *Program, r *Report) *renderSim {
	if renderSimCache != nil && renderSimCache.p == p {
		return renderSimCache
	}
	rs := &renderSim{p: p}
	rs.findRoots(r)
	rs.run(r)
	rs.content = map[string]string{}
	for _, c := range rs.calls {
		if !c.root.file || !isParse(c.name) {
			continue
		}
		for i, prm := range c.root.fn.Params {
			if isString(prm.Type()) && mentionsTerm(c.args[len(c.args)-1], c.root.params[i]) {
				rs.content[c.root.id()] = c.root.params[i]
			}
		}
	}
	r.count("functions followed in context", rs.functions)
	r.count("call sites followed", rs.sites)
	r.need("ways a rendering starts", len(rs.roots), 2)
	r.need("states reaching the parsing or the execution of a template", len(rs.calls), 4)
	r.need("ways out of a rendering", len(rs.exits), 4)
	r.need("file renderings whose text is identified", len(rs.content), 1)
	renderSimCache = rs
	return rs
}

// scans tells which pause markers are looked for by the loop starting at a block.
func (rs *renderSim) scans(h *ssa.BasicBlock) []string {
	if res, ok := rs.scanned[h]; ok {
		return res
	}
	if rs.scanned == nil {
		rs.scanned = map[*ssa.BasicBlock][]string{}
	}
	var res []string
	body := newLoopInfo(h.Parent()).body(h)
	for _, m := range []string{docMarks.pauseCode, docMarks.pauseRazor} {
		found := false
		var look func(bs []*ssa.BasicBlock, depth int)
		look = func(bs []*ssa.BasicBlock, depth int) {
			for _, b := range bs {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if *op == nil {
							continue
						}
						if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == m {
							found = true
						}
					}
					if call, ok := in.(ssa.CallInstruction); ok && depth < 3 {
						if callee := rs.p.Callee(call.Common()); callee != nil && callee.Pkg != nil && callee.Pkg.Pkg.Path() == tmplPkg {
							look(callee.Blocks, depth+1)
						}
					}
				}
			}
		}
		look(body, 0)
		if found {
			res = append(res, m)
		}
	}
	rs.scanned[h] = res
	return res
}

// findRoots tells how rendering starts.
func (rs *renderSim) findRoots(r *Report) {
	p := rs.p
	reachExec := p.reach(isExec)
	rend := p.renderers(reachExec)
	rs.rend = rend
	r.need("rendering functions (text, changed, error)", len(rend), 1)
	seenRoot := map[string]bool{}
	addRoot := func(rr renderRoot) {
		k := fnName(rr.fn) + strings.Join(rr.params, ",")
		if !seenRoot[k] {
			seenRoot[k] = true
			rs.roots = append(rs.roots, rr)
			return
		}
		for i := range rs.roots {
			if rs.roots[i].id() == rr.id() {
				rs.roots[i].froms = append(rs.roots[i].froms, rr.froms...)
			}
		}
	}
	for _, fn := range p.Funcs {
		if rend[fn] || rend[enclosing(fn)] {
			continue
		}
		callsIn(fn, func(c ssa.CallInstruction) {
			callee := p.Callee(c.Common())
			if callee == nil || !rend[callee] {
				return
			}
			addRoot(renderRoot{fn: callee, params: constParams(callee, c.Common().Args), from: fnName(fn), froms: []*ssa.Function{fn}, file: true})
		})
	}
	// the other functions running a template: the topmost ones returning a text and an error
	runner := map[*ssa.Function]bool{}
	for fn := range reachExec {
		if rend[fn] || fn.Pkg == nil || fn.Pkg.Pkg.Path() != tmplPkg || fn.Parent() != nil {
			continue
		}
		var text, err bool
		for _, t := range resultTypes(fn) {
			text = text || isString(t)
			err = err || isErrorType(t)
		}
		runner[fn] = text && err
	}
	// reaches the execution without going through a rendering function or a runner
	direct := func(stop map[*ssa.Function]bool) map[*ssa.Function]bool {
		res := map[*ssa.Function]bool{}
		for changed := true; changed; {
			changed = false
			for _, fn := range p.Funcs {
				if res[fn] {
					continue
				}
				callsIn(fn, func(c ssa.CallInstruction) {
					callee := p.Callee(c.Common())
					if isExec(p.calleeName(c.Common())) || callee != nil && res[callee] && !stop[callee] {
						if !res[fn] {
							res[fn] = true
							changed = true
						}
					}
				})
			}
		}
		return res
	}
	calledBy := func(fn *ssa.Function, by map[*ssa.Function]bool) bool {
		for g := range by {
			if !by[g] || g == fn {
				continue
			}
			hit := false
			callsIn(g, func(c ssa.CallInstruction) {
				if p.Callee(c.Common()) == fn {
					hit = true
				}
			})
			if hit {
				return true
			}
		}
		return false
	}
	viaRend := direct(rend)
	for _, fn := range p.Funcs {
		if runner[fn] && viaRend[fn] && !calledBy(fn, runner) {
			addRoot(renderRoot{fn: fn, from: fnName(fn)})
		}
	}
	stop := map[*ssa.Function]bool{}
	for fn, v := range rend {
		stop[fn] = v
	}
	for fn, v := range runner {
		stop[fn] = v
	}
	rest := direct(stop)
	for _, fn := range p.Funcs {
		if rest[fn] && !stop[fn] && !stop[enclosing(fn)] && fn.Pkg != nil && fn.Pkg.Pkg.Path() == tmplPkg && !calledBy(fn, rest) {
			addRoot(renderRoot{fn: fn, from: fnName(fn)})
		}
	}
	sort.Slice(rs.roots, func(i, j int) bool { return fnName(rs.roots[i].fn) < fnName(rs.roots[j].fn) })
}

func (rr renderRoot) id() string { return fnName(rr.fn) + strings.Join(rr.params, ",") }

func mentionsTerm(t, sub string) bool {
	for i := strings.Index(t, sub); i >= 0; {
		end := i + len(sub)
		if end == len(t) || !isWord(t[end]) {
			return true
		}
		j := strings.Index(t[end:], sub)
		if j < 0 {
			return false
		}
		i = end + j
	}
	return false
}

func isWord(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func constParams(fn *ssa.Function, args []ssa.Value) []string {
	var res []string
	for i, prm := range fn.Params {
		t := "p:" + prm.Name()
		if i < len(args) {
			if c, ok := args[i].(*ssa.Const); ok {
				t = (&Sim{}).term(nil, nil, c)
			}
		}
		res = append(res, t)
	}
	return res
}

// marks are the texts that steer or betray a rendering, found by the constants of the package.
type marks struct {
	noCode, noRazor, pauseCode, resumeCode, pauseRazor, resumeRazor, noValue, nilValue string
}

// strConst gives the value of a string constant of the template package.
func (p *Program) strConst(name string) string {
	pk := p.ByPath[tmplPkg]
	if pk == nil {
		return ""
	}
	c, ok := pk.Types.Scope().Lookup(name).(*types.Const)
	if !ok || c.Val().Kind() != constant.String {
		return ""
	}
	return constant.StringVal(c.Val())
}

// The documented markers: they are part of the language, so their text is fixed.
var docMarks = marks{"no-gotemplate!", "no-razor!", "gotemplate-pause!", "gotemplate-resume!", "razor-pause!", "razor-resume!", "<no value>", "<nil>"}

// mentions tells whether a function uses one of the texts, or an option.
func mentionsAny(p *Program, fn *ssa.Function, texts map[string]bool, opts map[int64]bool) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				c, ok := (*op).(*ssa.Const)
				if !ok || c.Value == nil {
					continue
				}
				if c.Value.Kind() == constant.String && texts[constant.StringVal(c.Value)] {
					return true
				}
			}
			if lk, ok := in.(*ssa.Lookup); ok {
				if c, ok := lk.Index.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
					if n, _ := constant.Int64Val(c.Value); opts[n] && strings.HasSuffix(lk.X.Type().String(), "OptionsSet") {
						return true
					}
				}
			}
		}
	}
	return false
}

func size(fn *ssa.Function) int {
	n := 0
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
	}
	return n
}

func (rs *renderSim) run(r *Report) {
	p := rs.p
	m := docMarks
	texts := map[string]bool{m.noCode: true, m.pauseCode: true, m.resumeCode: true, m.pauseRazor: true, m.resumeRazor: true, m.noValue: true, m.nilValue: true}
	opts := map[int64]bool{}
	for _, n := range []string{"RenderingDisabled", "AcceptNoValue", "Razor"} {
		if v, ok := p.constVal(tmplPkg, n); ok {
			opts[v] = true
			rs.opts = append(rs.opts, p.optionAtom(n))
		}
	}
	reachExec := p.reach(isExec)
	reachParse := p.reach(isParse)
	interesting := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if fn.Pkg != nil && fn.Pkg.Pkg.Path() == tmplPkg && mentionsAny(p, fn, texts, opts) {
			interesting[fn] = true
		}
	}
	for _, root := range rs.roots {
		root := root
		s := newSim(p)
		s.maxDepth = 10
		if os.Getenv("DBG_RENDER") != "" {
			s.budget = 300000
		}
		s.track = trackRender
		if !root.file {
			s.track = trackTexts
		}
		var given []string
		for i, prm := range root.fn.Params {
			if root.file && isString(prm.Type()) {
				given = append(given, root.params[i])
			}
		}
		s.relevant = func(a string) bool {
			for _, g := range given {
				if strings.HasPrefix(a, "eq("+g+";") || strings.HasPrefix(a, "eq(") && strings.HasSuffix(a, ";"+g+")") {
					return true
				}
			}
			return rs.relevant(a)
		}
		s.inline = func(fr *Frame, callee *ssa.Function) bool {
			if callee.Pkg == nil || callee.Pkg.Pkg.Path() != tmplPkg || callee.Name() == "init" || rs.rend[callee] {
				return false
			}
			return reachExec[callee] || reachParse[callee] || small(callee) || interesting[callee] || interesting[enclosing(callee)]
		}
		s.onCall = func(s *Sim, fr *Frame, st *State, site ssa.CallInstruction, name string, args []string) []Outcome {
			if name == "dynamic" && givenText(site) {
				// a handler supplied by the caller, which may replace the result and its error
				st.ev["handled"] = true
				return nil
			}
			if pairs := replacementPairs(name, args); pairs != nil {
				ns := st.clone()
				for _, pr := range pairs {
					if isProtecting(pr) && !ns.ev["executed"] {
						ns.ev["protect|"+pr[1]+"|"+pr[0]] = true
					}
					if isHiding(pr) {
						ns.ev["hide|"+pr[1]+"|"+pr[0]] = true
						ns.ev["line|"+pr[0]] = true
						if ns.ev["translated"] || ns.ev["parsed"] {
							rs.late = append(rs.late, renderCall{root: root, name: name, key: fnName(enclosing(fr.fn)), pos: p.instrPos(site), args: args, st: st.clone()})
						}
					}
				}
				return []Outcome{{st: ns}}
			}
			if strings.HasPrefix(name, "(*regexp.Regexp).ReplaceAll") {
				rs.razor = append(rs.razor, renderCall{root: root, name: name, key: fnName(enclosing(fr.fn)) + " -> " + name, pos: p.instrPos(site), args: args, st: st.clone()})
				if !st.ev["scanned "+m.pauseCode] || !st.ev["scanned "+m.pauseRazor] {
					rs.unscanned = append(rs.unscanned, renderCall{root: root, name: name, key: fnName(enclosing(fr.fn)) + " -> " + name, pos: p.instrPos(site), args: args, st: st.clone()})
				}
				ns := st.clone()
				ns.ev["translated"] = true
				delete(ns.ev, "paused code")
				delete(ns.ev, "paused razor")
				return []Outcome{{st: ns}}
			}
			if isExec(name) || isParse(name) {
				rs.calls = append(rs.calls, renderCall{root: root, name: name, key: fnName(enclosing(fr.fn)) + " -> " + name, pos: p.instrPos(site), args: args, st: st.clone()})
				if isParse(name) && (!st.ev["scanned "+m.pauseCode] || !st.ev["scanned "+m.pauseRazor]) {
					rs.unscanned = append(rs.unscanned, renderCall{root: root, name: name, key: fnName(enclosing(fr.fn)) + " -> " + name, pos: p.instrPos(site), args: args, st: st.clone()})
				}
				ns := st.clone()
				if isExec(name) {
					ns.ev["executed"] = true
				} else {
					ns.ev["parsed"] = true
					delete(ns.ev, "paused code")
					delete(ns.ev, "paused razor")
				}
				id := "tmpl" + s.siteID(fr, site)
				delete(ns.atoms, nilAtom(id))
				if isExec(name) {
					return []Outcome{{st: ns, results: []string{id}}}
				}
				return []Outcome{{st: ns, results: []string{"", id}}}
			}
			if callee := p.Callee(site.Common()); callee != nil && rs.rend[callee] {
				ns := st.clone()
				ns.ev["delegated"] = true
				var res []string
				for _, t := range resultTypes(callee) {
					switch {
					case isErrorType(t):
						res = append(res, "sub.err")
					case isBool(t):
						res = append(res, "sub.changed")
					default:
						res = append(res, "sub.text")
					}
				}
				return []Outcome{{st: ns, results: res}}
			}
			return nil
		}
		s.onEnter = func(s *Sim, fr *Frame, st *State, to *ssa.BasicBlock) {
			for _, m := range rs.scans(to) {
				st.ev["scanned "+m] = true
			}
		}
		s.onBack = func(s *Sim, fr *Frame, st *State, header *ssa.BasicBlock) {
			rs.endOfLine(fr, st, header)
			for a := range st.atoms {
				if (strings.Contains(a, m.pauseCode) || strings.Contains(a, m.pauseRazor) || strings.Contains(a, m.resumeCode) || strings.Contains(a, m.resumeRazor)) && perLine(a) {
					delete(st.atoms, a)
				}
			}
			for k := range st.mem {
				if strings.Contains(k, "#") {
					delete(st.mem, k)
				}
			}
		}
		for _, e := range s.Run(root.fn, newState(), root.params) {
			if e.panics || e.exits || e.ret == nil {
				continue
			}
			rs.exits = append(rs.exits, renderExit{root: root, pos: p.instrPos(e.ret), results: e.results, st: e.st})
		}
		if s.overflow != "" {
			r.bad("internal|overflow", "-", "%s", s.overflow)
		}
		rs.functions += len(s.analysed)
		rs.sites += s.sites
		if os.Getenv("DBG_RENDER") != "" {
			fmt.Println("ROOT", fnName(root.fn), root.params, root.from, s.steps)
		}
	}
}

// relevant keeps the facts about markers, undefined values, options and errors.
func (rs *renderSim) relevant(a string) bool {
	for _, re := range rs.opts {
		if re.MatchString(a) {
			return true
		}
	}
	m := docMarks
	for _, t := range []string{m.noCode, m.noRazor, m.pauseCode, m.resumeCode, m.pauseRazor, m.resumeRazor, m.noValue, m.nilValue} {
		if strings.Contains(a, t) {
			return true
		}
	}
	return strings.HasPrefix(a, "nil?(tmpl@") || strings.HasPrefix(a, "nil?(sub.err")
}

// trackRender follows booleans, errors, texts and lists of lines path by path.
func trackRender(t types.Type) bool {
	if sl, ok := t.Underlying().(*types.Slice); ok && isString(sl.Elem()) {
		return true
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		return true
	}
	return trackTexts(t)
}

// trackTexts also follows texts given as bytes.
func trackTexts(t types.Type) bool {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return true
		}
	}
	return trackScalars(t)
}

func isParse(name string) bool { return name == "(*text/template.Template).Parse" }

func init() {
	register("C09", "Every path of the functions rendering a text is followed with the known facts about the opt-out markers and options; each parsing, execution and razor translation is judged in every state that reaches it.", ruleC09,
		"two conditions are the same only if their terms are", "markers are texts of the template language")
	register("C10", "Every path of the functions rendering a text is followed; each successful exit after an execution is judged on what has been established about undefined values in the result.", ruleC10,
		"a retry made to collect further errors is judged by the error already recorded")
	register("C11", "Every path of the functions rendering a text is followed with the texts replaced by placeholders; each line of the pausing loop and each successful exit is judged.", ruleC11,
		"a retry made to collect further errors is judged by the error already recorded")
	register("C30", "Every path of the functions rendering a text is followed; at each successful exit the change reported is compared with the text returned.", ruleC30,
		"changes made by a handler supplied by the caller are those it reports")
}

// successful gives the text, changed and error results of an exit, when the exit may be a success.
func (e renderExit) successful() (text, changed string, ok bool) {
	for i, t := range resultTypes(e.root.fn) {
		v := e.results[i]
		switch {
		case isErrorType(t):
			if neverNil(v) {
				return "", "", false
			}
			if v == "c:nil" {
				continue
			}
			if isNil, known := e.st.atoms[nilAtom(v)]; known && !isNil {
				return "", "", false
			}
		case isBool(t):
			changed = v
		case isString(t) && text == "":
			text = v
		}
	}
	return text, changed, true
}

func ruleC09(p *Program, r *Report) {
	rs := runRenderSim(p, r)
	r.rule("a file or content is parsed or executed only in states where the option RenderingDisabled is known to be off and the text is known not to contain no-gotemplate!")
	r.rule("razor rules are applied (regular expression replacements of a rendering) only in states where the option Razor is known to be on and the text is known to contain neither no-razor! nor no-gotemplate!")
	disabled, razor := p.optionAtom("RenderingDisabled"), p.optionAtom("Razor")
	if disabled == nil || razor == nil {
		r.bad("anchor|options", "-", "the RenderingDisabled or Razor option is not declared any more")
		return
	}
	absent := func(st *State, mark, content string) bool {
		for a, v := range countFacts(st) {
			if has, ok := containsAtom(a, v, mark); ok && !has && wholeText(a) && (content == "" || mentionsTerm(a, content) || strings.Contains(a, "phi:") || !strings.Contains(a, "p:") && !strings.Contains(a, "&")) {
				return true
			}
		}
		return false
	}
	files := 0
	for _, c := range rs.calls {
		if !c.root.file {
			continue
		}
		files++
		good := true
		if !c.st.established(disabled, false) {
			good = false
			r.bad("disabled|"+c.key, c.pos, "%s is reached while rendering may be disabled (state: %s; from %s)", c.name, c.st.describe(), c.root.from)
		}
		if !absent(c.st, docMarks.noCode, rs.content[c.root.id()]) {
			good = false
			r.bad("no-gotemplate|"+c.key, c.pos, "%s is reached while the text may contain %s (state: %s; from %s)", c.name, docMarks.noCode, c.st.describe(), c.root.from)
		}
		if good {
			r.ok("%s (%s) from %s: rendering enabled, no marker", c.key, c.pos, c.root.from)
		}
	}
	r.need("states reaching the parsing or execution of a file", files, 2)
	for _, c := range rs.razor {
		good := true
		if !c.st.established(razor, true) {
			good = false
			r.bad("razor|"+c.key, c.pos, "razor expressions are translated while the Razor option may be off (state: %s; from %s)", c.st.describe(), c.root.from)
		}
		for _, m := range []string{docMarks.noRazor, docMarks.noCode} {
			if !absent(c.st, m, "") {
				good = false
				r.bad("razor "+m+"|"+c.key, c.pos, "razor expressions are translated while the text may contain %s (state: %s; from %s)", m, c.st.describe(), c.root.from)
			}
		}
		if good {
			r.ok("%s (%s) from %s: razor enabled, no marker", c.key, c.pos, c.root.from)
		}
	}
	r.need("states reaching a razor translation", len(rs.razor), 2)

	r.rule("no function rendering a text turns the Razor option on or the RenderingDisabled option off by itself")
	for _, o := range []struct {
		name  string
		value bool
	}{{"Razor", true}, {"RenderingDisabled", false}} {
		v, _ := p.constVal(tmplPkg, o.name)
		n, err := strconv.ParseInt(fmt.Sprint(v), 10, 64)
		if err != nil {
			r.bad("anchor|option value", "-", "the value of the option %s is not known", o.name)
			continue
		}
		for _, in := range p.switchedOn(n, o.value) {
			if fn := in.Parent(); p.givesResult(fn, map[*ssa.Function]bool{}) {
				r.bad("forced|"+o.name+"|"+fnName(enclosing(fn)), p.instrPos(in), "%s sets the option %s to %v although the user did not ask for it", fnName(fn), o.name, o.value)
			} else {
				r.ok("%s (%s): %s set for texts that are not given back", fnName(fn), p.instrPos(in), o.name)
			}
		}
	}
}

func ruleC10(p *Program, r *Report) {
	rs := runRenderSim(p, r)
	r.rule("every exit that may be a success after the execution of a template is in a state where undefined values are accepted, or where the result (or what becomes of it) is known to contain neither <no value> nor <nil>, or returns the text unaltered")
	accept := p.optionAtom("AcceptNoValue")
	if accept == nil {
		r.bad("anchor|options", "-", "the AcceptNoValue option is not declared any more")
		return
	}
	checked, file, inc := 0, 0, 0
	for _, e := range rs.exits {
		text, _, ok := e.successful()
		if !ok || !e.st.ev["executed"] || e.st.ev["delegated"] || e.st.ev["handled"] {
			continue
		}
		if c := rs.content[e.root.id()]; c != "" && text == c {
			continue
		}
		key := fnName(e.root.fn)
		if strings.HasPrefix(text, `c:"`) && !strings.Contains(text, docMarks.noValue) && !strings.Contains(text, docMarks.nilValue) {
			r.ok("%s (%s) from %s: constant result %s", key, e.pos, e.root.from, text)
			continue
		}
		if e.st.established(accept, true) {
			r.ok("%s: undefined values accepted", key)
			continue
		}
		checked++
		good := true
		for _, m := range []string{docMarks.noValue, docMarks.nilValue} {
			if !resultWithout(e.st, m) {
				good = false
				r.bad("undefined "+m+"|"+key, e.pos, "a rendering succeeds while its result may contain %s (state: %s; from %s)", m, e.st.describe(), e.root.from)
			}
		}
		if good {
			if e.root.file {
				file++
			} else {
				inc++
			}
			r.ok("%s (%s) from %s: no undefined value", key, e.pos, e.root.from)
		}
	}
	r.need("successful exits judged", checked, 2)
}

// resultWithout: the result of the execution is known not to contain the mark, directly or once the mark
// has been replaced by another that is known to be absent.
func resultWithout(st *State, mark string) bool {
	for a, v := range countFacts(st) {
		if !strings.Contains(a, "(*bytes.Buffer).String(") && !strings.Contains(a, "(*strings.Builder).String(") {
			continue
		}
		for _, m := range []string{docMarks.noValue, docMarks.nilValue} {
			has, ok := containsAtom(a, v, m)
			if !ok || has || !wholeText(a) {
				continue
			}
			if m == mark || strings.Contains(a, fmt.Sprintf(",c:%q,c:%q", mark, m)) {
				return true
			}
		}
	}
	return false
}

func ruleC11(p *Program, r *Report) {
	rs := runRenderSim(p, r)
	r.rule("after each line examined for the pause markers: when code is paused the three delimiters have been replaced in the line, when only razor is paused the razor delimiter and no other, otherwise none; code is paused from a line containing gotemplate-pause! to the line before the one containing gotemplate-resume!, and likewise for razor")
	r.rule("the translation and the parsing of a file are reached without going through the loop looking for paused lines only if the text is known to hold no pause marker")
	r.rule("delimiters are replaced before the razor translation and the parsing")
	r.rule("at every exit that may be a success, each placeholder written in place of a delimiter or of a text is replaced back by that delimiter or text in the result, unless the original text is returned")
	var delims [3]string
	for i, n := range []string{"LeftDelim", "RightDelim", "RazorDelim"} {
		fn := p.fn("(*template.Template)." + n)
		if fn == nil {
			r.bad("anchor|delimiters", "-", "%s is not declared any more", n)
			return
		}
		for _, e := range newSim(p).Run(fn, newState(), nil) {
			if len(e.results) == 1 {
				delims[i] = strings.TrimPrefix(e.results[0], "p:"+fn.Params[0].Name())
			}
		}
	}
	codeLines, razorLines := 0, 0
	for _, l := range rs.lines {
		has := func(i int) bool {
			for _, t := range strings.Split(l.hidden, " ") {
				if strings.HasSuffix(t, delims[i]) {
					return true
				}
			}
			return false
		}
		names := [3]string{"left", "right", "razor"}
		want := [3]bool{l.code, l.code, l.code || l.razor}
		good := true
		if l.unlooked != "" {
			good = false
			r.bad(fmt.Sprintf("unlooked %s|%s", l.unlooked, l.key), l.pos, "a line is taken as paused without knowing that it does not hold %s (state: %s)", l.unlooked, l.describe)
		}
		for i := range want {
			if has(i) == want[i] {
				continue
			}
			good = false
			if want[i] {
				r.bad(fmt.Sprintf("paused %s|%s", names[i], l.key), l.pos, "the %s delimiter is not protected in a paused line (code paused: %v, razor paused: %v, replaced: %s; state: %s)", names[i], l.code, l.razor, l.hidden, l.describe)
			} else {
				r.bad(fmt.Sprintf("not paused %s|%s", names[i], l.key), l.pos, "the %s delimiter is replaced in a line that is not paused (code paused: %v, razor paused: %v, replaced: %s; state: %s)", names[i], l.code, l.razor, l.hidden, l.describe)
			}
		}
		if l.code {
			codeLines++
		}
		if l.razor && !l.code {
			razorLines++
		}
		if good {
			r.ok("line with code paused: %v, razor paused: %v: replaced %s", l.code, l.razor, l.hidden)
		}
	}
	r.need("states of a line where code is paused", codeLines, 1)
	r.need("states of a line where only razor is paused", razorLines, 1)
	unscanned := 0
	for _, c := range rs.unscanned {
		content := rs.content[c.root.id()]
		if content == "" {
			continue
		}
		for _, m := range []string{docMarks.pauseCode, docMarks.pauseRazor} {
			known := c.st.ev["scanned "+m]
			for a, v := range countFacts(c.st) {
				if has, ok := containsAtom(a, v, m); ok && !has && mentionsTerm(a, content) {
					known = true
				}
			}
			if known {
				unscanned++
				r.ok("%s (%s): reached without looking at the lines, the text holds no %s", c.key, c.pos, m)
			} else {
				r.bad("skipped "+m+"|"+c.key, c.pos, "the text is translated or parsed without looking for paused lines while it may contain %s (state: %s; from %s)", m, c.st.describe(), c.root.from)
			}
		}
	}
	for _, c := range rs.late {
		r.bad("late|"+c.key, c.pos, "delimiters are replaced after the text has been translated or parsed (state: %s)", c.st.describe())
	}
	restored := 0
	for _, e := range rs.exits {
		text, _, ok := e.successful()
		if !ok || e.st.ev["delegated"] {
			continue
		}
		if c := rs.content[e.root.id()]; c != "" && text == c {
			continue
		}
		key := fnName(e.root.fn)
		for ev := range e.st.ev {
			kind := strings.SplitN(ev, "|", 2)[0]
			if kind != "hide" && kind != "protect" {
				continue
			}
			pr := splitPlaceholder(ev[len(kind)+1:])
			if replacedAll(text, pr[0], pr[1]) {
				restored++
				r.ok("%s: %s is put back in place of %s", key, pr[1], pr[0])
				continue
			}
			r.bad(fmt.Sprintf("restored %s|%s", pr[0], key), e.pos, "a rendering succeeds with %s left in place of %s (state: %s; from %s)", pr[0], pr[1], e.st.describe(), e.root.from)
		}
	}
	r.need("placeholders restored in a result", restored, 3)
}

// replacedAll: all occurrences of old are replaced by new in the making of a text.
func replacedAll(text, old, new string) bool {
	sub := "," + old + "," + new
	var calls []string // the calls whose arguments are being read
	for i, start := 0, 0; i < len(text); i++ {
		if len(calls) > 0 && strings.HasPrefix(text[i:], sub) {
			rest := text[i+len(sub):]
			switch fn := calls[len(calls)-1]; {
			case strings.HasSuffix(fn, "strings.Replace"):
				if strings.HasPrefix(rest, ",c:-1)") {
					return true
				}
			case strings.HasPrefix(rest, ")") || strings.HasPrefix(rest, ","):
				return true
			}
		}
		switch text[i] {
		case '"':
			for i++; i < len(text) && text[i] != '"'; i++ {
				if text[i] == '\\' {
					i++
				}
			}
		case '(':
			calls = append(calls, text[start:i])
			start = i + 1
		case ')':
			if len(calls) > 0 {
				calls = calls[:len(calls)-1]
			}
			start = i + 1
		case ',':
			start = i + 1
		}
	}
	return false
}

// splitPlaceholder separates a placeholder (a quoted constant) from what it replaces.
func splitPlaceholder(s string) [2]string {
	for i := 3; i < len(s); i++ {
		if s[i] == '\\' {
			i++
		} else if s[i] == '"' {
			return [2]string{s[:i+1], s[i+2:]}
		}
	}
	return [2]string{s, ""}
}

func ruleC30(p *Program, r *Report) {
	rs := runRenderSim(p, r)
	r.rule("at every exit of a file rendering that may be a success, the change reported is the comparison of the text returned with the text given (or false when the text given is returned, or when nothing has been executed)")
	n := 0
	for _, e := range rs.exits {
		text, changed, ok := e.successful()
		content := rs.content[e.root.id()]
		if !ok || content == "" || e.st.ev["handled"] {
			continue
		}
		n++
		key := fnName(e.root.fn)
		t, neg := canonAtom(changed)
		eq := "eq(" + text + ";" + content + ")"
		if text > content {
			eq = "eq(" + content + ";" + text + ")"
		}
		good := false
		switch {
		case text == "sub.text":
			good = changed == "sub.changed"
		case !e.st.ev["executed"] && changed == "c:false":
			good = true
		case text == content:
			good = changed == "c:false" || neg && t == eq
		case neg && t == eq:
			good = true
		default:
			if same, known := e.st.atoms[eq]; known {
				good = !same == (changed == "c:true") && (changed == "c:true" || changed == "c:false")
			}
		}
		if good {
			r.ok("%s (%s) from %s: change reported %s", key, e.pos, e.root.from, clip(changed, 120))
		} else {
			r.bad("changed|"+key+"|"+clip(changed, 60), e.pos, "a rendering returns %s and reports changed=%s, which is not the comparison with the text given (state: %s; from %s)", clip(text, 300), clip(changed, 300), e.st.describe(), e.root.from)
		}
	}
	r.need("successful exits of a file rendering", n, 2)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
