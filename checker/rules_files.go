package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The file-processing simulation behind C01, C02 and C03: every path of the exported
// file-processing entry points is followed with the facts
//   rendering error, options[Overwrite], options[OutputStdout] (re-read after rendering),
//   is-template-file(source), source folder == target folder, changed,
//   outcome of the renaming and of the writing.
// Each file-system mutation and each print of a result met on the way is an obligation
// judged in the state that reaches it.

type fileSink struct {
	name  string
	key   string // construct: function + callee
	pos   string
	stack string
	args  []string
	st    *State
}

type fileSim struct {
	p                 *Program
	overwrite, stdout *regexp.Regexp
	sinks             []fileSink
	prints            []fileSink
	seen              map[string]bool
	renders           int
	roots             []string
	isTemplateFns     map[string]bool
	functions         int
	callSites         int
	deliver           bool // what becomes of the result is followed too (C32)
	exits             []fileExit
	again             []fileSink // prints of a result that was printed already
}

const execName = "(*text/template.Template).Execute"

func isExec(name string) bool {
	return name == execName || name == "(*text/template.Template).ExecuteTemplate"
}

func isFsMutator(name string) bool { _, ok := fsMutators[name]; return ok }

// isPrinter recognises the calls that send a rendered result to standard output.
func isPrinter(name string) bool {
	return hasPrefixAny(name, "fmt.Print", "github.com/coveooss/multilogger/color.Print", "var template.Print")
}

const (
	srcFolder = "SRC_FOLDER"
	dstFolder = "DST_FOLDER"
)

var fileSimCache *fileSim

// extensionGlobals: the list of template file extensions.
func (p *Program) templatePredicates() map[string]bool {
	res := map[string]bool{}
	for _, g := range p.stringsGlobalWith(tmplPkg, ".gt", ".template") {
		for _, fn := range p.Funcs {
			rt := resultTypes(fn)
			if readsGlobal(fn, g) && len(rt) == 1 && defaultTrack(rt[0]) && !isErrorType(rt[0]) {
				res[fnName(fn)] = true
			}
		}
	}
	return res
}

func runFileSim(p *Program, r *Report, mode ...string) *fileSim {
	p.findTempMakers()
	fs := &fileSim{p: p, overwrite: p.optionAtom("Overwrite"), stdout: p.optionAtom("OutputStdout"), seen: map[string]bool{}}
	fs.deliver = len(mode) > 0
	if fs.overwrite == nil || fs.stdout == nil {
		r.bad("anchor|options", "-", "the Overwrite/OutputStdout options are not declared any more")
		return fs
	}
	fs.isTemplateFns = p.templatePredicates()
	r.need("template-file predicates", len(fs.isTemplateFns), 1)
	reachExec := p.reach(isExec)
	reachSink := p.reach(isFsMutator)
	var roots []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != tmplPkg || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		if reachSink[fn] && reachExec[fn] {
			roots = append(roots, fn)
		}
	}
	r.need("file-processing entry points", len(roots), 2)
	loops := map[*ssa.Function]*loopInfo{}
	for _, root := range roots {
		if rt := resultTypes(root); fs.deliver && (len(rt) != 2 || rt[0].String() != "string" || !isErrorType(rt[1])) {
			continue
		}
		s := newSim(p)
		s.maxDepth = 12
		s.track = trackScalars
		s.relevant = fs.relevant
		s.inline = func(fr *Frame, callee *ssa.Function) bool {
			if callee.Pkg == nil || callee.Name() == "init" || fs.isTemplateFns[fnName(callee)] {
				return false
			}
			if reachExec[callee] && !reachSink[callee] {
				return false
			}
			return callee.Pkg.Pkg.Path() == tmplPkg
		}
		s.onInstr = func(s *Sim, fr *Frame, st *State, in ssa.Instruction) {
			if lk, ok := in.(*ssa.Lookup); ok && !lk.CommaOk {
				if t := s.term(fr, st, lk); fs.overwrite.MatchString(t) || fs.stdout.MatchString(t) {
					if st.ev["rendered"] {
						t += "'"
					}
					st.regs[fr.id+"/"+lk.Name()] = t
				}
			}
		}
		s.onBack = func(s *Sim, fr *Frame, st *State, header *ssa.BasicBlock) {
			li := loops[fr.fn]
			if li == nil {
				li = newLoopInfo(fr.fn)
				loops[fr.fn] = li
			}
			for _, b := range li.body(header) {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						for _, cal := range p.Callees(c.Common()) {
							if reachExec[cal] {
								fs.forget(st)
								return
							}
						}
					}
				}
			}
		}
		s.onCall = func(s *Sim, fr *Frame, st *State, site ssa.CallInstruction, name string, args []string) []Outcome {
			callee := p.Callee(site.Common())
			if callee != nil && reachExec[callee] && !reachSink[callee] {
				fs.renders++
				ns := st.clone()
				src := ns.mem["&source"]
				fs.forget(ns)
				ns.mem["&source"] = src
				ns.ev["rendered"] = true
				if fs.deliver {
					for a, v := range st.atoms {
						if isReadAtom(a) || isNoTarget(a) {
							ns.atoms[a] = v
						}
					}
				}
				var res []string
				for _, t := range resultTypes(callee) {
					switch {
					case isErrorType(t):
						res = append(res, "render.err")
					case defaultTrack(t):
						res = append(res, "render.changed")
					default:
						res = append(res, "render.text")
					}
				}
				return []Outcome{{st: ns, results: res}}
			}
			rec := func(list *[]fileSink) {
				k := fmt.Sprintf("%p", list) + p.instrPos(site) + name + fr.stack() + st.key()
				if fs.seen[k] {
					return
				}
				fs.seen[k] = true
				*list = append(*list, fileSink{name: name, key: fnName(enclosing(fr.fn)) + " -> " + name, pos: p.instrPos(site), stack: fr.stack(), args: args, st: st.clone()})
			}
			switch {
			case name == "os.ReadFile" || name == "io/ioutil.ReadFile" || name == "os.Open":
				ns := st.clone()
				if !ns.ev["rendered"] {
					ns.mem["&source"] = args[0]
				}
				return []Outcome{{st: ns}}
			case isPrinter(name):
				rec(&fs.prints)
				if fs.deliver {
					ns := st.clone()
					if text := fs.delivered(ns, args); text != "" {
						if ns.ev["printed"] {
							rec(&fs.again)
						}
						ns.ev["printed"] = true
					}
					return []Outcome{{st: ns}}
				}
				return []Outcome{{st: st}}
			case name == "(*bufio.Writer).Flush" || len(args) > 1 && isFileWriter(name):
				if isFsMutator(name) {
					rec(&fs.sinks)
				}
				return fs.streams(st, site, name, fmt.Sprintf("fs.write%s", s.siteID(fr, site)), args, func() { rec(&fs.again) })
			case isFsMutator(name):
				rec(&fs.sinks)
				id := fmt.Sprintf("fs.%s%s", strings.TrimPrefix(name, "os."), s.siteID(fr, site))
				ns := st.clone()
				delete(ns.atoms, nilAtom(id))
				if fs.deliver {
					fs.mutates(ns, name, id, args)
				}
				if !tempTerm(args[0]) {
					switch name {
					case "os.WriteFile", "io/ioutil.WriteFile", "os.Create", "os.OpenFile":
						ns.mem["&written"] = id
					case "os.Rename":
						ns.mem["&renamed"] = id
						ns.mem["&renamed.from"] = args[0]
						ns.mem["&renamed.to"] = args[1]
					}
				}
				if sig := site.Common().Signature(); sig.Results().Len() == 1 && isErrorType(sig.Results().At(0).Type()) {
					return []Outcome{{st: ns, results: []string{id}}}
				} else if sig.Results().Len() == 2 && isErrorType(sig.Results().At(1).Type()) {
					return []Outcome{{st: ns, results: []string{"call:" + name + "(" + strings.Join(args, ",") + ")", id}}}
				}
				return []Outcome{{st: ns}}
			}
			return nil
		}
		var params []string
		var strs []int
		for i, prm := range root.Params {
			params = append(params, "p:"+prm.Name())
			if prm.Type().String() == "string" {
				strs = append(strs, i)
			}
		}
		if n := len(strs); n >= 2 { // (template, source, target) or (source, target, templates...)
			params[strs[n-2]], params[strs[n-1]] = srcFolder, dstFolder
		}
		fs.roots = append(fs.roots, fnName(root))
		for _, e := range s.Run(root, newState(), params) {
			if fs.deliver && e.ret != nil {
				fs.exits = append(fs.exits, fileExit{fn: root, Exit: e})
			}
		}
		if s.overflow != "" {
			r.bad("internal|overflow", "-", "%s", s.overflow)
		}
		fs.functions += len(s.analysed)
		fs.callSites += s.sites
	}
	r.count("functions followed in context", fs.functions)
	r.count("call sites followed", fs.callSites)
	r.need("rendering calls reached", fs.renders, 1)
	return fs
}

// forget drops what was known about the previous file.
func (fs *fileSim) forget(st *State) {
	for k := range st.atoms {
		if fs.overwrite.MatchString(k) || strings.HasPrefix(k, "eq(") {
			continue
		}
		delete(st.atoms, k)
	}
	for _, k := range []string{"&written", "&renamed", "&renamed.from", "&renamed.to", "&source"} {
		delete(st.mem, k)
	}
	for k := range st.ev {
		delete(st.ev, k)
	}
}

func (fs *fileSim) relevant(a string) bool {
	if fs.overwrite.MatchString(a) || fs.stdout.MatchString(a) || a == "render.changed" {
		return true
	}
	if strings.HasPrefix(a, "nil?(render.err") || strings.HasPrefix(a, "nil?(fs.") {
		return true
	}
	if fs.isTemplateAtom(a) {
		return true
	}
	if fs.deliver && (strings.Contains(a, "render.text") || isReadAtom(a) || isNoTarget(a) || isNoExt(a)) {
		return true
	}
	return strings.HasPrefix(a, "eq(") && fs.isFolderEq(a)
}

func (fs *fileSim) isTemplateAtom(a string) bool {
	for n := range fs.isTemplateFns {
		if strings.HasPrefix(a, "call:"+n+"(") {
			return true
		}
	}
	return false
}

// isFolderEq recognises the comparison of the source and the target folder.
func (fs *fileSim) isFolderEq(a string) bool {
	x, y := splitPair(a[3 : len(a)-1])
	return strings.Contains(x, srcFolder) && strings.Contains(y, dstFolder) && !strings.Contains(x, dstFolder) && !strings.Contains(y, srcFolder) ||
		strings.Contains(y, srcFolder) && strings.Contains(x, dstFolder) && !strings.Contains(y, dstFolder) && !strings.Contains(x, srcFolder)
}

func tempTerm(t string) bool {
	if strings.Contains(t, "call:os.MkdirTemp(") || strings.Contains(t, "call:os.CreateTemp(") {
		return true
	}
	for name := range tempMakers {
		if strings.Contains(t, "call:"+name+"(") {
			return true
		}
	}
	return false
}

func (k fileSink) temp() bool {
	return k.name == "os.MkdirTemp" || k.name == "os.CreateTemp" || tempTerm(k.args[0])
}

func (k fileSink) renderOK() bool {
	v, ok := k.st.atoms[nilAtom("render.err")]
	return ok && v && k.st.ev["rendered"]
}

// isTemplate is the known answer of the template-file test on the source.
func (fs *fileSim) isTemplate(k fileSink) (val, known bool) {
	for a, v := range k.st.atoms {
		if fs.isTemplateAtom(a) && strings.Contains(a, k.st.mem["&source"]) && k.st.mem["&source"] != "" {
			return v, true
		}
	}
	return false, false
}

func (fs *fileSim) sameFolder(k fileSink) (val, known bool) {
	for a, v := range k.st.atoms {
		if strings.HasPrefix(a, "eq(") && fs.isFolderEq(a) {
			return v, true
		}
	}
	return false, false
}

// stdoutOff: the print option, read after the rendering, is known to be off.
func (fs *fileSim) stdoutOff(k fileSink) bool {
	for a, v := range k.st.atoms {
		if fs.stdout.MatchString(a) && (strings.HasSuffix(a, "'") || !k.st.ev["rendered"]) && !v {
			return true
		}
	}
	return false
}

func (fs *fileSim) okFact(k fileSink, cell string) bool {
	id := k.st.mem[cell]
	if id == "" {
		return false
	}
	v, ok := k.st.atoms[nilAtom(id)]
	return ok && v
}

func init() {
	register("C01", "Property simulation of the file-processing entry points: every call that removes, renames or writes a file is judged in the set of facts known on each path that reaches it.", ruleC01,
		"paths are compared as canonical terms; the file system is not modelled beyond the success of each call",
		"files removed or moved by the operating-system commands a template runs on purpose are outside the property")
	register("C02", "Same simulation: no file-system mutation outside a private temporary folder is reachable unless the print option, read after the rendering, is off.", ruleC02,
		"os.MkdirTemp and os.CreateTemp return fresh names")
	register("C03", "Same simulation: every write, rename, removal and print of a result is reached only with the rendering error known to be nil.", ruleC03)
}

func ruleC01(p *Program, r *Report) {
	r.rule("a path is removed only when in-place, overwriting, the source is a template, and its result was written without error; the path removed is the source")
	r.rule("an in-place result is written only if the source is a template, or overwriting is on, or the source was first renamed without error to a longer name")
	r.rule("an in-place result is written only if the rendering changed something")
	r.rule("without overwriting, the result of a template is written beside it under a name carrying .generated")
	fs := runFileSim(p, r)
	writes, removes, renames := 0, 0, 0
	for _, k := range fs.sinks {
		if k.temp() {
			continue
		}
		same, sameKnown := fs.sameFolder(k)
		tmpl, tmplKnown := fs.isTemplate(k)
		over, overKnown := k.st.fact(fs.overwrite)
		switch k.name {
		case "os.Remove", "os.RemoveAll", "os.Truncate":
			removes++
			if k.args[0] != k.st.mem["&source"] {
				r.bad("remove-path|"+k.key, k.pos, "the path removed (%s) is not the file that was processed; path %s; facts: %s", k.args[0], k.stack, k.st.describe())
				continue
			}
			if !(over && overKnown && tmpl && tmplKnown && same && sameKnown && fs.okFact(k, "&written") && (k.st.mem["&stream"] == "" || fs.okFact(k, "&stream")) && k.renderOK()) {
				r.bad("remove-guard|"+k.key, k.pos, "a source file can be removed without overwriting being asked, or although it is not a template, the target is elsewhere, or its result is not safely written; path %s; facts: %s", k.stack, k.st.describe())
				continue
			}
			r.ok("%s %s: guarded by {%s}", k.pos, k.key, k.st.describe())
		case "os.Rename":
			renames++
			if k.args[0] != k.st.mem["&source"] || !strings.Contains(k.args[1], k.args[0]) || k.args[0] == k.args[1] {
				r.bad("rename-path|"+k.key, k.pos, "a file is renamed from %s to %s: only the processed file may be set aside, under a name derived from its own", k.args[0], k.args[1])
				continue
			}
			if !(same && sameKnown) {
				r.bad("rename-guard|"+k.key, k.pos, "the source can be moved although the target folder is another one; facts: %s", k.st.describe())
				continue
			}
			r.ok("%s %s: guarded by {%s}", k.pos, k.key, k.st.describe())
		case "os.WriteFile", "os.Create", "os.OpenFile", "io/ioutil.WriteFile":
			writes++
			if sameKnown && !same {
				r.ok("%s %s: target folder differs", k.pos, k.key)
				continue
			}
			renamed := fs.okFact(k, "&renamed") && k.st.mem["&renamed.from"] == k.st.mem["&source"]
			if !(over && overKnown || tmpl && tmplKnown || renamed) {
				r.bad("write-guard|"+k.key, k.pos, "the result can overwrite the source in place although overwriting is off, the source is not a template and was not set aside; path %s; facts: %s", k.stack, k.st.describe())
				continue
			}
			if ch, known := k.st.atoms["render.changed"]; !known || !ch {
				r.bad("write-unchanged|"+k.key, k.pos, "a file can be rewritten in place although its rendering changed nothing; path %s; facts: %s", k.stack, k.st.describe())
				continue
			}
			if tmpl && tmplKnown && !(over && overKnown) && !strings.Contains(k.args[0], ".generated") {
				r.bad("write-generated|"+k.key, k.pos, "without overwriting, the result of a template is written to %s, which may be an existing file of the user; facts: %s", k.args[0], k.st.describe())
				continue
			}
			r.ok("%s %s: guarded by {%s}", k.pos, k.key, k.st.describe())
		case "os.MkdirAll", "os.Mkdir":
			r.ok("%s %s creates a folder only", k.pos, k.key)
		case "(*os.File).Write", "(*os.File).WriteString":
			if strings.Contains(k.args[0], "call:os.Create(") || strings.Contains(k.args[0], "call:os.OpenFile(") {
				r.ok("%s %s: the opening of that file is judged", k.pos, k.key)
				continue
			}
			fallthrough
		default:
			r.bad("mutator|"+k.key, k.pos, "the file-processing path changes the file system through %s, which no rule covers; path %s", k.name, k.stack)
		}
	}
	r.need("writes judged (per path)", writes, 1)
	r.need("renames judged (per path)", renames, 1)
	r.need("removals judged (per path)", removes, 1)
}

func ruleC02(p *Program, r *Report) {
	r.rule("on every path to a file-system mutation that is not inside a fresh temporary folder, options[OutputStdout], read after the rendering, is known to be false")
	fs := runFileSim(p, r)
	n := 0
	for _, k := range fs.sinks {
		if k.temp() {
			r.ok("%s %s: private temporary path", k.pos, k.key)
			continue
		}
		n++
		if !fs.stdoutOff(k) {
			r.bad("print-mode|"+k.key, k.pos, "%s can run although results are to be printed (print option on, or turned on by the file itself); path %s; facts: %s", k.name, k.stack, k.st.describe())
			continue
		}
		r.ok("%s %s: print option off", k.pos, k.key)
	}
	r.need("mutations judged (per path)", n, 4)
}

func ruleC03(p *Program, r *Report) {
	r.rule("on every path to a file-system mutation or to a print of a result, the error of the rendering is known to be nil")
	fs := runFileSim(p, r)
	n := 0
	for _, list := range [][]fileSink{fs.sinks, fs.prints} {
		for _, k := range list {
			n++
			if !k.renderOK() {
				r.bad("render-failed|"+k.key, k.pos, "%s can run although the rendering of the file failed or did not happen; path %s; facts: %s", k.name, k.stack, k.st.describe())
				continue
			}
			r.ok("%s %s: rendering succeeded", k.pos, k.key)
		}
	}
	r.need("mutations and prints judged (per path)", n, 6)
}

// tempMakers are the functions of the repository whose text results are fresh temporary names (or nothing).
var tempMakers = map[string]bool{}

func (p *Program) findTempMakers() {
	tempMakers = map[string]bool{}
	for _, fn := range p.Funcs {
		if fn.Parent() != nil || len(fn.Blocks) == 0 {
			continue
		}
		fresh, other := false, false
		var visit func(v ssa.Value, depth int)
		visit = func(v ssa.Value, depth int) {
			switch x := v.(type) {
			case *ssa.Const:
				if x.Value != nil && constant.StringVal(x.Value) == "" {
					return
				}
			case *ssa.Phi:
				if depth < 6 {
					for _, e := range x.Edges {
						visit(e, depth+1)
					}
					return
				}
			case *ssa.UnOp:
				if al, ok := x.X.(*ssa.Alloc); ok && depth < 6 {
					for _, st := range allStores(al) {
						visit(st.Val, depth+1)
					}
					return
				}
			case *ssa.Extract:
				if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 {
					if n := p.calleeName(c.Common()); n == "os.MkdirTemp" {
						fresh = true
						return
					}
				}
			}
			other = true
		}
		for _, b := range fn.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for _, v := range ret.Results {
					if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.String {
						visit(v, 0)
					}
				}
			}
		}
		if fresh && !other {
			tempMakers[fnName(fn)] = true
		}
	}
}
