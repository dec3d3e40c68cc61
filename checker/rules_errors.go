package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", "every function that obtains the error of a write, command, download or template evaluation lets it out on every path that ends normally", ruleC06)
}

// The operations whose failure changes what the user gets: they write, run, download, compile or evaluate.
// Reads, lookups and conversions are not listed: their failure legitimately selects another
// interpretation of the argument (file or inline code, data or text).
var significantOps = map[string]bool{
	"os.WriteFile": true, "io/ioutil.WriteFile": true, "os.Rename": true, "os.Mkdir": true, "os.MkdirAll": true, "os.Chmod": true, "(*os.File).Chmod": true,
	"os.Create": true, "os.CreateTemp": true, "io/ioutil.TempFile": true, "os.MkdirTemp": true, "io/ioutil.TempDir": true, "os.OpenFile": true, "os.Symlink": true, "os.Link": true, "os.Truncate": true, "os.Chdir": true,
	"(*os.File).Write": true, "(*os.File).WriteString": true, "(*os.File).WriteAt": true, "(*os.File).ReadFrom": true, "(*os.File).Sync": true, "(*os.File).Truncate": true,
	"io.Copy": true, "io.CopyN": true, "io.ReadAll": true, "io/ioutil.ReadAll": true, "(*bufio.Writer).Flush": true,
	"(*os/exec.Cmd).Run": true, "(*os/exec.Cmd).Start": true, "(*os/exec.Cmd).Wait": true, "(*os/exec.Cmd).Output": true, "(*os/exec.Cmd).CombinedOutput": true,
	"net/http.Get": true, "net/http.Post": true, "net/http.Head": true, "(*net/http.Client).Do": true, "(*net/http.Client).Get": true, "net/http.NewRequest": true,
	"github.com/PuerkitoBio/goquery.NewDocumentFromReader": true, "github.com/PuerkitoBio/goquery.NewDocumentFromResponse": true, "github.com/PuerkitoBio/goquery.NewDocument": true,
	"(*text/template.Template).Parse": true, "(*text/template.Template).ParseFiles": true, "(*text/template.Template).ParseGlob": true, "(*text/template.Template).Clone": true,
	"(*text/template.Template).Execute": true, "(*text/template.Template).ExecuteTemplate": true,
}

type errDrop struct {
	op, fn, pos string
	tested      bool
}

func ruleC06(p *Program, r *Report) {
	r.rule("an error obtained from a significant operation (or from a function of the repository that passes such an error on) is, on every path that ends normally: nil, returned, handed to a call, stored outside of the function, or followed by the return of another error")
	r.rule("such an error is not overwritten before it was tested")
	returned := map[*ssa.Function]map[string]bool{} // function -> callees whose error it lets out
	calls := map[*ssa.Function]map[string]bool{}
	var drops []errDrop
	for _, fn := range p.Funcs {
		if fn.Synthetic != "" || len(fn.Blocks) == 0 || fn.Name() == "init" && fn.Signature.Recv() == nil {
			continue
		}
		any := false
		calls[fn] = map[string]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && hasErr(c) {
					any = true
				}
			}
		}
		if !any {
			continue
		}
		ds, rs, cs, over := p.droppedErrors(fn)
		if over != "" {
			r.note("%s: not followed completely (%s)", fnName(fn), over)
		}
		drops = append(drops, ds...)
		returned[fn], calls[fn] = rs, cs
	}
	sig := map[string]bool{}
	for k := range significantOps {
		sig[k] = true
	}
	for changed := true; changed; {
		changed = false
		for fn, rs := range returned {
			if sig[fnName(fn)] {
				continue
			}
			for c := range rs {
				if sig[c] {
					sig[fnName(fn)] = true
					changed = true
				}
			}
		}
	}
	sites := 0
	var through []string
	for fn, cs := range calls {
		for c := range cs {
			if sig[c] {
				sites++
				r.ok("%s: the error of %s gets out", fnName(fn), c)
				through = append(through, fnName(fn)+" <- "+c)
			}
		}
	}
	sort.Strings(through)
	for _, t := range through {
		r.sample("%s", t)
	}
	r.count("pairs of function and significant operation", sites)
	r.need("pairs of function and significant operation", sites, 10)
	seen := map[string]bool{}
	for _, d := range drops {
		if !sig[d.op] {
			continue
		}
		key := "dropped|" + d.fn + "|" + d.op
		if !seen[key] {
			seen[key] = true
			r.bad(key, d.pos, "%s can end normally without letting out the error it got from %s", d.fn, d.op)
		}
	}
}

// droppedErrors simulates one function and reports the error-returning calls whose error can be lost,
// the callees whose error is returned, and all the callees that return errors.
func (p *Program) droppedErrors(fn *ssa.Function) (drops []errDrop, returned, all map[string]bool, overflow string) {
	s := newSim(p)
	s.track = func(t types.Type) bool {
		_, ptr := t.Underlying().(*types.Pointer)
		return ptr || defaultTrack(t)
	}
	s.budget = 60000
	returned, all = map[string]bool{}, map[string]bool{}
	sites := map[string][2]string{}
	s.relevant = func(a string) bool { return strings.HasPrefix(a, "nil?(err@") || strings.HasPrefix(a, "nil?(with@") }
	ids := func(t string, f func(id string)) {
		for i := strings.Index(t, "err@"); i >= 0; {
			j := i + 4
			for j < len(t) && (t[j] == ':' || t[j] >= '0' && t[j] <= '9') {
				j++
			}
			f(t[i:j])
			t = t[j:]
			i = strings.Index(t, "err@")
		}
	}
	use := func(st *State, t string) { ids(t, func(id string) { delete(st.ev, "open "+id) }) }
	useBindings := func(fr *Frame, st *State, v ssa.Value) {
		if mc, ok := v.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				if v, ok := st.mem[s.term(fr, st, b)]; ok {
					use(st, v)
				}
			}
		}
	}
	s.onCall = func(s *Sim, fr *Frame, st *State, site ssa.CallInstruction, name string, args []string) []Outcome {
		ns := st.clone()
		for _, a := range args {
			use(ns, a)
			// a variable holding the error
			for k, v := range ns.mem {
				if k == a || strings.HasPrefix(k, a+".") || strings.HasPrefix(k, a+"#") {
					use(ns, v)
				}
			}
		}
		useBindings(fr, ns, site.Common().Value)
		for _, a := range site.Common().Args {
			useBindings(fr, ns, a)
		}
		if !hasErr(site) || makesError(name) {
			return []Outcome{{st: ns}}
		}
		all[name] = true
		id := "err" + s.siteID(fr, site)
		sites[id] = [2]string{name, p.instrPos(site)}
		var res []string
		rt := site.Common().Signature().Results()
		for i := 0; i < rt.Len(); i++ {
			if isErrorType(rt.At(i).Type()) {
				res = append(res, id)
			} else {
				// a result known to be there means that the call succeeded
				res = append(res, fmt.Sprintf("with%s#%d", id[3:], i))
				delete(ns.atoms, nilAtom(res[i]))
			}
		}
		if _, tested := ns.atoms[nilAtom(id)]; ns.ev["open "+id] && !tested {
			ns.ev["lost "+id] = true
		}
		delete(ns.atoms, nilAtom(id))
		cal := p.Callee(site.Common())
		attempt := significantOps[name] || cal == nil || p.inRepo(cal)
		for ev := range ns.ev {
			if attempt && strings.HasPrefix(ev, "open ") && ev != "open "+id {
				if isNil, tested := ns.atoms[nilAtom(ev[5:])]; tested && !isNil {
					ns.ev["retry "+ev[5:]+" "+id] = true
				}
			}
		}
		ns.ev["open "+id] = true
		return []Outcome{{st: ns, results: res}}
	}
	s.onInstr = func(s *Sim, fr *Frame, st *State, in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Store:
			if _, ok := in.Addr.(*ssa.Alloc); !ok {
				use(st, s.term(fr, st, in.Val))
			}
		case *ssa.MapUpdate:
			use(st, s.term(fr, st, in.Value))
		case *ssa.Send:
			use(st, s.term(fr, st, in.X))
		case *ssa.Panic:
			use(st, s.term(fr, st, in.X))
		}
	}
	res := fn.Signature.Results()
	for _, e := range s.Run(fn, newState(), nil) {
		if e.panics || e.exits {
			continue
		}
		st := e.st.clone()
		failing := false
		var other []string
		if os.Getenv("DBG_ERR") == fnName(fn) {
			fmt.Fprintln(os.Stderr, e.results, st.ev, st.atoms)
		}
		// a function without error result handing back its argument: an attempt that changes nothing
		fallback := !isErrorResult(fn)
		for _, t := range e.results {
			fallback = fallback && isParam(fn, t)
		}
		for i, t := range e.results {
			use(st, t)
			if i >= res.Len() || !isErrorType(res.At(i).Type()) || t == "c:nil" {
				continue
			}
			ids(t, func(id string) { returned[sites[id][0]] = true })
			isNil, known := st.atoms[nilAtom(t)]
			if !known || !isNil {
				other = append(other, t)
			}
			if known && !isNil || strings.Contains(t, "fmt.Errorf") || strings.Contains(t, "errors.New") {
				failing = true
			}
		}
		if failing {
			continue
		}
		for ev := range st.ev {
			lost := strings.HasPrefix(ev, "lost ")
			if !lost && !strings.HasPrefix(ev, "open ") {
				continue
			}
			id := ev[5:]
			isNil, tested := st.atoms[nilAtom(id)]
			if !lost && tested && (isNil || replaced(st, id, other)) {
				continue
			}
			if !lost && st.succeeded(id) {
				continue
			}
			if tested && !isNil && res.Len() > 0 && fallback {
				continue
			}
			drops = append(drops, errDrop{sites[id][0], fnName(fn), sites[id][1], tested})
		}
	}
	sort.Slice(drops, func(i, j int) bool { return drops[i].pos < drops[j].pos })
	return drops, returned, all, s.overflow
}

func makesError(name string) bool {
	return strings.HasPrefix(name, "fmt.Errorf") || strings.HasPrefix(name, "errors.New")
}

func hasErr(c ssa.CallInstruction) bool {
	res := c.Common().Signature().Results()
	for i := 0; i < res.Len(); i++ {
		if isErrorType(res.At(i).Type()) {
			return true
		}
	}
	return false
}

func (st *State) succeeded(id string) bool {
	for a, isNil := range st.atoms {
		if !isNil && strings.HasPrefix(a, "nil?(with"+id[3:]+"#") {
			return true
		}
	}
	return false
}

func isParam(fn *ssa.Function, t string) bool {
	for _, prm := range fn.Params {
		if t == "p:"+prm.Name() || t == "iface("+"p:"+prm.Name()+")" {
			return true
		}
	}
	return false
}

// replaced: the error returned is the one of another attempt, made after id was seen to have failed.
func replaced(st *State, id string, returned []string) bool {
	for _, t := range returned {
		if !strings.Contains(t, "err@") {
			return true
		}
		for ev := range st.ev {
			if strings.HasPrefix(ev, "retry "+id+" ") && strings.Contains(t, ev[len("retry "+id+" "):]) {
				return true
			}
		}
	}
	return false
}
