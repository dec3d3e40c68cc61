package main

import (
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fileExit struct {
	fn *ssa.Function
	Exit
}

func init() {
	register("C32", "Property simulation of the processing of one file: every end that may be a success is judged in its state: result printed, written whole, blank, or unchanged in place.", ruleC32,
		"the comparison of the source and target folders is the one of their names",
		"a text read back from a temporary file the result was written to is that result, formatted")
}

func isFileWriter(name string) bool {
	switch name {
	case "(*os.File).Write", "(*os.File).WriteString", "io.WriteString", "(*bufio.Writer).WriteString", "(*bufio.Writer).Write", "io.Copy":
		return true
	}
	return strings.HasPrefix(name, "fmt.Fprint")
}

// plainText removes what changes nothing in a text.
func plainText(t string) string {
	for {
		old := t
		for _, pre := range []string{"va(", "conv(", "call:fmt.Sprint(", "call:strings.NewReader(", "call:bytes.NewReader(", "call:bytes.NewBufferString("} {
			if strings.HasPrefix(t, pre) && strings.HasSuffix(t, ")") {
				t = t[len(pre) : len(t)-1]
			}
		}
		if t == old {
			return t
		}
	}
}

// delivered recognises the result of the rendering, or what became of it in a temporary file, among the arguments of a call.
func (fs *fileSim) delivered(st *State, args []string) string {
	for _, a := range args {
		t := plainText(a)
		if t == "render.text" {
			return t
		}
		// a line feed may be added
		sum := t
		if strings.HasPrefix(t, "+(") && strings.HasSuffix(t, ")") {
			sum = t[2 : len(t)-1]
		}
		if x, y := splitAt(sum, ','); plainText(x) == "render.text" && (y == "" || strings.Trim(y, "c:\"\\n") == "") {
			return t
		}
		for k, id := range st.mem {
			if path, ok := strings.CutPrefix(k, "&temp:"); ok && (strings.HasPrefix(t, "call:os.ReadFile("+path+")") || strings.HasPrefix(t, "call:io/ioutil.ReadFile("+path+")")) {
				if i := strings.LastIndex(t, "#0"); i >= 0 {
					read, known := st.atoms[nilAtom(t[:i]+"#1")]
					wrote, w := st.atoms[nilAtom(id)]
					if known && read && w && wrote {
						return t
					}
				}
			}
		}
	}
	return ""
}

// mutates records where the result is written.
func (fs *fileSim) mutates(st *State, name, id string, args []string) {
	switch name {
	case "os.WriteFile", "io/ioutil.WriteFile":
		whole := fs.delivered(st, args[1:2]) != ""
		if tempTerm(args[0]) {
			if whole {
				st.mem["&temp:"+args[0]] = id
			}
			return
		}
		delete(st.ev, "content")
		if whole {
			st.ev["content"] = true
		}
		st.mem["&written.to"] = args[0]
	case "os.Create", "os.OpenFile":
		if !tempTerm(args[0]) {
			delete(st.ev, "content")
			delete(st.mem, "&stream")
			delete(st.mem, "&buffered")
			st.mem["&written.to"] = args[0]
			st.mem["&opened"] = "emptied"
			if name == "os.OpenFile" {
				flags, err := strconv.Atoi(strings.TrimPrefix(plainText(args[1]), "c:"))
				if err != nil || flags&os.O_TRUNC == 0 && flags&os.O_EXCL == 0 {
					st.mem["&opened"] = "kept" // what the file held may be left after the result
				}
			}
		}
	}
}

// streams follows what is written to an opened file, through a buffer or not.
func (fs *fileSim) streams(st *State, site ssa.CallInstruction, name, id string, args []string, twice func()) []Outcome {
	ns := st.clone()
	delete(ns.atoms, nilAtom(id))
	whole := name == "(*bufio.Writer).Flush" || fs.delivered(st, args[1:]) != ""
	to := args[0]
	switch {
	case strings.Contains(to, "os.Stdout"):
		if !whole {
			return nil
		}
		if ns.ev["printed"] {
			twice()
		}
		ns.ev["printed"] = true
	case !strings.Contains(to, "call:os.Create(") && !strings.Contains(to, "call:os.OpenFile("):
		return nil
	case name == "(*bufio.Writer).Flush":
		if ns.mem["&buffered"] != "" {
			ns.ev["content"] = ns.mem["&buffered"] == "whole" && ns.mem["&opened"] == "emptied"
			ns.mem["&stream"] = id
		}
	case strings.Contains(to, "bufio.NewWriter"):
		ns.mem["&buffered"] = "whole"
		if !whole {
			ns.mem["&buffered"] = "other"
		}
	default:
		if whole && ns.mem["&opened"] == "emptied" {
			ns.ev["content"] = true
		}
		ns.mem["&stream"] = id
	}
	if !ns.ev["content"] {
		delete(ns.ev, "content")
	}
	sig := site.Common().Signature()
	switch sig.Results().Len() {
	case 1:
		return []Outcome{{st: ns, results: []string{id}}}
	case 2:
		return []Outcome{{st: ns, results: []string{"call:" + name + "(" + strings.Join(args, ",") + ")", id}}}
	}
	return []Outcome{{st: ns}}
}

func isReadAtom(a string) bool {
	return strings.HasPrefix(a, "nil?(call:os.ReadFile(") || strings.HasPrefix(a, "nil?(call:io/ioutil.ReadFile(") || strings.HasPrefix(a, "nil?(call:os.Stat(")
}

func isExtTerm(t string) bool {
	return strings.Contains(t, "call:path.Ext(") || strings.Contains(t, "call:path/filepath.Ext(")
}

// emptyFact: the text compared with the empty one by a condition.
func emptyFact(a string) string {
	if !strings.HasPrefix(a, "eq(") {
		return ""
	}
	x, y := splitPair(a[3 : len(a)-1])
	switch {
	case x == `c:""`:
		return y
	case y == `c:""`:
		return x
	}
	for _, p := range [][2]string{{x, y}, {y, x}} {
		for _, pre := range []string{"len(", "call:builtin len("} {
			if p[0] == "c:0" && strings.HasPrefix(p[1], pre) {
				return p[1][len(pre) : len(p[1])-1]
			}
		}
	}
	return ""
}

func isNoTarget(a string) bool { return emptyFact(a) == dstFolder }

func isNoExt(a string) bool {
	t := emptyFact(a)
	return strings.HasPrefix(t, "call:path.Ext(") || strings.HasPrefix(t, "call:path/filepath.Ext(")
}

// blank: the result is known to hold blanks only (for a file, its name has no extension either).
func blank(st *State, file bool) bool {
	text, ext := false, false
	for a, v := range st.atoms {
		if !v {
			continue
		}
		t := emptyFact(a)
		if strings.HasPrefix(t, "+(") {
			x, y := splitAt(t[2:len(t)-1], ',')
			if isExtTerm(x) && !strings.HasPrefix(x, "call:strings.Trim") {
				x, y = y, x
			}
			if blankTerm(x) && (isExtTerm(y)) {
				text, ext = true, true
			}
			continue
		}
		text = text || blankTerm(t)
		ext = ext || isNoExt(a)
	}
	return text && (ext || !file)
}

// blankTerm: the text without its blanks.
func blankTerm(t string) bool {
	return t == "render.text" || strings.HasPrefix(t, "call:strings.Trim") && strings.Contains(t, "(render.text") ||
		strings.HasPrefix(t, "call:(collections.String).Trim") && strings.Contains(t, "(render.text")
}

// ended tells how a rendering ended.
func (e fileExit) failed() bool {
	t := e.results[1]
	if t == "c:nil" {
		return false
	}
	for a, v := range e.st.atoms {
		if id, ok := strings.CutPrefix(a, "nil?("); ok && !v && strings.Contains(t, strings.TrimSuffix(id, ")")) {
			return true
		}
	}
	return neverNil(t)
}

func ruleC32(p *Program, r *Report) {
	r.rule("where the processing of a file or inline template may end without an error, its result has been printed (printing asked for, or inline), or written whole and without error to the file given back; otherwise the result is blank (with no extension, for a file) or the file is processed in place and unchanged")
	r.rule("the file written is in the target folder when there is one, and the name given back is the one of the file written, or none")
	r.rule("a result is printed once, and not both printed and written")
	fs := runFileSim(p, r, "deliver")
	judged, wrote, printed := 0, 0, 0
	for _, k := range fs.again {
		r.bad("twice|"+k.key, k.pos, "the result can be printed twice; path %s; facts: %s", k.stack, k.st.describe())
	}
	for _, e := range fs.exits {
		if e.failed() || e.ret.Block() == e.fn.Recover {
			continue
		}
		judged++
		k := fileSink{st: e.st}
		pos, key := p.instrPos(e.ret), fnName(e.fn)
		st := e.st
		file, fileKnown := false, false
		for a, v := range st.atoms {
			if isReadAtom(a) && !tempTerm(a) {
				file, fileKnown = v, true
			}
		}
		on, onKnown := false, false
		for a, v := range st.atoms {
			if fs.stdout.MatchString(a) && strings.HasSuffix(a, "'") {
				on, onKnown = v, true
			}
		}
		if !st.ev["rendered"] {
			r.bad("nothing|"+key, pos, "%s can end without an error although nothing was rendered; facts: %s", key, st.describe())
			continue
		}
		written := st.mem["&written.to"] != "" && st.ev["content"]
		ok := written && (fs.okFact(k, "&written") || strings.Contains(e.results[1], st.mem["&written"]))
		if id := st.mem["&stream"]; id != "" {
			ok = ok && (fs.okFact(k, "&stream") || strings.Contains(e.results[1], id))
		}
		same, sameKnown := fs.sameFolder(k)
		changed, changedKnown := st.atoms["render.changed"]
		unchanged := same && sameKnown && changedKnown && !changed
		inline := fileKnown && !file
		why := ""
		switch {
		case inline && !st.ev["printed"] && !blank(st, false):
			why = "the result of an inline template is not printed"
		case inline:
		case on && onKnown && !st.ev["printed"] && !blank(st, true):
			why = "the result is not printed although printing is on"
		case on && onKnown:
		case ok || unchanged || blank(st, true):
		case st.ev["printed"] && !onKnown:
		default:
			why = "the result of a file is neither written whole nor known to need no writing"
		}
		if why == "" && !inline && onKnown && !on && st.ev["printed"] {
			why = "the result is printed although printing is off"
		}
		name := e.results[0]
		switch {
		case why != "":
		case ok && name != st.mem["&written.to"]:
			why = "the name given back (" + name + ") is not the one of the file written"
		case !ok && name != `c:""`:
			why = "a name (" + name + ") is given back although no file was written"
		case ok && !strings.Contains(st.mem["&written.to"], dstFolder) && !(same && sameKnown):
			none := false
			for a, v := range st.atoms {
				none = none || v && isNoTarget(a)
			}
			if !none {
				why = "the file written (" + name + ") is not in the target folder"
			}
		}
		if why != "" {
			r.bad("delivered|"+key+"|"+strings.SplitN(why, "(", 2)[0], pos, "%s; facts: %s", why, st.describe())
			continue
		}
		switch {
		case ok:
			wrote++
			r.ok("%s: written to %s", key, name)
		case st.ev["printed"]:
			printed++
			r.ok("%s: printed", key)
		default:
			r.ok("%s: blank, or unchanged in place", key)
		}
	}
	r.need("ends that may be successes (per path)", judged, 10)
	r.need("ends after writing", wrote, 2)
	r.need("ends after printing", printed, 2)
}
