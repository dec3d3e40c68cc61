package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mayPanic tells, for the functions of the repository, which may end with a panic of the program or of
// the libraries it uses: explicit panics, must functions, conversions of interfaces, library functions
// documented to panic on bad values, functions received from elsewhere. Errors of indices and of nil
// pointers are left out, as they are for any code.
type panicAnalysis struct {
	p    *Program
	may  map[*ssa.Function]string
	safe map[*ssa.Function]bool // catches the panics
}

var panicCache *panicAnalysis

func (p *Program) panics() *panicAnalysis {
	if panicCache != nil && panicCache.p == p {
		return panicCache
	}
	a := &panicAnalysis{p: p, may: map[*ssa.Function]string{}, safe: map[*ssa.Function]bool{}}
	panicCache = a
	for _, fn := range p.Funcs {
		callsIn(fn, func(c ssa.CallInstruction) {
			d, ok := c.(*ssa.Defer)
			if !ok {
				return
			}
			callee := p.Callee(d.Common())
			if callee == nil {
				return
			}
			callsIn(callee, func(c ssa.CallInstruction) {
				if p.calleeName(c.Common()) == "builtin recover" {
					a.safe[fn] = true
				}
			})
		})
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.Funcs {
			if a.may[fn] != "" || a.safe[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if why := a.at(in); why != "" && a.may[fn] == "" {
						a.may[fn] = why
						changed = true
					}
				}
			}
		}
	}
	return a
}

// at gives the reason an instruction may panic, or nothing.
func (a *panicAnalysis) at(in ssa.Instruction) string {
	switch in := in.(type) {
	case *ssa.Panic:
		return "panic"
	case *ssa.TypeAssert:
		if !in.CommaOk {
			return "conversion to " + shortType(in.AssertedType)
		}
	case *ssa.Call:
		return a.call(in.Common())
	}
	return ""
}

func (a *panicAnalysis) call(c *ssa.CallCommon) string {
	name := a.p.calleeName(c)
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return ""
	}
	if fs := a.p.Callees(c); len(fs) > 0 {
		for _, f := range fs {
			if len(f.Blocks) > 0 && a.p.inRepo(f) {
				if a.may[f] != "" {
					return fnName(f) + " (" + a.may[f] + ")"
				}
				continue
			}
			if panickingLibrary(fnName(f)) {
				return fnName(f)
			}
		}
		return ""
	}
	if c.IsInvoke() {
		return ""
	}
	return "the function called through " + name
}

func panickingLibrary(name string) bool {
	base := name[strings.LastIndex(name, ".")+1:]
	return strings.HasPrefix(base, "Must") || base == "Raise" || strings.HasPrefix(base, "Panic") ||
		name == "(*text/template.Template).Funcs" || name == "(*text/template.Template).Option" ||
		strings.HasPrefix(name, "(reflect.Value).") || name == "strings.Repeat" || name == "bytes.Repeat"
}
