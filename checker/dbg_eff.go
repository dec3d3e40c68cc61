package main

import (
	"fmt"
	"os"
	"strings"
)

func (e *effects) dump(sub string) {
	for _, fn := range e.funcs {
		if strings.Contains(fnName(fn), sub) {
			s := e.sum(fn)
			fmt.Fprintln(os.Stderr, "==", fnName(fn))
			for i, p := range fn.Params {
				fmt.Fprintln(os.Stderr, "   p", i, p.Name())
			}
			for i, p := range fn.FreeVars {
				fmt.Fprintln(os.Stderr, "   fv", len(fn.Params)+i, p.Name())
			}
			for l, w := range s.writes {
				fmt.Fprintln(os.Stderr, "   write", l, w)
			}
			for l, c := range s.caps {
				fmt.Fprintln(os.Stderr, "   cap", l, "<-", c.sorted())
			}
			for i, r := range s.results {
				fmt.Fprintln(os.Stderr, "   res", i, r.direct.sorted(), "inner", r.inner.sorted())
			}
		}
	}
}
