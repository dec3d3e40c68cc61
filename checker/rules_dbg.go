package main

import (
	"fmt"
	"golang.org/x/tools/go/ssa"
	"os"
)

var dbgHook = func(s *Sim, fr *Frame, b *ssa.BasicBlock, st *State) {}

func init() {
	n := 0
	if os.Getenv("DBGH") != "" {
		dbgHook = func(s *Sim, fr *Frame, b *ssa.BasicBlock, st *State) {
			if n > 600 {
				return
			}
			if fnName(fr.fn) == os.Getenv("DBGH") && fmt.Sprint(b.Index) == os.Getenv("DBGB") {
				n++
				fmt.Println("----", fr.id)
				fmt.Println(st.key())
			}
		}
	}
}
