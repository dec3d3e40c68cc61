package main

import (
	_ "embed"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// A function or field that takes the place of one of the pinned tree (same package or struct, same
// type, the old name gone, no other candidate) is known by its old name.

//go:embed baseline_fields.txt
var baselineFieldText string

var funcAlias = map[*ssa.Function]string{}
var fieldAlias = map[*types.Var]string{}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, _ := t.Underlying().(*types.Struct)
	return st
}

func varName(v *types.Var) string {
	if n, ok := fieldAlias[v]; ok {
		return n
	}
	return v.Name()
}

func renamedFields(pkgs []*packages.Package) {
	base := map[string]map[string]string{} // struct -> field -> type
	for _, l := range strings.Split(strings.TrimSpace(baselineFieldText), "\n") {
		if f := strings.Split(l, "\t"); len(f) == 3 {
			if base[f[0]] == nil {
				base[f[0]] = map[string]string{}
			}
			base[f[0]][f[1]] = f[2]
		}
	}
	var out []string
	for _, pk := range pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			var typ types.Type
			switch o := sc.Lookup(n).(type) {
			case *types.TypeName:
				if o.IsAlias() {
					continue
				}
				typ = o.Type()
			case *types.Var: // of a type without a name
				typ = o.Type()
				for deep := 0; deep < 4; deep++ {
					switch t := typ.(type) {
					case *types.Map:
						typ = t.Elem()
					case *types.Slice:
						typ = t.Elem()
					case *types.Pointer:
						typ = t.Elem()
					}
				}
				if _, ok := typ.(*types.Struct); !ok {
					continue
				}
			default:
				continue
			}
			st, ok := typ.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			key := shorten(pk.PkgPath + "." + n)
			old := base[key]
			here := map[string]bool{}
			fresh := map[string][]*types.Var{}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				t := shorten(f.Type().String())
				out = append(out, key+"\t"+f.Name()+"\t"+t)
				here[f.Name()] = true
				if _, ok := old[f.Name()]; !ok && !f.Embedded() {
					fresh[t] = append(fresh[t], f)
				}
			}
			gone := map[string][]string{}
			for f, t := range old {
				if !here[f] {
					gone[t] = append(gone[t], f)
				}
			}
			for t, l := range fresh {
				if len(l) == 1 && len(gone[t]) == 1 {
					fieldAlias[l[0]] = gone[t][0]
				} else if len(l) == len(gone[t]) {
					// several fields of a type: the one whose name contains the old one
					sort.Slice(gone[t], func(i, j int) bool { return len(gone[t][i]) < len(gone[t][j]) })
					for _, f := range l {
						for _, g := range gone[t] {
							if strings.Contains(strings.ToLower(f.Name()), strings.ToLower(g)) {
								fieldAlias[f] = g
							}
						}
					}
				}
			}
		}
	}
	if w := os.Getenv("WRITE_BASELINE"); w != "" {
		sort.Strings(out)
		os.WriteFile(strings.Replace(w, "baseline.txt", "baseline_fields.txt", 1), []byte(strings.Join(out, "\n")+"\n"), 0o644)
	}
}
