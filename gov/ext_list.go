package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// listExternals prints the functions outside the package that are called.
func listExternals() {
	m := map[string]map[string]bool{}
	for n, f := range funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				k := ""
				if c.Call.IsInvoke() {
					k = "invoke " + typeName(c.Call.Value.Type()) + "." + c.Call.Method.Name()
				} else if g := c.Call.StaticCallee(); g != nil && !inPackage(g) {
					k = extName(g)
				}
				if k != "" {
					if m[k] == nil {
						m[k] = map[string]bool{}
					}
					m[k][n] = true
				}
			}
		}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Print(k, ":")
		i := 0
		for f := range m[k] {
			if i++; i > 3 {
				break
			}
			fmt.Print(" ", f)
		}
		fmt.Println()
	}
}
