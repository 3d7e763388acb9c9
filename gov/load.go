package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	prog    *ssa.Program
	mlsPkg  *ssa.Package
	fset    *token.FileSet
	funcs   = map[string]*ssa.Function{} // by short name
	repoDir = "/repo"
)

// loadRepo builds the SSA form of the package from the working tree.
func loadRepo() error {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Tests: false, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return err
	}
	if len(pkgs) != 1 || len(pkgs[0].Errors) > 0 {
		return fmt.Errorf("load: %v", pkgs[0].Errors)
	}
	fset = pkgs[0].Fset
	var ps []*ssa.Package
	prog, ps = ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	mlsPkg = ps[0]
	mlsPkg.Build()
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == mlsPkg && f.Synthetic == "" || f.Pkg == mlsPkg && f.Name() == "init" {
			funcs[fname(f)] = f
		}
	}
	return nil
}

// fname is the name of a function as used in contract files:
// "f", "T.m", "(*T).m", "f$1".
func fname(f *ssa.Function) string {
	if f.Parent() != nil {
		n := f.Name()
		if i := strings.Index(n, "$"); i >= 0 {
			return fname(f.Parent()) + n[i:]
		}
		return fname(f.Parent()) + "$" + n
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		return typeName(t) + "." + f.Name()
	}
	return f.Name()
}

// extName is the full name of a function outside the package.
func extName(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			star, t = "*", p.Elem()
		}
		return "(" + star + typeName(t) + ")." + f.Name()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path() + "." + f.Name()
	}
	return f.String()
}

func posOf(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := fset.Position(p)
	f := q.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ---- natural loops ----

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

// calls tells whether the loop calls one of the functions; "-" stands for no
// function of the package at all.
func (lp *loopInfo) calls(names []string) bool {
	seen := map[string]bool{}
	for b := range lp.body {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && inPackage(f) {
					seen[fname(f)] = true
				}
			}
		}
	}
	for _, n := range names {
		if seen[n] || n == "-" && len(seen) == 0 {
			return true
		}
	}
	return false
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}

func loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if l, ok := loopCache[f]; ok {
		return l
	}
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &loopInfo{s, map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	loopCache[f] = m
	return m
}

func sortedFuncNames() []string {
	var l []string
	for n := range funcs {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}
