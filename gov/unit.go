package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// UnitResult is the outcome of verifying one function or lemma.
type UnitResult struct {
	Unit     string
	Tags     []string
	Obs      []*Obligation
	Paths    int
	Wall     float64
	Uses     []string
	Inlined  []string
	Trusted  string
	Vacuous  bool
	SolverMs map[string]int64
	Queries  int
}

var baseState *State

func newEx(c *Contract) *Ex {
	return &Ex{unit: c.fn, c: c, obs: map[string]*Obligation{}, calls: map[string]int{}, fnsIn: map[string]bool{}, maxP: 20000, start: time.Now()}
}

// initPackage runs the package initialiser symbolically to obtain the values
// of package variables.
func initPackage() error {
	st := newState()
	c := &Contract{fn: "init"}
	x := newEx(c)
	f := mlsPkg.Func("init")
	var res *State
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					err = fmt.Errorf("package initialiser: %s", u.msg)
					return
				}
				panic(r)
			}
		}()
		// the init guard is false on entry
		fr := &Frame{fn: f, regs: map[ssa.Value]Value{}, names: map[string]Value{}, addrs: map[string]Value{}}
		x.run(st, fr, f.Blocks[0], 0, func(s *State, _ []Value) { res = s })
	}()
	if err != nil {
		return err
	}
	for _, o := range x.obs {
		if o.Failed {
			return fmt.Errorf("package initialiser: %s: %s", o.Name, o.Reason)
		}
	}
	if res == nil {
		return fmt.Errorf("package initialiser does not return")
	}
	baseState = res
	// byte slices in package variables are never written
	for o, v := range baseState.heap {
		if b, ok := v.(VBytes); ok && b.obj != 0 {
			baseState.heap[o] = VBytes{nilf: b.nilf, s: baseState.bytes(b)}
		}
	}
	return nil
}

func exprRoot(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.StarExpr:
		return exprRoot(x.X)
	case *ast.ParenExpr:
		return exprRoot(x.X)
	case *ast.SelectorExpr:
		return exprRoot(x.X)
	}
	return ""
}

func isSelector(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		return true
	case *ast.StarExpr:
		return isSelector(x.X)
	case *ast.ParenExpr:
		return isSelector(x.X)
	}
	return false
}

// reach lists the heap objects reachable from a value.
func (st *State) reach(v Value, out map[int]bool) {
	switch v := v.(type) {
	case VPtr:
		if v.obj != 0 && !out[v.obj] {
			out[v.obj] = true
			st.reach(st.heap[v.obj], out)
		}
	case VArr:
		out[v.obj] = true
	case VMap:
		if v.obj != 0 {
			out[v.obj] = true
		}
	case VBytes:
		if v.obj != 0 {
			out[v.obj] = true
		}
	case VList:
		if v.obj != 0 {
			out[v.obj] = true
		}
	case VStruct:
		for _, f := range v.f {
			st.reach(f, out)
		}
	}
}

// verifyUnit checks a function against its contract.
func verifyUnit(c *Contract) *UnitResult {
	x := newEx(c)
	lim := c.limit
	if lim == 0 {
		lim = 240
	}
	x.limit = time.Duration(lim) * time.Second
	x.patience = 4000
	if c.patience > 0 {
		x.patience = 1000 * c.patience
	}
	x.start = time.Now()
	r := &UnitResult{Unit: c.fn, Tags: c.tags}
	solverBefore := solverMs()
	qb := solverQueries()
	func() {
		defer func() {
			if rec := recover(); rec != nil {
				x.silent = 0
				switch u := rec.(type) {
				case unsupported:
					o := x.oblig(x.unit+"/supported", "supported", "", u.msg, nil)
					o.Count++
					o.Failed = true
					o.Reason = u.msg
				case specError:
					o := x.oblig(x.unit+"/supported", "supported", "", u.msg, nil)
					o.Count++
					o.Failed = true
					o.Reason = "contract: " + u.msg
				default:
					panic(rec)
				}
				if os.Getenv("GOV_PANIC") != "" {
					panic(rec)
				}
			}
		}()
		hidden = map[string]bool{}
		for _, n := range c.hide {
			hidden[n] = true
		}
		switch {
		case c.isLemma:
			x.verifyLemma()
		default:
			f := funcs[c.target]
			if f == nil {
				o := x.oblig(x.unit+"/exists", "supported", "", "function not found", nil)
				o.Count++
				o.Failed = true
				o.Reason = "function " + c.fn + " does not exist"
				return
			}
			if c.kind != "" {
				x.verifyCodec(f)
			} else {
				x.verifyFunc(f)
			}
		}
	}()
	for _, n := range x.order {
		r.Obs = append(r.Obs, x.obs[n])
	}
	r.Paths = x.paths
	r.Wall = time.Since(x.start).Seconds()
	r.Uses = sortedKeys(x.calls)
	for n := range x.fnsIn {
		r.Inlined = append(r.Inlined, n)
	}
	sort.Strings(r.Inlined)
	r.SolverMs = map[string]int64{}
	for k, v := range solverMs() {
		r.SolverMs[k] = v - solverBefore[k]
	}
	r.Queries = solverQueries() - qb
	return r
}

func (x *Ex) paramValue(st *State, p *ssa.Parameter) Value {
	if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
		o := st.alloc(st.sym(pt.Elem(), p.Name()))
		return VPtr{obj: o}
	}
	return st.sym(p.Type(), p.Name())
}

func (x *Ex) verifyFunc(f *ssa.Function) {
	c := x.c
	st := baseState.clone()
	fr := &Frame{fn: f, regs: map[ssa.Value]Value{}, names: map[string]Value{}, addrs: map[string]Value{}}
	args := make([]Value, len(f.Params))
	for i, p := range f.Params {
		args[i] = x.paramValue(st, p)
	}
	x.withNil(st, f, 0, args, func(s *State, args []Value) {
		x.verifyFrom(s, fr.clone(), f, c, args)
	})
}

// withNil forks over nil values of nilable parameters.
func (x *Ex) withNil(st *State, f *ssa.Function, i int, args []Value, k func(*State, []Value)) {
	for i < len(f.Params) && !x.c.nilable[f.Params[i].Name()] {
		i++
	}
	if i == len(f.Params) {
		k(st, args)
		return
	}
	if _, ok := args[i].(VPtr); ok {
		na := append([]Value(nil), args...)
		na[i] = VPtr{}
		x.withNil(st.clone(), f, i+1, na, k)
	}
	x.withNil(st, f, i+1, args, k)
}

func (x *Ex) verifyFrom(st *State, fr *Frame, f *ssa.Function, c *Contract, args []Value) {
	for i, p := range f.Params {
		v := args[i]
		if c.owns[p.Name()] {
			if l, ok := v.(VList); ok {
				l.borrowed = false
				l.id = newID()
				v = l
				args[i] = v
			}
		}
		fr.regs[p] = v
		fr.names[p.Name()] = v
	}
	// owned fields
	for o := range c.owns {
		if strings.Contains(o, ".") {
			e, err := parseE(o, c.pos)
			if err != nil {
				panic(unsup("owns %s", o))
			}
			env := &Env{x: x, st: st, names: fr.names}
			p, _ := env.lval(e)
			if l, ok := st.loadPath(p.obj, p.path).(VList); ok {
				l.borrowed = false
				l.id = newID()
				st.storePath(p.obj, p.path, l)
			}
		}
	}
	for _, p := range c.params {
		fr.names[p.name] = VT{Fresh(p.name, p.sort)}
	}
	env := &Env{x: x, st: st, names: fr.names}
	env.addLets(c)
	for n, v := range env.names {
		fr.names[n] = v
	}
	for _, r := range c.requires {
		st.assume(x.evalClause(env, r))
	}
	if !st.feasible() {
		o := x.oblig(x.unit+"/vacuity", "vacuity", c.pos, "preconditions are satisfiable", nil)
		o.Count++
		o.Failed = true
		o.Reason = "preconditions contradict each other"
		return
	}
	// frame
	partial := map[int]bool{} // objects modified in some fields
	allowed := map[int]bool{}
	for _, m := range c.modifies {
		p, _ := env.lval(m)
		if p.obj == 0 {
			continue
		}
		if len(p.path) > 0 {
			partial[p.obj] = true
			v := st.loadPath(p.obj, p.path)
			rs := map[int]bool{}
			st.reach(v, rs)
			for o := range rs {
				allowed[o] = true
			}
		} else {
			allowed[p.obj] = true
			if v, ok := st.heap[p.obj].(VArr); ok {
				allowed[v.obj] = true
			}
		}
	}
	all := map[int]bool{}
	for _, a := range args {
		st.reach(a, all)
	}
	for o := range all {
		if !allowed[o] && !partial[o] {
			st.readonly[o] = true
		}
	}
	x.pre = st.clone()
	x.entry = fr.clone()
	returned := 0
	start := func(s *State) {
		x.run(s, fr.clone(), f.Blocks[0], 0, func(s *State, res []Value) {
			returned++
			x.checkReturn(s, f, c, args, res, partial, allowed)
		})
	}
	x.splitOn(st, env, c.split, start)
	if returned == 0 {
		o := x.oblig(x.unit+"/vacuity", "vacuity", c.pos, "some path returns", nil)
		o.Count++
		o.Failed = true
		o.Reason = "no execution path returns"
	} else {
		o := x.oblig(x.unit+"/vacuity", "vacuity", c.pos, "preconditions are satisfiable and some path returns", nil)
		o.Count++
		o.By["solver"]++
	}
}

func (x *Ex) splitOn(st *State, env *Env, cs []*Clause, k func(*State)) {
	if len(cs) == 0 {
		k(st)
		return
	}
	e2 := *env
	e2.st = st
	t := x.evalClause(&e2, cs[0])
	x.fork(st, t, "split "+cs[0].src, func(s *State) { x.splitOn(s, env, cs[1:], k) }, func(s *State) { x.splitOn(s, env, cs[1:], k) })
}

func (x *Ex) checkReturn(s *State, f *ssa.Function, c *Contract, args, res []Value, partial, allowed map[int]bool) {
	names := map[string]Value{}
	for n, v := range x.entry.names {
		names[n] = v
	}
	for n, v := range bindParams(f, args) {
		names[n] = v
	}
	e := &Env{x: x, st: s, old: x.pre, names: names, oldn: x.entry.names}
	bindResults(e.names, f, res)
	if c.fresh {
		for i, v := range res {
			switch r := v.(type) {
			case VList:
				if r.borrowed || r.id != 0 && s.used[r.id] {
					x.prove(s, Eq(Len(s.list(r)), BV64(0)), fmt.Sprintf("fresh#%d", i), "frame", "", "result is not shared", nil)
				}
			case VBytes:
				if r.obj == 0 && r.id == 0 || s.frozen[r.obj] {
					x.prove(s, Eq(Len(s.bytes(r)), BV64(0)), fmt.Sprintf("fresh#%d", i), "frame", "", "result is not shared", nil)
				}
			}
		}
	}
	for i, q := range c.ensures {
		t := x.evalClause(e, q)
		x.prove(s, t, fmt.Sprintf("ensures#%d", i+1), "ensures", q.pos, q.src, q)
	}
	for _, o := range sortedInts(partial) {
		x.diff(s, o, x.pre.heap[o], s.heap[o], nil, func(key leafKey, path []int, a, b Value) {
			for _, m := range c.modifies {
				p, _ := (&Env{x: x, st: x.pre, names: x.entry.names}).lval(m)
				if p.obj == o && (pathStr(p.path) == pathStr(path) || isPrefix(p.path, path)) {
					return
				}
			}
			eq := False
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(specError); ok {
							return
						}
						panic(r)
					}
				}()
				eq = e.equal((&Env{x: x, st: x.pre}).detach(a), b)
			}()
			x.prove(s, eq, fmt.Sprintf("frame/%s", fieldPath(f, c, o, x, path)), "frame", c.pos, "field is not modified", nil)
		})
	}
}

func fieldPath(f *ssa.Function, c *Contract, o int, x *Ex, path []int) string {
	for _, p := range f.Params {
		v, ok := x.entry.names[p.Name()].(VPtr)
		if !ok || v.obj != o {
			continue
		}
		n := p.Name()
		t := p.Type().Underlying().(*types.Pointer).Elem()
		for _, i := range path {
			u, ok := t.Underlying().(*types.Struct)
			if !ok {
				break
			}
			n += "." + u.Field(i).Name()
			t = u.Field(i).Type()
		}
		return n
	}
	return fmt.Sprint(o, path)
}

func sortedInts(m map[int]bool) []int {
	var l []int
	for k := range m {
		l = append(l, k)
	}
	sort.Ints(l)
	return l
}

// verifyLemma proves the ensures clauses of a lemma from its requires.
func (x *Ex) verifyLemma() {
	c := x.c
	st := baseState.clone()
	names := map[string]Value{}
	for _, p := range c.params {
		names[p.name] = VT{Fresh(p.name, p.sort)}
	}
	x.pre = st
	env := &Env{x: x, st: st, names: names}
	env.addLets(c)
	for _, r := range c.requires {
		st.assume(x.evalClause(env, r))
	}
	x.splitOn(st, env, c.split, func(s *State) {
		e2 := *env
		e2.st = s
		for i, q := range c.ensures {
			x.prove(s, x.evalClause(&e2, q), fmt.Sprintf("ensures#%d", i+1), "lemma", q.pos, q.src, q)
		}
	})
}
