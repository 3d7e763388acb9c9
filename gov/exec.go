package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Frame is an activation of a function on one path.
type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Value
	names  map[string]Value // source variables, by value
	addrs  map[string]Value // source variables living in memory
	loops  []*loopHandler
	counts []loopCount
	depth  int
	up     *Frame
	site   token.Pos
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = make(map[ssa.Value]Value, len(f.regs)+4)
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.names = make(map[string]Value, len(f.names))
	for k, v := range f.names {
		n.names[k] = v
	}
	n.addrs = make(map[string]Value, len(f.addrs))
	for k, v := range f.addrs {
		n.addrs[k] = v
	}
	n.loops = f.loops[:len(f.loops):len(f.loops)]
	return &n
}

type cont func(st *State, res []Value)

// Obligation is a proof obligation of a unit, merged over paths.
type Obligation struct {
	Name   string
	Kind   string
	Tags   []string
	Pos    string
	Msg    string
	Count  int
	Failed bool
	Reason string
	Goal   string
	Trail  []string
	Model  string
	Query  string
	By     map[string]int
}

// Ex executes one unit.
type Ex struct {
	unit     string
	c        *Contract
	obs      map[string]*Obligation
	order    []string
	silent   int
	paths    int
	maxP     int
	steps    int
	calls    map[string]int // contracts and models used
	fnsIn    map[string]bool
	start    time.Time
	limit    time.Duration
	patience int
	pre      *State // entry state
	entry    *Frame
	depthC   int
	input    *Term // what a decoder reads
	memo     *loopMemo
}

// loopMemo remembers the candidates dropped for the loops met in the rounds
// of an enclosing loop. A later round knows less, so they would be dropped
// again.
type loopMemo struct {
	dead map[string]bool
	sub  map[string]*loopMemo
}

func (m *loopMemo) at(key string) *loopMemo {
	if m == nil {
		return nil
	}
	if m.sub == nil {
		m.sub = map[string]*loopMemo{}
	}
	if m.sub[key] == nil {
		m.sub[key] = &loopMemo{dead: map[string]bool{}}
	}
	return m.sub[key]
}

func (x *Ex) tagsFor(kind string, c *Clause) []string {
	if c != nil && len(c.tags) > 0 {
		return c.tags
	}
	if x.c == nil {
		return nil
	}
	if kind == "safety" {
		var t []string
		for _, g := range x.c.tags {
			if g == "C03" || g == "C18" {
				t = append(t, g)
			}
		}
		if len(t) > 0 {
			return t
		}
	}
	return x.c.tags
}

func (x *Ex) oblig(name, kind, pos, msg string, c *Clause) *Obligation {
	key := name
	o := x.obs[key]
	if o == nil {
		o = &Obligation{Name: key, Kind: kind, Pos: pos, Msg: msg, By: map[string]int{}, Tags: x.tagsFor(kind, c)}
		x.obs[key] = o
		x.order = append(x.order, key)
	}
	return o
}

// prove discharges a goal on a path, then assumes it.
func (x *Ex) prove(st *State, goal *Term, name, kind, pos, msg string, c *Clause) bool {
	if st.dead {
		return true
	}
	if x.c != nil && x.c.partial && (kind == "pre" || kind == "termination" && !strings.HasPrefix(name, "unwinding")) {
		return true
	}
	if x.c != nil && x.c.partial && kind == "safety" {
		// what follows is about runs that get here
		st.assume(goal)
		return true
	}
	if x.silent > 0 || x.c != nil && x.c.part && kind != "ensures" && kind != "invariant" {
		// the rest is proved with the contract that this is a part of
		st.assume(goal)
		return true
	}
	o := x.oblig(x.unit+"/"+name, kind, pos, msg, c)
	o.Count++
	ok, by, res := x.valid(st, goal)
	if ok {
		o.By[by]++
	} else {
		if !o.Failed {
			o.Failed = true
			o.Reason = res
			o.Goal = st.norm(goal).String()
			o.Trail = append([]string(nil), st.trail...)
			o.Pos = pos
			facts := append(st.query(), Not(st.norm(goal)))
			if res == "sat" {
				o.Model = modelOf(facts)
			}
			o.Query = buildQuery(facts)
		}
	}
	st.assume(goal)
	return ok
}

// valid decides whether a goal follows on a path.
func (x *Ex) valid(st *State, goal *Term) (bool, string, string) {
	g := st.norm(goal)
	if g == True {
		return true, "simplifier", ""
	}
	if g.Op == "and" {
		by := "simplifier"
		for _, a := range g.Args {
			ok, b, r := x.valid(st, a)
			if !ok {
				return false, b, r
			}
			if b != "simplifier" {
				by = b
			}
		}
		return true, by, ""
	}
	if l := lastStep(st, g); l != nil {
		return x.valid(st, l)
	}
	if c := seqCase(g); c != nil {
		by := "simplifier"
		for _, c := range []*Term{c, Not(c)} {
			s := st.clone()
			s.assume(c)
			if s.dead {
				continue
			}
			ok, b, r := x.valid(s, g)
			if !ok {
				return false, b, r
			}
			if b != "simplifier" {
				by = b
			}
		}
		return true, by, ""
	}
	if e := st.norm(extensional(g)); e != g {
		// a sufficient condition
		if ok, by, _ := x.valid(st, e); ok {
			return true, by, ""
		}
	}
	res, by := satisfiable(append(st.query(), Not(g)), false)
	if res == "unsat" {
		return true, by, ""
	}
	return false, by, res
}

// extensional replaces equations of lists by equations of their elements.
func extensional(g *Term) *Term {
	switch g.Op {
	case "or", "and":
		var p []*Term
		for _, a := range g.Args {
			p = append(p, extensional(a))
		}
		if g.Op == "or" {
			return Or(p...)
		}
		return And(p...)
	case "=":
		a, b := g.Args[0], g.Args[1]
		if isApp(a, "encl") && isApp(b, "encl") && a.Args[0].Sort == b.Args[0].Sort {
			return extensional(Eq(a.Args[0], b.Args[0]))
		}
		if a.Op == "len" && b.Op == "len" && isSeq(a.Args[0].Sort) && a.Args[0].Sort == b.Args[0].Sort && (isApp(a.Args[0], "encl") && isApp(b.Args[0], "encl")) {
			return extensional(Eq(a.Args[0], b.Args[0]))
		}
		if isSeq(a.Sort) && (a.Op == "listof" || b.Op == "listof") {
			i := Bound("i", "BV64")
			return And(Eq(Len(a), Len(b)), Forall([]*Term{i}, Imp(Ult(i, Len(a)), Eq(Nth(a, i), Nth(b, i)))))
		}
	}
	return g
}

// patientValid is quickValid with a second, longer try when time ran out.
func (x *Ex) patientValid(st *State, goal *Term) bool {
	timedOut = false
	if x.quickValid(st.clone(), goal) {
		return true
	}
	if !timedOut {
		return false
	}
	defer func(ms int) { quickMs = ms }(quickMs)
	quickMs = x.patience
	return x.quickValid(st, goal)
}

// quickValid is valid with a small time limit.
func (x *Ex) quickValid(st *State, goal *Term) bool {
	g := st.norm(goal)
	if g == True {
		return true
	}
	if g == False {
		return !st.feasible()
	}
	if g.Op == "and" {
		for _, a := range g.Args {
			if !x.quickValid(st, a) {
				return false
			}
		}
		return true
	}
	if l := lastStep(st, g); l != nil {
		return x.quickValid(st, l)
	}
	if c := seqCase(g); c != nil {
		for _, c := range []*Term{c, Not(c)} {
			s := st.clone()
			s.assume(c)
			if !s.dead && !x.quickValid(s, g) {
				return false
			}
		}
		return true
	}
	res, _ := satisfiable(append(st.query(), Not(g)), true)
	return res == "unsat"
}

// lastStep reduces a statement about all i < h+1 to the one for h when the one
// about all i < h is known. Nil if it does not apply.
func lastStep(st *State, g *Term) *Term {
	v, lo, hi, rest := ranged(g)
	if v == nil {
		return nil
	}
	for _, f := range st.query() {
		v2, lo2, hi2, rest2 := ranged(f)
		if v2 != v || lo2 != lo || rest2 != rest {
			continue
		}
		if d := Sub(hi, hi2); d.Op == "bv" && d.Val == 1 {
			return Imp(Sle(lo, hi2), Replace(rest, map[*Term]*Term{v: hi2}))
		}
		if lo == BV64(0) && hi.Op == "zext" && hi2.Op == "zext" && hi.Args[0].Sort == hi2.Args[0].Sort {
			if d := Sub(hi.Args[0], hi2.Args[0]); d.Op == "bv" && d.Val == 1 {
				return Replace(rest, map[*Term]*Term{v: hi2})
			}
		}
	}
	return nil
}

// ranged takes apart forall(v, lo <= v < hi, rest).
func ranged(g *Term) (v, lo, hi, rest *Term) {
	if g.Op != "forall" || len(g.Args) != 2 || g.Args[0].Sort != "BV64" || g.Args[1].Op != "or" {
		return nil, nil, nil, nil
	}
	v = g.Args[0]
	var other []*Term
	for _, a := range g.Args[1].Args {
		if hi == nil && a.Op == "not" && a.Args[0].Op == "and" && len(a.Args[0].Args) == 2 {
			l, h := a.Args[0].Args[0], a.Args[0].Args[1]
			if l.Op == "bvsle" && l.Args[1] == v && !l.Args[0].free && h.Op == "bvslt" && h.Args[0] == v && !h.Args[1].free {
				lo, hi = l.Args[0], h.Args[1]
				continue
			}
		}
		other = append(other, a)
	}
	if hi == nil {
		return nil, nil, nil, nil
	}
	return v, lo, hi, Or(other...)
}

// seqCase finds a condition inside an equation of sequences on which to
// split.
func seqCase(g *Term) *Term {
	switch g.Op {
	case "or", "and", "not":
		for _, a := range g.Args {
			if c := seqCase(a); c != nil {
				return c
			}
		}
	case "=":
		if isSeq(g.Args[0].Sort) {
			for _, s := range g.Args {
				for _, a := range atoms(s) {
					if a.Op == "ite" {
						return a.Args[0]
					}
				}
			}
		}
	}
	return nil
}

func (x *Ex) safety(st *State, fr *Frame, goal *Term, what string, pos token.Pos) {
	p := posOf(pos)
	x.prove(st, goal, fmt.Sprintf("safety/%s@%s:%s", what, fname(fr.fn), p), "safety", p, what, nil)
}

func (x *Ex) fail(st *State, fr *Frame, what, why string, pos token.Pos) {
	if st.dead || x.silent > 0 && !st.feasible() {
		return
	}
	if x.silent > 0 {
		return
	}
	if !st.feasible() {
		return
	}
	p := posOf(pos)
	o := x.oblig(fmt.Sprintf("%s/%s@%s:%s", x.unit, what, fname(fr.fn), p), what, p, why, nil)
	o.Count++
	if !o.Failed {
		o.Failed = true
		o.Reason = why
		o.Trail = append([]string(nil), st.trail...)
	}
}

type stopPath struct{}

// try runs one instruction; it returns false if the path ends there.
func (x *Ex) try(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, s := r.(stopPath); s {
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

// guard runs f, turning unsupported constructs into failed obligations.
func (x *Ex) guard(st *State, fr *Frame, pos token.Pos, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopPath); ok {
				return
			}
			u, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			if os.Getenv("GOV_PANIC") != "" {
				panic(r)
			}
			if x.silent > 0 {
				panic(r)
			}
			x.fail(st, fr, "supported", u.msg, pos)
		}
	}()
	f()
}

// ---- values of operands ----

var globalObj = map[*ssa.Global]int{}

func (x *Ex) val(st *State, fr *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(st, v)
	case *ssa.Function:
		return VFunc{fn: v, nilf: False}
	case *ssa.Global:
		return x.global(st, v)
	}
	r, ok := fr.regs[v]
	if !ok {
		panic(unsup("register %s undefined", v.Name()))
	}
	return st.normV(r)
}

func (x *Ex) global(st *State, g *ssa.Global) Value {
	o, ok := globalObj[g]
	if !ok {
		nextObj++
		o = nextObj
		globalObj[g] = o
	}
	if _, ok := st.heap[o]; !ok {
		t := g.Type().(*types.Pointer).Elem()
		if isErrorType(t) {
			st.heap[o] = VErr{False} // package-level error values are never nil
		} else if g.Pkg == mlsPkg {
			st.heap[o] = st.zero(t)
		} else {
			st.heap[o] = VT{App("global:"+g.String(), "U."+typeName(t))}
		}
	}
	return VPtr{obj: o}
}

func constVal(st *State, c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		if types.Identical(t, types.Typ[types.UntypedNil]) {
			return VPtr{}
		}
		return st.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return VT{Bool(constant.BoolVal(c.Value))}
	case constant.String:
		return VBytes{nilf: False, s: BytesConst(constant.StringVal(c.Value))}
	case constant.Int:
		s := sortOf(t)
		if u, ok := constant.Uint64Val(c.Value); ok {
			return VT{BV(u, s)}
		}
		i, _ := constant.Int64Val(c.Value)
		return VT{BV(uint64(i), s)}
	}
	panic(unsup("constant %s", c))
}

func (x *Ex) term(st *State, fr *Frame, v ssa.Value) *Term {
	switch r := x.val(st, fr, v).(type) {
	case VT:
		return r.t
	case VBytes:
		return st.bytes(r)
	case VOpt:
		return r.t
	default:
		panic(unsup("term of %T (%s)", r, v.Name()))
	}
}

// fork runs f with the condition assumed and g with its negation.
func (x *Ex) fork(st *State, c *Term, note string, f, g func(*State)) {
	c = st.norm(c)
	if c == True {
		f(st)
		return
	}
	if c == False {
		g(st)
		return
	}
	a, b := st.clone(), st
	a.assume(c)
	b.assume(Not(c))
	fa, fb := a.feasible(), false
	if !fa {
		fb = !b.dead
	} else {
		fb = b.feasible()
	}
	if fa {
		if note != "" {
			a.trail = append(a.trail, note+": yes")
		}
		f(a)
	}
	if fb {
		if note != "" {
			b.trail = append(b.trail, note+": no")
		}
		g(b)
	}
}

// ---- control ----

const maxSteps = 4000000

func (x *Ex) run(st *State, fr *Frame, b *ssa.BasicBlock, i int, k cont) {
	for {
		if st.dead {
			return
		}
		if i >= len(b.Instrs) {
			panic("fell off block")
		}
		x.steps++
		if x.steps&63 == 0 && x.limit > 0 && time.Since(x.start) > x.limit {
			panic(unsup("time limit of unit exceeded"))
		}
		ins := b.Instrs[i]
		switch ins := ins.(type) {
		case *ssa.If:
			c := x.term(st, fr, ins.Cond)
			line := posOf(condPos(ins))
			x.fork(st, c, fmt.Sprintf("%s %s", line, ins.Cond), func(s *State) {
				x.jump(s, fr.clone(), b, b.Succs[0], k)
			}, func(s *State) {
				x.jump(s, fr.clone(), b, b.Succs[1], k)
			})
			return
		case *ssa.Jump:
			x.jump(st, fr, b, b.Succs[0], k)
			return
		case *ssa.Return:
			for _, h := range fr.loops {
				if h.explore {
					return
				}
			}
			res := make([]Value, len(ins.Results))
			for j, r := range ins.Results {
				res[j] = x.val(st, fr, r)
			}
			x.paths++
			if x.paths > x.maxP {
				panic(unsup("more than %d paths", x.maxP))
			}
			k(st, res)
			return
		case *ssa.Panic:
			x.safety(st, fr, False, "panic", ins.Pos())
			return
		case *ssa.Call:
			x.try(func() {
				x.call(st, fr, ins, func(s *State, res []Value) {
					if s.dead {
						return
					}
					f2 := fr.clone()
					switch len(res) {
					case 0:
					case 1:
						f2.regs[ins] = res[0]
					default:
						f2.regs[ins] = VTuple(res)
					}
					x.run(s, f2, b, i+1, k)
				})
			})
			return
		case *ssa.Lookup:
			x.lookup(st, fr, ins, func(s *State, v Value) {
				f2 := fr.clone()
				f2.regs[ins] = v
				x.run(s, f2, b, i+1, k)
			})
			return
		case *ssa.Next:
			x.next(st, fr, ins, func(s *State, f2 *Frame, v Value) {
				f2.regs[ins] = v
				x.run(s, f2, b, i+1, k)
			})
			return
		default:
			if !x.try(func() { x.simple(st, fr, ins) }) {
				return
			}
		}
		i++
	}
}

func condPos(i *ssa.If) token.Pos {
	if v, ok := i.Cond.(ssa.Instruction); ok && v.Pos().IsValid() {
		return v.Pos()
	}
	for _, in := range i.Block().Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return token.NoPos
}

// phis evaluates the phi nodes of a block for an incoming edge.
func (x *Ex) phis(st *State, fr *Frame, from, to *ssa.BasicBlock) int {
	pi := -1
	for j, p := range to.Preds {
		if p == from {
			pi = j
		}
	}
	var vs []Value
	n := 0
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, x.val(st, fr, p.Edges[pi]))
		n++
	}
	for j := 0; j < n; j++ {
		p := to.Instrs[j].(*ssa.Phi)
		fr.regs[p] = vs[j]
		if p.Comment != "" {
			fr.names[p.Comment] = vs[j]
		}
	}
	return n
}

func (x *Ex) jump(st *State, fr *Frame, from, to *ssa.BasicBlock, k cont) {
	// leave loops
	if len(fr.loops) > 0 {
		var keep []*loopHandler
		for _, h := range fr.loops {
			if h.info.body[to] {
				keep = append(keep, h)
			} else if h.explore {
				return
			}
		}
		fr.loops = keep
	}
	lp := loopsOf(fr.fn)[to]
	n := x.phis(st, fr, from, to)
	if lp == nil {
		x.run(st, fr, to, n, k)
		return
	}
	back := lp.body[from]
	var h *loopHandler
	for _, a := range fr.loops {
		if a.info == lp {
			h = a
		}
	}
	if back && h != nil {
		h.onBack(st, fr)
		return
	}
	x.enterLoop(st, fr, lp, n, back, k)
}

// ---- simple instructions ----

// inMemory returns the cell of a local variable that was not lifted to a value.
func inMemory(fr *Frame, o types.Object) Value {
	for _, a := range fr.fn.Locals {
		if a.Comment == o.Name() && a.Pos() == o.Pos() {
			return fr.regs[a]
		}
	}
	return nil
}

func (x *Ex) simple(st *State, fr *Frame, ins ssa.Instruction) {
	switch ins := ins.(type) {
	case *ssa.DebugRef:
		if o := ins.Object(); o != nil {
			if _, ok := o.(*types.Var); ok {
				if v, ok := fr.regs[ins.X]; ok {
					if ins.IsAddr {
						fr.addrs[o.Name()] = v
						delete(fr.names, o.Name())
					} else if a := inMemory(fr, o); a != nil {
						fr.addrs[o.Name()] = a
						delete(fr.names, o.Name())
					} else {
						fr.names[o.Name()] = v
						delete(fr.addrs, o.Name())
					}
				} else if c, ok := ins.X.(*ssa.Const); ok && !ins.IsAddr {
					fr.names[o.Name()] = constVal(st, c)
				}
			}
		}
	case *ssa.Alloc:
		t := ins.Type().(*types.Pointer).Elem()
		o := st.alloc(st.zero(t))
		fr.regs[ins] = VPtr{obj: o}
		if ins.Comment != "" && token.IsIdentifier(ins.Comment) {
			fr.addrs[ins.Comment] = VPtr{obj: o}
		}
	case *ssa.BinOp:
		fr.regs[ins] = x.binop(st, fr, ins)
	case *ssa.UnOp:
		fr.regs[ins] = x.unop(st, fr, ins)
	case *ssa.Phi:
		panic("phi in body")
	case *ssa.ChangeType:
		v := x.val(st, fr, ins.X)
		fr.regs[ins] = retype(v, ins.Type())
	case *ssa.ChangeInterface:
		fr.regs[ins] = x.val(st, fr, ins.X)
	case *ssa.Convert:
		fr.regs[ins] = x.convert(st, fr, ins)
	case *ssa.MakeInterface:
		fr.regs[ins] = x.makeIface(st, fr, ins)
	case *ssa.MakeClosure:
		var bind []Value
		for _, b := range ins.Bindings {
			bind = append(bind, x.val(st, fr, b))
		}
		fr.regs[ins] = VFunc{fn: ins.Fn.(*ssa.Function), bind: bind, nilf: False}
	case *ssa.Extract:
		t := x.val(st, fr, ins.Tuple)
		tu, ok := t.(VTuple)
		if !ok {
			panic(unsup("extract from %T", t))
		}
		fr.regs[ins] = tu[ins.Index]
	case *ssa.Field:
		fr.regs[ins] = st.normV(st.field(x.val(st, fr, ins.X), ins.Field))
	case *ssa.FieldAddr:
		fr.regs[ins] = x.fieldAddr(st, fr, x.val(st, fr, ins.X), ins.Field, ins.Pos())
	case *ssa.Index:
		b := x.val(st, fr, ins.X)
		i := x.index(st, fr, ins.Index)
		n := x.lenOf(st, b)
		x.safety(st, fr, Ult(i, n), "index out of range", ins.Pos())
		if vs, ok := b.(VStruct); ok {
			fr.regs[ins] = pickField(vs, i)
			return
		}
		fr.regs[ins] = st.loadElem(VElem{b, st.norm(i), ins.Type()})
	case *ssa.IndexAddr:
		b := x.val(st, fr, ins.X)
		i := x.index(st, fr, ins.Index)
		if p, ok := b.(VPtr); ok { // pointer to array
			x.nilCheck(st, fr, b, ins.Pos())
			arr := st.loadPath(p.obj, p.path)
			n := x.lenOf(st, arr)
			x.safety(st, fr, Ult(i, n), "index out of range", ins.Pos())
			if vs, ok := arr.(VStruct); ok {
				i = st.norm(i)
				if i.Op != "bv" || int(i.Val) >= len(vs.f) {
					panic(unsup("symbolic index into array"))
				}
				fr.regs[ins] = VPtr{p.obj, append(append([]int(nil), p.path...), int(i.Val))}
				return
			}
			fr.regs[ins] = VElem{VBytes{obj: p.obj, path: p.path, nilf: False}, st.norm(i), elemOf(ins.Type())}
			return
		}
		n := x.lenOf(st, b)
		x.safety(st, fr, Ult(i, n), "index out of range", ins.Pos())
		fr.regs[ins] = VElem{b, st.norm(i), elemOf(ins.Type())}
	case *ssa.Slice:
		fr.regs[ins] = x.slice(st, fr, ins)
	case *ssa.Store:
		x.store(st, fr, x.val(st, fr, ins.Addr), x.val(st, fr, ins.Val), ins.Pos())
	case *ssa.MakeSlice:
		fr.regs[ins] = x.makeSlice(st, fr, ins)
	case *ssa.MakeMap:
		t := ins.Type().Underlying().(*types.Map)
		k := sortOf(t.Key())
		v := sortOf(t.Elem())
		if v == "R.empty" {
			v = ""
		} else if v == "" {
			fr.regs[ins] = VMap{nilf: False, obj: st.alloc(VConstMap{vt: t.Elem()})}
			return
		}
		if k == "" {
			panic(unsup("map key %s", t.Key()))
		}
		c := VMapC{key: k, val: v, dom: ConstArr(ArrSort(k, "Bool"), False)}
		if v != "" {
			z := st.toTerm(st.zero(t.Elem()), v)
			c.m = ConstArr(ArrSort(k, v), z)
		}
		fr.regs[ins] = VMap{nilf: False, obj: st.alloc(c)}
	case *ssa.MapUpdate:
		m := x.val(st, fr, ins.Map).(VMap)
		x.safety(st, fr, Not(st.norm(orFalse(m.nilf))), "assignment to nil map", ins.Pos())
		switch c := st.heap[m.obj].(type) {
		case VConstMap:
			k := x.term(st, fr, ins.Key)
			if !k.isConst() {
				panic(unsup("symbolic key in table"))
			}
			c.keys = append(append([]*Term(nil), c.keys...), k)
			c.vals = append(append([]Value(nil), c.vals...), x.val(st, fr, ins.Value))
			st.heap[m.obj] = c
		case VMapC:
			if st.frozen[m.obj] {
				x.fail(st, fr, "frame", "write to a shared map", ins.Pos())
			}
			k := st.toTerm(x.val(st, fr, ins.Key), c.key)
			c.dom = st.norm(Store(c.dom, k, True))
			if c.val != "" {
				c.m = st.norm(Store(c.m, k, st.toTerm(x.val(st, fr, ins.Value), c.val)))
			}
			st.heap[m.obj] = c
		default:
			panic(unsup("map update"))
		}
	case *ssa.Range:
		v := x.val(st, fr, ins.X)
		m, ok := v.(VMap)
		if !ok {
			panic(unsup("range over %T", v))
		}
		c := st.heap[m.obj].(VMapC)
		fr.regs[ins] = VPtr{obj: st.alloc(VIter{m: m, visited: ConstArr(ArrSort(c.key, "Bool"), False)})}
	case *ssa.TypeAssert:
		fr.regs[ins] = x.typeAssert(st, fr, ins)
	case *ssa.RunDefers:
	default:
		panic(unsup("instruction %T", ins))
	}
}

func orFalse(t *Term) *Term {
	if t == nil {
		return False
	}
	return t
}

func pickField(v VStruct, i *Term) Value {
	if i.Op != "bv" || int(i.Val) >= len(v.f) {
		panic(unsup("symbolic index into array"))
	}
	return v.f[i.Val]
}

// index reads an index operand as a 64-bit number; negative and huge
// values fail the unsigned bound check alike.
func (x *Ex) index(st *State, fr *Frame, v ssa.Value) *Term {
	t := x.term(st, fr, v)
	return st.norm(Resize(t, "BV64", isSigned(v.Type())))
}

func (x *Ex) lenOf(st *State, v Value) *Term {
	switch v := v.(type) {
	case VBytes:
		return st.norm(Len(st.bytes(v)))
	case VList:
		return st.norm(Len(st.list(v)))
	case VArr:
		return st.norm(v.len)
	case VStruct:
		return BV64(uint64(len(v.f)))
	case VMap:
		return st.norm(mapLen(st, v))
	}
	panic(unsup("len of %T", v))
}

func mapLen(st *State, m VMap) *Term {
	c, ok := st.heap[m.obj].(VMapC)
	if !ok {
		panic(unsup("len of map"))
	}
	return App("card", "BV64", c.dom)
}

func retype(v Value, t types.Type) Value {
	if s, ok := v.(VStruct); ok {
		return VStruct{t, s.f}
	}
	return v
}

func (x *Ex) fieldAddr(st *State, fr *Frame, p Value, f int, pos token.Pos) Value {
	p = x.nilCheck(st, fr, p, pos)
	switch p := p.(type) {
	case VPtr:
		return VPtr{p.obj, append(append([]int(nil), p.path...), f)}
	case VView:
		return VFieldOf{p, []int{f}}
	case VFieldOf:
		return VFieldOf{p.base, append(append([]int(nil), p.path...), f)}
	case VElem:
		return VFieldOf{p, []int{f}}
	}
	panic(unsup("field address of %T", p))
}

// VFieldOf is the address of a field below a view or an element.
type VFieldOf struct {
	base Value // VView or VElem
	path []int
}

// nilCheck makes sure a pointer is not nil.
func (x *Ex) nilCheck(st *State, fr *Frame, p Value, pos token.Pos) Value {
	switch v := p.(type) {
	case VPtr:
		if v.obj == 0 {
			x.safety(st, fr, False, "nil pointer dereference", pos)
			panic(stopPath{})
		}
		return v
	case VOpt:
		x.safety(st, fr, Not(IsNone(v.t)), "nil pointer dereference", pos)
		if st.dead {
			panic(stopPath{})
		}
		return VView{st.norm(Unsome(st.norm(v.t))), v.prov.ext(-1)}
	case VView, VElem, VFieldOf:
		return v
	}
	panic(unsup("dereference of %T", p))
}

func (x *Ex) load(st *State, fr *Frame, p Value, t types.Type, pos token.Pos) Value {
	p = x.nilCheck(st, fr, p, pos)
	switch p := p.(type) {
	case VPtr:
		v := st.loadPath(p.obj, p.path)
		if b, ok := v.(VBytes); ok {
			if _, isArr := t.Underlying().(*types.Array); isArr && b.obj == 0 {
				return VBytes{nilf: False, s: st.norm(b.s)}
			}
		}
		return v
	case VView:
		x.stale(st, p.prov)
		return VT{p.t}
	case VElem:
		return st.loadElem(p)
	case VFieldOf:
		switch b := p.base.(type) {
		case VView:
			x.stale(st, b.prov)
			v := Value(VT{b.t})
			pr := b.prov
			for _, i := range p.path {
				v = st.field(v, i)
				pr = pr.ext(i)
			}
			if o, ok := v.(VOpt); ok {
				o.prov = pr
				v = o
			}
			return st.normV(v)
		case VElem:
			v := st.loadElem(b)
			for _, i := range p.path {
				v = st.field(v, i)
			}
			return st.normV(v)
		}
	}
	panic(unsup("load through %T", p))
}

func (x *Ex) stale(st *State, p *prov) {
	if p != nil && st.viewW[p.arr] != p.ver {
		panic(unsup("stale pointer into a tree"))
	}
}

func (x *Ex) store(st *State, fr *Frame, addr, v Value, pos token.Pos) {
	addr = x.nilCheck(st, fr, addr, pos)
	// a pointer stored in memory may be used later through another path
	switch pv := v.(type) {
	case VOpt:
		if pv.prov != nil {
			st.unshare(pv.prov)
			v = VOpt{pv.t, nil}
		}
	case VView:
		if pv.prov != nil {
			st.unshare(pv.prov)
			v = VView{pv.t, nil}
		}
	}
	switch a := addr.(type) {
	case VPtr:
		if g := globalOf(a.obj); g != nil && fr.fn.Name() != "init" {
			x.fail(st, fr, "frame", "write to package variable "+g.Name(), pos)
		}
		if st.frozen[a.obj] {
			x.fail(st, fr, "frame", "write to shared memory", pos)
		}
		if st.readonly[a.obj] {
			x.fail(st, fr, "frame", "write to memory the contract does not allow to modify", pos)
		}
		st.storePath(a.obj, a.path, v)
	case VElem:
		x.storeElem(st, fr, a, v, pos)
	case VFieldOf:
		switch b := a.base.(type) {
		case VElem:
			old := st.loadElem(b)
			x.storeElem(st, fr, b, st.setPath(old, a.path, v), pos)
		case VView:
			x.storeView(st, fr, b, a.path, v, pos)
		}
	default:
		panic(unsup("store through %T", addr))
	}
}

func globalOf(o int) *ssa.Global {
	for g, i := range globalObj {
		if i == o {
			return g
		}
	}
	return nil
}

func (x *Ex) storeElem(st *State, fr *Frame, a VElem, v Value, pos token.Pos) {
	switch b := a.base.(type) {
	case VBytes:
		if b.obj == 0 || st.frozen[b.obj] {
			x.fail(st, fr, "frame", "write to a shared byte slice", pos)
			return
		}
		if st.readonly[b.obj] {
			x.fail(st, fr, "frame", "write to memory the contract does not allow to modify", pos)
		}
		t := st.toTerm(v, "BV8")
		n := st.norm(Upd(st.bytes(b), a.idx, t))
		old := st.loadPath(b.obj, b.path)
		if ob, ok := old.(VBytes); ok {
			ob.s = n
			st.storePath(b.obj, b.path, ob)
		} else {
			st.storePath(b.obj, b.path, VBytes{nilf: False, s: n})
		}
	case VList:
		if b.obj == 0 || st.frozen[b.obj] {
			x.fail(st, fr, "frame", "write to a shared slice", pos)
			return
		}
		c := st.heap[b.obj].(VList)
		if st.readonly[b.obj] {
			x.fail(st, fr, "frame", "write to memory the contract does not allow to modify", pos)
		}
		if c.hi != nil {
			x.prove(st, Sle(c.hi, a.idx), fmt.Sprintf("frame/shared element@%s:%s", fname(fr.fn), posOf(pos)), "frame", posOf(pos), "element already shared", nil)
		}
		c.s = st.norm(Upd(c.s, a.idx, st.toTerm(v, elemSort(c.s.Sort))))
		st.heap[b.obj] = c
	case VArr:
		c := st.heap[b.obj].(VArrC)
		if st.frozen[b.obj] || st.readonly[b.obj] {
			x.fail(st, fr, "frame", "write to a shared slice", pos)
		}
		_, es := arrSorts(c.arr.Sort)
		fresh := False
		if p, ok := v.(VPtr); ok && !st.frozen[p.obj] {
			fresh = True
		}
		if p, ok := v.(VBytes); ok && p.nilf != nil && st.norm(p.nilf) == True {
			fresh = True
		}
		t := st.toTerm(v, es)
		c = st.heap[b.obj].(VArrC)
		c.arr = st.norm(Store(c.arr, a.idx, t))
		if c.fresh != nil {
			c.fresh = st.norm(Store(c.fresh, a.idx, fresh))
		}
		st.heap[b.obj] = c
	default:
		panic(unsup("store to element of %T", a.base))
	}
}

// storeView writes through a pointer loaded from a tree. The node must not be
// shared with another tree.
func (x *Ex) storeView(st *State, fr *Frame, v VView, path []int, nv Value, pos token.Pos) {
	p := v.prov
	if p == nil {
		x.fail(st, fr, "frame", "write to a shared value", pos)
		return
	}
	x.stale(st, p)
	c, ok := st.heap[p.arr].(VArrC)
	if !ok || c.fresh == nil {
		x.fail(st, fr, "frame", "write to a shared value", pos)
		return
	}
	name := fmt.Sprintf("frame/shared node@%s:%s", fname(fr.fn), posOf(pos))
	x.prove(st, And(Select(c.fresh, p.idx), Eq(Unsomes(Select(c.arr, p.idx), p.path), v.t)), name, "frame", posOf(pos), "node is shared", nil)
	full := append(append([]int(nil), p.path...), path...)
	c.arr = st.norm(Store(c.arr, p.idx, st.updTerm(Select(c.arr, p.idx), full, nv)))
	st.heap[p.arr] = c
	st.viewW[p.arr]++
	ver := st.viewW[p.arr]
	// pointers to this node in the frame follow
	for r, rv := range fr.regs {
		switch o := rv.(type) {
		case VOpt:
			if o.prov != nil && o.prov.arr == p.arr && o.prov.idx == p.idx {
				fr.regs[r] = VOpt{st.norm(Unsomes(Select(c.arr, p.idx), o.prov.path)), &prov{p.arr, p.idx, o.prov.path, ver}}
			}
		case VView:
			if o.prov != nil && o.prov.arr == p.arr && o.prov.idx == p.idx {
				fr.regs[r] = VView{st.norm(Unsomes(Select(c.arr, p.idx), o.prov.path)), &prov{p.arr, p.idx, o.prov.path, ver}}
			}
		case VFieldOf:
			if w, ok := o.base.(VView); ok && w.prov != nil && w.prov.arr == p.arr && w.prov.idx == p.idx {
				fr.regs[r] = VFieldOf{VView{st.norm(Unsomes(Select(c.arr, p.idx), w.prov.path)), &prov{p.arr, p.idx, w.prov.path, ver}}, o.path}
			}
		}
	}
}

// Unsomes follows a selector path.
func Unsomes(t *Term, path []int) *Term {
	for _, i := range path {
		if i < 0 {
			t = Unsome(t)
		} else {
			t = Sel(t, i)
		}
	}
	return t
}

func (st *State) updTerm(t *Term, path []int, v Value) *Term {
	if len(path) == 0 {
		return st.toTerm(v, t.Sort)
	}
	if path[0] < 0 {
		return Some(st.updTerm(Unsome(t), path[1:], v))
	}
	fs := recTab[t.Sort]
	args := make([]*Term, len(fs))
	for i := range fs {
		args[i] = Sel(t, i)
	}
	args[path[0]] = st.updTerm(args[path[0]], path[1:], v)
	return Rec(t.Sort, args...)
}

// ---- operators ----

func (x *Ex) binop(st *State, fr *Frame, in *ssa.BinOp) Value {
	a, b := x.val(st, fr, in.X), x.val(st, fr, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		t := x.equal(st, fr, a, b)
		if in.Op == token.NEQ {
			t = Not(t)
		}
		return VT{st.norm(t)}
	}
	if s, ok := a.(VBytes); ok { // strings
		switch in.Op {
		case token.ADD:
			return VBytes{nilf: False, s: st.norm(Cat(st.bytes(s), st.bytes(b.(VBytes))))}
		}
		panic(unsup("string operator %s", in.Op))
	}
	ta, ok1 := a.(VT)
	tb, ok2 := b.(VT)
	if !ok1 || !ok2 {
		panic(unsup("operator %s on %T", in.Op, a))
	}
	p, q := ta.t, tb.t
	signed := isSigned(in.X.Type())
	op := func(s, u string) string {
		if signed {
			return s
		}
		return u
	}
	var r *Term
	switch in.Op {
	case token.ADD:
		r = Add(p, q)
	case token.SUB:
		r = Sub(p, q)
	case token.MUL:
		r = BVOp("bvmul", p, q)
	case token.QUO:
		x.safety(st, fr, Not(Eq(q, BV(0, q.Sort))), "division by zero", in.Pos())
		r = BVOp(op("bvsdiv", "bvudiv"), p, q)
	case token.REM:
		x.safety(st, fr, Not(Eq(q, BV(0, q.Sort))), "division by zero", in.Pos())
		r = BVOp(op("bvsrem", "bvurem"), p, q)
	case token.AND:
		r = BVOp("bvand", p, q)
	case token.OR:
		r = BVOp("bvor", p, q)
	case token.XOR:
		r = BVOp("bvxor", p, q)
	case token.AND_NOT:
		r = BVOp("bvand", p, BVOp("bvxor", q, BV(^uint64(0), q.Sort)))
	case token.SHL, token.SHR:
		r = x.shift(st, fr, in, p, q)
	case token.LSS:
		r = Cmp(op("bvslt", "bvult"), p, q)
	case token.LEQ:
		r = Cmp(op("bvsle", "bvule"), p, q)
	case token.GTR:
		r = Cmp(op("bvslt", "bvult"), q, p)
	case token.GEQ:
		r = Cmp(op("bvsle", "bvule"), q, p)
	default:
		panic(unsup("operator %s", in.Op))
	}
	return VT{st.norm(r)}
}

func goShift(op string, p, q *Term) *Term {
	// count at least the width gives zero (or the sign)
	w := bvw(p.Sort)
	qw := bvw(q.Sort)
	var cnt, big *Term
	if qw > w {
		big = Not(Ult(q, BV(uint64(w), q.Sort)))
		cnt = Resize(q, p.Sort, false)
	} else {
		cnt = Resize(q, p.Sort, false)
		if w <= 64 && uint64(w) > mask(qw) {
			big = False
		} else {
			big = Not(Ult(cnt, BV(uint64(w), p.Sort)))
		}
	}
	if op == "bvashr" {
		return Ite(big, BVOp("bvashr", p, BV(uint64(w-1), p.Sort)), BVOp(op, p, cnt))
	}
	return Ite(big, BV(0, p.Sort), BVOp(op, p, cnt))
}

func (x *Ex) shift(st *State, fr *Frame, in *ssa.BinOp, p, q *Term) *Term {
	if isSigned(in.Y.Type()) {
		x.safety(st, fr, Sle(BV(0, q.Sort), q), "negative shift amount", in.Pos())
	}
	op := "bvshl"
	if in.Op == token.SHR {
		op = "bvlshr"
		if isSigned(in.X.Type()) {
			op = "bvashr"
		}
	}
	return goShift(op, p, q)
}

// isNil returns the condition that a value is nil.
func (x *Ex) isNil(st *State, v Value) *Term {
	switch v := v.(type) {
	case VPtr:
		return Bool(v.obj == 0)
	case VOpt:
		return IsNone(v.t)
	case VView, VElem, VFieldOf, VHash:
		return False
	case VErr:
		return v.nilf
	case VBytes:
		return st.bytesNil(v)
	case VList:
		return st.listNil(v)
	case VArr:
		if v.nilf == nil {
			return False
		}
		return v.nilf
	case VMap:
		return orFalse(v.nilf)
	case VFunc:
		return orFalse(v.nilf)
	case VIface:
		return Bool(v.typ == nil)
	case VT:
		if strings.HasPrefix(v.t.Sort, "U.") {
			return App("isnil:"+v.t.Sort, "Bool", v.t)
		}
	}
	panic(unsup("nil comparison of %T", v))
}

func isNilConst(v Value) bool {
	switch v := v.(type) {
	case VPtr:
		return v.obj == 0
	case VIface:
		return v.typ == nil
	case VErr:
		return v.nilf == True
	case VBytes:
		return v.nilf == True && v.obj == 0
	case VList:
		return v.nilf == True && v.obj == 0
	case VMap:
		return v.nilf == True && v.obj == 0
	case VFunc:
		return v.nilf == True && v.fn == nil && v.ext == ""
	case VArr:
		return v.nilf == True
	}
	return false
}

func (x *Ex) equal(st *State, fr *Frame, a, b Value) *Term {
	if isNilConst(b) {
		if _, ok := a.(VBytes); !ok || b.(VBytes).nilf == True {
			return x.isNil(st, a)
		}
	}
	if isNilConst(a) {
		return x.isNil(st, b)
	}
	switch p := a.(type) {
	case VT:
		if q, ok := b.(VT); ok {
			return Eq(p.t, q.t)
		}
		if q, ok := b.(VStruct); ok {
			return Eq(p.t, st.peekTerm(q, p.t.Sort))
		}
	case VBytes: // strings and arrays
		if q, ok := b.(VBytes); ok {
			return Eq(st.bytes(p), st.bytes(q))
		}
	case VStruct:
		if s := sortOf(p.typ); s != "" {
			return Eq(st.peekTerm(p, s), st.peekTerm(b, s))
		}
		if q, ok := b.(VStruct); ok {
			r := True
			for i := range p.f {
				r = And(r, x.equal(st, fr, p.f[i], q.f[i]))
			}
			return r
		}
	}
	panic(unsup("comparison of %T and %T", a, b))
}

func (x *Ex) unop(st *State, fr *Frame, in *ssa.UnOp) Value {
	v := x.val(st, fr, in.X)
	switch in.Op {
	case token.MUL:
		return x.load(st, fr, v, in.Type(), in.Pos())
	case token.NOT:
		return VT{st.norm(Not(v.(VT).t))}
	case token.SUB:
		t := v.(VT).t
		return VT{st.norm(Sub(BV(0, t.Sort), t))}
	case token.XOR:
		t := v.(VT).t
		return VT{st.norm(BVOp("bvxor", t, BV(^uint64(0), t.Sort)))}
	}
	panic(unsup("operator %s", in.Op))
}

func (x *Ex) convert(st *State, fr *Frame, in *ssa.Convert) Value {
	v := x.val(st, fr, in.X)
	from, to := in.X.Type(), in.Type()
	switch v := v.(type) {
	case VT:
		if s := sortOf(to); isBV(s) && isBV(v.t.Sort) {
			return VT{st.norm(Resize(v.t, s, isSigned(from)))}
		}
	case VBytes:
		s := st.bytes(v)
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return VBytes{nilf: False, s: s}
		}
		if isByteSlice(to) {
			// a fresh copy, owned by the function
			return VBytes{nilf: False, obj: st.allocBytes(s)}
		}
	}
	panic(unsup("conversion %s to %s", from, to))
}

func (x *Ex) makeIface(st *State, fr *Frame, in *ssa.MakeInterface) Value {
	v := x.val(st, fr, in.X)
	if isErrorType(in.Type()) {
		return VErr{False}
	}
	return VIface{in.X.Type(), v}
}

func (x *Ex) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) Value {
	v := x.val(st, fr, in.X)
	i, ok := v.(VIface)
	if !ok || i.typ == nil {
		if vt, ok := v.(VT); ok {
			return x.assertModel(st, fr, in, vt)
		}
		panic(unsup("type assertion on %T", v))
	}
	hit := types.Identical(i.typ, in.AssertedType)
	if _, isIf := in.AssertedType.Underlying().(*types.Interface); isIf {
		panic(unsup("assertion to interface"))
	}
	if in.CommaOk {
		if hit {
			return VTuple{i.v, VT{True}}
		}
		return VTuple{st.zero(in.AssertedType), VT{False}}
	}
	x.safety(st, fr, Bool(hit), "type assertion", in.Pos())
	return i.v
}

func (x *Ex) makeSlice(st *State, fr *Frame, in *ssa.MakeSlice) Value {
	n := x.index(st, fr, in.Len)
	x.safety(st, fr, Ult(n, BV64(lenBound)), "make: length out of range", in.Pos())
	if in.Cap != in.Len {
		c := x.index(st, fr, in.Cap)
		x.safety(st, fr, And(Ult(c, BV64(lenBound)), Ule(n, c)), "make: capacity out of range", in.Pos())
		x.allocBound(st, fr, c, in)
	} else {
		x.allocBound(st, fr, n, in)
	}
	t := in.Type()
	if isArrType(t) {
		es := arrElemSort(t)
		return VArr{nilf: False, obj: st.alloc(VArrC{arr: ConstArr(ArrSort("BV64", es), None(es[2:])), fresh: ConstArr(ArrSort("BV64", "Bool"), True)}), len: n}
	}
	if isByteSlice(t) {
		return VBytes{nilf: False, obj: st.allocBytes(st.norm(App("zeros", "Bytes", n)))}
	}
	s := sortOf(t)
	if s == "" {
		panic(unsup("make %s", t))
	}
	es := elemSort(s)
	var z *Term
	if n.Op == "bv" && n.Val <= 8 {
		z = Eps(s)
		e := st.toTerm(st.zero(elemOf(t)), es)
		for j := uint64(0); j < n.Val; j++ {
			z = Cat(z, Unit(e))
		}
	} else {
		z = App("reczeros", s, n, st.toTerm(st.zero(elemOf(t)), es))
	}
	return VList{nilf: False, obj: st.alloc(VList{nilf: False, s: z})}
}

// slice executes x[lo:hi].
func (x *Ex) slice(st *State, fr *Frame, in *ssa.Slice) Value {
	b := x.val(st, fr, in.X)
	if in.Max != nil {
		panic(unsup("three-index slice"))
	}
	if al, ok := in.X.(*ssa.Alloc); ok && al.Comment == "makeslice" && isArrType(in.Type()) && in.Low == nil && in.High != nil {
		// make with a constant size
		es := arrElemSort(in.Type())
		return VArr{nilf: False, obj: st.alloc(VArrC{arr: ConstArr(ArrSort("BV64", es), None(es[2:])), fresh: ConstArr(ArrSort("BV64", "Bool"), True)}), len: x.index(st, fr, in.High)}
	}
	if p, ok := b.(VPtr); ok { // *[n]T
		x.nilCheck(st, fr, b, in.Pos())
		arr := st.loadPath(p.obj, p.path)
		switch a := arr.(type) {
		case VBytes:
			if in.Low == nil && in.High == nil {
				return VBytes{nilf: False, obj: p.obj, path: p.path}
			}
			b = VBytes{nilf: False, s: st.bytes(VBytes{obj: p.obj, path: p.path})}
		case VStruct:
			if in.Low != nil || in.High != nil {
				panic(unsup("slice of array"))
			}
			s := sortOf(in.Type())
			if isArrType(in.Type()) && len(a.f) == 0 {
				z := st.zero(in.Type()).(VArr)
				z.nilf = False
				return z
			}
			if isArrType(in.Type()) || s == "" {
				return VGoSlice{p, len(a.f)}
			}
			l := Eps(s)
			for _, e := range a.f {
				l = Cat(l, Unit(st.toTerm(e, elemSort(s))))
			}
			// the array is only reachable through this slice
			st.frozen[p.obj] = true
			return VList{nilf: False, s: st.norm(l)}
		default:
			panic(unsup("slice of %T", arr))
		}
	}
	n := x.lenOf(st, b)
	lo, hi := BV64(0), n
	if in.Low != nil {
		lo = x.index(st, fr, in.Low)
	}
	if in.High != nil {
		hi = x.index(st, fr, in.High)
	}
	// the capacity is at least the length; slicing beyond the length is
	// treated as an error
	x.safety(st, fr, And(Ule(lo, hi), Ule(hi, n)), "slice bounds out of range", in.Pos())
	lo, hi = st.norm(lo), st.norm(hi)
	switch v := b.(type) {
	case VBytes:
		if in.Low == nil && in.High == nil {
			return v
		}
		s := st.bytes(v)
		if v.obj != 0 {
			st.frozen[v.obj] = true
		}
		r := st.norm(Take(Drop(s, lo), Sub(hi, lo)))
		return VBytes{nilf: v.nilf, s: r, sub: true}
	case VList:
		if in.Low == nil && in.High == nil {
			return v
		}
		s := st.list(v)
		if v.obj != 0 {
			st.frozen[v.obj] = true
		}
		return VList{nilf: v.nilf, s: st.norm(Take(Drop(s, lo), Sub(hi, lo))), borrowed: true}
	case VArr:
		if lo != BV64(0) {
			panic(unsup("slice of tree from a non-zero index"))
		}
		return VArr{nilf: v.nilf, obj: v.obj, len: hi}
	}
	panic(unsup("slice of %T", b))
}

// VGoSlice is a slice of values that have no logical sort, such as the
// arguments of fmt.Errorf.
type VGoSlice struct {
	p VPtr
	n int
}
