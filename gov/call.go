package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// model executes a call of a function outside the package.
type model func(x *Ex, c *callCtx)

type callCtx struct {
	st   *State
	fr   *Frame
	name string
	args []Value
	sig  *types.Signature
	pos  token.Pos
	k    cont
}

func (c *callCtx) ret(v ...Value) { c.k(c.st, v) }

var models = map[string]model{}

func inPackage(f *ssa.Function) bool {
	if f.Pkg == mlsPkg {
		return true
	}
	if f.Parent() != nil {
		return inPackage(f.Parent())
	}
	if f.Synthetic != "" { // wrappers and bound methods
		if r := f.Signature.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == mlsPkg.Pkg {
				return true
			}
		}
		if f.Object() != nil && f.Object().Pkg() == mlsPkg.Pkg {
			return true
		}
	}
	return false
}

func (x *Ex) call(st *State, fr *Frame, ins *ssa.Call, k cont) {
	cc := ins.Common()
	if cc.IsInvoke() {
		recv := x.val(st, fr, cc.Value)
		var args []Value
		for _, a := range cc.Args {
			args = append(args, x.val(st, fr, a))
		}
		x.invoke(st, fr, recv, cc.Method, args, ins.Pos(), k)
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		x.builtin(st, fr, ins, b.Name(), k)
		return
	}
	var args []Value
	for _, a := range cc.Args {
		args = append(args, x.val(st, fr, a))
	}
	if f := cc.StaticCallee(); f != nil {
		var bind []Value
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			bind = x.val(st, fr, mc).(VFunc).bind
		}
		x.callFn(st, fr, f, bind, args, ins.Pos(), k)
		return
	}
	f := x.val(st, fr, cc.Value)
	x.callValue(st, fr, f, args, cc.Signature(), ins.Pos(), k)
}

func (x *Ex) callValue(st *State, fr *Frame, f Value, args []Value, sig *types.Signature, pos token.Pos, k cont) {
	v, ok := f.(VFunc)
	if !ok {
		panic(unsup("call of %T", f))
	}
	x.safety(st, fr, Not(orFalse(v.nilf)), "call of nil function", pos)
	if v.fn != nil {
		x.callFn(st, fr, v.fn, v.bind, args, pos, k)
		return
	}
	if m := models["func:"+v.ext]; m != nil {
		m(x, &callCtx{st, fr, v.ext, args, sig, pos, k})
		return
	}
	if len(args) == 0 && sig.Results().Len() == 1 && sortOf(sig.Results().At(0).Type()) == sTime {
		(&callCtx{st, fr, v.ext, args, sig, pos, k}).ret(VT{st.norm(clockOf(v))})
		return
	}
	panic(unsup("call of unknown function %s", v.ext))
}

// clockOf is the time a clock function reports. It is taken to be constant
// during one call of a function under contract.
func clockOf(v VFunc) *Term {
	n := v.ext
	if v.fn != nil {
		n = v.fn.String()
	}
	r := App("clock", sTime, App("func:"+n, "U.func"))
	if v.nilf != nil && v.nilf != False {
		r = Ite(v.nilf, App("clock", sTime, App("func:time.Now", "U.func")), r)
	}
	return r
}

func (x *Ex) callFn(st *State, fr *Frame, f *ssa.Function, bind, args []Value, pos token.Pos, k cont) {
	if !inPackage(f) {
		n := extName(f)
		if m := models[n]; m != nil {
			x.calls["model "+n]++
			m(x, &callCtx{st, fr, n, args, f.Signature, pos, k})
			return
		}
		panic(unsup("call of %s (no model)", n))
	}
	n := fname(f)
	x.tryHints(st, fr, n)
	if c := contracts[n]; c != nil && !c.inline && !x.expands(n) && f.Synthetic == "" {
		x.calls["contract "+n]++
		x.applyContract(st, fr, c, f, args, pos, k)
		return
	}
	x.inline(st, fr, f, bind, args, pos, k)
}

func (x *Ex) expands(n string) bool {
	return x.c != nil && slices.Contains(x.c.expand, n)
}

func (x *Ex) inline(st *State, fr *Frame, f *ssa.Function, bind, args []Value, pos token.Pos, k cont) {
	if fr.depth > 60 {
		panic(unsup("call depth: recursion without contract in %s", fname(f)))
	}
	if len(f.Blocks) == 0 {
		panic(unsup("no body for %s", f))
	}
	x.fnsIn[fname(f)] = true
	nf := &Frame{fn: f, regs: map[ssa.Value]Value{}, names: map[string]Value{}, addrs: map[string]Value{}, depth: fr.depth + 1, up: fr, site: pos}
	for i, p := range f.Params {
		nf.regs[p] = args[i]
		nf.names[p.Name()] = args[i]
	}
	for i, p := range f.FreeVars {
		nf.regs[p] = bind[i]
	}
	x.run(st, nf, f.Blocks[0], 0, k)
}

// tryHints proves and assumes what the contract suggests at a call of n.
func (x *Ex) tryHints(st *State, fr *Frame, n string) {
	if x.c == nil {
		return
	}
	for _, h := range x.c.hints {
		if h.at != n {
			continue
		}
		func() {
			defer func() {
				switch r := recover().(type) {
				case nil, unsupported, specError, stopPath:
				default:
					panic(r)
				}
			}()
			e := &Env{x: x, st: st, old: x.pre, names: map[string]Value{}, fr: fr}
			if x.entry != nil {
				e.oldn = x.entry.names
			}
			t := e.evalBool(h.c.e)
			ok := x.patientValid(st.clone(), t)
			if debugLoops {
				fmt.Printf("hint %v %s\n", ok, h.c.src)
				if os.Getenv("GOV_HINTS") != "" {
					fmt.Printf("    is %v\n", t)
				}
			}
			if ok {
				st.assume(t)
			}
		}()
	}
}

// ---- contracts at call sites ----

func resultNames(sig *types.Signature) []string {
	var out []string
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		r := sig.Results().At(i)
		if isErrorType(r.Type()) && i == n-1 {
			out = append(out, "err")
		} else if n == 1 || n == 2 && i == 0 {
			out = append(out, "result")
		} else {
			out = append(out, fmt.Sprintf("result%d", i))
		}
	}
	return out
}

func bindParams(f *ssa.Function, args []Value) map[string]Value {
	m := map[string]Value{}
	for i, p := range f.Params {
		m[p.Name()] = args[i]
	}
	return m
}

func bindResults(m map[string]Value, f *ssa.Function, res []Value) {
	names := resultNames(f.Signature)
	for i, v := range res {
		m[names[i]] = v
		if i == 1 && names[i] != "err" {
			m["ok"] = v
			m["result1"] = v
		}
		m[fmt.Sprintf("result%d", i)] = v
		if n := f.Signature.Results().At(i).Name(); n != "" && n != "_" {
			m[n] = v
		}
	}
	if n := len(res); n > 0 {
		if e, isErr := res[n-1].(VErr); isErr {
			m["ok"] = VT{e.nilf}
		}
	}
}

// lval resolves a modifies entry to a place in the heap.
func (e *Env) lval(x ast.Expr) (VPtr, types.Type) {
	switch x := x.(type) {
	case *ast.StarExpr:
		return e.lval(x.X)
	case *ast.ParenExpr:
		return e.lval(x.X)
	case *ast.Ident:
		v, ok := e.lookup(x.Name)
		if !ok {
			panic(bad("modifies: unknown %s", x.Name))
		}
		switch p := v.(type) {
		case VPtr:
			return p, nil
		case VArr:
			return VPtr{obj: p.obj}, nil
		case VBytes:
			if p.obj != 0 {
				return VPtr{p.obj, p.path}, nil
			}
		case VMap:
			return VPtr{obj: p.obj}, nil
		}
		panic(bad("modifies: %s is %T", x.Name, v))
	case *ast.SelectorExpr:
		p, _ := e.lval(x.X)
		if p.obj == 0 {
			panic(bad("modifies nil"))
		}
		c := e.st.loadPath(p.obj, p.path)
		if q, ok := c.(VPtr); ok {
			p = q
			c = e.st.loadPath(p.obj, p.path)
		}
		s := e.st.expand(c)
		u := s.typ.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == x.Sel.Name {
				return VPtr{p.obj, append(append([]int(nil), p.path...), i)}, u.Field(i).Type()
			}
		}
		panic(bad("modifies: no field %s", x.Sel.Name))
	}
	panic(bad("modifies: %s", exprStr(x)))
}

// havocCell returns an arbitrary value of the shape of v.
func (st *State) havocCell(v Value, hint string) Value {
	switch v := v.(type) {
	case VT:
		return VT{Fresh(hint, v.t.Sort)}
	case VBytes:
		s := Fresh(hint, "Bytes")
		if v.nilf == False && v.obj == 0 && v.id == -1 {
			st.assume(Eq(Len(s), Len(v.s)))
			return VBytes{nilf: False, s: s, id: -1}
		}
		nf := Fresh(hint+".nil", "Bool")
		st.assume(Imp(nf, Eq(Len(s), BV64(0))))
		return VBytes{nilf: nf, s: s}
	case VList:
		so := Sort("")
		if v.s != nil {
			so = v.s.Sort
		} else {
			so = st.heap[v.obj].(VList).s.Sort
		}
		s := Fresh(hint, so)
		nf := Fresh(hint+".nil", "Bool")
		st.assume(Imp(nf, Eq(Len(s), BV64(0))))
		n := VList{nilf: nf, s: s, borrowed: v.borrowed}
		if v.hi != nil {
			n.hi = Fresh(hint+".hi", "BV64")
		}
		return n
	case VErr:
		return VErr{Fresh(hint, "Bool")}
	case VOpt:
		return VOpt{Fresh(hint, v.t.Sort), nil}
	case VView:
		return VView{Fresh(hint, v.t.Sort), nil}
	case VStruct:
		f := make([]Value, len(v.f))
		for i := range f {
			f[i] = st.havocCell(v.f[i], fmt.Sprintf("%s.%d", hint, i))
		}
		return VStruct{v.typ, f}
	case VArr:
		c := st.heap[v.obj].(VArrC)
		n := Fresh(hint+".len", "BV64")
		st.assume(Ult(n, BV64(lenBound)))
		nf := Fresh(hint+".nil", "Bool")
		st.assume(Imp(nf, Eq(n, BV64(0))))
		// the old backing array may have been written as well
		st.heap[v.obj] = VArrC{Fresh(hint+".old", c.arr.Sort), ConstArr(ArrSort("BV64", "Bool"), False)}
		st.viewW[v.obj] += 1000
		return VArr{nilf: nf, obj: st.alloc(VArrC{Fresh(hint, c.arr.Sort), ConstArr(ArrSort("BV64", "Bool"), False)}), len: n}
	case VArrC:
		return VArrC{Fresh(hint, v.arr.Sort), ConstArr(ArrSort("BV64", "Bool"), False)}
	case VMapC:
		n := VMapC{key: v.key, val: v.val, dom: Fresh(hint+".dom", v.dom.Sort)}
		if v.m != nil {
			n.m = Fresh(hint+".map", v.m.Sort)
		}
		return n
	case VBuilder:
		return VBuilder{Fresh(hint+".err", "Bool"), Fresh(hint+".out", "Bytes")}
	case VIter:
		return VIter{v.m, Fresh(hint+".visited", v.visited.Sort)}
	case VHashC:
		return VHashC{v.h, v.key, Fresh(hint, "Bytes")}
	}
	panic(unsup("havoc of %T", v))
}

func (x *Ex) evalClause(e *Env, c *Clause) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(specError); ok {
				panic(unsup("%s: contract does not apply: %s", c.pos, b.msg))
			}
			panic(r)
		}
	}()
	return e.evalBool(c.e)
}

func (e *Env) addLets(c *Contract) {
	for _, l := range c.lets {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(specError); !ok {
						panic(r)
					}
				}
			}()
			e.names[l.name] = e.detach(e.eval(l.e))
		}()
	}
}

// hides tells whether the proof of the unit does without a named clause.
func (x *Ex) hides(name string) bool {
	if x.c != nil {
		for _, h := range x.c.hide {
			if h == name || strings.HasSuffix(h, "#*") && strings.HasPrefix(name, h[:len(h)-1]) {
				return true
			}
		}
	}
	return false
}

func (x *Ex) applyContract(st *State, fr *Frame, c *Contract, f *ssa.Function, args []Value, pos token.Pos, k cont) {
	c.used = true
	if c.kind != "" {
		x.codecCall(st, fr, c, f, args, pos, k)
		return
	}
	for i, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Pointer); ok && !c.nilable[p.Name()] {
			args[i] = x.nilCheck(st, fr, args[i], pos)
		}
	}
	env := &Env{x: x, st: st, names: bindParams(f, args)}
	env.addLets(c)
	for i, r := range c.requires {
		x.prove(st, x.evalClause(env, r), fmt.Sprintf("pre/%s#%d@%s:%s", c.fn, i+1, fname(fr.fn), posOf(pos)), "pre", posOf(pos), "precondition of "+c.fn+": "+r.src, r)
	}
	if c == x.c {
		// a recursive call must come closer to the end
		name := fmt.Sprintf("terminates@%s:%s", fname(fr.fn), posOf(pos))
		if c.decreases == nil {
			x.fail(st, fr, "terminates", "recursion without a decreasing measure", pos)
			return
		}
		ent := &Env{x: x, st: x.pre, names: x.entry.names}
		x.prove(st, Ult(Resize(env.term(env.eval(c.decreases.e), "BV64"), "BV64", false), Resize(ent.term(ent.eval(c.decreases.e), "BV64"), "BV64", false)), name, "terminates", posOf(pos), "recursion comes closer to its end: "+c.decreases.src, nil)
	}
	if st.dead {
		return
	}
	old := st.clone()
	for _, m := range c.modifies {
		x.havocLval(st, fr, env, m, c.fn, pos)
	}
	sig := f.Signature
	var res []Value
	names := resultNames(sig)
	errI := -1
	boolI := -1
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := x.symResult(st, t, fname(f)+"."+names[i], c)
		if isErrorType(t) {
			errI = i
		} else if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			boolI = i
		}
		res = append(res, v)
	}
	finish := func(s *State) {
		e := &Env{x: x, st: s, old: old, names: bindParams(f, args), oldn: bindParams(f, args)}
		e.names = map[string]Value{}
		for n, v := range env.names {
			e.names[n] = v
		}
		e.oldn = env.names
		bindResults(e.names, f, res)
		for i, q := range c.ensures {
			if !x.hides(fmt.Sprintf("%s#%d", c.fn, i+1)) {
				s.assume(x.evalClause(e, q))
			}
		}
		for _, q := range c.parts {
			if !x.hides(c.fn + "#part") {
				s.assume(x.evalClause(e, q))
			}
		}
		if s.dead {
			return
		}
		rs := make([]Value, len(res))
		for i := range res {
			rs[i] = s.normV(res[i])
		}
		k(s, rs)
	}
	switch {
	case errI >= 0:
		x.fork(st, res[errI].(VErr).nilf, fmt.Sprintf("%s %s succeeds", posOf(pos), c.fn), func(s *State) { finish(s) }, func(s *State) { finish(s) })
	case boolI >= 0:
		x.fork(st, res[boolI].(VT).t, fmt.Sprintf("%s %s holds", posOf(pos), c.fn), func(s *State) { finish(s) }, func(s *State) { finish(s) })
	default:
		finish(st)
	}
}

func (x *Ex) symResult(st *State, t types.Type, hint string, c *Contract) Value {
	v := st.sym(t, hint)
	switch r := v.(type) {
	case VBytes:
		if c != nil && c.fresh {
			o := st.allocBytes(r.s)
			return VBytes{nilf: r.nilf, obj: o}
		}
	case VList:
		if c != nil && c.fresh {
			nextObj++
			r.borrowed = false
			r.id = nextObj
			return r
		}
	case VArr:
		if c != nil && c.fresh {
			// the nodes themselves may still be shared
			return r
		}
	}
	return v
}

func (x *Ex) havocLval(st *State, fr *Frame, env *Env, m ast.Expr, what string, pos token.Pos) {
	var p VPtr
	func() {
		defer func() {
			if r := recover(); r != nil {
				if b, ok := r.(specError); ok {
					panic(unsup("modifies of %s: %s", what, b.msg))
				}
				panic(r)
			}
		}()
		p, _ = env.lval(m)
	}()
	if p.obj == 0 {
		return
	}
	if st.frozen[p.obj] || st.readonly[p.obj] {
		x.fail(st, fr, "frame", "call of "+what+" writes shared memory", pos)
	}
	old := st.loadPath(p.obj, p.path)
	if a, ok := old.(VArr); ok && (st.frozen[a.obj] || st.readonly[a.obj]) {
		x.fail(st, fr, "frame", "call of "+what+" writes shared memory", pos)
	}
	nv := st.havocCell(old, what+"."+exprStr(m))
	if _, ok := old.(VArrC); ok {
		st.viewW[p.obj] += 1000
	}
	st.storePath(p.obj, p.path, nv)
}

// ---- interface method calls ----

func (x *Ex) invoke(st *State, fr *Frame, recv Value, m *types.Func, args []Value, pos token.Pos, k cont) {
	if i, ok := recv.(VIface); ok {
		if i.typ == nil {
			x.safety(st, fr, False, "method call on nil interface", pos)
			return
		}
		f := prog.LookupMethod(i.typ, m.Pkg(), m.Name())
		if f == nil {
			panic(unsup("method %s of %s", m.Name(), i.typ))
		}
		x.callFn(st, fr, f, nil, append([]Value{i.v}, args...), pos, k)
		return
	}
	n := ""
	switch r := recv.(type) {
	case VT:
		n = "invoke:" + r.t.Sort + "." + m.Name()
	case VHash:
		n = "invoke:hash." + m.Name()
	case VErr:
		n = "invoke:error." + m.Name()
	default:
		panic(unsup("method call on %T", recv))
	}
	if md := models[n]; md != nil {
		x.calls["model "+n]++
		md(x, &callCtx{st, fr, n, append([]Value{recv}, args...), m.Type().(*types.Signature), pos, k})
		return
	}
	panic(unsup("no model for %s", n))
}

func (x *Ex) assertModel(st *State, fr *Frame, in *ssa.TypeAssert, v VT) Value {
	ok := App("istype:"+typeName(in.AssertedType), "Bool", v.t)
	s := sortOf(in.AssertedType)
	if s == "" {
		s = "U." + typeName(in.AssertedType)
	}
	val := VT{App("astype:"+typeName(in.AssertedType), s, v.t)}
	if in.CommaOk {
		return VTuple{val, VT{ok}}
	}
	x.safety(st, fr, ok, "type assertion", in.Pos())
	return val
}

// ---- builtins ----

func newID() int { nextObj++; return nextObj }

func (x *Ex) builtin(st *State, fr *Frame, ins *ssa.Call, name string, k cont) {
	cc := ins.Common()
	arg := func(i int) Value { return x.val(st, fr, cc.Args[i]) }
	switch name {
	case "len":
		k(st, []Value{VT{x.lenOf(st, arg(0))}})
	case "cap":
		v := arg(0)
		n := x.lenOf(st, v)
		c := Fresh("cap", "BV64")
		st.assume(And(Ule(n, c), Ult(c, BV64(lenBound))))
		k(st, []Value{VT{c}})
	case "append":
		k(st, []Value{x.appendTo(st, fr, arg(0), arg(1), ins)})
	case "copy":
		dst, src := arg(0), arg(1)
		switch d := dst.(type) {
		case VBytes:
			s := st.bytes(src.(VBytes))
			o := st.bytes(d)
			n := Ite(Ult(Len(o), Len(s)), Len(o), Len(s))
			n = st.norm(n)
			if d.obj == 0 || st.frozen[d.obj] || st.readonly[d.obj] {
				x.fail(st, fr, "frame", "copy into a shared byte slice", ins.Pos())
			} else {
				st.storePath(d.obj, d.path, VBytes{nilf: False, s: st.norm(Cat(Take(s, n), Drop(o, n)))})
			}
			k(st, []Value{VT{n}})
		case VArr:
			s := src.(VArr)
			dc, sc := st.heap[d.obj].(VArrC), st.heap[s.obj].(VArrC)
			dl, sl := st.norm(d.len), st.norm(s.len)
			n := st.norm(Ite(Ult(dl, sl), dl, sl))
			if st.frozen[d.obj] || st.readonly[d.obj] {
				x.fail(st, fr, "frame", "copy into a shared slice", ins.Pos())
			}
			if dl != sl && !x.quickValid(st, Eq(dl, sl)) {
				// elements beyond n keep their value
				na := Fresh("copied", dc.arr.Sort)
				j := Bound("j", "BV64")
				st.assume(Forall([]*Term{j}, Eq(Select(na, j), Ite(Ult(j, n), Select(sc.arr, j), Select(dc.arr, j)))))
				dc.arr = na
			} else {
				// beyond the length nothing can be read
				dc.arr = sc.arr
			}
			dc.fresh = ConstArr(ArrSort("BV64", "Bool"), False)
			sc.fresh = ConstArr(ArrSort("BV64", "Bool"), False)
			st.heap[d.obj] = dc
			st.heap[s.obj] = sc
			k(st, []Value{VT{n}})
		case VList:
			if d.obj == 0 || st.frozen[d.obj] || st.readonly[d.obj] {
				x.fail(st, fr, "frame", "copy into a shared slice", ins.Pos())
				k(st, []Value{VT{x.lenOf(st, src)}})
				return
			}
			s := st.list(src.(VList))
			o := st.list(d)
			n := st.norm(Ite(Ult(Len(o), Len(s)), Len(o), Len(s)))
			c := st.heap[d.obj].(VList)
			c.s = st.norm(Cat(Take(s, n), Drop(o, n)))
			st.heap[d.obj] = c
			k(st, []Value{VT{n}})
		default:
			panic(unsup("copy into %T", dst))
		}
	case "delete":
		m := arg(0).(VMap)
		c, ok := st.heap[m.obj].(VMapC)
		if !ok {
			panic(unsup("delete"))
		}
		c.dom = st.norm(Store(c.dom, st.toTerm(arg(1), c.key), False))
		st.heap[m.obj] = c
		k(st, nil)
	case "min", "max":
		a, b := x.term(st, fr, cc.Args[0]), x.term(st, fr, cc.Args[1])
		lt := "bvult"
		if isSigned(cc.Args[0].Type()) {
			lt = "bvslt"
		}
		if len(cc.Args) != 2 {
			panic(unsup("min/max"))
		}
		if name == "min" {
			k(st, []Value{VT{st.norm(Ite(Cmp(lt, a, b), a, b))}})
		} else {
			k(st, []Value{VT{st.norm(Ite(Cmp(lt, a, b), b, a))}})
		}
	default:
		panic(unsup("builtin %s", name))
	}
}

func (x *Ex) appendTo(st *State, fr *Frame, base, add Value, ins *ssa.Call) Value {
	owned := func(id int, n *Term, nilf *Term, shared bool) {
		nm := fmt.Sprintf("frame/append@%s:%s", fname(fr.fn), posOf(ins.Pos()))
		if shared || id != 0 && st.used[id] {
			if nilf != nil && st.norm(nilf) == True {
				return
			}
			x.prove(st, Eq(n, BV64(0)), nm, "frame", posOf(ins.Pos()), "append to a slice whose backing array may be shared", nil)
		}
		if id != 0 {
			st.used[id] = true
		}
	}
	switch b := base.(type) {
	case VBytes:
		s := st.bytes(b)
		owned(b.id, Len(s), b.nilf, b.obj == 0 && b.id == 0 || b.sub)
		var a *Term
		switch v := add.(type) {
		case VBytes:
			a = st.bytes(v)
		default:
			panic(unsup("append of %T", add))
		}
		if b.obj != 0 {
			st.frozen[b.obj] = true
		}
		r := st.norm(Cat(s, a))
		nf := False
		if l := st.norm(Len(r)); !(l.Op == "bv" && l.Val > 0) {
			nf = And(orFalse(st.bytesNil(b)), Eq(Len(a), BV64(0)))
		}
		return VBytes{nilf: st.norm(nf), s: r, id: newID()}
	case VList:
		s := st.list(b)
		owned(b.id, Len(s), b.nilf, b.borrowed)
		if b.obj != 0 {
			st.frozen[b.obj] = true
		}
		var a *Term
		switch v := add.(type) {
		case VList:
			a = st.list(v)
		default:
			panic(unsup("append of %T", add))
		}
		r := st.norm(Cat(s, a))
		nf := False
		if l := st.norm(Len(r)); !(l.Op == "bv" && l.Val > 0) {
			nf = And(orFalse(st.listNil(b)), Eq(Len(a), BV64(0)))
		}
		return VList{nilf: st.norm(nf), s: r, id: newID()}
	case VArr:
		return x.appendArr(st, fr, b, add, ins)
	}
	panic(unsup("append to %T", base))
}

// appendArr extends a tree. The result owns a new array; the old one keeps
// its elements.
func (x *Ex) appendArr(st *State, fr *Frame, b VArr, add Value, ins *ssa.Call) Value {
	c := st.heap[b.obj].(VArrC)
	arr := c.arr
	n := b.len
	switch v := add.(type) {
	case VGoSlice:
		cells := st.loadPath(v.p.obj, v.p.path).(VStruct)
		_, es := arrSorts(arr.Sort)
		fresh := c.fresh
		for _, e := range cells.f {
			fv := False
			if p, ok := e.(VPtr); ok && (p.obj == 0 || !st.frozen[p.obj]) {
				fv = True
			}
			arr = Store(arr, n, st.toTerm(e, es))
			if fresh != nil {
				fresh = Store(fresh, n, fv)
			}
			n = Add(n, BV64(1))
		}
		return VArr{nilf: False, obj: st.alloc(VArrC{st.norm(arr), fresh}), len: st.norm(n)}
	case VList:
		fresh := c.fresh
		for _, u := range atoms(st.list(v)) {
			if u.Op != "unit" {
				panic(unsup("append of a list to a tree"))
			}
			arr = Store(arr, n, u.Args[0])
			if fresh != nil {
				fresh = Store(fresh, n, False)
			}
			n = Add(n, BV64(1))
		}
		return VArr{nilf: False, obj: st.alloc(VArrC{st.norm(arr), fresh}), len: st.norm(n)}
	case VArr:
		ac := st.heap[v.obj].(VArrC)
		vl := st.norm(v.len)
		if vl.Op == "bv" && vl.Val <= 8 {
			for j := uint64(0); j < vl.Val; j++ {
				arr = Store(arr, Add(n, BV64(j)), Select(ac.arr, BV64(j)))
			}
		} else if ac.arr.Op == "constarr" {
			na := Fresh("appended", arr.Sort)
			j := Bound("j", "BV64")
			st.assume(Forall([]*Term{j}, Eq(Select(na, j), Ite(Ult(j, n), Select(arr, j), ac.arr.Args[0]))))
			arr = na
		} else {
			na := Fresh("appended", arr.Sort)
			j := Bound("j", "BV64")
			st.assume(Forall([]*Term{j}, Eq(Select(na, j), Ite(Ult(j, n), Select(arr, j), Select(ac.arr, Sub(j, n))))))
			arr = na
		}
		fresh := ConstArr(ArrSort("BV64", "Bool"), False)
		return VArr{nilf: st.norm(And(orFalse(b.nilf), Eq(vl, BV64(0)))), obj: st.alloc(VArrC{st.norm(arr), fresh}), len: st.norm(Add(n, vl))}
	}
	panic(unsup("append of %T to a tree", add))
}

// ---- maps ----

func (x *Ex) lookup(st *State, fr *Frame, in *ssa.Lookup, k func(*State, Value)) {
	base := x.val(st, fr, in.X)
	if b, ok := base.(VBytes); ok { // string index
		i := x.index(st, fr, in.Index)
		if !x.try(func() { x.safety(st, fr, Ult(i, Len(st.bytes(b))), "index out of range", in.Pos()) }) {
			return
		}
		k(st, VT{st.norm(Nth(st.bytes(b), i))})
		return
	}
	m, ok := base.(VMap)
	if !ok {
		panic(unsup("lookup in %T", base))
	}
	mt := in.X.Type().Underlying().(*types.Map)
	wrap := func(s *State, v Value, ok *Term) {
		if in.CommaOk {
			k(s, VTuple{v, VT{ok}})
		} else {
			k(s, v)
		}
	}
	if m.obj == 0 {
		wrap(st, st.zero(mt.Elem()), False)
		return
	}
	switch c := st.heap[m.obj].(type) {
	case VConstMap:
		key := x.term(st, fr, in.Index)
		var rec func(s *State, i int)
		rec = func(s *State, i int) {
			if i == len(c.keys) {
				wrap(s, s.zero(mt.Elem()), False)
				return
			}
			x.fork(s, Eq(s.norm(key), c.keys[i]), fmt.Sprintf("%s key %s", posOf(in.Pos()), c.keys[i]), func(a *State) {
				wrap(a, a.normV(c.vals[i]), True)
			}, func(b *State) { rec(b, i+1) })
		}
		rec(st, 0)
	case VMapC:
		key := st.peekTerm(x.val(st, fr, in.Index), c.key)
		d := st.norm(Select(c.dom, key))
		if c.val == "" {
			z := st.zero(mt.Elem())
			wrap(st, z, d)
			return
		}
		z := st.peekTerm(st.zero(mt.Elem()), c.val)
		wrap(st, st.normV(fromTerm(mt.Elem(), Ite(d, Select(c.m, key), z), nil)), d)
	default:
		panic(unsup("lookup in %T", c))
	}
}

func (x *Ex) next(st *State, fr *Frame, in *ssa.Next, k func(*State, *Frame, Value)) {
	it := x.val(st, fr, in.Iter).(VPtr)
	cell := st.heap[it.obj].(VIter)
	c := st.heap[cell.m.obj].(VMapC)
	key := Fresh("key", c.key)
	more := Fresh("more", "Bool")
	mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	x.fork(st, more, posOf(in.Pos())+" more keys", func(s *State) {
		s.assume(And(Select(c.dom, key), Not(Select(cell.visited, key))))
		s.heap[it.obj] = VIter{cell.m, s.norm(Store(cell.visited, key, True))}
		var v Value = VT{BV64(0)}
		if c.val != "" {
			v = fromTerm(mt.Elem(), Select(c.m, key), nil)
		}
		if !s.feasible() {
			return
		}
		k(s, fr.clone(), VTuple{VT{True}, s.normV(fromTerm(mt.Key(), key, nil)), s.normV(v)})
	}, func(s *State) {
		j := Bound("k", c.key)
		s.assume(Forall([]*Term{j}, Imp(Select(c.dom, j), Select(cell.visited, j))))
		k(s, fr.clone(), VTuple{VT{False}, s.zero(mt.Key()), VT{BV64(0)}})
	})
}

func sortedKeys(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// allocBound: decoders do not allocate more elements than there are bytes
// in the input.
func (x *Ex) allocBound(st *State, fr *Frame, n *Term, in *ssa.MakeSlice) {
	if x.input == nil || x.silent > 0 {
		return
	}
	x.prove(st, Ule(n, Len(x.input)), fmt.Sprintf("allocation@%s:%s", fname(fr.fn), posOf(in.Pos())), "allocation", posOf(in.Pos()), "allocation is bounded by the size of the input", clauseTag("C03"))
}

func hasPrefixAny(s string, p ...string) bool {
	for _, q := range p {
		if strings.HasPrefix(s, q) {
			return true
		}
	}
	return false
}
