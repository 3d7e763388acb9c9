package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts of encoders and decoders. The specification of a type is the
// byte string enc(x); from it follow
//
//	decoder: on success the input was enc(x) ++ rest, x is well formed and
//	         every vector in it is short enough (one encoding per value);
//	         on an input enc(v) ++ rest it succeeds with v and leaves rest;
//	encoder: appends enc(x), and sets the error exactly if a vector of x is
//	         too long.

// linkCodecs turns the enc and wf lines of the contract files into
// definitions.
func linkCodecs() {
	for name, d := range encSpec {
		s := specSort(name)
		if recTab[s] == nil {
			panic(bad("enc %s: not a record type", name))
		}
		d, w, name := d, wfSpec[name], name
		encDef[s] = func(args []*Term) *Term { return evalMacro("enc "+name, d, args, "Bytes") }
		wfDef[s] = func(args []*Term) *Term {
			t := wfOf(encDef[s](args))
			if w != nil {
				t = And(evalMacro("wf "+name, w, args, "Bool"), t)
			}
			return t
		}
	}
}

func evalMacro(what string, d *defMacro, args []*Term, s Sort) *Term {
	if len(args) != len(d.params) {
		panic(bad("%s: %d arguments for %d parameters", what, len(args), len(d.params)))
	}
	e := &Env{st: factState, names: map[string]Value{}, x: factEx}
	for i, p := range d.params {
		e.names[p] = VT{args[i]}
	}
	return e.term(e.eval(d.e), s)
}

func fitsDef(args []*Term) *Term { return fitsOf(encDef[args[0].Sort](args)) }

const (
	tString  = "golang.org/x/crypto/cryptobyte.String"
	tBuilder = "golang.org/x/crypto/cryptobyte.Builder"
)

func isPtrTo(t types.Type, name string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && typeName(p.Elem()) == name
}

// codecParams finds the stream parameter, the value parameter and the rest.
func codecParams(f *ssa.Function, kind string) (stream, val int, extra []int) {
	stream, val = -1, -1
	for i, p := range f.Params {
		if kind == "decoder" && isPtrTo(p.Type(), tString) || kind == "encoder" && isPtrTo(p.Type(), tBuilder) {
			if stream < 0 {
				stream = i
				continue
			}
		}
		if val < 0 {
			val = i
			continue
		}
		extra = append(extra, i)
	}
	if stream < 0 || val < 0 {
		panic(unsup("%s is not a %s", fname(f), kind))
	}
	return
}

// valueSort is the sort of the encoded value.
func valueSort(f *ssa.Function, i int) (Sort, types.Type) {
	t := f.Params[i].Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if isArrType(t) {
		return "S." + arrElemSort(t), t
	}
	return sortOf(t), t
}

// vibytes is the RFC 9420 encoding of a number below 2^30.
func vibytes(n *Term) *Term {
	b8, b16, b32 := Resize(n, "BV8", false), Resize(n, "BV16", false), Resize(n, "BV32", false)
	return Ite(Ult(n, BV64(1<<6)), BE(b8), Ite(Ult(n, BV64(1<<14)), BE(BVOp("bvor", BV(0x4000, "BV16"), b16)), BE(BVOp("bvor", BV(0x80000000, "BV32"), b32))))
}

// concreteVi replaces the abstract code by its bytes.
func concreteVi(t *Term) *Term {
	m := map[*Term]*Term{}
	walk(t, map[*Term]bool{}, func(x *Term) {
		if isApp(x, "vi") {
			m[x] = vibytes(x.Args[0])
		}
	})
	return Replace(t, m)
}

// encOf is the encoding a contract specifies for a value.
func (c *Contract) encOf(x *Ex, st *State, f *ssa.Function, args []Value, val *Term, extra []*Term, vi int) *Term {
	if c.codecE != nil {
		names := bindParams(f, args)
		names["x"] = VT{val}
		names[f.Params[vi].Name()] = VT{val}
		e := &Env{x: x, st: st, names: names}
		return e.term(e.eval(c.codecE), "Bytes")
	}
	return Enc(val, extra...)
}

func unfoldOnce(e *Term) *Term {
	if u := unfoldEnc(e); u != nil {
		return u
	}
	return e
}

// wfFor is the well-formedness of a value as an encoder needs it.
func (c *Contract) wfFor(x *Ex, e, val *Term, extra []*Term) *Term {
	if c.codecE != nil {
		w := wfOf(e)
		if c.codecW != nil {
			env := &Env{x: x, st: factState, names: map[string]Value{"x": VT{val}}}
			w = And(env.evalBool(c.codecW), w)
		}
		return w
	}
	return Wf(val, extra...)
}

func unfoldWf(w *Term) *Term {
	if w.Op == "app" && strings.HasPrefix(w.Name, "wf:") {
		if d := wfDef[w.Args[0].Sort]; d != nil {
			return d(w.Args)
		}
	}
	return w
}

// verifyCodec checks an encoder or a decoder.
func (x *Ex) verifyCodec(f *ssa.Function) {
	if x.c.kind == "parser" {
		x.verifyParser(f, true)
		x.verifyParser(f, false)
		return
	}
	if x.c.kind == "decoder" {
		x.verifyDecoder(f, true)
		x.verifyDecoder(f, false)
		return
	}
	x.verifyEncoder(f)
}

func (x *Ex) codecSetup(f *ssa.Function) (*State, *Frame, []Value) {
	st := baseState.clone()
	fr := &Frame{fn: f, regs: map[ssa.Value]Value{}, names: map[string]Value{}, addrs: map[string]Value{}}
	args := make([]Value, len(f.Params))
	for i, p := range f.Params {
		args[i] = x.paramValue(st, p)
		fr.regs[p] = args[i]
		fr.names[p.Name()] = args[i]
	}
	return st, fr, args
}

func (x *Ex) extras(st *State, args []Value, ix []int) []*Term {
	var out []*Term
	for _, i := range ix {
		switch v := args[i].(type) {
		case VT:
			out = append(out, v.t)
		case VBytes:
			out = append(out, st.bytes(v))
		default:
			panic(unsup("codec argument %T", v))
		}
	}
	return out
}

func (x *Ex) success(res []Value) *Term {
	switch v := res[len(res)-1].(type) {
	case VErr:
		return v.nilf
	case VT:
		return v.t
	}
	panic(unsup("decoder result"))
}

// codecTag: the property an obligation belongs to, and those which depend on
// the encoding of this type.
func (x *Ex) codecTag(tag string) *Clause {
	t := []string{tag}
	for _, g := range x.c.tags {
		if g != "C01" && g != "C02" && g != "C03" && g != "C18" {
			t = append(t, g)
		}
	}
	return &Clause{tags: t}
}

func clauseTag(tag string) *Clause { return &Clause{tags: []string{tag}} }

func (x *Ex) verifyDecoder(f *ssa.Function, canonical bool) {
	c := x.c
	si, vi, ei := codecParams(f, "decoder")
	so, _ := valueSort(f, vi)
	if so == "" {
		panic(unsup("decoder of a type without a sort"))
	}
	concrete := func(t *Term) *Term {
		if fname(f) == "readVarint" {
			return concreteVi(t)
		}
		return t
	}
	st, fr, args := x.codecSetup(f)
	sp, vp := args[si].(VPtr), args[vi].(VPtr)
	extra := x.extras(st, args, ei)
	env := &Env{x: x, st: st, names: fr.names}
	for _, r := range c.requires {
		st.assume(x.evalClause(env, r))
	}
	var v, rest *Term
	if canonical {
		// the input is arbitrary
	} else {
		v, rest = Fresh("v", so), Fresh("rest", "Bytes")
		e := unfoldOnce(c.encOf(x, st, f, args, v, extra, vi))
		st.assume(unfoldWf(c.wfFor(x, e, v, extra)))
		st.assume(fitsOf(e))
		st.storePath(sp.obj, sp.path, VBytes{nilf: False, s: st.norm(Cat(concrete(e), rest))})
	}
	if !st.feasible() {
		x.vacuous("the input specification is contradictory")
		return
	}
	s0 := st.bytes(st.loadPath(sp.obj, sp.path).(VBytes))
	x.input = s0
	x.pre = st.clone()
	x.entry = fr.clone()
	mode := "decode"
	if !canonical {
		mode = "accept"
	}
	oks := 0
	x.run(st, fr, f.Blocks[0], 0, func(s *State, res []Value) {
		ok := x.success(res)
		if !canonical {
			x.prove(s, ok, mode+"/accepts", "ensures", c.pos, "every well-formed value is decoded from its encoding", x.codecTag("C02"))
			if s.dead || !s.feasible() {
				return
			}
		}
		x.fork(s, ok, "", func(s *State) {
			oks++
			cell := s.loadPath(vp.obj, vp.path)
			got := s.peekTerm(cell, so)
			left := s.bytes(s.loadPath(sp.obj, sp.path).(VBytes))
			if b, isB := cell.(VBytes); isB {
				x.prove(s, Not(s.bytesNil(b)), mode+"/nonnil", "ensures", c.pos, "the decoded byte string is not nil", clauseTag("C01"))
			}
			if canonical {
				e := unfoldOnce(c.encOf(x, s, f, args, got, extra, vi))
				x.prove(s, Eq(s0, Cat(concrete(e), left)), mode+"/canonical", "ensures", c.pos, "the consumed bytes are the encoding of the decoded value", clauseTag("C01"))
				x.prove(s, And(unfoldWf(c.wfFor(x, e, got, extra)), fitsOf(e)), mode+"/wellformed", "ensures", c.pos, "the decoded value is well formed", clauseTag("C01"))
				x.prove(s, Ule(BV64(1), Len(concrete(e))), mode+"/nonempty", "ensures", c.pos, "an encoding takes at least one byte", clauseTag("C03"))
			} else {
				x.prove(s, Eq(got, v), mode+"/value", "ensures", c.pos, "the decoded value is the encoded one", x.codecTag("C02"))
				x.prove(s, Eq(left, rest), mode+"/rest", "ensures", c.pos, "exactly the encoding is consumed", x.codecTag("C02"))
			}
		}, func(*State) {})
	})
	o := x.oblig(x.unit+"/vacuity/"+mode, "vacuity", c.pos, "decoding can succeed", nil)
	o.Count++
	if oks == 0 {
		o.Failed = true
		o.Reason = "no execution path succeeds"
	} else {
		o.By["solver"]++
	}
	x.input = nil
}

// verifyParser: a function from a byte string to a pointer to the decoded
// value; the whole input is to be consumed.
func (x *Ex) verifyParser(f *ssa.Function, canonical bool) {
	c := x.c
	st, fr, args := x.codecSetup(f)
	so := sortOf(f.Signature.Results().At(0).Type().(*types.Pointer).Elem())
	enc := func(v *Term) *Term {
		e := &Env{x: x, st: st, names: map[string]Value{"x": VT{v}}}
		return e.term(e.eval(c.codecE), "Bytes")
	}
	var v *Term
	if !canonical {
		v = Fresh("v", so)
		e := enc(v)
		st.assume(wfOf(e))
		st.assume(fitsOf(e))
		args[0] = VBytes{nilf: False, s: e}
		fr.regs[f.Params[0]] = args[0]
		fr.names[f.Params[0].Name()] = args[0]
	}
	s0 := st.bytes(args[0].(VBytes))
	x.input = s0
	x.pre = st.clone()
	x.entry = fr.clone()
	mode := "decode"
	if !canonical {
		mode = "accept"
	}
	oks := 0
	x.run(st, fr, f.Blocks[0], 0, func(s *State, res []Value) {
		ok := x.success(res)
		if !canonical {
			x.prove(s, ok, mode+"/accepts", "ensures", c.pos, "every well-formed value is decoded from its encoding", x.codecTag("C02"))
			if s.dead || !s.feasible() {
				return
			}
		}
		x.fork(s, ok, "", func(s *State) {
			oks++
			env := &Env{x: x, st: s}
			got := s.peekTerm(env.deref(res[0]), so)
			if canonical {
				e := enc(got)
				x.prove(s, Eq(s0, e), mode+"/canonical", "ensures", c.pos, "the input is the encoding of the decoded value", clauseTag("C01"))
				x.prove(s, And(wfOf(e), fitsOf(e)), mode+"/wellformed", "ensures", c.pos, "the decoded value is well formed", clauseTag("C01"))
			} else {
				x.prove(s, Eq(got, v), mode+"/value", "ensures", c.pos, "the decoded value is the encoded one", x.codecTag("C02"))
			}
		}, func(*State) {})
	})
	o := x.oblig(x.unit+"/vacuity/"+mode, "vacuity", c.pos, "decoding can succeed", nil)
	o.Count++
	if oks == 0 {
		o.Failed = true
		o.Reason = "no execution path succeeds"
	} else {
		o.By["solver"]++
	}
	x.input = nil
}

func (x *Ex) vacuous(why string) {
	o := x.oblig(x.unit+"/vacuity", "vacuity", x.c.pos, "preconditions are satisfiable", nil)
	o.Count++
	o.Failed = true
	o.Reason = why
}

func (x *Ex) verifyEncoder(f *ssa.Function) {
	c := x.c
	bi, vi, ei := codecParams(f, "encoder")
	st, fr, args := x.codecSetup(f)
	bp := args[bi].(VPtr)
	so, _ := valueSort(f, vi)
	extra := x.extras(st, args, ei)
	var val *Term
	switch a := args[vi].(type) {
	case VPtr:
		val = st.peekTerm(st.loadPath(a.obj, a.path), so)
		st.readonly[a.obj] = true
	case VT:
		val = a.t
	case VBytes:
		val = st.bytes(a)
	case VList:
		val = st.list(a)
	case VArr:
		val = st.peekTerm(a, so)
	default:
		panic(unsup("encoder of %T", a))
	}
	env := &Env{x: x, st: st, names: fr.names}
	for _, r := range c.requires {
		st.assume(x.evalClause(env, r))
	}
	e := unfoldOnce(c.encOf(x, st, f, args, val, extra, vi))
	st.assume(unfoldWf(c.wfFor(x, e, val, extra)))
	if !st.feasible() {
		x.vacuous("preconditions contradict each other")
		return
	}
	fits := fitsOf(e)
	if fname(f) == "writeVarint" {
		e = concreteVi(e)
	}
	b0 := st.loadPath(bp.obj, bp.path).(VBuilder)
	x.pre = st.clone()
	x.entry = fr.clone()
	oks := 0
	x.run(st, fr, f.Blocks[0], 0, func(s *State, res []Value) {
		oks++
		b1 := s.loadPath(bp.obj, bp.path).(VBuilder)
		x.prove(s, Eq(b1.err, Or(b0.err, Not(fits))), "encode/error", "ensures", c.pos, "encoding fails exactly if a vector is too long", x.codecTag("C02"))
		x.prove(s, Or(b1.err, Eq(b1.out, Cat(b0.out, e))), "encode/output", "ensures", c.pos, "the output is the specified encoding", x.codecTag("C02"))
	})
	o := x.oblig(x.unit+"/vacuity", "vacuity", c.pos, "some path returns", nil)
	o.Count++
	if oks == 0 {
		o.Failed = true
		o.Reason = "no execution path returns"
	} else {
		o.By["solver"]++
	}
}

// codecCall applies the contract of an encoder or a decoder.
func (x *Ex) codecCall(st *State, fr *Frame, c *Contract, f *ssa.Function, args []Value, pos token.Pos, k cont) {
	si, vi, ei := codecParams(f, c.kind)
	so, ty := valueSort(f, vi)
	extra := x.extras(st, args, ei)
	env := &Env{x: x, st: st, names: bindParams(f, args)}
	for i, r := range c.requires {
		x.prove(st, x.evalClause(env, r), fmt.Sprintf("pre/%s#%d@%s:%s", c.fn, i+1, fname(fr.fn), posOf(pos)), "pre", posOf(pos), "precondition of "+c.fn+": "+r.src, nil)
	}
	if c.kind == "encoder" {
		a := args[vi]
		var val *Term
		if _, isPtr := f.Params[vi].Type().Underlying().(*types.Pointer); isPtr {
			a = x.nilCheck(st, fr, a, pos)
			val = st.peekTerm(x.load(st, fr, a, ty, pos), so)
		} else {
			val = st.peekTerm(a, so)
		}
		val = st.norm(val)
		e := c.encOf(x, st, f, args, val, extra, vi)
		x.prove(st, c.wfFor(x, e, val, extra), fmt.Sprintf("pre/%s@%s:%s", c.fn, fname(fr.fn), posOf(pos)), "pre", posOf(pos), "the encoded value is well formed", nil)
		if st.dead {
			return
		}
		cc := &callCtx{st: st, fr: fr, name: c.fn, args: []Value{args[si]}, pos: pos, k: k}
		p, b := builderOf(x, cc)
		st.storePath(p.obj, p.path, VBuilder{st.norm(Or(b.err, Not(fitsOf(e)))), st.norm(Cat(b.out, e))})
		k(st, nil)
		return
	}
	cc := &callCtx{st: st, fr: fr, name: c.fn, args: []Value{args[si]}, pos: pos, k: k}
	sp, s := stringCell(x, cc)
	out := x.nilCheck(st, fr, args[vi], pos)
	isErr := isErrorType(f.Signature.Results().At(0).Type())
	result := func(ok bool) []Value {
		if isErr {
			return []Value{VErr{Bool(ok)}}
		}
		return []Value{VT{Bool(ok)}}
	}
	put := func(st *State, v *Term) bool {
		if isArrType(ty) {
			if v.Op != "listof" {
				es := arrElemSort(ty)
				l := ListOf(Fresh("arr", ArrSort("BV64", es)), Len(v))
				st.assume(Eq(v, l))
				v = l
			}
			nv := VArr{nilf: False, obj: st.alloc(VArrC{arr: v.Args[0], fresh: ConstArr(ArrSort("BV64", "Bool"), True)}), len: v.Args[1]}
			return x.try(func() { x.store(st, fr, out, nv, pos) })
		}
		var nv Value = fromTerm(ty, v, nil)
		if v.Sort == "Bytes" {
			nv = VBytes{nilf: False, s: v}
		}
		return x.try(func() { x.store(st, fr, out, nv, pos) })
	}
	succeed := func(st *State, v, rest *Term) {
		x.setString(cc, st, sp, st.norm(rest))
		if put(st, st.norm(v)) && !st.dead {
			k(st, result(true))
		}
	}
	general := func(st *State) {
		s := st.norm(s)
		x.fork(st, Fresh("ok", "Bool"), fmt.Sprintf("%s %s succeeds", posOf(pos), c.fn), func(a *State) {
			v, rest := Fresh("d", so), Fresh("s", "Bytes")
			if isArrType(ty) {
				n := Fresh("n", "BV64")
				a.assume(Ult(n, BV64(lenBound)))
				v = ListOf(Fresh("arr", ArrSort("BV64", arrElemSort(ty))), n)
			}
			e := c.encOf(x, a, f, args, v, extra, vi)
			a.assume(c.wfFor(x, e, v, extra))
			a.assume(fitsOf(e))
			if fname(f) == "readVarint" {
				a.assume(Ult(Resize(v, "BV64", false), BV64(1<<30)))
			}
			a.assume(Eq(s, Cat(e, rest)))
			if a.dead || !a.feasible() {
				return
			}
			succeed(a, v, rest)
		}, func(b *State) {
			x.setString(cc, b, sp, Fresh("s", "Bytes"))
			if put(b, Fresh("partial", so)) {
				k(b, result(false))
			}
		})
	}
	var match func(st *State, as []*Term)
	match = func(st *State, as []*Term) {
		if len(as) == 0 {
			general(st)
			return
		}
		rest := func(n int) *Term { return Cat(append([]*Term{Eps("Bytes")}, as[n:]...)...) }
		h := as[0]
		try := func(v *Term, cond *Term, rest *Term) {
			if x.quickValid(st, cond) {
				succeed(st, v, rest)
				return
			}
			general(st)
		}
		switch {
		case fname(f) == "readVarint" && isApp(h, "vi"):
			m := h.Args[0]
			v := Resize(m, "BV32", false)
			cond := Ult(m, BV64(1<<30))
			if x.quickValid(st, cond) {
				st.assume(Eq(Resize(v, "BV64", false), m))
				st.set(Resize(v, "BV64", false), m)
			}
			try(v, cond, rest(1))
		case fname(f) == "readVarint" && h.Op == "bytes" && h.Name[0] < 64:
			succeed(st, BV(uint64(h.Name[0]), "BV32"), Cat(BytesConst(h.Name[1:]), rest(1)))
		case so == "Bytes" && c.codecE != nil && isApp(h, "vi") && prefixLenSt(st, as[1:], h.Args[0]) > 0:
			n := prefixLenSt(st, as[1:], h.Args[0])
			try(Cat(as[1:1+n]...), Ult(h.Args[0], BV64(1<<30)), rest(1+n))
		case so == "Bytes" && c.codecE != nil && h.Op == "bytes" && h.Name[0] < 64:
			n := int(h.Name[0])
			s2 := Cat(BytesConst(h.Name[1:]), rest(1))
			x.readBytes(st, s2, BV64(uint64(n)), func(st *State, v, r *Term) {
				if v == nil {
					general(st)
					return
				}
				succeed(st, v, r)
			})
		case h.Op == "app" && h.Name == "enc:"+so && sameTerms(h.Args[1:], extra):
			try(h.Args[0], And(Wf(h.Args[0], extra...), Fits(h.Args[0], extra...)), rest(1))
		default:
			if u := unfoldEnc(h); u != nil {
				match(st, atoms(st.norm(Cat(u, rest(1)))))
				return
			}
			if isApp(h, "encl") {
				l := h.Args[0]
				x.fork(st, Ult(BV64(0), Len(l)), "", func(a *State) {
					match(a, atoms(a.norm(Cat(Enc(Nth(l, BV64(0))), Encl(Drop(l, BV64(1))), rest(1)))))
				}, func(b *State) { match(b, atoms(b.norm(rest(1)))) })
				return
			}
			if h.Op == "ite" {
				x.fork(st, h.Args[0], "", func(a *State) {
					match(a, atoms(a.norm(Cat(h.Args[1], rest(1)))))
				}, func(b *State) { match(b, atoms(b.norm(Cat(h.Args[2], rest(1))))) })
				return
			}
			general(st)
		}
	}
	match(st, atoms(s))
}

func prefixLenSt(st *State, l []*Term, n *Term) int {
	s := BV64(0)
	n = st.norm(n)
	for i, a := range l {
		s = Add(s, Len(a))
		if st.norm(s) == n {
			return i + 1
		}
	}
	return 0
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var _ ast.Expr

// codecFacts instantiates what is known about encodings and well-formedness
// for the terms of a query.
type codecFacts struct {
	// arguments of encl, wfl and fitsl, and which of them are array prefixes
	isArg                     map[*Term]bool
	listArgs, listofs         []*Term
	preds, lists, encs, takes []*Term
	contains                  []*Term
	sels                      map[*Term]bool
	nths                      map[*Term][]*Term
	listsOf                   map[*Term][]*Term
	done                      map[string]bool
}

func newCodecFacts() *codecFacts {
	return &codecFacts{isArg: map[*Term]bool{}, sels: map[*Term]bool{}, nths: map[*Term][]*Term{}, done: map[string]bool{}}
}

func (c *codecFacts) visit(x *Term) {
	if x.Op == "app" && (x.Name == "encl" || x.Name == "wfl" || x.Name == "fitsl") {
		if l := x.Args[0]; !c.isArg[l] {
			c.isArg[l] = true
			c.listArgs = append(c.listArgs, l)
			if l.Op == "listof" {
				c.listofs = append(c.listofs, l)
			}
		}
	}
	switch x.Op {
	case "sel":
		c.sels[x.Args[0]] = true
	case "nth":
		c.nths[x.Args[0]] = append(c.nths[x.Args[0]], x)
	case "select":
		c.nths[x.Args[0]] = append(c.nths[x.Args[0]], x)
	case "take":
		c.takes = append(c.takes, x)
	case "app":
		switch {
		case strings.HasPrefix(x.Name, "wf:"), strings.HasPrefix(x.Name, "fits:"):
			c.preds = append(c.preds, x)
		case x.Name == "wfl", x.Name == "fitsl":
			c.lists = append(c.lists, x)
		case x.Name == "contains":
			c.contains = append(c.contains, x)
		case strings.HasPrefix(x.Name, "enc:"), x.Name == "encl", x.Name == "vi":
			c.encs = append(c.encs, x)
		}
	}
}

func (c *codecFacts) next() []*Term {
	var out []*Term
	once := func(k string, f func() *Term) {
		if !c.done[k] {
			c.done[k] = true
			if t := f(); t != True {
				out = append(out, t)
			}
		}
	}
	for _, p := range c.preds {
		v := p.Args[0]
		p := p
		if v.Op != "rec" && !c.sels[v] {
			// a value without vectors always fits
			once(fmt.Sprint("fits ", p.ID), func() *Term {
				if strings.HasPrefix(p.Name, "fits:") && encDef[v.Sort] != nil && fitsDef(p.Args) == True {
					return p
				}
				return True
			})
			continue
		}
		if encDef[v.Sort] == nil {
			continue
		}
		once(fmt.Sprint("unfold ", p.ID), func() *Term {
			if strings.HasPrefix(p.Name, "wf:") {
				return Eq(p, wfDef[v.Sort](p.Args))
			}
			return Eq(p, fitsDef(p.Args))
		})
	}
	for _, p := range c.contains {
		p, l, y := p, p.Args[0], p.Args[1]
		L, in := l, func(i *Term) *Term { return Ult(i, Len(l)) }
		if l.Op == "take" {
			L, in = l.Args[0], func(i *Term) *Term { return And(Ult(i, l.Args[1]), Ult(i, Len(l.Args[0]))) }
		}
		once(fmt.Sprint("witness ", p.ID), func() *Term {
			w := App("indexof", "BV64", l, y)
			return Imp(p, And(in(w), Eq(Nth(L, w), y)))
		})
		for _, n := range c.nths[L] {
			n := n
			once(fmt.Sprint("member ", p.ID, " ", n.ID), func() *Term {
				return Imp(And(in(n.Args[1]), Eq(n, y)), p)
			})
		}
	}
	elem := func(p, x *Term) *Term {
		if p.Name == "wfl" {
			return Wf(x)
		}
		return Fits(x)
	}
	for _, p := range c.lists {
		p := p
		l := p.Args[0]
		for _, n := range c.nths[l] {
			n := n
			once(fmt.Sprint("nth ", p.ID, " ", n.ID), func() *Term {
				return Imp(And(p, Ult(n.Args[1], Len(l))), elem(p, n))
			})
		}
		if l.Op == "take" || l.Op == "drop" {
			for _, n := range c.nths[l.Args[0]] {
				n := n
				once(fmt.Sprint("nth ", p.ID, " ", n.ID), func() *Term {
					in := And(p, Ult(n.Args[1], Len(l.Args[0])))
					if l.Op == "take" {
						in = And(in, Ult(n.Args[1], l.Args[1]))
					} else {
						in = And(in, Ule(l.Args[1], n.Args[1]))
					}
					return Imp(in, elem(p, n))
				})
			}
		}
		if l.Op == "listof" {
			for _, n := range c.nths[l.Args[0]] {
				n := n
				once(fmt.Sprint("nth ", p.ID, " ", n.ID), func() *Term {
					return Imp(And(p, Ult(n.Args[1], l.Args[1])), elem(p, n))
				})
			}
		}
		for _, q := range c.lists {
			q := q
			if q.Name != p.Name || q == p {
				continue
			}
			m := q.Args[0]
			if l.Op == "listof" && m.Op == "listof" && l.Args[0] == m.Args[0] {
				once(fmt.Sprint("step ", p.ID, " ", q.ID), func() *Term {
					n, k := l.Args[1], m.Args[1]
					return And(Imp(And(p, Ule(k, n)), q), Imp(And(Ult(k, BV64(lenBound)), Eq(n, Add(k, BV64(1)))), Eq(p, And(q, elem(p, Select(l.Args[0], k))))))
				})
			}
			if (l.Op == "take" || l.Op == "drop") && l.Args[0] == m {
				once(fmt.Sprint("part ", p.ID, " ", q.ID), func() *Term { return Imp(q, p) })
			}
			// p on the longer, q on the shorter prefix
			if u, ok := stepTake(m, l); ok && m.Op == "take" {
				once(fmt.Sprint("step ", p.ID, " ", q.ID), func() *Term {
					last := m.Args[1]
					top := l.Args[1]
					if l.Op != "take" {
						top = Len(l)
					}
					parts := []*Term{q}
					for _, a := range atoms(u)[1:] {
						parts = append(parts, elem(p, a.Args[0]))
					}
					return Imp(And(Ule(top, Len(m.Args[0])), Ule(last, top)), Eq(p, And(parts...)))
				})
			}
		}
	}
	for _, p := range c.listofs {
		for _, q := range c.listArgs {
			p, q := p, q
			if p == q || p.Sort != q.Sort || q.Op == "listof" && q.ID > p.ID {
				continue
			}
			once(fmt.Sprint("ext ", p.ID, " ", q.ID), func() *Term {
				i := Bound("i", "BV64")
				return Or(rawEq(p, q), Not(Eq(Len(p), Len(q))), Not(Forall([]*Term{i}, Imp(Ult(i, Len(p)), Eq(Nth(p, i), Nth(q, i))))))
			})
		}
	}
	for _, t := range c.takes {
		t := t
		once(fmt.Sprint("take ", t.ID), func() *Term {
			return Imp(Eq(t.Args[1], Len(t.Args[0])), Eq(t, t.Args[0]))
		})
	}
	for _, e := range c.encs {
		e := e
		once(fmt.Sprint("len ", e.ID), func() *Term {
			switch {
			case e.Name == "vi":
				return And(Ule(BV64(1), Len(e)), Ule(Len(e), BV64(8)))
			case e.Name == "encl":
				return Imp(Wfl(e.Args[0]), Ule(Len(e.Args[0]), Len(e)))
			}
			if encDef[e.Args[0].Sort] == nil {
				return True
			}
			return Imp(Wf(e.Args[0], e.Args[1:]...), Ule(BV64(1), Len(e)))
		})
	}
	return out
}

// rawEq is an equation which is left as it is.
func rawEq(a, b *Term) *Term {
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("=", "", 0, "Bool", a, b)
}
