package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Clause is one requires, ensures or invariant line of a contract.
type Clause struct {
	src  string
	e    ast.Expr
	tags []string
	pos  string
	in   []string // loops for a candidate: those that call one of these
}

// Contract is the specification of a function.
type Contract struct {
	fn        string
	tags      []string
	requires  []*Clause
	ensures   []*Clause
	pool      []*Clause // loop invariant candidates
	modifies  []ast.Expr
	lets      []letDef
	unroll    int
	nilable   map[string]bool
	owns      map[string]bool
	fresh     bool     // results are not shared with anything
	inline    bool     // callers use the body
	expand    []string // functions whose body is used here
	trusted   string
	pure      bool
	kind      string // "", "decoder", "encoder"
	split     []*Clause
	limit     int
	patience  int // seconds for loop candidates that time out
	hints     []hint
	used      bool
	isLemma   bool
	params    []lemmaParam
	hide      []string
	noTerm    bool
	pos       string
	uses      []string
	safetyOff bool
	partial   bool      // panics and preconditions of calls are not considered
	part      bool      // a part of the contract of target, proved by itself
	parts     []*Clause // what the parts ensure
	measures  []*Clause
	target    string   // the function
	decreases *Clause  // termination measure of a recursive function
	codecE    ast.Expr // encoding, if it is not enc(x)
	codecW    ast.Expr // well-formedness of x, if the encoding is given
}

type letDef struct {
	name string
	e    ast.Expr
}

type lemmaParam struct {
	name string
	sort Sort
	typ  types.Type
}

type defMacro struct {
	params []string
	e      ast.Expr
}

type ufDecl struct {
	args []Sort
	res  Sort
}

var (
	contracts = map[string]*Contract{}
	lemmas    []*Contract
	defs      = map[string]*defMacro{}
	ufs       = map[string]*ufDecl{}
	ufDepth   = map[string]int{}
	ufFacts   = map[string][]*defMacro{} // instances for each application
	encSpec   = map[string]*defMacro{}
	wfSpec    = map[string]*defMacro{}
	specFiles []string
)

func specErr(pos, f string, a ...interface{}) error {
	return fmt.Errorf("%s: %s", pos, fmt.Sprintf(f, a...))
}

func loadSpecs(dir string) error {
	fs, err := filepath.Glob(filepath.Join(dir, "*.spec"))
	if err != nil {
		return err
	}
	sort.Strings(fs)
	for _, f := range fs {
		if err := loadSpec(f); err != nil {
			return err
		}
		specFiles = append(specFiles, f)
	}
	return joinParts()
}

// joinParts gives the parts of a contract what they share with it.
func joinParts() error {
	var names []string
	for n, c := range contracts {
		if c.part {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		c := contracts[n]
		base := contracts[c.target]
		if base == nil || len(c.requires) > 0 || len(c.lets) > 0 || len(c.modifies) > 0 {
			return specErr(c.pos, "part of a contract with a precondition, let or frame of its own")
		}
		c.requires, c.lets, c.modifies = base.requires, base.lets, base.modifies
		c.nilable, c.owns, c.fresh = base.nilable, base.owns, base.fresh
		c.split, c.decreases = base.split, base.decreases
		c.partial = base.partial
		base.parts = append(base.parts, c.ensures...)
	}
	for _, l := range lemmas {
		if l.target == "" {
			continue
		}
		base := contracts[l.target]
		if base == nil || len(base.modifies) > 0 || len(l.requires) > 0 {
			return specErr(l.pos, "lemma cannot extend the contract of %s", l.target)
		}
		l.requires = append(append(l.requires, base.requires...), base.ensures...)
		base.parts = append(base.parts, l.ensures...)
	}
	return nil
}

// hint is a step on the way to a proof: it is tried where the function calls
// at, and used from there on when it is proved.
type hint struct {
	at string
	c  *Clause
}

func parseE(src, pos string) (ast.Expr, error) {
	e, err := parser.ParseExpr(src)
	if err != nil {
		return nil, specErr(pos, "%v in %q", err, src)
	}
	return e, nil
}

func splitTags(head string) (string, []string) {
	if i := strings.IndexByte(head, '['); i >= 0 && strings.HasSuffix(head, "]") {
		var tags []string
		for _, t := range strings.Split(head[i+1:len(head)-1], ",") {
			tags = append(tags, strings.TrimSpace(t))
		}
		return head[:i], tags
	}
	return head, nil
}

func loadSpec(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var cur *Contract
	lines := strings.Split(string(data), "\n")
	var fileTags []string
	for n := 0; n < len(lines); n++ {
		line := strings.TrimSpace(lines[n])
		pos := fmt.Sprintf("%s:%d", filepath.Base(file), n+1)
		if line == "" || strings.HasPrefix(line, "#") {
			continue
		}
		// continuation lines end with a backslash
		for strings.HasSuffix(line, "\\") {
			n++
			line = strings.TrimSpace(strings.TrimSuffix(line, "\\")) + " " + strings.TrimSpace(lines[n])
		}
		head, rest := line, ""
		if i := strings.IndexByte(line, ' '); i >= 0 {
			head, rest = line[:i], strings.TrimSpace(line[i+1:])
		}
		head, tags := splitTags(head)
		var in []string
		if i := strings.IndexByte(head, '@'); i >= 0 {
			head, in = head[:i], strings.Split(head[i+1:], ",")
		}
		clause := func() (*Clause, error) {
			e, err := parseE(rest, pos)
			if err != nil {
				return nil, err
			}
			return &Clause{src: rest, e: e, tags: tags, pos: pos, in: in}, nil
		}
		needCur := func() error {
			if cur == nil {
				return specErr(pos, "%s outside of a function", head)
			}
			return nil
		}
		switch head {
		case "filetags":
			fileTags = strings.Fields(rest)
			continue
		case "func":
			target := rest
			part := false
			if w := strings.Fields(rest); len(w) == 3 && (w[1] == "variant" || w[1] == "part") {
				// a further contract of the function; callers use parts only
				target, rest = w[0], w[0]+"~"+w[2]
				part = w[1] == "part"
			}
			cur = &Contract{fn: rest, target: target, part: part, nilable: map[string]bool{}, owns: map[string]bool{}, pos: pos, tags: fileTags}
			if contracts[rest] != nil {
				return specErr(pos, "duplicate contract for %s", rest)
			}
			contracts[rest] = cur
			continue
		case "lemma":
			i := strings.IndexByte(rest, '(')
			name := strings.TrimSpace(rest[:i])
			cur = &Contract{fn: "lemma:" + name, isLemma: true, nilable: map[string]bool{}, owns: map[string]bool{}, pos: pos, tags: fileTags}
			for _, p := range strings.Split(strings.TrimSuffix(rest[i+1:], ")"), ",") {
				w := strings.Fields(p)
				if len(w) != 2 {
					return specErr(pos, "lemma parameter %q", p)
				}
				cur.params = append(cur.params, lemmaParam{name: w[0], sort: specSort(w[1])})
			}
			lemmas = append(lemmas, cur)
			continue
		case "def", "fact", "enc", "wf":
			i := strings.IndexByte(rest, '=')
			for i >= 0 && i+1 < len(rest) && rest[i+1] == '=' {
				j := strings.IndexByte(rest[i+2:], '=')
				i = i + 2 + j
			}
			sig, body := strings.TrimSpace(rest[:i]), strings.TrimSpace(rest[i+1:])
			j := strings.IndexByte(sig, '(')
			name := strings.TrimSpace(sig[:j])
			var ps []string
			for _, p := range strings.Split(strings.TrimSuffix(sig[j+1:], ")"), ",") {
				if p = strings.TrimSpace(p); p != "" {
					ps = append(ps, p)
				}
			}
			e, err := parseE(body, pos)
			if err != nil {
				return err
			}
			d := &defMacro{ps, e}
			switch head {
			case "def":
				defs[name] = d
			case "fact":
				ufFacts[name] = append(ufFacts[name], d)
			case "enc":
				encSpec[name] = d
			case "wf":
				wfSpec[name] = d
			}
			continue
		case "uf":
			j := strings.IndexByte(rest, '(')
			k := strings.IndexByte(rest, ')')
			name := rest[:j]
			res := strings.TrimSpace(rest[k+1:])
			if i := strings.Index(res, " unfold "); i >= 0 {
				// how deep the facts of the function are unfolded
				d, err := strconv.Atoi(strings.TrimSpace(res[i+8:]))
				if err != nil {
					return err
				}
				ufDepth[name] = d
				res = res[:i]
			}
			u := &ufDecl{res: specSort(res)}
			for _, p := range strings.Split(rest[j+1:k], ",") {
				if p = strings.TrimSpace(p); p != "" {
					u.args = append(u.args, specSort(p))
				}
			}
			ufs[name] = u
			continue
		}
		if err := needCur(); err != nil {
			return err
		}
		switch head {
		case "tags":
			cur.tags = strings.Fields(rest)
		case "extends":
			// a lemma whose conclusion follows from the contract of a function
			cur.target = rest
		case "requires":
			c, err := clause()
			if err != nil {
				return err
			}
			cur.requires = append(cur.requires, c)
		case "ensures":
			c, err := clause()
			if err != nil {
				return err
			}
			cur.ensures = append(cur.ensures, c)
		case "invariant":
			c, err := clause()
			if err != nil {
				return err
			}
			cur.pool = append(cur.pool, c)
		case "ghost":
			w := strings.Fields(rest)
			if len(w) != 2 {
				return specErr(pos, "ghost parameter %q", rest)
			}
			cur.params = append(cur.params, lemmaParam{name: w[0], sort: specSort(w[1])})
		case "decreases":
			c, err := clause()
			if err != nil {
				return err
			}
			cur.decreases = c
		case "measure":
			c, err := clause()
			if err != nil {
				return err
			}
			cur.measures = append(cur.measures, c)
		case "split":
			c, err := clause()
			if err != nil {
				return err
			}
			cur.split = append(cur.split, c)
		case "let":
			i := strings.IndexByte(rest, '=')
			e, err := parseE(strings.TrimSpace(rest[i+1:]), pos)
			if err != nil {
				return err
			}
			cur.lets = append(cur.lets, letDef{strings.TrimSpace(rest[:i]), e})
		case "modifies":
			for _, m := range strings.Split(rest, ",") {
				e, err := parseE(strings.TrimSpace(m), pos)
				if err != nil {
					return err
				}
				cur.modifies = append(cur.modifies, e)
			}
		case "unroll":
			cur.unroll, _ = strconv.Atoi(rest)
		case "limit":
			cur.limit, _ = strconv.Atoi(rest)
		case "patience":
			cur.patience, _ = strconv.Atoi(rest)
		case "hint":
			i := strings.IndexByte(rest, ':')
			if i < 0 {
				return specErr(pos, "hint without a function")
			}
			at := strings.TrimSpace(rest[:i])
			rest = rest[i+1:]
			c, err := clause()
			if err != nil {
				return err
			}
			cur.hints = append(cur.hints, hint{at, c})
		case "nilable":
			for _, w := range strings.Fields(rest) {
				cur.nilable[w] = true
			}
		case "owns":
			for _, w := range strings.Fields(rest) {
				cur.owns[w] = true
			}
		case "fresh":
			cur.fresh = true
		case "inline":
			cur.inline = true
		case "expand":
			cur.expand = append(cur.expand, strings.Fields(rest)...)
		case "pure":
			cur.pure = true
		case "trusted":
			cur.trusted = rest
		case "partial":
			cur.partial = true
		case "noterm":
			cur.noTerm = true
		case "hide":
			// functions whose defining facts the proof does without
			cur.hide = append(cur.hide, strings.Fields(rest)...)
		case "wellformed":
			e, err := parseE(rest, pos)
			if err != nil {
				return err
			}
			cur.codecW = e
		case "decoder", "encoder", "parser":
			cur.kind = head
			if rest != "" {
				e, err := parseE(rest, pos)
				if err != nil {
					return err
				}
				cur.codecE = e
			}
		case "uses":
			cur.uses = append(cur.uses, strings.Fields(rest)...)
		default:
			return specErr(pos, "unknown keyword %q", head)
		}
	}
	return nil
}

func specSort(s string) Sort {
	switch s {
	case "bool":
		return "Bool"
	case "uint8", "byte":
		return "BV8"
	case "uint16":
		return "BV16"
	case "uint32":
		return "BV32"
	case "uint64", "int":
		return "BV64"
	case "bytes":
		return "Bytes"
	}
	if strings.HasPrefix(s, "[]") {
		return "S." + specSort(s[2:])
	}
	if strings.HasPrefix(s, "*") {
		return "O." + specSort(s[1:])
	}
	if strings.HasPrefix(s, "arr.") {
		return ArrSort("BV64", specSort(s[4:]))
	}
	if strings.HasPrefix(s, "set.") {
		return ArrSort(specSort(s[4:]), "Bool")
	}
	if strings.HasPrefix(s, "U.") || strings.HasPrefix(s, "A.") {
		return s
	}
	if mlsPkg != nil {
		if o := mlsPkg.Pkg.Scope().Lookup(s); o != nil {
			if t := sortOf(o.Type()); t != "" {
				return t
			}
		}
	}
	return "U." + s
}

// ---- evaluation ----

// Env is the context of a specification expression.
type Env struct {
	x      *Ex
	st     *State
	old    *State
	names  map[string]Value
	fr     *Frame // locals, for invariants
	bound  map[string]*Term
	oldn   map[string]Value
	loopSt *State
	loopFr *Frame
	depth  int
}

// VConst is an untyped number.
type VConst struct{ v uint64 }

type specError struct{ msg string }

func bad(f string, a ...interface{}) specError { return specError{fmt.Sprintf(f, a...)} }

// evalBool evaluates a clause to a formula.
func (e *Env) evalBool(x ast.Expr) *Term {
	v := e.eval(x)
	switch v := v.(type) {
	case VT:
		if v.t.Sort == "Bool" {
			return v.t
		}
	}
	panic(bad("not a condition: %s", exprStr(x)))
}

func exprStr(x ast.Expr) string { return types.ExprString(x) }

func (e *Env) term(v Value, s Sort) *Term {
	switch v := v.(type) {
	case VConst:
		if !isBV(s) {
			s = "BV64"
		}
		return BV(v.v, s)
	case VT:
		return v.t
	case VBytes:
		if s == "O.Bytes" {
			return Ite(e.st.bytesNil(v), None("Bytes"), Some(e.st.bytes(v)))
		}
		return e.st.bytes(v)
	case VList:
		return e.st.list(v)
	case VOpt:
		return v.t
	case VView:
		if strings.HasPrefix(s, "O.") {
			return Some(v.t)
		}
		return v.t
	case VElem:
		t := e.term(e.st.loadElem(v), "")
		if strings.HasPrefix(s, "O.") {
			return Some(t)
		}
		return t
	case VErr:
		return Not(v.nilf)
	case VPtr:
		if v.obj == 0 {
			if strings.HasPrefix(s, "O.") {
				return None(s[2:])
			}
			panic(bad("nil where %s is expected", s))
		}
		c := e.st.loadPath(v.obj, v.path)
		if strings.HasPrefix(s, "O.") {
			return Some(e.term(c, s[2:]))
		}
		return e.term(c, s)
	case VStruct:
		so := s
		if !strings.HasPrefix(so, "R.") {
			so = sortOf(v.typ)
		}
		if so == "" {
			panic(bad("struct %s is not a value", v.typ))
		}
		return e.st.peekTerm(v, so)
	case VArr:
		c := e.st.heap[v.obj].(VArrC)
		return c.arr
	case VArrVal:
		return v.arr
	case VMap:
		c, ok := e.st.heap[v.obj].(VMapC)
		if !ok {
			if v.nilf == True && s != "" {
				return ConstArr(s, False)
			}
			panic(bad("no value for a map"))
		}
		return c.dom
	case VBuilder:
		return v.out
	case VFunc:
		return App("func:"+v.ext, "U.func")
	case VIface:
		if s == "" {
			s = "U.signatureScheme"
		}
		return e.st.peekTerm(v, s)
	}
	panic(bad("no term for %T", v))
}

func valSort(v Value) Sort {
	switch v := v.(type) {
	case VT:
		return v.t.Sort
	case VBytes:
		return "Bytes"
	case VList:
		if v.s != nil {
			return v.s.Sort
		}
	case VOpt:
		return v.t.Sort
	case VView:
		return "O." + v.t.Sort
	case VStruct:
		return sortOf(v.typ)
	}
	return ""
}

func (e *Env) lookup(name string) (Value, bool) {
	if t, ok := e.bound[name]; ok {
		return VT{t}, true
	}
	if v, ok := e.names[name]; ok {
		return v, true
	}
	for f := e.fr; f != nil; f = f.up {
		if v, ok := f.names[name]; ok {
			return v, true
		}
		if v, ok := f.addrs[name]; ok {
			if p, ok := v.(VPtr); ok {
				if _, ok := e.st.heap[p.obj]; ok {
					return e.st.loadPath(p.obj, p.path), true
				}
			}
		}
	}
	if d, ok := defs[name]; ok && len(d.params) == 0 {
		return e.eval(d.e), true
	}
	if o := mlsPkg.Pkg.Scope().Lookup(name); o != nil {
		if c, ok := o.(*types.Const); ok {
			s := sortOf(c.Type())
			if isBV(s) {
				if u, ok := uint64Const(c); ok {
					return VT{BV(u, s)}, true
				}
			}
		}
		if _, ok := o.(*types.Var); ok {
			if g := mlsPkg.Var(name); g != nil {
				p := e.x.global(e.st, g).(VPtr)
				return e.st.loadPath(p.obj, nil), true
			}
		}
	}
	return nil, false
}

func (e *Env) eval(x ast.Expr) Value {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			v, err := strconv.ParseUint(x.Value, 0, 64)
			if err != nil {
				panic(bad("number %s", x.Value))
			}
			return VConst{v}
		case token.STRING:
			s, err := strconv.Unquote(x.Value)
			if err != nil {
				panic(bad("string %s", x.Value))
			}
			return VBytes{nilf: False, s: BytesConst(s)}
		}
	case *ast.Ident:
		switch x.Name {
		case "true":
			return VT{True}
		case "false":
			return VT{False}
		case "nil":
			return VPtr{}
		}
		if v, ok := e.lookup(x.Name); ok {
			return v
		}
		panic(bad("unknown name %s", x.Name))
	case *ast.UnaryExpr:
		v := e.eval(x.X)
		switch x.Op {
		case token.NOT:
			return VT{Not(e.term(v, "Bool"))}
		case token.SUB:
			if c, ok := v.(VConst); ok {
				return VConst{-c.v}
			}
			t := e.term(v, "")
			return VT{Sub(BV(0, t.Sort), t)}
		case token.XOR:
			t := e.term(v, "")
			return VT{BVOp("bvxor", t, BV(^uint64(0), t.Sort))}
		}
	case *ast.StarExpr:
		return e.deref(e.eval(x.X))
	case *ast.BinaryExpr:
		return e.binary(x)
	case *ast.SelectorExpr:
		return e.selector(e.eval(x.X), x.Sel.Name)
	case *ast.IndexExpr:
		v := e.deref(e.eval(x.X))
		i := e.term(e.eval(x.Index), "BV64")
		switch b := v.(type) {
		case VArrVal:
			return VT{Select(b.arr, Resize(i, "BV64", false))}
		case VArr:
			c := e.st.heap[b.obj].(VArrC)
			return VT{Select(c.arr, Resize(i, "BV64", false))}
		case VMap:
			c := e.st.heap[b.obj].(VMapC)
			if c.val == "" {
				return VT{Select(c.dom, e.term(e.eval(x.Index), c.key))}
			}
			k := e.term(e.eval(x.Index), c.key)
			if isBV(c.val) {
				return VT{Ite(Select(c.dom, k), Select(c.m, k), BV(0, c.val))}
			}
			return VT{Select(c.m, k)}
		}
		t := e.term(v, "")
		if strings.HasPrefix(t.Sort, "A.") {
			ks, _ := arrSorts(t.Sort)
			k := e.term(e.eval(x.Index), ks)
			if ks == "BV64" {
				k = Resize(k, ks, false)
			}
			return VT{Select(t, k)}
		}
		return VT{Nth(t, Resize(i, "BV64", false))}
	case *ast.SliceExpr:
		t := e.term(e.eval(x.X), "")
		lo, hi := BV64(0), Len(t)
		if x.Low != nil {
			lo = Resize(e.term(e.eval(x.Low), "BV64"), "BV64", false)
		}
		if x.High != nil {
			hi = Resize(e.term(e.eval(x.High), "BV64"), "BV64", false)
		}
		return VT{Take(Drop(t, lo), Sub(hi, lo))}
	case *ast.CallExpr:
		return e.call(x)
	}
	panic(bad("unsupported expression %s", exprStr(x)))
}

func (e *Env) deref(v Value) Value {
	switch p := v.(type) {
	case VPtr:
		if p.obj == 0 {
			panic(bad("nil dereference"))
		}
		return e.st.loadPath(p.obj, p.path)
	case VOpt:
		return VT{Unsome(p.t)}
	case VView:
		return VT{p.t}
	case VElem:
		return e.st.loadElem(p)
	case VFieldOf:
		v := e.deref(p.base)
		for _, i := range p.path {
			v = e.st.field(v, i)
		}
		return v
	case VT:
		if strings.HasPrefix(p.t.Sort, "O.") {
			return VT{Unsome(p.t)}
		}
	}
	return v
}

func (e *Env) selector(v Value, name string) Value {
	v = e.deref(v)
	switch v := v.(type) {
	case VStruct:
		u := v.typ.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return e.st.normV(v.f[i])
			}
		}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Embedded() {
				return e.selector(v.f[i], name)
			}
		}
	case VT:
		for i, f := range recTab[v.t.Sort] {
			if f.name == name {
				t := Sel(v.t, i)
				return VT{t}
			}
		}
	case VBuilder:
		switch name {
		case "out":
			return VT{v.out}
		case "err":
			return VT{v.err}
		}
	case VTuple:
	}
	panic(bad("no field %s in %s", name, vstr(v)))
}

func (e *Env) binary(x *ast.BinaryExpr) Value {
	switch x.Op {
	case token.LAND:
		a := e.evalBool(x.X)
		if a == False {
			return VT{False}
		}
		return VT{And(a, e.evalBool(x.Y))}
	case token.LOR:
		a := e.evalBool(x.X)
		if a == True {
			return VT{True}
		}
		return VT{Or(a, e.evalBool(x.Y))}
	}
	a, b := e.eval(x.X), e.eval(x.Y)
	if x.Op == token.EQL || x.Op == token.NEQ {
		t := e.equal(a, b)
		if x.Op == token.NEQ {
			t = Not(t)
		}
		return VT{t}
	}
	ca, ok1 := a.(VConst)
	cb, ok2 := b.(VConst)
	if ok1 && ok2 {
		a = VT{BV64(ca.v)}
		_ = cb
	}
	var p, q *Term
	if _, ok := a.(VConst); ok {
		q = e.term(b, "BV64")
		p = e.term(a, q.Sort)
	} else {
		p = e.term(a, "BV64")
		q = e.term(b, p.Sort)
	}
	shift := x.Op == token.SHL || x.Op == token.SHR
	if !shift && p.Sort != q.Sort {
		panic(bad("sorts %s and %s in %s", p.Sort, q.Sort, exprStr(x)))
	}
	if !isBV(p.Sort) {
		if x.Op == token.ADD && isSeq(p.Sort) {
			return VT{Cat(p, q)}
		}
		panic(bad("operator on %s in %s", p.Sort, exprStr(x)))
	}
	signed := p.Sort == "BV64"
	cmp := func(s, u string, a, b *Term) Value {
		if signed {
			return VT{Cmp(s, a, b)}
		}
		return VT{Cmp(u, a, b)}
	}
	var r *Term
	switch x.Op {
	case token.ADD:
		r = Add(p, q)
	case token.SUB:
		r = Sub(p, q)
	case token.MUL:
		r = BVOp("bvmul", p, q)
	case token.QUO:
		r = BVOp("bvudiv", p, q)
	case token.REM:
		r = BVOp("bvurem", p, q)
	case token.AND:
		r = BVOp("bvand", p, q)
	case token.OR:
		r = BVOp("bvor", p, q)
	case token.XOR:
		r = BVOp("bvxor", p, q)
	case token.SHL:
		r = goShift("bvshl", p, q)
	case token.SHR:
		r = goShift("bvlshr", p, q)
	case token.LSS:
		return cmp("bvslt", "bvult", p, q)
	case token.LEQ:
		return cmp("bvsle", "bvule", p, q)
	case token.GTR:
		return cmp("bvslt", "bvult", q, p)
	case token.GEQ:
		return cmp("bvsle", "bvule", q, p)
	default:
		panic(bad("operator %s", x.Op))
	}
	if ok1 && ok2 && r.Op == "bv" {
		return VConst{r.Val}
	}
	return VT{r}
}

func isNilV(v Value) bool {
	p, ok := v.(VPtr)
	return ok && p.obj == 0
}

func (e *Env) equal(a, b Value) *Term {
	if isNilV(b) {
		return e.nilOf(a)
	}
	if isNilV(a) {
		return e.nilOf(b)
	}
	s := valSort(a)
	if s == "" || isBV(s) {
		if t := valSort(b); t != "" {
			s = t
		}
	}
	if strings.HasPrefix(valSort(b), "O.") || strings.HasPrefix(valSort(a), "O.") {
		// pointers compare by value
		so := valSort(a)
		if !strings.HasPrefix(so, "O.") {
			so = valSort(b)
		}
		s = so
	}
	if va, ok := a.(VStruct); ok {
		if sortOf(va.typ) == "" {
			vb, ok := b.(VStruct)
			if !ok {
				panic(bad("comparison of structs"))
			}
			r := True
			for i := range va.f {
				r = And(r, e.equal(va.f[i], vb.f[i]))
			}
			return r
		}
	}
	if va, ok := e.arrVal(a); ok {
		if vb, ok := e.arrVal(b); ok {
			return And(Eq(va.len, vb.len), Eq(va.arr, vb.arr))
		}
	}
	if ca, ok := a.(VConst); ok {
		if cb, ok := b.(VConst); ok {
			return Bool(ca.v == cb.v)
		}
	}
	p, q := e.term(a, s), e.term(b, s)
	if p.Sort != q.Sort {
		panic(bad("comparison of %s and %s", p.Sort, q.Sort))
	}
	return Eq(p, q)
}

func (e *Env) arrVal(v Value) (VArrVal, bool) {
	switch v := v.(type) {
	case VArr:
		return VArrVal{e.st.heap[v.obj].(VArrC).arr, v.len}, true
	case VArrVal:
		return v, true
	case VPtr:
		if v.obj != 0 {
			return e.arrVal(e.st.loadPath(v.obj, v.path))
		}
	}
	return VArrVal{}, false
}

func (e *Env) nilOf(v Value) *Term {
	if t, ok := v.(VT); ok {
		if strings.HasPrefix(t.t.Sort, "O.") {
			return IsNone(t.t)
		}
		if isSeq(t.t.Sort) {
			return e.x.isNil(e.st, VBytes{s: t.t})
		}
	}
	return e.x.isNil(e.st, v)
}

func (e *Env) sub() *Env {
	n := *e
	n.names = map[string]Value{}
	for k, v := range e.names {
		n.names[k] = v
	}
	n.bound = map[string]*Term{}
	for k, v := range e.bound {
		n.bound[k] = v
	}
	return &n
}

// inState evaluates in another state.
func (e *Env) inState(st *State, x ast.Expr) Value {
	n := e.sub()
	n.st = st
	if e.oldn != nil {
		n.names = map[string]Value{}
		for k, v := range e.oldn {
			n.names[k] = v
		}
		n.fr = nil
	}
	v := n.eval(x)
	// detach the value from the heap of that state
	return n.detach(v)
}

func (e *Env) detach(v Value) Value {
	switch v := v.(type) {
	case VBytes:
		return VBytes{nilf: v.nilf, s: e.st.bytes(v)}
	case VList:
		return VList{nilf: v.nilf, s: e.st.list(v)}
	case VArr:
		c := e.st.heap[v.obj].(VArrC)
		return VArrVal{c.arr, v.len}
	case VPtr:
		if v.obj == 0 {
			return v
		}
		return e.detach(e.st.loadPath(v.obj, v.path))
	case VStruct:
		if s := sortOf(v.typ); s != "" {
			return VT{e.st.peekTerm(v, s)}
		}
		f := make([]Value, len(v.f))
		for i := range f {
			f[i] = e.detach(v.f[i])
		}
		return VStruct{v.typ, f}
	case VMap:
		if c, ok := e.st.heap[v.obj].(VMapC); ok {
			return VT{c.dom}
		}
	case VElem:
		return e.detach(e.st.loadElem(v))
	}
	return v
}

// VArrVal is the value of a tree in some state.
type VArrVal struct{ arr, len *Term }

func (e *Env) call(x *ast.CallExpr) Value {
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		panic(bad("call of %s", exprStr(x.Fun)))
	}
	n := id.Name
	arg := func(i int) Value { return e.eval(x.Args[i]) }
	targ := func(i int, s Sort) *Term { return e.term(arg(i), s) }
	need := func(k int) {
		if len(x.Args) != k {
			panic(bad("%s takes %d arguments", n, k))
		}
	}
	switch n {
	case "old":
		need(1)
		if e.old == nil {
			return e.eval(x.Args[0])
		}
		return e.inState(e.old, x.Args[0])
	case "atentry":
		need(1)
		n := e.sub()
		n.st, n.fr = e.loopSt, e.loopFr
		n.names = map[string]Value{}
		return n.detach(n.eval(x.Args[0]))
	case "len":
		need(1)
		v := e.deref(arg(0))
		if a, ok := v.(VArr); ok {
			return VT{a.len}
		}
		if a, ok := v.(VArrVal); ok {
			return VT{a.len}
		}
		return VT{Len(e.term(v, ""))}
	case "arr":
		need(1)
		v := e.deref(arg(0))
		switch a := v.(type) {
		case VArr:
			return VT{e.st.heap[a.obj].(VArrC).arr}
		case VArrVal:
			return VT{a.arr}
		}
		panic(bad("arr of %T", v))
	case "owned":
		// owned(t): the positions of an array whose nodes nothing else refers to
		need(1)
		if a, ok := e.deref(arg(0)).(VArr); ok {
			if c := e.st.heap[a.obj].(VArrC); c.fresh != nil {
				return VT{c.fresh}
			}
		}
		return VT{ConstArr(ArrSort("BV64", "Bool"), False)}
	case "isnil":
		need(1)
		return VT{e.nilOf(arg(0))}
	case "implies":
		need(2)
		a := e.evalBool(x.Args[0])
		if a == False {
			return VT{True}
		}
		return VT{Imp(a, e.evalBool(x.Args[1]))}
	case "iff":
		need(2)
		return VT{Eq(e.evalBool(x.Args[0]), e.evalBool(x.Args[1]))}
	case "ite":
		need(3)
		c := e.evalBool(x.Args[0])
		if c == True {
			return arg(1)
		}
		if c == False {
			return arg(2)
		}
		a, b := arg(1), arg(2)
		s := valSort(a)
		if s == "" {
			s = valSort(b)
		}
		return VT{Ite(c, e.term(a, s), e.term(b, s))}
	case "forall", "exists":
		// forall(i, lo, hi, body) over 64-bit numbers, or forall(i, sort, body)
		name := x.Args[0].(*ast.Ident).Name
		e2 := e.sub()
		var v, rng *Term
		var body ast.Expr
		if len(x.Args) == 4 {
			lo, hi := e.term(arg(1), "BV64"), e.term(arg(2), "BV64")
			if lo.Op == "bv" && lo.Sort != hi.Sort {
				lo = BV(lo.Val, hi.Sort)
			}
			e.depth++
			v = Bound(fmt.Sprintf("%s.%d", name, e.bdepth()), hi.Sort)
			if hi.Sort == "BV64" {
				rng = And(Sle(lo, v), Slt(v, hi))
			} else {
				rng = And(Ule(lo, v), Ult(v, hi))
			}
			body = x.Args[3]
		} else {
			need(3)
			v = Bound(fmt.Sprintf("%s.%d", name, e.bdepth()), specSort(exprStr(x.Args[1])))
			rng = True
			body = x.Args[2]
		}
		e2.bound[name] = v
		t := e2.evalBool(body)
		if n == "forall" {
			return VT{Forall([]*Term{v}, Imp(rng, t))}
		}
		return VT{Exists([]*Term{v}, And(rng, t))}
	case "cat":
		var p []*Term
		for i := range x.Args {
			p = append(p, targ(i, "Bytes"))
		}
		return VT{Cat(p...)}
	case "take":
		need(2)
		return VT{Take(targ(0, ""), Resize(targ(1, "BV64"), "BV64", false))}
	case "drop":
		need(2)
		return VT{Drop(targ(0, ""), Resize(targ(1, "BV64"), "BV64", false))}
	case "vi":
		need(1)
		return VT{Vi(Resize(targ(0, "BV64"), "BV64", false))}
	case "opq":
		need(1)
		return VT{Opq(targ(0, "Bytes"))}
	case "vec":
		need(1)
		return VT{Enc(targ(0, ""))}
	case "enc":
		v := arg(0)
		switch v.(type) {
		case VPtr, VView:
			v = e.deref(v)
		}
		var extra []*Term
		for i := 1; i < len(x.Args); i++ {
			extra = append(extra, targ(i, ""))
		}
		return VT{Enc(e.term(v, ""), extra...)}
	case "encl":
		need(1)
		return VT{Encl(targ(0, ""))}
	case "opt":
		need(1)
		return VT{Enc(e.term(arg(0), ""))}
	case "wf":
		var extra []*Term
		for i := 1; i < len(x.Args); i++ {
			extra = append(extra, e.term(arg(i), ""))
		}
		return VT{Wf(e.term(e.deref(arg(0)), ""), extra...)}
	case "fits":
		var extra []*Term
		for i := 1; i < len(x.Args); i++ {
			extra = append(extra, e.term(arg(i), ""))
		}
		return VT{Fits(e.term(e.deref(arg(0)), ""), extra...)}
	case "fitsof":
		need(1)
		return VT{fitsOf(targ(0, "Bytes"))}
	case "be":
		need(1)
		return VT{BE(targ(0, "BV64"))}
	case "some":
		need(1)
		return VT{Some(e.term(e.deref(arg(0)), ""))}
	case "none":
		need(1)
		return VT{None(specSort(exprStr(x.Args[0])))}
	case "unit":
		need(1)
		return VT{Unit(e.term(e.deref(arg(0)), ""))}
	case "empty":
		if len(x.Args) == 0 {
			return VT{Eps("Bytes")}
		}
		need(1)
		return VT{Eps(specSort(strings.Trim(exprStr(x.Args[0]), "\"")))}
	case "contains":
		need(2)
		l := targ(0, "")
		return VT{Contains(l, targ(1, elemSort(l.Sort)))}
	case "upd":
		need(3)
		l := targ(0, "")
		return VT{Upd(l, targ(1, "BV64"), targ(2, elemSort(l.Sort)))}
	case "store":
		need(3)
		a := targ(0, "")
		ks, vs := arrSorts(a.Sort)
		return VT{Store(a, targ(1, ks), targ(2, vs))}
	case "sel":
		need(2)
		a := targ(0, "")
		ks, _ := arrSorts(a.Sort)
		return VT{Select(a, targ(1, ks))}
	case "dom":
		need(1)
		m := e.deref(arg(0)).(VMap)
		return VT{e.st.heap[m.obj].(VMapC).dom}
	case "mapof":
		need(1)
		m := e.deref(arg(0)).(VMap)
		return VT{e.st.heap[m.obj].(VMapC).m}
	case "clock":
		// clock(f): the time the clock function f reports, time.Now for nil
		need(1)
		return VT{clockOf(e.deref(arg(0)).(VFunc))}
	case "emptyset":
		need(1)
		return VT{ConstArr(ArrSort(specSort(exprStr(x.Args[0])), "Bool"), False)}
	case "listof":
		need(2)
		return VT{ListOf(targ(0, ""), targ(1, "BV64"))}
	case "zeros":
		need(1)
		return VT{App("zeros", "Bytes", targ(0, "BV64"))}
	case "dyn":
		// dyn(I, T, f1, f2, ...): a T as an I
		var a []*Term
		for i := 2; i < len(x.Args); i++ {
			a = append(a, e.term(arg(i), ""))
		}
		return VT{App("dyn:"+exprStr(x.Args[1]), specSort(exprStr(x.Args[0])), a...)}
	case "mk":
		// mk(T, f1, f2, ...) record
		s := specSort(exprStr(x.Args[0]))
		fs := recTab[s]
		if len(fs) != len(x.Args)-1 {
			panic(bad("mk %s takes %d fields", s, len(fs)))
		}
		var a []*Term
		for i := 1; i < len(x.Args); i++ {
			a = append(a, e.term(arg(i), fs[i-1].sort))
		}
		return VT{Rec(s, a...)}
	case "with":
		// with(r, field, value)
		r := e.term(e.deref(arg(0)), "")
		fn := x.Args[1].(*ast.Ident).Name
		fs := recTab[r.Sort]
		var a []*Term
		for i, f := range fs {
			if f.name == fn {
				a = append(a, e.term(arg(2), f.sort))
			} else {
				a = append(a, Sel(r, i))
			}
		}
		return VT{Rec(r.Sort, a...)}
	case "uint8", "uint16", "uint32", "uint64", "int":
		need(1)
		return VT{Resize(targ(0, "BV64"), specSort(n), false)}
	case "ult":
		need(2)
		a := targ(0, "BV64")
		return VT{Ult(a, targ(1, a.Sort))}
	case "ule":
		need(2)
		a := targ(0, "BV64")
		return VT{Ule(a, targ(1, a.Sort))}
	}
	if d, ok := defs[n]; ok {
		if len(x.Args) != len(d.params) {
			panic(bad("%s takes %d arguments", n, len(d.params)))
		}
		e2 := e.sub()
		e2.names = map[string]Value{}
		e2.bound = map[string]*Term{}
		e2.fr = nil
		e2.oldn = nil
		e2.depth = e.depth + 1
		if e2.depth > 200 {
			panic(bad("recursive definition %s", n))
		}
		for i, p := range d.params {
			e2.names[p] = arg(i)
		}
		return e2.eval(d.e)
	}
	if u, ok := ufs[n]; ok {
		if len(x.Args) != len(u.args) {
			panic(bad("%s takes %d arguments", n, len(u.args)))
		}
		var a []*Term
		for i := range x.Args {
			v := arg(i)
			if !strings.HasPrefix(u.args[i], "O.") {
				v = e.deref(v)
			}
			t := e.term(v, u.args[i])
			if t.Sort != u.args[i] {
				panic(bad("argument %d of %s has sort %s, not %s", i, n, t.Sort, u.args[i]))
			}
			a = append(a, t)
		}
		return VT{App(n, u.res, a...)}
	}
	panic(bad("unknown function %s", n))
}

var bcount int

func (e *Env) bdepth() int {
	// bound variables only need to differ from enclosing ones
	return len(e.bound)
}

func uint64Const(c *types.Const) (uint64, bool) {
	s := c.Val().ExactString()
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		i, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return 0, false
		}
		return uint64(i), true
	}
	return v, true
}
