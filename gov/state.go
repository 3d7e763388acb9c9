package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// State is the symbolic state of one execution path.
type State struct {
	subst  map[*Term]*Term // oriented equations, applied exhaustively
	memo   map[*Term]*Term
	facts  []*Term
	heap   map[int]Value
	frozen map[int]bool
	// objects a contract does not allow to write
	readonly map[int]bool
	viewW    map[int]int  // writes through pointers into trees
	used     map[int]bool // slices already appended to
	store    map[int]bool // objects that back a byte slice
	trail    []string
	dead     bool
}

var nextObj int

func newState() *State {
	return &State{
		subst:  map[*Term]*Term{},
		memo:   map[*Term]*Term{},
		heap:   map[int]Value{},
		frozen: map[int]bool{},

		readonly: map[int]bool{},
		viewW:    map[int]int{},
		used:     map[int]bool{},
		store:    map[int]bool{},
	}
}

func (st *State) clone() *State {
	n := &State{
		subst:  make(map[*Term]*Term, len(st.subst)),
		memo:   st.memo,
		facts:  st.facts[:len(st.facts):len(st.facts)],
		heap:   make(map[int]Value, len(st.heap)),
		frozen: make(map[int]bool, len(st.frozen)),
		trail:  st.trail[:len(st.trail):len(st.trail)],
		dead:   st.dead,
	}
	for k, v := range st.subst {
		n.subst[k] = v
	}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.frozen {
		n.frozen[k] = v
	}
	n.readonly = make(map[int]bool, len(st.readonly))
	for k, v := range st.readonly {
		n.readonly[k] = v
	}
	n.viewW = make(map[int]int, len(st.viewW))
	for k, v := range st.viewW {
		n.viewW[k] = v
	}
	n.store = make(map[int]bool, len(st.store))
	for k, v := range st.store {
		n.store[k] = v
	}
	n.used = make(map[int]bool, len(st.used))
	for k, v := range st.used {
		n.used[k] = v
	}
	return n
}

func (st *State) alloc(v Value) int {
	nextObj++
	st.heap[nextObj] = v
	return nextObj
}

// norm rewrites a term by the equations of the path.
func (st *State) norm(t *Term) *Term {
	if r, ok := st.memo[t]; ok {
		return r
	}
	var r *Term
	if len(t.Args) == 0 {
		r = t
	} else {
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = st.norm(a)
		}
		r = rebuild(t, args)
	}
	if s, ok := st.subst[r]; ok {
		r = st.norm(s)
	} else if r != t {
		// rebuilding can expose new redexes
		if x, ok := st.memo[r]; ok {
			r = x
		} else {
			st.memo[t] = r // guard
			r = st.norm(r)
		}
	}
	st.memo[t] = r
	return r
}

func (st *State) set(k, v *Term) {
	if k == v {
		return
	}
	st.subst[k] = v
	st.memo = map[*Term]*Term{}
	// keys mentioning k change
	type kv struct{ k, v *Term }
	var re []kv
	for x, y := range st.subst {
		if x == k || x.Op == "var" {
			continue
		}
		if occurs(k, x) {
			re = append(re, kv{x, y})
		}
	}
	sort.Slice(re, func(i, j int) bool { return re[i].k.ID < re[j].k.ID })
	for _, e := range re {
		delete(st.subst, e.k)
	}
	if len(re) > 0 {
		st.memo = map[*Term]*Term{}
	}
	for _, e := range re {
		st.assume(Eq(st.norm(e.k), st.norm(e.v)))
	}
}

// assume adds a condition to the path.
func (st *State) assume(c *Term) {
	if st.dead {
		return
	}
	c = st.norm(c)
	switch c.Op {
	case "true":
		return
	case "false":
		st.dead = true
		return
	case "and":
		for _, a := range c.Args {
			st.assume(a)
		}
		return
	case "not":
		p := c.Args[0]
		if p.Op == "or" {
			for _, a := range p.Args {
				st.assume(Not(a))
			}
			return
		}
		st.facts = append(st.facts, c)
		st.set(p, False)
		st.cmpConsequences(p, false)
		if p.Op == "isnone" {
			st.orientLen(p)
		}
		return
	case "=":
		x, y := c.Args[0], c.Args[1]
		if x.Op == "var" && y.Op == "var" {
			if x.ID < y.ID {
				x, y = y, x
			}
			st.set(x, y)
			return
		}
		if x.Op == "var" && !occurs(x, y) {
			st.set(x, y)
			return
		}
		if y.Op == "var" && !occurs(y, x) {
			st.set(y, x)
			return
		}
		st.facts = append(st.facts, c)
		for _, z := range [][2]*Term{{x, y}, {y, x}} {
			if z[0].Op == "len" && z[1].Op == "bv" && z[1].Val == 0 && atomic(z[0].Args[0]) {
				st.set(z[0], z[1])
				st.assume(Eq(z[0].Args[0], Eps(z[0].Args[0].Sort)))
				return
			}
		}
		switch {
		case y.isConst() && !x.isConst():
			st.set(x, y)
		case x.isConst() && !y.isConst():
			st.set(y, x)
		case isSeq(x.Sort) && atomic(x) && !occurs(x, y) && !atomic(y):
			st.set(x, y)
		case isSeq(x.Sort) && atomic(y) && !occurs(y, x) && !atomic(x):
			st.set(y, x)
		case atomic(x) && !occurs(x, y) && (x.ID > y.ID || !atomic(y) || !orientable(y)) && orientable(x):
			st.set(x, y)
		case atomic(y) && !occurs(y, x) && orientable(y):
			st.set(y, x)
		default:
			st.set(c, True)
		}
		return
	case "forall":
		st.facts = append(st.facts, c)
		st.set(c, True)
		return
	}
	if c.Op == "var" {
		st.set(c, True)
		return
	}
	st.facts = append(st.facts, c)
	st.set(c, True)
	if o := c; o.Op == "isnone" && atomic(o.Args[0]) {
		st.set(o.Args[0], None(o.Args[0].Sort[2:]))
	}
	st.cmpConsequences(c, true)
}

func (st *State) orientLen(*Term) {}

// atomic terms are opaque to the simplifier.
func atomic(t *Term) bool {
	switch t.Op {
	case "var", "sel", "unsome", "nth", "select", "len":
		return true
	case "app":
		return !strings.HasPrefix(t.Name, "enc") && t.Name != "vi"
	}
	return false
}

func orientable(t *Term) bool {
	switch t.Op {
	case "sel", "unsome", "select", "nth":
		return true
	}
	return false
}

func (st *State) cmpConsequences(p *Term, val bool) {
	put := func(op string, a, b *Term, v bool) {
		k := Cmp(op, a, b)
		if k.Op == op {
			if _, ok := st.subst[k]; !ok {
				st.set(k, Bool(v))
			}
		}
	}
	switch p.Op {
	case "bvult", "bvslt":
		le := "bvule"
		if p.Op == "bvslt" {
			le = "bvsle"
		}
		a, b := p.Args[0], p.Args[1]
		if val { // a < b
			put(le, b, a, false)
			put(le, a, b, true)
			put(p.Op, b, a, false)
		} else {
			if st.norm(Cmp(le, a, b)) == True {
				st.assume(Eq(a, b))
			}
			put(le, b, a, true)
		}
	case "bvule", "bvsle":
		lt := "bvult"
		if p.Op == "bvsle" {
			lt = "bvslt"
		}
		a, b := p.Args[0], p.Args[1]
		if val {
			put(lt, b, a, false)
		} else { // b < a
			put(lt, b, a, true)
			put(p.Op, b, a, true)
		}
	}
}

// query returns the facts of the path in a form fit for a solver.
func (st *State) query() []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, f := range st.facts {
		g := st.normTop(f)
		for _, h := range conjuncts(g) {
			if h != True && !seen[h] {
				seen[h] = true
				out = append(out, h)
			}
		}
	}
	return out
}

func conjuncts(t *Term) []*Term {
	if t.Op == "and" {
		return t.Args
	}
	return []*Term{t}
}

// normTop normalises a fact without using the fact itself.
func (st *State) normTop(f *Term) *Term {
	args := func(t *Term) *Term {
		if len(t.Args) == 0 {
			return t
		}
		a := make([]*Term, len(t.Args))
		for i, x := range t.Args {
			a[i] = st.norm(x)
		}
		return rebuild(t, a)
	}
	switch f.Op {
	case "not":
		if n := f.Args[0]; n.Op == "isnone" {
			return Not(IsNone(args(n.Args[0])))
		}
		return Not(args(f.Args[0]))
	case "isnone":
		return IsNone(args(f.Args[0]))
	case "=":
		return Eq(args(f.Args[0]), args(f.Args[1]))
	case "and", "or":
		return args(f)
	}
	return args(f)
}

// feasible tells whether the path may be taken.
func (st *State) feasible() bool {
	if st.dead {
		return false
	}
	r, _ := satisfiable(st.query(), true)
	return r != "unsat"
}

// ---- values ----

func (st *State) normV(v Value) Value {
	switch v := v.(type) {
	case VT:
		return VT{st.norm(v.t)}
	case VBytes:
		if v.obj == 0 && v.s != nil {
			v.s = st.norm(v.s)
		}
		if v.nilf != nil {
			v.nilf = st.norm(v.nilf)
		}
		return v
	case VList:
		if v.obj == 0 && v.s != nil {
			v.s = st.norm(v.s)
		}
		if v.nilf != nil {
			v.nilf = st.norm(v.nilf)
		}
		return v
	case VArr:
		v.len = st.norm(v.len)
		if v.nilf != nil {
			v.nilf = st.norm(v.nilf)
		}
		return v
	case VOpt:
		v.t = st.norm(v.t)
		return v
	case VView:
		v.t = st.norm(v.t)
		return v
	case VErr:
		return VErr{st.norm(v.nilf)}
	}
	return v
}

// content of byte slices and lists
func (st *State) bytes(v VBytes) *Term {
	if v.obj != 0 {
		c := st.loadPath(v.obj, v.path)
		switch c := c.(type) {
		case VBytes:
			return st.norm(c.s)
		case VT:
			return st.norm(c.t)
		}
		panic(unsup("byte slice backing"))
	}
	return st.norm(v.s)
}

func (st *State) list(v VList) *Term {
	if v.obj != 0 {
		return st.norm(st.heap[v.obj].(VList).s)
	}
	return st.norm(v.s)
}

func (st *State) bytesNil(v VBytes) *Term {
	if v.nilf != nil {
		return st.norm(v.nilf)
	}
	s := st.bytes(v)
	if n, ok := st.nilOf(s); ok {
		return n
	}
	f := Fresh("nil", "Bool")
	st.assume(Imp(f, Eq(Len(s), BV64(0))))
	return st.norm(f)
}

func (st *State) nilOf(s *Term) (*Term, bool) {
	if l := st.norm(Len(s)); l.Op == "bv" && l.Val != 0 {
		return False, true
	}
	return nil, false
}

func (st *State) listNil(v VList) *Term {
	if v.nilf != nil {
		return st.norm(v.nilf)
	}
	s := st.list(v)
	if n, ok := st.nilOf(s); ok {
		return n
	}
	f := Fresh("nil", "Bool")
	st.assume(Imp(f, Eq(Len(s), BV64(0))))
	return st.norm(f)
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) unsupported { return unsupported{fmt.Sprintf(f, a...)} }

// fromTerm builds the Go value of a type from its logical value.
func fromTerm(t types.Type, x *Term, p *prov) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return VBytes{nilf: False, s: x}
		}
		return VT{x}
	case *types.Slice:
		if isByte(u.Elem()) {
			if x.Sort == "O.Bytes" {
				return VBytes{nilf: IsNone(x), s: Ite(IsNone(x), Eps("Bytes"), Unsome(x))}
			}
			return VBytes{s: x}
		}
		return VList{s: x, borrowed: true}
	case *types.Array:
		return VBytes{nilf: False, s: x}
	case *types.Pointer:
		return VOpt{x, p}
	case *types.Struct:
		return VT{x}
	}
	return VT{x}
}

// toTerm turns a value into its logical value. Objects reached through
// pointers become immutable.
func (st *State) toTerm(v Value, s Sort) *Term {
	switch v := v.(type) {
	case VT:
		return st.norm(v.t)
	case VBytes:
		c := st.bytes(v)
		if v.obj != 0 {
			st.frozen[v.obj] = true
		}
		if s == "O.Bytes" {
			return Ite(st.bytesNil(v), None("Bytes"), Some(c))
		}
		return c
	case VList:
		if v.obj != 0 {
			st.frozen[v.obj] = true
		}
		return st.list(v)
	case VOpt:
		if v.prov != nil {
			st.unshare(v.prov)
		}
		return st.norm(v.t)
	case VView:
		if v.prov != nil {
			st.unshare(v.prov)
		}
		return Some(st.norm(v.t))
	case VPtr:
		if v.obj == 0 {
			return None(s[2:])
		}
		x := st.toTerm(st.loadPath(v.obj, v.path), s[2:])
		st.frozen[v.obj] = true
		return Some(x)
	case VElem:
		return Some(st.toTerm(st.loadElem(v), s[2:]))
	case VStruct:
		fs := recTab[s]
		if len(fs) != len(v.f) || !strings.HasPrefix(s, "R.") {
			panic(unsup("struct %s as %s", v.typ, s))
		}
		args := make([]*Term, len(v.f))
		for i := range v.f {
			args[i] = st.toTerm(v.f[i], fs[i].sort)
		}
		return Rec(s, args...)
	case VArr:
		c := st.heap[v.obj].(VArrC)
		return st.norm(ListOf(c.arr, v.len))
	case VIface:
		// a value of a known dynamic type
		if sv, ok := v.v.(VStruct); ok && strings.HasPrefix(s, "U.") {
			var args []*Term
			u := sv.typ.Underlying().(*types.Struct)
			for i := range sv.f {
				args = append(args, st.toTerm(sv.f[i], sortOf(u.Field(i).Type())))
			}
			return App("dyn:"+typeName(v.typ), s, args...)
		}
	}
	panic(unsup("value %T as %s", v, s))
}

// peekTerm is toTerm without the sharing effects.
func (st *State) peekTerm(v Value, s Sort) *Term {
	fz := st.frozen
	hp := st.heap
	c := map[int]bool{}
	for k := range fz {
		c[k] = true
	}
	h := map[int]Value{}
	for k, v := range hp {
		h[k] = v
	}
	st.frozen, st.heap = c, h
	t := st.toTerm(v, s)
	st.frozen, st.heap = fz, hp
	return t
}

func (st *State) unshare(p *prov) {
	c, ok := st.heap[p.arr].(VArrC)
	if ok && c.fresh != nil {
		c.fresh = Store(c.fresh, p.idx, False)
		st.heap[p.arr] = c
	}
}

func (st *State) loadPath(obj int, path []int) Value {
	v, ok := st.heap[obj]
	if !ok {
		panic(unsup("dangling object"))
	}
	for _, i := range path {
		v = st.field(v, i)
	}
	return st.normV(v)
}

// field selects a struct field of a value.
func (st *State) field(v Value, i int) Value {
	switch v := v.(type) {
	case VStruct:
		return v.f[i]
	case VT:
		t := st.norm(v.t)
		ty := fieldType(t.Sort, i)
		return fromTerm(ty, st.norm(Sel(t, i)), nil)
	}
	panic(unsup("field of %T", v))
}

var recGo = map[Sort]*types.Struct{}

// recNamed keeps the named type of a record sort.
var recNamed = map[Sort]types.Type{}

func fieldType(s Sort, i int) types.Type {
	st, ok := recGo[s]
	if !ok {
		panic(unsup("no Go type for %s", s))
	}
	return st.Field(i).Type()
}

func (st *State) storePath(obj int, path []int, v Value) {
	st.heap[obj] = st.setPath(st.heap[obj], path, v)
}

func (st *State) setPath(old Value, path []int, v Value) Value {
	if len(path) == 0 {
		return v
	}
	s := st.expand(old)
	nf := append([]Value(nil), s.f...)
	nf[path[0]] = st.setPath(nf[path[0]], path[1:], v)
	return VStruct{s.typ, nf}
}

// expand turns a record value into its fields.
func (st *State) expand(v Value) VStruct {
	switch v := v.(type) {
	case VStruct:
		return v
	case VT:
		t := st.norm(v.t)
		u, ok := recGo[t.Sort]
		if !ok {
			panic(unsup("expand %s", t.Sort))
		}
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = fromTerm(u.Field(i).Type(), Sel(t, i), nil)
		}
		if n, ok := recNamed[t.Sort]; ok {
			return VStruct{n, f}
		}
		return VStruct{u, f}
	}
	panic(unsup("expand %T", v))
}

func (st *State) loadElem(v VElem) Value {
	switch b := v.base.(type) {
	case VBytes:
		return VT{st.norm(Nth(st.bytes(b), v.idx))}
	case VList:
		x := st.norm(Nth(st.list(b), v.idx))
		if v.typ == nil {
			return VT{x}
		}
		return st.normV(fromTerm(v.typ, x, nil))
	case VArr:
		c := st.heap[b.obj].(VArrC)
		x := st.norm(Select(c.arr, v.idx))
		return st.normV(fromTerm(v.typ, x, &prov{b.obj, st.norm(v.idx), nil, st.viewW[b.obj]}))
	}
	panic(unsup("element of %T", v.base))
}

// zero returns the zero value of a type.
func (st *State) zero(t types.Type) Value {
	if isErrorType(t) {
		return VErr{True}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return VBytes{nilf: False, s: Eps("Bytes")}
		}
		if u.Info()&types.IsBoolean != 0 {
			return VT{False}
		}
		if u.Kind() == types.UntypedNil {
			return VPtr{}
		}
		s := sortOf(t)
		if s == "" {
			panic(unsup("zero of %s", t))
		}
		return VT{BV(0, s)}
	case *types.Slice:
		if isArrType(t) {
			return VArr{nilf: True, obj: st.alloc(VArrC{arr: ConstArr(ArrSort("BV64", arrElemSort(t)), None(arrElemSort(t)[2:])), fresh: ConstArr(ArrSort("BV64", "Bool"), True)}), len: BV64(0)}
		}
		if isByte(u.Elem()) {
			return VBytes{nilf: True, s: Eps("Bytes")}
		}
		s := sortOf(t)
		if s == "" {
			return VOpaque{t.String()}
		}
		return VList{nilf: True, s: Eps(s)}
	case *types.Array:
		if isByte(u.Elem()) {
			return VBytes{nilf: False, s: App("zeros", "Bytes", BV64(uint64(u.Len())))}
		}
		f := make([]Value, u.Len())
		for i := range f {
			f[i] = st.zero(u.Elem())
		}
		return VStruct{t, f}
	case *types.Pointer:
		return VPtr{}
	case *types.Struct:
		switch typeName(t) {
		case "golang.org/x/crypto/cryptobyte.Builder":
			return VBuilder{False, Eps("Bytes")}
		}
		if s := sortOf(t); strings.HasPrefix(s, "U.") {
			return VT{App("zero:"+s, s)}
		}
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = st.zero(u.Field(i).Type())
		}
		return VStruct{t, f}
	case *types.Map:
		k := sortOf(u.Key())
		if k == "" {
			return VMap{nilf: True}
		}
		c := VMapC{key: k, dom: ConstArr(ArrSort(k, "Bool"), False)}
		if v := sortOf(u.Elem()); v != "R.empty" {
			c.val = v
			c.m = Fresh("nilmap", ArrSort(k, v))
		}
		return VMap{nilf: True, obj: st.alloc(c)}
	case *types.Signature:
		return VFunc{nilf: True}
	case *types.Interface:
		return VIface{}
	}
	panic(unsup("zero of %s", t))
}

// sym returns an arbitrary value of a type.
func (st *State) sym(t types.Type, hint string) Value {
	if isErrorType(t) {
		return VErr{Fresh(hint, "Bool")}
	}
	if isArrType(t) {
		es := arrElemSort(t)
		a := Fresh(hint, ArrSort("BV64", es))
		n := Fresh(hint+".len", "BV64")
		st.assume(Ult(n, BV64(lenBound)))
		nf := Fresh(hint+".nil", "Bool")
		st.assume(Imp(nf, Eq(n, BV64(0))))
		return VArr{nilf: nf, obj: st.alloc(VArrC{arr: a, fresh: ConstArr(ArrSort("BV64", "Bool"), False)}), len: n}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return VBytes{nilf: False, s: Fresh(hint, "Bytes")}
		}
		return VT{Fresh(hint, sortOf(t))}
	case *types.Slice:
		if isByte(u.Elem()) {
			s := Fresh(hint, "Bytes")
			nf := Fresh(hint+".nil", "Bool")
			st.assume(Imp(nf, Eq(Len(s), BV64(0))))
			return VBytes{nilf: nf, s: s}
		}
		so := sortOf(t)
		if so == "" {
			panic(unsup("symbolic %s", t))
		}
		s := Fresh(hint, so)
		nf := Fresh(hint+".nil", "Bool")
		st.assume(Imp(nf, Eq(Len(s), BV64(0))))
		return VList{nilf: nf, s: s, borrowed: true}
	case *types.Array:
		s := Fresh(hint, "Bytes")
		st.assume(Eq(Len(s), BV64(uint64(u.Len()))))
		return VBytes{nilf: False, s: s}
	case *types.Pointer:
		if s := sortOf(t); s != "" {
			return VOpt{Fresh(hint, s), nil}
		}
		return VPtr{obj: st.alloc(st.sym(u.Elem(), hint))}
	case *types.Struct:
		switch typeName(t) {
		case "golang.org/x/crypto/cryptobyte.Builder":
			return VBuilder{Fresh(hint+".err", "Bool"), Fresh(hint+".out", "Bytes")}
		}
		if s := sortOf(t); s != "" {
			return VT{Fresh(hint, s)}
		}
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = st.sym(u.Field(i).Type(), hint+"."+u.Field(i).Name())
		}
		return VStruct{t, f}
	case *types.Map:
		k := sortOf(u.Key())
		v := Sort("")
		if s := sortOf(u.Elem()); s != "R.empty" {
			v = s
		}
		c := VMapC{key: k, val: v, dom: Fresh(hint+".dom", ArrSort(k, "Bool"))}
		if v != "" {
			c.m = Fresh(hint+".map", ArrSort(k, v))
		}
		nf := Fresh(hint+".nil", "Bool")
		st.assume(Imp(nf, Eq(c.dom, ConstArr(c.dom.Sort, False))))
		return VMap{nilf: nf, obj: st.alloc(c)}
	case *types.Signature:
		return VFunc{ext: hint, nilf: Fresh(hint+".nil", "Bool")}
	case *types.Interface:
		return VT{Fresh(hint, "U."+typeName(t))}
	}
	panic(unsup("symbolic value of %s", t))
}

// allocBytes creates the backing store of a byte slice.
func (st *State) allocBytes(s *Term) int {
	o := st.alloc(VBytes{nilf: False, s: s})
	st.store[o] = true
	return o
}
