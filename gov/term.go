package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Sorts are strings:
//
//	Bool, BV8..BV64       machine booleans and integers
//	Bytes                 byte strings (free monoid)
//	R.<name>              record for a Go struct
//	O.<sort>              optional value (Go pointer seen as a value)
//	S.<sort>              finite sequence (Go slice seen as a value)
//	A.<key>.to.<val>      SMT array
//	U.<name>              opaque value
type Sort = string

// Term is a hash-consed logical term.
type Term struct {
	ID   int
	Op   string
	Name string // variables, functions, byte constants
	Val  uint64
	Args []*Term
	Sort Sort
	free bool // contains a bound variable
}

var (
	termTab  = map[string]*Term{}
	termNext int
)

func mk(op, name string, val uint64, sort Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatUint(val, 16))
	sb.WriteByte('|')
	sb.WriteString(sort)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termNext++
	t := &Term{ID: termNext, Op: op, Name: name, Val: val, Args: args, Sort: sort}
	if op == "bound" {
		t.free = true
	}
	for _, a := range args {
		if a.free {
			t.free = true
		}
	}
	if op == "forall" {
		t.free = hasFree(t, map[*Term]bool{})
	}
	termTab[k] = t
	return t
}

// hasFree tells whether a bound variable occurs outside its quantifier.
func hasFree(t *Term, in map[*Term]bool) bool {
	if !t.free && t.Op != "forall" {
		return false
	}
	switch t.Op {
	case "bound":
		return !in[t]
	case "forall":
		in2 := map[*Term]bool{}
		for v := range in {
			in2[v] = true
		}
		for _, v := range t.Args[:len(t.Args)-1] {
			in2[v] = true
		}
		return hasFree(t.Args[len(t.Args)-1], in2)
	}
	for _, a := range t.Args {
		if hasFree(a, in) {
			return true
		}
	}
	return false
}

var varCount = map[string]int{}

func Var(name string, s Sort) *Term { return mk("var", name, 0, s) }

// Fresh returns a variable with a new name.
func Fresh(hint string, s Sort) *Term {
	varCount[hint]++
	return mk("var", fmt.Sprintf("%s!%d", hint, varCount[hint]), 0, s)
}

func Bound(name string, s Sort) *Term { return mk("bound", name, 0, s) }

var (
	True  = mk("true", "", 0, "Bool")
	False = mk("false", "", 0, "Bool")
)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func bvw(s Sort) int {
	switch s {
	case "BV8":
		return 8
	case "BV16":
		return 16
	case "BV32":
		return 32
	case "BV64":
		return 64
	}
	panic("not a bit-vector sort: " + s)
}

func isBV(s Sort) bool { return strings.HasPrefix(s, "BV") }

func mask(w int) uint64 {
	if w == 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func BV(v uint64, s Sort) *Term { return mk("bv", "", v&mask(bvw(s)), s) }
func BV64(v uint64) *Term       { return BV(v, "BV64") }

func (t *Term) isConst() bool {
	switch t.Op {
	case "bv", "true", "false", "bytes", "none", "eps":
		return true
	}
	return false
}

func sext(v uint64, w int) int64 {
	if w == 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

// ---- booleans ----

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	}
	return mk("not", "", 0, "Bool", a)
}

func nary(op string, args []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range args {
		if a.Op == op {
			for _, x := range a.Args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
		} else if !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
	}
	return out
}

func And(args ...*Term) *Term {
	l := nary("and", args)
	var out []*Term
	set := map[*Term]bool{}
	for _, a := range l {
		if a == True {
			continue
		}
		if a == False {
			return False
		}
		set[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.Op == "not" && set[a.Args[0]] {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk("and", "", 0, "Bool", out...)
}

func Or(args ...*Term) *Term {
	l := nary("or", args)
	var out []*Term
	set := map[*Term]bool{}
	for _, a := range l {
		if a == False {
			continue
		}
		if a == True {
			return True
		}
		set[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.Op == "not" && set[a.Args[0]] {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return mk("or", "", 0, "Bool", out...)
}

func Imp(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort == "Bool" {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	return mk("ite", "", 0, a.Sort, c, a, b)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq of different sorts: %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	if a.isConst() && b.isConst() {
		if a.Op == b.Op {
			return False // hash-consed and different
		}
		if a.Sort != "Bytes" && !strings.HasPrefix(a.Sort, "S.") {
			return False
		}
		return False
	}
	if a.Sort == "Bool" {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a.Op == "not" && b.Op == "not" {
			return Eq(a.Args[0], b.Args[0])
		}
		if a == Not(b) {
			return False
		}
	}
	if isSeq(a.Sort) {
		if r, done := eqSeq(a, b); done {
			return r
		}
	}
	if a.Op == "rec" && b.Op == "rec" {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.Op == "rec" || b.Op == "rec" {
		r, v := a, b
		if b.Op == "rec" {
			r, v = b, a
		}
		if v.Op != "ite" {
			var cs []*Term
			for i := range r.Args {
				cs = append(cs, Eq(r.Args[i], Sel(v, i)))
			}
			return And(cs...)
		}
	}
	if a.Op == "some" && b.Op == "some" {
		return Eq(a.Args[0], b.Args[0])
	}
	if a.Op == "some" && b.Op != "ite" && b.Op != "none" {
		return And(Not(IsNone(b)), Eq(a.Args[0], Unsome(b)))
	}
	if b.Op == "some" && a.Op != "ite" && a.Op != "none" {
		return Eq(b, a)
	}
	if a.Op == "some" && b.Op == "none" || a.Op == "none" && b.Op == "some" {
		return False
	}
	if a.Op == "none" {
		return isNoneRaw(b)
	}
	if b.Op == "none" {
		return isNoneRaw(a)
	}
	// (x + c) = d
	if b.Op == "bv" && a.Op == "bvadd" && a.Args[1].Op == "bv" {
		return Eq(a.Args[0], BV(b.Val-a.Args[1].Val, a.Sort))
	}
	if a.Op == "bv" && b.Op == "bvadd" {
		return Eq(b, a)
	}
	if a.Op == "bvadd" && b.Op == "bvadd" && a.Args[1] == b.Args[1] && a.Args[1].Op == "bv" {
		return Eq(a.Args[0], b.Args[0])
	}
	if b.Op == "bv" && a.Op == "zext" {
		w := bvw(a.Args[0].Sort)
		if b.Val > mask(w) {
			return False
		}
		return Eq(a.Args[0], BV(b.Val, a.Args[0].Sort))
	}
	if a.Op == "bv" && b.Op == "zext" {
		return Eq(b, a)
	}
	if a.Op == "zext" && b.Op == "zext" && a.Args[0].Sort == b.Args[0].Sort {
		return Eq(a.Args[0], b.Args[0])
	}
	// ite with constant branches
	if b.Op == "bv" && a.Op == "ite" && a.Args[1].Op == "bv" && a.Args[2].Op == "bv" {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if a.Op == "bv" && b.Op == "ite" {
		return Eq(b, a)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("=", "", 0, "Bool", a, b)
}

// ---- bit-vectors ----

func BVOp(op string, a, b *Term) *Term {
	w := bvw(a.Sort)
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("bv op %s sorts %s %s", op, a.Sort, b.Sort))
	}
	m := mask(w)
	if a.Op == "bv" && b.Op == "bv" {
		x, y := a.Val, b.Val
		sx, sy := sext(x, w), sext(y, w)
		switch op {
		case "bvadd":
			return BV(x+y, a.Sort)
		case "bvsub":
			return BV(x-y, a.Sort)
		case "bvmul":
			return BV(x*y, a.Sort)
		case "bvand":
			return BV(x&y, a.Sort)
		case "bvor":
			return BV(x|y, a.Sort)
		case "bvxor":
			return BV(x^y, a.Sort)
		case "bvshl":
			if y >= uint64(w) {
				return BV(0, a.Sort)
			}
			return BV(x<<y, a.Sort)
		case "bvlshr":
			if y >= uint64(w) {
				return BV(0, a.Sort)
			}
			return BV((x&m)>>y, a.Sort)
		case "bvashr":
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			return BV(uint64(sx>>y), a.Sort)
		case "bvudiv":
			if y != 0 {
				return BV(x/y, a.Sort)
			}
		case "bvurem":
			if y != 0 {
				return BV(x%y, a.Sort)
			}
		case "bvsdiv":
			if y != 0 {
				return BV(uint64(sx/sy), a.Sort)
			}
		case "bvsrem":
			if y != 0 {
				return BV(uint64(sx%sy), a.Sort)
			}
		}
	}
	switch op {
	case "bvadd":
		if a.Op == "bv" {
			a, b = b, a
		}
		if b.Op == "bv" {
			if b.Val == 0 {
				return a
			}
			if a.Op == "bvadd" && a.Args[1].Op == "bv" {
				return BVOp("bvadd", a.Args[0], BV(a.Args[1].Val+b.Val, a.Sort))
			}
		} else {
			if a.Op == "bvadd" && a.Args[1].Op == "bv" {
				return BVOp("bvadd", BVOp("bvadd", a.Args[0], b), a.Args[1])
			}
			if b.Op == "bvadd" && b.Args[1].Op == "bv" {
				return BVOp("bvadd", BVOp("bvadd", a, b.Args[0]), b.Args[1])
			}
			if a.ID > b.ID {
				a, b = b, a
			}
		}
	case "bvsub":
		if b.Op == "bv" {
			return BVOp("bvadd", a, BV(-b.Val, a.Sort))
		}
		if a == b {
			return BV(0, a.Sort)
		}
		// (x + b) - b
		if a.Op == "bvadd" {
			if a.Args[0] == b {
				return a.Args[1]
			}
			if a.Args[1] == b {
				return a.Args[0]
			}
			if a.Args[1].Op == "bv" {
				return BVOp("bvadd", BVOp("bvsub", a.Args[0], b), a.Args[1])
			}
		}
		if b.Op == "bvadd" && b.Args[1].Op == "bv" {
			return BVOp("bvadd", BVOp("bvsub", a, b.Args[0]), BV(-b.Args[1].Val, a.Sort))
		}
	case "bvmul":
		if a.Op == "bv" {
			a, b = b, a
		}
		if b.Op == "bv" && b.Val == 1 {
			return a
		}
		if b.Op == "bv" && b.Val == 0 {
			return b
		}
	case "bvand":
		if a.Op == "bv" {
			a, b = b, a
		}
		if b.Op == "bv" && b.Val == 0 {
			return b
		}
		if b.Op == "bv" && b.Val == m || a == b {
			return a
		}
	case "bvor", "bvxor":
		if a.Op == "bv" {
			a, b = b, a
		}
		if b.Op == "bv" && b.Val == 0 {
			return a
		}
		if op == "bvor" && a == b {
			return a
		}
	case "bvshl", "bvlshr", "bvashr":
		if b.Op == "bv" && b.Val == 0 {
			return a
		}
	case "bvudiv":
		if b.Op == "bv" && b.Val == 1 {
			return a
		}
	}
	return mk(op, "", 0, a.Sort, a, b)
}

func Add(a, b *Term) *Term { return BVOp("bvadd", a, b) }
func Sub(a, b *Term) *Term { return BVOp("bvsub", a, b) }

func Cmp(op string, a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("cmp %s sorts %s %s", op, a.Sort, b.Sort))
	}
	w := bvw(a.Sort)
	if a.Op == "bv" && b.Op == "bv" {
		x, y := a.Val, b.Val
		sx, sy := sext(x, w), sext(y, w)
		switch op {
		case "bvult":
			return Bool(x < y)
		case "bvule":
			return Bool(x <= y)
		case "bvslt":
			return Bool(sx < sy)
		case "bvsle":
			return Bool(sx <= sy)
		}
	}
	if a == b {
		return Bool(op == "bvule" || op == "bvsle")
	}
	if op == "bvult" && b.Op == "bv" && b.Val == 0 {
		return False
	}
	if op == "bvule" && a.Op == "bv" && a.Val == 0 {
		return True
	}
	if op == "bvult" && a.Op == "bv" && a.Val == 0 {
		return Not(Eq(b, a))
	}
	if op == "bvule" && b.Op == "bv" && b.Val == 0 {
		return Eq(a, b)
	}
	return mk(op, "", 0, "Bool", a, b)
}

func Ult(a, b *Term) *Term { return Cmp("bvult", a, b) }
func Ule(a, b *Term) *Term { return Cmp("bvule", a, b) }
func Slt(a, b *Term) *Term { return Cmp("bvslt", a, b) }
func Sle(a, b *Term) *Term { return Cmp("bvsle", a, b) }

// Resize converts a bit-vector to another width.
func Resize(a *Term, to Sort, signed bool) *Term {
	wf, wt := bvw(a.Sort), bvw(to)
	if wf == wt {
		return a
	}
	if a.Op == "bv" {
		if wt > wf && signed {
			return BV(uint64(sext(a.Val, wf)), to)
		}
		return BV(a.Val, to)
	}
	if wt < wf {
		if (a.Op == "zext" || a.Op == "sext") && bvw(a.Args[0].Sort) >= wt {
			return Resize(a.Args[0], to, false)
		}
		if (a.Op == "zext" || a.Op == "sext") && bvw(a.Args[0].Sort) < wt {
			return Resize(a.Args[0], to, a.Op == "sext")
		}
		return mk("trunc", "", 0, to, a)
	}
	if signed {
		if a.Op == "zext" {
			return Resize(a.Args[0], to, false)
		}
		return mk("sext", "", 0, to, a)
	}
	if a.Op == "zext" {
		return Resize(a.Args[0], to, false)
	}
	return mk("zext", "", 0, to, a)
}

// ---- sequences (Bytes and S.*) ----

func isSeq(s Sort) bool { return s == "Bytes" || strings.HasPrefix(s, "S.") }

func elemSort(s Sort) Sort {
	if s == "Bytes" {
		return "BV8"
	}
	return s[2:]
}

func Eps(s Sort) *Term { return mk("eps", "", 0, s) }

func BytesConst(b string) *Term {
	if b == "" {
		return Eps("Bytes")
	}
	return mk("bytes", b, 0, "Bytes")
}

func Unit(x *Term) *Term {
	if x.Sort == "BV8" {
		if x.Op == "bv" {
			return BytesConst(string([]byte{byte(x.Val)}))
		}
		return mk("unit", "", 0, "Bytes", x)
	}
	return mk("unit", "", 0, "S."+x.Sort, x)
}

func atoms(t *Term) []*Term {
	switch t.Op {
	case "cat":
		return t.Args
	case "eps":
		return nil
	}
	return []*Term{t}
}

func Cat(parts ...*Term) *Term {
	if len(parts) == 0 {
		panic("empty cat")
	}
	s := parts[0].Sort
	var out []*Term
	for _, p := range parts {
		if p.Sort != s {
			panic("cat of different sorts " + s + " " + p.Sort)
		}
		for _, a := range atoms(p) {
			if n := len(out); n > 0 && a.Op == "bytes" && out[n-1].Op == "bytes" {
				out[n-1] = BytesConst(out[n-1].Name + a.Name)
				continue
			}
			if n := len(out); n > 0 {
				// take(L,i) ++ [L[i]] = take(L,i+1)
				if a.Op == "unit" && out[n-1].Op == "take" && a.Args[0].Op == "nth" &&
					a.Args[0].Args[0] == out[n-1].Args[0] && a.Args[0].Args[1] == out[n-1].Args[1] && !strings.HasPrefix(a.Sort, "Bytes") {
					out[n-1] = Take(out[n-1].Args[0], Add(out[n-1].Args[1], BV64(1)))
					continue
				}
			}
			out = append(out, a)
		}
	}
	switch len(out) {
	case 0:
		return Eps(s)
	case 1:
		return out[0]
	}
	return mk("cat", "", 0, s, out...)
}

// hook for lengths of function applications, set by the theory layer
var lenOfApp func(t *Term) *Term

// Len is the length of a sequence, as a 64-bit vector.
func Len(t *Term) *Term {
	switch t.Op {
	case "eps":
		return BV64(0)
	case "bytes":
		return BV64(uint64(len(t.Name)))
	case "unit":
		return BV64(1)
	case "cat":
		r := BV64(0)
		for _, a := range t.Args {
			r = Add(r, Len(a))
		}
		return r
	case "take":
		return t.Args[1] // take is only built with 0 <= i <= len
	case "listof":
		return t.Args[1]
	case "ite":
		return Ite(t.Args[0], Len(t.Args[1]), Len(t.Args[2]))
	case "upd":
		return Len(t.Args[0])
	case "be":
		return BV64(uint64(bvw(t.Args[0].Sort) / 8))
	case "drop":
		return Sub(Len(t.Args[0]), t.Args[1])
	case "sel":
		if n, ok := fixedLen[t.Args[0].Sort+"/"+t.Name]; ok {
			return BV64(n)
		}
	case "app":
		if lenOfApp != nil {
			if r := lenOfApp(t); r != nil {
				return r
			}
		}
	}
	return mk("len", "", 0, "BV64", t)
}

// Nth is the element of a sequence at a 64-bit index (in range).
func Nth(t, i *Term) *Term {
	es := elemSort(t.Sort)
	switch t.Op {
	case "bytes":
		if i.Op == "bv" && i.Val < uint64(len(t.Name)) {
			return BV(uint64(t.Name[i.Val]), "BV8")
		}
	case "unit":
		if i.Op == "bv" && i.Val == 0 {
			return t.Args[0]
		}
	case "listof":
		return Select(t.Args[0], i)
	case "take":
		return Nth(t.Args[0], i)
	case "drop":
		return Nth(t.Args[0], Add(t.Args[1], i))
	case "cat":
		off := BV64(0)
		for _, a := range t.Args {
			l := Len(a)
			if d := Sub(i, off); d.Op == "bv" && l.Op == "bv" {
				if d.Val < l.Val {
					return Nth(a, d)
				}
			} else if d.Op == "bv" && d.Val == 0 && a.Op == "unit" {
				return a.Args[0]
			} else if l.Op != "bv" {
				break
			}
			off = Add(off, l)
		}
		// index equal to the sum of preceding lengths
		off = BV64(0)
		for _, a := range t.Args {
			if i == off && a.Op == "unit" {
				return a.Args[0]
			}
			off = Add(off, Len(a))
		}
	case "upd":
		if t.Args[1] == i {
			return t.Args[2]
		}
		if t.Args[1].Op == "bv" && i.Op == "bv" {
			return Nth(t.Args[0], i)
		}
		return Ite(Eq(t.Args[1], i), t.Args[2], Nth(t.Args[0], i))
	case "ite":
		return Ite(t.Args[0], Nth(t.Args[1], i), Nth(t.Args[2], i))
	case "app":
		if t.Name == "zeros" {
			return BV(0, "BV8")
		}
		if t.Name == "nones" {
			return None(es[2:])
		}
		if t.Name == "reczeros" {
			return t.Args[1]
		}
	}
	return mk("nth", "", 0, es, t, i)
}

// Take is the prefix of a sequence of length i (0 <= i <= len).
func Take(t, i *Term) *Term {
	if i.Op == "bv" && i.Val == 0 {
		return Eps(t.Sort)
	}
	if i == Len(t) {
		return t
	}
	switch t.Op {
	case "take":
		return Take(t.Args[0], i)
	case "listof":
		return ListOf(t.Args[0], i)
	case "bytes":
		if i.Op == "bv" && i.Val <= uint64(len(t.Name)) {
			return BytesConst(t.Name[:i.Val])
		}
	case "cat":
		off := BV64(0)
		for k, a := range t.Args {
			off = Add(off, Len(a))
			if off == i {
				return Cat(t.Args[:k+1]...)
			}
		}
	}
	return mk("take", "", 0, t.Sort, t, i)
}

// Upd replaces one element of a sequence.
func Upd(t, i, v *Term) *Term {
	if v.Op == "nth" && v.Args[0] == t && v.Args[1] == i {
		return t
	}
	if t.Op == "upd" && t.Args[1] == i {
		return Upd(t.Args[0], i, v)
	}
	if t.Op == "upd" && t.Args[1].Op == "bv" && i.Op == "bv" && i.Val < t.Args[1].Val {
		return Upd(Upd(t.Args[0], i, v), t.Args[1], t.Args[2])
	}
	if l := Len(t); i.Op == "bv" && l.Op == "bv" && l.Val <= 8 && i.Val < l.Val && t.Op == "app" && (t.Name == "reczeros" || t.Name == "nones") {
		var p []*Term
		for k := uint64(0); k < l.Val; k++ {
			if k == i.Val {
				p = append(p, Unit(v))
			} else {
				p = append(p, Unit(Nth(t, BV64(k))))
			}
		}
		return Cat(p...)
	}
	if t.Op == "cat" {
		off := BV64(0)
		for k, a := range t.Args {
			l := Len(a)
			if off == i && a.Op == "unit" {
				p := append([]*Term(nil), t.Args...)
				p[k] = Unit(v)
				return Cat(p...)
			}
			off = Add(off, l)
		}
	}
	return mk("upd", "", 0, t.Sort, t, i, v)
}

// ListOf is the sequence of the first n elements of an array.
func ListOf(arr, n *Term) *Term {
	_, vs := arrSorts(arr.Sort)
	if n.Op == "bv" && n.Val == 0 {
		return Eps("S." + vs)
	}
	if arr.Op == "store" && arr.Args[1] == n {
		return ListOf(arr.Args[0], n)
	}
	if arr.Op == "store" && Add(arr.Args[1], BV64(1)) == n {
		return Cat(ListOf(arr.Args[0], arr.Args[1]), Unit(arr.Args[2]))
	}
	return mk("listof", "", 0, "S."+vs, arr, n)
}

// eqSeq simplifies an equation between sequences by cancelling and matching
// their parts. Every step is an equivalence.
func eqSeq(a, b *Term) (*Term, bool) {
	x, y := atoms(a), atoms(b)
	if len(x) <= 1 && len(y) <= 1 {
		if len(x) == 0 || len(y) == 0 {
			t := a
			if len(x) == 0 {
				t = b
			}
			if t.Op == "unit" || t.Op == "bytes" || t.Op == "be" {
				return False, true
			}
			if l := Len(t); l.Op == "len" {
				return nil, false
			} else {
				return Eq(l, BV64(0)), true
			}
		}
	}
	x = append([]*Term(nil), x...)
	y = append([]*Term(nil), y...)
	var conj []*Term
	changed := false
	expand := func(l []*Term, by []*Term) []*Term {
		changed = true
		return append(append([]*Term(nil), by...), l[1:]...)
	}
front:
	for len(x) > 0 && len(y) > 0 {
		p, q := x[0], y[0]
		if p == q {
			x, y = x[1:], y[1:]
			changed = true
			continue
		}
		if p.Op == "bytes" && q.Op == "bytes" {
			k := 0
			for k < len(p.Name) && k < len(q.Name) && p.Name[k] == q.Name[k] {
				k++
			}
			if k < len(p.Name) && k < len(q.Name) {
				return False, true
			}
			x = expand(x, atoms(BytesConst(p.Name[k:])))
			y = expand(y, atoms(BytesConst(q.Name[k:])))
			continue
		}
		if p.Op == q.Op && (p.Op == "unit" || p.Op == "be" && p.Args[0].Sort == q.Args[0].Sort) {
			conj = append(conj, Eq(p.Args[0], q.Args[0]))
			x, y = x[1:], y[1:]
			changed = true
			continue
		}
		if isApp(p, "vi") && isApp(q, "vi") {
			// prefix-free and injective
			conj = append(conj, Eq(p.Args[0], q.Args[0]))
			x, y = x[1:], y[1:]
			changed = true
			// the data of that length
			if i, j := prefixLen(x, p.Args[0]), prefixLen(y, q.Args[0]); i > 0 && j > 0 {
				conj = append(conj, Eq(Cat(x[:i]...), Cat(y[:j]...)))
				x, y = x[i:], y[j:]
			}
			continue
		}
		for side := 0; side < 2; side++ {
			p, q := p, q
			if side == 1 {
				p, q = q, p
			}
			if isApp(p, "vi") && q.Op == "bytes" && q.Name[0] < 64 {
				conj = append(conj, Eq(p.Args[0], BV64(uint64(q.Name[0]))))
				changed = true
				xs, ys := &x, &y
				if side == 1 {
					xs, ys = &y, &x
				}
				*xs = (*xs)[1:]
				*ys = append(append([]*Term(nil), atoms(BytesConst(q.Name[1:]))...), (*ys)[1:]...)
				continue front
			}
		}
		for side := 0; side < 2; side++ {
			// p is expanded, q is the other side
			xs, ys := &x, &y
			if side == 1 {
				xs, ys = &y, &x
			}
			p, q := (*xs)[0], (*ys)[0]
			basic := q.Op == "bytes" || q.Op == "unit" || q.Op == "be"
			struc := basic || isApp(q, "vi")
			switch {
			case p.Op == "be" && basic:
				*xs = expand(*xs, beUnits(p))
				continue front
			case p.Op == "bytes" && q.Op == "unit":
				*xs = expand(*xs, []*Term{mk("unit", "", 0, "Bytes", BV(uint64(p.Name[0]), "BV8"))})
				if len(p.Name) > 1 {
					*xs = append([]*Term{(*xs)[0], BytesConst(p.Name[1:])}, (*xs)[1:]...)
				}
				continue front
			case p.Op == "app" && strings.HasPrefix(p.Name, "enc:") && (struc || q.Op == "app" && strings.HasPrefix(q.Name, "enc:") && q.Args[0].Sort != p.Args[0].Sort):
				if d := unfoldEnc(p); d != nil {
					*xs = expand(*xs, atoms(d))
					continue front
				}
			case isApp(p, "encl") && isApp(q, "encl"):
				if r, ok := stepTake(q.Args[0], p.Args[0]); ok {
					var l []*Term
					for _, a := range r.Args {
						l = append(l, atoms(Encl(a))...)
					}
					*xs = expand(*xs, l)
					continue front
				}
			case p.Op == "take" || p.Op == "listof" || q.Op == "take":
				if r, ok := stepTake(q, p); ok {
					*xs = expand(*xs, r.Args)
					continue front
				}
			}
		}
		if len(x) > 1 || len(y) > 1 {
			if la, lb := Len(p), Len(q); la == lb {
				conj = append(conj, Eq(p, q))
				x, y = x[1:], y[1:]
				changed = true
				continue
			}
		}
		break
	}
	for len(x) > 0 && len(y) > 0 {
		p, q := x[len(x)-1], y[len(y)-1]
		if p == q {
			x, y = x[:len(x)-1], y[:len(y)-1]
			changed = true
			continue
		}
		if p.Op == q.Op && (p.Op == "unit" || p.Op == "be" && p.Args[0].Sort == q.Args[0].Sort) {
			conj = append(conj, Eq(p.Args[0], q.Args[0]))
			x, y = x[:len(x)-1], y[:len(y)-1]
			changed = true
			continue
		}
		if len(x) > 1 || len(y) > 1 {
			if la, lb := Len(p), Len(q); la == lb {
				conj = append(conj, Eq(p, q))
				x, y = x[:len(x)-1], y[:len(y)-1]
				changed = true
				continue
			}
		}
		break
	}
	if !changed {
		return nil, false
	}
	s := a.Sort
	switch {
	case len(x) == 0 && len(y) == 0:
	case len(x) == 0 || len(y) == 0:
		for _, t := range append(x, y...) {
			conj = append(conj, Eq(t, Eps(s)))
		}
	default:
		conj = append(conj, Eq(Cat(x...), Cat(y...)))
	}
	return And(conj...), true
}

// prefixLen is the number of leading parts with a total length n.
func prefixLen(l []*Term, n *Term) int {
	s := BV64(0)
	for i, a := range l {
		s = Add(s, Len(a))
		if s == n {
			return i + 1
		}
	}
	return 0
}

// Drop is a sequence without its first i elements (0 <= i <= len).
func Drop(t, i *Term) *Term {
	if i.Op == "bv" && i.Val == 0 {
		return t
	}
	if i == Len(t) {
		return Eps(t.Sort)
	}
	switch t.Op {
	case "drop":
		return Drop(t.Args[0], Add(t.Args[1], i))
	case "bytes":
		if i.Op == "bv" && i.Val <= uint64(len(t.Name)) {
			return BytesConst(t.Name[i.Val:])
		}
	case "cat":
		off := BV64(0)
		for k, a := range t.Args {
			off = Add(off, Len(a))
			if off == i {
				return Cat(t.Args[k+1:]...)
			}
		}
	}
	return mk("drop", "", 0, t.Sort, t, i)
}

// BE is the big-endian encoding of an integer.
func BE(x *Term) *Term {
	w := bvw(x.Sort)
	if w == 8 {
		return Unit(x)
	}
	if x.Op == "bv" {
		b := make([]byte, w/8)
		for i := range b {
			b[i] = byte(x.Val >> uint(8*(len(b)-1-i)))
		}
		return BytesConst(string(b))
	}
	return mk("be", "", 0, "Bytes", x)
}

// beUnits splits a big-endian encoding into single bytes.
func beUnits(t *Term) []*Term {
	x := t.Args[0]
	n := bvw(x.Sort) / 8
	var out []*Term
	for i := 0; i < n; i++ {
		sh := BV(uint64(8*(n-1-i)), x.Sort)
		out = append(out, Unit(Resize(BVOp("bvlshr", x, sh), "BV8", false)))
	}
	return out
}

// ---- records and options ----

type recField struct {
	name string
	sort Sort
}

var recTab = map[Sort][]recField{}

func Rec(s Sort, args ...*Term) *Term {
	fs := recTab[s]
	if len(fs) != len(args) {
		panic("record arity " + s)
	}
	for i, f := range fs {
		if args[i].Sort != f.sort {
			panic(fmt.Sprintf("record %s field %s: %s, want %s", s, f.name, args[i].Sort, f.sort))
		}
	}
	// eta
	if len(args) > 0 && args[0].Op == "sel" && args[0].Args[0].Sort == s {
		v := args[0].Args[0]
		ok := true
		for i := range args {
			if args[i].Op != "sel" || args[i].Args[0] != v || args[i].Val != uint64(i) {
				ok = false
				break
			}
		}
		if ok {
			return v
		}
	}
	return mk("rec", "", 0, s, args...)
}

func Sel(r *Term, i int) *Term {
	if r.Op == "rec" {
		return r.Args[i]
	}
	if r.Op == "ite" && (r.Args[1].Op == "rec" || r.Args[2].Op == "rec") {
		return Ite(r.Args[0], Sel(r.Args[1], i), Sel(r.Args[2], i))
	}
	fs, ok := recTab[r.Sort]
	if !ok {
		panic("sel on " + r.Sort)
	}
	return mk("sel", fs[i].name, uint64(i), fs[i].sort, r)
}

func SelName(r *Term, name string) *Term {
	for i, f := range recTab[r.Sort] {
		if f.name == name {
			return Sel(r, i)
		}
	}
	panic("no field " + name + " in " + r.Sort)
}

func Some(x *Term) *Term {
	if x.Op == "unsome" && false {
		return x.Args[0]
	}
	return mk("some", "", 0, "O."+x.Sort, x)
}
func None(s Sort) *Term { return mk("none", "", 0, "O."+s) }

func isNoneRaw(o *Term) *Term {
	switch o.Op {
	case "none":
		return True
	case "some":
		return False
	case "ite":
		return Ite(o.Args[0], isNoneRaw(o.Args[1]), isNoneRaw(o.Args[2]))
	}
	return mk("isnone", "", 0, "Bool", o)
}

func IsNone(o *Term) *Term { return isNoneRaw(o) }

func Unsome(o *Term) *Term {
	if o.Op == "some" {
		return o.Args[0]
	}
	if o.Op == "ite" {
		if o.Args[1].Op == "none" {
			return Unsome(o.Args[2])
		}
		if o.Args[2].Op == "none" {
			return Unsome(o.Args[1])
		}
		if o.Args[1].Op == "some" || o.Args[2].Op == "some" {
			return Ite(o.Args[0], Unsome(o.Args[1]), Unsome(o.Args[2]))
		}
	}
	return mk("unsome", "", 0, o.Sort[2:], o)
}

// ---- arrays ----

func ArrSort(k, v Sort) Sort { return "A." + k + ".to." + v }

func arrSorts(s Sort) (Sort, Sort) {
	i := strings.Index(s, ".to.")
	return s[2:i], s[i+4:]
}

func Select(a, i *Term) *Term {
	switch a.Op {
	case "store":
		if a.Args[1] == i {
			return a.Args[2]
		}
		if e := Eq(a.Args[1], i); e == False {
			return Select(a.Args[0], i)
		}
	case "constarr":
		return a.Args[0]
	case "ite":
		return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
	}
	_, v := arrSorts(a.Sort)
	return mk("select", "", 0, v, a, i)
}

func Store(a, i, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	return mk("store", "", 0, a.Sort, a, i, v)
}

func ConstArr(s Sort, v *Term) *Term { return mk("constarr", "", 0, s, v) }

// ---- functions and quantifiers ----

var appRewrite func(name string, sort Sort, args []*Term) *Term

func App(name string, sort Sort, args ...*Term) *Term {
	if appRewrite != nil {
		if r := appRewrite(name, sort, args); r != nil {
			return r
		}
	}
	return mk("app", name, 0, sort, args...)
}

func Forall(vars []*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	return mk("forall", "", 0, "Bool", append(append([]*Term(nil), vars...), body)...)
}

func Exists(vars []*Term, body *Term) *Term {
	return Not(Forall(vars, Not(body)))
}

// ---- rebuilding ----

func rebuild(t *Term, args []*Term) *Term {
	same := true
	for i := range args {
		if args[i] != t.Args[i] {
			same = false
			break
		}
	}
	if same {
		return t
	}
	switch t.Op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "bvadd", "bvsub", "bvmul", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvudiv", "bvurem", "bvsdiv", "bvsrem":
		return BVOp(t.Op, args[0], args[1])
	case "bvult", "bvule", "bvslt", "bvsle":
		return Cmp(t.Op, args[0], args[1])
	case "trunc", "zext":
		return Resize(args[0], t.Sort, false)
	case "sext":
		return Resize(args[0], t.Sort, true)
	case "unit":
		return Unit(args[0])
	case "cat":
		return Cat(args...)
	case "len":
		return Len(args[0])
	case "nth":
		return Nth(args[0], args[1])
	case "take":
		return Take(args[0], args[1])
	case "drop":
		return Drop(args[0], args[1])
	case "be":
		return BE(args[0])
	case "upd":
		return Upd(args[0], args[1], args[2])
	case "listof":
		return ListOf(args[0], args[1])
	case "rec":
		return Rec(t.Sort, args...)
	case "sel":
		return Sel(args[0], int(t.Val))
	case "some":
		return Some(args[0])
	case "isnone":
		return IsNone(args[0])
	case "unsome":
		return Unsome(args[0])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "constarr":
		return ConstArr(t.Sort, args[0])
	case "app":
		return App(t.Name, t.Sort, args...)
	case "forall":
		return Forall(args[:len(args)-1], args[len(args)-1])
	}
	panic("rebuild: " + t.Op)
}

// Replace substitutes terms by terms (single pass, bottom up).
func Replace(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		if r, ok := m[t]; ok {
			memo[t] = r
			return r
		}
		r := t
		if len(t.Args) > 0 {
			args := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				args[i] = rec(a)
			}
			r = rebuild(t, args)
			if x, ok := m[r]; ok {
				r = x
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// occurs tells whether x is a subterm of t.
func occurs(x, t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func walk(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.Args {
		walk(a, seen, f)
	}
	f(t)
}

func freeVars(t *Term) map[*Term]bool {
	m := map[*Term]bool{}
	walk(t, map[*Term]bool{}, func(x *Term) {
		if x.Op == "var" {
			m[x] = true
		}
	})
	return m
}

func (t *Term) String() string {
	return t.str(0)
}

func (t *Term) str(d int) string {
	if d > 12 {
		return "..."
	}
	switch t.Op {
	case "var", "bound":
		return t.Name
	case "bv":
		return fmt.Sprintf("%d", t.Val)
	case "true", "false", "none", "eps":
		return t.Op
	case "bytes":
		return strconv.Quote(t.Name)
	case "sel":
		return t.Args[0].str(d+1) + "." + t.Name
	}
	var a []string
	for _, x := range t.Args {
		a = append(a, x.str(d+1))
	}
	n := t.Op
	if t.Op == "app" {
		n = t.Name
	}
	if t.Op == "=" {
		return "(" + a[0] + " = " + a[1] + ")"
	}
	return n + "(" + strings.Join(a, ", ") + ")"
}

func sortedTerms(m map[*Term]bool) []*Term {
	var l []*Term
	for t := range m {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	return l
}
