package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopHandler struct {
	info    *loopInfo
	explore bool // paths leaving the loop are dropped
	onBack  func(st *State, fr *Frame)
}

// cand is a loop invariant candidate.
type cand struct {
	name string
	id   string
	f    func(st *State, fr *Frame) *Term
	dead bool
	// assume adds the candidate to a state in a form fit for rewriting
	assume func(st *State, fr *Frame)
}

type measure struct {
	name string
	f    func(st *State, fr *Frame) *Term
	dead bool
	at   *Term
}

func (c *cand) add(st *State, fr *Frame, t *Term) {
	if c.assume != nil {
		c.assume(st, fr)
		return
	}
	st.assume(t)
}

// pureHeader tells whether the header can be executed ahead of time.
func pureHeader(b *ssa.BasicBlock, n int) bool {
	for _, in := range b.Instrs[n:] {
		switch in := in.(type) {
		case *ssa.BinOp, *ssa.UnOp, *ssa.DebugRef, *ssa.Extract, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Convert, *ssa.ChangeType, *ssa.If, *ssa.Field:
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				continue
			}
			if f := in.Call.StaticCallee(); f != nil && extName(f) == "(golang.org/x/crypto/cryptobyte.String).Empty" {
				continue
			}
			return false
		default:
			return false
		}
	}
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	return ok
}

// peekHeader executes the header on a scratch copy and returns the frame.
func (x *Ex) peekHeader(st *State, fr *Frame, b *ssa.BasicBlock, n int) (s *State, f *Frame, ok bool) {
	if !pureHeader(b, n) {
		return nil, nil, false
	}
	s, f = st.clone(), fr.clone()
	x.silent++
	defer func() {
		x.silent--
		if r := recover(); r != nil {
			switch r.(type) {
			case unsupported, stopPath:
				ok = false
				return
			}
			panic(r)
		}
	}()
	for _, in := range b.Instrs[n:] {
		switch in := in.(type) {
		case *ssa.If:
			return s, f, true
		case *ssa.Call:
			done := 0
			x.call(s, f, in, func(s2 *State, r []Value) {
				s = s2
				f.regs[in] = r[0]
				done++
			})
			if done != 1 {
				return nil, nil, false
			}
		default:
			x.simple(s, f, in)
		}
	}
	return nil, nil, false
}

func (x *Ex) unrollLimit(fr *Frame) int {
	if c := contracts[fname(fr.fn)]; c != nil && c.unroll > 0 {
		return c.unroll
	}
	if fr.up == nil && x.c != nil {
		return x.c.unroll
	}
	return 0
}

type loopCount struct {
	lp *loopInfo
	n  int
}

func (x *Ex) enterLoop(st *State, fr *Frame, lp *loopInfo, n int, back bool, k cont) {
	cnt := 0
	if back {
		cnt = fr.count(lp)
	}
	if s, f, ok := x.peekHeader(st, fr, lp.header, n); ok {
		c := s.norm(x.term(s, f, lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If).Cond))
		// entering a loop over the rest of some input is left to its invariant
		stays := lp.body[lp.header.Succs[0]] == (c == True)
		if (c == True || c == False) && !(stays && (readsInput(lp) || x.openBound(s, f, lp))) {
			if cnt > 600 {
				panic(unsup("loop unrolled more than 600 times"))
			}
			fr.setCount(lp, cnt+1)
			x.run(st, fr, lp.header, n, k)
			return
		}
	}
	if u := x.unrollLimit(fr); u > 0 {
		if cnt > u {
			x.prove(st, False, fmt.Sprintf("unwinding@%s:%s", fname(fr.fn), loopPos(lp)), "termination", loopPos(lp), fmt.Sprintf("loop runs more than %d times", u), nil)
			return
		}
		fr.setCount(lp, cnt+1)
		x.run(st, fr, lp.header, n, k)
		return
	}
	x.cut(st, fr, lp, n, k)
}

// openBound tells whether a loop counts to or from an unknown number.
func (x *Ex) openBound(st *State, fr *Frame, lp *loopInfo) bool {
	b, ok := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If).Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	switch b.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
	default:
		return false
	}
	return st.norm(x.term(st, fr, b.X)).Op != "bv" || st.norm(x.term(st, fr, b.Y)).Op != "bv"
}

func readsInput(lp *loopInfo) bool {
	for _, in := range lp.header.Instrs {
		if c, ok := in.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && extName(f) == "(golang.org/x/crypto/cryptobyte.String).Empty" {
				return true
			}
		}
	}
	return false
}

func (f *Frame) count(lp *loopInfo) int {
	for _, c := range f.counts {
		if c.lp == lp {
			return c.n
		}
	}
	return 0
}

func (f *Frame) setCount(lp *loopInfo, n int) {
	out := []loopCount{{lp, n}}
	for _, c := range f.counts {
		if c.lp != lp {
			out = append(out, c)
		}
	}
	f.counts = out
}

func loopPos(lp *loopInfo) string {
	for _, in := range lp.header.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if in.Pos().IsValid() {
			return posOf(in.Pos())
		}
	}
	for b := range lp.body {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return posOf(in.Pos())
			}
		}
	}
	return "?"
}

// ---- cutting loops at invariants ----

type leafKey struct {
	obj  int
	path string
}

type modset struct {
	phis   map[*ssa.Phi]bool
	leaves map[leafKey]Value // value kind to havoc
	frozen map[int]bool
	used   map[int]bool
	viewW  map[int]bool
	borrow map[string]bool
	mixed  map[leafKey]Sort
}

func pathStr(p []int) string { return fmt.Sprint(p) }

func sameTerm(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	return st.norm(a) == st.norm(b)
}

func (x *Ex) sameValue(st *State, a, b Value) bool {
	switch p := a.(type) {
	case VT:
		q, ok := b.(VT)
		return ok && sameTerm(st, p.t, q.t)
	case VBytes:
		q, ok := b.(VBytes)
		if !ok {
			return false
		}
		if p.obj != 0 || q.obj != 0 {
			return p.obj == q.obj && pathStr(p.path) == pathStr(q.path)
		}
		return sameTerm(st, p.s, q.s)
	case VList:
		q, ok := b.(VList)
		if !ok {
			return false
		}
		if p.obj != 0 || q.obj != 0 {
			return p.obj == q.obj
		}
		return sameTerm(st, p.s, q.s) && sameTerm(st, p.hi, q.hi)
	case VArr:
		q, ok := b.(VArr)
		return ok && p.obj == q.obj && sameTerm(st, p.len, q.len)
	case VPtr:
		q, ok := b.(VPtr)
		return ok && p.obj == q.obj && pathStr(p.path) == pathStr(q.path)
	case VOpt:
		q, ok := b.(VOpt)
		return ok && sameTerm(st, p.t, q.t)
	case VView:
		q, ok := b.(VView)
		return ok && sameTerm(st, p.t, q.t)
	case VErr:
		q, ok := b.(VErr)
		return ok && sameTerm(st, p.nilf, q.nilf)
	case VFunc:
		q, ok := b.(VFunc)
		return ok && p.fn == q.fn && p.ext == q.ext
	case VMap:
		q, ok := b.(VMap)
		return ok && p.obj == q.obj
	case VArrC:
		q, ok := b.(VArrC)
		return ok && sameTerm(st, p.arr, q.arr) && sameTerm(st, p.fresh, q.fresh)
	case VMapC:
		q, ok := b.(VMapC)
		return ok && sameTerm(st, p.dom, q.dom) && sameTerm(st, p.m, q.m)
	case VBuilder:
		q, ok := b.(VBuilder)
		return ok && sameTerm(st, p.err, q.err) && sameTerm(st, p.out, q.out)
	case VIter:
		q, ok := b.(VIter)
		return ok && sameTerm(st, p.visited, q.visited)
	case VHashC:
		q, ok := b.(VHashC)
		return ok && sameTerm(st, p.content, q.content)
	case VHash:
		q, ok := b.(VHash)
		return ok && p.obj == q.obj
	case VIface:
		q, ok := b.(VIface)
		return ok && (p.typ == nil) == (q.typ == nil) && (p.typ == nil || types.Identical(p.typ, q.typ) && x.sameValue(st, p.v, q.v))
	case VOpaque:
		_, ok := b.(VOpaque)
		return ok
	case VConstMap:
		q, ok := b.(VConstMap)
		return ok && len(p.keys) == len(q.keys)
	case VStruct:
		q, ok := b.(VStruct)
		if !ok || len(p.f) != len(q.f) {
			return false
		}
		for i := range p.f {
			if !x.sameValue(st, p.f[i], q.f[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// diff collects the leaves in which two cells differ.
func (x *Ex) diff(st *State, obj int, a, b Value, path []int, out func(leafKey, []int, Value, Value)) {
	if x.sameValue(st, a, b) {
		return
	}
	sa, oka := a.(VStruct)
	sb, okb := b.(VStruct)
	if oka && okb && len(sa.f) == len(sb.f) {
		for i := range sa.f {
			x.diff(st, obj, sa.f[i], sb.f[i], append(append([]int(nil), path...), i), out)
		}
		return
	}
	if oka != okb {
		// one side is a record term
		var ea, eb VStruct
		var ok bool
		func() {
			defer func() {
				if r := recover(); r != nil {
					ok = false
				}
			}()
			ea, eb = st.expand(a), st.expand(b)
			ok = true
		}()
		if ok && len(ea.f) == len(eb.f) {
			x.diff(st, obj, ea, eb, path, out)
			return
		}
	}
	out(leafKey{obj, pathStr(path)}, path, a, b)
}

func (x *Ex) havocLoop(st *State, fr *Frame, lp *loopInfo, n int, mods *modset, paths map[leafKey][]int) (*State, *Frame) {
	s, f := st.clone(), fr.clone()
	for i := 0; i < n; i++ {
		p := lp.header.Instrs[i].(*ssa.Phi)
		if !mods.phis[p] {
			continue
		}
		hint := p.Comment
		if hint == "" {
			hint = p.Name()
		}
		f.regs[p] = x.havocPhi(s, fr.regs[p], p.Type(), hint, mods.borrow["phi:"+p.Name()])
		if p.Comment != "" {
			f.names[p.Comment] = f.regs[p]
		}
	}
	var keys []leafKey
	for k := range mods.leaves {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i].obj != keys[j].obj {
			return keys[i].obj < keys[j].obj
		}
		return keys[i].path < keys[j].path
	})
	for _, k := range keys {
		old := s.loadPath(k.obj, paths[k])
		var nv Value
		hint := fmt.Sprintf("m%s", k.path)
		if so := mods.mixed[k]; so != "" {
			switch {
			case strings.HasPrefix(so, "O."):
				nv = VOpt{Fresh(hint, so), nil}
			default:
				nv = VT{Fresh(hint, so)}
			}
		} else if b, ok := old.(VBytes); ok && b.obj != 0 {
			nv = s.havocCell(VBytes{s: s.bytes(b)}, hint)
		} else {
			nv = s.havocCell(old, hint)
		}
		if l, ok := nv.(VList); ok {
			l.borrowed = mods.borrow[k.String()]
			l.id = newID()
			nv = l
		}
		if b, ok := nv.(VBytes); ok {
			if !mods.borrow[k.String()] {
				b.id = newID()
			}
			if ob, ok := old.(VBytes); ok && ob.obj == 0 && x.backing(s, k.obj, paths[k]) {
				// a byte array or a slice's backing store has a fixed length
				s.assume(And(Eq(Len(b.s), Len(ob.s)), Not(orFalse(b.nilf))))
				b = VBytes{nilf: False, s: b.s}
			}
			nv = b
		}
		if c, ok := nv.(VArrC); ok {
			c.fresh = Fresh(hint+".fresh", ArrSort("BV64", "Bool"))
			nv = c
		}
		s.storePath(k.obj, paths[k], nv)
	}
	for o := range mods.frozen {
		s.frozen[o] = true
	}
	for o := range mods.used {
		s.used[o] = true
	}
	for o := range mods.viewW {
		s.viewW[o] += 100000
	}
	return s, f
}

// backing tells whether a cell is the store behind a slice value rather
// than a slice variable.
func (x *Ex) backing(st *State, obj int, path []int) bool {
	v := st.loadPath(obj, path)
	b, ok := v.(VBytes)
	return ok && len(path) == 0 && st.store[obj] && b.obj == 0
}

func (k leafKey) String() string { return fmt.Sprintf("%d%s", k.obj, k.path) }

func (x *Ex) havocPhi(s *State, old Value, t types.Type, hint string, borrowed bool) Value {
	switch o := old.(type) {
	case VPtr, VOpt, VView:
		if so := sortOf(t); strings.HasPrefix(so, "O.") {
			return VOpt{Fresh(hint, so), nil}
		}
		panic(unsup("loop variable %s of type %s", hint, t))
	case VArr:
		return s.havocCell(o, hint)
	case VHash, VFunc, VIface:
		panic(unsup("loop variable %s of type %s", hint, t))
	}
	v := s.sym(t, hint)
	switch r := v.(type) {
	case VList:
		r.borrowed = borrowed
		r.id = newID()
		return r
	case VBytes:
		if !borrowed {
			r.id = newID()
		}
		return r
	}
	return v
}

func isBorrowed(v Value) bool {
	switch v := v.(type) {
	case VList:
		return v.borrowed
	case VBytes:
		return v.obj == 0 && v.id == 0 && v.nilf != True
	}
	return false
}

func (x *Ex) cut(st *State, fr *Frame, lp *loopInfo, n int, k cont) {
	where := fmt.Sprintf("%s:%s", fname(fr.fn), loopPos(lp))
	entrySt, entryFr := st.clone(), fr.clone()
	mods := &modset{phis: map[*ssa.Phi]bool{}, leaves: map[leafKey]Value{}, frozen: map[int]bool{}, used: map[int]bool{}, viewW: map[int]bool{}, borrow: map[string]bool{}, mixed: map[leafKey]Sort{}}
	paths := map[leafKey][]int{}
	phis := make([]*ssa.Phi, n)
	for i := range phis {
		phis[i] = lp.header.Instrs[i].(*ssa.Phi)
		if isBorrowed(fr.regs[phis[i]]) {
			mods.borrow["phi:"+phis[i].Name()] = true
		}
	}
	objs := make([]int, 0, len(st.heap))
	for o := range st.heap {
		objs = append(objs, o)
	}
	sort.Ints(objs)

	explore := func(s *State, f *Frame, onBack func(*State, *Frame)) {
		x.silent++
		defer func() { x.silent-- }()
		h := &loopHandler{info: lp, explore: true, onBack: onBack}
		f.loops = append(f.loops[:len(f.loops):len(f.loops)], h)
		x.run(s, f, lp.header, n, func(*State, []Value) {})
	}

	memo := x.memo.at(where + "\n" + strings.Join(entrySt.trail, "\n"))
	if memo == nil {
		memo = &loopMemo{dead: map[string]bool{}}
	}
	defer func(m *loopMemo) { x.memo = m }(x.memo)

	// what the loop modifies
	x.memo = memo.at("modified")
	for round := 0; ; round++ {
		if round > 60 {
			panic(unsup("loop at %s: modified set does not stabilise", where))
		}
		changed := false
		hs, hf := x.havocLoop(entrySt, entryFr, lp, n, mods, paths)
		hs0 := hs.clone()
		explore(hs, hf.clone(), func(s2 *State, f2 *Frame) {
			for _, p := range phis {
				nv := s2.normV(f2.regs[p])
				if !mods.phis[p] && !x.sameValue(s2, hf.regs[p], nv) {
					mods.phis[p] = true
					changed = true
				}
				if mods.phis[p] && isBorrowed(nv) && !mods.borrow["phi:"+p.Name()] {
					mods.borrow["phi:"+p.Name()] = true
					changed = true
				}
			}
			for _, o := range objs {
				x.diff(s2, o, hs0.heap[o], s2.heap[o], nil, func(key leafKey, path []int, a, b Value) {
					if _, ok := mods.leaves[key]; !ok {
						mods.leaves[key] = a
						paths[key] = path
						changed = true
						if isBorrowed(a) {
							mods.borrow[key.String()] = true
						}
						if so := mixedSort(x, s2, a, b); so != "" {
							mods.mixed[key] = so
						}
					}
					if isBorrowed(b) && !mods.borrow[key.String()] {
						mods.borrow[key.String()] = true
						changed = true
					}
				})
				if s2.frozen[o] && !hs0.frozen[o] && !mods.frozen[o] {
					mods.frozen[o] = true
					changed = true
				}
				if s2.used[o] && !hs0.used[o] {
					mods.used[o] = true
				}
				if s2.viewW[o] != hs0.viewW[o] && !mods.viewW[o] {
					mods.viewW[o] = true
					changed = true
				}
			}
			for id := range s2.used {
				if !hs0.used[id] && entrySt.usedKnown(id, entryFr) && !mods.used[id] {
					mods.used[id] = true
					changed = true
				}
			}
		})
		// drop leaves below other leaves
		for k1 := range mods.leaves {
			for k2 := range mods.leaves {
				if k1 != k2 && k1.obj == k2.obj && isPrefix(paths[k1], paths[k2]) {
					delete(mods.leaves, k2)
				}
			}
		}
		if !changed {
			break
		}
	}

	x.memo = memo.at("invariants")
	lc := &loopCtx{x: x, lp: lp, n: n, mods: mods, paths: paths, phis: phis, entrySt: entrySt, entryFr: entryFr, where: where}
	cands := x.candidates(lc)
	ms := x.measures(lc)

	eval := func(c *cand, s *State, f *Frame) (t *Term) {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case unsupported, specError, stopPath:
					if debugLoops {
						fmt.Printf("loop %s: %s not evaluated: %v\n", where, c.name, r)
					}
					t = nil
					return
				}
				panic(r)
			}
		}()
		return c.f(s, f)
	}
	seen := map[string]int{}
	for _, c := range cands {
		seen[c.name]++
		c.id = fmt.Sprint(c.name, seen[c.name])
		if memo.dead[c.id] {
			c.dead = true
			continue
		}
		s := entrySt.clone()
		t := eval(c, s, entryFr)
		if t == nil || !x.patientValid(s, t) {
			c.dead = true
			if debugLoops {
				fmt.Printf("loop %s: candidate %s not initial: %v\n", where, c.name, t)
			}
		}
	}
	evalM := func(m *measure, s *State, f *Frame) (t *Term) {
		c := cand{f: m.f}
		return eval(&c, s, f)
	}
	for {
		killed := false
		hs, hf := x.havocLoop(entrySt, entryFr, lp, n, mods, paths)
		for _, c := range cands {
			if c.dead {
				continue
			}
			if t := eval(c, hs, hf); t != nil {
				c.add(hs, hf, t)
			} else {
				c.dead = true
				killed = true
			}
		}
		for _, m := range ms {
			if m.dead {
				continue
			}
			m.at = evalM(m, hs, hf)
			if m.at == nil || !x.patientValid(hs.clone(), Sle(BV64(0), m.at)) {
				m.dead = true
			}
		}
		if hs.dead {
			panic(unsup("loop at %s: contradictory invariants", where))
		}
		explore(hs, hf, func(s2 *State, f2 *Frame) {
			var all []*Term
			var alive []*cand
			for _, c := range cands {
				if c.dead {
					continue
				}
				t := eval(c, s2, f2)
				if t == nil {
					c.dead = true
					killed = true
					continue
				}
				t = s2.norm(t)
				if t == True {
					continue
				}
				all = append(all, t)
				alive = append(alive, c)
			}
			if len(all) > 0 && !(len(all) > 1 && x.quickValid(s2, And(all...))) {
				for i, c := range alive {
					if !x.patientValid(s2, all[i]) {
						c.dead = true
						killed = true
						if debugLoops {
							fmt.Printf("loop %s: candidate %s dropped: %v\n", where, c.name, all[i])
							if debugLoops2 {
								for _, q := range s2.query() {
									fmt.Println("   ", q)
								}
							}
						}
					}
				}
			}
			for _, m := range ms {
				if m.dead {
					continue
				}
				t := evalM(m, s2, f2)
				if t == nil || !x.patientValid(s2, Slt(t, m.at)) {
					if debugLoops {
						fmt.Printf("loop %s: measure %s does not decrease: %v, %v\n", where, m.name, t, m.at)
					}
					m.dead = true
				}
			}
		})
		if !killed {
			break
		}
		for _, m := range ms {
			m.dead = false
		}
	}

	for _, c := range cands {
		if c.dead {
			memo.dead[c.id] = true
		}
	}

	// the recorded pass
	hs, hf := x.havocLoop(entrySt, entryFr, lp, n, mods, paths)
	for _, c := range cands {
		if !c.dead {
			s := entrySt.clone()
			if t := eval(c, s, entryFr); t != nil {
				x.prove(s, t, "invariant/init "+c.name+"@"+where, "invariant", loopPos(lp), c.name, nil)
			}
			c.add(hs, hf, eval(c, hs, hf))
		}
	}
	if !x.noTerm(fr) && !lc.mapLoop() {
		ok := false
		for _, m := range ms {
			if !m.dead {
				ok = true
				if debugLoops {
					fmt.Printf("loop %s: measure %s\n", where, m.name)
				}
			}
		}
		if x.silent == 0 {
			x.prove(hs.clone(), Bool(ok), "termination@"+where, "termination", loopPos(lp), "loop terminates", nil)
		}
	}
	h := &loopHandler{info: lp, explore: false, onBack: func(s2 *State, f2 *Frame) {
		if x.silent > 0 {
			return
		}
		for _, c := range cands {
			if !c.dead {
				if t := eval(c, s2, f2); t != nil {
					x.prove(s2, t, "invariant/preserve "+c.name+"@"+where, "invariant", loopPos(lp), c.name, nil)
				}
			}
		}
	}}
	hf.loops = append(hf.loops[:len(hf.loops):len(hf.loops)], h)
	x.run(hs, hf, lp.header, n, k)
}

var debugLoops, debugLoops2 bool

func isPrefix(a, b []int) bool {
	if len(a) >= len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func mixedSort(x *Ex, st *State, a, b Value) Sort {
	// nil pointer on one side, object on the other
	so := func(v Value) Sort {
		switch v := v.(type) {
		case VOpt:
			return v.t.Sort
		case VView:
			return "O." + v.t.Sort
		case VT:
			return v.t.Sort
		case VStruct:
			return sortOf(v.typ)
		case VPtr:
			if v.obj != 0 {
				switch c := st.loadPath(v.obj, v.path).(type) {
				case VT:
					return "O." + c.t.Sort
				case VStruct:
					if s := sortOf(c.typ); s != "" {
						return "O." + s
					}
				}
			}
		}
		return ""
	}
	_, pa := a.(VPtr)
	_, pb := b.(VPtr)
	if pa || pb {
		if s := so(a); s != "" {
			return s
		}
		return so(b)
	}
	return ""
}

func (st *State) usedKnown(id int, fr *Frame) bool {
	for _, v := range fr.regs {
		switch v := v.(type) {
		case VList:
			if v.id == id {
				return true
			}
		case VBytes:
			if v.id == id {
				return true
			}
		}
	}
	return false
}

func (x *Ex) noTerm(fr *Frame) bool {
	if c := contracts[fname(fr.fn)]; c != nil && c.noTerm {
		return true
	}
	return false
}

type loopCtx struct {
	x       *Ex
	lp      *loopInfo
	n       int
	mods    *modset
	paths   map[leafKey][]int
	phis    []*ssa.Phi
	entrySt *State
	entryFr *Frame
	where   string
}

// mapLoop: ranging over a map always ends.
func (lc *loopCtx) mapLoop() bool {
	for _, in := range lc.lp.header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

// cond returns the comparison controlling the loop.
func (lc *loopCtx) cond() *ssa.BinOp {
	i, ok := lc.lp.header.Instrs[len(lc.lp.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	b, _ := i.Cond.(*ssa.BinOp)
	return b
}

func (lc *loopCtx) sides(st *State, fr *Frame) (a, b *Term, op token.Token, signed bool) {
	c := lc.cond()
	if c == nil {
		panic(unsup("no condition"))
	}
	s, f, ok := lc.x.peekHeader(st, fr, lc.lp.header, lc.n)
	if !ok {
		panic(unsup("header"))
	}
	return lc.x.term(s, f, c.X), lc.x.term(s, f, c.Y), c.Op, isSigned(c.X.Type())
}

func (x *Ex) poolFor(fr *Frame) (out []*Clause) {
	if x.c != nil {
		out = append(out, x.c.pool...)
	}
	if c := contracts[fname(fr.fn)]; c != nil && c != x.c && !(x.c != nil && x.c.part && x.c.target == c.fn) {
		out = append(out, c.pool...)
	}
	return
}

func (x *Ex) measuresFor(fr *Frame) (out []*Clause) {
	if x.c != nil {
		out = append(out, x.c.measures...)
	}
	if c := contracts[fname(fr.fn)]; c != nil && c != x.c && !(x.c != nil && x.c.part && x.c.target == c.fn) {
		out = append(out, c.measures...)
	}
	return
}

// loopEnv is the environment of invariants of a loop.
func (lc *loopCtx) env(st *State, fr *Frame) *Env {
	e := &Env{x: lc.x, st: st, old: lc.x.pre, names: map[string]Value{}, fr: fr, loopSt: lc.entrySt, loopFr: lc.entryFr}
	if lc.x.entry != nil {
		e.oldn = lc.x.entry.names
	}
	for i, p := range lc.phis {
		if p.Comment == "rangeindex" {
			if t, ok := fr.regs[p].(VT); ok {
				e.names["idx"] = VT{st.norm(Add(t.t, BV64(1)))}
			}
		}
		e.names[fmt.Sprintf("phi%d", i)] = fr.regs[p]
	}
	return e
}

func (x *Ex) candidates(lc *loopCtx) []*cand {
	var out []*cand
	add := func(name string, f func(st *State, fr *Frame) *Term) {
		out = append(out, &cand{name: name, f: f})
	}
	cs, signedC := lc.cond(), false
	if cs != nil {
		signedC = isSigned(cs.X.Type())
		le := func(a, b *Term) *Term {
			if signedC {
				return Sle(a, b)
			}
			return Ule(a, b)
		}
		switch cs.Op {
		case token.LSS, token.LEQ:
			add("bound", func(st *State, fr *Frame) *Term {
				a, b, op, _ := lc.sides(st, fr)
				if op == token.LEQ {
					return le(a, Add(b, BV(1, b.Sort)))
				}
				return le(a, b)
			})
		case token.GTR, token.GEQ:
			add("bound", func(st *State, fr *Frame) *Term {
				a, b, op, _ := lc.sides(st, fr)
				if op == token.GEQ {
					return le(Sub(b, BV(1, b.Sort)), a)
				}
				return le(b, a)
			})
		}
	}
	for _, p := range lc.phis {
		p := p
		if !lc.mods.phis[p] {
			continue
		}
		e, ok := lc.entryFr.regs[p].(VT)
		if !ok || !isBV(e.t.Sort) {
			continue
		}
		sg := isSigned(p.Type())
		le := Ule
		if sg {
			le = Sle
		}
		add("lower "+p.Comment, func(st *State, fr *Frame) *Term { return le(e.t, fr.regs[p].(VT).t) })
		if p.Comment == "rangeindex" && cs != nil && cs.Op == token.LSS {
			add("range", func(st *State, fr *Frame) *Term {
				_, b, _, _ := lc.sides(st, fr)
				return Slt(fr.regs[p].(VT).t, b)
			})
		}
		add("upper "+p.Comment, func(st *State, fr *Frame) *Term { return le(fr.regs[p].(VT).t, e.t) })
	}
	for _, c := range x.poolFor(lc.entryFr) {
		c := c
		if len(c.in) > 0 && !lc.lp.calls(c.in) {
			continue
		}
		add(c.src, func(st *State, fr *Frame) *Term { return lc.env(st, fr).evalBool(c.e) })
	}
	out = append(out, x.autoCands(lc)...)
	return out
}

func (x *Ex) measures(lc *loopCtx) []*measure {
	var out []*measure
	if c := lc.cond(); c != nil {
		out = append(out, &measure{name: "condition", f: func(st *State, fr *Frame) *Term {
			a, b, op, signed := lc.sides(st, fr)
			if !isBV(a.Sort) {
				panic(unsup("measure"))
			}
			a, b = Resize(a, "BV64", signed), Resize(b, "BV64", signed)
			switch op {
			case token.LSS, token.LEQ:
				return Add(Sub(b, a), BV64(1))
			case token.GTR, token.GEQ, token.NEQ:
				return Add(Sub(a, b), BV64(1))
			}
			panic(unsup("measure"))
		}})
		// counting up or down to a value, modulo the word size
		for _, up := range []bool{true, false} {
			if c.Op != token.NEQ {
				break
			}
			out = append(out, &measure{name: "distance", f: func(st *State, fr *Frame) *Term {
				a, b, _, _ := lc.sides(st, fr)
				if !isBV(a.Sort) || a.Sort == "BV64" {
					panic(unsup("measure"))
				}
				if up {
					a, b = b, a
				}
				return Resize(Sub(a, b), "BV64", false)
			}})
		}
	}
	for _, c := range x.measuresFor(lc.entryFr) {
		c := c
		out = append(out, &measure{name: c.src, f: func(st *State, fr *Frame) *Term {
			e := lc.env(st, fr)
			return Resize(e.term(e.eval(c.e), "BV64"), "BV64", false)
		}})
	}
	for k := range lc.mods.leaves {
		k := k
		v := lc.entrySt.loadPath(k.obj, lc.paths[k])
		if b, ok := v.(VBytes); ok && b.obj == 0 {
			out = append(out, &measure{name: "len " + k.String(), f: func(st *State, fr *Frame) *Term {
				return Len(st.bytes(st.loadPath(k.obj, lc.paths[k]).(VBytes)))
			}})
			out = append(out, &measure{name: "elements " + k.String(), f: func(st *State, fr *Frame) *Term {
				s := st.bytes(st.loadPath(k.obj, lc.paths[k]).(VBytes))
				if !isApp(s, "encl") {
					panic(unsup("measure"))
				}
				return Len(s.Args[0])
			}})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

var _ = ast.NewIdent
