package main

import (
	"go/token"
	"sort"
)

// autoCands guesses invariants from the shape of what a loop modifies.
func (x *Ex) autoCands(lc *loopCtx) []*cand {
	var out []*cand
	out = append(out, x.decodeCands(lc)...)
	out = append(out, x.encodeCands(lc)...)
	return out
}

func (lc *loopCtx) sortedLeaves() []leafKey {
	var keys []leafKey
	for k := range lc.mods.leaves {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i].obj != keys[j].obj {
			return keys[i].obj < keys[j].obj
		}
		return keys[i].path < keys[j].path
	})
	return keys
}

// decodeCands: a loop which reads elements from a string into a list.
func (x *Ex) decodeCands(lc *loopCtx) []*cand {
	var out []*cand
	keys := lc.sortedLeaves()
	for _, ks := range keys {
		ks := ks
		sv, ok := lc.entrySt.loadPath(ks.obj, lc.paths[ks]).(VBytes)
		if !ok {
			continue
		}
		s0 := lc.entrySt.bytes(sv)
		for _, kl := range keys {
			kl := kl
			list := func(st *State) *Term {
				switch v := st.loadPath(kl.obj, lc.paths[kl]).(type) {
				case VList:
					return st.list(v)
				case VArr:
					return st.norm(ListOf(st.heap[v.obj].(VArrC).arr, v.len))
				}
				return nil
			}
			l0 := list(lc.entrySt)
			if l0 == nil {
				continue
			}
			get := func(st *State) (s, l *Term) {
				b, ok := st.loadPath(ks.obj, lc.paths[ks]).(VBytes)
				l = list(st)
				if !ok || l == nil {
					panic(unsup("decode loop"))
				}
				return st.bytes(b), l
			}
			add := func(name string, f func(s, l *Term) *Term) {
				out = append(out, &cand{name: name, f: func(st *State, fr *Frame) *Term {
					s, l := get(st)
					return f(s, l)
				}})
			}
			if isApp(s0, "encl") && s0.Args[0].Sort == l0.Sort {
				L := s0.Args[0]
				c := &cand{name: "list is a prefix of the encoded list", f: func(st *State, fr *Frame) *Term {
					s, l := get(st)
					k := Sub(Len(l), Len(l0))
					return And(Ule(k, Len(L)), Eq(l, Cat(l0, Take(L, k))), Eq(s, Encl(Drop(L, k))))
				}}
				c.assume = func(st *State, fr *Frame) {
					s, l := get(st)
					k := Fresh("k", "BV64")
					st.assume(Ule(k, Len(L)))
					st.set(Len(Take(L, k)), k)
					if a, ok := st.loadPath(kl.obj, lc.paths[kl]).(VArr); ok {
						st.assume(Eq(a.len, Add(Len(l0), k)))
						l = st.norm(l)
						st.set(l, Cat(l0, Take(L, k)))
						if l0.Op == "eps" {
							i := Bound("i", "BV64")
							st.assume(Forall([]*Term{i}, Imp(Ult(i, k), Eq(Select(st.heap[a.obj].(VArrC).arr, i), Nth(L, i)))))
						}
					} else {
						st.assume(Eq(l, Cat(l0, Take(L, k))))
					}
					st.assume(Eq(s, Encl(Drop(L, k))))
				}
				out = append(out, c)
			}
			add("list and rest make up the input", func(s, l *Term) *Term {
				return Eq(Cat(Encl(l0), s0), Cat(Encl(l), s))
			})
			add("elements well formed", func(s, l *Term) *Term { return Wfl(l) })
			add("elements fit", func(s, l *Term) *Term { return Fitsl(l) })
		}
	}
	return out
}

// encodeCands: a loop which writes the elements of a list to a builder.
func (x *Ex) encodeCands(lc *loopCtx) []*cand {
	var out []*cand
	c := lc.cond()
	if c == nil || c.Op != token.LSS {
		return nil
	}
	if !pureHeader(lc.lp.header, lc.n) {
		return nil
	}
	var a0, b0 *Term
	if !x.try(func() { a0, b0, _, _ = lc.sides(lc.entrySt.clone(), lc.entryFr.clone()) }) || a0 == nil {
		return nil
	}
	if lc.entrySt.norm(a0) != BV64(0) {
		return nil
	}
	lists := x.reachableLists(lc)
	for _, kb := range lc.sortedLeaves() {
		kb := kb
		bv, ok := lc.entrySt.loadPath(kb.obj, lc.paths[kb]).(VBuilder)
		if !ok {
			continue
		}
		for _, L := range lists {
			L := L
			if lc.entrySt.norm(Len(L)) != lc.entrySt.norm(b0) && L.Op != "listof" {
				continue
			}
			out = append(out, &cand{name: "elements written so far", f: func(st *State, fr *Frame) *Term {
				i, _, _, _ := lc.sides(st, fr)
				b := st.loadPath(kb.obj, lc.paths[kb]).(VBuilder)
				p := Take(L, i)
				return And(Eq(b.out, Cat(bv.out, Encl(p))), Eq(b.err, Or(bv.err, Not(Fitsl(p)))))
			}})
		}
	}
	return out
}

// reachableLists returns the lists in registers, closures and objects.
func (x *Ex) reachableLists(lc *loopCtx) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	seenObj := map[int]bool{}
	st := lc.entrySt
	var visit func(v Value, depth int)
	visit = func(v Value, depth int) {
		if depth > 4 {
			return
		}
		switch v := v.(type) {
		case VList:
			l := st.list(v)
			if !seen[l] {
				seen[l] = true
				out = append(out, l)
			}
		case VArr:
			l := st.norm(ListOf(st.heap[v.obj].(VArrC).arr, v.len))
			if !seen[l] && v.obj != 0 {
				seen[l] = true
				out = append(out, l)
			}
		case VT:
			t := st.norm(v.t)
			if fs := recTab[t.Sort]; fs != nil && depth < 3 {
				for i, f := range fs {
					if isSeq(f.sort) && f.sort != "Bytes" {
						l := st.norm(Sel(t, i))
						if !seen[l] {
							seen[l] = true
							out = append(out, l)
						}
					}
				}
			}
		case VPtr:
			if v.obj != 0 && !seenObj[v.obj] {
				seenObj[v.obj] = true
				visit(st.heap[v.obj], depth+1)
			}
		case VView:
			visit(VT{v.t}, depth+1)
		case VStruct:
			for _, f := range v.f {
				visit(f, depth+1)
			}
		case VFunc:
			for _, b := range v.bind {
				visit(b, depth+1)
			}
		}
	}
	for f := lc.entryFr; f != nil; f = f.up {
		var names []string
		m := map[string]Value{}
		for r, v := range f.regs {
			names = append(names, r.Name())
			m[r.Name()] = v
		}
		sort.Strings(names)
		for _, n := range names {
			visit(m[n], 0)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}
