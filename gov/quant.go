package main

import (
	"fmt"
	"sort"
)

// Quantifiers: existential ones (a forall that is to be refuted) are replaced
// by constants, universal ones are instantiated at the index terms occurring
// in the query. Both only add consequences of the facts, or name witnesses,
// so that an unsatisfiable result stays one for the original facts.

var skolems = map[*Term][]*Term{}

func skolemsOf(f *Term) []*Term {
	if s, ok := skolems[f]; ok {
		return s
	}
	var s []*Term
	for _, v := range f.Args[:len(f.Args)-1] {
		s = append(s, Fresh("sk."+v.Name, v.Sort))
	}
	skolems[f] = s
	return s
}

func instance(f *Term, vals []*Term) *Term {
	m := map[*Term]*Term{}
	for i, v := range f.Args[:len(f.Args)-1] {
		m[v] = vals[i]
	}
	return Replace(f.Args[len(f.Args)-1], m)
}

// polar rebuilds a formula, handing each closed forall to fn with its polarity.
func polar(t *Term, pos bool, fn func(f *Term, pos bool) *Term) *Term {
	if t.Sort != "Bool" {
		return t
	}
	switch t.Op {
	case "not":
		return Not(polar(t.Args[0], !pos, fn))
	case "and", "or":
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = polar(a, pos, fn)
		}
		return rebuild(t, args)
	case "ite":
		if !hasForall(t.Args[1]) && !hasForall(t.Args[2]) {
			return t
		}
		return Ite(t.Args[0], polar(t.Args[1], pos, fn), polar(t.Args[2], pos, fn))
	case "=":
		if t.Args[0].Sort == "Bool" && (hasForall(t.Args[0]) || hasForall(t.Args[1])) {
			a, b := t.Args[0], t.Args[1]
			return polar(And(Or(Not(a), b), Or(a, Not(b))), pos, fn)
		}
	case "forall":
		if !t.free {
			return fn(t, pos)
		}
	}
	return t
}

var hasForallMemo = map[*Term]bool{}

func hasForall(t *Term) bool {
	if t.Op == "forall" {
		return true
	}
	if len(t.Args) == 0 {
		return false
	}
	if r, ok := hasForallMemo[t]; ok {
		return r
	}
	r := false
	for _, a := range t.Args {
		if hasForall(a) {
			r = true
			break
		}
	}
	hasForallMemo[t] = r
	return r
}

func skolemise(facts []*Term) []*Term {
	out := make([]*Term, 0, len(facts))
	for _, f := range facts {
		if !hasForall(f) {
			out = append(out, f)
			continue
		}
		for i := 0; i < 4; i++ {
			g := polar(f, true, func(q *Term, pos bool) *Term {
				if pos {
					return q
				}
				return instance(q, skolemsOf(q))
			})
			if g == f {
				break
			}
			f = g
		}
		out = append(out, conjuncts(f)...)
	}
	return out
}

// triggers: which ground terms a bound variable is to be tried with.
type trigger struct {
	key string
	off uint64
}

func triggerKeys(t *Term) []string {
	switch t.Op {
	case "nth", "select":
		return []string{"", "nth:" + elemOfSeq(t.Args[0].Sort)}
	case "app":
		ks := make([]string, len(t.Args))
		for i := range t.Args {
			ks[i] = fmt.Sprintf("app:%s:%d", t.Name, i)
		}
		return ks
	}
	return nil
}

func elemOfSeq(s Sort) Sort {
	if isSeq(s) {
		return elemSort(s)
	}
	_, v := arrSorts(s)
	return v
}

const maxInstances = 48

// instantiate adds instances of the assumed universal facts.
func instantiate(facts []*Term) []*Term {
	have := map[*Term]bool{}
	var foralls []*Term
	seenQ := map[*Term]bool{}
	var extra []*Term
	inst := map[*Term]map[string]bool{}
	for round := 0; round < 3; round++ {
		all := append(append([]*Term(nil), facts...), extra...)
		foralls = foralls[:0]
		seenQ = map[*Term]bool{}
		guards := map[*Term]*Term{}
		ground := map[string]map[*Term]bool{}
		skol := map[Sort]map[*Term]bool{}
		seen := map[*Term]bool{}
		for _, f := range all {
			walk(f, seen, func(x *Term) {
				if x.free {
					return
				}
				for i, k := range triggerKeys(x) {
					if k == "" {
						continue
					}
					a := x.Args[i]
					if ground[k] == nil {
						ground[k] = map[*Term]bool{}
					}
					ground[k][a] = true
				}
				if x.Op == "var" && len(x.Name) > 3 && x.Name[:3] == "sk." {
					if skol[x.Sort] == nil {
						skol[x.Sort] = map[*Term]bool{}
					}
					skol[x.Sort][x] = true
				}
			})
			if hasForall(f) {
				polar(f, true, func(q *Term, pos bool) *Term {
					if pos && !seenQ[q] {
						seenQ[q] = true
						foralls = append(foralls, q)
						guards[q] = f
					}
					return q
				})
			}
		}
		added := false
		for _, q := range foralls {
			if len(q.Args) > 3 {
				continue
			}
			vars := q.Args[:len(q.Args)-1]
			body := q.Args[len(q.Args)-1]
			if inst[q] == nil {
				inst[q] = map[string]bool{}
			}
			choice := make([][]*Term, len(vars))
			for vi, v := range vars {
				set := map[*Term]bool{}
				walk(body, map[*Term]bool{}, func(x *Term) {
					for i, k := range triggerKeys(x) {
						if k == "" || !x.Args[i].free {
							continue
						}
						a := x.Args[i]
						for g := range ground[k] {
							if t := solveFor(a, v, g); t != nil {
								set[t] = true
							}
						}
					}
				})
				for g := range skol[v.Sort] {
					set[g] = true
				}
				choice[vi] = sortedTerms(set)
			}
			var combos [][]*Term
			if len(vars) == 1 {
				for _, a := range choice[0] {
					combos = append(combos, []*Term{a})
				}
			} else if len(vars) == 2 {
				for _, a := range choice[0] {
					for _, b := range choice[1] {
						combos = append(combos, []*Term{a, b})
					}
				}
			}
			for _, c := range combos {
				key := fmt.Sprint(c)
				if inst[q][key] || len(inst[q]) >= maxInstances {
					continue
				}
				inst[q][key] = true
				b := instance(q, c)
				var f *Term
				if g := guards[q]; g == q {
					f = b
				} else {
					f = polar(g, true, func(q2 *Term, pos bool) *Term {
						if q2 == q && pos {
							return b
						}
						return q2
					})
				}
				f = weaken(f)
				if f != True && !have[f] {
					have[f] = true
					extra = append(extra, skolemise([]*Term{f})...)
					added = true
				}
			}
		}
		if !added {
			break
		}
	}
	return append(append([]*Term(nil), facts...), extra...)
}

// weaken leaves a formula as it is unless it is trivial.
func weaken(f *Term) *Term { return f }

// dropForalls weakens the facts by leaving out the universal ones.
func dropForalls(facts []*Term) ([]*Term, bool) {
	var out []*Term
	dropped := false
	for _, f := range facts {
		if hasForall(f) {
			g := polar(f, true, func(q *Term, pos bool) *Term {
				if pos {
					return True
				}
				return q
			})
			dropped = true
			if hasForall(g) || g == True {
				continue
			}
			f = g
		}
		out = append(out, f)
	}
	return out, dropped
}

func sortByID(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
}

// solveFor returns a value of v for which the pattern a may become g.
func solveFor(a, v, g *Term) *Term {
	if a.Sort != g.Sort {
		return nil
	}
	if a == v {
		return g
	}
	switch a.Op {
	case "bvadd":
		for i := 0; i < 2 && len(a.Args) == 2; i++ {
			if a.Args[i].free && !a.Args[1-i].free {
				return solveFor(a.Args[i], v, Sub(g, a.Args[1-i]))
			}
		}
	case "bvmul":
		if g.Op != "bvmul" || len(a.Args) != 2 || len(g.Args) != 2 {
			return nil
		}
		for i := 0; i < 2; i++ {
			if a.Args[i].free && a.Args[1-i] == g.Args[1-i] {
				return solveFor(a.Args[i], v, g.Args[i])
			}
		}
	case "zext":
		if g.Op == "zext" && g.Args[0].Sort == a.Args[0].Sort {
			return solveFor(a.Args[0], v, g.Args[0])
		}
	case "trunc":
		if a.Args[0] == v {
			return Resize(g, v.Sort, false)
		}
	}
	return nil
}
