package main

import (
	"fmt"
	"strings"
)

// Goals about tree positions are hard for the solvers only because of what
// surrounds them. bitSlice keeps the facts that are about the same numbers, with
// everything that is no arithmetic replaced by variables. What is unsatisfiable
// there is unsatisfiable. Nil if the goal is not of this kind.
func bitSlice(fs []*Term, goal *Term) []*Term {
	if !hasShift(goal) {
		return nil
	}
	names := map[*Term]*Term{}
	var rebuild func(t *Term, seen map[*Term]bool, atoms map[*Term]bool)
	rebuild = func(t *Term, seen, atoms map[*Term]bool) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !arithmetic(t) {
			atoms[t] = true
			return
		}
		for _, a := range t.Args {
			rebuild(a, seen, atoms)
		}
	}
	atoms := map[*Term]bool{}
	rebuild(goal, map[*Term]bool{}, atoms)
	// numbers that simple facts put in relation with those of the goal
	first := len(atoms)
	for _, f := range fs {
		own := map[*Term]bool{}
		rebuild(f, map[*Term]bool{}, own)
		shared, number := false, len(own) <= 3
		for a := range own {
			shared = shared || atoms[a] && a.Op != "bv"
			number = number && strings.HasPrefix(a.Sort, "BV")
		}
		if shared && number && len(atoms) < first+6 {
			for a := range own {
				atoms[a] = true
			}
		}
	}
	n := 0
	for a := range atoms {
		if a.Sort != "Bool" && !strings.HasPrefix(a.Sort, "BV") {
			return nil
		}
		n++
	}
	if n == 0 || n > 12 {
		return nil
	}
	var out []*Term
	for _, f := range fs {
		own := map[*Term]bool{}
		rebuild(f, map[*Term]bool{}, own)
		inside := len(own) > 0
		for a := range own {
			if !atoms[a] {
				inside = false
				break
			}
		}
		if inside || f == goal {
			out = append(out, f)
		}
	}
	for a := range atoms {
		if a.Op != "var" && a.Op != "bv" && a != True && a != False {
			names[a] = Var(fmt.Sprint("slice.", a.ID), a.Sort)
		}
	}
	if len(names) > 0 {
		for i, f := range out {
			out[i] = Replace(f, names)
		}
	}
	sortByID(out)
	return out
}

func arithmetic(t *Term) bool {
	switch t.Op {
	case "not", "and", "or", "ite", "bv", "bvadd", "bvsub", "bvmul", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvult", "bvule", "bvslt", "bvsle", "zext", "sext", "trunc":
		return true
	case "=":
		return t.Args[0].Sort == "Bool" || strings.HasPrefix(t.Args[0].Sort, "BV")
	case "app":
		if !strings.HasPrefix(t.Sort, "BV") && t.Sort != "Bool" {
			return false
		}
		for _, a := range t.Args {
			if !strings.HasPrefix(a.Sort, "BV") {
				return false
			}
		}
		return len(t.Args) > 0
	}
	return false
}

func hasShift(t *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == "bvshl" || t.Op == "bvlshr" {
			return true
		}
		if !arithmetic(t) {
			return false
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}
