package main

import "strings"

// Theory of the RFC 9420 presentation language: encoders, variable-length
// integers, vectors, well-formedness.

// encDef and wfDef hold the specification of each record type; both are
// filled from the contract files.
var (
	encDef = map[Sort]func(args []*Term) *Term{}
	wfDef  = map[Sort]func(args []*Term) *Term{}
)

// Vi is the variable-length integer encoding of a 64-bit number. It is a
// prefix-free code; for numbers below 2^30 it is the one of RFC 9420 2.1.2.
func Vi(n *Term) *Term {
	if n.Op == "bv" && n.Val < 1<<30 {
		v := n.Val
		switch {
		case v < 1<<6:
			return BytesConst(string([]byte{byte(v)}))
		case v < 1<<14:
			return BytesConst(string([]byte{0x40 | byte(v>>8), byte(v)}))
		default:
			return BytesConst(string([]byte{0x80 | byte(v>>24), byte(v >> 16), byte(v >> 8), byte(v)}))
		}
	}
	return App("vi", "Bytes", n)
}

// Opq is the encoding of opaque data<V>.
func Opq(x *Term) *Term { return Cat(Vi(Len(x)), x) }

// Enc is the encoding of a value by its sort. Some types are encoded in a
// context given by further arguments.
func Enc(x *Term, extra ...*Term) *Term {
	switch {
	case isBV(x.Sort):
		return BE(x)
	case x.Sort == "Bytes":
		return Opq(x)
	case strings.HasPrefix(x.Sort, "S."):
		return Opq(Encl(x))
	case strings.HasPrefix(x.Sort, "O."):
		return Ite(IsNone(x), BytesConst("\x00"), Cat(BytesConst("\x01"), Enc(Unsome(x))))
	}
	return App("enc:"+x.Sort, "Bytes", append([]*Term{x}, extra...)...)
}

// Encl is the concatenation of the encodings of the elements.
func Encl(l *Term) *Term {
	switch l.Op {
	case "eps":
		return Eps("Bytes")
	case "unit":
		return Enc(l.Args[0])
	case "cat":
		var p []*Term
		for _, a := range l.Args {
			p = append(p, Encl(a))
		}
		return Cat(p...)
	}
	return App("encl", "Bytes", l)
}

func conjList(l *Term, name string, f func(x *Term) *Term) *Term {
	switch l.Op {
	case "eps":
		return True
	case "unit":
		return f(l.Args[0])
	case "cat":
		var p []*Term
		for _, a := range l.Args {
			p = append(p, conjList(a, name, f))
		}
		return And(p...)
	}
	return App(name, "Bool", l)
}

// Fits tells whether every vector inside a value respects the length limit.
func Fits(x *Term, extra ...*Term) *Term {
	switch {
	case isBV(x.Sort):
		return True
	case x.Sort == "Bytes":
		return Ult(Len(x), BV64(1<<30))
	case strings.HasPrefix(x.Sort, "S."):
		return And(Fitsl(x), Ult(Len(Encl(x)), BV64(1<<30)))
	case strings.HasPrefix(x.Sort, "O."):
		return Or(IsNone(x), Fits(Unsome(x)))
	}
	return App("fits:"+x.Sort, "Bool", append([]*Term{x}, extra...)...)
}

func Fitsl(l *Term) *Term {
	if es := elemSort(l.Sort); isBV(es) {
		return True
	}
	return conjList(l, "fitsl", func(x *Term) *Term { return Fits(x) })
}

// Wf is well-formedness of a value: valid discriminants, exactly the fields
// of the selected variant present.
func Wf(x *Term, extra ...*Term) *Term {
	switch {
	case isBV(x.Sort), x.Sort == "Bytes":
		return True
	case strings.HasPrefix(x.Sort, "S."):
		return Wfl(x)
	case strings.HasPrefix(x.Sort, "O."):
		return Or(IsNone(x), Wf(Unsome(x)))
	}
	return App("wf:"+x.Sort, "Bool", append([]*Term{x}, extra...)...)
}

func Wfl(l *Term) *Term {
	es := elemSort(l.Sort)
	if isBV(es) || es == "Bytes" {
		return True
	}
	return conjList(l, "wfl", func(x *Term) *Term { return Wf(x) })
}

// fitsOf derives the size condition of an encoding term.
func fitsOf(e *Term) *Term {
	switch e.Op {
	case "cat":
		var p []*Term
		for _, a := range e.Args {
			p = append(p, fitsOf(a))
		}
		return And(p...)
	case "ite":
		return Ite(e.Args[0], fitsOf(e.Args[1]), fitsOf(e.Args[2]))
	case "app":
		switch {
		case e.Name == "vi":
			return Ult(e.Args[0], BV64(1<<30))
		case strings.HasPrefix(e.Name, "enc:"):
			return Fits(e.Args[0], e.Args[1:]...)
		case e.Name == "encl":
			return Fitsl(e.Args[0])
		}
	}
	return True
}

// wfOf derives well-formedness of the parts of an encoding term.
func wfOf(e *Term) *Term {
	switch e.Op {
	case "cat":
		var p []*Term
		for _, a := range e.Args {
			p = append(p, wfOf(a))
		}
		return And(p...)
	case "ite":
		return Ite(e.Args[0], wfOf(e.Args[1]), wfOf(e.Args[2]))
	case "app":
		switch {
		case strings.HasPrefix(e.Name, "enc:"):
			return Wf(e.Args[0], e.Args[1:]...)
		case e.Name == "encl":
			return Wfl(e.Args[0])
		}
	}
	return True
}

// unfoldEnc replaces an encoder application by its definition.
func unfoldEnc(t *Term) *Term {
	if t.Op == "app" && strings.HasPrefix(t.Name, "enc:") {
		if d := encDef[t.Args[0].Sort]; d != nil {
			return d(t.Args)
		}
	}
	return nil
}

func isApp(t *Term, name string) bool { return t.Op == "app" && t.Name == name }

func init() {
	lenOfApp = func(t *Term) *Term {
		switch t.Name {
		case "zeros":
			return t.Args[0]
		case "nones", "reczeros":
			return t.Args[0]
		case "expand":
			// expand(kdf, prk, info, length)
			return Resize(t.Args[3], "BV64", false)
		case "mapped":
			return Len(t.Args[0])
		case "encl":
			// fixed-size elements
			es := elemSort(t.Args[0].Sort)
			if isBV(es) {
				return BVOp("bvmul", Len(t.Args[0]), BV64(uint64(bvw(es)/8)))
			}
		}
		if f := appLen[t.Name]; f != nil {
			return f(t)
		}
		return nil
	}
	appRewrite = func(name string, sort Sort, args []*Term) *Term {
		switch name {
		case "vi":
			if args[0].Op == "bv" && args[0].Val < 1<<30 {
				return Vi(args[0])
			}
		case "encl":
			switch args[0].Op {
			case "eps", "unit", "cat":
				return Encl(args[0])
			}
		case "fitsl":
			switch args[0].Op {
			case "eps", "unit", "cat":
				return Fitsl(args[0])
			}
		case "wfl":
			switch args[0].Op {
			case "eps", "unit", "cat":
				return Wfl(args[0])
			}
		case "zeros":
			if args[0].Op == "bv" && args[0].Val <= 64 {
				return BytesConst(strings.Repeat("\x00", int(args[0].Val)))
			}
		}
		if f := appRules[name]; f != nil {
			return f(sort, args)
		}
		return nil
	}
}

var (
	appLen   = map[string]func(t *Term) *Term{}
	appRules = map[string]func(sort Sort, args []*Term) *Term{}
)

// contains(list, x): membership in a sequence.
func Contains(l, x *Term) *Term {
	switch l.Op {
	case "eps":
		return False
	case "unit":
		return Eq(l.Args[0], x)
	case "cat":
		var p []*Term
		for _, a := range l.Args {
			p = append(p, Contains(a, x))
		}
		return Or(p...)
	}
	return mk("app", "contains", 0, "Bool", l, x)
}

func init() {
	appRules["contains"] = func(s Sort, args []*Term) *Term {
		switch args[0].Op {
		case "eps", "unit", "cat":
			return Contains(args[0], args[1])
		}
		return nil
	}
}

// stepSeq unfolds f(take(L, j)) next to f(take(L, i)) for j = i + k.
func stepTake(small, big *Term) (*Term, bool) {
	if small.Op != "take" && small.Op != "listof" {
		return nil, false
	}
	L := small.Args[0]
	var j *Term
	if big.Op == small.Op && big.Args[0] == L {
		j = big.Args[1]
	} else if big == L && small.Op == "take" {
		j = Len(L)
	} else {
		return nil, false
	}
	d := Sub(j, small.Args[1])
	if d.Op != "bv" || d.Val == 0 || d.Val > 4 {
		return nil, false
	}
	r := small
	for k := uint64(0); k < d.Val; k++ {
		i := Add(small.Args[1], BV64(k))
		x := Nth(L, i)
		if small.Op == "listof" {
			x = Select(L, i)
		}
		if r.Op == "eps" {
			r = Unit(x)
		} else {
			r = mk("cat", "", 0, r.Sort, append(append([]*Term(nil), atoms(r)...), Unit(x))...)
		}
	}
	return r, true
}
