package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic Go value.
type Value interface{}

type (
	// VT is a scalar, a record or an opaque value given by a term.
	VT struct{ t *Term }
	// VBytes is a []byte, a string or a byte array. With obj != 0 the
	// content lives in the heap and can be written.
	VBytes struct {
		nilf, s *Term
		obj     int
		path    []int
		sub     bool // part of a larger slice
		id      int  // identity of an owned slice, 0 if shared
	}
	// VOpaque is a value no obligation depends on (format arguments).
	VOpaque struct{ what string }
	// VList is a slice seen as a sequence of values.
	VList struct {
		nilf, s  *Term
		obj      int
		borrowed bool  // backing array may be shared
		hi       *Term // elements below this index are shared
		id       int   // identity of an owned slice
	}
	// VArr is a slice kept as an SMT array in the heap.
	VArr struct {
		nilf *Term
		obj  int
		len  *Term
	}
	// VPtr points into a heap object (obj 0 is the nil pointer).
	VPtr struct {
		obj  int
		path []int
	}
	// VOpt is a possibly nil pointer to an immutable value.
	VOpt struct {
		t    *Term
		prov *prov
	}
	// VView is a non-nil pointer to an immutable value.
	VView struct {
		t    *Term
		prov *prov
	}
	// VElem is the address of an element of a slice or array.
	VElem struct {
		base Value
		idx  *Term
		typ  types.Type
	}
	VStruct struct {
		typ types.Type
		f   []Value
	}
	VErr   struct{ nilf *Term }
	VIface struct {
		typ types.Type // nil for the nil interface
		v   Value
	}
	VFunc struct {
		fn   *ssa.Function
		bind []Value
		ext  string // opaque function value
		nilf *Term
	}
	VTuple []Value
	VMap   struct {
		nilf *Term
		obj  int
	}
	// VHash refers to a hash.Hash object.
	VHash struct{ obj int }

	// heap cells
	VArrC struct {
		arr   *Term
		fresh *Term // array index -> Bool: node not shared
	}
	VMapC struct {
		key, val Sort // val "" for sets
		dom, m   *Term
	}
	VConstMap struct {
		keys []*Term
		vals []Value
		vt   types.Type
	}
	VBuilder struct{ err, out *Term }
	VHashC   struct{ h, key, content *Term }
	VIter    struct {
		m       VMap
		visited *Term
	}
)

// prov tells where a pointer value was loaded from: an element of an array in
// the heap, and the selector path below it.
type prov struct {
	arr  int
	idx  *Term
	path []int // field path below the node value; -1 dereferences an option
	ver  int   // number of writes through pointers when it was loaded
}

func (p *prov) ext(i int) *prov {
	if p == nil {
		return nil
	}
	return &prov{p.arr, p.idx, append(append([]int(nil), p.path...), i), p.ver}
}

// ---- sorts of Go types ----

var arrTypes = map[string]bool{"ratchetTree": true, "secretTree": true}

// nilBytes lists byte string fields whose nil-ness is part of the value.
var nilBytes = map[string]bool{"groupSecrets.pathSecret": true}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() != nil && o.Pkg().Path() != mlsPath {
			return o.Pkg().Path() + "." + o.Name()
		}
		return o.Name()
	}
	if a, ok := t.(*types.Alias); ok {
		return typeName(types.Unalias(a))
	}
	return t.String()
}

const mlsPath = "github.com/emersion/go-mls"

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isArrType(t types.Type) bool {
	if arrTypes[typeName(t)] {
		return true
	}
	if s, ok := t.Underlying().(*types.Slice); ok && typeName(s.Elem()) == "hpkePrivateKey" {
		return true
	}
	return false
}

// sortOf returns the logical sort of a Go type, or "" if values of the type
// are not representable by a single term.
func sortOf(t types.Type) Sort {
	if isArrType(t) {
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return "Bool"
		case types.Int8, types.Uint8:
			return "BV8"
		case types.Int16, types.Uint16:
			return "BV16"
		case types.Int32, types.Uint32, types.UntypedRune:
			return "BV32"
		case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
			return "BV64"
		case types.String, types.UntypedString:
			return "Bytes"
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			return "Bytes"
		}
		if e := sortOf(u.Elem()); e != "" {
			return "S." + e
		}
	case *types.Array:
		if isByte(u.Elem()) {
			return "Bytes"
		}
	case *types.Pointer:
		if e := sortOf(u.Elem()); strings.HasPrefix(e, "R.") {
			return "O." + e
		}
	case *types.Struct:
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || n.Obj().Pkg() == nil {
			if u.NumFields() == 0 {
				recTab["R.empty"] = nil
				recGo["R.empty"] = u
				return "R.empty"
			}
			return ""
		}
		if n.Obj().Pkg().Path() != mlsPath {
			return "U." + typeName(n)
		}
		// types with identical underlying structs share a sort
		name := canonicalStruct(n)
		s := "R." + name
		if _, ok := recTab[s]; ok {
			return s
		}
		recTab[s] = nil // break cycles
		recGo[s], recNamed[s] = u, t
		var fs []recField
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fsort := sortOf(f.Type())
			if fsort == "" {
				delete(recTab, s)
				return ""
			}
			if nilBytes[name+"."+f.Name()] {
				fsort = "O.Bytes"
			}
			if a, ok := f.Type().Underlying().(*types.Array); ok {
				fixedLen[s+"/"+f.Name()] = uint64(a.Len())
			}
			fs = append(fs, recField{f.Name(), fsort})
		}
		recTab[s] = fs
		return s
	}
	return ""
}

// fixedLen gives the length of byte array fields.
var fixedLen = map[string]uint64{}

func canonicalStruct(n *types.Named) string {
	name := n.Obj().Name()
	if name == "groupInfoTBS" {
		return "groupInfo"
	}
	return name
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isErrorType(t types.Type) bool { return t.String() == "error" }

// arrElemSort is the element sort of arr-mode slices.
func arrElemSort(t types.Type) Sort {
	e := elemOf(t)
	if isByteSlice(e) {
		return "O.Bytes"
	}
	return sortOf(e)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

func (v VT) String() string { return v.t.String() }

func vstr(v Value) string {
	switch v := v.(type) {
	case VT:
		return v.t.String()
	case VBytes:
		return "bytes(" + v.s.String() + ")"
	case VList:
		return "list(" + v.s.String() + ")"
	case VStruct:
		var s []string
		for _, f := range v.f {
			s = append(s, vstr(f))
		}
		return typeName(v.typ) + "{" + strings.Join(s, ", ") + "}"
	case VErr:
		return "err(nil=" + v.nilf.String() + ")"
	case VOpt:
		return "opt(" + v.t.String() + ")"
	}
	return fmt.Sprintf("%T%v", v, v)
}
