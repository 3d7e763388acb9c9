package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Models of the functions outside the package. They are the trusted base of
// the verifier: what each assumes is listed in modelNotes.

const (
	sSuite   = "U.github.com/cloudflare/circl/hpke.Suite"
	sAEAD    = "U.crypto/cipher.AEAD"
	sScheme  = "U.github.com/cloudflare/circl/kem.Scheme"
	sKemPub  = "U.github.com/cloudflare/circl/kem.PublicKey"
	sKemPriv = "U.github.com/cloudflare/circl/kem.PrivateKey"
	sSender  = "U.hpke.sender"
	sSealer  = "U.github.com/cloudflare/circl/hpke.Sealer"
	sRecv    = "U.hpke.receiver"
	sOpener  = "U.github.com/cloudflare/circl/hpke.Opener"
	sTime    = "U.time.Time"
	sCurve   = "U.crypto/elliptic.Curve"
)

func vbytes(s *Term) VBytes { return VBytes{nilf: False, s: s} }

// owned returns a byte slice the caller may write to.
func (st *State) owned(s *Term) VBytes {
	return VBytes{nilf: False, obj: st.allocBytes(s), id: newID()}
}

func (c *callCtx) t(i int) *Term {
	switch v := c.st.normV(c.args[i]).(type) {
	case VT:
		return v.t
	case VBytes:
		return c.st.bytes(v)
	}
	panic(unsup("%s: argument %d is %T", c.name, i, c.args[i]))
}

func (c *callCtx) fails(x *Ex, cond *Term, note string, ok func(c *callCtx), bad func(c *callCtx)) {
	x.fork(c.st, cond, posOf(c.pos)+" "+note, func(s *State) {
		d := *c
		d.st = s
		ok(&d)
	}, func(s *State) {
		d := *c
		d.st = s
		bad(&d)
	})
}

var (
	errNil = VErr{True}
	errSet = VErr{False}
)

func builderOf(x *Ex, c *callCtx) (VPtr, VBuilder) {
	p, ok := x.nilCheck(c.st, c.fr, c.args[0], c.pos).(VPtr)
	if !ok {
		panic(unsup("%s on %T", c.name, c.args[0]))
	}
	b, ok := c.st.loadPath(p.obj, p.path).(VBuilder)
	if !ok {
		panic(unsup("%s on a cell of another type", c.name))
	}
	if c.st.frozen[p.obj] || c.st.readonly[p.obj] {
		x.fail(c.st, c.fr, "frame", "write to a builder the contract does not allow", c.pos)
	}
	return p, b
}

func addOut(x *Ex, c *callCtx, t *Term) {
	p, b := builderOf(x, c)
	c.st.storePath(p.obj, p.path, VBuilder{b.err, c.st.norm(Cat(b.out, t))})
	c.ret()
}

// front returns the first atom of a byte string after unfolding encoders,
// forking over conditional encodings.
func (x *Ex) front(st *State, s *Term, k func(*State, []*Term)) {
	s = st.norm(s)
	as := atoms(s)
	if len(as) == 0 {
		k(st, nil)
		return
	}
	f := as[0]
	if u := unfoldEnc(f); u != nil {
		x.front(st, Cat(append([]*Term{u}, as[1:]...)...), k)
		return
	}
	if isApp(f, "encl") {
		l := f.Args[0]
		x.fork(st, Ult(BV64(0), Len(l)), "", func(a *State) {
			h := Enc(Nth(l, BV64(0)))
			x.front(a, Cat(append([]*Term{h, Encl(Drop(l, BV64(1)))}, as[1:]...)...), k)
		}, func(b *State) {
			x.front(b, Cat(append([]*Term{Eps("Bytes")}, as[1:]...)...), k)
		})
		return
	}
	if f.Op == "ite" {
		x.fork(st, f.Args[0], "", func(a *State) {
			x.front(a, Cat(append([]*Term{f.Args[1]}, as[1:]...)...), k)
		}, func(b *State) {
			x.front(b, Cat(append([]*Term{f.Args[2]}, as[1:]...)...), k)
		})
		return
	}
	k(st, as)
}

// readInt reads a big-endian number of n bytes from the front of s.
func (x *Ex) readInt(st *State, s *Term, n int, hint string, k func(st *State, v, rest *Term)) {
	so := Sort(fmt.Sprintf("BV%d", 8*n))
	x.front(st, s, func(st *State, as []*Term) {
		if len(as) == 0 {
			k(st, nil, nil)
			return
		}
		f := as[0]
		rest := func() *Term { return st.norm(Cat(append([]*Term{Eps("Bytes")}, as[1:]...)...)) }
		if f.Op == "be" && f.Args[0].Sort == so {
			k(st, f.Args[0], rest())
			return
		}
		if f.Op == "unit" && n == 1 {
			k(st, f.Args[0], rest())
			return
		}
		// byte constants
		if c, ok := constBytes(f); ok {
			if len(c) >= n {
				var v uint64
				for i := 0; i < n; i++ {
					v = v<<8 | uint64(c[i])
				}
				r := Cat(append([]*Term{BytesConst(c[n:])}, as[1:]...)...)
				k(st, BV(v, so), st.norm(r))
				return
			}
		}
		all := Cat(append([]*Term{f}, as[1:]...)...)
		x.fork(st, Ule(BV64(uint64(n)), Len(all)), "", func(a *State) {
			v, r := Fresh(hint, so), Fresh("s", "Bytes")
			a.assume(Eq(all, Cat(BE(v), r)))
			if a.dead {
				return
			}
			k(a, a.norm(v), a.norm(r))
		}, func(b *State) { k(b, nil, nil) })
	})
}

// readBytes splits n bytes off the front of s.
func (x *Ex) readBytes(st *State, s, n *Term, k func(st *State, v, rest *Term)) {
	n = st.norm(n)
	if as := atoms(st.norm(s)); n != BV64(0) {
		l := BV64(0)
		for i, a := range as {
			l = Add(l, Len(a))
			if st.norm(l) == n {
				k(st, st.norm(Cat(append([]*Term{Eps("Bytes")}, as[:i+1]...)...)), st.norm(Cat(append([]*Term{Eps("Bytes")}, as[i+1:]...)...)))
				return
			}
		}
	}
	x.front(st, s, func(st *State, as []*Term) {
		if len(as) > 0 && st.norm(Len(as[0])) == n && n != BV64(0) {
			k(st, as[0], st.norm(Cat(append([]*Term{Eps("Bytes")}, as[1:]...)...)))
			return
		}
		all := Cat(append([]*Term{Eps("Bytes")}, as...)...)
		// a fixed number of leading atoms
		l := BV64(0)
		for i, a := range as {
			l = Add(l, Len(a))
			if st.norm(l) == n {
				k(st, st.norm(Cat(append([]*Term{Eps("Bytes")}, as[:i+1]...)...)), st.norm(Cat(append([]*Term{Eps("Bytes")}, as[i+1:]...)...)))
				return
			}
		}
		if n == BV64(0) {
			k(st, Eps("Bytes"), all)
			return
		}
		x.fork(st, Ule(n, Len(all)), "", func(a *State) {
			v, r := Fresh("b", "Bytes"), Fresh("s", "Bytes")
			a.assume(Eq(Len(v), n))
			a.set(Len(v), n)
			a.assume(Eq(all, Cat(v, r)))
			if a.dead {
				return
			}
			k(a, a.norm(v), a.norm(r))
		}, func(b *State) { k(b, nil, nil) })
	})
}

func constBytes(t *Term) (string, bool) {
	if t.Op == "bytes" {
		return t.Name, true
	}
	return "", false
}

func stringCell(x *Ex, c *callCtx) (VPtr, *Term) {
	p, ok := x.nilCheck(c.st, c.fr, c.args[0], c.pos).(VPtr)
	if !ok {
		panic(unsup("%s on %T", c.name, c.args[0]))
	}
	b, ok := c.st.loadPath(p.obj, p.path).(VBytes)
	if !ok {
		panic(unsup("%s on another cell", c.name))
	}
	return p, c.st.bytes(b)
}

func (x *Ex) setString(c *callCtx, st *State, p VPtr, s *Term) {
	if st.readonly[p.obj] || st.frozen[p.obj] {
		x.fail(st, c.fr, "frame", "advances a string the contract does not allow to modify", c.pos)
	}
	st.storePath(p.obj, p.path, VBytes{s: s})
}

func readModel(n int) model {
	return func(x *Ex, c *callCtx) {
		p, s := stringCell(x, c)
		out := c.args[1]
		x.readInt(c.st, s, n, "n", func(st *State, v, rest *Term) {
			if v == nil {
				c.k(st, []Value{VT{False}})
				return
			}
			x.setString(c, st, p, rest)
			if !x.try(func() { x.store(st, c.fr, out, VT{v}, c.pos) }) {
				return
			}
			c.k(st, []Value{VT{True}})
		})
	}
}

func nop(x *Ex, c *callCtx) { c.ret() }

// randomTerm is a value chosen by the environment.
func randomTerm(hint string, s Sort) *Term { return Fresh(hint, s) }

func suiteParts(s *Term) (kem, kdf, aead *Term) {
	if isApp(s, "suite") {
		return s.Args[0], s.Args[1], s.Args[2]
	}
	return App("kemof", "BV16", s), App("kdfof", "BV16", s), App("aeadof", "BV16", s)
}

func init() {
	for _, p := range strings.Fields("crypto crypto/ecdsa crypto/ed25519 crypto/elliptic crypto/hmac crypto/rand crypto/sha256 crypto/sha512 fmt math/big github.com/cloudflare/circl/hpke github.com/cloudflare/circl/sign/ed448 golang.org/x/crypto/cryptobyte io bytes time slices errors encoding/binary sort strings math strconv maps cmp math/bits crypto/subtle encoding/hex hash crypto/cipher") {
		models[p+".init"] = nop
	}
	m := models
	// ---- cryptobyte ----
	const B = "(*golang.org/x/crypto/cryptobyte.Builder)."
	const S = "(*golang.org/x/crypto/cryptobyte.String)."
	for n, w := range map[string]int{"AddUint8": 1, "AddUint16": 2, "AddUint32": 4, "AddUint64": 8} {
		w := w
		m[B+n] = func(x *Ex, c *callCtx) { addOut(x, c, BE(Resize(c.t(1), Sort(fmt.Sprintf("BV%d", 8*w)), false))) }
	}
	m[B+"AddBytes"] = func(x *Ex, c *callCtx) { addOut(x, c, c.t(1)) }
	m[B+"SetError"] = func(x *Ex, c *callCtx) {
		p, b := builderOf(x, c)
		e, ok := c.args[1].(VErr)
		if !ok || c.st.norm(e.nilf) != False {
			panic(unsup("SetError with a possibly nil error"))
		}
		c.st.storePath(p.obj, p.path, VBuilder{True, b.out})
		c.ret()
	}
	m[B+"Bytes"] = func(x *Ex, c *callCtx) {
		_, b := builderOf(x, c)
		c.fails(x, Not(b.err), "builder has no error", func(c *callCtx) {
			nf := False
			if l := c.st.norm(Len(b.out)); !(l.Op == "bv" && l.Val > 0) {
				nf = Fresh("nil", "Bool")
				c.st.assume(Imp(nf, Eq(l, BV64(0))))
			}
			c.ret(VBytes{nilf: c.st.norm(nf), s: c.st.norm(b.out)}, errNil)
		}, func(c *callCtx) { c.ret(VBytes{nilf: True, s: Eps("Bytes")}, errSet) })
	}
	m[B+"BytesOrPanic"] = func(x *Ex, c *callCtx) {
		_, b := builderOf(x, c)
		x.safety(c.st, c.fr, Not(b.err), "BytesOrPanic", c.pos)
		c.ret(VBytes{nilf: False, s: c.st.norm(b.out)})
	}
	m[S+"ReadUint8"] = readModel(1)
	m[S+"ReadUint16"] = readModel(2)
	m[S+"ReadUint32"] = readModel(4)
	m[S+"ReadUint64"] = readModel(8)
	m[S+"ReadBytes"] = func(x *Ex, c *callCtx) {
		p, s := stringCell(x, c)
		out := c.args[1]
		n := c.t(2)
		c.fails(x, Sle(BV64(0), n), "length is not negative", func(c *callCtx) {
			x.readBytes(c.st, s, n, func(st *State, v, rest *Term) {
				if v == nil {
					c.k(st, []Value{VT{False}})
					return
				}
				x.setString(c, st, p, rest)
				if !x.try(func() { x.store(st, c.fr, out, VBytes{nilf: False, s: v}, c.pos) }) {
					return
				}
				c.k(st, []Value{VT{True}})
			})
		}, func(c *callCtx) { c.ret(VT{False}) })
	}
	m[S+"Skip"] = func(x *Ex, c *callCtx) {
		p, s := stringCell(x, c)
		n := c.t(1)
		c.fails(x, Sle(BV64(0), n), "length is not negative", func(c *callCtx) {
			x.readBytes(c.st, s, n, func(st *State, v, rest *Term) {
				if v == nil {
					c.k(st, []Value{VT{False}})
					return
				}
				x.setString(c, st, p, rest)
				c.k(st, []Value{VT{True}})
			})
		}, func(c *callCtx) { c.ret(VT{False}) })
	}
	m[S+"CopyBytes"] = func(x *Ex, c *callCtx) {
		p, s := stringCell(x, c)
		out, ok := c.args[1].(VBytes)
		if !ok {
			panic(unsup("CopyBytes into %T", c.args[1]))
		}
		n := Len(c.st.bytes(out))
		x.readBytes(c.st, s, n, func(st *State, v, rest *Term) {
			if v == nil {
				c.k(st, []Value{VT{False}})
				return
			}
			x.setString(c, st, p, rest)
			if out.obj == 0 && st.norm(n) == BV64(0) {
				c.k(st, []Value{VT{True}})
				return
			}
			if out.obj == 0 || st.frozen[out.obj] || st.readonly[out.obj] {
				x.fail(st, c.fr, "frame", "write to a shared byte slice", c.pos)
				return
			}
			st.storePath(out.obj, out.path, VBytes{nilf: False, s: v})
			c.k(st, []Value{VT{True}})
		})
	}
	m["(golang.org/x/crypto/cryptobyte.String).Empty"] = func(x *Ex, c *callCtx) {
		s := c.t(0)
		if isApp(s, "encl") {
			// every element takes at least one byte
			c.ret(VT{c.st.norm(Eq(Len(s.Args[0]), BV64(0)))})
			return
		}
		c.ret(VT{c.st.norm(Eq(Len(s), BV64(0)))})
	}
	m["golang.org/x/crypto/cryptobyte.NewBuilder"] = func(x *Ex, c *callCtx) {
		c.ret(VPtr{obj: c.st.alloc(VBuilder{False, c.t(0)})})
	}
	// ---- basics ----
	m["fmt.Errorf"] = func(x *Ex, c *callCtx) { c.ret(errSet) }
	m["errors.New"] = func(x *Ex, c *callCtx) { c.ret(errSet) }
	m["fmt.Sprintf"] = func(x *Ex, c *callCtx) { c.ret(vbytes(Fresh("str", "Bytes"))) }
	m["bytes.Equal"] = func(x *Ex, c *callCtx) { c.ret(VT{c.st.norm(Eq(c.t(0), c.t(1)))}) }
	m["crypto/hmac.Equal"] = m["bytes.Equal"]
	m["crypto/subtle.ConstantTimeCompare"] = func(x *Ex, c *callCtx) {
		c.ret(VT{c.st.norm(Ite(Eq(c.t(0), c.t(1)), BV64(1), BV64(0)))})
	}
	m["slices.Contains"] = func(x *Ex, c *callCtx) {
		l, ok := c.args[0].(VList)
		if !ok {
			panic(unsup("slices.Contains on %T", c.args[0]))
		}
		s := c.st.list(l)
		c.ret(VT{c.st.norm(Contains(s, c.st.peekTerm(c.args[1], elemSort(s.Sort))))})
	}
	m["crypto/rand.Read"] = func(x *Ex, c *callCtx) {
		b := c.args[0].(VBytes)
		n := Len(c.st.bytes(b))
		if b.obj == 0 || c.st.frozen[b.obj] || c.st.readonly[b.obj] {
			x.fail(c.st, c.fr, "frame", "write to a shared byte slice", c.pos)
			return
		}
		r := Fresh("random", "Bytes")
		c.st.assume(Eq(Len(r), n))
		c.st.storePath(b.obj, b.path, VBytes{nilf: False, s: r})
		c.fails(x, Fresh("rand", "Bool"), "random source works", func(c *callCtx) { c.ret(VT{n}, errNil) }, func(c *callCtx) { c.ret(VT{BV64(0)}, errSet) })
	}
	m["invoke:error.Error"] = func(x *Ex, c *callCtx) { c.ret(vbytes(Fresh("str", "Bytes"))) }
	// ---- time ----
	m["time.Now"] = func(x *Ex, c *callCtx) { c.ret(VT{App("clock", sTime, App("func:time.Now", "U.func"))}) }
	m["time.Unix"] = func(x *Ex, c *callCtx) { c.ret(VT{App("unixtime", sTime, c.t(0), c.t(1))}) }
	m["(time.Time).Add"] = func(x *Ex, c *callCtx) { c.ret(VT{App("timeadd", sTime, c.t(0), c.t(1))}) }
	m["(time.Time).Sub"] = func(x *Ex, c *callCtx) { c.ret(VT{App("timesub", "BV64", c.t(0), c.t(1))}) }
	m["(time.Time).After"] = func(x *Ex, c *callCtx) { c.ret(VT{App("timeafter", "Bool", c.t(0), c.t(1))}) }
	m["(time.Time).Before"] = func(x *Ex, c *callCtx) { c.ret(VT{App("timeafter", "Bool", c.t(1), c.t(0))}) }
	m["(time.Time).IsZero"] = func(x *Ex, c *callCtx) { c.ret(VT{App("timeiszero", "Bool", c.t(0))}) }
	m["(time.Time).Unix"] = func(x *Ex, c *callCtx) { c.ret(VT{App("timeunix", "BV64", c.t(0))}) }
	// ---- hashes ----
	m["(crypto.Hash).New"] = func(x *Ex, c *callCtx) {
		c.ret(VHash{c.st.alloc(VHashC{h: c.t(0), content: Eps("Bytes")})})
	}
	m["(crypto.Hash).Size"] = func(x *Ex, c *callCtx) { c.ret(VT{App("hsize", "BV64", c.t(0))}) }
	m["crypto/hmac.New"] = func(x *Ex, c *callCtx) {
		f, ok := c.args[0].(VFunc)
		if !ok || f.fn == nil || len(f.bind) != 1 || !strings.Contains(f.fn.String(), "crypto.Hash).New") {
			panic(unsup("hmac.New with another hash constructor"))
		}
		h := f.bind[0].(VT).t
		c.ret(VHash{c.st.alloc(VHashC{h: h, key: c.t(1), content: Eps("Bytes")})})
	}
	m["invoke:hash.Write"] = func(x *Ex, c *callCtx) {
		o := c.args[0].(VHash).obj
		h := c.st.heap[o].(VHashC)
		h.content = c.st.norm(Cat(h.content, c.t(1)))
		c.st.heap[o] = h
		c.ret(VT{c.st.norm(Len(c.t(1)))}, errNil)
	}
	m["invoke:hash.Sum"] = func(x *Ex, c *callCtx) {
		h := c.st.heap[c.args[0].(VHash).obj].(VHashC)
		var t *Term
		if h.key != nil {
			t = App("hmac", "Bytes", h.h, h.key, h.content)
		} else {
			t = App("hash", "Bytes", h.h, h.content)
		}
		c.ret(c.st.owned(c.st.norm(Cat(c.t(1), t))))
	}
	m["invoke:hash.Size"] = func(x *Ex, c *callCtx) {
		h := c.st.heap[c.args[0].(VHash).obj].(VHashC)
		c.ret(VT{App("hsize", "BV64", h.h)})
	}
	// ---- HPKE ----
	const H = "github.com/cloudflare/circl/hpke"
	m[H+".NewSuite"] = func(x *Ex, c *callCtx) { c.ret(VT{App("suite", sSuite, c.t(0), c.t(1), c.t(2))}) }
	m["("+H+".Suite).Params"] = func(x *Ex, c *callCtx) {
		a, b, d := suiteParts(c.t(0))
		c.ret(VT{a}, VT{b}, VT{d})
	}
	m["("+H+".KDF).ExtractSize"] = func(x *Ex, c *callCtx) { c.ret(VT{App("nh", "BV64", c.t(0))}) }
	m["("+H+".KDF).Extract"] = func(x *Ex, c *callCtx) {
		c.ret(c.st.owned(App("extract", "Bytes", c.t(0), c.t(1), c.t(2))))
	}
	m["("+H+".KDF).Expand"] = func(x *Ex, c *callCtx) {
		nh := App("nh", "BV64", c.t(0))
		x.safety(c.st, c.fr, Ule(nh, Len(c.t(1))), "HKDF-Expand: key shorter than the hash", c.pos)
		x.safety(c.st, c.fr, Ule(c.t(3), BVOp("bvmul", BV64(255), nh)), "HKDF-Expand: output too long", c.pos)
		c.ret(c.st.owned(App("expand", "Bytes", c.t(0), c.t(1), c.t(2), c.t(3))))
	}
	m["("+H+".AEAD).KeySize"] = func(x *Ex, c *callCtx) { c.ret(VT{App("nk", "BV64", c.t(0))}) }
	m["("+H+".AEAD).NonceSize"] = func(x *Ex, c *callCtx) { c.ret(VT{App("nn", "BV64", c.t(0))}) }
	m["("+H+".AEAD).New"] = func(x *Ex, c *callCtx) {
		c.fails(x, Eq(Len(c.t(1)), App("nk", "BV64", c.t(0))), "AEAD key has the right size", func(c *callCtx) {
			c.ret(VT{App("aead", sAEAD, c.t(0), c.t(1))}, errNil)
		}, func(c *callCtx) { c.ret(VT{Fresh("aead", sAEAD)}, errSet) })
	}
	aeadParts := func(t *Term) (*Term, *Term) {
		if isApp(t, "aead") {
			return t.Args[0], t.Args[1]
		}
		return App("aeadid", "BV16", t), App("aeadkey", "Bytes", t)
	}
	m["invoke:"+sAEAD+".Seal"] = func(x *Ex, c *callCtx) {
		a, k := aeadParts(c.t(0))
		x.safety(c.st, c.fr, Eq(Len(c.t(2)), App("nn", "BV64", a)), "AEAD nonce has the right size", c.pos)
		c.ret(c.st.owned(c.st.norm(Cat(c.t(1), App("seal", "Bytes", a, k, c.t(2), c.t(3), c.t(4))))))
	}
	m["invoke:"+sAEAD+".Open"] = func(x *Ex, c *callCtx) {
		a, k := aeadParts(c.t(0))
		x.safety(c.st, c.fr, Eq(Len(c.t(2)), App("nn", "BV64", a)), "AEAD nonce has the right size", c.pos)
		if c.st.norm(Len(c.t(1))) != BV64(0) {
			panic(unsup("Open with a destination"))
		}
		args := []*Term{a, k, c.t(2), c.t(3), c.t(4)}
		c.fails(x, App("opens", "Bool", args...), "AEAD opens", func(c *callCtx) {
			c.ret(c.st.owned(c.st.norm(App("open", "Bytes", args...))), errNil)
		}, func(c *callCtx) { c.ret(VBytes{nilf: True, s: Eps("Bytes")}, errSet) })
	}
	m["invoke:"+sAEAD+".NonceSize"] = func(x *Ex, c *callCtx) {
		a, _ := aeadParts(c.t(0))
		c.ret(VT{App("nn", "BV64", a)})
	}
	m["("+H+".KEM).Scheme"] = func(x *Ex, c *callCtx) { c.ret(VT{App("kemscheme", sScheme, c.t(0))}) }
	kemOf := func(t *Term) *Term {
		if isApp(t, "kemscheme") {
			return t.Args[0]
		}
		return App("schemekem", "BV16", t)
	}
	m["invoke:"+sScheme+".SeedSize"] = func(x *Ex, c *callCtx) { c.ret(VT{App("nseed", "BV64", kemOf(c.t(0)))}) }
	m["invoke:"+sScheme+".DeriveKeyPair"] = func(x *Ex, c *callCtx) {
		k := kemOf(c.t(0))
		x.safety(c.st, c.fr, Eq(Len(c.t(1)), App("nseed", "BV64", k)), "DeriveKeyPair: seed has the right size", c.pos)
		c.ret(VT{App("kempub", sKemPub, App("pubof", "Bytes", k, App("dkpriv", "Bytes", k, c.t(1))))}, VT{App("kempriv", sKemPriv, App("dkpriv", "Bytes", k, c.t(1)))})
	}
	m["invoke:"+sScheme+".GenerateKeyPair"] = func(x *Ex, c *callCtx) {
		k := kemOf(c.t(0))
		priv := App("dkpriv", "Bytes", k, Fresh("seed", "Bytes"))
		c.fails(x, Fresh("keygen", "Bool"), "key generation works", func(c *callCtx) {
			c.ret(VT{App("kempub", sKemPub, App("pubof", "Bytes", k, priv))}, VT{App("kempriv", sKemPriv, priv)}, errNil)
		}, func(c *callCtx) { c.ret(VT{Fresh("pub", sKemPub)}, VT{Fresh("priv", sKemPriv)}, errSet) })
	}
	marsh := func(name string) model {
		return func(x *Ex, c *callCtx) {
			t := c.t(0)
			if !isApp(t, name) {
				panic(unsup("MarshalBinary of an unknown key"))
			}
			c.fails(x, App("marshals:"+name, "Bool", t), "key marshals", func(c *callCtx) {
				c.ret(c.st.owned(t.Args[0]), errNil)
			}, func(c *callCtx) { c.ret(VBytes{nilf: True, s: Eps("Bytes")}, errSet) })
		}
	}
	m["invoke:"+sKemPub+".MarshalBinary"] = marsh("kempub")
	m["invoke:"+sKemPriv+".MarshalBinary"] = marsh("kempriv")
	m["invoke:"+sScheme+".UnmarshalBinaryPublicKey"] = func(x *Ex, c *callCtx) {
		c.fails(x, App("validpub", "Bool", kemOf(c.t(0)), c.t(1)), "HPKE public key is valid", func(c *callCtx) {
			c.ret(VT{App("kempub", sKemPub, c.t(1))}, errNil)
		}, func(c *callCtx) { c.ret(VT{Fresh("pub", sKemPub)}, errSet) })
	}
	m["invoke:"+sScheme+".UnmarshalBinaryPrivateKey"] = func(x *Ex, c *callCtx) {
		c.fails(x, App("validpriv", "Bool", kemOf(c.t(0)), c.t(1)), "HPKE private key is valid", func(c *callCtx) {
			c.ret(VT{App("kempriv", sKemPriv, c.t(1))}, errNil)
		}, func(c *callCtx) { c.ret(VT{Fresh("priv", sKemPriv)}, errSet) })
	}
	pk := func(t *Term, name string) *Term {
		if isApp(t, name) {
			return t.Args[0]
		}
		return App(name+"bytes", "Bytes", t)
	}
	okErr := func(x *Ex, c *callCtx, note string, v Value, bad Value) {
		c.fails(x, Fresh("ok", "Bool"), note, func(c *callCtx) { c.ret(v, errNil) }, func(c *callCtx) { c.ret(bad, errSet) })
	}
	m["("+H+".Suite).NewSender"] = func(x *Ex, c *callCtx) {
		okErr(x, c, "HPKE sender is created", VT{App("hsender", sSender, c.t(0), pk(c.t(1), "kempub"), c.t(2))}, VT{Fresh("sender", sSender)})
	}
	m["(*"+H+".Sender).Setup"] = func(x *Ex, c *callCtx) {
		t := c.t(0)
		if !isApp(t, "hsender") {
			panic(unsup("Setup of an unknown sender"))
		}
		enc := Fresh("kemoutput", "Bytes")
		c.fails(x, Fresh("ok", "Bool"), "HPKE sender is set up", func(c *callCtx) {
			c.ret(c.st.owned(enc), VT{App("hsealer", sSealer, t.Args[0], t.Args[1], t.Args[2], enc)}, errNil)
		}, func(c *callCtx) {
			c.ret(VBytes{nilf: True, s: Eps("Bytes")}, VT{Fresh("sealer", sSealer)}, errSet)
		})
	}
	m["invoke:"+sSealer+".Seal"] = func(x *Ex, c *callCtx) {
		t := c.t(0)
		if !isApp(t, "hsealer") {
			panic(unsup("Seal of an unknown sealer"))
		}
		ct := Fresh("ciphertext", "Bytes")
		p := App("sealed", "Bool", t.Args[0], t.Args[1], t.Args[2], c.t(2), c.t(1), t.Args[3], ct)
		c.fails(x, Fresh("ok", "Bool"), "HPKE seals", func(c *callCtx) {
			c.st.assume(p)
			c.ret(c.st.owned(ct), errNil)
		}, func(c *callCtx) { c.ret(VBytes{nilf: True, s: Eps("Bytes")}, errSet) })
	}
	// what a receiver can open depends on the public key of its private key
	pubOf := func(t *Term) *Term {
		kem, _, _ := suiteParts(t.Args[0])
		return App("pubof", "Bytes", kem, t.Args[1])
	}
	m["("+H+".Suite).NewReceiver"] = func(x *Ex, c *callCtx) {
		okErr(x, c, "HPKE receiver is created", VT{App("hrecv", sRecv, c.t(0), pk(c.t(1), "kempriv"), c.t(2))}, VT{Fresh("recv", sRecv)})
	}
	m["(*"+H+".Receiver).Setup"] = func(x *Ex, c *callCtx) {
		t := c.t(0)
		if !isApp(t, "hrecv") {
			panic(unsup("Setup of an unknown receiver"))
		}
		enc := c.t(1)
		c.fails(x, App("hpkesetup", "Bool", t.Args[0], pubOf(t), t.Args[2], enc), "HPKE receiver is set up", func(c *callCtx) {
			c.ret(VT{App("hopener", sOpener, t.Args[0], t.Args[1], t.Args[2], enc)}, errNil)
		}, func(c *callCtx) { c.ret(VT{Fresh("opener", sOpener)}, errSet) })
	}
	m["invoke:"+sOpener+".Open"] = func(x *Ex, c *callCtx) {
		t := c.t(0)
		if !isApp(t, "hopener") {
			panic(unsup("Open of an unknown opener"))
		}
		args := []*Term{t.Args[0], pubOf(t), t.Args[2], c.t(2), t.Args[3], c.t(1)}
		c.fails(x, App("hpkeopens", "Bool", args...), "HPKE opens", func(c *callCtx) {
			c.ret(c.st.owned(c.st.norm(App("hpkeopen", "Bytes", args...))), errNil)
		}, func(c *callCtx) { c.ret(VBytes{nilf: True, s: Eps("Bytes")}, errSet) })
	}
	// ---- signatures ----
	const sSig = "U.signatureScheme"
	m["invoke:"+sSig+".Sign"] = func(x *Ex, c *callCtx) {
		s, k, msg := c.t(0), c.t(1), c.t(2)
		sig := Fresh("sig", "Bytes")
		c.fails(x, App("cansign", "Bool", s, k), "signing works", func(c *callCtx) {
			c.st.assume(App("signed", "Bool", s, k, msg, sig))
			c.ret(c.st.owned(sig), errNil)
		}, func(c *callCtx) { c.ret(VBytes{nilf: True, s: Eps("Bytes")}, errSet) })
	}
	m["invoke:"+sSig+".Verify"] = func(x *Ex, c *callCtx) {
		c.ret(VT{App("sigok", "Bool", c.t(0), c.t(1), c.t(2), c.t(3))})
	}
	m["invoke:"+sSig+".GenerateKeyPair"] = func(x *Ex, c *callCtx) {
		s := c.t(0)
		k := randomTerm("sigkey", "Bytes")
		c.fails(x, Fresh("keygen", "Bool"), "key generation works", func(c *callCtx) {
			c.ret(c.st.owned(App("sigpub", "Bytes", s, k)), c.st.owned(k), errNil)
		}, func(c *callCtx) {
			c.ret(VBytes{nilf: True, s: Eps("Bytes")}, VBytes{nilf: True, s: Eps("Bytes")}, errSet)
		})
	}
	// ---- curves ----
	for _, n := range []string{"P224", "P256", "P384", "P521"} {
		n := n
		m["crypto/elliptic."+n] = func(x *Ex, c *callCtx) { c.ret(VT{App("curve", sCurve, BytesConst(n))}) }
	}

	// lengths
	appLen["extract"] = func(t *Term) *Term { return App("nh", "BV64", t.Args[0]) }
	appLen["hash"] = func(t *Term) *Term { return App("hsize", "BV64", t.Args[0]) }
	appLen["hmac"] = func(t *Term) *Term { return App("hsize", "BV64", t.Args[0]) }
	appLen["expand"] = func(t *Term) *Term { return t.Args[3] }
	appLen["seal"] = func(t *Term) *Term { return Add(Len(t.Args[3]), BV64(16)) }
	// sizes of known algorithms
	tab := func(name string, vals map[uint64]uint64) {
		appRules[name] = func(s Sort, a []*Term) *Term {
			if a[0].Op == "bv" {
				if v, ok := vals[a[0].Val]; ok {
					return BV64(v)
				}
			}
			return nil
		}
	}
	tab("nh", map[uint64]uint64{1: 32, 2: 48, 3: 64})
	tab("hsize", map[uint64]uint64{5: 32, 6: 48, 7: 64})
	tab("nk", map[uint64]uint64{1: 16, 2: 32, 3: 32})
	tab("nn", map[uint64]uint64{1: 12, 2: 12, 3: 12})
	tab("nseed", map[uint64]uint64{0x10: 32, 0x11: 48, 0x12: 66, 0x20: 32, 0x21: 56})
	part := func(name string, i int) {
		appRules[name] = func(s Sort, a []*Term) *Term {
			if isApp(a[0], "suite") {
				return a[0].Args[i]
			}
			return nil
		}
	}
	part("kemof", 0)
	part("kdfof", 1)
	part("aeadof", 2)
	// decryption inverts encryption
	appRules["opens"] = func(s Sort, a []*Term) *Term {
		if c := a[3]; isApp(c, "seal") && c.Args[0] == a[0] && c.Args[1] == a[1] && c.Args[2] == a[2] && c.Args[4] == a[4] {
			return True
		}
		return nil
	}
	appRules["open"] = func(s Sort, a []*Term) *Term {
		if c := a[3]; isApp(c, "seal") && c.Args[0] == a[0] && c.Args[1] == a[1] && c.Args[2] == a[2] && c.Args[4] == a[4] {
			return c.Args[3]
		}
		return nil
	}
	_ = types.Typ
}
