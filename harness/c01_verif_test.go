package mls

import (
	"bytes"
	"fmt"
	"testing"

	"golang.org/x/crypto/cryptobyte"
)

func TestVerifC01(t *testing.T) {
	h := newVH(t, "C01", "one case per damaged encoding of a random structure that is still accepted, or per constructed non-canonical input; distinct by structure and bytes")
	defer h.done()
	g := &rgen{h.rng}

	for _, c := range rcodecs() {
		c := c
		for i := h.scale(1200, 20000); i > 0; i-- {
			in := renc(func(w *rw) { c.ref(c.gen(g), w) })
			if len(in) > 4000 {
				continue
			}
			if i%8 != 0 {
				in = rmutate(g, in)
			}
			acc := false
			h.run("decode "+c.name, "", func() error { acc = raccepted(c, g, in); return nil })
			if acc {
				h.run("accepted "+c.name, c.name+" "+hexs(in), func() error { return nil })
			}
		}
		// every proper prefix of an encoding is rejected
		for i := h.scale(4, 40); i > 0; i-- {
			in := renc(func(w *rw) { c.ref(c.gen(g), w) })
			if len(in) > 600 {
				continue
			}
			h.run("truncated "+c.name, "truncated "+c.name+" "+hexs(in), func() error {
				for n := range in {
					s := cryptobyte.String(in[:n:n])
					v, err := c.dec(g, &s)
					vCheck(err != nil, "accepted the first %d bytes of %s as %+v", n, hexs(in), v)
				}
				return nil
			})
		}
	}

	// Length prefixes: every accepted prefix is the shortest one.
	h.run("length prefixes", "all prefixes of 1 and 2 bytes and samples of 4 and 8", func() error {
		try := func(in []byte) {
			s := cryptobyte.String(append(append([]byte{}, in...), 1, 2, 3, 4, 5, 6, 7, 8))
			all := append([]byte{}, s...)
			var v uint32
			if !readVarint(&s, &v) {
				return
			}
			n := len(all) - len(s)
			want := renc(func(w *rw) {
				switch {
				case v < 64:
					w.u8(uint8(v))
				case v < 16384:
					w.u16(0x4000 | uint16(v))
				case v < 1<<30:
					w.u32(0x80000000 | v)
				default:
					bad("length %d", v)
				}
			})
			vCheck(bytes.Equal(want, all[:n]), "length prefix %x is accepted as %d, whose prefix is %x", all[:n], v, want)
		}
		for i := 0; i < 65536; i++ {
			try([]byte{byte(i >> 8), byte(i)})
		}
		for _, v := range []uint32{0, 1, 63, 64, 65, 255, 256, 16382, 16383, 16384, 16385, 65535, 65536, 1 << 22, 1<<22 - 1, 1<<24 - 1, 1 << 24, 1<<29 + 1, 1<<30 - 1} {
			try([]byte{0x80 | byte(v>>24), byte(v >> 16), byte(v >> 8), byte(v)})
			try([]byte{0xC0, 0, 0, 0, byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
		}
		for i := 0; i < 20000; i++ {
			v := h.rng.Uint32() >> uint(h.rng.Intn(30))
			try([]byte{0x80 | byte(v>>24)&0x3F, byte(v >> 16), byte(v >> 8), byte(v)})
		}
		return nil
	})
	h.run("optional", "all presence bytes", func() error {
		for i := 0; i < 256; i++ {
			s := cryptobyte.String([]byte{byte(i)})
			var p bool
			ok := readOptional(&s, &p)
			vCheck(ok == (i < 2) && (!ok || p == (i == 1)), "presence byte %d: accepted %v, present %v", i, ok, p)
		}
		return nil
	})

	// Discriminants outside the defined ones.
	disc := func(name string, n int, valid map[int]bool, dec func(s *cryptobyte.String) (int, error)) {
		h.run("discriminant "+name, "all values of "+name, func() error {
			for i := 0; i < 1<<(8*uint(n)); i++ {
				in := []byte{byte(i)}
				if n == 2 {
					in = []byte{byte(i >> 8), byte(i)}
				}
				s := cryptobyte.String(in)
				v, err := dec(&s)
				vCheck((err == nil) == valid[i], "%s %d: error %v", name, i, err)
				vCheck(err != nil || v == i && len(s) == 0, "%s %d decodes to %d", name, i, v)
				vCheck(func() bool { s := cryptobyte.String(in[:n-1]); _, err := dec(&s); return err != nil }(), "%s accepted from %d bytes", name, n-1)
			}
			return nil
		})
	}
	set := func(v ...int) map[int]bool {
		m := map[int]bool{}
		for _, x := range v {
			m[x] = true
		}
		return m
	}
	disc("content type", 1, set(1, 2, 3), func(s *cryptobyte.String) (int, error) { var v contentType; err := v.unmarshal(s); return int(v), err })
	disc("sender type", 1, set(1, 2, 3, 4), func(s *cryptobyte.String) (int, error) { var v senderType; err := v.unmarshal(s); return int(v), err })
	disc("wire format", 2, set(1, 2, 3, 4, 5), func(s *cryptobyte.String) (int, error) { var v wireFormat; err := v.unmarshal(s); return int(v), err })
	disc("PSK type", 1, set(1, 2), func(s *cryptobyte.String) (int, error) { var v pskType; err := v.unmarshal(s); return int(v), err })
	disc("PSK usage", 1, set(1, 2, 3), func(s *cryptobyte.String) (int, error) {
		var v resumptionPSKUsage
		err := v.unmarshal(s)
		return int(v), err
	})
	disc("proposal type", 2, set(1, 2, 3, 4, 5, 6, 7), func(s *cryptobyte.String) (int, error) { var v proposalType; err := v.unmarshal(s); return int(v), err })
	disc("proposal or ref type", 1, set(1, 2), func(s *cryptobyte.String) (int, error) {
		var v proposalOrRefType
		err := v.unmarshal(s)
		return int(v), err
	})
	disc("leaf node source", 1, set(1, 2, 3), func(s *cryptobyte.String) (int, error) {
		var v leafNodeSource
		err := v.unmarshal(s)
		return int(v), err
	})
	disc("node type", 1, set(1, 2), func(s *cryptobyte.String) (int, error) { var v nodeType; err := v.unmarshal(s); return int(v), err })

	// Whole messages: trailing bytes are rejected.
	for i := h.scale(200, 2000); i > 0; i-- {
		m := g.mlsMessage()
		in := renc(func(w *rw) { w.mlsMessage(&m) })
		h.run("trailing bytes", "message "+hexs(in), func() error {
			tail := append(append([]byte{}, in...), make([]byte, 1+g.Intn(3))...)
			var v mlsMessage
			vMust(unmarshal(in, &v))
			vCheck(unmarshal(tail, &v) != nil, "a message followed by %d bytes is accepted", len(tail)-len(in))
			_, err := UnmarshalKeyPackage(tail)
			vCheck(err != nil, "a key package followed by other bytes is accepted")
			_, err = UnmarshalWelcome(tail)
			vCheck(err != nil, "a welcome followed by other bytes is accepted")
			_, err = UnmarshalKeyPackage(in)
			vCheck((err == nil) == (m.wireFormat == 5), "wire format %d as key package: error %v", m.wireFormat, err)
			_, err = UnmarshalWelcome(in)
			vCheck((err == nil) == (m.wireFormat == 3), "wire format %d as welcome: error %v", m.wireFormat, err)
			return nil
		})
	}

	// Ratchet trees: misplaced nodes, trailing blanks, no nodes.
	for i := h.scale(300, 3000); i > 0; i-- {
		n := 1 + g.Intn(9)
		nodes := make([]*node, n)
		wrong := false
		for j := range nodes {
			if g.Intn(3) == 0 {
				continue
			}
			leaf := j%2 == 0
			if g.Intn(12) == 0 {
				leaf = !leaf
				wrong = true
			}
			nodes[j] = g.node(leaf)
		}
		in := renc(func(w *rw) {
			w.list(n, func(w *rw, i int) {
				if nodes[i] == nil {
					w.u8(0)
				} else {
					w.u8(1)
					w.node(nodes[i])
				}
			})
		})
		h.run("tree shapes", fmt.Sprint("tree ", n, wrong, nodes[n-1] == nil, hexs(in)), func() error {
			want := !wrong && nodes[n-1] != nil
			var v ratchetTree
			err := unmarshal(in, &v)
			vCheck((err == nil) == want, "tree with misplaced nodes %v and last node blank %v: error %v", wrong, nodes[n-1] == nil, err)
			return nil
		})
	}
	h.run("tree shapes", "empty tree", func() error {
		var v ratchetTree
		vCheck(unmarshal([]byte{0}, &v) != nil, "a tree without nodes is accepted")
		return nil
	})
}
