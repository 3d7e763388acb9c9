package mls

import (
	"bytes"
	"fmt"
	"testing"

	"golang.org/x/crypto/cryptobyte"
)

func TestVerifC02(t *testing.T) {
	h := newVH(t, "C02", "one case per random well-formed structure that has at least one byte; distinct by structure and encoding")
	defer h.done()
	g := &rgen{h.rng}

	for _, c := range rcodecs() {
		for i := h.scale(150, 2500); i > 0; i-- {
			v := c.gen(g)
			var want []byte
			h.run("encode "+c.name, "", func() error { want = renc(func(w *rw) { c.ref(v, w) }); return nil })
			key := c.name + " " + hexs(want)
			h.run("encode "+c.name, key, func() error {
				var b cryptobyte.Builder
				c.enc(v, &b)
				got, err := b.Bytes()
				vCheck(err == nil, "encoding fails: %v", err)
				vCheck(bytes.Equal(got, want), "encodes to %s\nRFC 9420:  %s\nvalue: %+v", hexs(got), hexs(want), v)
				return nil
			})
			h.run("decode "+c.name, "", func() error {
				suffix := make([]byte, h.rng.Intn(4))
				h.rng.Read(suffix)
				s := cryptobyte.String(append(append([]byte{}, want...), suffix...))
				got, err := c.dec(g, &s)
				vCheck(err == nil, "decoding %s fails: %v", hexs(want), err)
				vCheck(bytes.Equal(s, suffix), "decoding %s followed by %x leaves %s", hexs(want), suffix, hexs(s))
				vCheck(requal(got, v), "decoding %s gives %+v, want %+v", hexs(want), got, v)
				return nil
			})
		}
	}

	// Vectors at the boundaries of the length prefix.
	for _, n := range []int{0, 1, 62, 63, 64, 65, 255, 256, 16382, 16383, 16384, 16385, 65535, 65536, 1 << 20, 1<<22 + 3} {
		v := h.bytes(n)
		h.run("opaque vector", fmt.Sprint("opaque length ", n), func() error {
			want := renc(func(w *rw) { w.vec(v) })
			var b cryptobyte.Builder
			writeOpaqueVec(&b, v)
			got, err := b.Bytes()
			vCheck(err == nil && bytes.Equal(got, want), "vector of %d bytes: error %v, prefix %s, want %s", n, err, hexs(got), hexs(want))
			s := cryptobyte.String(append(got, 0xAA))
			var out []byte
			vCheck(readOpaqueVec(&s, &out) && bytes.Equal(out, v) && bytes.Equal(s, []byte{0xAA}), "vector of %d bytes does not decode", n)
			return nil
		})
	}
	for _, n := range []uint32{0, 1, 63, 64, 16383, 16384, 1<<30 - 1, 1 << 30, 1<<31 + 5, 1<<32 - 1} {
		h.run("length prefix", fmt.Sprint("prefix ", n), func() error {
			var b cryptobyte.Builder
			writeVarint(&b, n)
			got, err := b.Bytes()
			if n >= 1<<30 {
				vCheck(err != nil, "length %d is encoded as %x", n, got)
				return nil
			}
			var want []byte
			switch {
			case n < 64:
				want = []byte{byte(n)}
			case n < 16384:
				want = []byte{0x40 | byte(n>>8), byte(n)}
			default:
				want = []byte{0x80 | byte(n>>24), byte(n >> 16), byte(n >> 8), byte(n)}
			}
			vCheck(err == nil && bytes.Equal(got, want), "length %d: error %v, got %x, want %x", n, err, got, want)
			s := cryptobyte.String(append(want, 7))
			var out uint32
			vCheck(readVarint(&s, &out) && out == n && len(s) == 1, "length prefix %x decodes to %d leaving %d bytes", want, out, len(s))
			return nil
		})
	}

	// Trees with more leaves than the generator makes.
	for _, n := range []int{1, 2, 4, 8, 16, 64} {
		for k := 0; k < h.scale(6, 40); k++ {
			tree := make(ratchetTree, 2*n-1)
			for i := range tree {
				if h.rng.Intn(3) == 0 {
					tree[i] = g.node(i%2 == 0)
				}
			}
			last := n/2*2 + 2*h.rng.Intn((n+1)/2)
			if n == 1 {
				last = 0
			}
			tree[last] = g.node(true)
			for i := last + 1; i < len(tree); i++ {
				tree[i] = nil
			}
			want := renc(func(w *rw) { w.ratchetTree(tree) })
			h.run("decode ratchet_tree", "tree "+hexs(want), func() error {
				got := ratchetTree{nil, nil, nil}
				vMust(unmarshal(want, &got))
				vCheck(requal(got, tree), "tree of %d leaves with last node %d decodes to another tree of %d nodes", n, last, len(got))
				return nil
			})
		}
	}

	// Structures that are only encoded.
	for i := h.scale(150, 2000); i > 0; i-- {
		fc, ctx := g.framedContent(), g.groupContext()
		wf := wireFormat(1 + g.Intn(5))
		auth := g.auth(fc.contentType)
		enc := func(name string, m marshaler, want []byte) {
			h.run("encode "+name, name+" "+hexs(want), func() error {
				got, err := marshal(m)
				vCheck(err == nil && bytes.Equal(got, want), "error %v, encodes to %s\nRFC 9420: %s", err, hexs(got), hexs(want))
				return nil
			})
		}
		tbs := framedContentTBS{version: 1, wireFormat: wf, content: fc, context: &ctx}
		enc("FramedContentTBS", &tbs, renc(func(w *rw) { w.framedContentTBS(wf, &fc, &ctx) }))
		enc("AuthenticatedContentTBM", &authenticatedContentTBM{tbs, auth}, renc(func(w *rw) {
			w.framedContentTBS(wf, &fc, &ctx)
			w.auth(&auth, fc.contentType)
		}))
		ln, id, li := g.leafNode(), g.bytes(), leafIndex(g.u32())
		enc("LeafNodeTBS", &leafNodeTBS{&ln, id, li}, renc(func(w *rw) { w.leafNodeTBS(&ln, id, li) }))
		gi := g.groupInfo()
		enc("GroupInfoTBS", (*groupInfoTBS)(&gi), renc(func(w *rw) { w.groupInfoTBS(&gi) }))
		kp := g.keyPackage()
		h.run("encode KeyPackageTBS", "KeyPackageTBS "+hexs(kp.signature)+hexs(kp.initKey), func() error {
			var b cryptobyte.Builder
			kp.marshalTBS(&b)
			got, err := b.Bytes()
			want := renc(func(w *rw) { w.keyPackageTBS(&kp) })
			vCheck(err == nil && bytes.Equal(got, want), "error %v, encodes to %s\nRFC 9420: %s", err, hexs(got), hexs(want))
			return nil
		})
		psk := g.pskID()
		ix, cnt := g.u16(), g.u16()
		enc("PSKLabel", &pskLabel{psk, ix, cnt}, renc(func(w *rw) { w.pskID(&psk); w.u16(ix); w.u16(cnt) }))
		ep, ct, ad := g.u64(), contentType(1+g.Intn(3)), g.bytes()
		enc("SenderDataAAD", &senderDataAAD{id, ep, ct}, renc(func(w *rw) { w.vec(id); w.u64(ep); w.u8(uint8(ct)) }))
		enc("PrivateContentAAD", &privateContentAAD{id, ep, ct, ad}, renc(func(w *rw) { w.vec(id); w.u64(ep); w.u8(uint8(ct)); w.vec(ad) }))
		if fc.contentType == 3 {
			enc("ConfirmedTranscriptHashInput", &confirmedTranscriptHashInput{wf, fc, auth.signature}, renc(func(w *rw) {
				w.wireFormat(wf)
				w.framedContent(&fc)
				w.vec(auth.signature)
			}))
		}
	}

	h.run("public encodings", "key package and welcome", func() error {
		kp, w := g.keyPackage(), g.welcome()
		vCheck(bytes.Equal(kp.Bytes(), renc(func(x *rw) { x.u16(1); x.u16(5); x.keyPackage(&kp) })), "key package message differs from RFC 9420")
		vCheck(bytes.Equal(w.Bytes(), renc(func(x *rw) { x.u16(1); x.u16(3); x.welcome(&w) })), "welcome message differs from RFC 9420")
		k2, err := UnmarshalKeyPackage(kp.Bytes())
		vMust(err)
		vCheck(requal(k2, &kp), "key package does not round-trip")
		w2, err := UnmarshalWelcome(w.Bytes())
		vMust(err)
		vCheck(requal(w2, &w), "welcome does not round-trip")
		return nil
	})
	if h.tier == "thorough" || h.hunt {
		h.run("too long vector", "opaque of 2^30 bytes", func() error {
			v := make([]byte, 1<<30)
			var b cryptobyte.Builder
			writeOpaqueVec(&b, v)
			_, err := b.Bytes()
			vCheck(err != nil, "a vector of 2^30 bytes is encoded")
			return nil
		})
	}
}
