package mls

import (
	"runtime"
	"testing"

	"golang.org/x/crypto/cryptobyte"
)

func TestVerifC03(t *testing.T) {
	h := newVH(t, "C03", "one case per arbitrary or damaged non-empty input; distinct by structure and bytes; allocation is bounded by 64 KiB plus 1000 bytes per input byte")
	defer h.done()
	g := &rgen{h.rng}

	measure := func(c rcodec, in []byte) {
		key := ""
		if len(in) > 0 {
			key = c.name + " " + hexs(in)
		}
		h.run("decode "+c.name, key, func() error {
			var m0, m1 runtime.MemStats
			pre := &rgen{h.rng}
			runtime.ReadMemStats(&m0)
			s := cryptobyte.String(append([]byte{}, in...))
			c.dec(pre, &s)
			runtime.ReadMemStats(&m1)
			n := m1.TotalAlloc - m0.TotalAlloc
			vCheck(n <= 64<<10+uint64(len(in))*1000+1<<17, "decoding %d bytes allocates %d bytes: %s", len(in), n, hexs(in))
			return nil
		})
	}
	for _, c := range rcodecs() {
		for i := h.scale(120, 2500); i > 0; i-- {
			in := renc(func(w *rw) { c.ref(c.gen(g), w) })
			if len(in) > 4000 {
				in = in[:4000]
			}
			for k := g.Intn(4); k > 0; k-- {
				in = rmutate(g, in)
			}
			measure(c, in)
			// claim a large length somewhere
			if len(in) > 0 {
				j := g.Intn(len(in))
				big := append([]byte{}, in[:j]...)
				v := uint32(1)<<uint(14+g.Intn(16)) | g.Uint32()>>10
				if g.Intn(3) == 0 {
					v = 1<<30 - 1
				}
				big = append(big, 0x80|byte(v>>24)&0x3F, byte(v>>16), byte(v>>8), byte(v))
				big = append(big, in[j:]...)
				measure(c, big)
			}
			rnd := make([]byte, g.Intn(24))
			g.Read(rnd)
			measure(c, rnd)
		}
	}
	// every first byte, alone and followed by a large claimed length
	for _, c := range rcodecs() {
		for i := 0; i < 256; i++ {
			measure(c, []byte{byte(i)})
			measure(c, []byte{byte(i), 0xBF, 0xFF, 0xFF, 0xFF})
			measure(c, []byte{0xBF, 0xFF, 0xFF, 0xFF, byte(i)})
			measure(c, []byte{0, byte(i), 0xBF, 0xFF, 0xFF, 0xFF, 0, 0})
		}
	}
	// inputs for the public entry points
	for i := h.scale(300, 5000); i > 0; i-- {
		m := g.mlsMessage()
		in := renc(func(w *rw) { w.mlsMessage(&m) })
		for k := g.Intn(3); k > 0; k-- {
			in = rmutate(g, in)
		}
		h.run("public decoders", "message "+hexs(in), func() error {
			UnmarshalKeyPackage(in)
			UnmarshalWelcome(in)
			return nil
		})
	}
}
