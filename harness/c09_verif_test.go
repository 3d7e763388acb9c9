package mls

import (
	"bytes"
	"fmt"
	"testing"
)

func TestVerifC09(t *testing.T) {
	h := newVH(t, "C09", "one case per suite, tree size, leaf and generation with random secrets; distinct by those")
	defer h.done()
	g := &rgen{h.rng}
	eq := func(what string, got []byte, err error, want []byte) {
		vMust(err)
		vCheck(bytes.Equal(got, want), "%s is %x, want %x", what, got, want)
	}
	for _, cs := range rallSuites {
		max := 32
		if h.tier != "quick" || h.hunt {
			max = 128
		}
		for n := 1; n <= max; n *= 2 {
			enc := g.key(rsuites[cs].nh)
			var tree secretTree
			h.run("secret tree", fmt.Sprint("suite ", cs, " size ", n), func() error {
				var err error
				tree, err = deriveSecretTree(cs, numLeaves(n), enc)
				vMust(err)
				vCheck(len(tree) == 2*n-1, "secret tree has %d nodes", len(tree))
				return nil
			})
			for leaf := 0; leaf < n; leaf++ {
				if n > 8 && g.Intn(n/4) != 0 {
					continue
				}
				leaf := leaf
				h.run("leaf", fmt.Sprint("suite ", cs, " size ", n, " leaf ", leaf), func() error {
					ls := rleafSecret(cs, enc, n, leaf)
					eq("leaf secret", tree.get(nodeIndex(2*leaf)), nil, ls)
					gens := 3 + g.Intn(4)
					for ct := contentType(1); ct <= 3; ct++ {
						app := ct == 1
						rs, err := tree.deriveRatchetRoot(cs, nodeIndex(2*leaf), ratchetLabelFromContentType(ct))
						vMust(err)
						for k := 0; k < gens; k++ {
							what := fmt.Sprintf("suite %d, %d leaves, leaf %d, content type %d, generation %d: ", cs, n, leaf, ct, k)
							key, nonce, secret := rratchet(cs, ls, app, uint32(k))
							vCheck(rs.generation == uint32(k), "%sgeneration is %d", what, rs.generation)
							eq(what+"secret", rs.secret, nil, secret)
							got, err := rs.deriveKey(cs)
							eq(what+"key", got, err, key)
							got, err = rs.deriveNonce(cs)
							eq(what+"nonce", got, err, nonce)
							var guard [4]byte
							g.Read(guard[:])
							gk, gn, err := derivePrivateMessageKeyAndNonce(cs, rs, guard)
							eq(what+"message key", gk, err, key)
							for i := range guard {
								nonce[i] ^= guard[i]
							}
							eq(what+"guarded nonce", gn, nil, nonce)
							rs, err = rs.deriveNext(cs)
							vMust(err)
						}
					}
					return nil
				})
			}
		}
		for i := h.scale(40, 400); i > 0; i-- {
			sds := g.key(rsuites[cs].nh)
			ct := g.key(g.Intn(2*rsuites[cs].nh + 3))
			h.run("sender data", fmt.Sprintf("suite %d ciphertext of %d %s", cs, len(ct), hexs(sds)), func() error {
				sample := ct
				if len(sample) > rsuites[cs].nh {
					sample = sample[:rsuites[cs].nh]
				}
				got, err := expandSenderDataKey(cs, sds, ct)
				eq(fmt.Sprintf("sender data key for %d bytes", len(ct)), got, err, rexpandLabel(cs, sds, "key", sample, rsuites[cs].nk))
				got, err = expandSenderDataNonce(cs, sds, ct)
				eq(fmt.Sprintf("sender data nonce for %d bytes", len(ct)), got, err, rexpandLabel(cs, sds, "nonce", sample, rsuites[cs].nn))
				return nil
			})
		}
		for i := h.scale(3, 20); i > 0; i-- {
			h.run("message", fmt.Sprint("suite ", cs, " message ", i), func() error {
				w := rnewWorld(cs, "msg", 1+g.Intn(5))
				al := w.alive()
				m := w.members[al[g.Intn(len(al))]]
				data := g.bytes()
				raw, err := m.CreateApplicationMessage(data)
				vMust(err)
				a, sd, err := ropenPrivate(m, raw)
				vMust(err)
				vCheck(bytes.Equal(a.content.applicationData, data) && sd.leafIndex == m.myLeafIndex, "message decrypts to %x from %d", a.content.applicationData, sd.leafIndex)
				for _, gen := range []uint32{0, 1, uint32(g.Intn(9))} {
					f := rcontent(m, 1)
					f.applicationData = data
					o := &rmsgOpts{private: true, generation: gen}
					raw := rframe(m, rauth(m, f, o), o)
					for _, i := range al {
						got, err := w.members[i].UnmarshalAndProcessMessage(raw)
						vMust(err)
						vCheck(bytes.Equal(got, data), "message of generation %d decrypts to %x, want %x", gen, got, data)
					}
				}
				return nil
			})
		}
	}
}
