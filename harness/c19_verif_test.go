package mls

import (
	"bytes"
	"fmt"
	"testing"
)

func TestVerifC19(t *testing.T) {
	h := newVH(t, "C19", "one case per cipher suite and operation, and per unknown identifier; distinct by those")
	defer h.done()
	g := &rgen{h.rng}
	for i := 0; i < 1<<16; i++ {
		cs := CipherSuite(i)
		if i >= 1 && i <= 7 {
			continue
		}
		if i > 300 && i < 65000 && i%97 != 0 && h.tier == "quick" {
			continue
		}
		h.run("unknown", fmt.Sprint("suite ", i), func() error {
			_, ok := cipherSuiteDescriptions[cs]
			vCheck(!ok && !cs.Supported(), "cipher suite %#x is known", i)
			return nil
		})
	}
	for _, cs := range rallSuites {
		s := rsuites[cs]
		h.run("table", fmt.Sprint("suite ", cs, " table"), func() error {
			vCheck(cs.hash().Size() == s.nh, "hash size %d", cs.hash().Size())
			kem, kdf, aead := cs.hpke().Params()
			vCheck(kem == s.kem && kdf == s.kdf && aead == s.aead, "suite %d: HPKE is %v %v %v", cs, kem, kdf, aead)
			for i := 0; i < 5; i++ {
				b := g.bytes()
				hh := cs.hash().New()
				hh.Write(b)
				vCheck(bytes.Equal(hh.Sum(nil), rhash(cs, b)), "suite %d: another hash", cs)
			}
			path := false
			for _, p := range rpathSuites {
				path = path || p == cs
			}
			vCheck(cs.Supported() == path, "suite %d: supported %v", cs, cs.Supported())
			return nil
		})
		for i := h.scale(10, 100); i > 0; i-- {
			h.run("operations", fmt.Sprint("suite ", cs, " operations ", i), func() error {
				sec, label, ctx := g.key(s.nh), g.bytes(), g.bytes()
				n := g.Intn(200)
				got, err := cs.expandWithLabel(sec, label, ctx, uint16(n))
				vMust(err)
				vCheck(bytes.Equal(got, rexpandLabel(cs, sec, string(label), ctx, n)), "suite %d: expansion differs", cs)
				got, err = cs.deriveSecret(sec, label)
				vMust(err)
				vCheck(bytes.Equal(got, rderive(cs, sec, string(label))), "suite %d: derivation differs", cs)
				vCheck(bytes.Equal(cs.signMAC(sec, ctx), rmac(cs, sec, ctx)), "suite %d: MAC differs", cs)
				ref, err := cs.refHash(label, ctx)
				vMust(err)
				vCheck(bytes.Equal(ref, rrefHash(cs, string(label), ctx)), "suite %d: reference differs", cs)
				pub, priv, err := cs.signatureScheme().GenerateKeyPair()
				vMust(err)
				sig, err := cs.signatureScheme().Sign(priv, ctx)
				vMust(err)
				vCheck(rscheme(cs).Verify(pub, ctx, sig), "suite %d: signature does not verify", cs)
				sig, err = rscheme(cs).Sign(priv, ctx)
				vMust(err)
				vCheck(cs.signatureScheme().Verify(pub, ctx, sig), "suite %d: valid signature rejected", cs)
				vCheck(!cs.signatureScheme().Verify(pub, append(append([]byte{}, ctx...), 1), sig), "suite %d: signature over other content", cs)
				if path := cs == 1 || cs == 2 || cs == 3 || cs == 7; path {
					seed := g.key(s.nh)
					a, b, err := cs.deriveEncryptionKeyPair(seed)
					vMust(err)
					c, d := rderiveKeyPair(cs, seed)
					vCheck(bytes.Equal(a, c) && bytes.Equal(b, d), "suite %d: derived key pair differs", cs)
				}
				hp, hs, err := cs.generateEncryptionKeyPair()
				vMust(err)
				e := rseal(cs, hp, string(label), ctx, sec)
				pt, err := cs.decryptWithLabel(hs, label, ctx, e.kemOutput, e.ciphertext)
				vMust(err)
				vCheck(bytes.Equal(pt, sec), "suite %d: sealed text differs", cs)
				return nil
			})
		}
		h.run("group", fmt.Sprint("suite ", cs, " group"), func() error {
			w := rnewWorld(cs, "suite", 3)
			m := w.members[0]
			raw, err := m.CreateApplicationMessage([]byte("hi"))
			vMust(err)
			a, _, err := ropenPrivate(m, raw)
			vMust(err)
			vCheck(rsigned(m, a), "suite %d: signature does not verify", cs)
			nk := rkey(cs, "n")
			wel, craw, err := m.CreateWelcome([]KeyPackage{nk.Public})
			vMust(err)
			ca, _, err := ropenPrivate(m, craw)
			vMust(err)
			r := routcome(m, ca, nil, nil)
			vCheck(bytes.Equal(ca.auth.confirmationTag, r.tag), "suite %d: confirmation tag differs", cs)
			gs, err := ropen(cs, nk.Private.InitKey, "Welcome", wel.encryptedGroupInfo, wel.secrets[0].encryptedGroupSecrets)
			vMust(err)
			vCheck(bytes.Contains(gs, r.sched.joiner), "suite %d: joiner secret differs", cs)
			_, err = raead(cs, rexpandLabel(cs, r.sched.welcome, "key", nil, s.nk)).Open(nil, rexpandLabel(cs, r.sched.welcome, "nonce", nil, s.nn), wel.encryptedGroupInfo, nil)
			vMust(err)
			return nil
		})
	}
}
