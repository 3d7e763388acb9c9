package mls

import (
	"bytes"
	"fmt"
	"testing"
)

func TestVerifC17(t *testing.T) {
	h := newVH(t, "C17", "one case per suite, labelled operation and random content, plus wrong label, content and key; distinct by those")
	defer h.done()
	g := &rgen{h.rng}
	for _, cs := range rallSuites {
		for i := h.scale(15, 200); i > 0; i-- {
			k, k2 := rkey(cs, "a"), rkey(cs, "b")
			pub, priv := []byte(k.Public.leafNode.signatureKey), []byte(k.Private.SignatureKey)
			pub2 := []byte(k2.Public.leafNode.signatureKey)
			label, content := g.bytes(), g.bytes()
			id := fmt.Sprintf("suite %d label %s content %s case %d", cs, hexs(label), hexs(content), i)
			other := append(append([]byte{}, content...), 0)
			h.run("signature", id, func() error {
				sig, err := cs.signWithLabel(priv, label, content)
				vMust(err)
				vCheck(rverify(cs, pub, string(label), content, sig), "a signature does not verify over the labelled content")
				sig = rsign(cs, priv, string(label), content)
				vCheck(cs.verifyWithLabel(pub, label, content, sig), "a valid signature is rejected")
				vCheck(!cs.verifyWithLabel(pub, label, other, sig), "a signature verifies over other content")
				vCheck(!cs.verifyWithLabel(pub, append(append([]byte{}, label...), 1), content, sig), "a signature verifies under another label")
				vCheck(!cs.verifyWithLabel(pub2, label, content, sig), "a signature verifies with another key")
				if len(content) > 0 {
					// the boundary between label and content counts
					vCheck(!cs.verifyWithLabel(pub, append(append([]byte{}, label...), content[0]), content[1:], sig), "label and content run together")
				}
				raw, err := rscheme(cs).Sign(priv, content)
				vMust(err)
				vCheck(!cs.verifyWithLabel(pub, label, content, raw), "a signature without a label verifies")
				vCheck(!cs.verifyWithLabel(nil, label, content, sig) && !cs.verifyWithLabel(pub, label, content, nil) && !cs.verifyWithLabel(pub[:len(pub)-1], label, content, sig), "a malformed key or signature is accepted")
				return nil
			})
			h.run("hpke", id, func() error {
				ctx := g.bytes()
				kem, ct, err := cs.encryptWithLabel(k.Public.initKey, label, ctx, content)
				vMust(err)
				got, err := ropen(cs, k.Private.InitKey, string(label), ctx, hpkeCiphertext{kem, ct})
				vMust(err)
				vCheck(bytes.Equal(got, content), "opens to %x, want %x", got, content)
				e := rseal(cs, k.Public.initKey, string(label), ctx, content)
				got, err = cs.decryptWithLabel(k.Private.InitKey, label, ctx, e.kemOutput, e.ciphertext)
				vMust(err)
				vCheck(bytes.Equal(got, content), "opens to %x, want %x", got, content)
				_, e1 := cs.decryptWithLabel(k.Private.InitKey, append(append([]byte{}, label...), 1), ctx, e.kemOutput, e.ciphertext)
				_, e2 := cs.decryptWithLabel(k.Private.InitKey, label, append(append([]byte{}, ctx...), 1), e.kemOutput, e.ciphertext)
				_, e3 := cs.decryptWithLabel(k2.Private.InitKey, label, ctx, e.kemOutput, e.ciphertext)
				vCheck(e1 != nil && e2 != nil && e3 != nil, "opens under another label (%v), context (%v) or key (%v)", e1, e2, e3)
				return nil
			})
			h.run("mac and reference", id, func() error {
				key := g.bytes()
				tag := cs.signMAC(key, content)
				vCheck(bytes.Equal(tag, rmac(cs, key, content)), "MAC differs")
				vCheck(cs.verifyMAC(key, content, tag), "MAC rejected")
				vCheck(!cs.verifyMAC(key, other, tag) && !cs.verifyMAC(append(append([]byte{}, key...), 1), content, tag) && !cs.verifyMAC(key, content, rflip(tag)) && !cs.verifyMAC(key, content, tag[:len(tag)-1]) && !cs.verifyMAC(key, content, nil), "wrong MAC accepted")
				got, err := cs.refHash(label, content)
				vMust(err)
				vCheck(bytes.Equal(got, rrefHash(cs, string(label), content)), "reference hash differs")
				return nil
			})
			// structures
			leaf := g.leafNode()
			leaf.signatureKey = pub
			gid, at := GroupID(g.bytes()), leafIndex(g.u32())
			h.run("leaf node", id, func() error {
				tbs := renc(func(w *rw) { w.leafNodeTBS(&leaf, gid, at) })
				vMust(leaf.sign(cs, gid, at, priv))
				vCheck(rverify(cs, pub, "LeafNodeTBS", tbs, leaf.signature), "leaf signature does not verify")
				leaf.signature = rsign(cs, priv, "LeafNodeTBS", tbs)
				vCheck(leaf.verifySignature(cs, gid, at), "valid leaf signature rejected (source %d)", leaf.leafNodeSource)
				if leaf.leafNodeSource != 1 {
					vCheck(!leaf.verifySignature(cs, gid, at+1) && !leaf.verifySignature(cs, append(append(GroupID{}, gid...), 1), at), "leaf signature does not cover group and position")
				} else {
					vCheck(leaf.verifySignature(cs, nil, 0), "leaf of a key package depends on the group")
				}
				leaf.signature = rsign(cs, priv, "KeyPackageTBS", tbs)
				vCheck(!leaf.verifySignature(cs, gid, at), "leaf signature with another label accepted")
				return nil
			})
			kp := g.keyPackage()
			kp.cipherSuite = cs
			kp.leafNode.signatureKey = pub
			h.run("key package", id, func() error {
				tbs := renc(func(w *rw) { w.keyPackageTBS(&kp) })
				vMust(kp.sign(priv))
				vCheck(rverify(cs, pub, "KeyPackageTBS", tbs, kp.signature), "key package signature does not verify")
				kp.signature = rsign(cs, priv, "KeyPackageTBS", tbs)
				vCheck(kp.verifySignature(), "valid key package signature rejected")
				kp.signature = rsign(cs, priv, "LeafNodeTBS", tbs)
				vCheck(!kp.verifySignature(), "key package signature with another label accepted")
				ref, err := kp.GenerateRef()
				vMust(err)
				vCheck(bytes.Equal(ref, rrefHash(cs, "MLS 1.0 KeyPackage Reference", renc(func(w *rw) { w.keyPackage(&kp) }))), "key package reference differs")
				return nil
			})
			gi := g.groupInfo()
			gi.groupContext.cipherSuite = cs
			h.run("group info", id, func() error {
				tbs := renc(func(w *rw) { w.groupInfoTBS(&gi) })
				vMust(gi.sign(priv))
				vCheck(rverify(cs, pub, "GroupInfoTBS", tbs, gi.signature), "group info signature does not verify")
				gi.signature = rsign(cs, priv, "GroupInfoTBS", tbs)
				vCheck(gi.verifySignature(pub), "valid group info signature rejected")
				vCheck(!gi.verifySignature(pub2), "group info signature verifies with another key")
				j, psk := g.key(rsuites[cs].nh), g.key(rsuites[cs].nh)
				sch := rfromJoiner(cs, j, psk, &gi.groupContext)
				gi.confirmationTag = rmac(cs, rderive(cs, sch.epoch, "confirm"), gi.groupContext.confirmedTranscriptHash)
				vCheck(gi.verifyConfirmationTag(j, psk), "valid confirmation tag rejected")
				gi.confirmationTag = rflip(gi.confirmationTag)
				vCheck(!gi.verifyConfirmationTag(j, psk), "wrong confirmation tag accepted")
				// sealing of the group info
				ct, err := gi.encrypt(j, psk)
				vMust(err)
				pt, err := raead(cs, rexpandLabel(cs, sch.welcome, "key", nil, rsuites[cs].nk)).Open(nil, rexpandLabel(cs, sch.welcome, "nonce", nil, rsuites[cs].nn), ct, nil)
				vMust(err)
				vCheck(bytes.Equal(pt, renc(func(w *rw) { w.groupInfo(&gi) })), "the sealed group info is another")
				return nil
			})
			gs := g.groupSecrets()
			h.run("group secrets", id, func() error {
				egi := g.bytes()
				e, err := gs.encrypt(cs, k.Public.initKey, egi)
				vMust(err)
				got, err := ropen(cs, k.Private.InitKey, "Welcome", egi, *e)
				vMust(err)
				vCheck(bytes.Equal(got, renc(func(w *rw) { w.groupSecrets(&gs) })), "the sealed group secrets are others")
				wel := Welcome{cipherSuite: cs, encryptedGroupInfo: egi, secrets: []encryptedGroupSecrets{{newMember: []byte("r"), encryptedGroupSecrets: *e}}}
				back, err := wel.decryptGroupSecrets([]byte("r"), k.Private.InitKey)
				vMust(err)
				vCheck(requal(back, &gs), "group secrets differ")
				wel.encryptedGroupInfo = append(append([]byte{}, egi...), 1)
				_, err = wel.decryptGroupSecrets([]byte("r"), k.Private.InitKey)
				vCheck(err != nil, "group secrets are not bound to the group info")
				return nil
			})
			a := g.authenticatedContent()
			ctx := g.groupContext()
			h.run("framed content", id, func() error {
				if s := a.content.sender.senderType; s != 1 && s != 4 {
					ctx = groupContext{}
				}
				tbs := renc(func(w *rw) { w.framedContentTBS(a.wireFormat, &a.content, &ctx) })
				b, err := signAuthenticatedContent(cs, priv, a.wireFormat, &a.content, &ctx)
				vMust(err)
				vCheck(rverify(cs, pub, "FramedContentTBS", tbs, b.auth.signature), "content signature does not verify")
				a.auth.signature = rsign(cs, priv, "FramedContentTBS", tbs)
				ctx.cipherSuite = cs
				tbs = renc(func(w *rw) { w.framedContentTBS(a.wireFormat, &a.content, &ctx) })
				a.auth.signature = rsign(cs, priv, "FramedContentTBS", tbs)
				vCheck(a.verifySignature(pub, &ctx), "valid content signature rejected")
				vCheck(!a.verifySignature(pub2, &ctx), "content signature verifies with another key")
				c := a
				c.wireFormat ^= 3
				if c.wireFormat == 1 || c.wireFormat == 2 {
					vCheck(!c.verifySignature(pub, &ctx), "content signature does not cover the wire format")
				}
				c = a
				c.content.authenticatedData = append(append([]byte{}, c.content.authenticatedData...), 1)
				vCheck(!c.verifySignature(pub, &ctx), "content signature does not cover the authenticated data")
				if a.content.contentType == 2 {
					ref, err := a.generateProposalRef(cs)
					vMust(err)
					vCheck(bytes.Equal(ref, rrefHash(cs, "MLS 1.0 Proposal Reference", renc(func(w *rw) { w.authenticatedContent(&a) }))), "proposal reference differs")
				}
				return nil
			})
			h.run("membership tag", id, func() error {
				m := g.publicMessage()
				for m.content.sender.senderType != 1 {
					m = g.publicMessage()
				}
				ctx := g.groupContext()
				ctx.cipherSuite = cs
				key := g.key(rsuites[cs].nh)
				tbm := renc(func(w *rw) {
					w.framedContentTBS(1, &m.content, &ctx)
					w.auth(&m.auth, m.content.contentType)
				})
				vMust(m.signMembershipTag(cs, key, &ctx))
				vCheck(bytes.Equal(m.membershipTag, rmac(cs, key, tbm)), "membership tag differs")
				vCheck(m.verifyMembershipTag(key, &ctx), "valid membership tag rejected")
				m.auth.signature = append(append([]byte{}, m.auth.signature...), 1)
				vCheck(!m.verifyMembershipTag(key, &ctx), "membership tag does not cover the signature")
				return nil
			})
		}
	}
	rplayAll(h, "C17", true)
}
