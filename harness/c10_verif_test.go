package mls

import (
	"bytes"
	"fmt"
	"testing"
)

func TestVerifC10(t *testing.T) {
	h := newVH(t, "C10", "one case per suite, group size, sender and content, and per header tampering; distinct by those")
	defer h.done()
	g := &rgen{h.rng}
	for _, cs := range rallSuites {
		for i := h.scale(6, 40); i > 0; i-- {
			n := 1 + g.Intn(6)
			w := rnewWorld(cs, "round trip", n)
			by := w.members[g.Intn(n)]
			data := g.bytes()
			h.run("application data", fmt.Sprintf("suite %d size %d leaf %d %s", cs, n, by.myLeafIndex, hexs(data)), func() error {
				keep := append([]byte{}, data...)
				raw, err := by.CreateApplicationMessage(data)
				vMust(err)
				vCheck(bytes.Equal(keep, data), "the data is changed")
				a, sd, err := ropenPrivate(by, raw)
				vMust(err)
				vCheck(rsigned(by, a), "signature does not verify")
				vCheck(sd.leafIndex == by.myLeafIndex && a.content.contentType == 1 && a.content.epoch == by.groupContext.epoch && bytes.Equal(a.content.groupID, by.groupContext.groupID), "header is %+v", a.content)
				for _, m := range w.members {
					got, err := m.UnmarshalAndProcessMessage(raw)
					vMust(err)
					vCheck(bytes.Equal(got, data), "leaf %d reads %x, want %x", m.myLeafIndex, got, data)
				}
				return nil
			})
			// library to library, every content type, at the level of framing
			for ct := contentType(1); ct <= 3; ct++ {
				f := rcontent(by, ct)
				f.authenticatedData = g.bytes()
				switch ct {
				case 1:
					f.applicationData = g.bytes()
				case 2:
					p := g.proposal()
					f.proposal = &p
				case 3:
					c := g.commit()
					f.commit = &c
				}
				gen := uint32(g.Intn(4))
				h.run("framing", fmt.Sprintf("suite %d type %d %s", cs, ct, hexs(rhash(1, renc(func(w *rw) { w.framedContent(&f) })))), func() error {
					sds := rderive(cs, by.epochSecret, "sender data")
					tree, err := deriveSecretTree(cs, numLeaves(rleaves(by.tree)), rderive(cs, by.epochSecret, "encryption"))
					vMust(err)
					rs, err := tree.deriveRatchetRoot(cs, by.myLeafIndex.nodeIndex(), ratchetLabelFromContentType(ct))
					vMust(err)
					for rs.generation != gen {
						rs, err = rs.deriveNext(cs)
						vMust(err)
					}
					pc, err := signPrivateMessageContent(cs, by.signaturePriv, &f, &by.groupContext)
					vMust(err)
					if ct == 3 {
						pc.auth.confirmationTag = g.key(rsuites[cs].nh)
					}
					sd, err := newSenderData(by.myLeafIndex, gen)
					vMust(err)
					msg, err := encryptPrivateMessage(cs, rs, sds, &f, pc, sd)
					vMust(err)
					raw := renc(func(w *rw) { w.u16(1); w.u16(2); w.privateMessage(msg) })
					a, sd2, err := ropenPrivate(by, raw)
					vMust(err)
					vCheck(requal(&a.content, &f) && requal(&a.auth, &pc.auth) && *sd2 == *sd, "reference reads %+v, want %+v", a.content, f)
					vCheck(rsigned(by, a), "signature does not verify")
					sd3, err := msg.decryptSenderData(cs, sds)
					vMust(err)
					vCheck(*sd3 == *sd, "sender data %+v, want %+v", sd3, sd)
					pc2, err := msg.decryptContent(cs, rs, sd3.reuseGuard)
					vMust(err)
					b := msg.authenticatedContent(sd3, pc2)
					vCheck(requal(&b.content, &f) && requal(&b.auth, &pc.auth) && b.wireFormat == 2, "library reads %+v, want %+v", b.content, f)
					// any change of the header is noticed
					for k := 0; k < 4; k++ {
						m2 := *msg
						switch k {
						case 0:
							m2.groupID = append(append(GroupID{}, m2.groupID...), 0)
						case 1:
							m2.epoch ^= 1 << uint(g.Intn(64))
						case 2:
							m2.contentType = m2.contentType%3 + 1
						case 3:
							m2.authenticatedData = append(append([]byte{}, m2.authenticatedData...), 0)
						}
						_, e1 := m2.decryptSenderData(cs, sds)
						_, e2 := m2.decryptContent(cs, rs, sd3.reuseGuard)
						vCheck(e2 != nil && (k == 3 || e1 != nil), "header change %d is not noticed (sender data: %v, content: %v)", k, e1, e2)
					}
					return nil
				})
			}
			// padding
			h.run("padding", fmt.Sprint("suite ", cs, " padding ", i), func() error {
				pad := g.Intn(300)
				f := rcontent(by, 1)
				f.applicationData = data
				o := &rmsgOpts{private: true, padding: pad}
				raw := rframe(by, rauth(by, f, o), o)
				got, err := by.UnmarshalAndProcessMessage(raw)
				vMust(err)
				vCheck(bytes.Equal(got, data), "padded message reads %x, want %x", got, data)
				at := 1 + g.Intn(pad+1)
				o = &rmsgOpts{private: true, padding: pad + 1, plaintext: func(b []byte) []byte { b[len(b)-at] = 1 << uint(g.Intn(8)); return b }}
				raw = rframe(by, rauth(by, f, o), o)
				_, err = by.UnmarshalAndProcessMessage(raw)
				vCheck(err != nil, "non-zero byte %d from the end of %d bytes of padding is accepted", at, pad+1)
				return nil
			})
		}
	}
	rplayAll(h, "C10", true)
}
