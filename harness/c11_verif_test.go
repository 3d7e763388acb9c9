package mls

import (
	"bytes"
	"fmt"
	"testing"
)

func TestVerifC11(t *testing.T) {
	h := newVH(t, "C11", "one case per forged message kind, sender and suite, delivered to all members; distinct by kind, suite and sender")
	defer h.done()
	rplayAll(h, "C11", true)

	// The same messages without the forgery are accepted.
	for _, cs := range []CipherSuite{1, 2, 3, 7} {
		base := rbattle(cs)
		for _, private := range []bool{false, true} {
			for _, kind := range []int{1, 2, 3, 4} {
				if kind == 1 && !private {
					continue
				}
				h.run("genuine", fmt.Sprint("suite ", cs, " private ", private, " kind ", kind), func() error {
					w := rcopyWorld(base)
					al := w.alive()
					by := al[h.rng.Intn(len(al))]
					o := rmsgOpts{private: private, aad: []byte("aad"), generation: uint32(h.rng.Intn(3)), padding: h.rng.Intn(9)}
					var raw []byte
					var r *rcommitResult
					switch kind {
					case 1:
						f := rcontent(w.members[by], 1)
						f.applicationData = []byte("hello")
						f.authenticatedData = o.aad
						raw = rframe(w.members[by], rauth(w.members[by], f, &o), &o)
					case 2:
						p, _ := rupdateProp(w.members[by])
						raw, _ = rproposalMsg(w.members[by], &p, &o)
					case 3, 4:
						r = rcommit(w.members[by], &rcommitOpts{rmsgOpts: o, path: kind == 4, proposals: rinline(raddProp(&rkey(cs, "new").Public))})
						raw = r.raw
					}
					if kind == 2 && !private {
						// the library frames the same proposal the same way
						var m mlsMessage
						vMust(unmarshal(raw, &m))
						want := m.publicMessage
						g := w.members[by]
						got, err := signPublicMessage(cs, g.signaturePriv, &want.content, &g.groupContext)
						vMust(err)
						got.auth.signature = want.auth.signature
						lib, err := g.signPublicMessageMembershipTag(got)
						vMust(err)
						vCheck(bytes.Equal(lib, raw), "public message %x, want %x", lib, raw)
					}
					for _, i := range al {
						if i == by {
							continue
						}
						data, err := w.members[i].UnmarshalAndProcessMessage(raw)
						vMust(err)
						if kind == 1 {
							vCheck(string(data) == "hello", "application data %q", data)
						}
						if r != nil {
							rexpect(w.members[i], r)
						}
					}
					return nil
				})
			}
		}
	}
}
