package mls

import (
	"fmt"
	"testing"
)

func TestVerifC12(t *testing.T) {
	h := newVH(t, "C12", "one case per rejected message kind, suite and sender, and per accepted or created message; distinct by those")
	defer h.done()
	g := &rgen{h.rng}
	rplayAll(h, "", false)

	for _, cs := range rpathSuites {
		base := rbattle(cs)
		for i := h.scale(6, 60); i > 0; i-- {
			h.run("accepted", fmt.Sprint("suite ", cs, " accepted ", i), func() error {
				w := rcopyWorld(base)
				al := w.alive()
				by := al[g.Intn(len(al))]
				// proposals only record themselves
				var refs []proposalOrRef
				for _, x := range al {
					if x == by || g.Intn(2) == 0 {
						continue
					}
					p, priv := rupdateProp(w.members[x])
					raw, ref := rproposalMsg(w.members[x], &p, &rmsgOpts{private: g.Intn(2) == 0, aad: g.bytes()})
					for _, y := range al {
						m := w.members[y]
						before := rcopyGroup(m)
						_, err := m.UnmarshalAndProcessMessage(raw)
						vMust(err)
						k := len(before.pendingProposals)
						vCheck(len(m.pendingProposals) == k+1, "%d pending proposals after %d", len(m.pendingProposals), k)
						last := m.pendingProposals[k]
						vCheck(string(last.ref) == string(ref) && int(last.sender) == x && requal(last.proposal, &p), "recorded %+v from %d", last, x)
						c := rcopyGroup(m)
						c.pendingProposals = c.pendingProposals[:k]
						vCheck(rsnap(c) == rsnap(before), "a proposal changes the group:\n%s", rdiff(rsnap(before), rsnap(c)))
					}
					w.members[x].privTree[2*x] = priv
					refs = append(refs, proposalOrRef{typ: 2, reference: ref})
				}
				var kps []KeyPackage
				for k := 1 + g.Intn(3); k > 0; k-- {
					kps = append(kps, rkey(cs, "new").Public)
				}
				m := w.members[by]
				s := rsnap(m)
				keep := fmt.Sprintf("%+v", kps)
				if len(refs) == 0 {
					_, _, err := m.CreateWelcome(kps)
					vMust(err)
					vCheck(rsnap(m) == s, "creating a welcome changes the group:\n%s", rdiff(s, rsnap(m)))
					vCheck(fmt.Sprintf("%+v", kps) == keep, "creating a welcome changes the key packages")
				}
				_, err := m.CreateApplicationMessage(g.bytes())
				vMust(err)
				vCheck(rsnap(m) == s, "creating an application message changes the group:\n%s", rdiff(s, rsnap(m)))

				r := rcommit(m, &rcommitOpts{path: true, proposals: refs})
				for _, x := range al {
					if x == by {
						continue
					}
					other := rcopyGroup(w.members[x])
					shared := w.members[x].tree
					sharedSnap := rtreeSnap(shared)
					if _, err := w.members[x].UnmarshalAndProcessMessage(r.raw); err != nil {
						return fmt.Errorf("valid commit rejected: %v", err)
					}
					rexpect(w.members[x], r)
					vCheck(w.members[x].groupContext.epoch == other.groupContext.epoch+1, "epoch %d after %d", w.members[x].groupContext.epoch, other.groupContext.epoch)
					vCheck(rtreeSnap(shared) == sharedSnap, "the old tree is changed")
					vCheck(w.members[x].myLeafIndex == other.myLeafIndex && string(w.members[x].signaturePriv) == string(other.signaturePriv), "identity changes")
				}
				return nil
			})
		}
	}
	// errors of the create operations
	for _, cs := range rallSuites {
		h.run("failed creation", fmt.Sprint("suite ", cs), func() error {
			w := rnewWorld(cs, "fail", 3)
			m := w.members[1]
			s := rsnap(m)
			bad := rkey(cs, "bad").Public
			bad.initKey = []byte("junk")
			_, _, err := m.CreateWelcome([]KeyPackage{rkey(cs, "ok").Public, bad})
			vCheck(err != nil, "a key package with a malformed key is welcomed")
			vCheck(rsnap(m) == s, "failing to create a welcome changes the group:\n%s", rdiff(s, rsnap(m)))
			return nil
		})
	}
}
