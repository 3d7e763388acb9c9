package mls

import (
	"bytes"
	"fmt"
	"testing"
)

func TestVerifC13(t *testing.T) {
	h := newVH(t, "C13", "one case per invitation: cipher suite, number of existing and invited members, inviter, and how the group came about; all non-trivial; distinct by these parameters")
	defer h.done()

	for _, cs := range rallSuites {
		max := h.scale(4, 9)
		if cs >= 4 {
			max = h.scale(2, 4)
		}
		for n := 1; n <= max; n++ {
			for _, k := range []int{1, 2, 3, 5} {
				if cs != 1 && k > 2 && !h.hunt {
					continue
				}
				by := h.rng.Intn(n)
				h.run("invite", fmt.Sprintf("suite %d: member %d of %d invites %d", cs, by, n, k), func() error {
					w := rnewWorld(cs, "invite", n)
					g := w.members[by]
					before := rcopyGroup(g)
					var ks []*KeyPairPackage
					var pubs []KeyPackage
					for i := 0; i < k; i++ {
						x := rkey(cs, fmt.Sprint("new", i))
						ks = append(ks, x)
						pubs = append(pubs, x.Public)
					}
					wel, msg, err := g.CreateWelcome(pubs)
					vMust(err)
					vCheck(rsnap(g) == rsnap(before), "creating the welcome changes the group: %s", rdiff(rsnap(before), rsnap(g)))
					vCheck(len(wel.secrets) == k && len(wel.NewMembers()) == k, "welcome has %d secrets for %d key packages", len(wel.secrets), k)
					for i, x := range ks {
						ref := rrefHash(cs, "MLS 1.0 KeyPackage Reference", renc(func(w *rw) { w.keyPackage(&x.Public) }))
						vCheck(bytes.Equal(wel.NewMembers()[i], ref), "secret %d of the welcome is not for key package %d", i, i)
						gref, err := x.Public.GenerateRef()
						vCheck(err == nil && bytes.Equal(gref, ref), "wrong key package reference")
					}
					for _, i := range w.alive() {
						_, err := w.members[i].UnmarshalAndProcessMessage(msg)
						vCheck(err == nil, "member %d cannot process the commit: %v", i, err)
					}
					wel2, err := UnmarshalWelcome(wel.Bytes())
					vMust(err)
					var want []*node = before.tree
					for i, x := range ks {
						j, err := GroupFromWelcome(wel2, x)
						vCheck(err == nil, "invited member %d cannot join: %v", i, err)
						var at int
						want, at = radd(want, &x.Public.leafNode)
						vCheck(int(j.myLeafIndex) == at, "invited member %d joins at leaf %d, want %d", i, j.myLeafIndex, at)
						vCheck(bytes.Equal(j.privTree[2*at], x.Private.EncryptionKey), "invited member %d has another leaf key", i)
						vCheck(bytes.Equal(j.signaturePriv, x.Private.SignatureKey), "invited member %d has another signature key", i)
						w.set(at, j, x)
					}
					a := w.any()
					vCheck(a.groupContext.epoch == before.groupContext.epoch+1, "epoch is %d after %d", a.groupContext.epoch, before.groupContext.epoch)
					for i := range want {
						vCheck(requal(a.tree[i], want[i]), "tree node %d differs from the invitation", i)
					}
					ragree(w)
					rchat(w, by)
					rchat(w, w.alive()[len(w.alive())-1])
					return nil
				})
			}
		}
	}

	// Histories: several invitations by several members after path commits,
	// removals and joins with a path secret.
	for _, cs := range rpathSuites {
		for round := 0; round < h.scale(3, 25); round++ {
			seed := h.rng.Int63()
			h.run("history", fmt.Sprintf("suite %d history %d", cs, round), func() error {
				g := &rgen{newRand(seed)}
				w := rnewWorld(cs, "history", 2+g.Intn(4))
				for step := 0; step < h.scale(6, 12); step++ {
					rstep(w, g)
					ragree(w)
				}
				rchat(w, w.alive()[g.Intn(len(w.alive()))])
				return nil
			})
		}
	}
}
