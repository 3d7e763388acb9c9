package mls

import (
	"bytes"
	"fmt"
	"testing"
)

func TestVerifC15(t *testing.T) {
	h := newVH(t, "C15", "one case per suite and commit with a path in a random history, checked at every member and joiner, and per defective path; distinct by history step")
	defer h.done()
	g := &rgen{h.rng}

	suites := []CipherSuite{1, 2, 1, 1}
	if h.tier != "quick" || h.hunt {
		suites = []CipherSuite{1, 2, 3, 7, 1, 1, 1, 1, 2, 1, 1, 1, 1}
	}
	for hist, cs := range suites {
		w := rnewWorld(cs, "paths", 2+g.Intn(7))
		for step := 0; step < 8; step++ {
			key := fmt.Sprint("history ", hist, " suite ", cs, " step ", step)
			ok := h.run("history", key, func() error {
				al := w.alive()
				by := al[g.Intn(len(al))]
				var ps []proposalOrRef
				var keys []*KeyPairPackage
				gone := -1
				if len(al) > 3 && g.Intn(3) == 0 {
					gone = al[g.Intn(len(al))]
					if gone == by {
						gone = -1
					} else {
						ps = append(ps, rinline(rremoveProp(gone))...)
					}
				}
				for k := g.Intn(3); k > 0; k-- {
					nk := rkey(cs, "joiner")
					keys = append(keys, nk)
					ps = append(ps, rinline(raddProp(&nk.Public))...)
				}
				r := rcommit(w.members[by], &rcommitOpts{rmsgOpts: rmsgOpts{private: g.Intn(2) == 0}, path: true, proposals: ps})
				for _, x := range al {
					if x == by {
						continue
					}
					m := w.members[x]
					_, err := m.UnmarshalAndProcessMessage(r.raw)
					if x == gone {
						continue
					}
					vMust(err)
					rexpect(m, r)
					rkeysMatch(m)
					rshared(m, r, by)
				}
				var kps []*KeyPackage
				for _, k := range keys {
					kps = append(kps, &k.Public)
				}
				wel := rwelcome(w.members[by], r, kps, nil, nil)
				for _, k := range keys {
					j, err := GroupFromWelcome(wel, k)
					vMust(err)
					rexpect(j, r)
					rkeysMatch(j)
					rshared(j, r, by)
					defer func(k *KeyPairPackage) { w.set(int(j.myLeafIndex), j, k) }(k)
				}
				// a wrong path secret is not accepted by a joiner
				if len(keys) > 0 {
					for _, bad := range []func([]byte) []byte{rflip, func(s []byte) []byte { return s[1:] }, func(s []byte) []byte { return []byte{} }} {
						wel := rwelcomeWith(w.members[by], r, kps, nil, nil, func(i int, s *groupSecrets) { s.pathSecret = bad(s.pathSecret) })
						_, err := GroupFromWelcome(wel, keys[0])
						vCheck(err != nil, "a joiner accepts a wrong path secret")
					}
				}
				radvance(w.members[by], r)
				if gone >= 0 {
					w.members[gone] = nil
				}
				return nil
			})
			if !ok {
				break
			}
		}
	}
	rplayAll(h, "C15", true)
}

// rshared checks the private keys of the path nodes a member shares with the
// committer, and that it holds none for path nodes it does not share.
func rshared(m *Group, r *rcommitResult, by int) {
	for _, a := range r.filtered {
		if a.has(int(m.myLeafIndex)) {
			vCheck(bytes.Equal(m.privTree[a.node()], r.nodePriv[a.node()]), "leaf %d has another private key for node %d", m.myLeafIndex, a.node())
		}
	}
	for _, a := range rpath(m.tree, by) {
		n, in := m.tree[a.node()], false
		for _, b := range r.filtered {
			in = in || a == b
		}
		vCheck(in == (n != nil), "node %d on the path of the committer: blank %v, in the filtered path %v", a.node(), n == nil, in)
		if n != nil {
			vCheck(len(n.parentNode.unmergedLeaves) == 0, "node %d keeps unmerged leaves", a.node())
		}
	}
}
