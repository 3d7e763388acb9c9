package mls

import (
	"bytes"
	"fmt"
	"testing"
	"time"
)

func TestVerifC07(t *testing.T) {
	h := newVH(t, "C07", "one case per generated ratchet tree, valid or with one defect, compared with the integrity conditions; distinct by content")
	defer h.done()
	g := &rgen{h.rng}
	accepted, rejected := map[string]int{}, map[string]int{}

	kinds := []string{"none", "wild unmerged", "tree hash", "leaf key", "leaf signature key copy", "leaf encryption key copy", "parent key copy", "parent key of leaf", "parent hash", "leaf parent hash", "lifetime", "capabilities", "extension", "leaf position", "group", "unmerged order", "both sides", "leaf signature", "unmerged added", "unmerged dropped", "parent dropped", "blanked leaf"}
	for i := h.scale(1500, 15000); i > 0; i-- {
		cs := CipherSuite(1)
		if g.Intn(12) == 0 {
			cs = rpathSuites[g.Intn(len(rpathSuites))]
		}
		f := newFactory(cs)
		n := 1 << uint(g.Intn(5))
		kind := kinds[g.Intn(len(kinds))]
		tr := f.tree(g, n, kind == "wild unmerged")
		now := time.Now()
		var leaves, parents []int
		for x := range tr {
			if tr[x] != nil && x%2 == 0 {
				leaves = append(leaves, x)
			} else if tr[x] != nil {
				parents = append(parents, x)
			}
		}
		lx := leaves[g.Intn(len(leaves))]
		px := -1
		if len(parents) > 0 {
			px = parents[g.Intn(len(parents))]
		}
		tr = rcopyTree(tr)
		relink := false
		l := tr[lx].leafNode
		switch kind {
		case "leaf key":
			l.encryptionKey = g.key(32)
			f.sign(l, lx/2)
		case "leaf signature key copy":
			l.signatureKey = tr[leaves[g.Intn(len(leaves))]].leafNode.signatureKey
			relink = true
		case "leaf encryption key copy":
			l.encryptionKey = tr[leaves[g.Intn(len(leaves))]].leafNode.encryptionKey
			relink = true
		case "parent key copy":
			if px >= 0 {
				tr[px].parentNode.encryptionKey = tr[parents[g.Intn(len(parents))]].parentNode.encryptionKey
				relink = true
			}
		case "parent key of leaf":
			if px >= 0 {
				tr[px].parentNode.encryptionKey = l.encryptionKey
				relink = true
			}
		case "parent hash":
			if px >= 0 {
				tr[px].parentNode.parentHash = g.bytes()
			}
		case "leaf parent hash":
			if l.leafNodeSource == 3 {
				l.parentHash = g.key(32)
				f.sign(l, lx/2)
			}
		case "lifetime":
			if l.lifetime != nil {
				u := uint64(now.Unix())
				l.lifetime = []*lifetime{{u + 3600, u + 7200}, {u - 7200, u - 3600}, {u - 3600, u + 91*86400}, {u + 3600, u - 3600}, {0, u + 10}, {u - 10, ^uint64(0)}}[g.Intn(6)]
				relink = true
			}
		case "capabilities":
			l.capabilities.credentials = [][]credentialType{{}, {2}, {2, 2}, {1, 2}, {5}}[g.Intn(5)]
			relink = true
		case "extension":
			l.extensions = []extension{{2, nil}, {extensionType(g.u16()), nil}}[:1+g.Intn(2)]
			relink = true
		case "unmerged order":
			if px >= 0 {
				u := tr[px].parentNode.unmergedLeaves
				for a, b := 0, len(u)-1; a < b; a, b = a+1, b-1 {
					u[a], u[b] = u[b], u[a]
				}
			}
		case "both sides":
			if px >= 0 {
				tr[px].parentNode.unmergedLeaves = nil
			}
		case "leaf signature":
			l.signature = append([]byte{}, l.signature...)
			l.signature[g.Intn(len(l.signature))] ^= 1
		case "unmerged added":
			if px >= 0 {
				tr[px].parentNode.unmergedLeaves = append(tr[px].parentNode.unmergedLeaves, leafIndex(g.Intn(n)))
			}
		case "unmerged dropped":
			if px >= 0 && len(tr[px].parentNode.unmergedLeaves) > 0 {
				tr[px].parentNode.unmergedLeaves = tr[px].parentNode.unmergedLeaves[1:]
			}
		case "parent dropped":
			if px >= 0 {
				tr[px] = nil
			}
		case "blanked leaf":
			if lx != len(tr)-1 {
				tr[lx] = nil
			}
		}
		if relink {
			f.link(g, tr, rroot(tr), map[int][]byte{})
		}
		ctx := g.groupContext()
		ctx.cipherSuite = cs
		ctx.groupID = f.gid
		ctx.treeHash = rrootHash(cs, tr)
		switch kind {
		case "tree hash":
			ctx.treeHash = [][]byte{nil, g.key(32), ctx.treeHash[:31], append([]byte{}, ctx.treeHash...)}[g.Intn(4)]
			if len(ctx.treeHash) == 32 && g.Intn(2) == 0 {
				ctx.treeHash[31] ^= 1
			}
		case "leaf position":
			if l.leafNodeSource != 1 {
				f.sign(l, lx/2+1)
				ctx.treeHash = rrootHash(cs, tr)
			}
		case "group":
			ctx.groupID = []byte("other")
		}
		want := rintegrity(cs, tr, &ctx, now)
		h.run("integrity", fmt.Sprintf("%s: %d leaves %s", kind, n, hexs(rhash(1, []byte(rtreeSnap(tr)), ctx.treeHash))), func() error {
			snap := rtreeSnap(tr)
			got := ratchetTree(tr).verifyIntegrity(&ctx, func() time.Time { return now })
			vCheck(got != nil || want == nil, "a tree of %d leaves with a defect (%s) is accepted: %v", n, kind, want)
			vCheck(rtreeSnap(tr) == snap, "verification changes the tree")
			if got == nil {
				accepted[kind]++
			} else {
				rejected[kind]++
			}
			return nil
		})
	}
	h.run("generator", "valid trees are accepted, defects occur", func() error {
		vCheck(accepted["none"] > 0 && rejected["none"] == 0, "valid trees: %d accepted, %d rejected", accepted["none"], rejected["none"])
		return nil
	})

	// A joiner applies the checks.
	for _, cs := range rpathSuites {
		for k := 0; k < h.scale(4, 12); k++ {
			h.run("joiner", fmt.Sprint("suite ", cs, " case ", k), func() error {
				w := rnewWorld(cs, "join", 3)
				nk := rkey(cs, "new")
				o := &rcommitOpts{path: true, proposals: rinline(raddProp(&nk.Public))}
				r := rcommit(w.members[0], o)
				edit := func(i int, gi *groupInfo) {
					if i != 0 {
						return
					}
					tr := rcopyTree(r.tree)
					switch k % 4 {
					case 1:
						tr[1].parentNode.encryptionKey = g.key(32)
					case 2:
						tr[2].leafNode.signatureKey = tr[0].leafNode.signatureKey
					case 3:
						gi.groupContext.treeHash = g.key(32)
					}
					gi.extensions[0].extensionData = renc(func(w *rw) { w.ratchetTree(tr) })
					if k%4 == 1 || k%4 == 2 {
						if k >= 4 {
							gi.groupContext.treeHash = rrootHash(cs, tr)
						}
					}
					sch := rfromJoiner(cs, r.sched.joiner, nil, &gi.groupContext)
					gi.confirmationTag = rmac(cs, rderive(cs, sch.epoch, "confirm"), gi.groupContext.confirmedTranscriptHash)
				}
				wel := rwelcome(w.members[0], r, []*KeyPackage{&nk.Public}, nil, edit)
				_, err := GroupFromWelcome(wel, nk)
				vCheck((err == nil) == (k%4 == 0), "welcome with tree defect %d: error %v", k%4, err)
				return nil
			})
		}
	}
	_ = bytes.Equal
}
