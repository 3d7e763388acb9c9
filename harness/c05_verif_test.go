package mls

import (
	"fmt"
	"testing"
)

func TestVerifC05(t *testing.T) {
	h := newVH(t, "C05", "one case per tree shape and edit, exhaustive over blank patterns of trees of up to 4 leaves and sampled above; distinct by size, blank pattern and edit")
	defer h.done()
	g := &rgen{h.rng}

	same := func(what string, got, want []*node) {
		vCheck(rtreeSnap(got) == rtreeSnap(want), "%s gives\n%.1500s\nwant\n%.1500s", what, rtreeSnap(got), rtreeSnap(want))
	}
	edits := func(n int, blank uint64) {
		base := rshape(g, n, blank)
		snap := rtreeSnap(base)
		leaf := *rleafN(g, 7).leafNode
		shape := fmt.Sprintf("%d leaves, blank %b", n, blank)
		leafCopy := renc(func(w *rw) { w.leafNode(&leaf) })
		h.run("add", shape+" add", func() error {
			tr := append(ratchetTree{}, base...)
			kept := ratchetTree(base).copy()
			tr.add(&leaf)
			want, _ := radd(base, &leaf)
			same("adding to "+shape, tr, want)
			vCheck(rtreeSnap(base) == snap && rtreeSnap(kept) == snap, "adding changes another copy of the tree (%s)", shape)
			vCheck(string(renc(func(w *rw) { w.leafNode(&leaf) })) == string(leafCopy), "adding changes the leaf")
			return nil
		})
		for l := 0; l < n; l++ {
			if n > 8 && h.rng.Intn(4) != 0 {
				continue
			}
			l := l
			h.run("update", fmt.Sprint(shape, " update ", l), func() error {
				tr := append(ratchetTree{}, base...)
				tr.update(leafIndex(l), &leaf)
				same(fmt.Sprint("updating leaf ", l, " of ", shape), tr, rupdate(base, l, &leaf))
				vCheck(rtreeSnap(base) == snap, "updating changes another copy of the tree (%s)", shape)
				return nil
			})
			if base[2*l] == nil {
				continue
			}
			h.run("remove", fmt.Sprint(shape, " remove ", l), func() error {
				tr := append(ratchetTree{}, base...)
				tr.remove(leafIndex(l))
				same(fmt.Sprint("removing leaf ", l, " of ", shape), tr, rremove(base, l))
				vCheck(rtreeSnap(base) == snap, "removing changes another copy of the tree (%s)", shape)
				return nil
			})
		}
	}
	for n := 1; n <= 4; n *= 2 {
		for blank := uint64(0); blank < 1<<uint(2*n-1); blank++ {
			edits(n, blank)
		}
	}
	for i := h.scale(400, 6000); i > 0; i-- {
		n := 8 << uint(g.Intn(3))
		blank := g.Uint64() & g.Uint64()
		switch g.Intn(3) {
		case 0:
			blank |= g.Uint64()
		case 1: // everything right of some leaf is blank
			blank |= ^uint64(0) << uint(2*g.Intn(n))
		}
		if g.Intn(4) == 0 {
			blank &= 0xAAAAAAAAAAAAAAAA // no blank leaf
		}
		edits(n, blank)
	}

	// Proposal lists.
	for i := h.scale(500, 8000); i > 0; i-- {
		n := 1 << uint(g.Intn(5))
		base := rshape(g, n, g.Uint64()&g.Uint64())
		var props []proposal
		var senders []leafIndex
		used := map[int]bool{}
		desc := ""
		for k := g.Intn(7); k > 0; k-- {
			l := g.Intn(n)
			switch g.Intn(4) {
			case 0:
				props = append(props, proposal{proposalType: 1, add: &add{KeyPackage{leafNode: *rleafN(g, k).leafNode}}})
				senders = append(senders, leafIndex(l))
				desc += " add"
			case 1:
				if base[2*l] == nil || used[l] {
					continue
				}
				used[l] = true
				props = append(props, proposal{proposalType: 2, update: &update{*rleafN(g, k).leafNode}})
				senders = append(senders, leafIndex(l))
				desc += fmt.Sprint(" update ", l)
			case 2:
				if base[2*l] == nil || used[l] || len(used)+1 >= n {
					continue
				}
				used[l] = true
				props = append(props, proposal{proposalType: 3, remove: &remove{leafIndex(l)}})
				senders = append(senders, leafIndex(g.Intn(n)))
				desc += fmt.Sprint(" remove ", l)
			case 3:
				props = append(props, proposal{proposalType: 7, groupContextExtensions: &groupContextExtensions{}})
				senders = append(senders, leafIndex(l))
				desc += " extensions"
			}
		}
		h.run("apply", fmt.Sprint(n, " leaves:", desc), func() error {
			// a removal that would empty the tree or a leaf that shrinking
			// takes away cannot occur in a valid list
			members := 0
			for j := 0; j < len(base); j += 2 {
				if base[j] != nil {
					members++
				}
			}
			for _, p := range props {
				if p.proposalType == 3 {
					members--
				}
			}
			if members < 1 {
				return nil
			}
			cur := base
			for j, p := range props {
				if p.proposalType == 2 {
					cur = rupdate(cur, int(senders[j]), &p.update.leafNode)
				}
			}
			for _, p := range props {
				if p.proposalType == 3 && 2*int(p.remove.removed) >= len(cur) {
					return nil
				} else if p.proposalType == 3 {
					cur = rremove(cur, int(p.remove.removed))
				}
			}
			snap := rtreeSnap(base)
			tr := ratchetTree(base).copy()
			tr.apply(props, senders)
			want, _ := rapply(base, props, senders)
			same("applying"+desc, tr, want)
			vCheck(rtreeSnap(base) == snap, "applying%s changes another copy of the tree", desc)
			vCheck(len(tr) == 0 || (len(tr)+1)&len(tr) == 0, "tree has %d nodes", len(tr))
			return nil
		})
	}
}
