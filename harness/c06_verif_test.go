package mls

import (
	"bytes"
	"fmt"
	"testing"
)

func TestVerifC06(t *testing.T) {
	h := newVH(t, "C06", "one case per tree, node, exclusion set and suite; distinct by suite, size, blank pattern, node and excluded leaves")
	defer h.done()
	g := &rgen{h.rng}

	for i := h.scale(600, 8000); i > 0; i-- {
		cs := rallSuites[g.Intn(7)]
		n := 1 << uint(g.Intn(6))
		blank := g.Uint64() & g.Uint64()
		if g.Intn(3) == 0 {
			blank = g.Uint64()
		}
		base := rshape(g, n, blank)
		for _, x := range base {
			if x != nil && x.leafNode != nil {
				l := g.leafNode()
				x.leafNode = &l
			}
		}
		snap := rtreeSnap(base)
		spans := rspans(base)
		s := spans[g.Intn(len(spans))]
		if g.Intn(3) == 0 {
			s = rroot(base)
		}
		excl := map[int]bool{}
		var lexcl map[leafIndex]struct{}
		if g.Intn(3) != 0 {
			lexcl = map[leafIndex]struct{}{}
			for k := g.Intn(4); k > 0; k-- {
				l := g.Intn(n)
				excl[l] = true
				lexcl[leafIndex(l)] = struct{}{}
			}
		}
		h.run("tree hash", fmt.Sprint("suite ", cs, " ", n, " leaves, blank ", blank, " node ", s.node(), " excluded ", excl), func() error {
			got, err := ratchetTree(base).computeTreeHash(cs, nodeIndex(s.node()), lexcl)
			vMust(err)
			want := rtreeHash(cs, base, s, excl)
			vCheck(bytes.Equal(got, want), "suite %d, %d leaves, node %d, excluded %v: tree hash %x, want %x", cs, n, s.node(), excl, got, want)
			vCheck(rtreeSnap(base) == snap, "hashing changes the tree")
			if s == rroot(base) && len(excl) == 0 {
				got, err := ratchetTree(base).computeRootTreeHash(cs)
				vMust(err)
				vCheck(bytes.Equal(got, want), "root tree hash %x, want %x", got, want)
			}
			return nil
		})
		p := g.parentNode()
		orig := g.bytes()
		h.run("parent hash", fmt.Sprintf("suite %d parent hash %s %s %s", cs, hexs(p.encryptionKey), hexs(p.parentHash), hexs(orig)), func() error {
			got, err := p.computeParentHash(cs, orig)
			vMust(err)
			vCheck(bytes.Equal(got, rparentHash(cs, &p, orig)), "suite %d: parent hash differs", cs)
			return nil
		})
	}
	// Parent hashes in trees made from scratch are recognised, and a changed
	// one is not.
	for i := h.scale(60, 1200); i > 0; i-- {
		cs := rpathSuites[g.Intn(3)]
		f := newFactory(cs)
		n := 2 << uint(g.Intn(3))
		tr := f.tree(g, n, false)
		h.run("parent hash links", fmt.Sprintf("suite %d tree %s", cs, hexs(rhash(1, []byte(rtreeSnap(tr))))), func() error {
			vCheck(ratchetTree(tr).verifyParentHashes(cs), "parent hashes of a tree made by RFC 9420 section 7.9 are rejected")
			var ps []int
			for x := 1; x < len(tr); x += 2 {
				if tr[x] != nil {
					ps = append(ps, x)
				}
			}
			if len(ps) == 0 {
				return nil
			}
			bad := rcopyTree(tr)
			x := ps[g.Intn(len(ps))]
			bad[x].parentNode.encryptionKey = append([]byte{}, bad[x].parentNode.encryptionKey...)
			bad[x].parentNode.encryptionKey[0] ^= 1
			vCheck(!ratchetTree(bad).verifyParentHashes(cs), "changing the key of node %d leaves the parent hashes valid", x)
			return nil
		})
	}
}
