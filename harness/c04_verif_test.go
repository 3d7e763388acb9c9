package mls

import (
	"fmt"
	"sort"
	"testing"
)

// Reference tree: the complete binary tree over n leaves laid out in order,
// built by recursion on explicit pointers, no arithmetic shared with the code.
type refNode struct {
	idx         uint32
	level       uint32
	left, right *refNode
	parent      *refNode
}

func refBuild(n int) (*refNode, []*refNode) {
	var nodes []*refNode
	next := uint32(0)
	var rec func(n int) *refNode
	rec = func(n int) *refNode {
		if n == 1 {
			x := &refNode{idx: next}
			next++
			nodes = append(nodes, x)
			return x
		}
		l := rec(n / 2)
		x := &refNode{idx: next, left: l, level: l.level + 1}
		next++
		nodes = append(nodes, x)
		r := rec(n / 2)
		x.right = r
		l.parent, r.parent = x, x
		return x
	}
	return rec(n), nodes
}

// Reference on the address of a node (level, position) without the layout:
// node = (2*pos+1)*2^level - 1 over 64 bits.
func refAddr(x uint32) (lvl uint32, pos uint64) {
	v := uint64(x) + 1
	for v%2 == 0 {
		v /= 2
		lvl++
	}
	return lvl, v / 2
}

func refIdx(lvl uint32, pos uint64) uint64 {
	v := 2*pos + 1
	for i := uint32(0); i < lvl; i++ {
		v *= 2
	}
	return v - 1
}

func vCheckTreeMath(n uint32, x uint32) error {
	lvl, pos := refAddr(x)
	root := uint64(n) - 1
	rootLvl, _ := refAddr(uint32(root))
	bad := func(what string, got, want interface{}) error {
		return fmt.Errorf("n=%d x=%d: %s is %v, want %v", n, x, what, got, want)
	}
	if got := nodeIndex(x).level(); got != lvl {
		return bad("level", got, lvl)
	}
	if got := nodeIndex(x).isLeaf(); got != (lvl == 0) {
		return bad("isLeaf", got, lvl == 0)
	}
	li, ok := nodeIndex(x).leafIndex()
	if ok != (lvl == 0) || ok && uint64(li) != pos {
		return bad("leafIndex", fmt.Sprint(li, ok), pos)
	}
	if ok && leafIndex(pos).nodeIndex() != nodeIndex(x) {
		return bad("nodeIndex of leaf", leafIndex(pos).nodeIndex(), x)
	}
	wl, wr := uint64(0), uint64(0)
	if lvl > 0 {
		wl, wr = refIdx(lvl-1, 2*pos), refIdx(lvl-1, 2*pos+1)
	}
	l, okl := nodeIndex(x).left()
	if okl != (lvl > 0) || okl && uint64(l) != wl {
		return bad("left", fmt.Sprint(l, okl), wl)
	}
	r, okr := nodeIndex(x).right()
	if okr != (lvl > 0) || okr && uint64(r) != wr {
		return bad("right", fmt.Sprint(r, okr), wr)
	}
	cl, cr, okc := nodeIndex(x).children()
	if okc != (lvl > 0) || okc && (uint64(cl) != wl || uint64(cr) != wr) {
		return bad("children", fmt.Sprint(cl, cr, okc), fmt.Sprint(wl, wr))
	}
	if got := numLeaves(n).root(); uint64(got) != root {
		return bad("root", got, root)
	}
	if got := numLeaves(n).width(); uint64(got) != 2*uint64(n)-1 {
		return bad("width", got, 2*uint64(n)-1)
	}
	if got := numLeavesFromWidth(uint32(2*uint64(n) - 1)); got != numLeaves(n) {
		return bad("leaves from width", got, n)
	}
	isRoot := uint64(x) == root
	p, okp := numLeaves(n).parent(nodeIndex(x))
	if okp != !isRoot || okp && uint64(p) != refIdx(lvl+1, pos/2) {
		return bad("parent", fmt.Sprint(p, okp), refIdx(lvl+1, pos/2))
	}
	s, oks := numLeaves(n).sibling(nodeIndex(x))
	if oks != !isRoot || oks && uint64(s) != refIdx(lvl, pos^1) {
		return bad("sibling", fmt.Sprint(s, oks), refIdx(lvl, pos^1))
	}
	dp := numLeaves(n).directPath(nodeIndex(x))
	if uint32(len(dp)) != rootLvl-lvl {
		return bad("length of direct path", len(dp), rootLvl-lvl)
	}
	for i, y := range dp {
		k := uint32(i) + 1
		if uint64(y) != refIdx(lvl+k, pos>>k) {
			return bad(fmt.Sprintf("direct path [%d]", i), y, refIdx(lvl+k, pos>>k))
		}
	}
	cp := numLeaves(n).copath(nodeIndex(x))
	if uint32(len(cp)) != rootLvl-lvl {
		return bad("length of copath", len(cp), rootLvl-lvl)
	}
	for i, y := range cp {
		k := uint32(i)
		if uint64(y) != refIdx(lvl+k, (pos>>k)^1) {
			return bad(fmt.Sprintf("copath [%d]", i), y, refIdx(lvl+k, (pos>>k)^1))
		}
	}
	return nil
}

func vCheckCommon(x, y uint32) error {
	lx, px := refAddr(x)
	ly, py := refAddr(y)
	l := lx
	for l < ly {
		px /= 2
		l++
	}
	for ly < l {
		py /= 2
		ly++
	}
	for px != py {
		px, py, l = px/2, py/2, l+1
	}
	want := refIdx(l, px)
	if got := commonAncestor(nodeIndex(x), nodeIndex(y)); uint64(got) != want {
		return fmt.Errorf("common ancestor of %d and %d is %d, want %d", x, y, got, want)
	}
	return nil
}

func TestVerifC04(t *testing.T) {
	h := newVH(t, "C04", "every node of every tree of up to 2^k leaves against an explicitly built tree, and random and extreme nodes of every power-of-two size up to 2^31; a case is one (size, node) or (node, node) pair, non-trivial when the tree has more than one leaf")
	defer h.done()
	for n := 1; n <= h.scale(256, 1024); n *= 2 {
		root, nodes := refBuild(n)
		for _, x := range nodes {
			x := x
			key := ""
			if n > 1 {
				key = fmt.Sprintf("n=%d x=%d", n, x.idx)
			}
			h.run("tree", key, func() error {
				if uint32(root.idx) != uint32(numLeaves(n).root()) {
					return fmt.Errorf("root of %d leaves is %d, want %d", n, numLeaves(n).root(), root.idx)
				}
				if x.left != nil {
					l, r, ok := nodeIndex(x.idx).children()
					if !ok || uint32(l) != x.left.idx || uint32(r) != x.right.idx {
						return fmt.Errorf("children of %d are %d, %d", x.idx, l, r)
					}
				}
				p, ok := numLeaves(n).parent(nodeIndex(x.idx))
				if ok != (x.parent != nil) || ok && uint32(p) != x.parent.idx {
					return fmt.Errorf("n=%d: parent of %d is %d, %v", n, x.idx, p, ok)
				}
				return vCheckTreeMath(uint32(n), x.idx)
			})
		}
	}
	for i := uint32(0); i < 64; i++ {
		for j := uint32(0); j < 64; j++ {
			h.run("common ancestor", fmt.Sprintf("%d %d", i, j), func() error { return vCheckCommon(i, j) })
		}
	}
	for k := 0; k < 32; k++ {
		n := uint32(1) << k
		w := uint64(2)*uint64(n) - 1
		cand := map[uint32]bool{0: true, uint32(w - 1): true, n - 1: true}
		for d := 0; d < k; d++ {
			cand[uint32(1)<<d] = true
			cand[uint32(1)<<d-1] = true
			cand[uint32((w-1)-(uint64(1)<<d))] = true
		}
		for i := 0; i < h.scale(60, 600); i++ {
			cand[uint32(h.rng.Uint64()%w)] = true
		}
		var xs []uint32
		for x := range cand {
			if uint64(x) < w {
				xs = append(xs, x)
			}
		}
		sort.Slice(xs, func(i, j int) bool { return xs[i] < xs[j] })
		for _, x := range xs {
			x := x
			h.run("large tree", fmt.Sprintf("n=%d x=%d", n, x), func() error { return vCheckTreeMath(n, x) })
			y := uint32(h.rng.Uint64() % w)
			h.run("common ancestor", fmt.Sprintf("%d %d", x, y), func() error { return vCheckCommon(x, y) })
		}
	}
	// a balanced search for every node being below the root at the right side
	for i := 0; i < h.scale(2000, 20000); i++ {
		x := h.rng.Uint32()
		h.run("log2", fmt.Sprint("log2 ", x), func() error {
			want := uint32(0)
			for v := x; v > 1; v /= 2 {
				want++
			}
			if got := log2(x); got != want {
				return fmt.Errorf("log2(%d) is %d, want %d", x, got, want)
			}
			p := false
			for k := 0; k < 32; k++ {
				p = p || x == uint32(1)<<k
			}
			if isPowerOf2(x) != p {
				return fmt.Errorf("isPowerOf2(%d)", x)
			}
			return nil
		})
	}
	for k := 0; k < 32; k++ {
		x := uint32(1) << k
		for _, y := range []uint32{x - 1, x, x + 1} {
			h.run("power of two", fmt.Sprint("pow ", y), func() error {
				p := false
				for k := 0; k < 32; k++ {
					p = p || y == uint32(1)<<k
				}
				if isPowerOf2(y) != p {
					return fmt.Errorf("isPowerOf2(%d) is %v", y, !p)
				}
				return nil
			})
		}
	}
}
