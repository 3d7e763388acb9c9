package mls

import (
	"bytes"
	"fmt"
	"time"
)

// rfactory makes ratchet trees with valid signatures and parent hashes, and
// with unmerged leaves that may or may not be valid.
type rfactory struct {
	cs   CipherSuite
	keys []*KeyPairPackage
	gid  []byte
	n    int
}

var rkeyPool = map[CipherSuite][]*KeyPairPackage{}

func newFactory(cs CipherSuite) *rfactory {
	for len(rkeyPool[cs]) < 70 {
		rkeyPool[cs] = append(rkeyPool[cs], rkey(cs, "pool"))
	}
	return &rfactory{cs: cs, keys: rkeyPool[cs], gid: []byte("factory")}
}

// link sets parent hashes in the subtree s and signs its leaves. ph holds the
// parent hash of a node once known.
func (f *rfactory) link(g *rgen, t []*node, s rspan, ph map[int][]byte) {
	x := s.node()
	n := t[x]
	if s.leaf() {
		if n == nil {
			return
		}
		l := n.leafNode
		if h, ok := ph[x]; ok {
			l.leafNodeSource, l.parentHash, l.lifetime = 3, h, nil
		}
		f.sign(l, s.lo)
		return
	}
	if n == nil {
		f.link(g, t, s.left(), ph)
		f.link(g, t, s.right(), ph)
		return
	}
	p := n.parentNode
	if h, ok := ph[x]; ok {
		p.parentHash = h
	}
	excl := map[int]bool{}
	for _, l := range p.unmergedLeaves {
		excl[int(l)] = true
	}
	c, o := s.left(), s.right()
	if g.Intn(2) == 0 {
		c, o = o, c
	}
	pick := func(c rspan) int {
		for _, y := range rresolve(t, c) {
			if y >= len(t) || t[y] == nil || y%2 == 0 && excl[y/2] || !c.has(y/2) && y%2 == 0 {
				continue
			}
			if _, taken := ph[y]; !taken {
				return y
			}
		}
		return -1
	}
	y := pick(c)
	if y < 0 {
		c, o = o, c
		y = pick(c)
	}
	f.link(g, t, o, ph)
	if y >= 0 {
		ph[y] = rparentHash(f.cs, p, rtreeHash(f.cs, t, o, excl))
	}
	f.link(g, t, c, ph)
}

func (f *rfactory) sign(l *leafNode, at int) {
	for _, k := range f.keys {
		if bytes.Equal(k.Public.leafNode.signatureKey, l.signatureKey) {
			l.signature = rsign(f.cs, k.Private.SignatureKey, "LeafNodeTBS", renc(func(w *rw) { w.leafNodeTBS(l, f.gid, leafIndex(at)) }))
			return
		}
	}
}

// leaf makes an unsigned leaf.
func (f *rfactory) leaf(g *rgen) *leafNode {
	k := f.keys[f.n%len(f.keys)]
	f.n++
	l := k.Public.leafNode
	l.encryptionKey = g.key(32)
	now := uint64(time.Now().Unix())
	switch g.Intn(3) {
	case 0:
		l.leafNodeSource, l.lifetime = 2, nil
	default:
		l.leafNodeSource, l.lifetime = 1, &lifetime{now - 3600, now + 86400}
	}
	return &l
}

func (g *rgen) key(n int) []byte {
	b := make([]byte, n)
	g.Read(b)
	return b
}

// tree makes a tree of n leaves. With wild set, unmerged lists are arbitrary.
func (f *rfactory) tree(g *rgen, n int, wild bool) []*node {
	t := make([]*node, 2*n-1)
	for i := 0; i < len(t); i += 2 {
		if g.Intn(4) != 0 || i == len(t)-1 {
			t[i] = &node{nodeType: 1, leafNode: f.leaf(g)}
		}
	}
	for _, s := range rspans(t) {
		if s.leaf() || g.Intn(3) == 0 {
			continue
		}
		if len(rresolve(t, s.left())) == 0 || len(rresolve(t, s.right())) == 0 {
			continue
		}
		t[s.node()] = &node{nodeType: 2, parentNode: &parentNode{encryptionKey: g.key(32), parentHash: g.bytes()}}
	}
	for l := 0; l < n; l++ {
		if g.Intn(4) != 0 || t[2*l] == nil && !wild {
			continue
		}
		// unmerged at the non-blank nodes of a prefix of the path
		up := rpath(t, l)
		for _, a := range up[:g.Intn(len(up)+1)] {
			if p := t[a.node()]; p != nil && !(wild && g.Intn(5) == 0) {
				p.parentNode.unmergedLeaves = append(p.parentNode.unmergedLeaves, leafIndex(l))
			}
		}
	}
	if wild && g.Intn(3) == 0 {
		for x := 1; x < len(t); x += 2 {
			if t[x] != nil && g.Intn(4) == 0 {
				u := leafIndex(g.Intn(n))
				if g.Intn(6) == 0 {
					u = leafIndex(n + g.Intn(n))
				}
				t[x].parentNode.unmergedLeaves = append(t[x].parentNode.unmergedLeaves, u)
			}
		}
	}
	// A node needs a child side with a node that was there before it.
	for _, s := range rspans(t) {
		p := t[s.node()]
		if s.leaf() || p == nil {
			continue
		}
		excl := map[int]bool{}
		for _, l := range p.parentNode.unmergedLeaves {
			excl[int(l)] = true
		}
		ok := true
		for _, c := range []rspan{s.left(), s.right()} {
			any := false
			for l := c.lo; l < c.hi; l++ {
				any = any || t[2*l] != nil && !excl[l]
			}
			ok = ok && any
		}
		if !ok {
			t[s.node()] = nil
		}
	}
	f.link(g, t, rroot(t), map[int][]byte{})
	return t
}

// rintegrity decides section 12.4.3.1 as property C07 states it.
func rintegrity(cs CipherSuite, t []*node, ctx *groupContext, now time.Time) error {
	if !bytes.Equal(rrootHash(cs, t), ctx.treeHash) {
		return fmt.Errorf("tree hash")
	}
	sig, enc := map[string]bool{}, map[string]bool{}
	for _, s := range rspans(t) {
		n := t[s.node()]
		if n == nil {
			continue
		}
		if s.leaf() {
			if err := rleafValid(cs, t, n.leafNode, ctx.groupID, s.lo, now); err != nil {
				return fmt.Errorf("leaf %d: %v", s.lo, err)
			}
			if sig[string(n.leafNode.signatureKey)] {
				return fmt.Errorf("leaf %d: signature key in use", s.lo)
			}
			sig[string(n.leafNode.signatureKey)] = true
			if enc[string(n.leafNode.encryptionKey)] {
				return fmt.Errorf("leaf %d: encryption key in use", s.lo)
			}
			enc[string(n.leafNode.encryptionKey)] = true
			continue
		}
		p := n.parentNode
		if enc[string(p.encryptionKey)] {
			return fmt.Errorf("node %d: encryption key in use", s.node())
		}
		enc[string(p.encryptionKey)] = true
		excl := map[int]bool{}
		for _, l := range p.unmergedLeaves {
			excl[int(l)] = true
			if !s.has(int(l)) || t[2*l] == nil {
				return fmt.Errorf("node %d: unmerged leaf %d is blank or elsewhere", s.node(), l)
			}
			for _, a := range rpath(t, int(l)) {
				if a == s {
					break
				}
				if q := t[a.node()]; q != nil {
					found := false
					for _, m := range q.parentNode.unmergedLeaves {
						found = found || m == l
					}
					if !found {
						return fmt.Errorf("node %d: unmerged leaf %d is missing at node %d", s.node(), l, a.node())
					}
				}
			}
		}
		linked := func(c, o rspan) bool {
			want := rparentHash(cs, p, rtreeHash(cs, t, o, excl))
			for _, x := range rresolve(t, c) {
				if x >= len(t) || t[x] == nil {
					continue
				}
				var h []byte
				if x%2 == 0 {
					h = t[x].leafNode.parentHash
				} else {
					h = t[x].parentNode.parentHash
				}
				if bytes.Equal(h, want) {
					return true
				}
			}
			return false
		}
		if linked(s.left(), s.right()) == linked(s.right(), s.left()) {
			return fmt.Errorf("node %d: parent hash", s.node())
		}
	}
	return nil
}

// rleafValid decides section 7.3 as property C16 states it, without the
// uniqueness of keys.
func rleafValid(cs CipherSuite, t []*node, l *leafNode, gid []byte, at int, now time.Time) error {
	if !rverify(cs, l.signatureKey, "LeafNodeTBS", renc(func(w *rw) { w.leafNodeTBS(l, gid, leafIndex(at)) }), l.signature) {
		return fmt.Errorf("signature")
	}
	for i := 0; i < len(t); i += 2 {
		if t[i] == nil {
			continue
		}
		ok := false
		for _, c := range t[i].leafNode.capabilities.credentials {
			ok = ok || c == l.credential.credentialType
		}
		if !ok {
			return fmt.Errorf("credential type not supported by leaf %d", i/2)
		}
	}
	if l.lifetime != nil && !now.IsZero() {
		a, b, n := l.lifetime.notBefore, l.lifetime.notAfter, uint64(now.Unix())
		if b <= a || b-a > 90*86400 || n < a || n > b {
			return fmt.Errorf("lifetime")
		}
	}
	for _, x := range l.extensions {
		ok := false
		for _, c := range l.capabilities.extensions {
			ok = ok || c == x.extensionType
		}
		if !ok {
			return fmt.Errorf("extension")
		}
	}
	return nil
}

func rtreeSnap(t []*node) string {
	s := fmt.Sprint(len(t), ":")
	for i, n := range t {
		if n != nil {
			s += fmt.Sprintf(" %d=%d", i, n.nodeType)
			if n.leafNode != nil {
				s += fmt.Sprintf("L%x", renc(func(w *rw) { w.leafNode(n.leafNode) }))
			}
			if n.parentNode != nil {
				s += fmt.Sprintf("P%x", renc(func(w *rw) { w.parentNode(n.parentNode) }))
			}
		}
	}
	return s
}

// rshape makes a tree of n leaves; the bits of blank mark blank nodes.
func rshape(g *rgen, n int, blank uint64) []*node {
	t := make([]*node, 2*n-1)
	for _, s := range rspansOf(rspan{0, n}) {
		x := s.node()
		if blank>>uint(x)&1 == 1 {
			continue
		}
		if s.leaf() {
			t[x] = rleafN(g, 0)
			continue
		}
		p := g.parentNode()
		p.unmergedLeaves = nil
		t[x] = &node{nodeType: 2, parentNode: &p}
	}
	// unmerged leaves: some of the non-blank leaves below
	for _, s := range rspansOf(rspan{0, n}) {
		if p := t[s.node()]; p != nil && !s.leaf() {
			for l := s.lo; l < s.hi; l++ {
				if t[2*l] != nil && g.Intn(4) == 0 {
					p.parentNode.unmergedLeaves = append(p.parentNode.unmergedLeaves, leafIndex(l))
				}
			}
		}
	}
	return t
}

func rleafN(g *rgen, k int) *node {
	l := leafNode{encryptionKey: g.bytes(), signatureKey: g.bytes(), credential: Credential{credentialType: 1, identity: []byte{byte(k)}}, leafNodeSource: 2, signature: g.bytes()}
	return &node{nodeType: 1, leafNode: &l}
}
