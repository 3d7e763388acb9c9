package mls

import (
	"bytes"
	"fmt"
	"math/rand"
)

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

// rstep advances a group by one random epoch.
func rstep(w *rworld, g *rgen) string {
	al := w.alive()
	by := al[g.Intn(len(al))]
	me := w.members[by]
	kind := g.Intn(6)
	if len(al) > 9 {
		kind = 3
	}
	switch kind {
	case 0: // invitation through the API
		var ks []*KeyPairPackage
		for i := 1 + g.Intn(2); i > 0; i-- {
			ks = append(ks, rkey(w.cs, "joiner"))
		}
		w.invite(by, ks)
		return fmt.Sprintf("member %d invites %d", by, len(ks))
	}
	// a commit by the reference code
	o := &rcommitOpts{path: true}
	o.private = g.Intn(2) == 0
	o.generation = uint32(g.Intn(3))
	o.padding = g.Intn(40)
	o.aad = g.bytes()
	var kps []*KeyPairPackage
	gone := map[int]bool{}
	upd := map[int][]byte{}
	desc := fmt.Sprintf("member %d commits", by)
	byRef := func(from int, p proposal) {
		if g.Intn(2) == 0 && p.proposalType != 2 {
			o.proposals = append(o.proposals, rinline(p)...)
			return
		}
		raw, ref := rproposalMsg(w.members[from], &p, &rmsgOpts{private: g.Intn(2) == 0, aad: g.bytes()})
		for _, i := range w.alive() {
			_, err := w.members[i].UnmarshalAndProcessMessage(raw)
			vMust(err)
		}
		o.proposals = append(o.proposals, proposalOrRef{typ: 2, reference: ref})
	}
	if kind >= 2 && len(al) > 1 {
		for _, x := range al {
			if x == by {
				continue
			}
			switch g.Intn(4) {
			case 0:
				if kind == 3 || g.Intn(2) == 0 {
					byRef(al[g.Intn(len(al))], rremoveProp(x))
					gone[x] = true
					desc += fmt.Sprintf(", removes %d", x)
				}
			case 1:
				p, priv := rupdateProp(w.members[x])
				byRef(x, p)
				upd[x] = priv
				desc += fmt.Sprintf(", update of %d", x)
			}
		}
	}
	if kind >= 4 {
		for i := g.Intn(3); i > 0; i-- {
			k := rkey(w.cs, "joiner")
			kps = append(kps, k)
			byRef(al[g.Intn(len(al))], raddProp(&k.Public))
			desc += ", adds one"
		}
	}
	// without anybody left to encrypt to, the path has no nodes
	r := rcommit(me, o)
	for _, x := range al {
		if x == by || gone[x] {
			continue
		}
		m := w.members[x]
		if p := upd[x]; p != nil {
			m.privTree[2*x] = p
		}
		_, err := m.UnmarshalAndProcessMessage(r.raw)
		vCheck(err == nil, "%s: member %d rejects the commit: %v", desc, x, err)
		rexpect(m, r)
	}
	for x := range gone {
		w.members[x] = nil
		w.keys[x] = nil
	}
	radvance(me, r)
	if len(kps) > 0 {
		var pubs []*KeyPackage
		for _, k := range kps {
			pubs = append(pubs, &k.Public)
		}
		wel := rwelcome(me, r, pubs, nil, nil)
		wel, err := UnmarshalWelcome(renc(func(x *rw) { x.u16(1); x.u16(3); x.welcome(wel) }))
		vMust(err)
		for i, k := range kps {
			j, err := GroupFromWelcome(wel, k)
			vCheck(err == nil, "%s: new member %d cannot join: %v", desc, i, err)
			rexpect(j, r)
			vCheck(int(j.myLeafIndex) == r.added[i], "%s: new member joins at %d, want %d", desc, j.myLeafIndex, r.added[i])
			w.set(r.added[i], j, k)
		}
	}
	return desc
}

// ragree checks that all members hold the same epoch.
func ragree(w *rworld) {
	a := w.any()
	for _, i := range w.alive() {
		b := w.members[i]
		vCheck(requal(a.groupContext, b.groupContext), "members %d and %d have different group contexts", a.myLeafIndex, i)
		vCheck(bytes.Equal(renc(func(x *rw) { x.ratchetTree(a.tree) }), renc(func(x *rw) { x.ratchetTree(b.tree) })), "members %d and %d have different trees", a.myLeafIndex, i)
		vCheck(bytes.Equal(a.epochSecret, b.epochSecret), "members %d and %d have different epoch secrets", a.myLeafIndex, i)
		vCheck(bytes.Equal(a.initSecret, b.initSecret), "members %d and %d have different init secrets", a.myLeafIndex, i)
		vCheck(bytes.Equal(a.interimTranscriptHash, b.interimTranscriptHash), "members %d and %d have different interim transcript hashes", a.myLeafIndex, i)
		vCheck(int(b.myLeafIndex) == i && b.tree[2*i] != nil, "member %d believes to be at leaf %d", i, b.myLeafIndex)
		vCheck(len(b.privTree) == len(b.tree), "member %d: private tree has %d nodes for a tree of %d", i, len(b.privTree), len(b.tree))
		rkeysMatch(b)
		vCheck(b.privTree[2*i] != nil, "member %d has no private key for its leaf", i)
	}
	vCheck(bytes.Equal(a.groupContext.treeHash, rrootHash(w.cs, a.tree)), "tree hash in the context is not that of the tree")
}

// rchat sends application data between members.
func rchat(w *rworld, from int) {
	data := []byte(fmt.Sprintf("hello from %d", from))
	msg, err := w.members[from].CreateApplicationMessage(data)
	vMust(err)
	for _, i := range w.alive() {
		got, err := w.members[i].UnmarshalAndProcessMessage(msg)
		vCheck(err == nil && bytes.Equal(got, data), "member %d gets %q from member %d, error %v", i, got, from, err)
	}
}
