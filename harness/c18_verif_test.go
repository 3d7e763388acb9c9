package mls

import (
	"fmt"
	"testing"
	"time"
)

func TestVerifC18(t *testing.T) {
	h := newVH(t, "C18", "one case per hostile message, welcome or key package that decodes; distinct by kind and content")
	defer h.done()
	g := &rgen{h.rng}
	rplayAll(h, "", false)

	process := func(w *rworld, what string, raw []byte) {
		var m mlsMessage
		if unmarshal(raw, &m) != nil {
			return
		}
		h.run(what, fmt.Sprintf("%s suite %d %s", what, w.cs, hexs(rhash(1, raw))), func() error {
			for _, i := range w.alive() {
				c := rcopyGroup(w.members[i])
				c.UnmarshalAndProcessMessage(raw)
			}
			return nil
		})
	}
	join := func(what string, wel *Welcome, k *KeyPairPackage) {
		h.run(what, fmt.Sprintf("%s suite %d %s", what, wel.cipherSuite, hexs(rhash(1, wel.encryptedGroupInfo))), func() error {
			j, err := GroupFromWelcome(wel, k)
			if err == nil {
				// the group that is joined can be used
				j.CreateApplicationMessage([]byte("x"))
				j.CreateWelcome([]KeyPackage{rkey(wel.cipherSuite, "n").Public})
			}
			return nil
		})
	}

	for _, cs := range rallSuites {
		path := cs <= 3 || cs == 7
		var w *rworld
		if path {
			w = rbattle(cs)
		} else {
			w = rnewWorld(cs, "hostile", 5)
		}
		al := w.alive()
		n := h.scale(60, 800)
		if cs > 2 {
			n /= 4
		}
		for i := 0; i < n; i++ {
			by := w.members[al[g.Intn(len(al))]]
			// content mangled before it is signed or encrypted
			private := g.Intn(2) == 0
			ct := contentType(2 + g.Intn(2))
			f := rcontent(by, ct)
			switch ct {
			case 2:
				p := g.proposal()
				f.proposal = &p
			case 3:
				c := g.commit()
				if g.Intn(2) == 0 {
					c.proposals = rinline(rhostileProposal(g, w, cs))
				}
				f.commit = &c
			}
			o := &rmsgOpts{private: private}
			a := rauth(by, f, o)
			a.auth.confirmationTag = g.bytes()
			if ct != 3 {
				a.auth.confirmationTag = nil
			}
			process(w, "random signed content", rframe(by, a, o))
			if !path {
				// commits without a path
				r := rcommit(by, &rcommitOpts{rmsgOpts: rmsgOpts{private: private}, proposals: rinline(rhostileProposal(g, w, cs)), resolved: func() ([]proposal, []leafIndex, []*node) {
					return nil, nil, rcopyTree(by.tree)
				}})
				process(w, "hostile commit", r.raw)
				continue
			}
			ro := &rcommitOpts{rmsgOpts: rmsgOpts{private: private}, path: g.Intn(3) != 0}
			p := rhostileProposal(g, w, cs)
			ro.proposals = rinline(p)
			if p.proposalType != 1 {
				ro.resolved = func() ([]proposal, []leafIndex, []*node) { return nil, nil, rcopyTree(by.tree) }
			}
			ro.pathNodes = func(u *updatePath) {
				if len(u.nodes) > 0 && g.Intn(3) == 0 {
					u.nodes[g.Intn(len(u.nodes))].encryptionKey = g.bytes()
				}
			}
			ro.pathLeaf = func(l *leafNode) {
				if g.Intn(4) == 0 {
					l.encryptionKey = g.bytes()
				}
			}
			ro.pathSecret = func(i int, s []byte) []byte {
				if g.Intn(4) == 0 {
					return s[:g.Intn(len(s))]
				}
				return s
			}
			ro.pathEnc = func(u *updatePath) {
				if len(u.nodes) == 0 || g.Intn(3) != 0 {
					return
				}
				k := g.Intn(len(u.nodes))
				switch g.Intn(5) {
				case 0:
					u.nodes = u.nodes[:k]
				case 1:
					u.nodes = append(u.nodes, g.updatePathNode())
				case 2:
					u.nodes[k].encryptedPathSecret = nil
				case 3:
					u.nodes[k].encryptedPathSecret = append(u.nodes[k].encryptedPathSecret, g.hpkeCiphertext())
				case 4:
					for j := range u.nodes[k].encryptedPathSecret {
						u.nodes[k].encryptedPathSecret[j] = g.hpkeCiphertext()
					}
				}
			}
			var r *rcommitResult
			if !rsafely(func() { r = rcommit(by, ro) }) {
				continue // the reference code cannot make it
			}
			process(w, "hostile commit", r.raw)
			// bytes mangled inside
			var m mlsMessage
			if unmarshal(r.raw, &m) == nil {
				process(w, "mangled message", rmutate(g, r.raw))
			}
			ro.plaintext = func(b []byte) []byte { return rmutate(g, b) }
			ro.private = true
			if rsafely(func() { r = rcommit(by, ro) }) {
				process(w, "mangled private content", r.raw)
			}
			// accepted messages followed by use of the group
			if i%8 == 0 {
				c := rcopyWorld(w)
				for step := 0; step < 3; step++ {
					by := c.members[al[g.Intn(len(al))]]
					ro := &rcommitOpts{path: true, proposals: rinline(raddProp(&rkey(cs, "x").Public))}
					r := rcommit(by, ro)
					for _, x := range al {
						if c.members[x] != by {
							c.members[x].UnmarshalAndProcessMessage(r.raw)
						}
					}
					radvance(by, r)
				}
			}
		}
		// proposals that are accepted as pending and then committed
		for i := 0; i < h.scale(12, 200); i++ {
			c := rcopyWorld(w)
			x := al[g.Intn(len(al))]
			by := al[g.Intn(len(al))]
			p := rhostileProposal(g, w, cs)
			h.run("pending hostile proposal", fmt.Sprint("suite ", cs, " pending ", i, " type ", p.proposalType), func() error {
				raw, ref := rproposalMsg(c.members[x], &p, &rmsgOpts{})
				for _, y := range al {
					c.members[y].UnmarshalAndProcessMessage(raw)
				}
				r := rcommit(c.members[by], &rcommitOpts{path: path && g.Intn(2) == 0, proposals: []proposalOrRef{{typ: 2, reference: ref}}, resolved: func() ([]proposal, []leafIndex, []*node) {
					return nil, nil, rcopyTree(c.members[by].tree)
				}})
				for _, y := range al {
					c.members[y].UnmarshalAndProcessMessage(r.raw)
				}
				return nil
			})
		}
		// welcomes
		for i := 0; i < h.scale(40, 500)/(1+int(cs)/3); i++ {
			by := w.members[al[g.Intn(len(al))]]
			nk := rkey(cs, "joiner")
			r := rcommit(by, &rcommitOpts{path: path && g.Intn(2) == 0, proposals: rinline(raddProp(&nk.Public))})
			if g.Intn(2) == 0 {
				// a lone joiner with a tree of its own making
				r.tree = []*node{{nodeType: 1, leafNode: &nk.Public.leafNode}}
			}
			kind := g.Intn(12)
			edit := func(i int, gi *groupInfo) {
				if i != 0 {
					return
				}
				tr := rcopyTree(r.tree)
				retree := func() {
					gi.extensions[0].extensionData = renc(func(w *rw) { w.ratchetTree(tr) })
					gi.groupContext.treeHash = rrootHash(cs, tr)
				}
				switch kind {
				case 0:
					gi.signer = leafIndex(g.u32())
				case 1:
					gi.extensions[0].extensionData = nil
				case 2:
					gi.extensions[0].extensionData = g.bytes()
				case 3:
					gi.extensions = nil
				case 4:
					for x := 1; x < len(tr); x += 2 {
						if tr[x] != nil {
							tr[x].parentNode.unmergedLeaves = append(tr[x].parentNode.unmergedLeaves, leafIndex(g.u32()))
						}
					}
					retree()
				case 5:
					x := g.Intn(len(tr))
					if tr[x] != nil && x%2 == 0 {
						tr[x].leafNode.encryptionKey, tr[x].leafNode.signatureKey = g.bytes(), g.bytes()
					} else if tr[x] != nil {
						tr[x].parentNode.encryptionKey = g.bytes()
					}
					retree()
				case 6:
					gi.groupContext.cipherSuite = CipherSuite(g.u16())
				case 7:
					gi.extensions[0].extensionData = rmutate(g, gi.extensions[0].extensionData)
				case 8:
					for x := range tr {
						if g.Intn(3) == 0 && x != len(tr)-1 {
							tr[x] = nil
						}
					}
					retree()
				case 9:
					gi.groupContext = g.groupContext()
					gi.groupContext.cipherSuite = cs
				}
				sch := rfromJoiner(cs, r.sched.joiner, r.psk, &gi.groupContext)
				gi.confirmationTag = rmac(cs, rderive(cs, sch.epoch, "confirm"), gi.groupContext.confirmedTranscriptHash)
			}
			sec := func(i int, s *groupSecrets) {
				switch kind {
				case 10:
					s.pathSecret = g.bytes()
					if g.Intn(2) == 0 {
						s.pathSecret = g.key(rsuites[cs].nh)
					}
				case 11:
					s.joinerSecret = g.bytes()
				}
				if g.Intn(8) == 0 {
					s.psks = []preSharedKeyID{g.pskID()}
				}
			}
			var wel *Welcome
			if !rsafely(func() { wel = rwelcomeWith(by, r, []*KeyPackage{&nk.Public}, nil, edit, sec) }) {
				continue
			}
			join(fmt.Sprint("welcome kind ", kind), wel, nk)
			raw := renc(func(w *rw) { w.u16(1); w.u16(3); w.welcome(wel) })
			if m, err := UnmarshalWelcome(rmutate(g, raw)); err == nil {
				join("mangled welcome", m, nk)
			}
		}
		// key packages
		for i := 0; i < h.scale(40, 500)/(1+int(cs)/3); i++ {
			nk := rkey(cs, "k")
			kp := nk.Public
			switch g.Intn(7) {
			case 0:
				kp = g.keyPackage()
			case 1:
				kp.initKey = g.bytes()
			case 2:
				kp.leafNode.encryptionKey = g.bytes()
			case 3:
				kp.cipherSuite = CipherSuite(g.u16())
			case 4:
				kp.leafNode.signatureKey = g.bytes()
			case 5:
				kp.leafNode.credential = g.credential()
			}
			if g.Intn(3) != 0 {
				if _, ok := rsuites[kp.cipherSuite]; ok && kp.cipherSuite == cs {
					rresign(nk, &kp)
				}
			}
			raw := renc(func(w *rw) { w.u16(1); w.u16(5); w.keyPackage(&kp) })
			if g.Intn(3) == 0 {
				raw = rmutate(g, raw)
			}
			dec, err := UnmarshalKeyPackage(raw)
			if err != nil {
				continue
			}
			by := w.members[al[g.Intn(len(al))]]
			h.run("key package", fmt.Sprintf("suite %d key package %s", cs, hexs(rhash(1, raw))), func() error {
				dec.GenerateRef()
				dec.verify(&by.groupContext)
				by.CreateWelcome([]KeyPackage{*dec})
				by.CreateWelcome([]KeyPackage{rkey(cs, "fine").Public, *dec})
				return nil
			})
		}
	}
	// trees
	for i := h.scale(400, 5000); i > 0; i-- {
		cs := rpathSuites[g.Intn(3)]
		f := newFactory(cs)
		tr := f.tree(g, 1<<uint(g.Intn(5)), true)
		raw := renc(func(w *rw) { w.ratchetTree(tr) })
		if g.Intn(2) == 0 {
			raw = rmutate(g, raw)
		}
		var dec ratchetTree
		if unmarshal(raw, &dec) != nil {
			continue
		}
		h.run("tree", fmt.Sprintf("suite %d tree %s", cs, hexs(rhash(1, raw))), func() error {
			ctx := g.groupContext()
			ctx.cipherSuite, ctx.groupID = cs, f.gid
			th, err := dec.computeRootTreeHash(cs)
			if err == nil && g.Intn(4) != 0 {
				ctx.treeHash = th
			}
			dec.verifyIntegrity(&ctx, func() time.Time { return time.Time{} })
			return nil
		})
	}
}

// rsafely runs reference code that may give up.
func rsafely(f func()) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	f()
	return true
}

// rhostileProposal makes a proposal that decodes but may make no sense.
func rhostileProposal(g *rgen, w *rworld, cs CipherSuite) proposal {
	switch g.Intn(6) {
	case 0:
		return g.proposal()
	case 1:
		far := []uint32{0, 1, 2, 3, 7, 8, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 30, 0x7fffffff}
		return proposal{proposalType: 3, remove: &remove{leafIndex(far[g.Intn(len(far))])}}
	case 2:
		k := rkey(cs, "odd")
		switch g.Intn(4) {
		case 0:
			k.Public.leafNode.encryptionKey = g.bytes()
		case 1:
			k.Public.initKey = g.bytes()
		case 2:
			k.Public.leafNode.capabilities = g.capabilities()
		case 3:
			k.Public.leafNode.signatureKey = g.bytes()
		}
		rresign(k, &k.Public)
		return raddProp(&k.Public)
	case 3:
		l := g.leafNode()
		return proposal{proposalType: 2, update: &update{l}}
	case 4:
		k := rkey(cs, "odd")
		k.Public.cipherSuite = CipherSuite(g.u16())
		return raddProp(&k.Public)
	}
	k := rkey(cs, "fine")
	return raddProp(&k.Public)
}
