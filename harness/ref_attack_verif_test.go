package mls

import (
	"bytes"
	"fmt"
	"sort"

	"golang.org/x/crypto/cryptobyte"
)

// ropenPrivate decrypts a private message with the reference code.
func ropenPrivate(g *Group, raw []byte) (*authenticatedContent, *senderData, error) {
	cs := g.groupContext.cipherSuite
	var msg mlsMessage
	if err := unmarshal(raw, &msg); err != nil {
		return nil, nil, err
	}
	m := msg.privateMessage
	if m == nil {
		return nil, nil, fmt.Errorf("not a private message")
	}
	sample := m.ciphertext
	if len(sample) > rsuites[cs].nh {
		sample = sample[:rsuites[cs].nh]
	}
	sds := rderive(cs, g.epochSecret, "sender data")
	skey := rexpandLabel(cs, sds, "key", sample, rsuites[cs].nk)
	snonce := rexpandLabel(cs, sds, "nonce", sample, rsuites[cs].nn)
	rawSD, err := raead(cs, skey).Open(nil, snonce, m.encryptedSenderData, renc(func(w *rw) {
		w.vec(m.groupID)
		w.u64(m.epoch)
		w.u8(uint8(m.contentType))
	}))
	if err != nil {
		return nil, nil, fmt.Errorf("sender data: %v", err)
	}
	if len(rawSD) != 12 {
		return nil, nil, fmt.Errorf("sender data has %d bytes", len(rawSD))
	}
	var sd senderData
	sd.leafIndex = leafIndex(uint32(rawSD[0])<<24 | uint32(rawSD[1])<<16 | uint32(rawSD[2])<<8 | uint32(rawSD[3]))
	sd.generation = uint32(rawSD[4])<<24 | uint32(rawSD[5])<<16 | uint32(rawSD[6])<<8 | uint32(rawSD[7])
	copy(sd.reuseGuard[:], rawSD[8:])
	key, nonce, _ := rratchet(cs, rleafSecret(cs, rderive(cs, g.epochSecret, "encryption"), rleaves(g.tree), int(sd.leafIndex)), m.contentType == 1, sd.generation)
	for i := range sd.reuseGuard {
		nonce[i] ^= sd.reuseGuard[i]
	}
	pt, err := raead(cs, key).Open(nil, nonce, m.ciphertext, renc(func(w *rw) {
		w.vec(m.groupID)
		w.u64(m.epoch)
		w.u8(uint8(m.contentType))
		w.vec(m.authenticatedData)
	}))
	if err != nil {
		return nil, nil, fmt.Errorf("content: %v", err)
	}
	a := &authenticatedContent{wireFormat: 2, content: framedContent{groupID: m.groupID, epoch: m.epoch,
		sender: sender{senderType: 1, leafIndex: sd.leafIndex}, authenticatedData: m.authenticatedData, contentType: m.contentType}}
	var pc privateMessageContent
	if err := rdecodePrivateContent(&pc, pt, m.contentType); err != nil {
		return nil, nil, err
	}
	a.content.applicationData, a.content.proposal, a.content.commit, a.auth = pc.applicationData, pc.proposal, pc.commit, pc.auth
	return a, &sd, nil
}

// rdecodePrivateContent decodes private content with zero padding: the
// content is the value whose encoding is the plaintext without its padding.
func rdecodePrivateContent(pc *privateMessageContent, pt []byte, ct contentType) error {
	s := cryptobyte.String(pt)
	if err := pc.unmarshal(&s, ct); err != nil {
		return err
	}
	back := renc(func(w *rw) { w.privateMessageContent(pc, ct) })
	if len(back) > len(pt) || !bytes.Equal(back, pt[:len(back)]) {
		return fmt.Errorf("content is not canonical")
	}
	for _, b := range pt[len(back):] {
		if b != 0 {
			return fmt.Errorf("padding")
		}
	}
	return nil
}

// rsigned checks the signature of content in the name of its sender.
func rsigned(g *Group, a *authenticatedContent) bool {
	n := g.tree[2*a.content.sender.leafIndex]
	ctx := g.groupContext
	return rverify(ctx.cipherSuite, n.leafNode.signatureKey, "FramedContentTBS", renc(func(w *rw) { w.framedContentTBS(a.wireFormat, &a.content, &ctx) }), a.auth.signature)
}

// routcome computes the state a commit without a path leads to.
func routcome(g *Group, a *authenticatedContent, psks []preSharedKeyID, values [][]byte) *rcommitResult {
	cs := g.groupContext.cipherSuite
	r := &rcommitResult{auth: a, commit: a.content.commit}
	h := rcopyGroup(g)
	h.myLeafIndex = a.content.sender.leafIndex
	r.props, r.senders = rresolveProps(h, a.content.commit.proposals)
	r.tree, r.added = rapply(g.tree, r.props, r.senders)
	r.ctx = g.groupContext
	r.ctx.epoch++
	r.ctx.treeHash = rrootHash(cs, r.tree)
	r.ctx.confirmedTranscriptHash = rconfirmedHash(cs, g.interimTranscriptHash, a)
	r.psk = rpskSecret(cs, psks, values)
	r.sched = rkeySchedule(cs, g.initSecret, nil, r.psk, &r.ctx)
	r.tag = rmac(cs, rderive(cs, r.sched.epoch, "confirm"), r.ctx.confirmedTranscriptHash)
	r.interim = rinterimHash(cs, r.ctx.confirmedTranscriptHash, r.tag)
	return r
}

// rbattle is a group of six members out of eight leaves, with parent nodes and
// unmerged leaves: leaves 2 and 7 are blank.
func rbattle(cs CipherSuite) *rworld {
	w := rnewWorld(cs, "battle", 5)
	step := func(by int, o *rcommitOpts) {
		r := rcommit(w.members[by], o)
		for _, i := range w.alive() {
			if i == by {
				continue
			}
			_, err := w.members[i].UnmarshalAndProcessMessage(r.raw)
			if len(r.props) == 1 && r.props[0].proposalType == 3 && int(r.props[0].remove.removed) == i {
				continue
			}
			vMust(err)
			rexpect(w.members[i], r)
		}
		radvance(w.members[by], r)
		for _, p := range r.props {
			if p.proposalType == 3 {
				w.members[p.remove.removed] = nil
			}
		}
	}
	step(0, &rcommitOpts{path: true})
	step(3, &rcommitOpts{path: true})
	w.invite(4, []*KeyPairPackage{rkey(cs, "m5")})
	step(4, &rcommitOpts{path: true, proposals: rinline(rremoveProp(2))})
	step(1, &rcommitOpts{path: true})
	w.invite(1, []*KeyPairPackage{rkey(cs, "m2"), rkey(cs, "m6")})
	step(5, &rcommitOpts{path: true, proposals: rinline(rremoveProp(2))})
	return w
}

// rattack is a message that must be rejected. Its maker gets private copies
// of the members and may prepare them.
type rattack struct {
	name  string
	props string // properties it decides
	make  func(c *rscene) []byte
}

// rscene is one attack: members by leaf, the sender, and the generator.
type rscene struct {
	w  *rworld
	g  *Group // the member in whose name it is sent
	by int
	q  *rgen
	cs CipherSuite
}

// send delivers a message to all members but the sender.
func (c *rscene) send(raw []byte) {
	for _, i := range c.w.alive() {
		_, err := c.w.members[i].UnmarshalAndProcessMessage(raw)
		vMust(err)
	}
}

func (c *rscene) other() int {
	for {
		al := c.w.alive()
		if i := al[c.q.Intn(len(al))]; i != c.by {
			return i
		}
	}
}

func rflip(b []byte) []byte {
	o := append([]byte{}, b...)
	o[len(o)-1] ^= 1
	return o
}

// rcopyWorld copies all members.
func rcopyWorld(w *rworld) *rworld {
	n := &rworld{cs: w.cs, keys: append([]*KeyPairPackage(nil), w.keys...)}
	for _, g := range w.members {
		if g == nil {
			n.members = append(n.members, nil)
		} else {
			n.members = append(n.members, rcopyGroup(g))
		}
	}
	return n
}

func rattacks() []rattack {
	var out []rattack
	add := func(props, name string, f func(c *rscene) []byte) {
		out = append(out, rattack{name, props, f})
	}

	// Authentication: each tampering with each kind of message.
	tamper := map[string]func(c *rscene, o *rmsgOpts){
		"other group": func(c *rscene, o *rmsgOpts) {
			o.content = func(f *framedContent) { f.groupID = append(append(GroupID{}, f.groupID...), 'x') }
		},
		"empty group":    func(c *rscene, o *rmsgOpts) { o.content = func(f *framedContent) { f.groupID = nil } },
		"group prefix":   func(c *rscene, o *rmsgOpts) { o.content = func(f *framedContent) { f.groupID = f.groupID[:3] } },
		"group flipped":  func(c *rscene, o *rmsgOpts) { o.content = func(f *framedContent) { f.groupID = rflip(f.groupID) } },
		"next epoch":     func(c *rscene, o *rmsgOpts) { o.content = func(f *framedContent) { f.epoch++ } },
		"previous epoch": func(c *rscene, o *rmsgOpts) { o.content = func(f *framedContent) { f.epoch-- } },
		"epoch 0":        func(c *rscene, o *rmsgOpts) { o.content = func(f *framedContent) { f.epoch = 0 } },
		"far epoch":      func(c *rscene, o *rmsgOpts) { o.content = func(f *framedContent) { f.epoch += 1 << 32 } },
		"blank sender":   func(c *rscene, o *rmsgOpts) { o.content = func(f *framedContent) { f.sender.leafIndex = 2 } },
		"sender beyond the tree": func(c *rscene, o *rmsgOpts) {
			o.content = func(f *framedContent) { f.sender.leafIndex = leafIndex(rleaves(c.g.tree)) }
		},
		"sender 2^31+": func(c *rscene, o *rmsgOpts) {
			o.content = func(f *framedContent) { f.sender.leafIndex = 1<<31 + f.sender.leafIndex }
		},
		"other sender": func(c *rscene, o *rmsgOpts) {
			o.content = func(f *framedContent) { f.sender.leafIndex = leafIndex(c.other()) }
		},
		"key of another member": func(c *rscene, o *rmsgOpts) { o.signKey = c.w.members[c.other()].signaturePriv },
		"fresh key":             func(c *rscene, o *rmsgOpts) { o.signKey = rkey(c.cs, "x").Private.SignatureKey },
		"signed context epoch":  func(c *rscene, o *rmsgOpts) { o.ctx = func(x *groupContext) { x.epoch++ } },
		"signed context tree": func(c *rscene, o *rmsgOpts) {
			o.ctx = func(x *groupContext) { x.treeHash = rflip(x.treeHash) }
		},
		"signed context transcript": func(c *rscene, o *rmsgOpts) {
			o.ctx = func(x *groupContext) { x.confirmedTranscriptHash = rflip(x.confirmedTranscriptHash) }
		},
		"signed context extensions": func(c *rscene, o *rmsgOpts) {
			o.ctx = func(x *groupContext) { x.extensions = []extension{{7, []byte("x")}} }
		},
		"signed other wire format": func(c *rscene, o *rmsgOpts) {
			o.wf = 2
			if o.private {
				o.wf = 1
			}
		},
		"signature label": func(c *rscene, o *rmsgOpts) { o.label = "FramedContentTBM" },
		"signature flipped": func(c *rscene, o *rmsgOpts) {
			o.after = func(a *authenticatedContent) { a.auth.signature = rflip(a.auth.signature) }
		},
		"signature empty": func(c *rscene, o *rmsgOpts) {
			o.after = func(a *authenticatedContent) { a.auth.signature = nil }
		},
		"data changed after signing": func(c *rscene, o *rmsgOpts) {
			o.after = func(a *authenticatedContent) { a.content.authenticatedData = []byte("changed") }
		},
		"other signed content": func(c *rscene, o *rmsgOpts) {
			o.after = func(a *authenticatedContent) {
				switch a.content.contentType {
				case 2:
					p := rremoveProp(c.other())
					if a.content.proposal.proposalType == 3 {
						p, _ = rupdateProp(c.g)
					}
					a.content.proposal = &p
				case 3:
					x := *a.content.commit
					x.proposals = append([]proposalOrRef(nil), x.proposals...)
					x.proposals[0] = proposalOrRef{typ: 1, proposal: &proposal{proposalType: 4, preSharedKey: &preSharedKey{psk: preSharedKeyID{pskType: 1, pskID: []byte("x"), pskNonce: make([]byte, 32)}}}}
					a.content.commit = &x
				case 1:
					a.content.applicationData = []byte("forged")
				}
			}
		},
	}
	pubOnly := map[string]func(c *rscene, o *rmsgOpts){
		"membership key": func(c *rscene, o *rmsgOpts) { o.memKey = make([]byte, rsuites[c.cs].nh) },
		"membership key of another label": func(c *rscene, o *rmsgOpts) {
			o.memKey = rderive(c.cs, c.g.epochSecret, "confirm")
		},
		"membership context": func(c *rscene, o *rmsgOpts) { o.memCtx = func(x *groupContext) { x.epoch++ } },
		"membership tag flipped": func(c *rscene, o *rmsgOpts) {
			o.pub = func(m *publicMessage) { m.membershipTag = rflip(m.membershipTag) }
		},
		"membership tag empty": func(c *rscene, o *rmsgOpts) { o.pub = func(m *publicMessage) { m.membershipTag = nil } },
		"membership tag cut": func(c *rscene, o *rmsgOpts) {
			o.pub = func(m *publicMessage) { m.membershipTag = m.membershipTag[:len(m.membershipTag)-1] }
		},
		"membership tag longer": func(c *rscene, o *rmsgOpts) {
			o.pub = func(m *publicMessage) { m.membershipTag = append(m.membershipTag, 0) }
		},
		"external sender": func(c *rscene, o *rmsgOpts) {
			o.content = func(f *framedContent) { f.sender = sender{senderType: 2, senderIndex: 0} }
		},
		"new member proposal": func(c *rscene, o *rmsgOpts) {
			o.content = func(f *framedContent) { f.sender = sender{senderType: 3} }
		},
		"new member commit": func(c *rscene, o *rmsgOpts) {
			o.content = func(f *framedContent) { f.sender = sender{senderType: 4} }
		},
	}
	privOnly := map[string]func(c *rscene, o *rmsgOpts){
		"header group": func(c *rscene, o *rmsgOpts) { o.pm = func(m *privateMessage) { m.groupID = rflip(m.groupID) } },
		"header epoch": func(c *rscene, o *rmsgOpts) { o.pm = func(m *privateMessage) { m.epoch++ } },
		"header type":  func(c *rscene, o *rmsgOpts) { o.pm = func(m *privateMessage) { m.contentType = m.contentType%3 + 1 } },
		"header data":  func(c *rscene, o *rmsgOpts) { o.pm = func(m *privateMessage) { m.authenticatedData = []byte("z") } },
		"sealed group": func(c *rscene, o *rmsgOpts) { o.header = func(m *privateMessage) { m.groupID = rflip(m.groupID) } },
		"sealed type": func(c *rscene, o *rmsgOpts) {
			o.header = func(m *privateMessage) { m.contentType = m.contentType%3 + 1 }
		},
		"sealed data":        func(c *rscene, o *rmsgOpts) { o.header = func(m *privateMessage) { m.authenticatedData = []byte("z") } },
		"ciphertext flipped": func(c *rscene, o *rmsgOpts) { o.pm = func(m *privateMessage) { m.ciphertext = rflip(m.ciphertext) } },
		"ciphertext empty":   func(c *rscene, o *rmsgOpts) { o.pm = func(m *privateMessage) { m.ciphertext = nil } },
		"ciphertext short":   func(c *rscene, o *rmsgOpts) { o.pm = func(m *privateMessage) { m.ciphertext = m.ciphertext[:7] } },
		"sender data flipped": func(c *rscene, o *rmsgOpts) {
			o.pm = func(m *privateMessage) { m.encryptedSenderData = rflip(m.encryptedSenderData) }
		},
		"sender data empty": func(c *rscene, o *rmsgOpts) { o.pm = func(m *privateMessage) { m.encryptedSenderData = nil } },
		"sender data short": func(c *rscene, o *rmsgOpts) {
			o.pm = func(m *privateMessage) { m.encryptedSenderData = m.encryptedSenderData[:5] }
		},
		"sender data leaf":       func(c *rscene, o *rmsgOpts) { o.sd = func(s *senderData) { s.leafIndex = leafIndex(c.other()) } },
		"sender data generation": func(c *rscene, o *rmsgOpts) { o.sd = func(s *senderData) { s.generation++ } },
		"sender data guard":      func(c *rscene, o *rmsgOpts) { o.sd = func(s *senderData) { s.reuseGuard[3]++ } },
		"sender data far leaf":   func(c *rscene, o *rmsgOpts) { o.sd = func(s *senderData) { s.leafIndex = 1<<31 + 1 } },
		"non-zero padding":       func(c *rscene, o *rmsgOpts) { o.padding = 1 + c.q.Intn(20); o.padByte = byte(1 + c.q.Intn(255)) },
		"non-zero last padding": func(c *rscene, o *rmsgOpts) {
			o.padding = 9
			o.plaintext = func(b []byte) []byte { b[len(b)-1] = 1; return b }
		},
		"non-zero first padding": func(c *rscene, o *rmsgOpts) {
			o.padding = 9
			o.plaintext = func(b []byte) []byte { b[len(b)-9] = 0x80; return b }
		},
		"cut content":   func(c *rscene, o *rmsgOpts) { o.plaintext = func(b []byte) []byte { return b[:len(b)-1] } },
		"empty content": func(c *rscene, o *rmsgOpts) { o.plaintext = func(b []byte) []byte { return nil } },
	}
	kinds := []string{"proposal", "commit", "path commit", "application"}
	mk := func(kind string, c *rscene, o *rmsgOpts) []byte {
		o.aad = c.q.key(c.q.Intn(5))
		switch kind {
		case "proposal":
			p := rremoveProp(c.other())
			if c.q.Intn(2) == 0 {
				p, _ = rupdateProp(c.g)
			}
			raw, _ := rproposalMsg(c.g, &p, o)
			return raw
		case "commit":
			return rcommit(c.g, &rcommitOpts{rmsgOpts: *o, proposals: rinline(raddProp(&rkey(c.cs, "new").Public))}).raw
		case "path commit":
			return rcommit(c.g, &rcommitOpts{rmsgOpts: *o, path: true, proposals: rinline(raddProp(&rkey(c.cs, "new").Public))}).raw
		}
		f := rcontent(c.g, 1)
		f.applicationData = []byte("hello")
		f.authenticatedData = o.aad
		return rframe(c.g, rauth(c.g, f, o), o)
	}
	each := func(private bool, table map[string]func(c *rscene, o *rmsgOpts)) {
		var names []string
		for n := range table {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			for _, kind := range kinds {
				f, kind := table[n], kind
				if !private && kind == "application" {
					continue
				}
				wf := "public "
				if private {
					wf = "private "
				}
				props := "C11"
				if private {
					props = "C10 C11"
				}
				add(props, wf+kind+": "+n, func(c *rscene) []byte {
					o := &rmsgOpts{private: private}
					f(c, o)
					return mk(kind, c, o)
				})
			}
		}
	}
	each(false, tamper)
	each(true, tamper)
	each(false, pubOnly)
	each(true, privOnly)
	add("C11", "public application data", func(c *rscene) []byte { return mk("application", c, &rmsgOpts{}) })
	tags := map[string]func(t []byte) []byte{
		"flipped": rflip, "empty": func(t []byte) []byte { return nil }, "cut": func(t []byte) []byte { return t[:len(t)-1] },
		"longer": func(t []byte) []byte { return append(t, 0) }, "zero": func(t []byte) []byte { return make([]byte, len(t)) },
	}
	for _, n := range []string{"flipped", "empty", "cut", "longer", "zero"} {
		for _, private := range []bool{false, true} {
			for _, path := range []bool{false, true} {
				n, private, path := n, private, path
				add("C11 C08", fmt.Sprintf("commit (private %v, path %v): confirmation tag %s", private, path, n), func(c *rscene) []byte {
					return rcommit(c.g, &rcommitOpts{rmsgOpts: rmsgOpts{private: private, confirm: tags[n]}, path: path,
						proposals: rinline(raddProp(&rkey(c.cs, "new").Public))}).raw
				})
			}
		}
	}
	add("C11 C08", "commit: confirmation tag of the current epoch", func(c *rscene) []byte {
		return rcommit(c.g, &rcommitOpts{rmsgOpts: rmsgOpts{confirm: func([]byte) []byte {
			return rmac(c.cs, rderive(c.cs, c.g.epochSecret, "confirm"), c.g.groupContext.confirmedTranscriptHash)
		}}, proposals: rinline(raddProp(&rkey(c.cs, "new").Public))}).raw
	})
	for n, f := range map[string]func(x *groupContext){
		"old epoch":      func(x *groupContext) { x.epoch-- },
		"old tree hash":  func(x *groupContext) { x.treeHash = nil },
		"old transcript": func(x *groupContext) { x.confirmedTranscriptHash = rflip(x.confirmedTranscriptHash) },
		"other group":    func(x *groupContext) { x.groupID = []byte("z") },
	} {
		f := f
		add("C11 C08", "commit: secrets from a context with "+n, func(c *rscene) []byte {
			return rcommit(c.g, &rcommitOpts{epochCtx: f, path: c.q.Intn(2) == 0, proposals: rinline(raddProp(&rkey(c.cs, "new").Public))}).raw
		})
	}

	// Proposal lists.
	ref := func(c *rscene, from int, p proposal) proposalOrRef {
		raw, r := rproposalMsg(c.w.members[from], &p, &rmsgOpts{private: c.q.Intn(2) == 0})
		c.send(raw)
		return proposalOrRef{typ: 2, reference: r}
	}
	list := func(name string, path bool, f func(c *rscene) []proposalOrRef) {
		add("C14", name, func(c *rscene) []byte {
			ps := f(c)
			return rcommit(c.g, &rcommitOpts{rmsgOpts: rmsgOpts{private: c.q.Intn(2) == 0}, path: path, proposals: ps}).raw
		})
	}
	psk := proposal{proposalType: 4, preSharedKey: &preSharedKey{psk: preSharedKeyID{pskType: 1, pskID: []byte("k"), pskNonce: make([]byte, 32)}}}
	gce := proposal{proposalType: 7, groupContextExtensions: &groupContextExtensions{}}
	reinit := func(c *rscene) proposal {
		return proposal{proposalType: 5, reInit: &reInit{groupID: []byte("n"), version: 1, cipherSuite: c.cs}}
	}
	ext := proposal{proposalType: 6, externalInit: &externalInit{kemOutput: []byte("k")}}
	list("two additions with one signature key", false, func(c *rscene) []proposalOrRef {
		k := rkey(c.cs, "a")
		k2 := rkey(c.cs, "b")
		k2.Public.leafNode.signatureKey = k.Public.leafNode.signatureKey
		rresign(k, &k2.Public)
		return rinline(raddProp(&k.Public), raddProp(&k2.Public))
	})
	list("the same addition twice", true, func(c *rscene) []proposalOrRef {
		k := rkey(c.cs, "a")
		return rinline(raddProp(&k.Public), psk, raddProp(&k.Public))
	})
	list("update by the committer", true, func(c *rscene) []proposalOrRef {
		p, _ := rupdateProp(c.g)
		return rinline(p)
	})
	list("update by the committer by reference", true, func(c *rscene) []proposalOrRef {
		p, _ := rupdateProp(c.g)
		return []proposalOrRef{ref(c, c.by, p)}
	})
	list("update by the committer after an addition", true, func(c *rscene) []proposalOrRef {
		p, _ := rupdateProp(c.g)
		return rinline(raddProp(&rkey(c.cs, "a").Public), p)
	})
	list("removal of the committer", true, func(c *rscene) []proposalOrRef { return rinline(rremoveProp(c.by)) })
	list("removal of the committer by reference", true, func(c *rscene) []proposalOrRef {
		return []proposalOrRef{ref(c, c.other(), rremoveProp(c.by))}
	})
	list("removal of one leaf twice", true, func(c *rscene) []proposalOrRef {
		x := c.other()
		return rinline(rremoveProp(x), rremoveProp(x))
	})
	list("removal and update of one leaf", true, func(c *rscene) []proposalOrRef {
		x := c.other()
		p, _ := rupdateProp(c.w.members[x])
		r := ref(c, x, p)
		return append(rinline(rremoveProp(x)), r)
	})
	list("update and removal of one leaf", true, func(c *rscene) []proposalOrRef {
		x := c.other()
		p, _ := rupdateProp(c.w.members[x])
		r := ref(c, x, p)
		return append([]proposalOrRef{r}, rinline(rremoveProp(x))...)
	})
	list("two updates of one leaf", true, func(c *rscene) []proposalOrRef {
		x := c.other()
		p, _ := rupdateProp(c.w.members[x])
		q, _ := rupdateProp(c.w.members[x])
		return []proposalOrRef{ref(c, x, p), ref(c, x, q)}
	})
	list("one reference twice", true, func(c *rscene) []proposalOrRef {
		x := c.other()
		p, _ := rupdateProp(c.w.members[x])
		r := ref(c, x, p)
		return []proposalOrRef{r, r}
	})
	list("one PSK twice", false, func(c *rscene) []proposalOrRef { return rinline(psk, psk) })
	list("one PSK twice apart", true, func(c *rscene) []proposalOrRef {
		return rinline(psk, raddProp(&rkey(c.cs, "a").Public), psk)
	})
	list("two group context extensions", true, func(c *rscene) []proposalOrRef { return rinline(gce, gce) })
	list("two group context extensions apart", true, func(c *rscene) []proposalOrRef {
		return rinline(gce, raddProp(&rkey(c.cs, "a").Public), gce)
	})
	list("reinit with an addition", false, func(c *rscene) []proposalOrRef {
		return rinline(reinit(c), raddProp(&rkey(c.cs, "a").Public))
	})
	list("addition with a reinit", false, func(c *rscene) []proposalOrRef {
		return rinline(raddProp(&rkey(c.cs, "a").Public), reinit(c))
	})
	list("two reinits", false, func(c *rscene) []proposalOrRef { return rinline(reinit(c), reinit(c)) })
	list("external init", true, func(c *rscene) []proposalOrRef { return rinline(ext) })
	list("external init with an addition", true, func(c *rscene) []proposalOrRef {
		return rinline(raddProp(&rkey(c.cs, "a").Public), ext)
	})
	list("removal of a blank leaf", true, func(c *rscene) []proposalOrRef { return rinline(rremoveProp(2)) })
	list("removal of the last blank leaf", true, func(c *rscene) []proposalOrRef { return rinline(rremoveProp(7)) })
	for _, far := range []uint32{8, 9, 16, 1 << 31, 1<<31 + 1, 1<<32 - 1} {
		far := far
		add("C14", fmt.Sprint("removal of leaf ", far), func(c *rscene) []byte {
			ps := rinline(rremoveProp(int(far)))
			return rcommit(c.g, &rcommitOpts{path: true, proposals: ps, resolved: func() ([]proposal, []leafIndex, []*node) {
				return nil, nil, rcopyTree(c.g.tree)
			}}).raw
		})
	}
	// valid but without the path they need
	list("empty list without a path", false, func(c *rscene) []proposalOrRef { return nil })
	list("removal without a path", false, func(c *rscene) []proposalOrRef { return rinline(rremoveProp(c.other())) })
	list("removal after an addition without a path", false, func(c *rscene) []proposalOrRef {
		return rinline(raddProp(&rkey(c.cs, "a").Public), rremoveProp(c.other()))
	})
	list("update without a path", false, func(c *rscene) []proposalOrRef {
		x := c.other()
		p, _ := rupdateProp(c.w.members[x])
		return []proposalOrRef{ref(c, x, p)}
	})
	list("group context extensions without a path", false, func(c *rscene) []proposalOrRef { return rinline(gce) })
	// references
	list2 := func(name string, f func(c *rscene, r []byte) []byte) {
		add("C14", name, func(c *rscene) []byte {
			x := c.other()
			p, _ := rupdateProp(c.w.members[x])
			r := ref(c, x, p)
			good := []proposalOrRef{r}
			bad := []proposalOrRef{{typ: 2, reference: f(c, r.reference)}}
			return rcommit(c.g, &rcommitOpts{path: true, proposals: good, props: func(cm *commit) { cm.proposals = bad }}).raw
		})
	}
	list2("reference with a changed byte", func(c *rscene, r []byte) []byte { return rflip(r) })
	list2("reference cut", func(c *rscene, r []byte) []byte { return r[:len(r)-1] })
	list2("reference longer", func(c *rscene, r []byte) []byte { return append(append([]byte{}, r...), 0) })
	list2("reference empty", func(c *rscene, r []byte) []byte { return nil })
	list2("reference first byte changed", func(c *rscene, r []byte) []byte {
		o := append([]byte{}, r...)
		o[0] ^= 0x80
		return o
	})
	// invalid key packages
	badKP := map[string]func(c *rscene, k *KeyPairPackage){
		"leaf source update": func(c *rscene, k *KeyPairPackage) {
			k.Public.leafNode.leafNodeSource = 2
			k.Public.leafNode.lifetime = nil
			rresign(k, &k.Public)
		},
		"signature": func(c *rscene, k *KeyPairPackage) { k.Public.signature = rflip(k.Public.signature) },
		"extensions not signed": func(c *rscene, k *KeyPairPackage) {
			k.Public.extensions = append(k.Public.extensions, extension{9, nil})
		},
		"init key not signed": func(c *rscene, k *KeyPairPackage) { k.Public.initKey = rflip(k.Public.initKey) },
		"init key is the encryption key": func(c *rscene, k *KeyPairPackage) {
			k.Public.initKey = k.Public.leafNode.encryptionKey
			rresign(k, &k.Public)
		},
		"leaf not signed": func(c *rscene, k *KeyPairPackage) {
			k.Public.leafNode.credential = *NewBasicCredential([]byte("mallory"))
		},
		"cipher suite": func(c *rscene, k *KeyPairPackage) {
			other := CipherSuite(1)
			if c.cs == 1 {
				other = 3
			}
			*k = *rkey(other, "other suite")
		},
		"unknown cipher suite": func(c *rscene, k *KeyPairPackage) { k.Public.cipherSuite = 0x7777 },
	}
	var kps []string
	for n := range badKP {
		kps = append(kps, n)
	}
	sort.Strings(kps)
	for _, n := range kps {
		f := badKP[n]
		for _, how := range []string{"inline", "reference", "second"} {
			how := how
			add("C14 C16", "addition of a bad key package ("+how+"): "+n, func(c *rscene) []byte {
				k := rkey(c.cs, "bad")
				f(c, k)
				var ps []proposalOrRef
				switch how {
				case "inline":
					ps = rinline(raddProp(&k.Public))
				case "second":
					ps = rinline(raddProp(&rkey(c.cs, "ok").Public), raddProp(&k.Public))
				default:
					ps = []proposalOrRef{ref(c, c.other(), raddProp(&k.Public))}
				}
				return rcommit(c.g, &rcommitOpts{path: c.q.Intn(2) == 0, proposals: ps}).raw
			})
		}
	}

	// Update paths.
	path := func(props, name string, f func(c *rscene, o *rcommitOpts)) {
		for _, with := range []bool{false, true} {
			with := with
			add(props, fmt.Sprintf("path (with addition %v): %s", with, name), func(c *rscene) []byte {
				o := &rcommitOpts{rmsgOpts: rmsgOpts{private: c.q.Intn(2) == 0}, path: true}
				if with {
					o.proposals = rinline(raddProp(&rkey(c.cs, "new").Public))
				}
				f(c, o)
				return rcommit(c.g, o).raw
			})
		}
	}
	path("C15 C16", "leaf source update", func(c *rscene, o *rcommitOpts) {
		o.pathLeaf = func(l *leafNode) { l.leafNodeSource, l.parentHash = 2, nil }
	})
	path("C15 C16", "leaf source key package", func(c *rscene, o *rcommitOpts) {
		o.pathLeaf = func(l *leafNode) { l.leafNodeSource, l.parentHash, l.lifetime = 1, nil, &lifetime{1, 1 << 40} }
	})
	path("C15", "leaf parent hash flipped", func(c *rscene, o *rcommitOpts) {
		o.pathLeaf = func(l *leafNode) { l.parentHash = rflip(l.parentHash) }
	})
	path("C15", "leaf parent hash empty", func(c *rscene, o *rcommitOpts) { o.pathLeaf = func(l *leafNode) { l.parentHash = nil } })
	path("C15", "leaf parent hash cut", func(c *rscene, o *rcommitOpts) {
		o.pathLeaf = func(l *leafNode) { l.parentHash = l.parentHash[:len(l.parentHash)-1] }
	})
	path("C15", "a node missing at the end", func(c *rscene, o *rcommitOpts) {
		o.pathEnc = func(p *updatePath) { p.nodes = p.nodes[:len(p.nodes)-1] }
	})
	path("C15", "a node missing at the start", func(c *rscene, o *rcommitOpts) {
		o.pathEnc = func(p *updatePath) { p.nodes = p.nodes[1:] }
	})
	path("C15", "no node", func(c *rscene, o *rcommitOpts) { o.pathEnc = func(p *updatePath) { p.nodes = nil } })
	path("C15", "a node too many", func(c *rscene, o *rcommitOpts) {
		o.pathEnc = func(p *updatePath) { p.nodes = append(p.nodes, p.nodes[len(p.nodes)-1]) }
	})
	path("C15", "a key that does not belong to the path secret", func(c *rscene, o *rcommitOpts) {
		o.pathNodes = func(p *updatePath) {
			p.nodes[len(p.nodes)-1].encryptionKey = rkey(c.cs, "x").Public.initKey
		}
	})
	path("C15", "keys changed after the parent hash", func(c *rscene, o *rcommitOpts) {
		o.pathEnc = func(p *updatePath) { p.nodes[c.q.Intn(len(p.nodes))].encryptionKey = rkey(c.cs, "x").Public.initKey }
	})
	path("C15", "the encrypted path secret is another one", func(c *rscene, o *rcommitOpts) {
		o.pathSecret = func(i int, s []byte) []byte { return rflip(s) }
	})
	path("C15", "the encrypted path secret is empty", func(c *rscene, o *rcommitOpts) {
		o.pathSecret = func(i int, s []byte) []byte { return nil }
	})
	path("C15", "the encrypted path secret is short", func(c *rscene, o *rcommitOpts) {
		o.pathSecret = func(i int, s []byte) []byte { return s[:len(s)-1] }
	})
	path("C15", "ciphertext missing", func(c *rscene, o *rcommitOpts) {
		o.pathEnc = func(p *updatePath) {
			for i := range p.nodes {
				p.nodes[i].encryptedPathSecret = nil
			}
		}
	})
	path("C15", "ciphertext too many", func(c *rscene, o *rcommitOpts) {
		o.pathEnc = func(p *updatePath) {
			for i := range p.nodes {
				if e := p.nodes[i].encryptedPathSecret; len(e) > 0 {
					p.nodes[i].encryptedPathSecret = append(append([]hpkeCiphertext{}, e...), e[0])
				}
			}
		}
	})
	path("C15 C17", "ciphertext flipped", func(c *rscene, o *rcommitOpts) {
		o.pathEnc = func(p *updatePath) {
			for i := range p.nodes {
				for j := range p.nodes[i].encryptedPathSecret {
					e := &p.nodes[i].encryptedPathSecret[j]
					e.ciphertext = rflip(e.ciphertext)
				}
			}
		}
	})
	path("C15", "kem output malformed", func(c *rscene, o *rcommitOpts) {
		n := c.q.Intn(200)
		o.pathEnc = func(p *updatePath) {
			for i := range p.nodes {
				for j := range p.nodes[i].encryptedPathSecret {
					p.nodes[i].encryptedPathSecret[j].kemOutput = make([]byte, n)
				}
			}
		}
	})
	path("C15", "a malformed public key", func(c *rscene, o *rcommitOpts) {
		o.pathNodes = func(p *updatePath) { p.nodes[len(p.nodes)-1].encryptionKey = c.q.key(c.q.Intn(70)) }
	})
	path("C15", "a truncated public key", func(c *rscene, o *rcommitOpts) {
		o.pathNodes = func(p *updatePath) {
			k := p.nodes[len(p.nodes)-1].encryptionKey
			p.nodes[len(p.nodes)-1].encryptionKey = k[:c.q.Intn(len(k))]
		}
	})
	path("C15", "an extended public key", func(c *rscene, o *rcommitOpts) {
		o.pathNodes = func(p *updatePath) {
			n := &p.nodes[len(p.nodes)-1]
			n.encryptionKey = append(append(hpkePublicKey{}, n.encryptionKey...), c.q.key(1+c.q.Intn(3))...)
		}
	})
	path("C15 C16", "the old encryption key", func(c *rscene, o *rcommitOpts) {
		old := c.g.tree[2*c.by].leafNode.encryptionKey
		o.pathLeaf = func(l *leafNode) { l.encryptionKey = old }
	})
	path("C15 C16", "an encryption key of another leaf", func(c *rscene, o *rcommitOpts) {
		k := c.g.tree[2*c.other()].leafNode.encryptionKey
		o.pathLeaf = func(l *leafNode) { l.encryptionKey = k }
	})
	path("C16", "a signature key of another leaf", func(c *rscene, o *rcommitOpts) {
		x := c.other()
		k := c.g.tree[2*x].leafNode.signatureKey
		o.pathLeaf = func(l *leafNode) { l.signatureKey = k }
		o.pathLeaf2 = func(l *leafNode) {
			l.signature = rsign(c.cs, c.w.members[x].signaturePriv, "LeafNodeTBS", renc(func(w *rw) { w.leafNodeTBS(l, c.g.groupContext.groupID, c.g.myLeafIndex) }))
		}
	})
	path("C16 C17", "leaf signed for another position", func(c *rscene, o *rcommitOpts) {
		li := leafIndex(c.other())
		o.leafIndex = &li
	})
	path("C16 C17", "leaf signed for another group", func(c *rscene, o *rcommitOpts) { o.groupID = []byte("other") })
	path("C16", "leaf changed after its signature", func(c *rscene, o *rcommitOpts) {
		o.pathLeaf2 = func(l *leafNode) { l.credential = *NewBasicCredential([]byte("mallory")) }
	})
	path("C16", "leaf with an undeclared extension", func(c *rscene, o *rcommitOpts) {
		o.pathLeaf = func(l *leafNode) { l.extensions = []extension{{0x99, nil}} }
	})
	path("C16", "leaf with an unsupported credential type", func(c *rscene, o *rcommitOpts) {
		o.pathLeaf = func(l *leafNode) { l.credential = Credential{credentialType: 2, certificates: [][]byte{[]byte("c")}} }
	})
	return out
}

// rplay runs one attack: every receiver must reject the message and keep its
// state.
func rplay(base *rworld, a rattack, by int, q *rgen, reject bool) {
	w := rcopyWorld(base)
	c := &rscene{w: w, g: w.members[by], by: by, q: q, cs: w.cs}
	raw := a.make(c)
	if raw == nil {
		return
	}
	for _, i := range w.alive() {
		if i == by {
			continue
		}
		snap := rsnap(w.members[i])
		data, err := w.members[i].UnmarshalAndProcessMessage(raw)
		if reject {
			vCheck(err != nil, "%s: sent by leaf %d, accepted by leaf %d (data %q)", a.name, by, i, data)
		}
		if err != nil {
			vCheck(data == nil, "%s: data %q with error %v", a.name, data, err)
			got := rsnap(w.members[i])
			vCheck(got == snap, "%s: leaf %d rejects it (%v) but its state changes:\n%s", a.name, i, err, rdiff(snap, got))
		}
	}
}

// rplayAll runs the attacks that decide a property.
func rplayAll(h *vh, prop string, reject bool) {
	q := &rgen{h.rng}
	suites := []CipherSuite{1, 2}
	if h.tier != "quick" || h.hunt {
		suites = rpathSuites
	}
	for _, cs := range suites {
		base := rbattle(cs)
		for _, a := range rattacks() {
			if prop != "" && !bytes.Contains([]byte(a.props), []byte(prop)) {
				continue
			}
			al := base.alive()
			senders := []int{al[q.Intn(len(al))]}
			if h.tier != "quick" || h.hunt {
				senders = al
			}
			for _, by := range senders {
				a, by := a, by
				h.run(a.name, fmt.Sprintf("suite %d leaf %d: %s", cs, by, a.name), func() error {
					rplay(base, a, by, q, reject)
					return nil
				})
			}
		}
	}
}
