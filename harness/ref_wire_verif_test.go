package mls

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"

	"golang.org/x/crypto/cryptobyte"
)

// This file holds an encoder for the RFC 9420 structures written from the
// RFC text alone, and generators of random well-formed values. It is the
// oracle of the codec checks and the base of the other reference code.

type rw struct{ b []byte }

func (w *rw) u8(v uint8)   { w.b = append(w.b, v) }
func (w *rw) u16(v uint16) { w.b = append(w.b, byte(v>>8), byte(v)) }
func (w *rw) u32(v uint32) { w.u16(uint16(v >> 16)); w.u16(uint16(v)) }
func (w *rw) u64(v uint64) { w.u32(uint32(v >> 32)); w.u32(uint32(v)) }
func (w *rw) raw(v []byte) { w.b = append(w.b, v...) }

// vec writes opaque<V> (section 2.1.2).
func (w *rw) vec(v []byte) {
	n := len(v)
	switch {
	case n <= 63:
		w.u8(uint8(n))
	case n <= 16383:
		w.u8(0x40 | uint8(n>>8))
		w.u8(uint8(n))
	case n <= 1073741823:
		w.u8(0x80 | uint8(n>>24))
		w.u8(uint8(n >> 16))
		w.u8(uint8(n >> 8))
		w.u8(uint8(n))
	default:
		panic(vFail{fmt.Errorf("vector of %d bytes cannot be encoded", n)})
	}
	w.raw(v)
}

func (w *rw) list(n int, f func(w *rw, i int)) {
	var c rw
	for i := 0; i < n; i++ {
		f(&c, i)
	}
	w.vec(c.b)
}

// bad reports a value that no conforming structure has.
func bad(f string, a ...interface{}) {
	panic(vFail{fmt.Errorf("not a well-formed structure: "+f, a...)})
}

func (w *rw) credential(c *Credential) {
	w.u16(uint16(c.credentialType))
	switch c.credentialType {
	case 1:
		w.vec(c.identity)
	case 2:
		w.list(len(c.certificates), func(w *rw, i int) { w.vec(c.certificates[i]) })
	default:
		bad("credential type %d", c.credentialType)
	}
}

func (w *rw) hpkeCiphertext(c *hpkeCiphertext) { w.vec(c.kemOutput); w.vec(c.ciphertext) }

func (w *rw) extensions(x []extension) {
	w.list(len(x), func(w *rw, i int) {
		w.u16(uint16(x[i].extensionType))
		w.vec(x[i].extensionData)
	})
}

func (w *rw) groupContext(c *groupContext) {
	if c.version != 1 {
		bad("version %d", c.version)
	}
	w.u16(uint16(c.version))
	w.u16(uint16(c.cipherSuite))
	w.vec(c.groupID)
	w.u64(c.epoch)
	w.vec(c.treeHash)
	w.vec(c.confirmedTranscriptHash)
	w.extensions(c.extensions)
}

func (w *rw) pskID(p *preSharedKeyID) {
	w.u8(uint8(p.pskType))
	switch p.pskType {
	case 1:
		w.vec(p.pskID)
	case 2:
		if p.usage < 1 || p.usage > 3 {
			bad("psk usage %d", p.usage)
		}
		w.u8(uint8(p.usage))
		w.vec(p.pskGroupID)
		w.u64(p.pskEpoch)
	default:
		bad("psk type %d", p.pskType)
	}
	w.vec(p.pskNonce)
}

func (w *rw) capabilities(c *capabilities) {
	w.list(len(c.versions), func(w *rw, i int) { w.u16(uint16(c.versions[i])) })
	w.list(len(c.cipherSuites), func(w *rw, i int) { w.u16(uint16(c.cipherSuites[i])) })
	w.list(len(c.extensions), func(w *rw, i int) { w.u16(uint16(c.extensions[i])) })
	w.list(len(c.proposals), func(w *rw, i int) { w.u16(uint16(c.proposals[i])) })
	w.list(len(c.credentials), func(w *rw, i int) { w.u16(uint16(c.credentials[i])) })
}

func (w *rw) lifetime(l *lifetime) { w.u64(l.notBefore); w.u64(l.notAfter) }

func (w *rw) leafNodeBase(n *leafNode) {
	w.vec(n.encryptionKey)
	w.vec(n.signatureKey)
	w.credential(&n.credential)
	w.capabilities(&n.capabilities)
	w.u8(uint8(n.leafNodeSource))
	switch n.leafNodeSource {
	case 1:
		if n.lifetime == nil {
			bad("leaf without lifetime")
		}
		w.lifetime(n.lifetime)
	case 2:
	case 3:
		w.vec(n.parentHash)
	default:
		bad("leaf node source %d", n.leafNodeSource)
	}
	w.extensions(n.extensions)
}

func (w *rw) leafNode(n *leafNode) {
	w.leafNodeBase(n)
	w.vec(n.signature)
}

// leafNodeTBS is LeafNodeTBS of section 7.2.
func (w *rw) leafNodeTBS(n *leafNode, groupID []byte, li leafIndex) {
	w.leafNodeBase(n)
	if n.leafNodeSource == 2 || n.leafNodeSource == 3 {
		w.vec(groupID)
		w.u32(uint32(li))
	}
}

func (w *rw) parentNode(n *parentNode) {
	w.vec(n.encryptionKey)
	w.vec(n.parentHash)
	w.list(len(n.unmergedLeaves), func(w *rw, i int) { w.u32(uint32(n.unmergedLeaves[i])) })
}

func (w *rw) node(n *node) {
	w.u8(uint8(n.nodeType))
	switch {
	case n.nodeType == 1 && n.leafNode != nil:
		w.leafNode(n.leafNode)
	case n.nodeType == 2 && n.parentNode != nil:
		w.parentNode(n.parentNode)
	default:
		bad("node type %d", n.nodeType)
	}
}

func (w *rw) ratchetTree(t ratchetTree) {
	if n := len(t) + 1; len(t) == 0 || n&(n-1) != 0 {
		bad("tree with %d nodes", len(t))
	}
	last := len(t)
	for last > 0 && t[last-1] == nil {
		last--
	}
	if last == 0 {
		bad("tree without nodes")
	}
	if n := (len(t) + 1) / 2; n > 1 && last <= n-1 {
		bad("tree of %d nodes holds only %d", len(t), last)
	}
	w.list(last, func(w *rw, i int) {
		if t[i] == nil {
			w.u8(0)
			return
		}
		if (i%2 == 0) != (t[i].nodeType == 1) {
			bad("node type %d at index %d", t[i].nodeType, i)
		}
		w.u8(1)
		w.node(t[i])
	})
}

func (w *rw) updatePathNode(n *updatePathNode) {
	w.vec(n.encryptionKey)
	w.list(len(n.encryptedPathSecret), func(w *rw, i int) { w.hpkeCiphertext(&n.encryptedPathSecret[i]) })
}

func (w *rw) updatePath(p *updatePath) {
	w.leafNode(&p.leafNode)
	w.list(len(p.nodes), func(w *rw, i int) { w.updatePathNode(&p.nodes[i]) })
}

func (w *rw) keyPackageTBS(k *KeyPackage) {
	if k.version != 1 {
		bad("version %d", k.version)
	}
	w.u16(uint16(k.version))
	w.u16(uint16(k.cipherSuite))
	w.vec(k.initKey)
	w.leafNode(&k.leafNode)
	w.extensions(k.extensions)
}

func (w *rw) keyPackage(k *KeyPackage) { w.keyPackageTBS(k); w.vec(k.signature) }

func (w *rw) reInit(r *reInit) {
	w.vec(r.groupID)
	w.u16(uint16(r.version))
	w.u16(uint16(r.cipherSuite))
	w.extensions(r.extensions)
}

func (w *rw) proposal(p *proposal) {
	w.u16(uint16(p.proposalType))
	switch p.proposalType {
	case 1:
		w.keyPackage(&p.add.keyPackage)
	case 2:
		w.leafNode(&p.update.leafNode)
	case 3:
		w.u32(uint32(p.remove.removed))
	case 4:
		w.pskID(&p.preSharedKey.psk)
	case 5:
		w.reInit(p.reInit)
	case 6:
		w.vec(p.externalInit.kemOutput)
	case 7:
		w.extensions(p.groupContextExtensions.extensions)
	default:
		bad("proposal type %d", p.proposalType)
	}
}

func (w *rw) proposalOrRef(p *proposalOrRef) {
	w.u8(uint8(p.typ))
	switch p.typ {
	case 1:
		w.proposal(p.proposal)
	case 2:
		w.vec(p.reference)
	default:
		bad("proposal or ref type %d", p.typ)
	}
}

func (w *rw) commit(c *commit) {
	w.list(len(c.proposals), func(w *rw, i int) { w.proposalOrRef(&c.proposals[i]) })
	if c.path == nil {
		w.u8(0)
	} else {
		w.u8(1)
		w.updatePath(c.path)
	}
}

func (w *rw) sender(s *sender) {
	w.u8(uint8(s.senderType))
	switch s.senderType {
	case 1:
		w.u32(uint32(s.leafIndex))
	case 2:
		w.u32(s.senderIndex)
	case 3, 4:
	default:
		bad("sender type %d", s.senderType)
	}
}

func (w *rw) wireFormat(f wireFormat) {
	if f < 1 || f > 5 {
		bad("wire format %d", f)
	}
	w.u16(uint16(f))
}

func (w *rw) body(ct contentType, app []byte, p *proposal, c *commit) {
	switch {
	case ct == 1:
		w.vec(app)
	case ct == 2 && p != nil:
		w.proposal(p)
	case ct == 3 && c != nil:
		w.commit(c)
	default:
		bad("content type %d", ct)
	}
}

func (w *rw) framedContent(c *framedContent) {
	w.vec(c.groupID)
	w.u64(c.epoch)
	w.sender(&c.sender)
	w.vec(c.authenticatedData)
	w.u8(uint8(c.contentType))
	w.body(c.contentType, c.applicationData, c.proposal, c.commit)
}

func (w *rw) auth(a *framedContentAuthData, ct contentType) {
	w.vec(a.signature)
	if ct == 3 {
		w.vec(a.confirmationTag)
	}
}

func (w *rw) authenticatedContent(a *authenticatedContent) {
	w.wireFormat(a.wireFormat)
	w.framedContent(&a.content)
	w.auth(&a.auth, a.content.contentType)
}

// framedContentTBS is FramedContentTBS of section 6.1.
func (w *rw) framedContentTBS(wf wireFormat, c *framedContent, ctx *groupContext) {
	w.u16(1)
	w.wireFormat(wf)
	w.framedContent(c)
	if c.sender.senderType == 1 || c.sender.senderType == 4 {
		w.groupContext(ctx)
	}
}

func (w *rw) publicMessage(m *publicMessage) {
	w.framedContent(&m.content)
	w.auth(&m.auth, m.content.contentType)
	if m.content.sender.senderType == 1 {
		w.vec(m.membershipTag)
	}
}

func (w *rw) contentType(ct contentType) {
	if ct < 1 || ct > 3 {
		bad("content type %d", ct)
	}
	w.u8(uint8(ct))
}

func (w *rw) privateMessage(m *privateMessage) {
	w.vec(m.groupID)
	w.u64(m.epoch)
	w.contentType(m.contentType)
	w.vec(m.authenticatedData)
	w.vec(m.encryptedSenderData)
	w.vec(m.ciphertext)
}

func (w *rw) privateMessageContent(c *privateMessageContent, ct contentType) {
	w.body(ct, c.applicationData, c.proposal, c.commit)
	w.auth(&c.auth, ct)
}

func (w *rw) senderData(d *senderData) {
	w.u32(uint32(d.leafIndex))
	w.u32(d.generation)
	w.raw(d.reuseGuard[:])
}

func (w *rw) groupInfoTBS(g *groupInfo) {
	w.groupContext(&g.groupContext)
	w.extensions(g.extensions)
	w.vec(g.confirmationTag)
	w.u32(uint32(g.signer))
}

func (w *rw) groupInfo(g *groupInfo) { w.groupInfoTBS(g); w.vec(g.signature) }

func (w *rw) groupSecrets(g *groupSecrets) {
	w.vec(g.joinerSecret)
	if g.pathSecret == nil {
		w.u8(0)
	} else {
		w.u8(1)
		w.vec(g.pathSecret)
	}
	w.list(len(g.psks), func(w *rw, i int) { w.pskID(&g.psks[i]) })
}

func (w *rw) encryptedGroupSecrets(e *encryptedGroupSecrets) {
	w.vec(e.newMember)
	w.hpkeCiphertext(&e.encryptedGroupSecrets)
}

func (w *rw) welcome(m *Welcome) {
	w.u16(uint16(m.cipherSuite))
	w.list(len(m.secrets), func(w *rw, i int) { w.encryptedGroupSecrets(&m.secrets[i]) })
	w.vec(m.encryptedGroupInfo)
}

func (w *rw) mlsMessage(m *mlsMessage) {
	if m.version != 1 {
		bad("version %d", m.version)
	}
	w.u16(1)
	w.wireFormat(m.wireFormat)
	switch m.wireFormat {
	case 1:
		w.publicMessage(m.publicMessage)
	case 2:
		w.privateMessage(m.privateMessage)
	case 3:
		w.welcome(m.welcome)
	case 4:
		w.groupInfo(m.groupInfo)
	case 5:
		w.keyPackage(m.keyPackage)
	}
}

func renc(f func(w *rw)) []byte {
	var w rw
	f(&w)
	return w.b
}

// rgen generates random well-formed values.
type rgen struct{ *rand.Rand }

func (g *rgen) bytes() []byte {
	n := g.Intn(6)
	switch g.Intn(40) {
	case 0:
		n = 60 + g.Intn(10)
	case 1:
		n = 200 + g.Intn(100)
	case 2:
		if g.Intn(6) == 0 {
			n = 16380 + g.Intn(10)
		}
	}
	b := make([]byte, n)
	g.Read(b)
	return b
}

func (g *rgen) n() int { return []int{0, 0, 1, 1, 2, 3, 5}[g.Intn(7)] }

func (g *rgen) u64() uint64 {
	switch g.Intn(4) {
	case 0:
		return uint64(g.Intn(3))
	case 1:
		return ^uint64(0) - uint64(g.Intn(2))
	}
	return g.Uint64()
}

func (g *rgen) u32() uint32 {
	if g.Intn(3) == 0 {
		return uint32(g.Intn(4))
	}
	return g.Uint32()
}

func (g *rgen) u16() uint16 {
	if g.Intn(2) == 0 {
		return uint16(g.Intn(9))
	}
	return uint16(g.Uint32())
}

func (g *rgen) credential() Credential {
	if g.Intn(2) == 0 {
		return Credential{credentialType: 1, identity: g.bytes()}
	}
	c := Credential{credentialType: 2}
	for i := g.n(); i > 0; i-- {
		c.certificates = append(c.certificates, g.bytes())
	}
	return c
}

func (g *rgen) extensions() []extension {
	var x []extension
	for i := g.n(); i > 0; i-- {
		x = append(x, extension{extensionType(g.u16()), g.bytes()})
	}
	return x
}

func (g *rgen) groupContext() groupContext {
	return groupContext{
		version: 1, cipherSuite: CipherSuite(g.u16()), groupID: g.bytes(), epoch: g.u64(),
		treeHash: g.bytes(), confirmedTranscriptHash: g.bytes(), extensions: g.extensions(),
	}
}

func (g *rgen) pskID() preSharedKeyID {
	if g.Intn(2) == 0 {
		return preSharedKeyID{pskType: 1, pskID: g.bytes(), pskNonce: g.bytes()}
	}
	return preSharedKeyID{pskType: 2, usage: resumptionPSKUsage(1 + g.Intn(3)), pskGroupID: g.bytes(), pskEpoch: g.u64(), pskNonce: g.bytes()}
}

func (g *rgen) capabilities() capabilities {
	var c capabilities
	for i := g.n(); i > 0; i-- {
		c.versions = append(c.versions, protocolVersion(g.u16()))
	}
	for i := g.n(); i > 0; i-- {
		c.cipherSuites = append(c.cipherSuites, CipherSuite(g.u16()))
	}
	for i := g.n(); i > 0; i-- {
		c.extensions = append(c.extensions, extensionType(g.u16()))
	}
	for i := g.n(); i > 0; i-- {
		c.proposals = append(c.proposals, proposalType(g.u16()))
	}
	for i := g.n(); i > 0; i-- {
		c.credentials = append(c.credentials, credentialType(g.u16()))
	}
	return c
}

func (g *rgen) leafNode() leafNode {
	n := leafNode{
		encryptionKey: g.bytes(), signatureKey: g.bytes(), credential: g.credential(), capabilities: g.capabilities(),
		leafNodeSource: leafNodeSource(1 + g.Intn(3)), extensions: g.extensions(), signature: g.bytes(),
	}
	switch n.leafNodeSource {
	case 1:
		n.lifetime = &lifetime{g.u64(), g.u64()}
	case 3:
		n.parentHash = g.bytes()
	}
	return n
}

func (g *rgen) parentNode() parentNode {
	p := parentNode{encryptionKey: g.bytes(), parentHash: g.bytes()}
	for i := g.n(); i > 0; i-- {
		p.unmergedLeaves = append(p.unmergedLeaves, leafIndex(g.u32()))
	}
	return p
}

func (g *rgen) node(leaf bool) *node {
	if leaf {
		l := g.leafNode()
		return &node{nodeType: 1, leafNode: &l}
	}
	p := g.parentNode()
	return &node{nodeType: 2, parentNode: &p}
}

func (g *rgen) tree() ratchetTree {
	n := 1 << uint(g.Intn(4))
	t := make(ratchetTree, 2*n-1)
	for i := range t {
		if g.Intn(3) != 0 {
			t[i] = g.node(i%2 == 0)
		}
	}
	if n > 1 {
		ok := false
		for i := n; i < len(t); i++ {
			ok = ok || t[i] != nil
		}
		if !ok {
			t[2*n-2] = g.node(true)
		}
	} else if t[0] == nil {
		t[0] = g.node(true)
	}
	return t
}

func (g *rgen) hpkeCiphertext() hpkeCiphertext { return hpkeCiphertext{g.bytes(), g.bytes()} }

func (g *rgen) updatePathNode() updatePathNode {
	n := updatePathNode{encryptionKey: g.bytes()}
	for i := g.n(); i > 0; i-- {
		n.encryptedPathSecret = append(n.encryptedPathSecret, g.hpkeCiphertext())
	}
	return n
}

func (g *rgen) updatePath() updatePath {
	p := updatePath{leafNode: g.leafNode()}
	for i := g.n(); i > 0; i-- {
		p.nodes = append(p.nodes, g.updatePathNode())
	}
	return p
}

func (g *rgen) keyPackage() KeyPackage {
	return KeyPackage{version: 1, cipherSuite: CipherSuite(g.u16()), initKey: g.bytes(), leafNode: g.leafNode(), extensions: g.extensions(), signature: g.bytes()}
}

func (g *rgen) reInit() reInit {
	return reInit{groupID: g.bytes(), version: protocolVersion(g.u16()), cipherSuite: CipherSuite(g.u16()), extensions: g.extensions()}
}

func (g *rgen) proposal() proposal {
	p := proposal{proposalType: proposalType(1 + g.Intn(7))}
	switch p.proposalType {
	case 1:
		p.add = &add{g.keyPackage()}
	case 2:
		p.update = &update{g.leafNode()}
	case 3:
		p.remove = &remove{leafIndex(g.u32())}
	case 4:
		p.preSharedKey = &preSharedKey{g.pskID()}
	case 5:
		r := g.reInit()
		p.reInit = &r
	case 6:
		p.externalInit = &externalInit{g.bytes()}
	case 7:
		p.groupContextExtensions = &groupContextExtensions{g.extensions()}
	}
	return p
}

func (g *rgen) proposalOrRef() proposalOrRef {
	if g.Intn(2) == 0 {
		p := g.proposal()
		return proposalOrRef{typ: 1, proposal: &p}
	}
	return proposalOrRef{typ: 2, reference: g.bytes()}
}

func (g *rgen) commit() commit {
	var c commit
	for i := g.n(); i > 0; i-- {
		c.proposals = append(c.proposals, g.proposalOrRef())
	}
	if g.Intn(2) == 0 {
		p := g.updatePath()
		c.path = &p
	}
	return c
}

func (g *rgen) sender() sender {
	s := sender{senderType: senderType(1 + g.Intn(4))}
	switch s.senderType {
	case 1:
		s.leafIndex = leafIndex(g.u32())
	case 2:
		s.senderIndex = g.u32()
	}
	return s
}

func (g *rgen) framedContent() framedContent {
	c := framedContent{groupID: g.bytes(), epoch: g.u64(), sender: g.sender(), authenticatedData: g.bytes(), contentType: contentType(1 + g.Intn(3))}
	switch c.contentType {
	case 1:
		c.applicationData = g.bytes()
	case 2:
		p := g.proposal()
		c.proposal = &p
	case 3:
		x := g.commit()
		c.commit = &x
	}
	return c
}

func (g *rgen) auth(ct contentType) framedContentAuthData {
	a := framedContentAuthData{signature: g.bytes()}
	if ct == 3 {
		a.confirmationTag = g.bytes()
	}
	return a
}

func (g *rgen) authenticatedContent() authenticatedContent {
	c := g.framedContent()
	return authenticatedContent{wireFormat: wireFormat(1 + g.Intn(5)), content: c, auth: g.auth(c.contentType)}
}

func (g *rgen) publicMessage() publicMessage {
	c := g.framedContent()
	m := publicMessage{content: c, auth: g.auth(c.contentType)}
	if c.sender.senderType == 1 {
		m.membershipTag = g.bytes()
	}
	return m
}

func (g *rgen) privateMessage() privateMessage {
	return privateMessage{groupID: g.bytes(), epoch: g.u64(), contentType: contentType(1 + g.Intn(3)), authenticatedData: g.bytes(), encryptedSenderData: g.bytes(), ciphertext: g.bytes()}
}

func (g *rgen) privateMessageContent(ct contentType) privateMessageContent {
	var c privateMessageContent
	switch ct {
	case 1:
		c.applicationData = g.bytes()
	case 2:
		p := g.proposal()
		c.proposal = &p
	case 3:
		x := g.commit()
		c.commit = &x
	}
	c.auth = g.auth(ct)
	return c
}

func (g *rgen) groupInfo() groupInfo {
	return groupInfo{groupContext: g.groupContext(), extensions: g.extensions(), confirmationTag: g.bytes(), signer: leafIndex(g.u32()), signature: g.bytes()}
}

func (g *rgen) groupSecrets() groupSecrets {
	s := groupSecrets{joinerSecret: g.bytes()}
	if g.Intn(2) == 0 {
		s.pathSecret = append([]byte{}, g.bytes()...)
	}
	for i := g.n(); i > 0; i-- {
		s.psks = append(s.psks, g.pskID())
	}
	return s
}

func (g *rgen) encryptedGroupSecrets() encryptedGroupSecrets {
	return encryptedGroupSecrets{g.bytes(), g.hpkeCiphertext()}
}

func (g *rgen) welcome() Welcome {
	w := Welcome{cipherSuite: CipherSuite(g.u16()), encryptedGroupInfo: g.bytes()}
	for i := g.n(); i > 0; i-- {
		w.secrets = append(w.secrets, g.encryptedGroupSecrets())
	}
	return w
}

func (g *rgen) mlsMessage() mlsMessage {
	m := mlsMessage{version: 1, wireFormat: wireFormat(1 + g.Intn(5))}
	switch m.wireFormat {
	case 1:
		x := g.publicMessage()
		m.publicMessage = &x
	case 2:
		x := g.privateMessage()
		m.privateMessage = &x
	case 3:
		x := g.welcome()
		m.welcome = &x
	case 4:
		x := g.groupInfo()
		m.groupInfo = &x
	case 5:
		x := g.keyPackage()
		m.keyPackage = &x
	}
	return m
}

// rcodec is one structure with its coder under test and its oracle. gen
// returns a pointer to a random value, dec decodes into a value that already
// holds garbage, so that leftovers show.
type rcodec struct {
	name string
	gen  func(g *rgen) interface{}
	dec  func(g *rgen, s *cryptobyte.String) (interface{}, error)
	enc  func(v interface{}, b *cryptobyte.Builder)
	ref  func(v interface{}, w *rw)
}

type rcoder interface {
	unmarshaler
	marshaler
}

type rdecoder interface{ unmarshaler }

func rcodecs() []rcodec {
	var cs []rcodec
	add := func(name string, gen func(g *rgen) interface{}, ref func(v interface{}, w *rw)) {
		cs = append(cs, rcodec{
			name: name, gen: gen, ref: ref,
			dec: func(g *rgen, s *cryptobyte.String) (interface{}, error) {
				v := gen(g)
				err := v.(unmarshaler).unmarshal(s)
				return v, err
			},
			enc: func(v interface{}, b *cryptobyte.Builder) { v.(marshaler).marshal(b) },
		})
	}
	add("Credential", func(g *rgen) interface{} { v := g.credential(); return &v }, func(v interface{}, w *rw) { w.credential(v.(*Credential)) })
	add("HPKECiphertext", func(g *rgen) interface{} { v := g.hpkeCiphertext(); return &v }, func(v interface{}, w *rw) { w.hpkeCiphertext(v.(*hpkeCiphertext)) })
	add("GroupContext", func(g *rgen) interface{} { v := g.groupContext(); return &v }, func(v interface{}, w *rw) { w.groupContext(v.(*groupContext)) })
	add("PreSharedKeyID", func(g *rgen) interface{} { v := g.pskID(); return &v }, func(v interface{}, w *rw) { w.pskID(v.(*preSharedKeyID)) })
	add("Capabilities", func(g *rgen) interface{} { v := g.capabilities(); return &v }, func(v interface{}, w *rw) { w.capabilities(v.(*capabilities)) })
	add("Lifetime", func(g *rgen) interface{} { return &lifetime{g.u64(), g.u64()} }, func(v interface{}, w *rw) { w.lifetime(v.(*lifetime)) })
	add("LeafNode", func(g *rgen) interface{} { v := g.leafNode(); return &v }, func(v interface{}, w *rw) { w.leafNode(v.(*leafNode)) })
	add("ParentNode", func(g *rgen) interface{} { v := g.parentNode(); return &v }, func(v interface{}, w *rw) { w.parentNode(v.(*parentNode)) })
	add("Node", func(g *rgen) interface{} { return g.node(g.Intn(2) == 0) }, func(v interface{}, w *rw) { w.node(v.(*node)) })
	add("UpdatePathNode", func(g *rgen) interface{} { v := g.updatePathNode(); return &v }, func(v interface{}, w *rw) { w.updatePathNode(v.(*updatePathNode)) })
	add("UpdatePath", func(g *rgen) interface{} { v := g.updatePath(); return &v }, func(v interface{}, w *rw) { w.updatePath(v.(*updatePath)) })
	add("KeyPackage", func(g *rgen) interface{} { v := g.keyPackage(); return &v }, func(v interface{}, w *rw) { w.keyPackage(v.(*KeyPackage)) })
	add("Proposal", func(g *rgen) interface{} { v := g.proposal(); return &v }, func(v interface{}, w *rw) { w.proposal(v.(*proposal)) })
	add("ProposalOrRef", func(g *rgen) interface{} { v := g.proposalOrRef(); return &v }, func(v interface{}, w *rw) { w.proposalOrRef(v.(*proposalOrRef)) })
	add("Commit", func(g *rgen) interface{} { v := g.commit(); return &v }, func(v interface{}, w *rw) { w.commit(v.(*commit)) })
	add("Sender", func(g *rgen) interface{} { v := g.sender(); return &v }, func(v interface{}, w *rw) { w.sender(v.(*sender)) })
	add("FramedContent", func(g *rgen) interface{} { v := g.framedContent(); return &v }, func(v interface{}, w *rw) { w.framedContent(v.(*framedContent)) })
	add("AuthenticatedContent", func(g *rgen) interface{} { v := g.authenticatedContent(); return &v }, func(v interface{}, w *rw) { w.authenticatedContent(v.(*authenticatedContent)) })
	add("PublicMessage", func(g *rgen) interface{} { v := g.publicMessage(); return &v }, func(v interface{}, w *rw) { w.publicMessage(v.(*publicMessage)) })
	add("PrivateMessage", func(g *rgen) interface{} { v := g.privateMessage(); return &v }, func(v interface{}, w *rw) { w.privateMessage(v.(*privateMessage)) })
	add("SenderData", func(g *rgen) interface{} {
		v := senderData{leafIndex: leafIndex(g.u32()), generation: g.u32()}
		g.Read(v.reuseGuard[:])
		return &v
	}, func(v interface{}, w *rw) { w.senderData(v.(*senderData)) })
	add("GroupInfo", func(g *rgen) interface{} { v := g.groupInfo(); return &v }, func(v interface{}, w *rw) { w.groupInfo(v.(*groupInfo)) })
	add("GroupSecrets", func(g *rgen) interface{} { v := g.groupSecrets(); return &v }, func(v interface{}, w *rw) { w.groupSecrets(v.(*groupSecrets)) })
	add("EncryptedGroupSecrets", func(g *rgen) interface{} { v := g.encryptedGroupSecrets(); return &v }, func(v interface{}, w *rw) { w.encryptedGroupSecrets(v.(*encryptedGroupSecrets)) })
	add("Welcome", func(g *rgen) interface{} { v := g.welcome(); return &v }, func(v interface{}, w *rw) { w.welcome(v.(*Welcome)) })
	add("MLSMessage", func(g *rgen) interface{} { v := g.mlsMessage(); return &v }, func(v interface{}, w *rw) { w.mlsMessage(v.(*mlsMessage)) })
	add("ratchet_tree", func(g *rgen) interface{} { v := g.tree(); return &v }, func(v interface{}, w *rw) { w.ratchetTree(*v.(*ratchetTree)) })
	cs[len(cs)-1].enc = func(v interface{}, b *cryptobyte.Builder) { v.(*ratchetTree).marshal(b) }
	cs = append(cs, rcodec{
		name: "extensions",
		gen:  func(g *rgen) interface{} { v := g.extensions(); return &v },
		dec: func(g *rgen, s *cryptobyte.String) (interface{}, error) {
			v, err := unmarshalExtensionVec(s)
			return &v, err
		},
		enc: func(v interface{}, b *cryptobyte.Builder) { marshalExtensionVec(b, *v.(*[]extension)) },
		ref: func(v interface{}, w *rw) { w.extensions(*v.(*[]extension)) },
	})
	for ct := contentType(1); ct <= 3; ct++ {
		ct := ct
		cs = append(cs, rcodec{
			name: fmt.Sprintf("PrivateMessageContent/%d", ct),
			gen:  func(g *rgen) interface{} { v := g.privateMessageContent(ct); return &v },
			dec: func(g *rgen, s *cryptobyte.String) (interface{}, error) {
				v := g.privateMessageContent(ct)
				err := v.unmarshal(s, ct)
				return &v, err
			},
			enc: func(v interface{}, b *cryptobyte.Builder) { v.(*privateMessageContent).marshal(b, ct) },
			ref: func(v interface{}, w *rw) { w.privateMessageContent(v.(*privateMessageContent), ct) },
		}, rcodec{
			name: fmt.Sprintf("FramedContentAuthData/%d", ct),
			gen:  func(g *rgen) interface{} { v := g.auth(ct); return &v },
			dec: func(g *rgen, s *cryptobyte.String) (interface{}, error) {
				v := g.auth(ct)
				err := v.unmarshal(s, ct)
				return &v, err
			},
			enc: func(v interface{}, b *cryptobyte.Builder) { v.(*framedContentAuthData).marshal(b, ct) },
			ref: func(v interface{}, w *rw) { w.auth(v.(*framedContentAuthData), ct) },
		})
	}
	return cs
}

// requal compares two values, treating nil and empty slices alike.
func requal(a, b interface{}) bool { return requalV(reflect.ValueOf(a), reflect.ValueOf(b)) }

func requalV(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() || a.IsValid() && a.Type() != b.Type() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return requalV(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !requalV(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !requalV(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !b.MapIndex(k).IsValid() || !requalV(a.MapIndex(k), b.MapIndex(k)) {
				return false
			}
		}
		return true
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		return a.Uint() == b.Uint()
	case reflect.Int, reflect.Int64, reflect.Int32:
		return a.Int() == b.Int()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Func:
		return a.IsNil() && b.IsNil()
	}
	panic("requal: " + a.Kind().String())
}

func hexs(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("%x…(%d bytes)", b[:120], len(b))
	}
	return fmt.Sprintf("%x", b)
}

var _ = bytes.Equal

// rmutate damages an encoding.
func rmutate(g *rgen, b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + g.Intn(2); k > 0 && len(b) > 0; k-- {
		i := g.Intn(len(b))
		if g.Intn(2) == 0 && i > 8 {
			i = g.Intn(8)
		}
		switch g.Intn(10) {
		case 0:
			b[i] ^= 1 << uint(g.Intn(8))
		case 1:
			b[i] = byte(g.Intn(256))
		case 2:
			b[i]++
		case 3:
			b[i]--
		case 4:
			b = b[:i]
		case 5:
			b = append(b[:i], append([]byte{byte(g.Intn(6))}, b[i:]...)...)
		case 6:
			b = append(b[:i], b[i+1:]...)
		case 7:
			b = append(b, byte(g.Intn(3)))
		case 8:
			// a longer length prefix for the same length
			n := b[i] & 0x3F
			var p []byte
			if g.Intn(2) == 0 {
				p = []byte{0x40, n}
			} else {
				p = []byte{0x80, 0, 0, n}
			}
			b = append(b[:i], append(p, b[i+1:]...)...)
		case 9:
			b[i] = []byte{0, 1, 2, 3, 4, 5, 7, 8, 0x3F, 0x40, 0x80, 0xC0, 0xFF}[g.Intn(13)]
		}
	}
	return b
}

// raccepted checks that an accepted value encodes, per the RFC, to what was
// consumed.
func raccepted(c rcodec, g *rgen, in []byte) (ok bool) {
	s := cryptobyte.String(append([]byte{}, in...))
	v, err := c.dec(g, &s)
	if err != nil {
		return false
	}
	vCheck(len(s) <= len(in) && bytes.Equal(in[len(in)-len(s):], s), "decoding %s leaves %s, which is not a suffix", hexs(in), hexs(s))
	used := in[:len(in)-len(s)]
	var want []byte
	func() {
		defer func() {
			if r := recover(); r != nil {
				if f, ok := r.(vFail); ok {
					vCheck(false, "accepted %s as %+v: %v", hexs(used), v, f.err)
				}
				panic(r)
			}
		}()
		want = renc(func(w *rw) { c.ref(v, w) })
	}()
	vCheck(bytes.Equal(want, used), "accepted %s, whose value encodes to %s", hexs(used), hexs(want))
	var b cryptobyte.Builder
	c.enc(v, &b)
	got, err := b.Bytes()
	vCheck(err == nil && bytes.Equal(got, used), "accepted %s, re-encoded as %s (error %v)", hexs(used), hexs(got), err)
	return true
}
