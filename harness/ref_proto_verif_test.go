package mls

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/hmac"
	crand "crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"hash"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/cloudflare/circl/hpke"
	"github.com/cloudflare/circl/sign/ed448"
	"golang.org/x/crypto/chacha20poly1305"
)

// This file holds reference implementations, written from RFC 9420, of the
// key schedule, the secret tree, the ratchet tree and the sender side of
// commits. They share only the Go struct types with the code under test.

// rsuite is the row of a cipher suite in the table of section 17.1.
type rsuite struct {
	hash   func() hash.Hash
	nh     int
	nk, nn int
	kem    hpke.KEM
	kdf    hpke.KDF
	aead   hpke.AEAD
	chacha bool
	seed   int // private key seed of HPKE DeriveKeyPair in circl
}

var rsuites = map[CipherSuite]rsuite{
	1: {sha256.New, 32, 16, 12, hpke.KEM_X25519_HKDF_SHA256, hpke.KDF_HKDF_SHA256, hpke.AEAD_AES128GCM, false, 32},
	2: {sha256.New, 32, 16, 12, hpke.KEM_P256_HKDF_SHA256, hpke.KDF_HKDF_SHA256, hpke.AEAD_AES128GCM, false, 32},
	3: {sha256.New, 32, 32, 12, hpke.KEM_X25519_HKDF_SHA256, hpke.KDF_HKDF_SHA256, hpke.AEAD_ChaCha20Poly1305, true, 32},
	4: {sha512.New, 64, 32, 12, hpke.KEM_X448_HKDF_SHA512, hpke.KDF_HKDF_SHA512, hpke.AEAD_AES256GCM, false, 56},
	5: {sha512.New, 64, 32, 12, hpke.KEM_P521_HKDF_SHA512, hpke.KDF_HKDF_SHA512, hpke.AEAD_AES256GCM, false, 66},
	6: {sha512.New, 64, 32, 12, hpke.KEM_X448_HKDF_SHA512, hpke.KDF_HKDF_SHA512, hpke.AEAD_ChaCha20Poly1305, true, 56},
	7: {sha512.New384, 48, 32, 12, hpke.KEM_P384_HKDF_SHA384, hpke.KDF_HKDF_SHA384, hpke.AEAD_AES256GCM, false, 48},
}

// rallSuites lists the suites in order; the path suites also support update
// paths in this library.
var rallSuites = []CipherSuite{1, 2, 3, 4, 5, 6, 7}
var rpathSuites = []CipherSuite{1, 2, 3, 7}

func rhash(cs CipherSuite, parts ...[]byte) []byte {
	h := rsuites[cs].hash()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func rmac(cs CipherSuite, key, msg []byte) []byte {
	m := hmac.New(rsuites[cs].hash, key)
	m.Write(msg)
	return m.Sum(nil)
}

// rextract is HKDF-Extract(salt, ikm).
func rextract(cs CipherSuite, salt, ikm []byte) []byte { return rmac(cs, salt, ikm) }

// rexpand is HKDF-Expand.
func rexpand(cs CipherSuite, prk, info []byte, n int) []byte {
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		t = rmac(cs, prk, append(append(append([]byte{}, t...), info...), i))
		out = append(out, t...)
	}
	return out[:n]
}

func rexpandLabel(cs CipherSuite, secret []byte, label string, context []byte, n int) []byte {
	info := renc(func(w *rw) { w.u16(uint16(n)); w.vec([]byte("MLS 1.0 " + label)); w.vec(context) })
	return rexpand(cs, secret, info, n)
}

func rderive(cs CipherSuite, secret []byte, label string) []byte {
	return rexpandLabel(cs, secret, label, nil, rsuites[cs].nh)
}

func rzero(cs CipherSuite) []byte { return make([]byte, rsuites[cs].nh) }

func raead(cs CipherSuite, key []byte) cipher.AEAD {
	var c cipher.AEAD
	var err error
	if rsuites[cs].chacha {
		c, err = chacha20poly1305.New(key)
	} else {
		var b cipher.Block
		b, err = aes.NewCipher(key)
		vMust(err)
		c, err = cipher.NewGCM(b)
	}
	vMust(err)
	return c
}

func rhpke(cs CipherSuite) hpke.Suite {
	s := rsuites[cs]
	return hpke.NewSuite(s.kem, s.kdf, s.aead)
}

func rlabelled(label string, content []byte) []byte {
	return renc(func(w *rw) { w.vec([]byte("MLS 1.0 " + label)); w.vec(content) })
}

func rseal(cs CipherSuite, pub []byte, label string, context, pt []byte) hpkeCiphertext {
	k, err := rsuites[cs].kem.Scheme().UnmarshalBinaryPublicKey(pub)
	vMust(err)
	snd, err := rhpke(cs).NewSender(k, rlabelled(label, context))
	vMust(err)
	enc, sealer, err := snd.Setup(crand.Reader)
	vMust(err)
	ct, err := sealer.Seal(pt, nil)
	vMust(err)
	return hpkeCiphertext{enc, ct}
}

func ropen(cs CipherSuite, priv []byte, label string, context []byte, ct hpkeCiphertext) ([]byte, error) {
	k, err := rsuites[cs].kem.Scheme().UnmarshalBinaryPrivateKey(priv)
	vMust(err)
	rcv, err := rhpke(cs).NewReceiver(k, rlabelled(label, context))
	vMust(err)
	op, err := rcv.Setup(ct.kemOutput)
	if err != nil {
		return nil, err
	}
	return op.Open(ct.ciphertext, nil)
}

func rderiveKeyPair(cs CipherSuite, seed []byte) (pub, priv []byte) {
	p, s := rsuites[cs].kem.Scheme().DeriveKeyPair(seed)
	pub, err := p.MarshalBinary()
	vMust(err)
	priv, err = s.MarshalBinary()
	vMust(err)
	return pub, priv
}

// rsign signs with the scheme of the suite, bypassing the labelling of the
// code under test.
func rsign(cs CipherSuite, priv []byte, label string, content []byte) []byte {
	sig, err := rscheme(cs).Sign(priv, rlabelled(label, content))
	vMust(err)
	return sig
}

func rverify(cs CipherSuite, pub []byte, label string, content, sig []byte) bool {
	return rscheme(cs).Verify(pub, rlabelled(label, content), sig)
}

// rschedule is the key schedule of figure 22.
type rschedule struct {
	joiner, welcome, epoch, init []byte
}

func rkeySchedule(cs CipherSuite, init, commit, psk []byte, ctx *groupContext) rschedule {
	n := rsuites[cs].nh
	if commit == nil {
		commit = rzero(cs)
	}
	raw := renc(func(w *rw) { w.groupContext(ctx) })
	j := rexpandLabel(cs, rextract(cs, init, commit), "joiner", raw, n)
	return rfromJoiner(cs, j, psk, ctx)
}

func rfromJoiner(cs CipherSuite, j, psk []byte, ctx *groupContext) rschedule {
	if psk == nil {
		psk = rzero(cs)
	}
	raw := renc(func(w *rw) { w.groupContext(ctx) })
	m := rextract(cs, j, psk)
	e := rexpandLabel(cs, m, "epoch", raw, rsuites[cs].nh)
	return rschedule{j, rderive(cs, m, "welcome"), e, rderive(cs, e, "init")}
}

func rpskSecret(cs CipherSuite, ids []preSharedKeyID, psks [][]byte) []byte {
	s := rzero(cs)
	for i := range ids {
		x := rextract(cs, rzero(cs), psks[i])
		l := renc(func(w *rw) { w.pskID(&ids[i]); w.u16(uint16(i)); w.u16(uint16(len(ids))) })
		s = rextract(cs, rexpandLabel(cs, x, "derived psk", l, rsuites[cs].nh), s)
	}
	return s
}

func rconfirmedHash(cs CipherSuite, interim []byte, a *authenticatedContent) []byte {
	return rhash(cs, interim, renc(func(w *rw) { w.wireFormat(a.wireFormat); w.framedContent(&a.content); w.vec(a.auth.signature) }))
}

func rinterimHash(cs CipherSuite, confirmed, tag []byte) []byte {
	return rhash(cs, confirmed, renc(func(w *rw) { w.vec(tag) }))
}

// rleafSecret is the secret of a leaf in the secret tree of n leaves.
func rleafSecret(cs CipherSuite, enc []byte, n, leaf int) []byte {
	s := enc
	for lo, hi := 0, n; hi-lo > 1; {
		mid := (lo + hi) / 2
		if leaf < mid {
			s = rexpandLabel(cs, s, "tree", []byte("left"), rsuites[cs].nh)
			hi = mid
		} else {
			s = rexpandLabel(cs, s, "tree", []byte("right"), rsuites[cs].nh)
			lo = mid
		}
	}
	return s
}

// rratchet returns key, nonce and secret of a generation.
func rratchet(cs CipherSuite, leafSecret []byte, app bool, gen uint32) (key, nonce, secret []byte) {
	l := "handshake"
	if app {
		l = "application"
	}
	s := rexpandLabel(cs, leafSecret, l, nil, rsuites[cs].nh)
	t := func(label string, g uint32, n int) []byte {
		return rexpandLabel(cs, s, label, renc(func(w *rw) { w.u32(g) }), n)
	}
	for g := uint32(0); g < gen; g++ {
		s = t("secret", g, rsuites[cs].nh)
	}
	return t("key", gen, rsuites[cs].nk), t("nonce", gen, rsuites[cs].nn), s
}

// Ratchet trees.

func rleaves(t []*node) int { return (len(t) + 1) / 2 }

// rspan describes a node by the range of leaves below it.
type rspan struct{ lo, hi int }

func (s rspan) node() int          { return s.lo + s.hi - 1 }
func (s rspan) leaf() bool         { return s.hi-s.lo == 1 }
func (s rspan) left() rspan        { return rspan{s.lo, (s.lo + s.hi) / 2} }
func (s rspan) right() rspan       { return rspan{(s.lo + s.hi) / 2, s.hi} }
func (s rspan) has(leaf int) bool  { return s.lo <= leaf && leaf < s.hi }
func rroot(t []*node) rspan        { return rspan{0, rleaves(t)} }
func rspans(t []*node) (o []rspan) { return rspansOf(rroot(t)) }

func rspansOf(s rspan) []rspan {
	if s.leaf() {
		return []rspan{s}
	}
	return append(append(rspansOf(s.left()), s), rspansOf(s.right())...)
}

// rpath lists the proper ancestors of a leaf from the leaf up.
func rpath(t []*node, leaf int) []rspan {
	var up []rspan
	for s := rroot(t); !s.leaf(); {
		up = append([]rspan{s}, up...)
		if s.left().has(leaf) {
			s = s.left()
		} else {
			s = s.right()
		}
	}
	return up
}

// rcopath returns the child of an ancestor that does not hold the leaf.
func rother(s rspan, leaf int) rspan {
	if s.left().has(leaf) {
		return s.right()
	}
	return s.left()
}

func rresolve(t []*node, s rspan) []int {
	n := t[s.node()]
	switch {
	case n != nil && s.leaf():
		return []int{s.node()}
	case n != nil:
		out := []int{s.node()}
		for _, l := range n.parentNode.unmergedLeaves {
			out = append(out, 2*int(l))
		}
		return out
	case s.leaf():
		return nil
	}
	return append(rresolve(t, s.left()), rresolve(t, s.right())...)
}

func rfiltered(t []*node, leaf int) []rspan {
	var out []rspan
	for _, a := range rpath(t, leaf) {
		if len(rresolve(t, rother(a, leaf))) > 0 {
			out = append(out, a)
		}
	}
	return out
}

func rcopyTree(t []*node) []*node {
	out := make([]*node, len(t))
	for i, n := range t {
		if n == nil {
			continue
		}
		c := node{nodeType: n.nodeType}
		if n.leafNode != nil {
			l := *n.leafNode
			c.leafNode = &l
		}
		if n.parentNode != nil {
			p := *n.parentNode
			p.unmergedLeaves = append([]leafIndex(nil), p.unmergedLeaves...)
			c.parentNode = &p
		}
		out[i] = &c
	}
	return out
}

func radd(t []*node, l *leafNode) ([]*node, int) {
	t = rcopyTree(t)
	at := -1
	for i := 0; i < len(t); i += 2 {
		if t[i] == nil {
			at = i / 2
			break
		}
	}
	if at < 0 {
		at = rleaves(t)
		t = append(t, make([]*node, len(t)+1)...)
	}
	for _, a := range rpath(t, at) {
		if n := t[a.node()]; n != nil {
			n.parentNode.unmergedLeaves = append(n.parentNode.unmergedLeaves, leafIndex(at))
		}
	}
	c := *l
	t[2*at] = &node{nodeType: 1, leafNode: &c}
	return t, at
}

func rupdate(t []*node, leaf int, l *leafNode) []*node {
	t = rcopyTree(t)
	for _, a := range rpath(t, leaf) {
		t[a.node()] = nil
	}
	c := *l
	t[2*leaf] = &node{nodeType: 1, leafNode: &c}
	return t
}

func rremove(t []*node, leaf int) []*node {
	t = rcopyTree(t)
	for _, a := range rpath(t, leaf) {
		t[a.node()] = nil
	}
	t[2*leaf] = nil
	last := -1
	for i := 0; i < len(t); i += 2 {
		if t[i] != nil {
			last = i / 2
		}
	}
	if last < 0 {
		return nil
	}
	for n := rleaves(t); n > 1 && last < n/2; n = rleaves(t) {
		t = t[:n-1]
	}
	return t
}

func rapply(t []*node, props []proposal, senders []leafIndex) (out []*node, added []int) {
	for i, p := range props {
		if p.proposalType == 2 {
			t = rupdate(t, int(senders[i]), &p.update.leafNode)
		}
	}
	for _, p := range props {
		if p.proposalType == 3 {
			t = rremove(t, int(p.remove.removed))
		}
	}
	for _, p := range props {
		if p.proposalType == 1 {
			var at int
			t, at = radd(t, &p.add.keyPackage.leafNode)
			added = append(added, at)
		}
	}
	return t, added
}

// rtreeHash is the tree hash of section 7.8 with leaves excluded as in the
// original tree hash of section 7.9.
func rtreeHash(cs CipherSuite, t []*node, s rspan, excl map[int]bool) []byte {
	n := t[s.node()]
	var w rw
	if s.leaf() {
		w.u8(1)
		w.u32(uint32(s.lo))
		if n == nil || excl[s.lo] {
			w.u8(0)
		} else {
			w.u8(1)
			w.leafNode(n.leafNode)
		}
	} else {
		w.u8(2)
		if n == nil {
			w.u8(0)
		} else {
			p := *n.parentNode
			p.unmergedLeaves = nil
			for _, l := range n.parentNode.unmergedLeaves {
				if !excl[int(l)] {
					p.unmergedLeaves = append(p.unmergedLeaves, l)
				}
			}
			w.u8(1)
			w.parentNode(&p)
		}
		w.vec(rtreeHash(cs, t, s.left(), excl))
		w.vec(rtreeHash(cs, t, s.right(), excl))
	}
	return rhash(cs, w.b)
}

func rrootHash(cs CipherSuite, t []*node) []byte { return rtreeHash(cs, t, rroot(t), nil) }

// rparentHash is the hash of ParentHashInput of section 7.9.
func rparentHash(cs CipherSuite, p *parentNode, original []byte) []byte {
	return rhash(cs, renc(func(w *rw) { w.vec(p.encryptionKey); w.vec(p.parentHash); w.vec(original) }))
}

// Members and groups.

func rnow() time.Time { return time.Now() }

// rmember is one member: its real group state.
type rmember struct {
	g    *Group
	name string
}

// rkey makes a key package. The signature key is that of the suite.
func rkey(cs CipherSuite, name string) *KeyPairPackage {
	k, err := GenerateKeyPairPackage(cs, NewBasicCredential([]byte(name)))
	vMust(err)
	return k
}

// rresign signs the leaf and the key package again after a change, with the
// labels of the RFC.
func rresign(k *KeyPairPackage, pub *KeyPackage) {
	cs := pub.cipherSuite
	pub.leafNode.signature = rsign(cs, k.Private.SignatureKey, "LeafNodeTBS", renc(func(w *rw) { w.leafNodeTBS(&pub.leafNode, nil, 0) }))
	pub.signature = rsign(cs, k.Private.SignatureKey, "KeyPackageTBS", renc(func(w *rw) { w.keyPackageTBS(pub) }))
}

// rsigScheme signs and verifies with the scheme of section 17.1.
type rsigScheme struct{ cs CipherSuite }

func rscheme(cs CipherSuite) rsigScheme { return rsigScheme{cs} }

func (s rsigScheme) curve() (elliptic.Curve, func() hash.Hash) {
	switch s.cs {
	case 2:
		return elliptic.P256(), sha256.New
	case 5:
		return elliptic.P521(), sha512.New
	case 7:
		return elliptic.P384(), sha512.New384
	}
	return nil, nil
}

func (s rsigScheme) Sign(priv, msg []byte) ([]byte, error) {
	switch s.cs {
	case 1, 3:
		return ed25519.Sign(ed25519.NewKeyFromSeed(priv), msg), nil
	case 4, 6:
		return ed448.Sign(ed448.NewKeyFromSeed(priv), msg, ""), nil
	}
	c, hf := s.curve()
	h := hf()
	h.Write(msg)
	k := &ecdsa.PrivateKey{D: new(big.Int).SetBytes(priv)}
	k.Curve = c
	k.X, k.Y = c.ScalarBaseMult(priv)
	return ecdsa.SignASN1(crand.Reader, k, h.Sum(nil))
}

func (s rsigScheme) Verify(pub, msg, sig []byte) bool {
	switch s.cs {
	case 1, 3:
		return len(pub) == ed25519.PublicKeySize && ed25519.Verify(pub, msg, sig)
	case 4, 6:
		return len(pub) == ed448.PublicKeySize && ed448.Verify(pub, msg, sig, "")
	}
	c, hf := s.curve()
	x, y := elliptic.Unmarshal(c, pub)
	if x == nil {
		return false
	}
	h := hf()
	h.Write(msg)
	return ecdsa.VerifyASN1(&ecdsa.PublicKey{Curve: c, X: x, Y: y}, h.Sum(nil), sig)
}

func rsnap(g *Group) string {
	var b strings.Builder
	fmt.Fprintf(&b, "tree %d\n", len(g.tree))
	for i, n := range g.tree {
		if n == nil {
			fmt.Fprintf(&b, " %d -\n", i)
			continue
		}
		fmt.Fprintf(&b, " %d %d", i, n.nodeType)
		if n.leafNode != nil {
			fmt.Fprintf(&b, " leaf %x", renc(func(w *rw) { w.leafNode(n.leafNode) }))
		}
		if n.parentNode != nil {
			fmt.Fprintf(&b, " parent %x", renc(func(w *rw) { w.parentNode(n.parentNode) }))
		}
		fmt.Fprintln(&b)
	}
	fmt.Fprintf(&b, "context %x\n", renc(func(w *rw) { w.groupContext(&g.groupContext) }))
	fmt.Fprintf(&b, "interim %x psk %x epoch %x init %x me %d sign %x\n", g.interimTranscriptHash, g.pskSecret, g.epochSecret, g.initSecret, g.myLeafIndex, g.signaturePriv)
	fmt.Fprintf(&b, "priv %d", len(g.privTree))
	for i, p := range g.privTree {
		if p != nil {
			fmt.Fprintf(&b, " %d=%x", i, []byte(p))
		}
	}
	fmt.Fprintln(&b)
	for _, p := range g.pendingProposals {
		fmt.Fprintf(&b, "pending %x %d %x\n", []byte(p.ref), p.sender, renc(func(w *rw) { w.proposal(p.proposal) }))
	}
	return b.String()
}

func rdiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q string
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("%.300s\n  became\n%.300s", p, q)
		}
	}
	return "(equal)"
}

// rcopyGroup is a deep copy of a group.
func rcopyGroup(g *Group) *Group {
	c := *g
	c.tree = rcopyTree(g.tree)
	c.privTree = make([]hpkePrivateKey, len(g.privTree))
	for i, p := range g.privTree {
		if p != nil {
			c.privTree[i] = append(hpkePrivateKey{}, p...)
		}
	}
	c.pendingProposals = append([]pendingProposal(nil), g.pendingProposals...)
	return &c
}

// Messages made by the reference code in the name of a member.

type rmsgOpts struct {
	private    bool
	generation uint32
	aad        []byte
	padding    int
	padByte    byte
	// tampering
	content   func(c *framedContent)                // before signing
	signKey   []byte                                // another signing key
	ctx       func(c *groupContext)                 // the context that is signed
	after     func(a *authenticatedContent)         // after signing and tagging
	memKey    []byte                                // another membership key
	memCtx    func(c *groupContext)                 // the context under the membership tag
	pub       func(m *publicMessage)                // the final public message
	pm        func(m *privateMessage)               // the final private message
	sd        func(s *senderData)                   // sender data before encryption
	header    func(m *privateMessage)               // the header before the encryption
	label     string                                // signature label
	confirm   func(tag []byte) []byte               // the confirmation tag
	secrets   func(s *rschedule, ctx *groupContext) // expected new epoch
	wf        wireFormat                            // wire format that is signed
	plaintext func(b []byte) []byte                 // encoded private content
}

// rauth signs content in the name of a member.
func rauth(g *Group, c framedContent, o *rmsgOpts) *authenticatedContent {
	wf := wireFormat(1)
	if o.private {
		wf = 2
	}
	if o.content != nil {
		o.content(&c)
	}
	a := &authenticatedContent{wireFormat: wf, content: c}
	swf := wf
	if o.wf != 0 {
		swf = o.wf
	}
	ctx := g.groupContext
	if o.ctx != nil {
		o.ctx(&ctx)
	}
	key := []byte(g.signaturePriv)
	if o.signKey != nil {
		key = o.signKey
	}
	label := "FramedContentTBS"
	if o.label != "" {
		label = o.label
	}
	a.auth.signature = rsign(g.groupContext.cipherSuite, key, label, renc(func(w *rw) { w.framedContentTBS(swf, &c, &ctx) }))
	return a
}

// rframe turns signed content into a message.
func rframe(g *Group, a *authenticatedContent, o *rmsgOpts) []byte {
	cs := g.groupContext.cipherSuite
	if o.after != nil {
		o.after(a)
	}
	if !o.private {
		ctx := g.groupContext
		if o.memCtx != nil {
			o.memCtx(&ctx)
		}
		key := o.memKey
		if key == nil {
			key = rderive(cs, g.epochSecret, "membership")
		}
		m := publicMessage{content: a.content, auth: a.auth}
		if m.content.sender.senderType == 1 {
			m.membershipTag = rmac(cs, key, renc(func(w *rw) {
				w.framedContentTBS(1, &a.content, &ctx)
				w.auth(&a.auth, a.content.contentType)
			}))
		}
		if o.pub != nil {
			o.pub(&m)
		}
		return renc(func(w *rw) { w.u16(1); w.u16(1); w.publicMessage(&m) })
	}
	pc := privateMessageContent{applicationData: a.content.applicationData, proposal: a.content.proposal, commit: a.content.commit, auth: a.auth}
	pt := renc(func(w *rw) { w.privateMessageContent(&pc, a.content.contentType) })
	pad := make([]byte, o.padding)
	if o.padByte != 0 && o.padding > 0 {
		pad[int(o.padByte)%o.padding] = o.padByte
	}
	pt = append(pt, pad...)
	if o.plaintext != nil {
		pt = o.plaintext(pt)
	}
	sd := senderData{leafIndex: a.content.sender.leafIndex, generation: o.generation}
	crand.Read(sd.reuseGuard[:])
	m := privateMessage{groupID: a.content.groupID, epoch: a.content.epoch, contentType: a.content.contentType, authenticatedData: a.content.authenticatedData}
	if o.header != nil {
		o.header(&m)
	}
	n := rleaves(g.tree)
	li := int(sd.leafIndex)
	if li >= n {
		li = 0
	}
	key, nonce, _ := rratchet(cs, rleafSecret(cs, rderive(cs, g.epochSecret, "encryption"), n, li), m.contentType == 1, sd.generation)
	for i := range sd.reuseGuard {
		nonce[i] ^= sd.reuseGuard[i]
	}
	m.ciphertext = raead(cs, key).Seal(nil, nonce, pt, renc(func(w *rw) {
		w.vec(m.groupID)
		w.u64(m.epoch)
		w.u8(uint8(m.contentType))
		w.vec(m.authenticatedData)
	}))
	sample := m.ciphertext
	if len(sample) > rsuites[cs].nh {
		sample = sample[:rsuites[cs].nh]
	}
	sds := rderive(cs, g.epochSecret, "sender data")
	skey := rexpandLabel(cs, sds, "key", sample, rsuites[cs].nk)
	snonce := rexpandLabel(cs, sds, "nonce", sample, rsuites[cs].nn)
	if o.sd != nil {
		o.sd(&sd)
	}
	m.encryptedSenderData = raead(cs, skey).Seal(nil, snonce, renc(func(w *rw) { w.senderData(&sd) }), renc(func(w *rw) {
		w.vec(m.groupID)
		w.u64(m.epoch)
		w.u8(uint8(m.contentType))
	}))
	if o.pm != nil {
		o.pm(&m)
	}
	return renc(func(w *rw) { w.u16(1); w.u16(2); w.privateMessage(&m) })
}

func rcontent(g *Group, ct contentType) framedContent {
	return framedContent{
		groupID: g.groupContext.groupID, epoch: g.groupContext.epoch,
		sender: sender{senderType: 1, leafIndex: g.myLeafIndex}, contentType: ct,
	}
}

// rproposalMsg makes a proposal message and its reference.
func rproposalMsg(g *Group, p *proposal, o *rmsgOpts) (raw []byte, ref []byte) {
	c := rcontent(g, 2)
	c.proposal = p
	c.authenticatedData = o.aad
	a := rauth(g, c, o)
	raw = rframe(g, a, o)
	return raw, rrefHash(g.groupContext.cipherSuite, "MLS 1.0 Proposal Reference", renc(func(w *rw) { w.authenticatedContent(a) }))
}

func rrefHash(cs CipherSuite, label string, value []byte) []byte {
	return rhash(cs, renc(func(w *rw) { w.vec([]byte(label)); w.vec(value) }))
}

// rcommitOpts describes a commit.
type rcommitOpts struct {
	rmsgOpts
	proposals []proposalOrRef
	path      bool
	// tampering
	pathLeaf   func(l *leafNode)                         // before its signature
	pathLeaf2  func(l *leafNode)                         // after its signature
	pathNodes  func(p *updatePath)                       // before the parent hashes
	pathSecret func(i int, s []byte) []byte              // a path secret as encrypted
	pathEnc    func(p *updatePath)                       // after everything else
	leafIndex  *leafIndex                                // position in the signature of the path leaf
	groupID    []byte                                    // group in the signature of the path leaf
	newLeafKey *KeyPairPackage                           // keys of the new leaf
	props      func(c *commit)                           // the commit before signing
	extraNew   map[int]bool                              // do not encrypt to these leaves either
	epochCtx   func(ctx *groupContext)                   // the context of the new epoch
	sign       func(tree []*node, up *updatePath)        // sees the tree before the leaf is signed
	psks       []preSharedKeyID                          //
	pskValues  [][]byte                                  //
	resolved   func() ([]proposal, []leafIndex, []*node) // override the resolution
}

// rcommitResult is a commit with the state it leads to.
type rcommitResult struct {
	raw        []byte
	auth       *authenticatedContent
	commit     *commit
	tree       []*node
	ctx        groupContext
	sched      rschedule
	psk        []byte
	commitSec  []byte
	interim    []byte
	tag        []byte
	added      []int
	filtered   []rspan
	nodePriv   map[int][]byte // private keys of the new path nodes
	pathSecret map[int][]byte // path secret of each node of the filtered direct path
	leafPriv   []byte
	sigPriv    []byte
	props      []proposal
	senders    []leafIndex
}

// rresolveProps resolves references against the pending proposals of a member.
func rresolveProps(g *Group, ps []proposalOrRef) (out []proposal, senders []leafIndex) {
	for _, p := range ps {
		if p.typ == 1 {
			out = append(out, *p.proposal)
			senders = append(senders, g.myLeafIndex)
			continue
		}
		for _, q := range g.pendingProposals {
			if bytes.Equal(q.ref, p.reference) {
				out = append(out, *q.proposal)
				senders = append(senders, q.sender)
				break
			}
		}
	}
	return out, senders
}

// rcommit makes a commit in the name of a member.
func rcommit(g *Group, o *rcommitOpts) *rcommitResult {
	cs := g.groupContext.cipherSuite
	r := &rcommitResult{nodePriv: map[int][]byte{}, pathSecret: map[int][]byte{}}
	c := commit{proposals: o.proposals}
	r.commit = &c
	r.props, r.senders = rresolveProps(g, o.proposals)
	if o.resolved != nil {
		var t []*node
		r.props, r.senders, t = o.resolved()
		r.tree = t
	}
	if r.tree == nil {
		r.tree, r.added = rapply(g.tree, r.props, r.senders)
	}
	me := int(g.myLeafIndex)
	r.ctx = g.groupContext
	r.ctx.epoch++
	r.sigPriv = g.signaturePriv
	if o.path {
		t := r.tree
		up := &updatePath{}
		kp := o.newLeafKey
		if kp == nil {
			kp = rkey(cs, "path")
		}
		old := g.tree[2*me].leafNode
		up.leafNode = *old
		up.leafNode.leafNodeSource = 3
		up.leafNode.lifetime = nil
		up.leafNode.encryptionKey = kp.Public.leafNode.encryptionKey
		r.leafPriv = kp.Private.EncryptionKey
		for _, a := range rpath(t, me) {
			t[a.node()] = nil
		}
		r.filtered = rfiltered(t, me)
		ps := make([]byte, rsuites[cs].nh)
		crand.Read(ps)
		for i, a := range r.filtered {
			if i > 0 {
				ps = rderive(cs, ps, "path")
			}
			r.pathSecret[a.node()] = ps
			pub, priv := rderiveKeyPair(cs, rderive(cs, ps, "node"))
			r.nodePriv[a.node()] = priv
			up.nodes = append(up.nodes, updatePathNode{encryptionKey: pub})
		}
		r.commitSec = rderive(cs, ps, "path")
		if len(r.filtered) == 0 {
			r.commitSec = rderive(cs, ps, "path")
		}
		if o.pathNodes != nil {
			o.pathNodes(up)
		}
		for i, a := range r.filtered {
			if i < len(up.nodes) {
				t[a.node()] = &node{nodeType: 2, parentNode: &parentNode{encryptionKey: up.nodes[i].encryptionKey}}
			}
		}
		// parent hashes from the root down
		var ph []byte
		for i := len(r.filtered) - 1; i >= 0; i-- {
			a := r.filtered[i]
			if t[a.node()] == nil {
				continue
			}
			p := t[a.node()].parentNode
			p.parentHash = ph
			ph = rparentHash(cs, p, rtreeHash(cs, t, rother(a, me), nil))
		}
		up.leafNode.parentHash = ph
		if o.pathLeaf != nil {
			o.pathLeaf(&up.leafNode)
		}
		if o.sign != nil {
			o.sign(t, up)
		}
		gid, li := []byte(g.groupContext.groupID), g.myLeafIndex
		if o.groupID != nil {
			gid = o.groupID
		}
		if o.leafIndex != nil {
			li = *o.leafIndex
		}
		up.leafNode.signature = rsign(cs, r.sigPriv, "LeafNodeTBS", renc(func(w *rw) { w.leafNodeTBS(&up.leafNode, gid, li) }))
		if o.pathLeaf2 != nil {
			o.pathLeaf2(&up.leafNode)
		}
		ln := up.leafNode
		t[2*me] = &node{nodeType: 1, leafNode: &ln}
		r.ctx.treeHash = rrootHash(cs, t)
		raw := renc(func(w *rw) { w.groupContext(&r.ctx) })
		isNew := map[int]bool{}
		for _, l := range r.added {
			isNew[2*l] = true
		}
		for l := range o.extraNew {
			isNew[2*l] = true
		}
		for i, a := range r.filtered {
			if i >= len(up.nodes) {
				break
			}
			for _, x := range rresolve(t, rother(a, me)) {
				if isNew[x] {
					continue
				}
				s := r.pathSecret[a.node()]
				if o.pathSecret != nil {
					s = o.pathSecret(i, s)
				}
				var pub []byte
				if x%2 == 0 {
					pub = t[x].leafNode.encryptionKey
				} else {
					pub = t[x].parentNode.encryptionKey
				}
				up.nodes[i].encryptedPathSecret = append(up.nodes[i].encryptedPathSecret, rseal(cs, pub, "UpdatePathNode", raw, s))
			}
		}
		if o.pathEnc != nil {
			o.pathEnc(up)
		}
		c.path = up
	} else if r.tree != nil {
		r.ctx.treeHash = rrootHash(cs, r.tree)
	}
	if o.props != nil {
		o.props(&c)
	}
	fc := rcontent(g, 3)
	fc.commit = &c
	fc.authenticatedData = o.aad
	a := rauth(g, fc, &o.rmsgOpts)
	r.auth = a
	r.ctx.confirmedTranscriptHash = rconfirmedHash(cs, g.interimTranscriptHash, a)
	if o.epochCtx != nil {
		o.epochCtx(&r.ctx)
	}
	r.psk = rpskSecret(cs, o.psks, o.pskValues)
	r.sched = rkeySchedule(cs, g.initSecret, r.commitSec, r.psk, &r.ctx)
	r.tag = rmac(cs, rderive(cs, r.sched.epoch, "confirm"), r.ctx.confirmedTranscriptHash)
	if o.confirm != nil {
		r.tag = o.confirm(r.tag)
	}
	a.auth.confirmationTag = r.tag
	r.interim = rinterimHash(cs, r.ctx.confirmedTranscriptHash, r.tag)
	r.raw = rframe(g, a, &o.rmsgOpts)
	return r
}

// radvance installs the new epoch in the state of the committer, which the
// library cannot do for commits with a path.
func radvance(g *Group, r *rcommitResult) {
	priv := make([]hpkePrivateKey, len(r.tree))
	for i := range priv {
		if i < len(g.privTree) && r.tree[i] != nil {
			priv[i] = g.privTree[i]
		}
	}
	if r.leafPriv != nil {
		for _, a := range rpath(r.tree, int(g.myLeafIndex)) {
			priv[a.node()] = nil
		}
		for x, p := range r.nodePriv {
			priv[x] = p
		}
		priv[2*g.myLeafIndex] = r.leafPriv
	}
	g.tree = rcopyTree(r.tree)
	g.privTree = priv
	g.groupContext = r.ctx
	g.interimTranscriptHash = r.interim
	g.pskSecret = r.psk
	g.epochSecret = r.sched.epoch
	g.initSecret = r.sched.init
	g.pendingProposals = nil
}

// rwelcome makes a welcome for the key packages added by a commit.
func rwelcome(g *Group, r *rcommitResult, kps []*KeyPackage, psks []preSharedKeyID, edit func(i int, gi *groupInfo)) *Welcome {
	return rwelcomeWith(g, r, kps, psks, edit, nil)
}

func rwelcomeWith(g *Group, r *rcommitResult, kps []*KeyPackage, psks []preSharedKeyID, edit func(i int, gi *groupInfo), sec func(i int, s *groupSecrets)) *Welcome {
	cs := g.groupContext.cipherSuite
	raw := renc(func(w *rw) { w.ratchetTree(r.tree) })
	gi := groupInfo{groupContext: r.ctx, confirmationTag: r.tag, signer: g.myLeafIndex, extensions: []extension{{2, raw}}}
	if edit != nil {
		edit(0, &gi)
	}
	gi.signature = rsign(cs, r.sigPriv, "GroupInfoTBS", renc(func(w *rw) { w.groupInfoTBS(&gi) }))
	if edit != nil {
		edit(1, &gi)
	}
	key := rexpandLabel(cs, r.sched.welcome, "key", nil, rsuites[cs].nk)
	nonce := rexpandLabel(cs, r.sched.welcome, "nonce", nil, rsuites[cs].nn)
	w := &Welcome{cipherSuite: cs, encryptedGroupInfo: raead(cs, key).Seal(nil, nonce, renc(func(w *rw) { w.groupInfo(&gi) }), nil)}
	for i, kp := range kps {
		gs := groupSecrets{joinerSecret: r.sched.joiner, psks: psks}
		if r.commit.path != nil {
			for _, a := range r.filtered {
				if a.has(r.added[i]) {
					gs.pathSecret = r.pathSecret[a.node()]
					break
				}
			}
		}
		if sec != nil {
			sec(i, &gs)
		}
		w.secrets = append(w.secrets, encryptedGroupSecrets{
			newMember:             rrefHash(cs, "MLS 1.0 KeyPackage Reference", renc(func(w *rw) { w.keyPackage(kp) })),
			encryptedGroupSecrets: rseal(cs, kp.initKey, "Welcome", w.encryptedGroupInfo, renc(func(w *rw) { w.groupSecrets(&gs) })),
		})
	}
	return w
}

// rworld is a group with its members.
type rworld struct {
	cs      CipherSuite
	members []*Group // by leaf index, nil for none
	keys    []*KeyPairPackage
}

// rnewWorld builds a group of n members through the reference code or the
// API.
func rnewWorld(cs CipherSuite, id string, n int) *rworld {
	k := rkey(cs, "m0")
	g, err := CreateGroup([]byte(id), k)
	vMust(err)
	w := &rworld{cs: cs, members: []*Group{g}, keys: []*KeyPairPackage{k}}
	if n > 1 {
		var ks []*KeyPairPackage
		for i := 1; i < n; i++ {
			ks = append(ks, rkey(cs, fmt.Sprint("m", i)))
		}
		w.invite(0, ks)
	}
	return w
}

func (w *rworld) set(i int, g *Group, k *KeyPairPackage) {
	for len(w.members) <= i {
		w.members = append(w.members, nil)
		w.keys = append(w.keys, nil)
	}
	w.members[i] = g
	w.keys[i] = k
}

// alive lists the leaf indices of members in order.
func (w *rworld) alive() []int {
	var out []int
	for i, g := range w.members {
		if g != nil {
			out = append(out, i)
		}
	}
	sort.Ints(out)
	return out
}

func (w *rworld) any() *Group { return w.members[w.alive()[0]] }

// invite adds members through the API.
func (w *rworld) invite(by int, ks []*KeyPairPackage) {
	var pubs []KeyPackage
	for _, k := range ks {
		pubs = append(pubs, k.Public)
	}
	wel, msg, err := w.members[by].CreateWelcome(pubs)
	vMust(err)
	for _, i := range w.alive() {
		_, err := w.members[i].UnmarshalAndProcessMessage(msg)
		vMust(err)
	}
	for _, k := range ks {
		g, err := GroupFromWelcome(wel, k)
		vMust(err)
		w.set(int(g.myLeafIndex), g, k)
	}
}

// rinline makes inline proposals.
func rinline(ps ...proposal) []proposalOrRef {
	var out []proposalOrRef
	for i := range ps {
		p := ps[i]
		out = append(out, proposalOrRef{typ: 1, proposal: &p})
	}
	return out
}

func raddProp(k *KeyPackage) proposal { return proposal{proposalType: 1, add: &add{*k}} }
func rremoveProp(i int) proposal {
	return proposal{proposalType: 3, remove: &remove{leafIndex(i)}}
}

// rupdateProp makes an update proposal of a member with its new private key.
func rupdateProp(g *Group) (proposal, []byte) {
	cs := g.groupContext.cipherSuite
	k := rkey(cs, "upd")
	l := *g.tree[2*g.myLeafIndex].leafNode
	l.leafNodeSource = 2
	l.lifetime = nil
	l.parentHash = nil
	l.encryptionKey = k.Public.leafNode.encryptionKey
	l.signature = rsign(cs, g.signaturePriv, "LeafNodeTBS", renc(func(w *rw) { w.leafNodeTBS(&l, g.groupContext.groupID, g.myLeafIndex) }))
	return proposal{proposalType: 2, update: &update{l}}, k.Private.EncryptionKey
}

// rexpect compares a member with the state a commit leads to.
func rexpect(g *Group, r *rcommitResult) {
	vCheck(len(g.tree) == len(r.tree), "tree has %d nodes, want %d", len(g.tree), len(r.tree))
	for i := range r.tree {
		vCheck(requal(g.tree[i], r.tree[i]), "tree node %d is %+v, want %+v", i, g.tree[i], r.tree[i])
	}
	a, b := renc(func(w *rw) { w.groupContext(&g.groupContext) }), renc(func(w *rw) { w.groupContext(&r.ctx) })
	vCheck(bytes.Equal(a, b), "group context is\n%x, want\n%x", a, b)
	vCheck(bytes.Equal(g.epochSecret, r.sched.epoch), "epoch secret differs")
	vCheck(bytes.Equal(g.initSecret, r.sched.init), "init secret differs")
	vCheck(bytes.Equal(g.interimTranscriptHash, r.interim), "interim transcript hash differs")
	vCheck(bytes.Equal(g.pskSecret, r.psk), "PSK secret differs")
	vCheck(len(g.pendingProposals) == 0, "pending proposals are kept")
	vCheck(len(g.privTree) == len(g.tree), "private tree has %d nodes, want %d", len(g.privTree), len(g.tree))
	if r.commit.path != nil {
		for _, a := range r.filtered {
			if a.has(int(g.myLeafIndex)) {
				vCheck(bytes.Equal(g.privTree[a.node()], r.nodePriv[a.node()]), "private key of node %d differs", a.node())
			} else {
				_ = a
			}
		}
	}
}

// rkeysMatch checks that every private key a member holds on its direct path
// belongs to the public key in the tree.
func rkeysMatch(g *Group) {
	cs := g.groupContext.cipherSuite
	for _, x := range append([]int{2 * int(g.myLeafIndex)}, func() (o []int) {
		for _, a := range rpath(g.tree, int(g.myLeafIndex)) {
			o = append(o, a.node())
		}
		return
	}()...) {
		n := g.tree[x]
		if n == nil || g.privTree[x] == nil {
			continue
		}
		k, err := rsuites[cs].kem.Scheme().UnmarshalBinaryPrivateKey(g.privTree[x])
		vMust(err)
		pub, err := k.Public().MarshalBinary()
		vMust(err)
		var want []byte
		if n.leafNode != nil {
			want = n.leafNode.encryptionKey
		} else {
			want = n.parentNode.encryptionKey
			unmerged := false
			for _, l := range n.parentNode.unmergedLeaves {
				unmerged = unmerged || l == g.myLeafIndex
			}
			if unmerged {
				continue
			}
		}
		vCheck(bytes.Equal(pub, want), "private key at node %d does not match the public key", x)
	}
}
