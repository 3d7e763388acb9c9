# The group (RFC 9420 6, 12, 13).
filetags C18

def pendingOk(g, i) = !isnil(g.pendingProposals[i].proposal) && wf(*g.pendingProposals[i].proposal) && member(g.tree, g.pendingProposals[i].sender)

# what holds of a group between operations
def groupOk(g) = ctxOk(g.groupContext) && treeOk(g.tree) && unmergedOk(g.tree) && len(g.privTree) == len(g.tree) && g.myLeafIndex < 0x80000000 && \
  forall(i, 0, len(g.pendingProposals), pendingOk(g, i))
def epochKey(c, s, label) = ds(c, s, label)

# what makes a handshake message of a member authentic
def signedBy(g, ac) = ac.content.sender.senderType == 1 && member(g.tree, ac.content.sender.leafIndex) && \
  ac.content.groupID == g.groupContext.groupID && ac.content.epoch == g.groupContext.epoch && \
  tbsFits(tbsOf(ac.wireFormat, ac.content, g.groupContext)) && \
  sigok(sigOf(g.groupContext.cipherSuite), g.tree[2 * ac.content.sender.leafIndex].leafNode.signatureKey, tbsMsg(ac.wireFormat, ac.content, g.groupContext), ac.auth.signature)

func Group.verifyPublicMessage
tags C11 C18
requires groupOk(*group) && wf(*pubMsg)
ensures implies(ok, !isnil(result))
ensures[C11] implies(ok, result.wireFormat == 1 && result.content == pubMsg.content && result.auth == pubMsg.auth)
ensures[C11] implies(ok, signedBy(*group, *result))
ensures[C11] implies(ok, pubMsg.membershipTag == hmac(hashOf(group.groupContext.cipherSuite), ds(group.groupContext.cipherSuite, group.epochSecret, "membership"), enc(tbmOf(pubMsg.content, pubMsg.auth, group.groupContext))))
ensures[C11] implies(pubMsg.content.groupID == group.groupContext.groupID && pubMsg.content.epoch == group.groupContext.epoch && pubMsg.content.sender.senderType == 1 && \
  member(group.tree, pubMsg.content.sender.leafIndex) && tbsFits(tbsOf(uint16(1), pubMsg.content, group.groupContext)) && \
  sigok(sigOf(group.groupContext.cipherSuite), group.tree[2 * pubMsg.content.sender.leafIndex].leafNode.signatureKey, tbsMsg(uint16(1), pubMsg.content, group.groupContext), pubMsg.auth.signature) && \
  nhOf(group.groupContext.cipherSuite) <= len(group.epochSecret) && fits(tbmOf(pubMsg.content, pubMsg.auth, group.groupContext)) && \
  pubMsg.membershipTag == hmac(hashOf(group.groupContext.cipherSuite), ds(group.groupContext.cipherSuite, group.epochSecret, "membership"), enc(tbmOf(pubMsg.content, pubMsg.auth, group.groupContext))), ok)


func Group.processProposal
tags C12 C14 C18
requires groupOk(*group) && wf(*authContent) && authContent.content.contentType == 2
requires[C11] signedBy(*group, *authContent)
modifies group.pendingProposals
owns group.pendingProposals
ensures[C12] implies(!ok, group.pendingProposals == old(group.pendingProposals))
ensures[C12,C14] implies(ok, group.pendingProposals == cat(old(group.pendingProposals), unit(mk(pendingProposal, propRef(group.groupContext.cipherSuite, *authContent), authContent.content.proposal, authContent.content.sender.leafIndex))))

# the first pending proposal with a reference, the number of proposals if there is none
uf firstRef([]pendingProposal, bytes) uint64 unfold 1
fact firstRef(l, r) = 0 <= firstRef(l, r) && firstRef(l, r) <= len(l)
fact firstRef(l, r) = firstRef(l, r) == len(l) || l[firstRef(l, r)].ref == r
fact firstRef(l, r) = forall(i, 0, firstRef(l, r), l[i].ref != r)

def resolvedAs(p, q, s, pend, i, c) = ite(q[i].typ == 1, p[i] == *q[i].proposal && s[i] == c, \
  firstRef(pend, q[i].reference) < len(pend) && p[i] == *pend[firstRef(pend, q[i].reference)].proposal && s[i] == pend[firstRef(pend, q[i].reference)].sender)

func resolveProposals
tags C14 C18
requires forall(i, 0, len(proposalOrRefs), wf(proposalOrRefs[i]))
requires forall(i, 0, len(pendingProposals), !isnil(pendingProposals[i].proposal) && wf(*pendingProposals[i].proposal))
ensures implies(ok, len(result0) == len(proposalOrRefs) && len(result1) == len(proposalOrRefs))
ensures[C14] implies(ok, forall(i, 0, len(proposalOrRefs), resolvedAs(result0, proposalOrRefs, result1, pendingProposals, i, senderLeafIndex)))
ensures[C14] ok == forall(i, 0, len(proposalOrRefs), implies(proposalOrRefs[i].typ == 2, firstRef(pendingProposals, proposalOrRefs[i].reference) < len(pendingProposals)))
invariant len(proposals) == idx && len(senders) == idx
invariant forall(i, 0, idx, resolvedAs(proposals, proposalOrRefs, senders, pendingProposals, i, senderLeafIndex))
invariant forall(j, 0, idx, pendingProposals[j].ref != propOrRef.reference)

# Outcome of a commit. The functions called are used by their contracts; that
# their preconditions hold here and that nothing panics is left to the bounded run.
func Group.processCommit
partial
tags C08 C11 C12
limit 300
hide ratchetTree.apply#* ratchetTree.mergeUpdatePath#* ratchetTree.decryptPathSecrets#* ratchetTree.keys#* ratchetTree.supportedCreds#* leafNode.verify#* KeyPackage.verify#* \
  ratchetTree.findLeaf#* resolveProposals#* verifyProposalList#* proposalListNeedsPath#* ratchetTree.copy#* treeHash lev
nilable now
requires ctxOk(group.groupContext) && wf(*authContent) && authContent.content.contentType == 3
requires[C11] signedBy(*group, *authContent)
modifies *group
let c = group.groupContext.cipherSuite
let was = old(group.groupContext)
ensures[C12] implies(ok, group.groupContext.epoch == was.epoch + 1)
ensures[C12] implies(ok, group.groupContext.groupID == was.groupID && group.groupContext.version == was.version && group.groupContext.cipherSuite == was.cipherSuite)
ensures[C12] implies(ok, len(group.pendingProposals) == 0 && group.myLeafIndex == old(group.myLeafIndex) && group.signaturePriv == old(group.signaturePriv))
ensures[C12] implies(!ok, group.groupContext == was)
ensures[C12] implies(!ok, group.epochSecret == old(group.epochSecret) && group.initSecret == old(group.initSecret) && group.pskSecret == old(group.pskSecret) && group.interimTranscriptHash == old(group.interimTranscriptHash))
ensures[C12] implies(!ok, group.pendingProposals == old(group.pendingProposals) && group.myLeafIndex == old(group.myLeafIndex) && group.signaturePriv == old(group.signaturePriv))
ensures[C12] implies(!ok, len(group.tree) == len(old(group.tree)) && arr(group.tree) == arr(old(group.tree)))
ensures[C12] implies(!ok, len(group.privTree) == len(old(group.privTree)) && arr(group.privTree) == arr(old(group.privTree)))
ensures[C08,C11] implies(ok, group.groupContext.confirmedTranscriptHash == confirmedOf(c, old(group.interimTranscriptHash), mk(confirmedTranscriptHashInput, authContent.wireFormat, authContent.content, authContent.auth.signature)))
ensures[C08] implies(ok, group.interimTranscriptHash == interimOf(c, group.groupContext.confirmedTranscriptHash, authContent.auth.confirmationTag))
ensures[C08,C11] implies(ok, authContent.auth.confirmationTag == confirmationOf(group.groupContext, group.epochSecret))
ensures[C08] implies(ok, group.initSecret == ds(c, group.epochSecret, "init"))
ensures[C08] implies(ok, group.pskSecret == pskAt(c, pskIDs, psks, len(psks)))
ensures[C08] implies(ok && isnil(authContent.content.commit.path), group.epochSecret == epochOf(group.groupContext, joinerOf(group.groupContext, old(group.initSecret), zeroh(c)), group.pskSecret))

# every field of a group as before
def kept(g, h) = g.groupContext == h.groupContext && g.interimTranscriptHash == h.interimTranscriptHash && g.pskSecret == h.pskSecret && g.epochSecret == h.epochSecret && g.initSecret == h.initSecret && \
  g.myLeafIndex == h.myLeafIndex && g.signaturePriv == h.signaturePriv && len(g.tree) == len(h.tree) && arr(g.tree) == arr(h.tree) && len(g.privTree) == len(h.privTree) && arr(g.privTree) == arr(h.privTree)

func Group.processPublicMessage
tags C11 C12 C18
hide treeHash lev
requires groupOk(*group) && wf(*pubMsg)
modifies *group
owns group.pendingProposals
ensures[C12] implies(!ok, kept(*group, old(*group)) && group.pendingProposals == old(group.pendingProposals))
ensures[C11] implies(ok, pubMsg.content.contentType == 2 || pubMsg.content.contentType == 3)
ensures[C11] implies(ok, signedBy(old(*group), mk(authenticatedContent, uint16(1), pubMsg.content, pubMsg.auth)))
ensures[C11] implies(ok, pubMsg.membershipTag == hmac(hashOf(group.groupContext.cipherSuite), ds(group.groupContext.cipherSuite, old(group.epochSecret), "membership"), enc(tbmOf(pubMsg.content, pubMsg.auth, old(group.groupContext)))))
ensures[C12] implies(ok && pubMsg.content.contentType == 2, kept(*group, old(*group)) && len(group.pendingProposals) == len(old(group.pendingProposals)) + 1)
ensures[C12] implies(ok && pubMsg.content.contentType == 3, group.groupContext.epoch == old(group.groupContext.epoch) + 1 && len(group.pendingProposals) == 0)

# the ratchet secret of a generation
uf ratcheted(uint16, bytes, uint32) bytes unfold 1
fact ratcheted(c, s, g) = ratcheted(c, s, g) == ite(g == 0, s, ewl(c, ratcheted(c, s, g - 1), "secret", be(g - 1), uint16(nhOf(c))))

func Group.processPrivateMessage
tags C10 C11 C12 C18
hide treeHash lev
limit 300
requires groupOk(*group) && wf(*privMsg)
modifies *group
owns group.pendingProposals
let c = old(group.groupContext.cipherSuite)
ensures[C12] implies(!ok, kept(*group, old(*group)) && group.pendingProposals == old(group.pendingProposals))
ensures[C11] implies(ok, privMsg.groupID == old(group.groupContext.groupID) && privMsg.epoch == old(group.groupContext.epoch))
ensures[C10,C11] implies(ok, senderOpens(c, ds(c, old(group.epochSecret), "sender data"), *privMsg))
ensures[C12] implies(ok && privMsg.contentType == 1, kept(*group, old(*group)) && group.pendingProposals == old(group.pendingProposals))
ensures[C12] implies(ok && privMsg.contentType == 2, kept(*group, old(*group)) && len(group.pendingProposals) == len(old(group.pendingProposals)) + 1)
ensures[C12] implies(ok && privMsg.contentType == 3, group.groupContext.epoch == old(group.groupContext.epoch) + 1 && len(group.pendingProposals) == 0)

func Group.encryptPrivateMessage
tags C09 C10 C12 C18
requires groupOk(*group) && wf(*framedContent) && wf(*privContent, framedContent.contentType) && group.myLeafIndex < leavesOf(group.tree)

func Group.CreateApplicationMessage
tags C10 C12 C18
requires groupOk(*group) && group.myLeafIndex < leavesOf(group.tree)

func Group.signPublicMessageMembershipTag
tags C11 C18
requires groupOk(*group) && wf(pubMsg.content) && wf(pubMsg.auth, pubMsg.content.contentType) && pubMsg.content.sender.senderType == 1
modifies pubMsg.membershipTag

func Group.CreateWelcome
expand signPrivateMessageContent signPublicMessage signAuthenticatedContent
partial
tags C12
limit 300
hide ratchetTree.apply#* ratchetTree.copy#* KeyPackage.verify#* treeHash lev
requires groupOk(*group)

# A group joined through a welcome.
func groupFromSecrets
partial
tags C07 C08 C11 C13
limit 300
nilable options
hide treeHash lev linked resolution oneParentHash allSupport allBelow mergedUp mergedTo mergedWell unmergedMembers nodeKeys sigKeys encKeys processPathSecret#* ratchetTree.verifyIntegrity#2 ratchetTree.verifyIntegrity#3 ratchetTree.verifyIntegrity#4 ratchetTree.verifyIntegrity#5 ratchetTree.verifyIntegrity#6 ratchetTree.verifyIntegrity#7 ratchetTree.verifyIntegrity#8
requires known(welcome.cipherSuite)
let c = welcome.cipherSuite
ensures implies(ok, !isnil(result))
ensures[C13] implies(ok, result.groupContext.cipherSuite == c && result.signaturePriv == keyPairPkg.Private.SignatureKey && len(result.pendingProposals) == 0 && len(result.privTree) == len(result.tree))
ensures[C07,C11] implies(ok, result.groupContext.treeHash == treeHash(c, arr(result.tree), leavesOf(result.tree) - 1, emptyset(uint32)))
ensures[C08,C13] implies(ok, result.epochSecret == epochOf(result.groupContext, groupSecrets.joinerSecret, result.pskSecret))
ensures[C08,C13] implies(ok, result.initSecret == ds(c, result.epochSecret, "init"))
ensures[C08,C11,C13] implies(ok, result.interimTranscriptHash == interimOf(c, result.groupContext.confirmedTranscriptHash, confirmationOf(result.groupContext, result.epochSecret)))
ensures[C13] implies(ok, result.tree[2 * result.myLeafIndex].leafNode.encryptionKey == keyPairPkg.Public.leafNode.encryptionKey)

func Group.UnmarshalAndProcessMessage
tags C11 C12 C18
hide treeHash lev
requires groupOk(*group)
modifies *group
owns group.pendingProposals
ensures[C12] implies(!ok, kept(*group, old(*group)) && group.pendingProposals == old(group.pendingProposals))
ensures[C12] implies(ok, group.groupContext.epoch == old(group.groupContext.epoch) || group.groupContext.epoch == old(group.groupContext.epoch) + 1 && len(group.pendingProposals) == 0)
ensures[C12] implies(ok && group.groupContext.epoch == old(group.groupContext.epoch), kept(*group, old(*group)))

func GroupFromWelcome
tags C13 C18
requires known(keyPairPkg.Public.cipherSuite) && wf(keyPairPkg.Public)
ensures implies(ok, !isnil(result))
ensures[C13] implies(ok, result.groupContext.cipherSuite == keyPairPkg.Public.cipherSuite && result.signaturePriv == keyPairPkg.Private.SignatureKey && len(result.pendingProposals) == 0)
ensures[C13] implies(ok, result.tree[2 * result.myLeafIndex].leafNode.encryptionKey == keyPairPkg.Public.leafNode.encryptionKey)
ensures[C13] implies(ok, result.initSecret == ds(result.groupContext.cipherSuite, result.epochSecret, "init"))

func CreateGroup
tags C08 C13 C18
hide treeHash lev
requires known(keyPairPkg.Public.cipherSuite) && wf(keyPairPkg.Public)
ensures implies(ok, !isnil(result))
ensures[C13] implies(ok, result.groupContext.cipherSuite == keyPairPkg.Public.cipherSuite && result.groupContext.groupID == groupID && result.groupContext.epoch == 0 && len(result.groupContext.confirmedTranscriptHash) == 0)
ensures[C13] implies(ok, len(result.tree) == 1 && !isnil(result.tree[0]) && *result.tree[0].leafNode == keyPairPkg.Public.leafNode && result.myLeafIndex == 0 && len(result.privTree) == 1 && result.signaturePriv == keyPairPkg.Private.SignatureKey)
ensures[C08] implies(ok, result.initSecret == ds(result.groupContext.cipherSuite, result.epochSecret, "init"))
ensures[C08] implies(ok, result.interimTranscriptHash == interimOf(result.groupContext.cipherSuite, empty(), confirmationOf(result.groupContext, result.epochSecret)))
ensures[C08] implies(ok, result.groupContext.treeHash == treeHash(result.groupContext.cipherSuite, arr(result.tree), uint32(0), emptyset(uint32)))
