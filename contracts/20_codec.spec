# Wire format (RFC 9420 presentation language). enc T(x) is the encoding the
# RFC specifies for a value of type T; wf T(x) says which values have one.
filetags C01 C02 C03

func readVarint
unroll 4
decoder vi(uint64(x))

func writeVarint
encoder vi(uint64(n))

func readOpaqueVec
decoder opq(x)

func writeOpaqueVec
encoder opq(x)

# ---- credentials, ciphertexts (RFC 9420 5.3, 5.1.3) ----

enc Credential(x) = cat(be(x.credentialType), ite(x.credentialType == 1, opq(x.identity), vec(x.certificates)))
wf Credential(x) = (x.credentialType == 1 && len(x.certificates) == 0) || (x.credentialType == 2 && len(x.identity) == 0)
func Credential.unmarshal
decoder
func Credential.marshal
encoder

enc hpkeCiphertext(x) = cat(opq(x.kemOutput), opq(x.ciphertext))
func hpkeCiphertext.unmarshal
decoder
func hpkeCiphertext.marshal
encoder

# ---- framing (6) ----

enc sender(x) = cat(be(x.senderType), ite(x.senderType == 1, be(x.leafIndex), ite(x.senderType == 2, be(x.senderIndex), empty())))
wf sender(x) = 1 <= x.senderType && x.senderType <= 4 && implies(x.senderType != 1, x.leafIndex == 0) && implies(x.senderType != 2, x.senderIndex == 0)
func sender.unmarshal
decoder
func sender.marshal
encoder

enc framedContent(x) = cat(opq(x.groupID), be(x.epoch), enc(x.sender), opq(x.authenticatedData), be(x.contentType), \
  ite(x.contentType == 1, opq(x.applicationData), ite(x.contentType == 2, enc(*x.proposal), enc(*x.commit))))
wf framedContent(x) = 1 <= x.contentType && x.contentType <= 3 && implies(x.contentType != 1, len(x.applicationData) == 0) && \
  isnil(x.proposal) == (x.contentType != 2) && isnil(x.commit) == (x.contentType != 3)
func framedContent.unmarshal
decoder
func framedContent.marshal
encoder

enc mlsMessage(x) = cat(be(x.version), be(x.wireFormat), \
  ite(x.wireFormat == 1, enc(*x.publicMessage), ite(x.wireFormat == 2, enc(*x.privateMessage), ite(x.wireFormat == 3, enc(*x.welcome), \
  ite(x.wireFormat == 4, enc(*x.groupInfo), enc(*x.keyPackage))))))
wf mlsMessage(x) = x.version == 1 && 1 <= x.wireFormat && x.wireFormat <= 5 && \
  isnil(x.publicMessage) == (x.wireFormat != 1) && isnil(x.privateMessage) == (x.wireFormat != 2) && \
  isnil(x.welcome) == (x.wireFormat != 3) && isnil(x.groupInfo) == (x.wireFormat != 4) && isnil(x.keyPackage) == (x.wireFormat != 5)
func mlsMessage.unmarshal
decoder
func mlsMessage.marshal
encoder

enc framedContentAuthData(x, ct) = cat(opq(x.signature), ite(ct == 3, opq(x.confirmationTag), empty()))
wf framedContentAuthData(x, ct) = implies(ct != 3, len(x.confirmationTag) == 0)
func framedContentAuthData.unmarshal
decoder
func framedContentAuthData.marshal
encoder

enc authenticatedContent(x) = cat(be(x.wireFormat), enc(x.content), enc(x.auth, x.content.contentType))
wf authenticatedContent(x) = 1 <= x.wireFormat && x.wireFormat <= 5
func authenticatedContent.unmarshal
decoder
func authenticatedContent.marshal
encoder

enc framedContentTBS(x) = cat(be(x.version), be(x.wireFormat), enc(x.content), \
  ite(x.content.sender.senderType == 1 || x.content.sender.senderType == 4, enc(*x.context), empty()))
wf framedContentTBS(x) = implies(x.content.sender.senderType == 1 || x.content.sender.senderType == 4, !isnil(x.context))
func framedContentTBS.marshal
encoder

enc publicMessage(x) = cat(enc(x.content), enc(x.auth, x.content.contentType), ite(x.content.sender.senderType == 1, opq(x.membershipTag), empty()))
wf publicMessage(x) = implies(x.content.sender.senderType != 1, len(x.membershipTag) == 0)
func publicMessage.unmarshal
decoder
func publicMessage.marshal
encoder

enc authenticatedContentTBM(x) = cat(enc(x.contentTBS), enc(x.auth, x.contentTBS.content.contentType))
func authenticatedContentTBM.marshal
encoder

enc privateMessage(x) = cat(opq(x.groupID), be(x.epoch), be(x.contentType), opq(x.authenticatedData), opq(x.encryptedSenderData), opq(x.ciphertext))
wf privateMessage(x) = 1 <= x.contentType && x.contentType <= 3
func privateMessage.unmarshal
decoder
func privateMessage.marshal
encoder

enc senderDataAAD(x) = cat(opq(x.groupID), be(x.epoch), be(x.contentType))
func senderDataAAD.marshal
encoder

enc privateContentAAD(x) = cat(opq(x.groupID), be(x.epoch), be(x.contentType), opq(x.authenticatedData))
func privateContentAAD.marshal
encoder

enc privateMessageContent(x, ct) = cat(ite(ct == 1, opq(x.applicationData), ite(ct == 2, enc(*x.proposal), enc(*x.commit))), enc(x.auth, ct))
wf privateMessageContent(x, ct) = 1 <= ct && ct <= 3 && implies(ct != 1, len(x.applicationData) == 0) && \
  isnil(x.proposal) == (ct != 2) && isnil(x.commit) == (ct != 3)
func privateMessageContent.unmarshal
requires 1 <= ct && ct <= 3
decoder
func privateMessageContent.marshal
encoder

enc senderData(x) = cat(be(x.leafIndex), be(x.generation), x.reuseGuard)
wf senderData(x) = len(x.reuseGuard) == 4
func senderData.unmarshal
decoder
func senderData.marshal
encoder

# ---- commits, group info, welcome (12.4) ----

enc commit(x) = cat(vec(x.proposals), opt(x.path))
func commit.unmarshal
decoder
func commit.marshal
encoder

def infoTBS(x) = cat(enc(x.groupContext), vec(x.extensions), opq(x.confirmationTag), be(x.signer))
enc groupInfo(x) = cat(infoTBS(x), opq(x.signature))
func groupInfo.unmarshal
decoder
func groupInfo.marshal
encoder
func groupInfoTBS.marshal
encoder infoTBS(x)

enc groupSecrets(x) = cat(opq(x.joinerSecret), opt(x.pathSecret), vec(x.psks))
func groupSecrets.unmarshal
decoder
func groupSecrets.marshal
encoder

enc encryptedGroupSecrets(x) = cat(opq(x.newMember), enc(x.encryptedGroupSecrets))
func encryptedGroupSecrets.unmarshal
decoder
func encryptedGroupSecrets.marshal
encoder

enc Welcome(x) = cat(be(x.cipherSuite), vec(x.secrets), opq(x.encryptedGroupInfo))
func Welcome.unmarshal
decoder
func Welcome.marshal
encoder

# ---- key packages (10) ----

def kpTBS(x) = cat(be(x.version), be(x.cipherSuite), opq(x.initKey), enc(x.leafNode), vec(x.extensions))
enc KeyPackage(x) = cat(kpTBS(x), opq(x.signature))
wf KeyPackage(x) = x.version == 1
func KeyPackage.unmarshal
decoder
func KeyPackage.marshal
encoder
func KeyPackage.marshalTBS
encoder kpTBS(x)

# ---- key schedule inputs (8) ----

enc groupContext(x) = cat(be(x.version), be(x.cipherSuite), opq(x.groupID), be(x.epoch), opq(x.treeHash), opq(x.confirmedTranscriptHash), vec(x.extensions))
wf groupContext(x) = x.version == 1
func groupContext.unmarshal
decoder
func groupContext.marshal
tags C01 C02 C03 C08
encoder

enc confirmedTranscriptHashInput(x) = cat(be(x.wireFormat), enc(x.content), opq(x.signature))
wf confirmedTranscriptHashInput(x) = x.content.contentType == 3
func confirmedTranscriptHashInput.marshal
tags C01 C02 C03 C08
encoder

enc preSharedKeyID(x) = cat(be(x.pskType), ite(x.pskType == 1, opq(x.pskID), cat(be(x.usage), opq(x.pskGroupID), be(x.pskEpoch))), opq(x.pskNonce))
wf preSharedKeyID(x) = (x.pskType == 1 && x.usage == 0 && len(x.pskGroupID) == 0 && x.pskEpoch == 0) || \
  (x.pskType == 2 && len(x.pskID) == 0 && 1 <= x.usage && x.usage <= 3)
func preSharedKeyID.unmarshal
decoder
func preSharedKeyID.marshal
tags C01 C02 C03 C08
encoder

enc pskLabel(x) = cat(enc(x.id), be(x.index), be(x.count))
func pskLabel.marshal
tags C01 C02 C03 C08
encoder

# ---- proposals (12.1) ----

enc proposal(x) = cat(be(x.proposalType), ite(x.proposalType == 1, enc(*x.add), ite(x.proposalType == 2, enc(*x.update), \
  ite(x.proposalType == 3, enc(*x.remove), ite(x.proposalType == 4, enc(*x.preSharedKey), ite(x.proposalType == 5, enc(*x.reInit), \
  ite(x.proposalType == 6, enc(*x.externalInit), enc(*x.groupContextExtensions))))))))
wf proposal(x) = 1 <= x.proposalType && x.proposalType <= 7 && isnil(x.add) == (x.proposalType != 1) && isnil(x.update) == (x.proposalType != 2) && \
  isnil(x.remove) == (x.proposalType != 3) && isnil(x.preSharedKey) == (x.proposalType != 4) && isnil(x.reInit) == (x.proposalType != 5) && \
  isnil(x.externalInit) == (x.proposalType != 6) && isnil(x.groupContextExtensions) == (x.proposalType != 7)
func proposal.unmarshal
decoder
func proposal.marshal
encoder

enc add(x) = enc(x.keyPackage)
func add.unmarshal
decoder
func add.marshal
encoder

enc update(x) = enc(x.leafNode)
func update.unmarshal
decoder
func update.marshal
encoder

enc remove(x) = be(x.removed)
func remove.unmarshal
decoder
func remove.marshal
encoder

enc preSharedKey(x) = enc(x.psk)
func preSharedKey.unmarshal
decoder
func preSharedKey.marshal
encoder

enc reInit(x) = cat(opq(x.groupID), be(x.version), be(x.cipherSuite), vec(x.extensions))
func reInit.unmarshal
decoder
func reInit.marshal
encoder

enc externalInit(x) = opq(x.kemOutput)
func externalInit.unmarshal
decoder
func externalInit.marshal
encoder

enc groupContextExtensions(x) = vec(x.extensions)
func groupContextExtensions.unmarshal
decoder
func groupContextExtensions.marshal
encoder

enc proposalOrRef(x) = cat(be(x.typ), ite(x.typ == 1, enc(*x.proposal), opq(x.reference)))
wf proposalOrRef(x) = (x.typ == 1 && !isnil(x.proposal) && len(x.reference) == 0) || (x.typ == 2 && isnil(x.proposal))
func proposalOrRef.unmarshal
decoder
func proposalOrRef.marshal
encoder

# ---- tree (7) ----

enc parentNode(x) = cat(opq(x.encryptionKey), opq(x.parentHash), vec(x.unmergedLeaves))
func parentNode.unmarshal
decoder
func parentNode.marshal
encoder

enc capabilities(x) = cat(vec(x.versions), vec(x.cipherSuites), vec(x.extensions), vec(x.proposals), vec(x.credentials))
func capabilities.unmarshal
decoder
func capabilities.marshal
encoder

enc lifetime(x) = cat(be(x.notBefore), be(x.notAfter))
func lifetime.unmarshal
decoder
func lifetime.marshal
encoder

enc extension(x) = cat(be(x.extensionType), opq(x.extensionData))

def leafBase(x) = cat(opq(x.encryptionKey), opq(x.signatureKey), enc(x.credential), enc(x.capabilities), be(x.leafNodeSource), \
  ite(x.leafNodeSource == 1, enc(*x.lifetime), ite(x.leafNodeSource == 3, opq(x.parentHash), empty())), vec(x.extensions))
enc leafNode(x) = cat(leafBase(x), opq(x.signature))
wf leafNode(x) = 1 <= x.leafNodeSource && x.leafNodeSource <= 3 && isnil(x.lifetime) == (x.leafNodeSource != 1) && implies(x.leafNodeSource != 3, len(x.parentHash) == 0)
func leafNode.unmarshal
decoder
func leafNode.marshal
encoder
func leafNode.marshalBase
requires isnil(node.lifetime) == (node.leafNodeSource != 1)
encoder leafBase(x)

enc leafNodeTBS(x) = cat(leafBase(*x.leafNode), ite(x.leafNode.leafNodeSource == 2 || x.leafNode.leafNodeSource == 3, cat(opq(x.groupID), be(x.leafIndex)), empty()))
wf leafNodeTBS(x) = !isnil(x.leafNode) && isnil(x.leafNode.lifetime) == (x.leafNode.leafNodeSource != 1)
func leafNodeTBS.marshal
encoder

enc updatePathNode(x) = cat(opq(x.encryptionKey), vec(x.encryptedPathSecret))
func updatePathNode.unmarshal
decoder
func updatePathNode.marshal
encoder

enc updatePath(x) = cat(enc(x.leafNode), vec(x.nodes))
func updatePath.unmarshal
decoder
func updatePath.marshal
encoder

enc node(x) = cat(be(x.nodeType), ite(x.nodeType == 1, enc(*x.leafNode), enc(*x.parentNode)))
wf node(x) = (x.nodeType == 1 && !isnil(x.leafNode) && isnil(x.parentNode)) || (x.nodeType == 2 && isnil(x.leafNode) && !isnil(x.parentNode))
func node.unmarshal
decoder
func node.marshal
encoder

uf trimlen([]*node) int
fact trimlen(l) = 0 <= trimlen(l) && trimlen(l) <= len(l)
fact trimlen(l) = implies(trimlen(l) != 0, !isnil(l[trimlen(l) - 1]))
fact trimlen(l) = forall(i, trimlen(l), len(l), isnil(l[i]))
def nodeAt(l, i) = isnil(l[i]) || (l[i].nodeType == 1) == (i & 1 == 0)
def treewf(l) = len(l) < 0xffffffff && (len(l) + 1) & len(l) == 0 && trimlen(l) != 0 && len(l) < 2 * trimlen(l) && forall(i, 0, len(l), nodeAt(l, i))

# fill(n): the smallest number 2^k-1 not below n
def sm1(n) = n | (n >> 1)
def sm2(n) = sm1(n) | (sm1(n) >> 2)
def sm4(n) = sm2(n) | (sm2(n) >> 4)
def sm8(n) = sm4(n) | (sm4(n) >> 8)
def fill(n) = sm8(n) | (sm8(n) >> 16)

func ratchetTree.unmarshal
decoder opq(encl(take(x, trimlen(x))))
wellformed treewf(x)
invariant forall(i, 0, len(*tree), nodeAt(*tree, i))
invariant atentry(len(*tree)) <= len(*tree)
invariant len(*tree) <= 0x3fffffff
invariant len(*tree) <= fill(atentry(len(*tree)))
invariant forall(i, 0, atentry(len(*tree)), (*tree)[i] == atentry((*tree)[i]))
invariant forall(i, atentry(len(*tree)), len(*tree), isnil((*tree)[i]))
measure fill(atentry(len(*tree))) - len(*tree)

func ratchetTree.marshal
encoder opq(encl(take(x, trimlen(x))))
wellformed treewf(x)
invariant forall(i, end, len(tree), isnil(tree[i]))
invariant 0 <= end && end <= len(tree)

# ---- entry points ----

func UnmarshalWelcome
parser enc(mk(mlsMessage, 1, 3, none(publicMessage), none(privateMessage), some(x), none(groupInfo), none(KeyPackage)))
func UnmarshalKeyPackage
parser enc(mk(mlsMessage, 1, 5, none(publicMessage), none(privateMessage), none(Welcome), none(groupInfo), some(x)))

func Welcome.Bytes
requires wf(*w) && fits(*w)
ensures[C02] result == cat(be(uint16(1)), be(uint16(3)), enc(*w))
func KeyPackage.Bytes
requires wf(*pkg) && fits(*pkg)
ensures[C02] result == cat(be(uint16(1)), be(uint16(5)), enc(*pkg))
