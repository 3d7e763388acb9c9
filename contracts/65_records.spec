# Signed and sealed records: leaf nodes, key packages, group info, welcome.
filetags C18

# ---- leaf nodes (7.2, 7.3) ----

def leafTBS(node, gid, li) = mk(leafNodeTBS, some(node), gid, li)
def leafMsg(node, gid, li) = labelled("LeafNodeTBS", enc(leafTBS(node, gid, li)))
def leafSigned(c, node, gid, li) = tbsFits(leafTBS(node, gid, li)) && sigok(sigOf(c), node.signatureKey, leafMsg(node, gid, li), node.signature)

func leafNode.sign
tags C16 C17 C18
requires known(cs) && wf(*node)
modifies node.signature
ensures[C17] ok == (tbsFits(leafTBS(old(*node), groupID, li)) && cansign(sigOf(cs), signerPriv))
ensures[C17] implies(ok, signed(sigOf(cs), signerPriv, leafMsg(old(*node), groupID, li), node.signature))

func leafNode.verifySignature
tags C16 C17 C18
requires known(cs) && wf(*node)
ensures[C16,C17] result == leafSigned(cs, *node, groupID, li)

# ---- key packages (10) ----

def kpMsg(p) = labelled("KeyPackageTBS", kpTBS(p))
def kpFits(p) = fitsof(kpTBS(p)) && fitsv(kpTBS(p))
def kpSigned(p) = kpFits(p) && sigok(sigOf(p.cipherSuite), p.leafNode.signatureKey, kpMsg(p), p.signature)

func KeyPackage.sign
tags C16 C17 C18
requires known(pkg.cipherSuite) && wf(*pkg)
modifies pkg.signature
ensures[C17] ok == (kpFits(old(*pkg)) && cansign(sigOf(pkg.cipherSuite), signerPriv))
ensures[C17] implies(ok, signed(sigOf(pkg.cipherSuite), signerPriv, kpMsg(old(*pkg)), pkg.signature))

func KeyPackage.verifySignature
tags C16 C17 C18
requires known(pkg.cipherSuite) && wf(*pkg)
ensures[C16,C17] result == kpSigned(*pkg)

def kpValid(p, ctx) = p.version == ctx.version && p.cipherSuite == ctx.cipherSuite && p.leafNode.leafNodeSource == 1 && kpSigned(p) && p.leafNode.encryptionKey != p.initKey

func KeyPackage.verify
tags C14 C16 C17 C18
requires known(ctx.cipherSuite) && wf(*pkg)
ensures[C16] ok == kpValid(*pkg, *ctx)

func KeyPackage.GenerateRef
tags C13 C17 C18
requires wf(*pkg)
ensures[C17] ok == (known(pkg.cipherSuite) && fits(*pkg) && fitsv(enc(*pkg)))
ensures[C17] implies(ok, result == refhash(pkg.cipherSuite, "MLS 1.0 KeyPackage Reference", enc(*pkg)))

# ---- group info and welcome (12.4.3) ----

def infoMsg(i) = labelled("GroupInfoTBS", infoTBS(i))
def infoFits(i) = fitsof(infoTBS(i)) && fitsv(infoTBS(i))

func groupInfo.verifySignature
tags C11 C13 C17 C18
requires wf(*info) && known(info.groupContext.cipherSuite)
ensures[C17] result == (infoFits(*info) && sigok(sigOf(info.groupContext.cipherSuite), signerPub, infoMsg(*info), info.signature))

func groupInfo.sign
tags C13 C17 C18
requires wf(*info) && known(info.groupContext.cipherSuite)
modifies info.signature
ensures[C17] ok == (infoFits(old(*info)) && cansign(sigOf(info.groupContext.cipherSuite), signerPriv))
ensures[C17] implies(ok, signed(sigOf(info.groupContext.cipherSuite), signerPriv, infoMsg(old(*info)), info.signature))

func groupInfo.verifyConfirmationTag
tags C08 C11 C13 C18
requires ctxOk(info.groupContext)
ensures[C08,C11] result == (encodes(info.groupContext) && \
  info.confirmationTag == confirmationOf(info.groupContext, epochOf(info.groupContext, joinerSecret, pskOr(pskSecret, info.groupContext.cipherSuite))))

def welcomeKey(c, ws) = ewl(c, ws, "key", empty(), uint16(nk(aeadOf(c))))
def welcomeNonce(c, ws) = ewl(c, ws, "nonce", empty(), uint16(nn(aeadOf(c))))
def welcomeSeal(c, ws, pt) = seal(aeadOf(c), welcomeKey(c, ws), welcomeNonce(c, ws), pt, empty())
def welcomeOpens(c, ws, ct) = opens(aeadOf(c), welcomeKey(c, ws), welcomeNonce(c, ws), ct, empty())
def welcomeOpen(c, ws, ct) = open(aeadOf(c), welcomeKey(c, ws), welcomeNonce(c, ws), ct, empty())

func groupInfo.encrypt
tags C08 C13 C18
requires wf(*info) && known(info.groupContext.cipherSuite)
ensures[C08,C13] ok == fits(*info)
ensures[C08,C13] implies(ok, result == welcomeSeal(info.groupContext.cipherSuite, welcomeOf(info.groupContext.cipherSuite, joinerSecret, pskOr(pskSecret, info.groupContext.cipherSuite)), enc(*info)))

func Welcome.decryptGroupInfo
tags C08 C13 C18
requires known(w.cipherSuite)
ensures implies(ok, !isnil(result) && wf(*result) && fits(*result))
ensures[C08,C13] implies(ok, welcomeOpens(w.cipherSuite, welcomeOf(w.cipherSuite, joinerSecret, pskOr(pskSecret, w.cipherSuite)), w.encryptedGroupInfo))
ensures[C08,C13] implies(ok, enc(*result) == welcomeOpen(w.cipherSuite, welcomeOf(w.cipherSuite, joinerSecret, pskOr(pskSecret, w.cipherSuite)), w.encryptedGroupInfo))

func Welcome.decryptGroupInfo variant round_trip
tags C13
ghost info groupInfo
requires known(w.cipherSuite) && wf(info) && fits(info)
requires w.encryptedGroupInfo == welcomeSeal(w.cipherSuite, welcomeOf(w.cipherSuite, joinerSecret, pskOr(pskSecret, w.cipherSuite)), enc(info))
ensures ok && *result == info

func groupSecrets.encrypt
tags C13 C17 C18
requires known(cs) && wf(*sec)
ensures implies(ok, !isnil(result))
ensures[C13,C17] implies(ok, sealed(suiteOf(cs), initKey, labelled("Welcome", encryptedGroupInfo), empty(), enc(*sec), result.kemOutput, result.ciphertext))

def firstSecret(w, ref, i) = 0 <= i && i < len(w.secrets) && w.secrets[i].newMember == ref && forall(j, 0, i, w.secrets[j].newMember != ref)

func Welcome.findSecret
tags C13 C18
ensures[C13] implies(isnil(result), forall(j, 0, len(w.secrets), w.secrets[j].newMember != ref))
ensures[C13] implies(!isnil(result), result.newMember == ref)
invariant forall(j, 0, idx, w.secrets[j].newMember != ref)

# ---- path secrets (7.4, 7.5) ----

func nodePrivFromPathSecret
tags C15 C18
requires known(cs)
ensures[C15] implies(ok, nhOf(cs) <= len(pathSecret))
ensures implies(ok, !isnil(result))
ensures[C15] implies(ok, result == dkpriv(kemOf(cs), ds(cs, pathSecret, "node")) && nodePub == pubof(kemOf(cs), result))

func decryptPathSecret
tags C15 C17 C18
requires known(cs) && wf(*ctx)
ensures[C15,C17] implies(ok, fits(*ctx) && hpkeopens(suiteOf(cs), pubof(kemOf(cs), nodePriv), labelled("UpdatePathNode", enc(*ctx)), empty(), ciphertext.kemOutput, ciphertext.ciphertext))
ensures[C15,C17] implies(ok, result == hpkeopen(suiteOf(cs), pubof(kemOf(cs), nodePriv), labelled("UpdatePathNode", enc(*ctx)), empty(), ciphertext.kemOutput, ciphertext.ciphertext))

# ---- leaf validation (7.3) ----
# Times are abstract; a clock function is taken to report one time per call.

uf unixtime(uint64, uint64) U.time.Time
uf timesub(U.time.Time, U.time.Time) uint64
uf timeafter(U.time.Time, U.time.Time) bool
uf timeiszero(U.time.Time) bool

def ltAt(s) = unixtime(s, 0)
def ltValid(l, t) = 0 < timesub(ltAt(l.notAfter), ltAt(l.notBefore)) && timesub(ltAt(l.notAfter), ltAt(l.notBefore)) <= 7776000000000000 && \
  timeafter(t, ltAt(l.notBefore)) && timeafter(ltAt(l.notAfter), t)

func lifetime.verify
tags C16 C18
ensures[C16] result == ltValid(*lt, t)

def leafExts(n) = forall(i, 0, len(n.extensions), contains(n.capabilities.extensions, n.extensions[i].extensionType))

func leafNode.verify
tags C16 C18
requires known(options.cipherSuite) && wf(*node)
let t = clock(options.now)
ensures[C16] implies(ok, leafSigned(options.cipherSuite, *node, options.groupID, options.leafIndex))
ensures[C16] implies(ok, options.supportedCreds[node.credential.credentialType])
ensures[C16] implies(ok && !isnil(node.lifetime) && !timeiszero(t), ltValid(*node.lifetime, t))
ensures[C16] implies(ok, leafExts(*node))
ensures[C16] implies(ok, !options.signatureKeys[node.signatureKey] && !options.encryptionKeys[node.encryptionKey])
invariant forall(y, uint16, supportedExts[y] == contains(take(node.capabilities.extensions, idx), y))
invariant forall(i, 0, idx, contains(node.capabilities.extensions, node.extensions[i].extensionType))
