# Message protection (RFC 9420 6).
filetags C18

# ---- private messages (6.3) ----

def contentAAD(m) = enc(mk(privateContentAAD, m.groupID, m.epoch, m.contentType, m.authenticatedData))
def senderAAD(m) = enc(mk(senderDataAAD, m.groupID, m.epoch, m.contentType))
def contentSeal(c, r, g, pt, m) = seal(aeadOf(c), rkey(c, r), guarded(rnonce(c, r), g), pt, contentAAD(m))
def contentOpens(c, r, g, m) = opens(aeadOf(c), rkey(c, r), guarded(rnonce(c, r), g), m.ciphertext, contentAAD(m))
def contentOpen(c, r, g, m) = open(aeadOf(c), rkey(c, r), guarded(rnonce(c, r), g), m.ciphertext, contentAAD(m))
def senderSeal(c, secret, sd, m, ct) = seal(aeadOf(c), sdkey(c, secret, ct), sdnonce(c, secret, ct), enc(sd), senderAAD(m))
def senderOpens(c, secret, m) = opens(aeadOf(c), sdkey(c, secret, m.ciphertext), sdnonce(c, secret, m.ciphertext), m.encryptedSenderData, senderAAD(m))
def senderOpen(c, secret, m) = open(aeadOf(c), sdkey(c, secret, m.ciphertext), sdnonce(c, secret, m.ciphertext), m.encryptedSenderData, senderAAD(m))

func encryptPrivateMessageContent
tags C09 C10 C18
requires known(cs) && wf(*privContent, content.contentType) && len(reuseGuard) == 4
ensures[C09,C10] implies(ok, result == contentSeal(cs, secret, reuseGuard, enc(*privContent, content.contentType), *content))
ensures[C10] ok == (nhOf(cs) <= len(secret.secret) && fits(*privContent, content.contentType) && fitsv(content.groupID) && fitsv(content.authenticatedData))

func encryptSenderData
tags C09 C10 C18
requires known(cs) && wf(*senderData)
ensures[C09,C10] implies(ok, result == senderSeal(cs, senderDataSecret, *senderData, *content, ciphertext))
ensures[C10] ok == (nhOf(cs) <= len(senderDataSecret) && fitsv(content.groupID))

func encryptPrivateMessage
tags C09 C10 C18
requires known(cs) && wf(*privContent, content.contentType) && wf(*senderData)
ensures implies(ok, !isnil(result))
ensures[C10] ok == (nhOf(cs) <= len(secret.secret) && nhOf(cs) <= len(senderDataSecret) && fits(*privContent, content.contentType) && fitsv(content.groupID) && fitsv(content.authenticatedData))
ensures[C10] implies(ok, result.groupID == content.groupID && result.epoch == content.epoch && result.contentType == content.contentType && result.authenticatedData == content.authenticatedData)
ensures[C09,C10] implies(ok, result.ciphertext == contentSeal(cs, secret, senderData.reuseGuard, enc(*privContent, content.contentType), *content))
ensures[C09,C10] implies(ok, result.encryptedSenderData == senderSeal(cs, senderDataSecret, *senderData, *content, result.ciphertext))

func privateMessage.decryptSenderData
tags C09 C10 C11 C18
requires known(cs)
ensures implies(ok, !isnil(result))
ensures[C10,C11] implies(ok, nhOf(cs) <= len(senderDataSecret) && fitsv(msg.groupID))
ensures[C09,C10,C11] implies(ok, senderOpens(cs, senderDataSecret, *msg))
ensures[C09,C10,C11] implies(ok, wf(*result) && senderOpen(cs, senderDataSecret, *msg) == enc(*result))

func privateMessage.decryptContent
tags C09 C10 C11 C18
requires known(cs) && 1 <= msg.contentType && msg.contentType <= 3 && len(reuseGuard) == 4
ensures implies(ok, !isnil(result))
ensures[C09,C10,C11] implies(ok, contentOpens(cs, secret, reuseGuard, *msg))
ensures[C10,C11] implies(ok, wf(*result, msg.contentType) && fits(*result, msg.contentType))
ensures[C10,C11] implies(ok, take(contentOpen(cs, secret, reuseGuard, *msg), len(enc(*result, msg.contentType))) == enc(*result, msg.contentType))
ensures[C10] implies(ok, forall(i, len(enc(*result, msg.contentType)), len(contentOpen(cs, secret, reuseGuard, *msg)), contentOpen(cs, secret, reuseGuard, *msg)[i] == 0))
invariant forall(j, 0, idx, s[j] == 0)

# whatever was sealed is opened with the same keys
func privateMessage.decryptSenderData variant round_trip
tags C10
ghost sd senderData
requires known(cs) && wf(sd) && fitsv(msg.groupID) && nhOf(cs) <= len(senderDataSecret)
requires msg.encryptedSenderData == senderSeal(cs, senderDataSecret, sd, *msg, msg.ciphertext)
ensures ok && *result == sd

func privateMessage.decryptContent variant round_trip
tags C10
ghost pc privateMessageContent
requires known(cs) && len(reuseGuard) == 4 && 1 <= msg.contentType && msg.contentType <= 3 && wf(pc, msg.contentType) && fits(pc, msg.contentType)
requires fitsv(msg.groupID) && fitsv(msg.authenticatedData) && nhOf(cs) <= len(secret.secret)
requires msg.ciphertext == contentSeal(cs, secret, reuseGuard, enc(pc, msg.contentType), *msg)
ensures ok && *result == pc

lemma sender_data_always_fits(sd senderData)
tags C10
requires wf(sd)
ensures fits(sd)

# ---- content authentication (6.1, 6.2) ----

def tbsOf(w, content, ctx) = mk(framedContentTBS, uint16(1), w, content, some(ctx))
def tbsMsg(w, content, ctx) = labelled("FramedContentTBS", enc(tbsOf(w, content, ctx)))
# the encoding of the content to sign fits a vector
def tbsFits(t) = fits(t) && fitsv(enc(t))
def tbmOf(content, auth, ctx) = mk(authenticatedContentTBM, tbsOf(uint16(1), content, ctx), auth)

func signFramedContent
tags C11 C17 C18
requires known(cs) && wf(*content)
ensures[C17] implies(ok, signed(sigOf(cs), signKey, labelled("FramedContentTBS", enc(*content)), result))
ensures[C17] ok == (tbsFits(*content) && cansign(sigOf(cs), signKey))

func framedContentAuthData.verifySignature
tags C11 C17 C18
requires known(cs) && wf(*content)
ensures[C11,C17] result == (tbsFits(*content) && sigok(sigOf(cs), verifKey, labelled("FramedContentTBS", enc(*content)), authData.signature))

func authenticatedContent.verifySignature
tags C11 C17 C18
requires ctxOk(*ctx) && wf(authContent.content)
ensures[C11,C17] result == (tbsFits(tbsOf(authContent.wireFormat, authContent.content, *ctx)) && \
  sigok(sigOf(ctx.cipherSuite), verifKey, tbsMsg(authContent.wireFormat, authContent.content, *ctx), authContent.auth.signature))

func signAuthenticatedContent
tags C11 C17 C18
requires known(cs) && wf(*content) && wf(*ctx)
ensures implies(ok, !isnil(result))
ensures[C17] implies(ok, result.wireFormat == wf && result.content == *content && len(result.auth.confirmationTag) == 0)
ensures[C17] implies(ok, signed(sigOf(cs), signKey, tbsMsg(wf, *content, *ctx), result.auth.signature))
ensures[C17] ok == (tbsFits(tbsOf(wf, *content, *ctx)) && cansign(sigOf(cs), signKey))

func signPublicMessage
tags C17 C18
requires known(cs) && wf(*content) && wf(*ctx)
ensures implies(ok, !isnil(result))
ensures[C17] implies(ok, result.content == *content && len(result.auth.confirmationTag) == 0 && len(result.membershipTag) == 0)
ensures[C17] implies(ok, signed(sigOf(cs), signKey, tbsMsg(uint16(1), *content, *ctx), result.auth.signature))
ensures[C17] ok == (tbsFits(tbsOf(uint16(1), *content, *ctx)) && cansign(sigOf(cs), signKey))

func signPrivateMessageContent
fresh
tags C10 C17 C18
requires known(cs) && wf(*content) && wf(*ctx)
ensures implies(ok, !isnil(result))
ensures[C10,C17] implies(ok, result.applicationData == content.applicationData && result.proposal == content.proposal && result.commit == content.commit && len(result.auth.confirmationTag) == 0)
ensures[C17] implies(ok, signed(sigOf(cs), signKey, tbsMsg(uint16(2), *content, *ctx), result.auth.signature))
ensures[C17] ok == (tbsFits(tbsOf(uint16(2), *content, *ctx)) && cansign(sigOf(cs), signKey))

func publicMessage.signMembershipTag
tags C11 C17 C18
requires known(cs) && wf(msg.content) && wf(msg.auth, msg.content.contentType) && wf(*ctx)
modifies msg.membershipTag
ensures[C11,C17] ok == (msg.content.sender.senderType != 1 || fits(tbmOf(msg.content, msg.auth, *ctx)))
ensures[C11,C17] msg.membershipTag == ite(ok && msg.content.sender.senderType == 1, hmac(hashOf(cs), membershipKey, enc(tbmOf(msg.content, msg.auth, *ctx))), old(msg.membershipTag))

func publicMessage.verifyMembershipTag
tags C11 C17 C18
requires ctxOk(*ctx) && wf(msg.content) && wf(msg.auth, msg.content.contentType)
ensures[C11,C17] result == (msg.content.sender.senderType != 1 || \
  fits(tbmOf(msg.content, msg.auth, *ctx)) && msg.membershipTag == hmac(hashOf(ctx.cipherSuite), membershipKey, enc(tbmOf(msg.content, msg.auth, *ctx))))

func framedContentAuthData.verifyConfirmationTag
tags C08 C11 C18
requires known(cs)
ensures[C08,C11] result == (len(authData.confirmationTag) != 0 && authData.confirmationTag == hmac(hashOf(cs), confirmationKey, confirmedTranscriptHash))

def propRef(c, ac) = refhash(c, "MLS 1.0 Proposal Reference", enc(ac))

func authenticatedContent.generateProposalRef
tags C14 C17 C18
requires known(cs) && wf(*authContent) && authContent.content.contentType == 2
ensures[C14,C17] ok == (fits(*authContent) && fitsv(enc(*authContent)))
ensures[C14,C17] implies(ok, result == propRef(cs, *authContent))

# the two kinds of message as authenticated content
func publicMessage.authenticatedContent
tags C11 C17 C18
ensures !isnil(result)
ensures[C11,C17] result.wireFormat == 1 && result.content == msg.content && result.auth == msg.auth

func privateMessage.authenticatedContent
tags C10 C11 C17 C18
ensures !isnil(result)
ensures[C10,C11,C17] result.wireFormat == 2 && result.auth == content.auth
ensures[C10,C11,C17] result.content == mk(framedContent, msg.groupID, msg.epoch, mk(sender, uint8(1), senderData.leafIndex, uint32(0)), msg.authenticatedData, msg.contentType, content.applicationData, content.proposal, content.commit)

func privateMessageContent.authenticatedContent
tags C10 C11 C17 C18
ensures !isnil(result)
ensures[C10,C11,C17] result.wireFormat == 2 && result.content == *framedContent && result.auth == content.auth

func authenticatedContent.confirmedTranscriptHashInput
tags C08 C18
ensures !isnil(result)
ensures[C08] result.wireFormat == authContent.wireFormat && result.content == authContent.content && result.signature == authContent.auth.signature
