# Key schedule (RFC 9420 8) and secret tree (RFC 9420 9).
filetags C08 C18

def ctxOk(x) = wf(x) && known(x.cipherSuite)
def zeroh(c) = zeros(nhOf(c))
def pskOr(b, c) = ite(isnil(b), zeroh(c), b)

# joiner_secret
def joinerOf(ctx, init, commit) = ewl(ctx.cipherSuite, extract(kdfOf(ctx.cipherSuite), commit, init), "joiner", enc(ctx), uint16(nhOf(ctx.cipherSuite)))
def welcomeOf(c, joiner, psk) = ds(c, extract(kdfOf(c), psk, joiner), "welcome")
def epochOf(ctx, joiner, psk) = ewl(ctx.cipherSuite, extract(kdfOf(ctx.cipherSuite), psk, joiner), "epoch", enc(ctx), uint16(nhOf(ctx.cipherSuite)))
def encodes(ctx) = fits(ctx) && len(enc(ctx)) < 0x40000000

func groupContext.extractJoinerSecret
requires ctxOk(*ctx)
ensures[C08] ok == encodes(*ctx)
ensures[C08] implies(ok, result == joinerOf(*ctx, prevInitSecret, commitSecret))

func groupContext.extractEpochSecret
requires ctxOk(*ctx)
ensures[C08] ok == encodes(*ctx)
ensures[C08] implies(ok, result == epochOf(*ctx, joinerSecret, pskOr(pskSecret, ctx.cipherSuite)))

func extractWelcomeSecret
requires known(cs)
ensures[C08] ok
ensures[C08] result == welcomeOf(cs, joinerSecret, pskOr(pskSecret, cs))

def confirmationOf(ctx, epochSecret) = hmac(hashOf(ctx.cipherSuite), ds(ctx.cipherSuite, epochSecret, "confirm"), ctx.confirmedTranscriptHash)

func groupContext.signConfirmationTag
requires known(ctx.cipherSuite)
ensures[C08] ok == (nhOf(ctx.cipherSuite) <= len(epochSecret))
ensures[C08] implies(ok, result == confirmationOf(*ctx, epochSecret))

func deriveExporter
requires known(cs)
requires uint64(length) <= 255 * nhOf(cs)
ensures[C08] ok == (len(label) + 8 < 0x40000000 && nhOf(cs) <= len(exporterSecret))
ensures[C08] implies(ok, result == ewl(cs, ds(cs, exporterSecret, label), "exported", hash(hashOf(cs), context), length))

def confirmedOf(c, interim, input) = hash(hashOf(c), cat(interim, enc(input)))
def interimOf(c, confirmed, tag) = hash(hashOf(c), cat(confirmed, opq(tag)))

func confirmedTranscriptHashInput.hash
requires known(cs) && wf(*input)
ensures[C08] ok == fits(*input)
ensures[C08] implies(ok, result == confirmedOf(cs, interimTranscriptHashBefore, *input))

func nextInterimTranscriptHash
requires known(cs)
ensures[C08] ok == fitsv(confirmationTag)
ensures[C08] implies(ok, result == interimOf(cs, confirmedTranscriptHash, confirmationTag))

# psk_secret after the first i PSKs (RFC 9420 8.4)
uf pskAt(uint16, []preSharedKeyID, []bytes, int) bytes
def pskInput(c, ids, psks, i) = ewl(c, extract(kdfOf(c), psks[i], zeroh(c)), "derived psk", enc(mk(pskLabel, ids[i], uint16(i), uint16(len(ids)))), uint16(nhOf(c)))
fact pskAt(c, ids, psks, i) = ite(i == 0, pskAt(c, ids, psks, i) == zeroh(c), \
  pskAt(c, ids, psks, i) == extract(kdfOf(c), pskAt(c, ids, psks, i - 1), pskInput(c, ids, psks, i - 1)))

func extractPSKSecret
requires known(cs) && wf(pskIDs)
ensures[C08] implies(ok, len(pskIDs) == len(psks))
ensures[C08] implies(ok, result == pskAt(cs, pskIDs, psks, len(psks)))
ensures[C08] implies(len(pskIDs) == 0 && len(psks) == 0, ok)
ensures implies(ok, len(result) == nhOf(cs) && !isnil(result))
invariant pskSecret == pskAt(cs, pskIDs, psks, idx)
invariant len(pskSecret) == nhOf(cs)
