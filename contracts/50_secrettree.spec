# Secret tree, ratchets and message keys (RFC 9420 9, 6.3.2).
filetags C09 C18

# secret of node y when node x above it has secret s
uf below(uint16, bytes, uint32, uint32) bytes
def sideOf(c, s, side) = ewl(c, s, "tree", side, uint16(nhOf(c)))
fact below(c, s, x, y) = implies(x == y, below(c, s, x, y) == s) && \
  implies(lev(x) != 0 && y < x, below(c, s, x, y) == below(c, sideOf(c, s, "left"), leftof(x), y)) && \
  implies(lev(x) != 0 && x < y, below(c, s, x, y) == below(c, sideOf(c, s, "right"), rightof(x), y))
def half(x) = (uint32(1) << lev(x)) - 1
def insub(x, y) = y - (x - half(x)) <= 2 * half(x)

func secretTree.deriveChildren
requires known(cs)
requires len(tree) <= 0xffffffff && lev(x) < 32
requires uint64(x) + uint64(half(x)) < len(tree)
requires !isnil(tree[x])
modifies tree
decreases lev(x)
ensures ok == (lev(x) == 0 || nhOf(cs) <= len(*old(tree[x])))
ensures implies(ok, forall(y, 0, len(tree), implies(insub(x, uint32(y)), tree[y] == some(below(cs, *old(tree[x]), x, uint32(y))))))
ensures forall(y, 0, len(tree), implies(!insub(x, uint32(y)), tree[y] == old(tree)[y]))

func deriveSecretTree
requires known(cs) && pow2(n) && n <= 0x40000000 && !isnil(encryptionSecret)
ensures ok == (n == 1 || nhOf(cs) <= len(encryptionSecret))
ensures implies(ok, len(result) == uint64(widthof(n)))
ensures implies(ok, forall(y, 0, len(result), result[y] == some(below(cs, encryptionSecret, n - 1, uint32(y)))))

func ratchetLabelFromContentType
requires 1 <= ct && ct <= 3
ensures[C09] result == ite(ct == 1, "application", "handshake")

func secretTree.deriveRatchetRoot
requires known(cs)
requires uint64(ni) < len(tree) && !isnil(tree[ni])
ensures[C09] ok == (len(label) + 8 < 0x40000000 && nhOf(cs) <= len(*tree[ni]))
ensures[C09] implies(ok, result.generation == 0 && result.secret == ewl(cs, *tree[ni], label, empty(), uint16(nhOf(cs))))

# DeriveTreeSecret
def dts(c, r, label, n) = ewl(c, r.secret, label, be(r.generation), uint16(n))
def rkey(c, r) = dts(c, r, "key", nk(aeadOf(c)))
def rnonce(c, r) = dts(c, r, "nonce", nn(aeadOf(c)))

func ratchetSecret.deriveKey
requires known(cs)
ensures[C09] ok == (nhOf(cs) <= len(secret.secret))
ensures[C09] implies(ok, result == rkey(cs, secret))

func ratchetSecret.deriveNonce
fresh
requires known(cs)
ensures[C09] ok == (nhOf(cs) <= len(secret.secret))
ensures[C09] implies(ok, result == rnonce(cs, secret))

func ratchetSecret.deriveNext
requires known(cs)
ensures[C09] ok == (nhOf(cs) <= len(secret.secret))
ensures[C09] implies(ok, result.secret == dts(cs, secret, "secret", nhOf(cs)) && result.generation == secret.generation + 1)

# the reuse guard changes the first four bytes of the nonce
def guarded(n, g) = upd(upd(upd(upd(n, 0, n[0] ^ g[0]), 1, n[1] ^ g[1]), 2, n[2] ^ g[2]), 3, n[3] ^ g[3])

func derivePrivateMessageKeyAndNonce
requires known(cs)
ensures[C09] ok == (nhOf(cs) <= len(secret.secret))
ensures[C09] implies(ok, key == rkey(cs, secret))
ensures[C09] implies(ok, nonce == guarded(rnonce(cs, secret), reuseGuard))

# sender data keys (RFC 9420 6.3.2)
def sample(c, ct) = ite(len(ct) < nhOf(c), ct, take(ct, nhOf(c)))
def sdkey(c, secret, ct) = ewl(c, secret, "key", sample(c, ct), uint16(nk(aeadOf(c))))
def sdnonce(c, secret, ct) = ewl(c, secret, "nonce", sample(c, ct), uint16(nn(aeadOf(c))))

func sampleCiphertext
requires known(cs)
ensures[C09] result == sample(cs, ciphertext)

func expandSenderDataKey
requires known(cs)
ensures[C09] ok == (nhOf(cs) <= len(senderDataSecret))
ensures[C09] implies(ok, result == sdkey(cs, senderDataSecret, ciphertext))

func expandSenderDataNonce
requires known(cs)
ensures[C09] ok == (nhOf(cs) <= len(senderDataSecret))
ensures[C09] implies(ok, result == sdnonce(cs, senderDataSecret, ciphertext))
