# Cipher suites and labelled primitives (RFC 9420 5.1, 5.2, 8, 17.1).

def known(c) = 1 <= c && c <= 7

# The table of RFC 9420 17.1. Hash identifiers are those of package crypto
# (SHA-256 is 5, SHA-384 is 6, SHA-512 is 7), the others those of HPKE.
uf hashOf(uint16) uint64
uf kemOf(uint16) uint16
uf kdfOf(uint16) uint16
uf aeadOf(uint16) uint16
uf sigOf(uint16) signatureScheme
uf suite(uint16, uint16, uint16) U.github.com/cloudflare/circl/hpke.Suite
fact hashOf(c) = implies(known(c), hashOf(c) == ite(c <= 3, uint64(5), ite(c == 7, uint64(6), uint64(7))))
fact kdfOf(c) = implies(known(c), kdfOf(c) == ite(c <= 3, uint16(1), ite(c == 7, uint16(2), uint16(3))))
fact kemOf(c) = implies(known(c), kemOf(c) == ite(c == 1 || c == 3, uint16(0x20), ite(c == 2, uint16(0x10), ite(c == 5, uint16(0x12), ite(c == 7, uint16(0x11), uint16(0x21))))))
fact aeadOf(c) = implies(known(c), aeadOf(c) == ite(c <= 2, uint16(1), ite(c == 3 || c == 6, uint16(3), uint16(2))))
fact sigOf(c) = implies(c == 1 || c == 3, sigOf(c) == dyn(signatureScheme, ed25519SignatureScheme))
fact sigOf(c) = implies(c == 2, sigOf(c) == dyn(signatureScheme, ecdsaSignatureScheme, curve("P256"), uint64(5)))
fact sigOf(c) = implies(c == 5, sigOf(c) == dyn(signatureScheme, ecdsaSignatureScheme, curve("P521"), uint64(7)))
fact sigOf(c) = implies(c == 7, sigOf(c) == dyn(signatureScheme, ecdsaSignatureScheme, curve("P384"), uint64(6)))
fact sigOf(c) = implies(c == 4 || c == 6, sigOf(c) == dyn(signatureScheme, ed448SignatureScheme))
uf curve(bytes) U.crypto/elliptic.Curve

# sizes
uf nh(uint16) uint64
uf nk(uint16) uint64
uf nn(uint16) uint64
uf nseed(uint16) uint64
uf hsize(uint64) uint64
fact nh(k) = implies(k == 1, nh(k) == 32) && implies(k == 2, nh(k) == 48) && implies(k == 3, nh(k) == 64)
fact nk(a) = implies(a == 1, nk(a) == 16) && implies(a == 2 || a == 3, nk(a) == 32)
fact nn(a) = implies(1 <= a && a <= 3, nn(a) == 12)
fact hsize(h) = implies(h == 5, hsize(h) == 32) && implies(h == 6, hsize(h) == 48) && implies(h == 7, hsize(h) == 64)
fact nseed(k) = implies(k == 0x10 || k == 0x20, nseed(k) == 32) && implies(k == 0x11, nseed(k) == 48) && implies(k == 0x12, nseed(k) == 66) && implies(k == 0x21, nseed(k) == 56)

# primitives
uf hash(uint64, bytes) bytes
uf hmac(uint64, bytes, bytes) bytes
uf extract(uint16, bytes, bytes) bytes
uf expand(uint16, bytes, bytes, uint64) bytes
uf seal(uint16, bytes, bytes, bytes, bytes) bytes
uf open(uint16, bytes, bytes, bytes, bytes) bytes
uf opens(uint16, bytes, bytes, bytes, bytes) bool
fact seal(a, k, n, p, ad) = opens(a, k, n, seal(a, k, n, p, ad), ad) && open(a, k, n, seal(a, k, n, p, ad), ad) == p
fact open(a, k, n, c, ad) = implies(opens(a, k, n, c, ad), len(c) == len(open(a, k, n, c, ad)) + 16)

# signatures
uf signed(signatureScheme, bytes, bytes, bytes) bool
uf sigok(signatureScheme, bytes, bytes, bytes) bool
uf sigpub(signatureScheme, bytes) bytes
uf cansign(signatureScheme, bytes) bool
fact signed(s, k, m, g) = implies(signed(s, k, m, g), sigok(s, sigpub(s, k), m, g))

# HPKE: sealed(suite, public key, info, aad, plaintext, enc, ciphertext)
uf pubof(uint16, bytes) bytes
uf dkpriv(uint16, bytes) bytes
uf validpub(uint16, bytes) bool
uf validpriv(uint16, bytes) bool
uf sealed(U.github.com/cloudflare/circl/hpke.Suite, bytes, bytes, bytes, bytes, bytes, bytes) bool
uf hpkesetup(U.github.com/cloudflare/circl/hpke.Suite, bytes, bytes, bytes) bool
uf hpkeopens(U.github.com/cloudflare/circl/hpke.Suite, bytes, bytes, bytes, bytes, bytes) bool
uf hpkeopen(U.github.com/cloudflare/circl/hpke.Suite, bytes, bytes, bytes, bytes, bytes) bytes
fact sealed(s, pk, i, ad, p, e, c) = implies(sealed(s, pk, i, ad, p, e, c), hpkesetup(s, pk, i, e) && hpkeopens(s, pk, i, ad, e, c) && hpkeopen(s, pk, i, ad, e, c) == p)
fact dkpriv(k, seed) = validpriv(k, dkpriv(k, seed)) && validpub(k, pubof(k, dkpriv(k, seed)))

def suiteOf(c) = suite(kemOf(c), kdfOf(c), aeadOf(c))
def nhOf(c) = nh(kdfOf(c))
def fitsv(b) = len(b) < 0x40000000

# ExpandWithLabel and DeriveSecret (RFC 9420 8)
def kdflabel(label, ctx, n) = cat(be(n), opq(cat("MLS 1.0 ", label)), opq(ctx))
def ewl(c, secret, label, ctx, n) = expand(kdfOf(c), secret, kdflabel(label, ctx, n), uint64(n))
def ds(c, secret, label) = ewl(c, secret, label, empty(), uint16(nhOf(c)))
# SignContent, EncryptContext (RFC 9420 5.1.2, 5.1.3)
def labelled(label, content) = cat(opq(cat("MLS 1.0 ", label)), opq(content))
# RefHash (RFC 9420 5.2)
def refhash(c, label, value) = hash(hashOf(c), cat(opq(label), opq(value)))

func CipherSuite.hash
tags C17 C19 C18
requires known(cs)
ensures[C19] result == hashOf(cs)

func CipherSuite.hpke
tags C17 C19 C18
requires known(cs)
ensures[C19] result == suiteOf(cs)

func CipherSuite.signatureScheme
tags C17 C19 C18
requires known(cs)
ensures[C19] result == sigOf(cs)

func CipherSuite.Supported
tags C19 C18
ensures[C19] result == (cs == 1 || cs == 2 || cs == 3 || cs == 7)

func CipherSuite.signMAC
tags C08 C11 C17 C19 C18
requires known(cs)
ensures[C08,C17,C19] result == hmac(hashOf(cs), key, message)

func CipherSuite.verifyMAC
tags C08 C11 C17 C19 C18
requires known(cs)
ensures[C08,C11,C17,C19] result == (tag == hmac(hashOf(cs), key, message))

func CipherSuite.refHash
tags C17 C19 C18
requires known(cs)
ensures[C17,C19] ok == (fitsv(label) && fitsv(value))
ensures[C17,C19] implies(ok, result == refhash(cs, label, value))

func CipherSuite.expandWithLabel
fresh
tags C08 C09 C15 C19 C18
requires known(cs)
requires uint64(length) <= 255 * nhOf(cs)
ensures[C08,C09,C15,C19] ok == (len(label) + 8 < 0x40000000 && fitsv(context) && nhOf(cs) <= len(secret))
ensures[C08,C09,C15,C19] implies(ok, result == ewl(cs, secret, label, context, length))

func CipherSuite.deriveSecret
tags C08 C09 C15 C19 C18
requires known(cs)
ensures[C08,C09,C15,C19] ok == (len(label) + 8 < 0x40000000 && nhOf(cs) <= len(secret))
ensures[C08,C09,C15,C19] implies(ok, result == ds(cs, secret, label))

func marshalSignContent
tags C17
ensures ok == (len(label) + 8 < 0x40000000 && fitsv(content))
ensures implies(ok, result == labelled(label, content))

func marshalEncryptContext
tags C17
ensures ok == (len(label) + 8 < 0x40000000 && fitsv(context))
ensures implies(ok, result == labelled(label, context))

func CipherSuite.signWithLabel
tags C17 C19 C18
requires known(cs)
ensures[C17,C19] implies(ok, signed(sigOf(cs), signKey, labelled(label, content), result))
ensures[C17] ok == (cansign(sigOf(cs), signKey) && len(label) + 8 < 0x40000000 && fitsv(content))

func CipherSuite.verifyWithLabel
tags C11 C16 C17 C19 C18
requires known(cs)
ensures[C11,C16,C17,C19] result == (sigok(sigOf(cs), verifKey, labelled(label, content), signValue) && len(label) + 8 < 0x40000000 && fitsv(content))

func CipherSuite.encryptWithLabel
tags C17 C19 C18
requires known(cs)
ensures[C17,C19] implies(ok, sealed(suiteOf(cs), publicKey, labelled(label, context), empty(), plaintext, kemOutput, ciphertext))

func CipherSuite.decryptWithLabel
tags C17 C19 C18
requires known(cs)
ensures[C17,C19] implies(ok, hpkeopens(suiteOf(cs), pubof(kemOf(cs), privateKey), labelled(label, context), empty(), kemOutput, ciphertext))
ensures[C17,C19] implies(ok, result == hpkeopen(suiteOf(cs), pubof(kemOf(cs), privateKey), labelled(label, context), empty(), kemOutput, ciphertext))

func CipherSuite.deriveEncryptionKeyPair
tags C15 C19 C18
requires known(cs)
ensures implies(ok, !isnil(result1))
ensures[C15,C19] implies(ok, len(seed) == nseed(kemOf(cs)) && result1 == dkpriv(kemOf(cs), seed) && result0 == pubof(kemOf(cs), dkpriv(kemOf(cs), seed)))

func CipherSuite.generateEncryptionKeyPair
tags C19 C18
requires known(cs)
ensures[C19] implies(ok, result0 == pubof(kemOf(cs), result1) && validpriv(kemOf(cs), result1))
