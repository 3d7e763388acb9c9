# Ratchet tree: resolution, tree hashes, parent hashes (RFC 9420 4.1.2, 7.8, 7.9).
filetags C18

# a tree whose nodes have the kind their position asks for
def nodeOk(t, i) = isnil(t[i]) || (wf(*t[i]) && (t[i].nodeType == 1) == (i & 1 == 0))
def sizeOk(t) = 0 < len(t) && len(t) < 0x80000000 && (len(t) + 1) & len(t) == 0
def treeOk(t) = sizeOk(t) && forall(i, 0, len(t), nodeOk(t, i))
def leavesOf(t) = uint32((len(t) + 1) >> 1)

func hasUnmergedLeaf
tags C07 C18
ensures[C07] result == contains(node.unmergedLeaves, unmergedLeaf)
invariant forall(i, 0, idx, node.unmergedLeaves[i] != unmergedLeaf)

func ratchetTree.copy
tags C05 C12 C18
fresh
ensures[C05,C12] len(result) == len(tree) && forall(i, 0, len(tree), result[i] == tree[i])

func marshalParentHashInput
tags C06 C18
ensures[C06] ok == (fitsv(encryptionKey) && fitsv(parentHash) && fitsv(originalSiblingTreeHash))
ensures[C06] implies(ok, result == cat(opq(encryptionKey), opq(parentHash), opq(originalSiblingTreeHash)))

def parentHash(c, p, s) = hash(hashOf(c), cat(opq(p.encryptionKey), opq(p.parentHash), opq(s)))
def parentHashFits(p, s) = fitsv(p.encryptionKey) && fitsv(p.parentHash) && fitsv(s)

func parentNode.computeParentHash
tags C06 C15 C18
requires known(cs)
ensures[C06] ok == parentHashFits(*node, originalSiblingTreeHash)
ensures[C06] implies(ok, result == parentHash(cs, *node, originalSiblingTreeHash))

# the elements of a list below n that are not in a set
uf without([]uint32, set.uint32, int) []uint32 unfold 1
fact without(l, e, n) = implies(n <= 0, len(without(l, e, n)) == 0)
fact without(l, e, n) = implies(0 < n, without(l, e, n) == ite(e[l[n - 1]], without(l, e, n - 1), cat(without(l, e, n - 1), unit(l[n - 1]))))

# tree hash of the node x of t, leaves in e excluded
uf treeHash(uint16, arr.*node, uint32, set.uint32) bytes unfold 1
def leafInput(x, body) = cat(be(uint8(1)), be(x >> 1), body)
def parentInput(body, lh, rh) = cat(be(uint8(2)), body, opq(lh), opq(rh))
def leafBlank(t, x, e) = isnil(t[x]) || e[x >> 1]
def childHash(c, t, x, e, body) = hash(hashOf(c), parentInput(body, treeHash(c, t, leftof(x), e), treeHash(c, t, rightof(x), e)))
fact treeHash(c, t, x, e) = implies(lev(x) == 0 && leafBlank(t, x, e), treeHash(c, t, x, e) == hash(hashOf(c), leafInput(x, be(uint8(0)))))
fact treeHash(c, t, x, e) = implies(lev(x) == 0 && !leafBlank(t, x, e), treeHash(c, t, x, e) == hash(hashOf(c), leafInput(x, cat(be(uint8(1)), enc(*t[x].leafNode)))))
fact treeHash(c, t, x, e) = implies(lev(x) != 0 && isnil(t[x]), treeHash(c, t, x, e) == childHash(c, t, x, e, be(uint8(0))))
# without(l, emptyset, len(l)) is l, see the lemmas below
fact treeHash(c, t, x, e) = implies(lev(x) != 0 && !isnil(t[x]) && e == emptyset(uint32), \
  treeHash(c, t, x, e) == childHash(c, t, x, e, cat(be(uint8(1)), enc(*t[x].parentNode))))
fact treeHash(c, t, x, e) = implies(lev(x) != 0 && !isnil(t[x]) && e != emptyset(uint32), \
  treeHash(c, t, x, e) == childHash(c, t, x, e, cat(be(uint8(1)), enc(with(*t[x].parentNode, unmergedLeaves, without(t[x].parentNode.unmergedLeaves, e, len(t[x].parentNode.unmergedLeaves)))))))

def sameFirst(a, l, n) = len(a) == n && forall(i, 0, n, a[i] == l[i])

lemma without_nothing_base(l []uint32)
tags C06
ensures sameFirst(without(l, emptyset(uint32), 0), l, 0)

lemma without_nothing_step(l []uint32, p []uint32, n int)
tags C06
requires 0 <= n && n < len(l)
requires p == without(l, emptyset(uint32), n) && sameFirst(p, l, n)
ensures without(l, emptyset(uint32), n + 1) == cat(p, unit(l[n]))
ensures sameFirst(cat(p, unit(l[n])), l, n + 1)

func ratchetTree.computeTreeHash
tags C06 C07 C15 C18
requires known(cs) && treeOk(tree) && uint64(x) < len(tree) 
decreases lev(x)
ensures[C06] implies(ok, result == treeHash(cs, arr(tree), x, exclude))
ensures[C06] implies(ok, len(result) == nhOf(cs))
invariant unmergedLeaves == without(p.unmergedLeaves, exclude, idx)

func ratchetTree.computeRootTreeHash
tags C06 C07 C18
requires known(cs) && treeOk(tree)
ensures[C06] implies(ok, result == treeHash(cs, arr(tree), leavesOf(tree) - 1, emptyset(uint32)))

# ---- resolution ----

# node indices of leaves
uf leafNodes([]uint32) []uint32
fact leafNodes(l) = len(leafNodes(l)) == len(l)
fact leafNodes(l) = forall(i, 0, len(l), leafNodes(l)[i] == 2 * l[i])

# unmerged leaves are below their node
uf allBelow([]uint32, uint32) bool unfold 1
fact allBelow(l, x) = allBelow(l, x) == forall(j, 0, len(l), l[j] < 0x80000000 && insub(x, 2 * l[j]))
# follows from the first, all_below_last
fact allBelow(l, x) = implies(0 < len(l), allBelow(l, x) == (allBelow(take(l, len(l) - 1), x) && l[len(l) - 1] < 0x80000000 && insub(x, 2 * l[len(l) - 1])))
lemma all_below_last(l []uint32, x uint32)
tags C06 C07 C15 C18
hide allBelow.2
requires 0 < len(l)
ensures allBelow(l, x) == (allBelow(take(l, len(l) - 1), x) && l[len(l) - 1] < 0x80000000 && insub(x, 2 * l[len(l) - 1]))

def mergedOk(t, i) = isnil(t[i]) || t[i].nodeType == 1 || allBelow(t[i].parentNode.unmergedLeaves, uint32(i))
def inRange(t, i) = isnil(t[i]) || t[i].nodeType == 1 || forall(j, 0, len(t[i].parentNode.unmergedLeaves), t[i].parentNode.unmergedLeaves[j] < leavesOf(t))
def unmergedIn(t) = forall(i, 0, len(t), inRange(t, i))
def unmergedOk(t) = forall(i, 0, len(t), mergedOk(t, i))

uf resolution(arr.*node, uint32) []uint32 unfold 1
fact resolution(t, x) = implies(isnil(t[x]) && lev(x) == 0, len(resolution(t, x)) == 0)
fact resolution(t, x) = implies(isnil(t[x]) && lev(x) != 0, resolution(t, x) == cat(resolution(t, leftof(x)), resolution(t, rightof(x))))
fact resolution(t, x) = implies(!isnil(t[x]) && lev(x) == 0, resolution(t, x) == unit(x))
fact resolution(t, x) = implies(!isnil(t[x]) && lev(x) != 0, resolution(t, x) == cat(unit(x), leafNodes(t[x].parentNode.unmergedLeaves)))

func ratchetTree.resolve
hide allBelow.2
tags C06 C07 C15 C18
fresh
requires treeOk(tree) && uint64(x) < len(tree)
decreases lev(x)
ensures[C07,C15] result == resolution(arr(tree), x)
invariant res == cat(unit(x), take(leafNodes(n.parentNode.unmergedLeaves), idx))
# the nodes of a resolution lie in the subtree of the node
ensures implies(unmergedOk(tree), forall(i, 0, len(result), insub(x, result[i])))
invariant implies(unmergedOk(tree), forall(i, 0, len(res), insub(x, res[i])))
ensures implies(unmergedIn(tree), forall(i, 0, len(result), uint64(result[i]) < len(tree)))
invariant implies(unmergedIn(tree), forall(i, 0, len(res), uint64(res[i]) < len(tree)))

# ---- parent hashes ----

def hashOfNode(n) = ite(n.nodeType == 1, n.leafNode.parentHash, n.parentNode.parentHash)
def hasHash(t, x, h) = !isnil(t[x]) && hashOfNode(*t[x]) == h

# one of the nodes in l carries the parent hash h
uf linked(arr.*node, []uint32, bytes) bool
fact linked(t, l, h) = linked(t, l, h) == exists(j, 0, len(l), hasHash(t, l[j], h))

func ratchetTree.findParentHash
tags C06 C07 C18
requires treeOk(tree) && forall(i, 0, len(nodeIndices), uint64(nodeIndices[i]) < len(tree))
ensures[C07] result == linked(arr(tree), nodeIndices, parentHash)
invariant forall(i, 0, idx, !hasHash(tree, nodeIndices[i], parentHash))

# the set of the first n elements of a list
uf setOf([]uint32, int) set.uint32 unfold 1
fact setOf(l, n) = implies(n == 0, setOf(l, n) == emptyset(uint32))
fact setOf(l, n) = implies(0 < n, setOf(l, n) == store(setOf(l, n - 1), l[n - 1], true))

def unmergedOf(t, x) = setOf(t[x].parentNode.unmergedLeaves, len(t[x].parentNode.unmergedLeaves))
def linkFrom(c, t, x, side, other) = linked(t, resolution(t, side), parentHash(c, *t[x].parentNode, treeHash(c, t, other, unmergedOf(t, x))))
uf oneParentHash(uint16, arr.*node, uint32) bool
fact oneParentHash(c, t, x) = oneParentHash(c, t, x) == (linkFrom(c, t, x, leftof(x), rightof(x)) != linkFrom(c, t, x, rightof(x), leftof(x)))

func ratchetTree.verifyParentHashes
hide treeHash linked resolution
tags C06 C07 C18
requires known(cs) && treeOk(tree) && unmergedIn(tree)
ensures[C07] implies(result, forall(i, 0, len(tree), implies(i & 1 == 1 && !isnil(tree[i]), oneParentHash(cs, arr(tree), uint32(i)))))
invariant exclude == setOf(parentNode.unmergedLeaves, idx)
invariant forall(i, 0, idx, implies(i & 1 == 1 && !isnil(tree[i]), oneParentHash(cs, arr(tree), uint32(i))))

# ---- members ----

def leafAt(t, i) = t[2 * i].leafNode
def isMember(t, i) = !isnil(t[2 * i])

# the keys of the first n leaves
uf sigKeys(arr.*node, uint32) set.bytes unfold 1
fact sigKeys(t, n) = implies(n == 0, sigKeys(t, n) == emptyset(bytes))
fact sigKeys(t, n) = implies(0 < n && !isMember(t, n - 1), sigKeys(t, n) == sigKeys(t, n - 1))
fact sigKeys(t, n) = implies(0 < n && isMember(t, n - 1), sigKeys(t, n) == store(sigKeys(t, n - 1), leafAt(t, n - 1).signatureKey, true))
uf encKeys(arr.*node, uint32) set.bytes unfold 1
fact encKeys(t, n) = implies(n == 0, encKeys(t, n) == emptyset(bytes))
fact encKeys(t, n) = implies(0 < n && !isMember(t, n - 1), encKeys(t, n) == encKeys(t, n - 1))
fact encKeys(t, n) = implies(0 < n && isMember(t, n - 1), encKeys(t, n) == store(encKeys(t, n - 1), leafAt(t, n - 1).encryptionKey, true))

func ratchetTree.keys
tags C14 C16 C18
requires treeOk(tree)
ensures !isnil(signatureKeys) && !isnil(encryptionKeys)
ensures[C16] signatureKeys == sigKeys(arr(tree), leavesOf(tree))
ensures[C16] encryptionKeys == encKeys(arr(tree), leavesOf(tree))
invariant signatureKeys == sigKeys(arr(tree), li)
invariant encryptionKeys == encKeys(arr(tree), li)
invariant li <= leavesOf(tree)
measure uint64(leavesOf(tree)) - uint64(li)

# each of the first n leaves that is not blank supports the credential type y
uf allSupport(arr.*node, uint32, uint16) bool unfold 1
fact allSupport(t, n, y) = implies(n == 0, allSupport(t, n, y))
fact allSupport(t, n, y) = implies(0 < n, allSupport(t, n, y) == (allSupport(t, n - 1, y) && (!isMember(t, n - 1) || contains(leafAt(t, n - 1).capabilities.credentials, y))))

func ratchetTree.supportedCreds
tags C16 C18
requires treeOk(tree)
ensures[C16] forall(y, uint16, implies(result[y], allSupport(arr(tree), leavesOf(tree), y)))
invariant li <= leavesOf(tree) && 0 <= numMembers && numMembers <= int(li)
measure uint64(leavesOf(tree)) - uint64(li)
invariant forall(y, uint16, supportedCredsCount[y] <= numMembers)
invariant forall(y, uint16, implies(supportedCredsCount[y] == numMembers, allSupport(arr(tree), li, y)))
invariant 0 < numMembers && numMembers <= int(li) + 1
invariant forall(y, uint16, supportedCredsCount[y] == ite(atentry(dom(supportedCredsCount))[y], atentry(mapof(supportedCredsCount))[y], 0) + ite(contains(take(node.capabilities.credentials, idx), y), 1, 0))
invariant forall(y, uint16, implies(supportedCreds[y], supportedCredsCount[y] == numMembers))

# ---- trees received by joiners (12.4.3.1) ----

# leaf u is below p, and so are the nodes on the way aware that it is unmerged
uf mergedTo(arr.*node, uint32, uint32) bool unfold 1
fact mergedTo(t, u, l) = mergedTo(t, u, l) == (l == 0 || \
  (mergedTo(t, u, l - 1) && (isnil(t[anc(2 * u, l)]) || contains(t[anc(2 * u, l)].parentNode.unmergedLeaves, u))))
uf mergedUp(arr.*node, uint32, uint32) bool unfold 1
fact mergedUp(t, p, u) = mergedUp(t, p, u) == (u < 0x80000000 && anc(2 * u, lev(p)) == p && mergedTo(t, u, lev(p) - 1))
uf mergedWell(arr.*node, uint64) bool unfold 1
fact mergedWell(t, p) = mergedWell(t, p) == forall(j, 0, len(t[p].parentNode.unmergedLeaves), mergedUp(t, uint32(p), t[p].parentNode.unmergedLeaves[j]))
# by merged_below
fact mergedWell(t, p) = implies(mergedWell(t, p), allBelow(t[p].parentNode.unmergedLeaves, uint32(p)))
lemma merged_below(t arr.*node, p uint64)
tags C07 C18
hide mergedWell.2 allBelow.2
requires mergedWell(t, p)
ensures allBelow(t[p].parentNode.unmergedLeaves, uint32(p))

# the encryption keys of m leaves and of the parents among the first n nodes
uf nodeKeys(arr.*node, uint32, uint64) set.bytes unfold 1
fact nodeKeys(t, m, n) = implies(n == 0, nodeKeys(t, m, n) == encKeys(t, m))
fact nodeKeys(t, m, n) = implies(0 < n && (n & 1 == 1 || isnil(t[n - 1])), nodeKeys(t, m, n) == nodeKeys(t, m, n - 1))
fact nodeKeys(t, m, n) = implies(0 < n && n & 1 == 0 && !isnil(t[n - 1]), nodeKeys(t, m, n) == store(nodeKeys(t, m, n - 1), t[n - 1].parentNode.encryptionKey, true))

# the unmerged leaves of node p are members, n leaves in all
uf unmergedMembers(arr.*node, uint32, uint64) bool unfold 1
fact unmergedMembers(t, n, p) = unmergedMembers(t, n, p) == forall(j, 0, len(t[p].parentNode.unmergedLeaves), \
  t[p].parentNode.unmergedLeaves[j] < n && isMember(t, t[p].parentNode.unmergedLeaves[j]))

def isParent(t, i) = i & 1 == 1 && !isnil(t[i])

uf leafValid(uint16, bytes, arr.*node, uint32, uint32, U.time.Time) bool unfold 1
fact leafValid(c, gid, t, m, i, now) = leafValid(c, gid, t, m, i, now) == (leafSigned(c, *leafAt(t, i), gid, i) && leafExts(*leafAt(t, i)) && \
  allSupport(t, m, leafAt(t, i).credential.credentialType) && \
  (isnil(leafAt(t, i).lifetime) || timeiszero(now) || ltValid(*leafAt(t, i).lifetime, now)) && \
  !sigKeys(t, i)[leafAt(t, i).signatureKey] && !encKeys(t, i)[leafAt(t, i).encryptionKey])

func ratchetTree.verifyIntegrity
limit 500
hide treeHash linked resolution oneParentHash allSupport allBelow mergedUp mergedTo mergedWell unmergedMembers
tags C07 C16 C18
requires known(ctx.cipherSuite) && treeOk(tree)
let t = clock(now)
let n = leavesOf(tree)
ensures[C07] implies(ok, ctx.treeHash == treeHash(ctx.cipherSuite, arr(tree), leavesOf(tree) - 1, emptyset(uint32)))
ensures[C07] implies(ok, forall(i, 0, len(tree), implies(isParent(tree, i), oneParentHash(ctx.cipherSuite, arr(tree), uint32(i)))))
ensures[C07,C16] implies(ok, forall(i, 0, uint64(n), implies(isMember(tree, uint32(i)), leafValid(ctx.cipherSuite, ctx.groupID, arr(tree), n, uint32(i), t))))
ensures[C07] implies(ok, forall(i, 0, len(tree), implies(isParent(tree, i), !nodeKeys(arr(tree), n, i)[tree[i].parentNode.encryptionKey])))
invariant forall(j, 0, idx, node.parentNode.unmergedLeaves[j] < leavesOf(tree))
invariant forall(k, 0, idx, inRange(tree, k))
invariant li <= leavesOf(tree)
measure uint64(leavesOf(tree)) - uint64(li)
invariant signatureKeys == sigKeys(arr(tree), li)
invariant encryptionKeys == encKeys(arr(tree), li)
invariant forall(k, 0, uint64(li), implies(isMember(tree, uint32(k)), leafValid(ctx.cipherSuite, ctx.groupID, arr(tree), n, uint32(k), t)))
invariant encryptionKeys == nodeKeys(arr(tree), n, uint64(idx))
invariant forall(k, 0, idx, implies(isParent(tree, k), !nodeKeys(arr(tree), n, k)[tree[k].parentNode.encryptionKey]))
invariant uint64(x) < len(tree) && x == anc(2 * unmergedLeaf, lev(x))
measure 64 - uint64(lev(x))

func ratchetTree.verifyIntegrity part unmerged
limit 500
hide treeHash linked resolution oneParentHash allSupport allBelow nodeKeys sigKeys encKeys leafValid mergedUp mergedTo mergedWell
tags C07
ensures[C07] implies(ok, forall(i, 0, len(tree), implies(isParent(tree, i), unmergedMembers(arr(tree), leavesOf(tree), i))))
ensures implies(ok, unmergedIn(tree))
invariant forall(k, 0, idx, implies(isParent(tree, k), unmergedMembers(arr(tree), leavesOf(tree), k)))
invariant forall(j, 0, idx, node.parentNode.unmergedLeaves[j] < leavesOf(tree) && isMember(tree, node.parentNode.unmergedLeaves[j]))
invariant li <= leavesOf(tree)
measure uint64(leavesOf(tree)) - uint64(li)
invariant uint64(x) < len(tree) && x == anc(2 * unmergedLeaf, lev(x))
measure 64 - uint64(lev(x))

func ratchetTree.verifyIntegrity part merged
limit 500
hide treeHash linked resolution oneParentHash allSupport allBelow nodeKeys sigKeys encKeys leafValid unmergedMembers
tags C07
ensures[C07] implies(ok, forall(i, 0, len(tree), implies(isParent(tree, i), mergedWell(arr(tree), i))))
ensures implies(ok, unmergedOk(tree))
invariant forall(j, 0, idx, node.parentNode.unmergedLeaves[j] < leavesOf(tree))
invariant forall(k, 0, idx, inRange(tree, k))
invariant li <= leavesOf(tree)
measure uint64(leavesOf(tree)) - uint64(li)
invariant forall(k, 0, idx, implies(isParent(tree, k), mergedWell(arr(tree), k)))
invariant forall(j, 0, idx, mergedUp(arr(tree), p, node.parentNode.unmergedLeaves[j]))
invariant uint64(x) < len(tree) && x == anc(2 * unmergedLeaf, lev(x))
invariant mergedTo(arr(tree), unmergedLeaf, lev(x))
measure 64 - uint64(lev(x))
