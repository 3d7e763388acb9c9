# Private keys of the direct path (RFC 9420 7.4, 7.6, 12.4.2, 12.4.3.1).
filetags C15 C18

# the leftmost of n leaves with an encryption key, n if there is none
uf firstKey(arr.*node, uint32, bytes) uint32 unfold 1
fact firstKey(t, n, k) = firstKey(t, n, k) <= n
fact firstKey(t, n, k) = firstKey(t, n, k) == n || (!isnil(t[2 * firstKey(t, n, k)]) && t[2 * firstKey(t, n, k)].leafNode.encryptionKey == k)
fact firstKey(t, n, k) = forall(i, uint32, implies(i < firstKey(t, n, k), isnil(t[2 * i]) || t[2 * i].leafNode.encryptionKey != k))

func ratchetTree.findLeaf
tags C13 C15 C18
requires treeOk(tree) && wf(*node)
let f = firstKey(arr(tree), leavesOf(tree), node.encryptionKey)
ensures[C13,C15] result1 == (f < leavesOf(tree) && fits(*node) && fits(*tree[2 * f].leafNode) && enc(*node) == enc(*tree[2 * f].leafNode))
ensures[C13,C15] implies(result1, result0 == f)
invariant li <= leavesOf(tree) && li <= f
measure uint64(leavesOf(tree)) - uint64(li)

# the path secret of the ancestor of x at level l, where s is that of x
uf secretAt(uint16, arr.*node, bytes, uint32, uint32) bytes unfold 1
fact secretAt(c, t, s, x, l) = implies(l <= lev(x), secretAt(c, t, s, x, l) == s)
fact secretAt(c, t, s, x, l) = implies(lev(x) < l && isnil(t[anc(x, l)]), secretAt(c, t, s, x, l) == secretAt(c, t, s, x, l - 1))
fact secretAt(c, t, s, x, l) = implies(lev(x) < l && !isnil(t[anc(x, l)]), secretAt(c, t, s, x, l) == ds(c, secretAt(c, t, s, x, l - 1), "path"))

def keyOfNode(n) = ite(n.nodeType == 1, n.leafNode.encryptionKey, n.parentNode.encryptionKey)
def privAt(c, s) = dkpriv(kemOf(c), ds(c, s, "node"))
def above(x, y) = lev(x) <= lev(y) && anc(x, lev(y)) == y

func processPathSecret
tags C15 C18
requires known(cs) && treeOk(tree) && uint64(nodeIndex) < len(tree) && len(privTree) == len(tree)
modifies privTree
let x = old(nodeIndex)
let s = old(pathSecret)
ensures[C15] forall(y, uint32, implies(uint64(y) < len(tree) && (!above(x, y) || isnil(tree[y])), privTree[y] == old(privTree)[y]))
ensures[C15] implies(ok, !isnil(tree[x]))
ensures[C15] implies(ok, forall(y, uint32, implies(uint64(y) < len(tree) && above(x, y) && !isnil(tree[y]), privTree[y] == some(privAt(cs, secretAt(cs, arr(tree), s, x, lev(y)))) && \
  keyOfNode(*tree[y]) == pubof(kemOf(cs), *privTree[y]))))
invariant uint64(nodeIndex) < len(tree) && nodeIndex == anc(x, lev(nodeIndex)) && lev(x) <= lev(nodeIndex)
measure 64 - uint64(lev(nodeIndex))
invariant pathSecret == secretAt(cs, arr(tree), s, x, lev(nodeIndex))
invariant forall(y, uint32, implies(uint64(y) < len(tree) && (!above(x, y) || isnil(tree[y])), privTree[y] == old(privTree)[y]))
invariant forall(y, uint32, implies(uint64(y) < len(tree) && above(x, y) && lev(y) <= lev(nodeIndex) && !isnil(tree[y]), privTree[y] == some(privAt(cs, secretAt(cs, arr(tree), s, x, lev(y)))) && \
  keyOfNode(*tree[y]) == pubof(kemOf(cs), *privTree[y])))

# the first n nodes of a list but for the leaves in a set
uf settled([]uint32, set.uint32, uint64) []uint32 unfold 1
fact settled(l, e, n) = implies(n == 0, len(settled(l, e, n)) == 0)
fact settled(l, e, n) = implies(0 < n, settled(l, e, n) == ite(lev(l[n - 1]) == 0 && e[l[n - 1] >> 1], settled(l, e, n - 1), cat(settled(l, e, n - 1), unit(l[n - 1]))))

# the first node of a list with a private key
uf firstPriv(arr.*bytes, []uint32) uint64 unfold 1
fact firstPriv(p, l) = 0 <= firstPriv(p, l) && firstPriv(p, l) <= len(l)
fact firstPriv(p, l) = firstPriv(p, l) == len(l) || !isnil(p[l[firstPriv(p, l)]])
fact firstPriv(p, l) = forall(i, 0, firstPriv(p, l), isnil(p[l[i]]))

# the path secret n nodes further up
uf chain(uint16, bytes, uint64) bytes unfold 1
fact chain(c, s, n) = implies(n == 0, chain(c, s, n) == s)
fact chain(c, s, n) = implies(0 < n, chain(c, s, n) == ds(c, chain(c, s, n - 1), "path"))

def pathOpened(c, p, ctx, ct) = hpkeopen(suiteOf(c), pubof(kemOf(c), p), labelled("UpdatePathNode", enc(ctx)), empty(), ct.kemOutput, ct.ciphertext)

# the child of the lowest common ancestor of the leaves x and y above y
uf towards(uint32, uint32) uint32
fact towards(x, y) = towards(x, y) == ite(y < x, leftof(common(x, y)), rightof(common(x, y)))
lemma copath_of_the_sender(x uint32, y uint32)
requires lev(x) == 0 && lev(y) == 0 && x != y
ensures towards(x, y) == offChild(x, common(x, y))
ensures towards(x, y) == anc(y, lev(common(x, y)) - 1)

func ratchetTree.decryptPathSecrets
hide resolution leafNodes allBelow filtered
tags C15 C18
limit 600
requires known(cs) && wf(*groupCtx) && wf(*path) && treeOk(tree) && unmergedOk(tree) && len(privTree) == len(tree)
requires senderLeafIndex < leavesOf(tree) && recipientLeafIndex < 0x80000000
let x = 2 * senderLeafIndex
let fp = filtered(arr(tree), x, lev(leavesOf(tree) - 1))
requires forall(i, 0, len(fp), !isnil(tree[fp[i]]))
modifies privTree
let top = common(x, 2 * recipientLeafIndex)
let a = indexOf(fp, top)
let under = resolution(arr(tree), towards(x, 2 * recipientLeafIndex))
let to = settled(under, newLeaves, len(under))
let b = firstPriv(arr(old(privTree)), to)
let s = pathOpened(cs, *old(privTree)[to[b]], *groupCtx, path.nodes[a].encryptedPathSecret[b])
invariant@nodeIndex.leafIndex forall(k, 0, len(copathResolution), uint64(copathResolution[k]) < len(tree))

# whose secret is opened, and the keys derived from it
func ratchetTree.decryptPathSecrets part keys
tags C15
hide resolution leafNodes allBelow filtered lev common ratchetTree.filteredDirectPath#2 ratchetTree.filteredDirectPath#3 ratchetTree.filteredDirectPath#4
limit 600
patience 20
ensures[C15] implies(ok, len(fp) == len(path.nodes) && a < len(fp) && b < len(to) && len(path.nodes[a].encryptedPathSecret) == len(to))
ensures[C15] implies(ok, forall(i, a, len(fp), keyOfNode(*tree[fp[i]]) == pubof(kemOf(cs), privAt(cs, chain(cs, s, i - a)))))
ensures[C15] implies(ok, result == chain(cs, s, len(fp) - a))
ensures[C15] forall(y, uint32, implies(uint64(y) < len(tree) && !exists(i, a, len(fp), fp[i] == y), privTree[y] == old(privTree)[y]))
hint ratchetTree.resolve: copathNode == towards(x, 2 * recipientLeafIndex)
hint ratchetTree.resolve: a < len(fp) && fp[a] == top
hint ratchetTree.resolve: recipientAncestorIndex == a
hint decryptPathSecret: copathResolution == to
hint decryptPathSecret: b < len(to) && !isnil(privTree[to[b]])
hint decryptPathSecret: resolutionIndex == b
hint nodePrivFromPathSecret: pathSecret == s
invariant@nodeIndex.leafIndex copathResolution == settled(under, newLeaves, idx)
invariant@- forall(k, 0, idx, fp[k] != top)
invariant@- forall(k, 0, idx, isnil(privTree[copathResolution[k]]))
invariant@nodePrivFromPathSecret pathSecret == chain(cs, s, idx)
invariant@nodePrivFromPathSecret forall(i, a, a + 1 + idx, keyOfNode(*tree[fp[i]]) == pubof(kemOf(cs), privAt(cs, chain(cs, s, i - a))))
invariant@nodePrivFromPathSecret forall(y, uint32, implies(uint64(y) < len(tree) && !exists(i, a, len(fp), fp[i] == y), privTree[y] == old(privTree)[y]))
