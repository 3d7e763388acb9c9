# Update paths (RFC 9420 7.5, 7.6, 7.9, 12.4.2).
filetags C15 C18

# ---- what does not depend on the path of a leaf ----

# y is not x and not above x
def offPath(x, y) = anc(x, lev(y)) != y

# the child of p that is not above x
def offChild(x, p) = sib(anc(x, lev(p) - 1))

# a and b are equal but for the leaf x and what is above it; c is a cipher suite
uf sameOff(uint16, arr.*node, arr.*node, uint32) bool unfold 1
fact sameOff(c, a, b, x) = sameOff(c, a, b, x) == forall(y, uint32, implies(offPath(x, y), a[y] == b[y]))
# these follow by induction on the level, see the lemmas
fact sameOff(c, a, b, x) = implies(sameOff(c, a, b, x) && lev(x) == 0, forall(y, uint32, implies(offPath(x, y), resolution(a, y) == resolution(b, y))))
fact sameOff(c, a, b, x) = implies(sameOff(c, a, b, x) && lev(x) == 0, forall(y, uint32, implies(offPath(x, y), treeHash(c, a, y, emptyset(uint32)) == treeHash(c, b, y, emptyset(uint32)))))
fact sameOff(c, a, b, x) = implies(sameOff(c, a, b, x) && lev(x) == 0, forall(l, uint32, implies(l < 32, filtered(a, x, l) == filtered(b, x, l))))

# the nodes above x up to level l whose child off the path has a resolution
def copathOf(x, l) = sib(anc(x, l))
uf filtered(arr.*node, uint32, uint32) []uint32 unfold 1
fact filtered(t, x, l) = implies(l <= lev(x), len(filtered(t, x, l)) == 0)
fact filtered(t, x, l) = implies(lev(x) < l && len(resolution(t, copathOf(x, l - 1))) == 0, filtered(t, x, l) == filtered(t, x, l - 1))
fact filtered(t, x, l) = implies(lev(x) < l && len(resolution(t, copathOf(x, l - 1))) != 0, filtered(t, x, l) == cat(filtered(t, x, l - 1), unit(anc(x, l))))

lemma off_children(x uint32, y uint32)
requires lev(x) == 0 && lev(y) != 0 && lev(y) < 32 && offPath(x, y)
ensures offPath(x, leftof(y)) && offPath(x, rightof(y))
ensures lev(leftof(y)) == lev(y) - 1 && lev(rightof(y)) == lev(y) - 1

lemma off_resolution_leaf(a arr.*node, b arr.*node, x uint32, y uint32)
requires a[y] == b[y] && lev(y) == 0
ensures resolution(a, y) == resolution(b, y)

lemma off_resolution_step(a arr.*node, b arr.*node, x uint32, y uint32)
requires a[y] == b[y] && lev(y) != 0 && resolution(a, leftof(y)) == resolution(b, leftof(y)) && resolution(a, rightof(y)) == resolution(b, rightof(y))
ensures resolution(a, y) == resolution(b, y)

lemma off_hash_leaf(c uint16, a arr.*node, b arr.*node, y uint32)
requires a[y] == b[y] && lev(y) == 0
ensures treeHash(c, a, y, emptyset(uint32)) == treeHash(c, b, y, emptyset(uint32))

lemma off_hash_step(c uint16, a arr.*node, b arr.*node, y uint32)
requires a[y] == b[y] && lev(y) != 0
requires treeHash(c, a, leftof(y), emptyset(uint32)) == treeHash(c, b, leftof(y), emptyset(uint32))
requires treeHash(c, a, rightof(y), emptyset(uint32)) == treeHash(c, b, rightof(y), emptyset(uint32))
ensures treeHash(c, a, y, emptyset(uint32)) == treeHash(c, b, y, emptyset(uint32))

lemma off_copath(x uint32, l uint32)
requires lev(x) == 0 && l < 31
ensures offPath(x, copathOf(x, l)) && lev(copathOf(x, l)) == l

lemma off_filtered_leaf(a arr.*node, b arr.*node, x uint32)
ensures filtered(a, x, lev(x)) == filtered(b, x, lev(x))

lemma off_filtered_step(a arr.*node, b arr.*node, x uint32, l uint32)
requires lev(x) == 0 && 0 < l && l < 32 && filtered(a, x, l - 1) == filtered(b, x, l - 1) 
requires resolution(a, copathOf(x, l - 1)) == resolution(b, copathOf(x, l - 1))
ensures filtered(a, x, l) == filtered(b, x, l)

# the first position of v in a list, its length if there is none
uf indexOf([]uint32, uint32) uint64 unfold 1
fact indexOf(l, v) = 0 <= indexOf(l, v) && indexOf(l, v) <= len(l)
fact indexOf(l, v) = indexOf(l, v) == len(l) || l[indexOf(l, v)] == v
fact indexOf(l, v) = forall(i, 0, indexOf(l, v), l[i] != v)

func ratchetTree.filteredDirectPath
hide resolution leafNodes allBelow
tags C15 C18
fresh
requires treeOk(tree) && uint64(x) < len(tree)
let r = lev(leavesOf(tree) - 1)
ensures[C15] result == filtered(arr(tree), x, r)
invariant uint64(x) < len(tree) && x == anc(old(x), lev(x)) && lev(old(x)) <= lev(x)
invariant path == filtered(arr(tree), old(x), lev(x))
measure 64 - uint64(lev(x))
ensures forall(i, 0, len(result), uint64(result[i]) < len(tree) && lev(x) < lev(result[i]) && result[i] == anc(x, lev(result[i])))
invariant forall(i, 0, len(path), uint64(path[i]) < len(tree) && lev(old(x)) < lev(path[i]) && lev(path[i]) <= lev(x) && path[i] == anc(old(x), lev(path[i])))
ensures forall(i, 0, len(result), len(resolution(arr(tree), offChild(x, result[i]))) != 0)
invariant forall(i, 0, len(path), len(resolution(arr(tree), offChild(old(x), path[i]))) != 0)
# from the bottom to the top
ensures forall(j, 0, len(result), forall(i, 0, j, lev(result[i]) < lev(result[j])))
invariant forall(j, 0, len(path), forall(i, 0, j, lev(path[i]) < lev(path[j])))

# ---- merging an update path (7.5, 7.9.2) ----

# the parent hash that the node below fp[i] on the path of x carries
uf linkHash(uint16, arr.*node, uint32, []uint32, []updatePathNode, uint64) bytes unfold 1
fact linkHash(c, t, x, fp, nodes, i) = implies(len(fp) <= i, len(linkHash(c, t, x, fp, nodes, i)) == 0)
fact linkHash(c, t, x, fp, nodes, i) = implies(i < len(fp), linkHash(c, t, x, fp, nodes, i) == \
  hash(hashOf(c), cat(opq(nodes[i].encryptionKey), opq(linkHash(c, t, x, fp, nodes, i + 1)), opq(treeHash(c, t, offChild(x, fp[i]), emptyset(uint32))))))

def pathNode(k, h) = parentNodeOf(mk(parentNode, k, h, empty("[]uint32")))
# y is above x and nobody is below its other child
uf unneeded(arr.*node, uint32, uint32) bool
fact unneeded(t, x, y) = unneeded(t, x, y) == (lev(y) != 0 && !offPath(x, y) && len(resolution(t, offChild(x, y))) == 0)

func ratchetTree.mergeUpdatePath
hide resolution leafNodes allBelow treeHash filtered linkHash
tags C15 C18
limit 600
patience 20
requires known(cs) && treeOk(tree) && senderLeafIndex < leavesOf(tree) && wf(*path)
modifies tree
let x = 2 * senderLeafIndex
let t = arr(old(tree))
let fp = filtered(t, x, lev(leavesOf(tree) - 1))
ensures treeOk(tree)
ensures[C15] sameOff(cs, arr(tree), t, x)
ensures[C15] implies(ok, len(fp) == len(path.nodes))
ensures[C15] implies(ok, tree[x] == leafNodeOf(path.leafNode))
invariant@ratchetTree.set,ratchetTree.computeTreeHash treeOk(tree)
invariant@ratchetTree.set,ratchetTree.computeTreeHash sameOff(cs, arr(tree), t, x)
invariant@ratchetTree.set forall(j, 0, idx, tree[fp[j]] == pathNode(path.nodes[j].encryptionKey, empty()))
invariant@ratchetTree.computeTreeHash 0 - 1 <= i && i < len(fp)
invariant@ratchetTree.computeTreeHash forall(j, 0, i + 1, tree[fp[j]] == pathNode(path.nodes[j].encryptionKey, empty()))
invariant@- offPath(x, l) || lev(l) == 0 || idx < uint64(lev(l))
invariant@ratchetTree.set forall(j, 0, idx, owned(tree)[uint64(fp[j])])
invariant@ratchetTree.computeTreeHash forall(j, 0, len(fp), owned(tree)[uint64(fp[j])])

# the chain of parent hashes
func ratchetTree.mergeUpdatePath part hashes
tags C15
hide resolution leafNodes allBelow treeHash filtered
limit 600
patience 20
ensures[C15] implies(ok, forall(i, 0, len(fp), tree[fp[i]] == pathNode(path.nodes[i].encryptionKey, linkHash(cs, t, x, fp, path.nodes, i + 1))))
ensures[C15] implies(ok, path.leafNode.parentHash == linkHash(cs, t, x, fp, path.nodes, 0))
invariant@ratchetTree.set,ratchetTree.computeTreeHash treeOk(tree)
invariant@ratchetTree.set,ratchetTree.computeTreeHash sameOff(cs, arr(tree), t, x)
invariant@ratchetTree.set forall(j, 0, idx, tree[fp[j]] == pathNode(path.nodes[j].encryptionKey, empty()))
invariant@ratchetTree.computeTreeHash 0 - 1 <= i && i < len(fp)
invariant@ratchetTree.computeTreeHash forall(j, 0, i + 1, tree[fp[j]] == pathNode(path.nodes[j].encryptionKey, empty()))
invariant@ratchetTree.computeTreeHash forall(j, i + 1, len(fp), tree[fp[j]] == pathNode(path.nodes[j].encryptionKey, linkHash(cs, t, x, fp, path.nodes, j + 1)))
invariant@ratchetTree.computeTreeHash prevParentHash == linkHash(cs, t, x, fp, path.nodes, i + 1)
invariant@- offPath(x, l) || lev(l) == 0 || idx < uint64(lev(l))
invariant@ratchetTree.set forall(j, 0, idx, owned(tree)[uint64(fp[j])])
invariant@ratchetTree.computeTreeHash forall(j, 0, len(fp), owned(tree)[uint64(fp[j])])
hint ratchetTree.computeTreeHash: s == offChild(x, fp[i])
hint ratchetTree.computeTreeHash: offPath(x, s)
hint ratchetTree.computeTreeHash: treeHash(cs, arr(tree), s, emptyset(uint32)) == treeHash(cs, t, s, emptyset(uint32))

# nodes of the path without a key are blank
func ratchetTree.mergeUpdatePath part blank
tags C15
hide resolution leafNodes allBelow treeHash filtered linkHash
limit 600
patience 20
ensures[C15] implies(ok, forall(y, uint32, implies(uint64(y) < len(tree) && unneeded(t, x, y), isnil(tree[y]))))
invariant@ratchetTree.set,ratchetTree.computeTreeHash treeOk(tree)
invariant@ratchetTree.set,ratchetTree.computeTreeHash sameOff(cs, arr(tree), t, x)
invariant@ratchetTree.set forall(y, uint32, implies(uint64(y) < len(tree) && lev(y) != 0 && !offPath(x, y) && lev(y) <= uint32(idx), isnil(tree[y])))
invariant@ratchetTree.set,ratchetTree.computeTreeHash forall(y, uint32, implies(uint64(y) < len(tree) && unneeded(t, x, y), isnil(tree[y])))
invariant@ratchetTree.computeTreeHash 0 - 1 <= i && i < len(fp)
invariant@ratchetTree.set forall(j, 0, idx, tree[fp[j]] == pathNode(path.nodes[j].encryptionKey, empty()))
invariant@ratchetTree.computeTreeHash forall(j, 0, i + 1, tree[fp[j]] == pathNode(path.nodes[j].encryptionKey, empty()))
invariant@ratchetTree.set forall(j, 0, idx, owned(tree)[uint64(fp[j])])
invariant@ratchetTree.computeTreeHash forall(j, 0, len(fp), owned(tree)[uint64(fp[j])])
hint ratchetTree.set: offPath(x, offChild(x, ni))
hint ratchetTree.set: len(resolution(t, offChild(x, ni))) != 0
hint ratchetTree.set: !unneeded(t, x, ni)
