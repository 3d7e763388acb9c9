# Tree arithmetic (RFC 9420 appendix C). lev(x) is the level of node x, the
# number of trailing one bits of its index; anc(x, l) is the ancestor of x at
# level l in the in-order layout of the complete binary tree.
filetags C04

uf lev(uint32) uint32
fact lev(x) = lev(x) <= 32 && x & ((uint32(1) << (lev(x) + 1)) - 1) == (uint32(1) << lev(x)) - 1
def anc(x, l) = ((x >> (l + 1)) << (l + 1)) | ((uint32(1) << l) - 1)
def isanc(a, x) = lev(a) >= lev(x) && anc(x, lev(a)) == a
def pow2(n) = n != 0 && n & (n - 1) == 0
def widthof(n) = ite(n == 0, uint32(0), 2 * n - 1)
def sib(x) = x ^ (uint32(1) << (lev(x) + 1))
def leftof(x) = x - (uint32(1) << (lev(x) - 1))
def rightof(x) = x + (uint32(1) << (lev(x) - 1))
def intree(x, n) = x < 2 * n - 1

func nodeIndex.level
unroll 33
ensures result == lev(x)

func log2
unroll 33
ensures implies(x == 0, result == 0)
ensures implies(x != 0, result < 32 && x >> result == 1)

func isPowerOf2
ensures result == pow2(x)

func numLeavesFromWidth
ensures implies(w == 0, result == 0)
ensures implies(w & 1 == 1, result == (w >> 1) + 1)

func numLeaves.width
requires n <= 0x80000000
ensures result == widthof(n)

func numLeaves.root
requires n == 0 || pow2(n)
ensures result == ite(n == 0, uint32(0), n - 1)

func nodeIndex.isLeaf
ensures result == (x & 1 == 0)
ensures result == (lev(x) == 0)

func nodeIndex.leafIndex
ensures ok == (lev(x) == 0)
ensures implies(ok, result == x >> 1)

func leafIndex.nodeIndex
ensures result == 2 * li

func nodeIndex.left
ensures ok == (lev(x) != 0)
ensures implies(ok, result == leftof(x))

func nodeIndex.right
ensures ok == (lev(x) != 0)
ensures implies(ok, result == rightof(x))

func nodeIndex.children
ensures ok == (lev(x) != 0)
ensures implies(ok, left == leftof(x))
ensures implies(ok, right == rightof(x))

func numLeaves.parent
requires pow2(n) && intree(x, n)
ensures ok == (x != n - 1)
ensures implies(ok, result == anc(x, lev(x) + 1))

func numLeaves.sibling
requires pow2(n) && intree(x, n)
ensures ok == (x != n - 1)
ensures implies(ok, result == sib(x))

func numLeaves.directPath
fresh
requires pow2(n) && intree(x, n)
ensures len(result) == uint64(lev(n - 1) - lev(x))
ensures forall(i, 0, len(result), result[i] == anc(x, lev(x) + 1 + uint32(i)))
invariant intree(x, n)
invariant lev(old(x)) <= lev(x)
invariant len(path) == uint64(lev(x) - lev(old(x)))
invariant x == anc(old(x), lev(x))
invariant forall(i, 0, len(path), path[i] == anc(old(x), lev(old(x)) + 1 + uint32(i)))
measure lev(n - 1) - lev(x)

func numLeaves.copath
fresh
requires pow2(n) && intree(x, n)
ensures len(result) == uint64(lev(n - 1) - lev(x))
ensures forall(i, 0, len(result), result[i] == sib(anc(x, lev(x) + uint32(i))))
invariant len(copath) == idx
invariant forall(i, 0, len(copath), copath[i] == sib(path[i]))

# the lowest common ancestor of two nodes
uf common(uint32, uint32) uint32
fact common(x, y) = isanc(common(x, y), x) && isanc(common(x, y), y)
fact common(x, y) = forall(l, uint32, implies(lev(x) <= l && lev(y) <= l && l < lev(common(x, y)), anc(x, l) != anc(y, l)))

func commonAncestor
unroll 33
ensures isanc(result, x) && isanc(result, y)
ensures forall(l, uint32, implies(lev(x) <= l && lev(y) <= l && l < lev(result), anc(x, l) != anc(y, l)))

lemma common_is_unique(x uint32, y uint32, result uint32)
extends commonAncestor
ensures result == common(x, y)

lemma children_and_parent_are_inverse(x uint32, n uint32)
requires pow2(n) && intree(x, n) && lev(x) != 0
ensures intree(leftof(x), n) && intree(rightof(x), n) && leftof(x) < x && x < rightof(x)
ensures lev(leftof(x)) == lev(x) - 1 && lev(rightof(x)) == lev(x) - 1
ensures anc(leftof(x), lev(x)) == x && anc(rightof(x), lev(x)) == x
ensures sib(leftof(x)) == rightof(x) && sib(rightof(x)) == leftof(x)

lemma parent_has_the_node_as_child(x uint32, n uint32)
requires pow2(n) && intree(x, n) && x != n - 1
let p = anc(x, lev(x) + 1)
ensures intree(p, n) && lev(p) == lev(x) + 1
ensures x == leftof(p) || x == rightof(p)
ensures sib(x) == ite(x == leftof(p), rightof(p), leftof(p))

lemma root_is_above_every_node(x uint32, n uint32)
requires pow2(n) && intree(x, n)
ensures lev(x) <= lev(n - 1) && anc(x, lev(n - 1)) == n - 1
ensures implies(lev(x) == lev(n - 1), x == n - 1)

lemma ancestors_compose(x uint32, l uint32, m uint32)
requires lev(x) <= l && l <= m && m < 32
ensures lev(anc(x, l)) == l
ensures anc(anc(x, l), m) == anc(x, m)
