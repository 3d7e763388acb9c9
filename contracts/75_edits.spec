# Tree edits (RFC 9420 7.7): adding, updating and removing leaves.
filetags C18

def leafNodeOf(l) = some(mk(node, uint8(1), some(l), none(parentNode)))

# node y is a proper ancestor of leaf li
def overLeaf(y, li) = lev(y) != 0 && anc(2 * li, lev(y)) == y

func ratchetTree.update
hide allBelow
tags C05 C18
requires treeOk(tree) && li < leavesOf(tree) && wf(*leafNode)
modifies tree
ensures[C05] tree[2 * li] == leafNodeOf(*leafNode)
ensures[C05] forall(y, 0, len(tree), implies(overLeaf(uint32(y), li), isnil(tree[y])))
ensures[C05] forall(y, 0, len(tree), implies(y != uint64(2 * li) && !overLeaf(uint32(y), li), tree[y] == old(tree)[y]))
ensures treeOk(tree)
invariant uint64(ni) < len(tree) && ni == anc(2 * li, lev(ni))
measure 64 - uint64(lev(ni))
invariant tree[2 * li] == leafNodeOf(*leafNode)
invariant forall(y, 0, len(tree), implies(overLeaf(uint32(y), li) && lev(uint32(y)) <= lev(ni), isnil(tree[y])))
invariant forall(y, 0, len(tree), implies(y != uint64(2 * li) && !overLeaf(uint32(y), li), tree[y] == old(tree)[y]))
invariant treeOk(tree)
ensures implies(old(unmergedOk(tree)), unmergedOk(tree))
ensures implies(old(unmergedIn(tree)), unmergedIn(tree))

# leaf li or a node above it
def onPath(y, li) = anc(2 * li, lev(y)) == y

func ratchetTree.remove
hide allBelow
tags C05 C18
requires treeOk(*tree) && li < leavesOf(*tree)
modifies *tree
let l = old(li)
ensures[C05] len(*tree) == 0 || (len(*tree) <= len(old(*tree)) && sizeOk(*tree))
ensures[C05] forall(y, 0, len(*tree), implies(onPath(uint32(y), l), isnil((*tree)[y])))
ensures[C05] forall(y, 0, len(*tree), implies(!onPath(uint32(y), l), (*tree)[y] == old(*tree)[y]))
# no leaf is lost but the one removed
ensures[C05] forall(y, len(*tree), len(old(*tree)), implies(y & 1 == 0 && !onPath(uint32(y), l), isnil(old(*tree)[y])))
# the tree is as small as it can be
ensures[C05] implies(1 < len(*tree), exists(y, (len(*tree) + 1) >> 1, len(*tree), y & 1 == 0 && !isnil((*tree)[y])))
ensures[C05] implies(len(*tree) == 1, !isnil((*tree)[0]))
ensures implies(0 < len(*tree), treeOk(*tree))
invariant len(*tree) == len(old(*tree))
invariant uint64(ni) < len(*tree) && ni == anc(2 * l, lev(ni))
measure 64 - uint64(lev(ni))
invariant forall(y, 0, len(*tree), implies(onPath(uint32(y), l) && lev(uint32(y)) < lev(ni), isnil((*tree)[y])))
invariant forall(y, 0, len(*tree), implies(!onPath(uint32(y), l), (*tree)[y] == old(*tree)[y]))
invariant treeOk(*tree)
invariant li < leavesOf(*tree)
measure uint64(li)
invariant forall(y, uint64(2 * li) + 1, len(*tree), implies(y & 1 == 0, isnil((*tree)[y])))
invariant 2 * uint64(li) + 2 <= uint64(lastPowerOf2) && lastPowerOf2 <= len(*tree) + 1 && lastPowerOf2 & (lastPowerOf2 - 1) == 0
invariant uint64(lastPowerOf2) >> 1 <= 2 * uint64(li) || (li == 0 && lastPowerOf2 == 2)
ensures implies(old(unmergedOk(*tree)), unmergedOk(*tree))

# the leftmost blank leaf of a tree with n leaves, n if there is none
uf firstFree(arr.*node, uint32) uint32 unfold 1
fact firstFree(t, n) = firstFree(t, n) <= n
fact firstFree(t, n) = firstFree(t, n) == n || isnil(t[2 * firstFree(t, n)])
fact firstFree(t, n) = forall(i, uint32, implies(i < firstFree(t, n), !isnil(t[2 * i])))

def parentNodeOf(p) = some(mk(node, uint8(2), none(leafNode), some(p)))
def withUnmerged(p, li) = with(p, unmergedLeaves, cat(p.unmergedLeaves, unit(li)))

func ratchetTree.add
patience 12
hide allBelow.1
tags C05 C18
requires treeOk(*tree) && len(*tree) < 0x40000000 && wf(*leafNode)
modifies *tree
let f = firstFree(arr(old(*tree)), leavesOf(old(*tree)))
let size = len(old(*tree))
ensures[C05] len(*tree) == ite(f < leavesOf(old(*tree)), size, 2 * size + 1)
ensures[C05] (*tree)[2 * f] == leafNodeOf(*leafNode)
ensures[C05] forall(y, 0, size, implies(overLeaf(uint32(y), f) && !isnil(old(*tree)[y]), (*tree)[y] == parentNodeOf(withUnmerged(*old(*tree)[y].parentNode, f))))
ensures[C05] forall(y, 0, size, implies(overLeaf(uint32(y), f) && isnil(old(*tree)[y]), isnil((*tree)[y])))
ensures[C05] forall(y, 0, size, implies(!onPath(uint32(y), f), (*tree)[y] == old(*tree)[y]))
ensures[C05] forall(y, size, len(*tree), implies(y != uint64(2 * f), isnil((*tree)[y])))
ensures treeOk(*tree)
ensures implies(old(unmergedOk(*tree)), unmergedOk(*tree))
invariant li <= leavesOf(*tree)
invariant li <= f
measure uint64(leavesOf(*tree)) - uint64(li)
invariant size <= len(*tree) && len(*tree) <= 2 * size + 1
invariant forall(y, 0, size, (*tree)[y] == old(*tree)[y])
invariant forall(y, size, len(*tree), isnil((*tree)[y]))
measure 2 * size + 1 - len(*tree)
invariant uint64(p) < len(*tree) && p == anc(2 * f, lev(p))
measure 64 - uint64(lev(p))
invariant forall(y, 0, size, implies(overLeaf(uint32(y), f) && lev(uint32(y)) <= lev(p) && !isnil(old(*tree)[y]), (*tree)[y] == parentNodeOf(withUnmerged(*old(*tree)[y].parentNode, f))))
invariant forall(y, 0, size, implies(overLeaf(uint32(y), f) && lev(uint32(y)) <= lev(p) && isnil(old(*tree)[y]), isnil((*tree)[y])))
invariant forall(y, 0, size, implies(!overLeaf(uint32(y), f) || lev(p) < lev(uint32(y)), (*tree)[y] == old(*tree)[y]))
invariant treeOk(*tree)
invariant implies(old(unmergedOk(*tree)), unmergedOk(*tree))

def member(t, li) = li < leavesOf(t) && !isnil(t[2 * li])
# the leaf that proposal i updates or removes
def changesLeaf(l, i) = l[i].proposalType == 2 || l[i].proposalType == 3
def changedLeaf(l, s, i) = ite(l[i].proposalType == 2, s[i], l[i].remove.removed)

func ratchetTree.apply
hide allBelow
tags C05 C18
limit 400
patience 20
requires treeOk(*tree) && unmergedOk(*tree) && len(proposals) == len(senders) && forall(i, 0, len(proposals), wf(proposals[i]))
requires len(*tree) < 0x10000000 && len(proposals) < 0x8000000
requires forall(j, 0, len(proposals), implies(changesLeaf(proposals, j), member(*tree, changedLeaf(proposals, senders, j))))
requires forall(j, 0, len(proposals), implies(changesLeaf(proposals, j), \
  forall(i, 0, j, implies(changesLeaf(proposals, i), changedLeaf(proposals, senders, i) != changedLeaf(proposals, senders, j)))))
requires exists(li, uint32, member(*tree, li) && forall(j, 0, len(proposals), implies(changesLeaf(proposals, j), changedLeaf(proposals, senders, j) != li)))
modifies *tree
let n = leavesOf(old(*tree))
ensures treeOk(*tree) && unmergedOk(*tree)
ensures[C05] forall(li, uint32, implies(old(member(*tree, li)) && forall(j, 0, len(proposals), implies(changesLeaf(proposals, j), changedLeaf(proposals, senders, j) != li)), \
  member(*tree, li) && (*tree)[2 * li] == old(*tree)[2 * li]))
invariant treeOk(*tree) && unmergedOk(*tree)
invariant forall(li, uint32, implies(old(member(*tree, li)) && forall(j, 0, len(proposals), implies(changesLeaf(proposals, j), changedLeaf(proposals, senders, j) != li)), \
  member(*tree, li) && (*tree)[2 * li] == old(*tree)[2 * li]))
invariant@ratchetTree.update len(*tree) == len(old(*tree))
invariant@ratchetTree.update,ratchetTree.remove len(*tree) <= len(old(*tree))
invariant@ratchetTree.update forall(j, 0, len(proposals), implies(changesLeaf(proposals, j), member(*tree, changedLeaf(proposals, senders, j))))
invariant@ratchetTree.remove forall(j, idx, len(proposals), implies(proposals[j].proposalType == 3, member(*tree, proposals[j].remove.removed)))
invariant@ratchetTree.add leavesOf(*tree) <= 2 * (n + uint32(idx))
invariant@ratchetTree.add leavesOf(*tree) <= n + uint32(idx) || isnil((*tree)[2 * (n + uint32(idx))])
invariant@ratchetTree.add forall(li, uint32, implies(li < leavesOf(*tree) && n + uint32(idx) <= li, isnil((*tree)[2 * li])))
