# Proposal lists of commits (RFC 9420 12.2, 12.4).
filetags C18

# what the first n proposals of a list add, touch and refer to
uf addedKeys([]proposal, uint64) set.bytes unfold 1
fact addedKeys(l, n) = implies(n == 0, addedKeys(l, n) == emptyset(bytes))
fact addedKeys(l, n) = implies(0 < n && l[n - 1].proposalType != 1, addedKeys(l, n) == addedKeys(l, n - 1))
fact addedKeys(l, n) = implies(0 < n && l[n - 1].proposalType == 1, addedKeys(l, n) == store(addedKeys(l, n - 1), l[n - 1].add.keyPackage.leafNode.signatureKey, true))

uf touched([]proposal, []uint32, uint64) set.uint32 unfold 1
fact touched(l, s, n) = implies(n == 0, touched(l, s, n) == emptyset(uint32))
fact touched(l, s, n) = implies(0 < n && l[n - 1].proposalType != 2 && l[n - 1].proposalType != 3, touched(l, s, n) == touched(l, s, n - 1))
fact touched(l, s, n) = implies(0 < n && l[n - 1].proposalType == 2, touched(l, s, n) == store(touched(l, s, n - 1), s[n - 1], true))
fact touched(l, s, n) = implies(0 < n && l[n - 1].proposalType == 3, touched(l, s, n) == store(touched(l, s, n - 1), l[n - 1].remove.removed, true))

uf pskIDs([]proposal, uint64) set.bytes unfold 1
fact pskIDs(l, n) = implies(n == 0, pskIDs(l, n) == emptyset(bytes))
fact pskIDs(l, n) = implies(0 < n && l[n - 1].proposalType != 4, pskIDs(l, n) == pskIDs(l, n - 1))
fact pskIDs(l, n) = implies(0 < n && l[n - 1].proposalType == 4, pskIDs(l, n) == store(pskIDs(l, n - 1), enc(l[n - 1].preSharedKey.psk), true))

uf changesContext([]proposal, uint64) bool unfold 1
fact changesContext(l, n) = changesContext(l, n) == (0 < n && (l[n - 1].proposalType == 7 || changesContext(l, n - 1)))

# proposal i goes together with those before it in a commit of c
def goesWith(l, s, c, i) = implies(l[i].proposalType == 1, !addedKeys(l, i)[l[i].add.keyPackage.leafNode.signatureKey]) && \
  implies(l[i].proposalType == 2, s[i] != c && !touched(l, s, i)[s[i]]) && \
  implies(l[i].proposalType == 3, l[i].remove.removed != c && !touched(l, s, i)[l[i].remove.removed]) && \
  implies(l[i].proposalType == 4, !pskIDs(l, i)[enc(l[i].preSharedKey.psk)]) && \
  implies(l[i].proposalType == 5, len(l) == 1) && l[i].proposalType != 6 && \
  implies(l[i].proposalType == 7, !changesContext(l, i))

func verifyProposalList
tags C14 C18
requires len(proposals) == len(senders) && forall(i, 0, len(proposals), wf(proposals[i]))
ensures[C14] implies(ok, forall(i, 0, len(proposals), goesWith(proposals, senders, committer, i)))
ensures[C14] implies(forall(i, 0, len(proposals), goesWith(proposals, senders, committer, i) && \
  implies(proposals[i].proposalType == 4, fits(proposals[i].preSharedKey.psk))), ok)
invariant add == addedKeys(proposals, idx)
invariant updateOrRemove == touched(proposals, senders, idx)
invariant psk == pskIDs(proposals, idx)
invariant groupContextExtensions == changesContext(proposals, idx)
invariant forall(i, 0, idx, goesWith(proposals, senders, committer, i))

# no leaf is changed twice or is that of the committer
func verifyProposalList part once
tags C14 C18
ensures[C14] implies(ok, forall(j, 0, len(proposals), implies(changesLeaf(proposals, j), changedLeaf(proposals, senders, j) != committer && \
  forall(i, 0, j, implies(changesLeaf(proposals, i), changedLeaf(proposals, senders, i) != changedLeaf(proposals, senders, j))))))
invariant forall(i, 0, idx, implies(changesLeaf(proposals, i), updateOrRemove[changedLeaf(proposals, senders, i)]))
invariant forall(j, 0, idx, implies(changesLeaf(proposals, j), changedLeaf(proposals, senders, j) != committer && \
  forall(i, 0, j, implies(changesLeaf(proposals, i), changedLeaf(proposals, senders, i) != changedLeaf(proposals, senders, j)))))

func proposalListNeedsPath
tags C14 C15 C18
requires forall(i, 0, len(proposals), wf(proposals[i]))
ensures[C14,C15] result == (len(proposals) == 0 || exists(i, 0, len(proposals), proposals[i].proposalType == 2 || proposals[i].proposalType == 3 || \
  proposals[i].proposalType == 6 || proposals[i].proposalType == 7))
invariant forall(i, 0, idx, proposals[i].proposalType != 2 && proposals[i].proposalType != 3 && proposals[i].proposalType != 6 && proposals[i].proposalType != 7)
