From 264e27a6f2bd615afe375a6ae7902b8bc02461fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:22 +0000
Subject: [PATCH 01/16] fix: reject truncated key packages and group infos

The last read of these decoders returned a stale nil error on failure,
so truncated input was accepted as a message with an empty signature.
---
 group.go       | 2 +-
 key_package.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/group.go b/group.go
index d91fb76..4f7cb39 100644
--- a/group.go
+++ b/group.go
@@ -913,7 +913,7 @@ func (info *groupInfo) unmarshal(s *cryptobyte.String) error {
 	info.extensions = exts
 
 	if !readOpaqueVec(s, &info.confirmationTag) || !s.ReadUint32((*uint32)(&info.signer)) || !readOpaqueVec(s, &info.signature) {
-		return err
+		return io.ErrUnexpectedEOF
 	}
 
 	return nil
diff --git a/key_package.go b/key_package.go
index 389dba9..ad62959 100644
--- a/key_package.go
+++ b/key_package.go
@@ -72,7 +72,7 @@ func (pkg *KeyPackage) unmarshal(s *cryptobyte.String) error {
 	pkg.extensions = exts
 
 	if !readOpaqueVec(s, &pkg.signature) {
-		return err
+		return io.ErrUnexpectedEOF
 	}
 
 	return nil
-- 
2.43.0


From b848eb8bd2405fb3cab39df1a7a7d392619e08c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:22 +0000
Subject: [PATCH 02/16] fix: check the length of opaque vectors before
 allocating

A few bytes of input could claim a vector of up to 1 GiB and force an
allocation of that size before the input was found to be too short.
---
 mls.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mls.go b/mls.go
index adfc8c8..fb396d8 100644
--- a/mls.go
+++ b/mls.go
@@ -57,6 +57,10 @@ func readOpaqueVec(s *cryptobyte.String, out *[]byte) bool {
 		return false
 	}
 
+	if uint64(n) > uint64(len(*s)) {
+		return false // do not allocate more than what is available
+	}
+
 	b := make([]byte, n)
 	if !s.CopyBytes(b) {
 		return false
-- 
2.43.0


From 911b118b42ef5046ee986242fa74e28bb0d6aa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:22 +0000
Subject: [PATCH 03/16] fix: reject malformed ratchet trees when decoding

A ratchet tree must hold leaf nodes at even positions, parent nodes at
odd positions, and must not be empty or end with a blank node. Trees
breaking these rules were accepted: some made later processing panic and
others did not re-encode to the bytes they were decoded from.
---
 tree.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tree.go b/tree.go
index a0eefbe..8f8501e 100644
--- a/tree.go
+++ b/tree.go
@@ -630,6 +630,9 @@ func (tree *ratchetTree) unmarshal(s *cryptobyte.String) error {
 			if err := n.unmarshal(s); err != nil {
 				return err
 			}
+			if x := nodeIndex(len(*tree)); x.isLeaf() != (n.nodeType == nodeTypeLeaf) {
+				return fmt.Errorf("mls: invalid node type %d at index %v in ratchet tree", n.nodeType, x)
+			}
 		}
 		*tree = append(*tree, n)
 		return nil
@@ -638,6 +641,10 @@ func (tree *ratchetTree) unmarshal(s *cryptobyte.String) error {
 		return err
 	}
 
+	if n := len(*tree); n == 0 || (*tree)[n-1] == nil {
+		return fmt.Errorf("mls: ratchet tree is empty or ends with a blank node")
+	}
+
 	// The raw tree doesn't include blank nodes at the end, fill it until next
 	// power of 2
 	for !isPowerOf2(uint32(len(*tree) + 1)) {
-- 
2.43.0


From 10774ebd2ea7321fcf98849c70cee2cfb805125c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:22 +0000
Subject: [PATCH 04/16] fix: handle out-of-range leaf indices in received
 messages

A message naming a sender or signer beyond the end of the ratchet tree
made processing panic. Large indices also wrapped around when converted
to a node index, so index 2^31 was treated as an alias of leaf 0.
---
 group.go | 4 ++++
 tree.go  | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/group.go b/group.go
index 4f7cb39..498c871 100644
--- a/group.go
+++ b/group.go
@@ -343,6 +343,10 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("failed to decrypt sender data: %v", err)
 	}
 
+	if group.tree.getLeaf(senderData.leafIndex) == nil {
+		return nil, fmt.Errorf("mls: blank leaf node for sender")
+	}
+
 	encryptionSecret, err := cs.deriveSecret(group.epochSecret, secretLabelEncryption)
 	if err != nil {
 		return nil, fmt.Errorf("failed to derive encryption secret: %v", err)
diff --git a/tree.go b/tree.go
index 8f8501e..c4905cc 100644
--- a/tree.go
+++ b/tree.go
@@ -686,7 +686,13 @@ func (tree ratchetTree) set(i nodeIndex, node *node) {
 	tree[int(i)] = node
 }
 
+// getLeaf returns the leaf node at the provided leaf index.
+//
+// nil is returned for blank leaves and if the index is out of range.
 func (tree ratchetTree) getLeaf(li leafIndex) *leafNode {
+	if uint64(li) >= uint64(tree.numLeaves()) {
+		return nil
+	}
 	node := tree.get(li.nodeIndex())
 	if node == nil {
 		return nil
-- 
2.43.0


From aeafd965e49374316784159dc2a54dacc48ac4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:22 +0000
Subject: [PATCH 05/16] fix: reject remove proposals which do not name a member

Section 12.1.3 requires the removed leaf to be non-blank. An index beyond
the end of the tree made processing the commit panic.
---
 group.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/group.go b/group.go
index 498c871..26888b5 100644
--- a/group.go
+++ b/group.go
@@ -443,6 +443,9 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 				return fmt.Errorf("failed to verify add proposal: %v", err)
 			}
 		}
+		if prop.proposalType == proposalTypeRemove && group.tree.getLeaf(prop.remove.removed) == nil {
+			return fmt.Errorf("mls: remove proposal for a blank leaf node")
+		}
 	}
 
 	// TODO: additional proposal list checks
-- 
2.43.0


From d7fa1f2268795ee6e7887b9f1b4f345c85e63ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:22 +0000
Subject: [PATCH 06/16] fix: check that unmerged leaves are non-blank leaves of
 the tree

This check of section 12.4.3.1 was missing. An index beyond the end of
the tree made the parent hash verification panic.
---
 tree.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tree.go b/tree.go
index c4905cc..4ba653d 100644
--- a/tree.go
+++ b/tree.go
@@ -773,6 +773,17 @@ func (tree ratchetTree) verifyIntegrity(ctx *groupContext, now func() time.Time)
 	cs := ctx.cipherSuite
 	numLeaves := tree.numLeaves()
 
+	for i, node := range tree {
+		if node == nil || node.nodeType != nodeTypeParent {
+			continue
+		}
+		for _, unmergedLeaf := range node.parentNode.unmergedLeaves {
+			if tree.getLeaf(unmergedLeaf) == nil {
+				return fmt.Errorf("mls: unmerged leaf %v of the parent node at index %v is blank", unmergedLeaf, i)
+			}
+		}
+	}
+
 	if h, err := tree.computeRootTreeHash(cs); err != nil {
 		return err
 	} else if !bytes.Equal(h, ctx.treeHash) {
-- 
2.43.0


From 8245f9ccb1ca2f793f725103ecc7b0bdaceca5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:22 +0000
Subject: [PATCH 07/16] fix: reject malformed ECDSA public keys

Verifying a signature with a public key which is not a valid curve point
panicked.
---
 ciphersuite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciphersuite.go b/ciphersuite.go
index c2edb39..d0ef625 100644
--- a/ciphersuite.go
+++ b/ciphersuite.go
@@ -365,6 +365,9 @@ func (scheme ecdsaSignatureScheme) Sign(signKey, message []byte) ([]byte, error)
 
 func (scheme ecdsaSignatureScheme) Verify(publicKey, message, sig []byte) bool {
 	x, y := elliptic.Unmarshal(scheme.curve, publicKey)
+	if x == nil {
+		return false
+	}
 	pub := &ecdsa.PublicKey{Curve: scheme.curve, X: x, Y: y}
 	return ecdsa.VerifyASN1(pub, scheme.hashSum(message), sig)
 }
-- 
2.43.0


From 552016b8a2a8ecad3f424aca8fc9a24da35bb182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:22 +0000
Subject: [PATCH 08/16] fix: return an error for secrets with an invalid size

Path secrets chosen by the sender of a welcome or commit message can be
shorter than what the key derivation functions accept. These functions
panic in this case, as well as when deriving a key pair for cipher suites
with a seed size different from the hash size.
---
 ciphersuite.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ciphersuite.go b/ciphersuite.go
index d0ef625..2030011 100644
--- a/ciphersuite.go
+++ b/ciphersuite.go
@@ -177,6 +177,9 @@ func (cs CipherSuite) expandWithLabel(secret, label, context []byte, length uint
 	}
 
 	_, kdf, _ := cs.hpke().Params()
+	if len(secret) < kdf.ExtractSize() {
+		return nil, fmt.Errorf("mls: secret is too short")
+	}
 	return kdf.Expand(secret, kdfLabel, uint(length)), nil
 }
 
@@ -278,6 +281,9 @@ func (cs CipherSuite) generateEncryptionKeyPair() (hpkePublicKey, hpkePrivateKey
 
 func (cs CipherSuite) deriveEncryptionKeyPair(seed []byte) (hpkePublicKey, hpkePrivateKey, error) {
 	kem, _, _ := cs.hpke().Params()
+	if len(seed) != kem.Scheme().SeedSize() {
+		return nil, nil, fmt.Errorf("mls: invalid seed size to derive encryption key pair")
+	}
 	pub, priv := kem.Scheme().DeriveKeyPair(seed)
 
 	rawPub, err := pub.MarshalBinary()
-- 
2.43.0


From 4e0fba1fd31c7a57c82d53fdf3cd7f8e7da1286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:22 +0000
Subject: [PATCH 09/16] fix: do not panic on unknown cipher suites in received
 messages

Welcome messages, group infos and key packages with a cipher suite this
library does not know about made processing panic. Welcome messages whose
cipher suite differs from the key package are now rejected, as required
by section 12.4.3.1.
---
 group.go       | 11 ++++++++---
 key_package.go |  4 ++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/group.go b/group.go
index 26888b5..69afdea 100644
--- a/group.go
+++ b/group.go
@@ -99,6 +99,10 @@ func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 
 // GroupFromWelcome creates a new group from a welcome message.
 func GroupFromWelcome(welcome *Welcome, keyPairPkg *KeyPairPackage) (*Group, error) {
+	if welcome.cipherSuite != keyPairPkg.Public.cipherSuite {
+		return nil, fmt.Errorf("mls: welcome cipher suite doesn't match key package")
+	}
+
 	keyPkgRef, err := keyPairPkg.Public.GenerateRef()
 	if err != nil {
 		return nil, fmt.Errorf("failed to generate key package ref: %v", err)
@@ -141,6 +145,10 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 		return nil, fmt.Errorf("failed to decrypt group info: %v", err)
 	}
 
+	if groupInfo.groupContext.cipherSuite != welcome.cipherSuite {
+		return nil, fmt.Errorf("mls: group info cipher suite doesn't match key package")
+	}
+
 	rawTree := options.rawTree
 	if rawTree == nil {
 		rawTree = findExtensionData(groupInfo.extensions, extensionTypeRatchetTree)
@@ -163,9 +171,6 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 	if !groupInfo.verifyConfirmationTag(groupSecrets.joinerSecret, pskSecret) {
 		return nil, fmt.Errorf("mls: failed to verify confirmation tag")
 	}
-	if groupInfo.groupContext.cipherSuite != welcome.cipherSuite {
-		return nil, fmt.Errorf("mls: group info cipher suite doesn't match key package")
-	}
 
 	if err := tree.verifyIntegrity(&groupInfo.groupContext, options.now); err != nil {
 		return nil, fmt.Errorf("failed to verify ratchet tree integrity: %v", err)
diff --git a/key_package.go b/key_package.go
index ad62959..a65b97e 100644
--- a/key_package.go
+++ b/key_package.go
@@ -141,6 +141,10 @@ func (pkg *KeyPackage) verify(ctx *groupContext) error {
 
 // GenerateRef generates this key package's reference.
 func (pkg *KeyPackage) GenerateRef() (KeyPackageRef, error) {
+	if _, ok := cipherSuiteDescriptions[pkg.cipherSuite]; !ok {
+		return nil, fmt.Errorf("mls: invalid cipher suite %d", pkg.cipherSuite)
+	}
+
 	var b cryptobyte.Builder
 	pkg.marshal(&b)
 	raw, err := b.Bytes()
-- 
2.43.0


From a228e75d4a968d2b7703f5e1ff91aa715c298ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:53 +0000
Subject: [PATCH 10/16] fix: verify the confirmation tag of commits

The group moved to the new epoch without checking that the committer
reached the same state, as required by section 12.4.2.
---
 group.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/group.go b/group.go
index 69afdea..aefa29f 100644
--- a/group.go
+++ b/group.go
@@ -553,6 +553,13 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		return fmt.Errorf("failed to extract epoch secret: %v", err)
 	}
 
+	confirmationKey, err := cs.deriveSecret(newEpochSecret, secretLabelConfirm)
+	if err != nil {
+		return fmt.Errorf("failed to derive confirmation key: %v", err)
+	} else if !authContent.auth.verifyConfirmationTag(cs, confirmationKey, newGroupCtx.confirmedTranscriptHash) {
+		return fmt.Errorf("mls: failed to verify confirmation tag")
+	}
+
 	newInitSecret, err := cs.deriveSecret(newEpochSecret, secretLabelInit)
 	if err != nil {
 		return fmt.Errorf("failed to erive init secret: %v", err)
-- 
2.43.0


From bbe04ed121150441b677055dfd57ac4aa918ddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:53 +0000
Subject: [PATCH 11/16] fix: do not modify shared parent nodes when adding a
 leaf

Copies of a ratchet tree share their nodes. Creating a welcome message or
processing an invalid commit changed the unmerged leaves of the current
tree of the group, so that members disagreed about the tree hash later.
---
 tree.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tree.go b/tree.go
index 4ba653d..a60a7d2 100644
--- a/tree.go
+++ b/tree.go
@@ -1066,9 +1066,16 @@ func (tree *ratchetTree) add(leafNode *leafNode) {
 		if !ok {
 			break
 		}
-		node := tree.get(p)
-		if node != nil {
-			node.parentNode.unmergedLeaves = append(node.parentNode.unmergedLeaves, li)
+		if n := tree.get(p); n != nil {
+			// The node may be shared with copies of the tree, don't change it
+			// in place
+			parent := *n.parentNode
+			parent.unmergedLeaves = append([]leafIndex(nil), parent.unmergedLeaves...)
+			parent.unmergedLeaves = append(parent.unmergedLeaves, li)
+			tree.set(p, &node{
+				nodeType:   nodeTypeParent,
+				parentNode: &parent,
+			})
 		}
 	}
 
-- 
2.43.0


From 29391462aff9597b57c952e977690473346383c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:53 +0000
Subject: [PATCH 12/16] fix: derive path secrets along the filtered direct path
 when joining

The path secret of each ancestor was derived from the received secret
instead of the previous path secret. Blank ancestors, which are not part
of the filtered direct path, made processing the welcome message panic.
---
 group.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index aefa29f..ce4268c 100644
--- a/group.go
+++ b/group.go
@@ -225,6 +225,9 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 }
 
 func processPathSecret(cs CipherSuite, tree ratchetTree, privTree []hpkePrivateKey, pathSecret []byte, nodeIndex nodeIndex) error {
+	if tree.get(nodeIndex) == nil {
+		return fmt.Errorf("mls: path secret for blank node %v", nodeIndex)
+	}
 	nodePriv, err := nodePrivFromPathSecret(cs, pathSecret, tree.get(nodeIndex).encryptionKey())
 	if err != nil {
 		return fmt.Errorf("failed to derive node %v private key from path secret: %v", nodeIndex, err)
@@ -238,7 +241,11 @@ func processPathSecret(cs CipherSuite, tree ratchetTree, privTree []hpkePrivateK
 			break
 		}
 
-		pathSecret, err := cs.deriveSecret(pathSecret, []byte("path"))
+		if tree.get(nodeIndex) == nil {
+			continue // not in the filtered direct path
+		}
+
+		pathSecret, err = cs.deriveSecret(pathSecret, []byte("path"))
 		if err != nil {
 			return fmt.Errorf("failed to derive path secret: %v", err)
 		}
-- 
2.43.0


From 06794d58b76ec6b1b4eb0ce94ed37ff1f1ccdd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:53 +0000
Subject: [PATCH 13/16] fix: verify key packages when creating a welcome
 message

Key packages which other members reject, for instance with another cipher
suite, resulted in a commit nobody could process. Key packages with an
unknown cipher suite made the function panic.
---
 group.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/group.go b/group.go
index ce4268c..c6116c0 100644
--- a/group.go
+++ b/group.go
@@ -629,6 +629,9 @@ func (group *Group) CreateWelcome(keyPkgs []KeyPackage) (*Welcome, []byte, error
 	proposals := make([]proposal, len(keyPkgs))
 	proposalOrRefs := make([]proposalOrRef, len(keyPkgs))
 	for i, keyPkg := range keyPkgs {
+		if err := keyPkg.verify(&group.groupContext); err != nil {
+			return nil, nil, fmt.Errorf("failed to verify key package: %v", err)
+		}
 		proposals[i] = proposal{
 			proposalType: proposalTypeAdd,
 			add:          &add{keyPackage: keyPkg},
-- 
2.43.0


From be372f88e22769c10ce7092c8f4fab27b5118900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:07 +0000
Subject: [PATCH 14/16] fix: process commits which add members and carry an
 update path

The committer does not encrypt path secrets for the leaves added by the
same commit. They were not excluded from the resolution of copath nodes,
so existing members rejected these commits or picked the wrong ciphertext.
---
 group.go | 11 ++++++++++-
 tree.go  | 13 +++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/group.go b/group.go
index c6116c0..13a2d44 100644
--- a/group.go
+++ b/group.go
@@ -523,7 +523,16 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 
 		// TODO: update group context extensions
 
-		commitSecret, err = newTree.decryptPathSecrets(cs, &newGroupCtx, senderLeafIndex, group.myLeafIndex, commit.path, newPrivTree)
+		newLeaves := make(map[leafIndex]struct{})
+		for _, prop := range proposals {
+			if prop.proposalType == proposalTypeAdd {
+				if li, ok := newTree.findLeaf(&prop.add.keyPackage.leafNode); ok {
+					newLeaves[li] = struct{}{}
+				}
+			}
+		}
+
+		commitSecret, err = newTree.decryptPathSecrets(cs, &newGroupCtx, senderLeafIndex, group.myLeafIndex, commit.path, newPrivTree, newLeaves)
 		if err != nil {
 			return fmt.Errorf("failed to decrypt path secrets: %v", err)
 		}
diff --git a/tree.go b/tree.go
index a60a7d2..14126a0 100644
--- a/tree.go
+++ b/tree.go
@@ -1239,7 +1239,7 @@ func (tree ratchetTree) mergeUpdatePath(cs CipherSuite, senderLeafIndex leafInde
 	return nil
 }
 
-func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContext, senderLeafIndex, recipientLeafIndex leafIndex, path *updatePath, privTree []hpkePrivateKey) ([]byte, error) {
+func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContext, senderLeafIndex, recipientLeafIndex leafIndex, path *updatePath, privTree []hpkePrivateKey, newLeaves map[leafIndex]struct{}) ([]byte, error) {
 	senderNodeIndex := senderLeafIndex.nodeIndex()
 	recipientNodeIndex := recipientLeafIndex.nodeIndex()
 
@@ -1278,7 +1278,16 @@ func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContex
 		panic("unreachable")
 	}
 
-	copathResolution := tree.resolve(copathNode)
+	// Path secrets are not encrypted for members added by the commit
+	var copathResolution []nodeIndex
+	for _, ni := range tree.resolve(copathNode) {
+		if li, ok := ni.leafIndex(); ok {
+			if _, added := newLeaves[li]; added {
+				continue
+			}
+		}
+		copathResolution = append(copathResolution, ni)
+	}
 	if len(updatePathNode.encryptedPathSecret) != len(copathResolution) {
 		return nil, fmt.Errorf("mls: invalid UpdatePathNode.encrypted_path_secret length")
 	}
-- 
2.43.0


From 7ace83f55b7fd628d264879577dc330b728be858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:34 +0000
Subject: [PATCH 15/16] fix: count each supported credential type once per
 member

A member listing a credential type twice in its capabilities was counted
twice, so a type could pass as supported by everyone when it was not, or
be rejected although everyone supports it.
---
 tree.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index 14126a0..9382cbb 100644
--- a/tree.go
+++ b/tree.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"slices"
 	"time"
 
 	"golang.org/x/crypto/cryptobyte"
@@ -733,7 +734,10 @@ func (tree ratchetTree) supportedCreds() map[credentialType]struct{} {
 		}
 
 		numMembers++
-		for _, ct := range node.capabilities.credentials {
+		for i, ct := range node.capabilities.credentials {
+			if slices.Contains(node.capabilities.credentials[:i], ct) {
+				continue // count each type once per member
+			}
 			supportedCredsCount[ct]++
 		}
 	}
-- 
2.43.0


From d21ef660fedac021758be13c0e6e8990b2c99298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:46 +0000
Subject: [PATCH 16/16] fix: start groups with an empty confirmed transcript
 hash

RFC 9420 sections 8.2 and 11 define the confirmed transcript hash of the
initial epoch as the zero-length string. The library used a string of
zeros of the hash length.
---
 group.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 13a2d44..00e907d 100644
--- a/group.go
+++ b/group.go
@@ -47,7 +47,9 @@ func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 		return nil, fmt.Errorf("failed to compute root tree hash: %v", err)
 	}
 
-	confirmedTranscriptHash := make([]byte, cs.hash().Size())
+	// The confirmed transcript hash of the initial epoch is empty, see
+	// RFC 9420 sections 8.2 and 11
+	var confirmedTranscriptHash []byte
 
 	_, kdf, _ := cs.hpke().Params()
 	epochSecret := make([]byte, kdf.ExtractSize())
-- 
2.43.0

