#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Accepted wire input is canonical: it re-encodes to the same bytes",
 "Whenever decoding a wire structure succeeds, encoding the decoded value yields exactly the bytes that were consumed, and a decoder for a whole message consumes its whole input. So truncated input, trailing bytes, non-minimal length prefixes, unknown discriminants, and ratchet trees with misplaced nodes or trailing blanks are all rejected.",
 ["inputs"], "every byte string handed to any decoder",
 "Test vectors decode a few hundred well-formed messages and a handful of bad varints; they never enumerate malformed, truncated or padded inputs, and the set of byte strings is infinite.",
 ["mls.go","framing.go","group.go","key_package.go","proposal.go","tree.go","key_schedule.go","crypto.go"],
 [("variable-length integer and vector readers","mls.go: readVarint, readOpaqueVec, readVector, readOptional"),("per-structure decoders","*.go: unmarshal methods"),("whole-input check","mls.go: unmarshal")],
 ["result of decoding","bytes of re-encoding the decoded value"])
prop("C02", "Encoding follows RFC 9420 and decoding inverts it",
 "For every well-formed value, encoding either fails because a field exceeds the 2^30-1 byte limit of a vector, or produces exactly the encoding RFC 9420 defines for that structure. Decoding those bytes followed by any suffix succeeds, returns an equal value and leaves exactly the suffix.",
 ["inputs"], "every well-formed value of every wire structure, every suffix",
 "Vectors cover one or two values of each structure; unions, empty and multi-element vectors, boundary lengths and field orderings that happen to coincide are not distinguished.",
 ["mls.go","framing.go","group.go","key_package.go","proposal.go","tree.go","key_schedule.go","crypto.go"],
 [("per-structure encoders","*.go: marshal methods"),("vector and varint writers","mls.go: writeVarint, writeOpaqueVec, writeVector, writeOptional")],
 ["encoded bytes","decoded value"])
prop("C03", "Decoding any bytes terminates without panic or outsized allocation",
 "Decoding an arbitrary byte string ends with a value or an error: it never panics and never loops without consuming input. No buffer is allocated from a length claimed by the input before that many bytes are known to be present.",
 ["inputs"], "every byte string handed to any decoder",
 "The tests decode valid vectors only; absence of panics over all inputs cannot be observed on examples.",
 ["mls.go","framing.go","group.go","key_package.go","proposal.go","tree.go","key_schedule.go","crypto.go"],
 [("bounds checks of the byte reader","mls.go: readVarint, readOpaqueVec, readVector"),("discriminant checks before unions","unmarshal methods of the enumeration types")],
 ["panics","memory allocated while decoding"])
prop("C04", "Tree arithmetic matches the complete binary tree for every size",
 "For every tree of 2^k leaves that fits 32-bit indices and every node in it, root, level, children, parent, sibling, direct path, copath and common ancestor are those of the complete balanced binary tree laid out in order as RFC 9420 appendix C defines. Children and parent are inverse, the direct path lists every ancestor once up to the root, and the copath lists exactly the siblings of the node and of its non-root ancestors in the same order.",
 ["inputs","configurations"], "all tree sizes 2^k up to the 32-bit limit and all node indices",
 "The vectors check sizes up to 2^9 leaves or so and only some functions; shift and width errors show at large indices only.",
 ["tree_math.go"],
 [("bit arithmetic on node indices","tree_math.go")],
 ["indices returned for root, parent, children, sibling, direct path, copath, common ancestor"])
prop("C05", "Tree edits change exactly what RFC 9420 section 7.7 says",
 "Adding a member puts its leaf at the leftmost blank leaf, or doubles the tree when there is none, and appends it to the unmerged leaves of each non-blank ancestor; updating replaces the leaf and blanks its ancestors; removing blanks the leaf and its ancestors and shrinks the tree to the smallest size that holds the rightmost member. A proposal list is applied as updates, then removals, then additions, each in list order. All other nodes keep their content, the number of nodes plus one stays a power of two, and no other copy of the tree changes.",
 ["inputs","histories"], "every tree, every leaf, every proposal list, every sharing between tree copies",
 "Vectors apply single operations to trees of at most a few dozen leaves and compare the result only; they do not look at the tree the copy was made from and cover few shapes.",
 ["tree.go"],
 [("add, update, remove","tree.go: add, update, remove"),("application order","tree.go: apply"),("copying","tree.go: copy")],
 ["ratchet tree contents after the operation","contents of the tree it was copied from"])
prop("C06", "Tree hashes and parent hashes are the RFC 9420 recursion for every tree",
 "For every tree, node and set of excluded leaves, the tree hash is the hash of the RFC 9420 section 7.8 input built recursively from the node and its children, with excluded leaves treated as blank and left out of unmerged lists. The parent hash of a node is the hash of its encryption key, its own parent hash and the original tree hash of the sibling subtree, as section 7.9 defines.",
 ["inputs"], "all trees, nodes and exclusion sets",
 "Vectors contain a few trees per cipher suite and rarely combine unmerged leaves, blanks and exclusion sets.",
 ["tree.go"],
 [("tree hash","tree.go: computeTreeHash and hash inputs"),("parent hash","tree.go: computeParentHash")],
 ["tree hash and parent hash values"])
prop("C07", "A joiner accepts only ratchet trees that pass all integrity checks",
 "A ratchet tree is accepted for a group only if its root tree hash equals the one in the group context, every non-blank parent node is linked by a matching parent hash from exactly one of its two sides, and every non-blank leaf passes leaf validation. Further, signature keys of leaves and encryption keys of all nodes must be unique, and every unmerged leaf must be a non-blank leaf below its node and be listed in each non-blank node between them.",
 ["inputs"], "every ratchet tree and group context a joiner may receive",
 "The vectors only contain valid trees, so a missing or weakened check changes nothing observable in the tests.",
 ["tree.go","group.go"],
 [("integrity verification","tree.go: verifyIntegrity, verifyParentHashes, findParentHash, keys"),("call on join","group.go: groupFromSecrets")],
 ["acceptance or rejection of a ratchet tree"])
prop("C08", "Epoch secrets are the RFC 9420 key schedule of their inputs",
 "For every cipher suite and all inputs, the joiner, welcome and epoch secrets, the exporter, the confirmation tag, the transcript hashes and the PSK secret are exactly the RFC 9420 section 8 functions of the previous init secret, commit secret, PSKs, group context, content and tags. The secrets of the new epoch derive from the group context after the commit, and an absent PSK or commit secret counts as an all-zero string of the hash length.",
 ["inputs","configurations"], "all secrets, contexts, PSK lists, labels and cipher suites",
 "Vectors fix a few dozen values; dependence on each input, and its position, is only sampled, and some values are never compared by the tests.",
 ["key_schedule.go","ciphersuite.go","group.go"],
 [("key schedule","key_schedule.go: extractJoinerSecret, extractEpochSecret, extractWelcomeSecret, deriveExporter, extractPSKSecret"),("transcript hashes","key_schedule.go: confirmedTranscriptHashInput, nextInterimTranscriptHash"),("labelled expansion","ciphersuite.go: expandWithLabel, deriveSecret")],
 ["derived secrets, tags and hashes"])
prop("C09", "Message keys and nonces follow the secret tree and ratchets",
 "For every tree size, leaf, generation and cipher suite, the per-leaf secrets are obtained from the encryption secret by expanding left and right along the path from the root, and the handshake and application ratchets, keys, nonces and next secrets are those of RFC 9420 section 9. Sender data keys and nonces derive from the sender data secret and the first hash-length bytes of the ciphertext, and the reuse guard is XORed into the first four nonce bytes only.",
 ["inputs","configurations"], "all tree sizes, leaves, generations and secrets",
 "The vectors use a few tree sizes and generations; the message protection vectors decrypt a single message per suite.",
 ["secret_tree.go","framing.go"],
 [("secret tree","secret_tree.go: deriveSecretTree, deriveChildren, deriveRatchetRoot"),("ratchet","secret_tree.go: deriveKey, deriveNonce, deriveNext"),("sender data and reuse guard","framing.go: expandSenderDataKey, expandSenderDataNonce, derivePrivateMessageKeyAndNonce")],
 ["keys, nonces and secrets"])
prop("C10", "Private messages round-trip and bind their header",
 "A private message produced by a member decrypts, for every other member in the same epoch, to exactly the content that was protected, with the true sender, content type, epoch, group and authenticated data. Group identifier, epoch, content type and authenticated data are authenticated by the encryption, and a message whose padding contains a non-zero byte is rejected.",
 ["inputs","histories"], "all contents, senders, group sizes and epochs",
 "The example test sends one message in a two-member group; the vectors decrypt fixed messages.",
 ["framing.go","group.go","secret_tree.go"],
 [("protection","framing.go: encryptPrivateMessage and helpers"),("opening","framing.go: decryptSenderData, decryptContent, authenticatedContent"),("group operations","group.go: CreateApplicationMessage, processPrivateMessage")],
 ["decrypted application data","errors"])
prop("C11", "Only authentic messages of the current epoch take effect",
 "A received message changes group state or yields application data only if it carries the identifier and current epoch of the group, names a non-blank leaf as its sender and is signed with that leaf's signature key over the exact content, wire format and current group context. A public message must also carry the membership tag of the current epoch, and application data is accepted only encrypted. A commit must carry the confirmation tag of the epoch it leads to.",
 ["inputs","histories"], "every received byte string and every group state",
 "The tests process authentic messages only; a dropped check is invisible to them.",
 ["framing.go","group.go"],
 [("public message verification","group.go: verifyPublicMessage"),("private message verification","group.go: processPrivateMessage"),("confirmation tag","group.go: processCommit")],
 ["errors","group state after processing"])
prop("C12", "A rejected message or a created one leaves the group unchanged",
 "If processing a message or commit returns an error, every part of the group state, including nodes shared between tree copies, private keys, secrets and pending proposals, is as before. A successful commit advances the epoch by exactly one, installs tree, context, secrets and transcript together, and clears pending proposals; a successful proposal only records itself as pending. Creating a welcome or an application message never changes the group.",
 ["inputs","histories","fault_sequences"], "every message, every point of failure during processing, every group state",
 "No test processes a failing commit and compares states, and the example test does not look at internal state after creating messages.",
 ["group.go","tree.go"],
 [("work on copies, install at the end","group.go: processCommit"),("copying of trees","tree.go: copy, add")],
 ["group state before and after each call"])
prop("C13", "Inviter, members and joiners agree on the new epoch",
 "After an invitation, the existing members that process the accompanying commit, including the inviter, and the members that join through the welcome hold the same group context, ratchet tree, epoch secret and transcript hash. Each invited key package finds its own encrypted secrets in the welcome, and a joiner installs its own leaf and private key.",
 ["inputs","histories"], "all groups, all lists of invited key packages, all sequences of invitations",
 "The example test invites one member into a group of one; passive-client vectors replay fixed histories from other implementations.",
 ["group.go"],
 [("invitation","group.go: CreateWelcome"),("joining","group.go: GroupFromWelcome, groupFromSecrets"),("commit processing","group.go: processCommit")],
 ["group states of inviter, members and joiners"])
prop("C14", "Commits with an invalid proposal list are rejected",
 "A commit is accepted only if its proposals resolve in order to the inline proposals or to the pending proposals with exactly the referenced hash, each attributed to its real sender, and the list satisfies RFC 9420 section 12.2: no duplicate added signature key, no update by the committer, no removal of the committer, at most one update or removal per leaf, no repeated PSK, at most one group context extensions proposal, re-initialisation only alone, and no external initialisation. Removals must name a member, added key packages must be valid, and a path is required when the list is empty or contains an update, removal, external initialisation or group context extensions proposal.",
 ["inputs"], "all proposal lists, pending proposals, senders and committers",
 "All vectors contain valid proposal lists; no test submits an invalid one.",
 ["proposal.go","group.go"],
 [("list validation","proposal.go: verifyProposalList, proposalListNeedsPath"),("reference resolution","group.go: resolveProposals"),("proposal checks","group.go: processCommit")],
 ["acceptance or rejection of a commit"])
prop("C15", "Update paths install matching keys and the right commit secret",
 "When a commit with an update path is accepted, the nodes of the committer's filtered direct path hold exactly the public keys from the path, with fresh parent hashes chained from the root to the committer's new leaf, all other ancestors of the committer are blank, and the rest of the tree is untouched. A member's private key for each such ancestor it shares with the committer is derived from the path secret for that node and matches the node's public key, path secrets are chained along the filtered direct path, and the commit secret is derived from the last one. The same holds for the path secret a joiner receives.",
 ["inputs"], "all trees, committers, recipients and update paths",
 "Vectors contain a limited set of tree shapes; the derivation for joiners with several ancestors or blank ancestors is not covered.",
 ["tree.go","group.go"],
 [("merging","tree.go: mergeUpdatePath, filteredDirectPath"),("decryption","tree.go: decryptPathSecrets, nodePrivFromPathSecret"),("joining","group.go: processPathSecret")],
 ["ratchet tree, private keys, commit secret"])
prop("C16", "Only valid leaf nodes and key packages are accepted",
 "A leaf node is accepted only if its signature covers all its fields plus, for leaves from updates and commits, the group and position; its credential type is supported by every member; its lifetime, if any, is positive, at most 90 days and contains the current time; its extensions are among its declared capabilities; and its keys are not used by another leaf. A key package is accepted only if its version and cipher suite match the group, its leaf comes from a key package, its signature covers all its fields and its init key differs from its encryption key.",
 ["inputs"], "all leaf nodes, key packages, times and group contexts",
 "Only valid leaf nodes and key packages appear in the tests; lifetimes are disabled or generous.",
 ["tree.go","key_package.go"],
 [("leaf validation","tree.go: leafNode.verify, verifySignature, lifetime.verify, supportedCreds"),("key package validation","key_package.go: verify, verifySignature")],
 ["acceptance or rejection"])
prop("C17", "Signatures, references, MACs and HPKE contexts use exact labelled inputs",
 "Every signature is made and checked over the length-prefixed label \"MLS 1.0 \" plus the RFC 9420 name of the structure and the exact encoding of the to-be-signed content; HPKE encryption uses the same labelling for its context; key package and proposal references hash the RFC 9420 label and the full encoding. Whatever one side signs, tags or seals the other side accepts with the matching key, and no verification succeeds over different content, label or key than those named.",
 ["inputs","configurations"], "all contents, labels, keys and cipher suites",
 "Tests check one vector per primitive and suite; that each caller passes the right label and full content to both directions is only sampled.",
 ["ciphersuite.go","framing.go","group.go","key_package.go","tree.go"],
 [("labelled primitives","ciphersuite.go: signWithLabel, verifyWithLabel, encryptWithLabel, decryptWithLabel, refHash, signMAC, verifyMAC"),("callers","sign and verify methods")],
 ["signed, tagged and sealed byte strings"])
prop("C18", "Processing hostile but decodable messages never panics",
 "For every group state reachable through the API and every message, welcome or key package that decodes, processing it ends with success or an error and never with a panic. This includes out-of-range or blank leaf indices, unknown cipher suites, malformed keys, short secrets and inconsistent trees.",
 ["inputs","histories"], "every decodable message and reachable group state",
 "Tests feed well-formed messages from honest senders only.",
 ["group.go","tree.go","framing.go","ciphersuite.go","key_package.go","secret_tree.go"],
 [("index, type and size checks before use","group.go, tree.go, ciphersuite.go")],
 ["panics"])
prop("C19", "Every cipher suite uses the primitives RFC 9420 assigns to it",
 "For each of the seven RFC 9420 cipher suites, the hash, KEM, KDF, AEAD and signature scheme in use are the ones assigned by section 17.1, and no other identifier is treated as known. MAC, reference hashing, expansion, sealing and signing of a group all take their primitive from the group's cipher suite.",
 ["configurations"], "all 65536 cipher suite identifiers",
 "The vectors compare outputs for the suites that happen to be listed; identifiers outside the list, and suites the vectors skip, are not examined.",
 ["ciphersuite.go"],
 [("suite table","ciphersuite.go: cipherSuiteDescriptions and accessors")],
 ["primitives used by each suite"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
