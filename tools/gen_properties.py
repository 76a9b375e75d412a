#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

BT = "src/binary/merkle_tree.rs"; ST = "src/sparse/merkle_tree.rs"; SN = "src/sparse/node.rs"; MT = "src/sum/merkle_tree.rs"

p("B01", "Binary root is the RFC 6962 Merkle tree hash of the pushed leaves",
  "For every sequence of byte strings pushed to a binary Merkle tree, the root equals the RFC 6962 Merkle tree hash of that sequence in order (leaves hashed with prefix 0x00, inner nodes with 0x01, the empty tree hashing to SHA-256 of the empty string), whatever the number of leaves and their contents or lengths. Reading the root at any point changes nothing: the root after further pushes is the same as if it had not been read.",
  ["inputs", "histories"], "every leaf count, every leaf length and content, every interleaving of root reads with pushes",
  "Tests compare the root for a handful of leaf counts (0-7, and some random sets) of one fixed data set with hand-built trees; they never cover all contents, lengths and counts.",
  [BT, "src/binary/hash.rs", "src/binary/node.rs", "src/common/subtree.rs"],
  [("push / join_all_subtrees (Merkle mountain range of equal-height peaks)", BT), ("build_root_node folds the peaks right to left", BT), ("leaf_sum / node_sum / empty_sum domain separation", "src/binary/hash.rs")],
  [("head", "linked list of peaks, lowest first", BT), ("leaves_count", "number of leaves pushed", BT)], ["binary::MerkleTree::root"])

p("B02", "Binary proofs are complete and are exactly the RFC 6962 audit path",
  "For every binary Merkle tree and every index below its leaf count, requesting a proof succeeds and returns the tree's current root together with the proven leaf's hash followed by exactly the sibling hashes of the RFC 6962 audit path, ordered from leaf to root. Folding that list according to index and leaf count reproduces the returned root.",
  ["inputs", "histories"], "every leaf count n, every index below n, every leaf content",
  "Tests check proofs for a few (count, index) pairs of fixed data; the shape of the path depends on the binary expansion of both numbers.",
  [BT, "src/common/position_path.rs", "src/common/path_iterator.rs", "src/common/position.rs"],
  [("prove: path of side positions, looked up in scratch then main storage", BT), ("PositionPathIter maps the full tree onto the imbalanced one", "src/common/position_path.rs")], None, ["binary::MerkleTree::prove"])

p("B03", "Out-of-range proof requests are refused, for every 64-bit index",
  "Requesting a proof for any index that is not below the current leaf count fails with an invalid-proof-index error carrying that index, for every 64-bit value including the largest and for the empty tree. It never panics, never returns a proof, and never changes the tree.",
  ["inputs", "histories"], "all 2^64 indices times every leaf count",
  "Tests try one or two indices just above the count; the arithmetic at the far end of the index range is never exercised.",
  [BT], [("range check at the head of prove", BT)], None, ["binary::MerkleTree::prove"])

p("B04", "Loading a stored binary tree at any earlier size resumes that tree",
  "For every binary tree with n leaves kept in storage and every k up to n, loading the tree from that storage with leaf count k succeeds and yields a tree whose root and proofs are those of the first k leaves. Pushing further leaves to the loaded tree gives the same roots, proofs and stored nodes as pushing them to a tree that was never reloaded.",
  ["inputs", "histories"], "every n, every k <= n, every leaf content, every continuation",
  "Tests load a few trees at their full size and do not compare arbitrary earlier sizes or continue pushing for all contents.",
  [BT, "src/common/position.rs", "src/common/position_path.rs"],
  [("load / build rebuild the peak list from peak_positions", BT), ("root_position from next_power_of_two(n+1)", BT)], None, ["binary::MerkleTree::load", "binary::MerkleTree::root", "binary::MerkleTree::prove"])

p("B05", "Binary storage is append-only and holds exactly the complete subtrees",
  "After any sequence of pushes the storage of a binary tree holds exactly one record per complete aligned subtree of leaves, keyed by the in-order index of that subtree's top node and holding that index and the subtree's Merkle tree hash. A push never removes or alters a record written by an earlier push, and reading roots or proofs writes nothing.",
  ["histories", "inputs"], "every sequence of pushes and reads, every leaf content",
  "Tests check the stored nodes of one 7-leaf tree; nothing checks that earlier records survive later pushes or that no additional records appear.",
  [BT, "src/binary/primitive.rs", "src/binary/node.rs"], [("push stores leaf and joined nodes under node.key()", BT), ("Primitive conversion", "src/binary/primitive.rs")], None, ["storage contents after each operation"])

p("B06", "Missing binary records surface as load errors, never as wrong results",
  "If any stored node that is needed to load a binary tree, or to produce a proof from it, is absent from storage, the operation reports a load error and neither panics nor returns a tree, root or proof. If all needed nodes are present, the result is the same whatever other records are absent.",
  ["fault_sequences", "inputs"], "every subset of absent records, every leaf count, loaded size and proof index",
  "Tests remove nothing or drop one node in one tree; the subsets of missing records are exponential.",
  [BT], [("ok_or(LoadError) on every storage read", BT)], None, ["binary::MerkleTree::load", "binary::MerkleTree::prove"])

p("B07", "A storage failure during a binary push leaves the tree usable and unchanged",
  "If any storage operation fails while pushing to a binary tree, the push reports that storage error and the tree keeps the root, leaf count and proofs it had before. Retrying the push once storage works again gives the same tree as if the failure had not happened.",
  ["fault_sequences", "histories", "inputs"], "every storage operation of every push failing, at every leaf count, any number of times, with every content",
  "No test uses a failing storage back end.",
  [BT], [("push / join_all_subtrees error propagation", BT)], [("head", "peak list that must survive a failed push", BT)], ["binary::MerkleTree::push", "binary::MerkleTree::root"])

p("B08", "The in-memory binary tree behaves as the storage-backed tree",
  "For every sequence of pushes, the in-memory binary Merkle tree returns the same root and the same proofs as a storage-backed binary Merkle tree given the same leaves. It returns no proof exactly for the indices that are not below the leaf count.",
  ["inputs", "histories"], "every leaf sequence, every proof index",
  "The wrapper is tested on its own with fixed data for up to 7 leaves, not against the storage-backed tree.",
  ["src/binary/in_memory.rs", BT, "src/common/storage_map.rs"], [("in_memory::MerkleTree delegates to binary::MerkleTree over StorageMap", "src/binary/in_memory.rs")], None, ["binary::in_memory::MerkleTree"])

p("B09", "A binary root commits to its leaves (no second preimage by construction)",
  "Assuming SHA-256 has no collisions, two different sequences of leaves never have the same binary Merkle root, also when they differ in length, when a leaf is empty, or when a leaf's content looks like the concatenation of two node hashes. In particular leaf hashes and inner-node hashes are never interchangeable.",
  ["inputs"], "every pair of leaf sequences",
  "Collision freedom of the construction quantifies over pairs of trees; tests look at single trees.",
  ["src/binary/hash.rs", BT, "src/common/prefix.rs"], [("0x00/0x01 prefixes", "src/common/prefix.rs"), ("tree shape determined by leaf count", BT)], None, ["binary::MerkleTree::root"])

p("B10", "Binary loading and proving use the right nodes at any size up to 2^62 leaves",
  "For a stored binary tree of any leaf count up to 2^62 - 1, loading reads exactly the records of the maximal complete subtrees that make up the tree, and root and proofs are computed from exactly the RFC 6962 decomposition of that count and index. No arithmetic overflow, panic or wrong node reference occurs at any size.",
  ["inputs"], "every leaf count up to 2^62 - 1 and every index",
  "Tests never exceed a few hundred leaves; index arithmetic near the top of the 64-bit range is not reached.",
  [BT, "src/common/position.rs", "src/common/position_path.rs", "src/common/path_iterator.rs"], [("peak_positions / root_position", BT)], None, ["binary::MerkleTree::load", "keys requested from storage"])

p("P01", "In-order position arithmetic is exact over the 64-bit index range",
  "For every 64-bit in-order index whose result is representable, height, leaf test, leaf index, parent, sibling, uncle and child positions agree with the infinite in-order-numbered binary tree. Parent of either child is the node itself, the sibling of a sibling is the node itself, siblings share their parent, and leaf index and in-order index convert both ways; none of these panics.",
  ["inputs"], "all 64-bit in-order indices and leaf indices for which the result exists",
  "Tests check positions below 20 or so.",
  ["src/common/position.rs"], [("Position methods", "src/common/position.rs")], None, ["common::Position"])

p("P02", "Position paths match the shape of the tree with the given number of leaves",
  "For every leaf count n and every leaf index below n, iterating from the root position of the tree with n leaves to that leaf yields exactly the existing nodes on the way down, each paired with the top of the existing subtree on the other side, starting with the root and ending with the leaf. For a power-of-two count this is every ancestor with its sibling.",
  ["inputs"], "every leaf count and leaf index",
  "Tests check paths for fewer than ten (count, index) pairs.",
  ["src/common/position_path.rs", "src/common/path_iterator.rs", "src/common/position.rs"], [("PositionPathIter", "src/common/position_path.rs"), ("PathIter offset", "src/common/path_iterator.rs")], None, ["Position::path(..).iter()"])

p("P03", "The path iterator walks from a node down to a leaf, each node with its sibling",
  "For every node position and every leaf position below it, the generic path iterator (AsPathIterator) yields the node paired with itself, then at each level the child that leads to the leaf paired with its sibling, and ends with the leaf. The number of items is the height of the start plus one, and after them the iterator stays at its end.",
  ["inputs"], "every start height 0-63, every start node of that height and every leaf below it",
  "Tests follow three paths in a tree of eight leaves and one in a 64-bit tree.",
  ["src/common/path_iterator.rs", "src/common/path.rs", "src/common/node.rs", "src/common/position.rs", "src/common/msb.rs"], [("PathIter::next and its initial offset", "src/common/path_iterator.rs"), ("Path::get_instruction", "src/common/path.rs"), ("get_bit_at_index_from_msb", "src/common/msb.rs")], None, ["AsPathIterator::as_path_iter"])

p("E01", "Errors of the three trees name their true cause",
  "When loading or proving on a binary tree fails because a record is absent, the load error carries the storage key of a record that is absent and belongs to that operation; loading a sparse tree whose root record is absent fails with a load error carrying the root in hexadecimal; a refused proof index is the one that was asked for. When storage itself fails during any operation of any of the trees, the operation fails with that very storage error (for the sparse tree it may be wrapped as the error of a child node): it does not succeed, panic, or report a missing record.",
  ["fault_sequences", "inputs"], "every failing storage operation and every absent record of every operation, at every tree size and shape",
  "Tests look at the kind of error only, for one or two missing records; no test makes storage fail.",
  [BT, ST, SN, MT], [("ok_or(LoadError) and the ? on storage reads", BT), ("MerkleTreeError::LoadError(hex)", ST), ("StorageNodeError / ChildError conversions", SN)], None, ["errors returned by load, prove, push, update, delete, root"])

p("S01", "The sparse root is a canonical function of the key-value map",
  "After any sequence of updates and deletes on a sparse Merkle tree, the root depends only on the resulting map from keys to data: it is the specified sparse Merkle root of that map (a lone leaf sits as high as it can, leaves hash with 0x00, inner nodes with 0x01, empty subtrees are 32 zero bytes). It does not depend on the order or number of operations that produced the map.",
  ["histories", "inputs"], "every history of updates and deletes, every key (any shared prefix length), every data content",
  "Tests compare about a dozen fixed key sets and orders; keys are hashes that rarely share long prefixes, so deep trees and histories mixing deletes are hardly reached.",
  [ST, SN, "src/common/msb.rs", "src/common/path_iterator.rs"],
  [("update_with_path_set / delete_with_path_set rebuild the path", ST), ("create_node_on_path", SN), ("common_prefix_count", "src/common/msb.rs")],
  [("root_node", "the current root node", ST)], ["sparse::MerkleTree::root"])

p("S02", "Sparse updates overwrite; empty data means delete; delete undoes insert",
  "Updating an existing key replaces its data, so the root is that of the map with the last data written, and repeating an update changes nothing. Updating with empty data has exactly the effect of a delete, and deleting a key that was absent before its insertion restores the previous root.",
  ["histories", "inputs"], "every map, every key and every data value",
  "Tests do this for a few fixed keys; not for keys at every divergence depth.",
  [ST], [("update branches to delete on empty data", ST), ("leaf_key comparison selects overwrite or insert", ST)], None, ["sparse::MerkleTree::update", "sparse::MerkleTree::delete"])

p("S03", "Deleting a key that is not in the sparse tree changes nothing",
  "Deleting a key that was never inserted, or that was inserted and already deleted, succeeds and leaves the root, every other key and the ability to reload the tree unchanged. No other key's leaf is ever removed by deleting a key.",
  ["histories", "inputs"], "every history ending in a delete of an absent key, every divergence between that key and the present ones",
  "Tests delete a never-inserted key once; deleting again a previously deleted key that shares a prefix with a present key is not tried.",
  [ST], [("delete decides presence", ST)], None, ["sparse::MerkleTree::delete"])

p("S04", "A sparse tree reloaded from its root behaves as the original",
  "At any point of any history, including when the tree is empty, loading a sparse tree from the same storage with its current root succeeds and gives a tree with that root. All further updates and deletes on it yield the same roots as on the tree that was never reloaded.",
  ["histories", "inputs", "crash_points"], "every history, every point at which the tree is dropped and reloaded, every continuation",
  "Tests reload two or three fixed non-empty trees.",
  [ST, "src/sparse/primitive.rs"], [("load", ST), ("Primitive conversion", "src/sparse/primitive.rs")], None, ["sparse::MerkleTree::load"])

p("S05", "Sparse storage is content addressed and complete for the current root",
  "After any sequence of updates and deletes, every non-empty node reachable from the current root is stored under its own hash, with the height, prefix and two 32-byte fields from which that hash is computed. Each reachable leaf record carries a present key and the hash of that key's current data, so the stored nodes alone describe exactly the current map.",
  ["histories", "inputs"], "every history, every key and data",
  "Tests only look at roots; a missing or wrong record shows only in a later operation that happens to need it.",
  [ST, SN, "src/sparse/primitive.rs"], [("storage.insert of each rebuilt node", ST), ("removal of the old path on delete", ST)], None, ["storage contents after each operation"])

p("S06", "Sparse keys may be arbitrary, even equal to hashes of nodes of the tree",
  "The sparse tree behaves as a map for every choice of 32-byte keys, including the all-zero key and keys that are equal to the hash of some leaf or inner node of the same tree. No choice of keys makes an operation fail, panic, or corrupt other entries.",
  ["inputs", "histories"], "every key, including keys chosen by an adversary who knows the tree",
  "Random keys never coincide with node hashes, so tests cannot reach this.",
  [ST], [("storage key space for nodes and leaves", ST)], None, ["sparse::MerkleTree::update", "sparse::MerkleTree::root"])

p("S07", "Missing or malformed sparse records are reported as errors",
  "If a sparse node record that an operation needs is absent, or has a prefix byte other than 0 or 1, loading, updating or deleting reports a load, child or deserialisation error and does not panic. The root of the tree is then unchanged, and no operation succeeds on the basis of such a record.",
  ["fault_sequences", "inputs"], "every stored record being absent or having any invalid prefix byte, at every tree shape",
  "Tests corrupt the root record or one child of one tree.",
  [ST, SN, "src/sparse/primitive.rs", "src/common/prefix.rs"], [("TryFrom<Primitive> for Node", "src/sparse/primitive.rs"), ("left_child / right_child errors", SN)], None, ["sparse::MerkleTree::load", "sparse::MerkleTree::update", "sparse::MerkleTree::delete"])

p("S08", "A storage failure during a sparse operation never corrupts the tree",
  "If a storage operation fails during an update or delete on a sparse tree, the operation reports that error, and afterwards the tree is either exactly as before or as if the operation had completed. In both cases its root can be reloaded from storage and all entries of the corresponding map are intact, so repeating the operation once storage works gives the intended map.",
  ["fault_sequences", "histories", "inputs"], "every storage operation of every update and delete failing, every tree shape",
  "No test uses a failing storage back end.",
  [ST], [("order of inserts, removals and set_root_node", ST)], None, ["sparse::MerkleTree::update", "sparse::MerkleTree::delete", "sparse::MerkleTree::load"])

p("S09", "The in-memory sparse tree behaves as the storage-backed tree",
  "For every sequence of updates and deletes, the in-memory sparse Merkle tree has the same root as a storage-backed sparse Merkle tree given the same sequence, and hence the canonical root of the resulting map.",
  ["histories", "inputs"], "every history, key and data",
  "The wrapper is tested with the same fixed vectors only.",
  ["src/sparse/in_memory.rs", ST, "src/common/storage_map.rs"], [("delegation", "src/sparse/in_memory.rs")], None, ["sparse::in_memory::MerkleTree"])

p("S10", "A sparse root commits to its key-value map",
  "Assuming SHA-256 has no collisions, two sparse trees holding different maps (different key sets, or different data under some key) never have the same root, and only the empty map has the zero root.",
  ["inputs"], "every pair of maps",
  "Quantifies over pairs of maps; tests compare single roots with constants.",
  [SN, "src/sparse/hash.rs", "src/common/prefix.rs"], [("leaf and node hashing", SN)], None, ["sparse::MerkleTree::root"])

p("M01", "Sum tree root hash follows the specified fee-and-digest construction",
  "For every sequence of (fee, data) leaves whose fees sum to at most 2^64-1, the sum tree's root hash is the recursive hash in which a leaf is H(0x00, fee, data) and an inner node is H(0x01, left fee, left digest, right fee, right digest) with big-endian 8-byte fees and the RFC 6962 tree shape, and the empty tree gives fee 0 and the hash of the empty string. Reading the root at any point does not change later results.",
  ["inputs", "histories"], "every leaf count, fee and data content, every interleaving of root reads",
  "Tests use one constant fee and up to 7 fixed leaves.",
  [MT, "src/sum/node.rs", "src/sum/hash.rs"], [("join_subtrees", MT), ("leaf_sum / node_sum", "src/sum/hash.rs")], None, ["sum::MerkleTree::root"])

p("M02", "The sum tree conserves fees",
  "After any sequence of pushes whose fees sum to at most 2^64-1, the fee of the root is exactly the sum of all pushed fees, and the fee of every stored node is the sum of the fees of the leaves below it. No push or root read panics in that range.",
  ["inputs", "histories"], "all fee values with representable sum, every leaf count",
  "Tests use the constant fee 100.",
  [MT, "src/sum/node.rs"], [("create_node adds child fees", "src/sum/node.rs")], None, ["sum::MerkleTree::root", "stored nodes"])

p("M03", "Sum tree storage holds every node of the tree under its digest",
  "After any sequence of pushes, every leaf and every complete inner node of the sum tree is stored under its digest with its height, fee and the digests of its children, and after reading the root so are the remaining nodes up to the root. No record is removed or altered by later operations other than by an identical record.",
  ["histories", "inputs"], "every sequence of pushes and root reads, every fee and content",
  "Tests do not inspect the storage of the sum tree.",
  [MT, "src/sum/node.rs"], [("storage.insert in push and join_subtrees", MT)], None, ["storage contents"])

p("M04", "A storage failure leaves the sum tree usable and unchanged",
  "If a storage operation fails while pushing to a sum tree or reading its root, the error is reported and the tree keeps the leaves it had. Repeating the operation once storage works gives the same root as if the failure had not happened.",
  ["fault_sequences", "histories", "inputs"], "every storage operation of every push and root read failing, every leaf count",
  "No test uses a failing storage back end.",
  [MT], [("push / join_all_subtrees / root_node error propagation", MT)], None, ["sum::MerkleTree::push", "sum::MerkleTree::root"])

p("M05", "A sum root commits to the leaves, their fees and their order",
  "Assuming SHA-256 has no collisions, two different sequences of (fee, data) leaves never have the same sum-tree root hash, even if only fees are shifted between leaves or leaves are reordered.",
  ["inputs"], "every pair of leaf sequences",
  "Quantifies over pairs of trees.",
  [MT, "src/sum/hash.rs"], [("fees are part of every hash input", "src/sum/hash.rs")], None, ["sum::MerkleTree::root"])

p("K01", "The bundled in-memory storage behaves as a map for every history",
  "For every sequence of insert, remove, get and contains operations, the bundled storage map returns what a mathematical map would: insert and remove return the previous value, get and contains reflect the latest write, and other keys are unaffected. Its operations never fail, and the infallible storage interface returns the same answers.",
  ["histories", "inputs"], "every operation sequence, every key and value, equal or different keys",
  "Tests run each operation once or twice on one or two keys.",
  ["src/common/storage_map.rs", "src/storage.rs"], [("StorageMap over HashMap", "src/common/storage_map.rs"), ("StorageInspectInfallible / StorageMutateInfallible", "src/storage.rs")], None, ["common::StorageMap"])

p("T01", "The test-helper verifier accepts exactly the honest proof of its length",
  "For every leaf count below 2^63, every index and content, the proof verifier shipped with the test helpers accepts the proof produced by the binary tree, and rejects it when the root or any element of the proof set is replaced by a different value. It rejects an empty proof set and any index not below the leaf count.",
  ["inputs"], "every leaf count and index within range, every content, every replacement value",
  "Its tests check one accepting and three rejecting cases.",
  ["test-helpers/src/binary/verify.rs", "test-helpers/src/binary/hash.rs"], [("verify", "test-helpers/src/binary/verify.rs")], None, ["fuel_merkle_test_helpers::binary::verify"])

p("T02", "The test-helper reference tree agrees with the binary tree",
  "For every leaf sequence and proof index, the reference Merkle tree of the test helpers yields the same root as the binary Merkle tree and, for an index below the leaf count, the same proof set. Test suites generated from it are therefore right about the library.",
  ["inputs"], "every leaf count, index and content",
  "The reference tree is compared with hand-built trees for fixed data, and with the library for randomly chosen small cases.",
  ["test-helpers/src/binary/merkle_tree.rs", "test-helpers/src/binary/node.rs", "test-helpers/src/binary/hash.rs"], [("reference tree with incremental proof set", "test-helpers/src/binary/merkle_tree.rs")], None, ["fuel_merkle_test_helpers::binary::MerkleTree"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
