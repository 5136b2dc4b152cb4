#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run once by hand after editing; no check runs it)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Lists and vectors behave like plain arrays over every history",
 "Any history of create, push, pop, get, set and len on a list or vector returns exactly what the same operations on an ordinary array return. "
 "This holds for bounded and unbounded, owned and dangling sequences and for both conventions for empty subtrees (inherited and unit), however the operations are interleaved with those of other trees in the same store. "
 "Elements a vector was created with and that were never written read as the zero value.",
 ["histories","schedules","configurations"],
 "all operation histories of any number of trees sharing one store, all interleavings of their operations, all capacities and both empty conventions",
 "The unit tests push and pop 0..100 monotonically on one unbounded list in an empty store; mixed histories, bounded capacities, vectors created with a length, several trees in one store and reuse of equal subtrees are never run.",
 ["src/list.rs","src/vector.rs","src/length.rs","src/raw.rs","src/memory.rs"],
 [("grow/shrink by one level","src/vector.rs push/pop/extend/shrink"),("index arithmetic","src/vector.rs raw_index/depth"),("length mix-in","src/length.rs with_mut")],
 [("len","number of elements, decides the depth at which elements are looked up","src/vector.rs")],
 ["List/Vector push, pop, get, set, len results"])

p("C02","Roots are canonical: they depend on contents and capacity, not on history",
 "After every operation the root of a list, vector, packed list or packed vector equals the root computed from scratch from its current contents, length and maximum length alone. "
 "With the inherited-empty convention that is the SimpleSerialize (ssz) hash tree root; with the unit-empty convention it is the same tree with every subtree that holds no element replaced by the zero value. "
 "Two trees with equal contents and capacity therefore have equal roots whatever operations led to them.",
 ["histories","schedules","configurations"],
 "all histories of operations, capacities, item widths and interleavings with other trees of the store",
 "The list tests compare roots of pushes with roots of the reverse pops on one tree; no test compares an in-place modified tree with an independent merkleization, with a bounded capacity, or after mixed operations.",
 ["src/vector.rs","src/list.rs","src/packed.rs","src/length.rs","src/memory.rs"],
 [("clearing popped elements with the empty subtree of the right depth","src/vector.rs pop"),("empty subtrees","src/memory.rs empty_at"),("length mix-in","src/length.rs")],
 [],["root() after every operation"])

p("C03","Packed lists and vectors behave like plain arrays of fixed-width items",
 "Any history of create, push, pop, get, set and len on a packed list or packed vector returns exactly what the same operations on an ordinary array of fixed-width items return, for items narrower than, as wide as, or wider than one tree node, including items that straddle nodes. "
 "No operation on one item ever changes a neighbouring item that shares its node. "
 "Reads and writes past the length are refused even when the underlying node exists.",
 ["histories","configurations","schedules"],
 "all histories, all item widths relative to the node width, all capacities, all interleavings with other trees of the store",
 "Both packed tests use 64-byte items on 32-byte nodes only (an item never shares a node), monotone push then pop, and no bounded capacity.",
 ["src/packed.rs","src/utils.rs"],
 [("mapping of items to byte ranges of nodes","src/packed.rs coverings"),("node count for an item count","src/utils.rs host_max_len/host_len"),("read-modify-write of a shared node","src/packed.rs set/push/pop")],
 [("len","item count","src/packed.rs"),("tuple","node vector underneath","src/packed.rs")],["PackedList/PackedVector push, pop, get, set, len results"])

p("C04","Garbage collection never removes anything a live tree needs",
 "Every node reachable from the root of a live owned tree stays readable in the in-memory store, whatever other trees sharing subtrees, equal contents or the whole root with it are modified, replaced or dropped, in any order. "
 "A node that was written and is still reachable can be read back even if its key had already been known to the store only as a leaf or as an unexplored hash.",
 ["histories","schedules"],
 "all histories and interleavings of create, modify, clone, graft, drop and reopen of trees that share nodes in one store",
 "Existing tests keep one or two trees in a store of their own and compare the number of nodes in three hand-made situations.",
 ["src/memory.rs","src/raw.rs","src/vector.rs","src/length.rs"],
 [("reference counts of nodes","src/memory.rs insert/remove/rootify/unrootify"),("new root is registered before the old one is released","src/raw.rs set")],
 [("reference count","parents plus registered roots of a node","src/memory.rs InMemoryBackend map")],["get through every live tree after every step"])

p("C05","Dropped and overwritten trees leave nothing behind in the store",
 "At every moment of a history in which no backend call failed, the in-memory store contains exactly the nodes reachable from the live owned trees (plus the zero value): what a modification replaces is collected, and dropping the last owner of a node removes it. "
 "After all owned trees are dropped the store is back to its initial contents.",
 ["histories","schedules"],
 "all histories and interleavings of create, modify and drop of owned raw trees, lists, vectors, packed lists and packed vectors sharing one store",
 "One unit test counts nodes after overwriting one raw tree; growth, shrink, packed sequences, lists, shared subtrees and drop are not measured.",
 ["src/memory.rs","src/raw.rs","src/vector.rs","src/length.rs","src/packed.rs"],
 [("reference counting with cascading removal","src/memory.rs remove"),("releasing the old root","src/raw.rs set/drop")],
 [("node map","what the store holds","src/memory.rs AsRef")],["key set of the store after every step"])

p("C06","A failed operation changes nothing and can be retried",
 "When a store access fails during an operation on a raw tree, list, vector, packed list or packed vector, the operation returns that backend error and the tree keeps exactly its previous length, contents and root; other trees in the store are unaffected as well. "
 "Retrying after the store recovers gives the result the operation would have had without the failure.",
 ["fault_sequences","histories"],
 "every position of a failing read, insert, rootify or unrootify call within every operation of every history, single or repeated, including writes whose acknowledgement is lost",
 "No existing test ever makes a backend call fail: the in-memory backend has no failing path.",
 ["src/vector.rs","src/packed.rs","src/length.rs","src/list.rs","src/raw.rs"],
 [("handle state is changed only after the store accepted the new tree","src/raw.rs set, src/vector.rs push/pop, src/packed.rs, src/length.rs with_mut")],
 [("root, len of the handle","what the user's next operation builds on","src/vector.rs, src/length.rs, src/packed.rs")],["result, len, root and contents of the handle after a failed call"])

p("C07","A crash inside an operation leaves the tree before or after it",
 "If the process stops between any two backend calls of a push, pop, set or other modification of an owned tree, then in the store that survives the complete tree from before the operation, or the complete tree from after it, is still registered as a root and fully readable. "
 "All other owned trees of the store are intact, and work continues normally from the surviving tree.",
 ["crash_points","histories"],
 "every backend call boundary within every modifying operation of every history",
 "Tests never stop in the middle of an operation; the order in which nodes are written, the new root registered and the old one released is invisible to them.",
 ["src/raw.rs","src/vector.rs","src/packed.rs","src/length.rs","src/list.rs"],
 [("write nodes, register new root, then release old root, once per operation","src/raw.rs set")],
 [("registered roots","rootify minus unrootify calls","src/traits.rs WriteBackend")],["contents of the surviving store after a crash"])

p("C08","Raw trees: a write at a generalized index changes that position only",
 "For every history of writes on a raw tree, reading any generalized index returns the value of that position: what was last written there or, above written positions, the hash of the two children; extracting a subtree and reading inside it agrees with reading from the whole tree. "
 "A write leaves every position that is neither an ancestor nor a descendant of it unchanged, and expands a childless node with zero-valued siblings when it writes below it. "
 "Positions below a node without known children read as absent.",
 ["histories","schedules","fault_sequences"],
 "all histories of reads, writes, grafts of existing subtrees and subtree extraction on raw trees sharing a store, with failing backend calls",
 "Tests write a full level in order or two positions; overwriting inner nodes, grafting shared subtrees, expanding leaves at several depths and failing calls are not covered.",
 ["src/raw.rs","src/index.rs","src/memory.rs"],
 [("path copy from the written position to the root","src/raw.rs set"),("route of an index","src/index.rs route/at_depth")],
 [],["Raw get, set, subtree, root"])

p("C09","Reopening a tree restores the same sequence",
 "A list reopened from its root hash, and any list, vector, packed list or packed vector reopened from its leaked metadata or raw tree, has the same length, contents, capacity and root as the one that was given up, and continues to behave like it. "
 "This holds at every point of every history, also when other trees of the store were modified or dropped between giving up and reopening, and when a reopening attempt failed because of the store and is repeated.",
 ["histories","crash_points","fault_sequences"],
 "every point of a history at which a session ends (cleanly or by losing all handles) and is resumed by another from durable metadata only",
 "One test deconstructs and reconstructs one full unbounded list once; leaked metadata is not exercised by any test.",
 ["src/length.rs","src/list.rs","src/vector.rs","src/packed.rs","src/raw.rs"],
 [("metadata / from_leaked","src/traits.rs Leak and its implementations"),("length stored in the tree","src/length.rs reconstruct/deconstruct"),("raw conversions","src/raw.rs into_raw, src/vector.rs into_vector, src/list.rs into_list")],
 [],["len, get, root after reopening"])

p("C10","Bounds and capacities are enforced and a refused operation has no effect",
 "Creating a sequence succeeds exactly when its length does not exceed its non-zero maximum length and its tree is within reach of generalized indices (at most 2^63 leaves); pushing onto a full bounded sequence and reading or writing at or past the length are refused with an overflow error, and popping an empty sequence returns nothing. "
 "A refused operation changes neither the sequence, nor its root, nor the set of nodes in the store. "
 "A bounded sequence never holds more elements than its maximum.",
 ["histories","configurations"],
 "all histories, all capacities including ones that are not powers of two and packed capacities that end inside a node",
 "No existing test creates a bounded list or vector or accesses one out of range.",
 ["src/vector.rs","src/packed.rs","src/list.rs"],
 [("parameter check","src/vector.rs create"),("capacity check","src/vector.rs push"),("index check","src/vector.rs get/set")],
 [],["Result of create/push/get/set, root and store afterwards"])

p("C11","A recorded proof suffices to replay the recorded operations",
 "If operations on a tree run through the proving store, then a fresh store populated with only the recorded proof gives, for the same operations from the same starting root, the same results and the same final root, also when reads are mixed with writes, when recording is suspended and resumed, and when some operations failed because of the store and were retried or abandoned. "
 "This assumes that no element is itself the hash of a node that either store knows. The recorded proof contains only nodes that were part of the store before the recording began (or whose insertion the store reported as failed although it took place).",
 ["histories","fault_sequences"],
 "all histories recorded over all starting trees, with recording suspended and resumed at any point and backend calls failing at any point",
 "The one proving test records two reads of one list; no write, failure, resumed recording or replay of a modification is tested.",
 ["src/proving.rs","src/memory.rs"],
 [("record reads that are not of nodes inserted during recording","src/proving.rs ProvingBackend get/insert"),("populate","src/memory.rs populate")],
 [("proofs, inserts","nodes read from before / nodes created during recording","src/proving.rs ProvingState")],["results and roots on a verifier's store populated with the proof"])

p("C12","Transported proofs are exact, tamper-evident and never yield wrong values",
 "Compacting a proof and expanding it again yields the same root and the same proof nodes; a compact or single-branch proof altered in transit (a changed, swapped or substituted hash) has a different root, and a branch with missing or extra steps is refused. "
 "A verifier that accepts only proofs with the trusted root reads, from whatever subset of them arrived, in any order and multiplicity, either the true value or an error, never a wrong value.",
 ["fault_sequences","schedules","inputs"],
 "all trees and all message loss, duplication, reordering, pruning and corruption between prover and verifier",
 "The test compacts one proof of one list and never alters, drops, merges or truncates it.",
 ["src/proving.rs","src/memory.rs"],
 [("compaction and folding","src/proving.rs into_compact/from_compact/fold/from_plain"),("populate","src/memory.rs populate")],
 [],["root of the compact proof, reads on the populated store"])

p("C13","Merkleized values have the ssz root and decode to themselves, faults or not",
 "Writing any supported value within its declared capacity (integers, booleans, hashes, options, boxes, tuples, arrays, vectors, bounded and unbounded lists, packed forms, derived structs and enums) into any store returns its SimpleSerialize hash tree root (with this library's documented extensions), the same root as computing it without a store, and reading it back returns an equal value. "
 "If store accesses fail, the operation reports the backend error, and repeating it succeeds with the same result; it never returns a wrong root or a wrong value.",
 ["inputs","fault_sequences","histories"],
 "all values of the supported types, all positions of failing store accesses, all prior contents of the store",
 "The spec test encodes a few constants in an empty, never failing store; several types (512-bit hashes, packed 256-bit integers, most tuples and widths, nested containers) are never decoded.",
 ["le/src/lib.rs","le/src/basic.rs","le/src/fixed.rs","le/src/variable.rs","le/src/elemental_fixed.rs","le/src/elemental_variable.rs","le/src/utils.rs","le/derive/src/lib.rs","src/utils.rs"],
 [("chunking and padding","src/utils.rs vector_tree, le/src/elemental_fixed.rs"),("length and type mix-in","le/src/utils.rs"),("derive","le/derive/src/lib.rs")],
 [],["into_tree, from_tree, tree_root"])

p("C14","Lost nodes are reported, never turned into values",
 "When any set of nodes has been lost from the store, reading an element, popping, reopening or decoding either returns exactly the value it would have returned from the complete store or reports an error, and in the latter case the tree handle is unchanged and works again once the nodes are back. "
 "A value is never made up, shortened or replaced by a zero value because nodes are missing.",
 ["fault_sequences","histories"],
 "every subset of nodes lost, in every state of every tree and encoded value",
 "No existing test removes a node from a store.",
 ["src/raw.rs","src/vector.rs","src/packed.rs","src/length.rs","le/src/fixed.rs","le/src/elemental_fixed.rs","le/src/elemental_variable.rs"],
 [("missing node becomes an error","src/vector.rs get/pop, src/raw.rs subtree, src/length.rs reconstruct")],
 [],["result of get, pop, reconstruct, from_tree on the damaged store"])

p("C15","Partial updates equal a full rewrite and survive failed flushes",
 "Setting some fields of a partially loaded value and flushing gives the tree whose root is the root of the full value with those fields replaced, and reading any field gives the full value's field. "
 "If a flush fails because of the store, no pending change is lost: flushing again until it succeeds gives the same final root. "
 "A flush writes only fields that were set, so it never reverts changes made to other fields since, and access past the end of a partially loaded list is refused.",
 ["histories","fault_sequences","schedules"],
 "all histories of get, set, push and flush on several partial views of one tree, all positions of failing store accesses",
 "One test sets one field of one nested struct on a healthy store; partially loaded lists are not tested at all.",
 ["le/src/partial.rs","le/derive/src/lib.rs"],
 [("field positions","le/src/partial.rs PartialIndex::resolve"),("write-back","le/src/partial.rs flush, le/derive/src/lib.rs partialable_derive")],
 [("pending values","set but not yet flushed","le/src/partial.rs PartialValue/PartialVec")],["root and fields after flush"])

p("C16","Backends are interchangeable",
 "Running the same operations directly on a store, through the recording wrapper or through the error-erasing wrapper gives the same results, the same roots, and the same final store (and the same recording, in whichever order the two wrappers lie), and a backend failure passes through a wrapper as a failure of the same operation with the same lack of effect. "
 "Computing a root on the discarding store gives the same root as on a real one, and reading from the discarding store always fails rather than returning data.",
 ["configurations","histories","fault_sequences"],
 "all histories and failing accesses, on every backend and stack of wrappers",
 "The wrappers are used by one test (recording) or none (error-erasing); the discarding store is only used for root computation of constants.",
 ["src/traits.rs","src/proving.rs","src/memory.rs"],
 [("delegation","src/traits.rs DynBackend, src/proving.rs ProvingBackend"),("discarding store","src/memory.rs NoopBackend")],
 [],["lock-step comparison of results, roots and stores"])

p("C17","Generalized index arithmetic is consistent",
 "Children, parent, route, composition, depth-based construction and the descendant relation of generalized indices agree with each other for every index that fits the machine word.",
 ["inputs"],"all indices",
 "Tests check a handful of indices.",
 ["src/index.rs"],[("bit arithmetic","src/index.rs")],[],["Index methods"])

p("C18","Byte serializations of values round-trip and enforce maximum lengths",
 "With the optional serialization features enabled, values, bounded vectors and compact proofs decode to what was encoded, and an encoded vector longer than its bound is rejected.",
 ["inputs"],"all values",
 "The features are off by default and not exercised by any test.",
 ["le/src/lib.rs","le/src/variable.rs","src/proving.rs"],[("serde and codec implementations","le/src/variable.rs")],[],["encode/decode"])
p("C19","Malformed trees are refused, never misread and never fatal",
 "Whoever chose the nodes, lengths and variant numbers of a tree, whatever type it was written as, and whatever has been lost of it: decoding it as any supported value, reopening it as a list, and reading, setting or pushing through a partially loaded view of it either gives exactly what the tree says under an independent reading of the format or an error, and never a panic, a wrapped-around index or an endless computation. "
 "A list longer than its maximum, an undefined variant and content beside None or in a unit variant are errors (unused high bytes of numbers and unused bits are ignored); what is decoded or reopened has the declared number of elements and no more than its maximum; an operation that is refused leaves tree and handle as they were.",
 ["inputs","histories","fault_sequences"],
 "all trees (valid ones altered at any places, grafted lists of any length word over subtrees of any depth, trees of other types, trees with missing parts), all supported types, all positions, all failing accesses",
 "The tests decode only what they have just encoded, in an intact store.",
 ["le/src/utils.rs","le/src/basic.rs","le/src/fixed.rs","le/src/variable.rs","le/src/elemental_fixed.rs","le/src/elemental_variable.rs","le/src/partial.rs","le/derive/src/lib.rs","src/list.rs","src/length.rs","src/vector.rs","src/packed.rs","src/utils.rs"],
 [("length and maximum","le/src/elemental_variable.rs from_list_tree, src/list.rs reconstruct"),("variant and unit checks","le/src/utils.rs decode_with_type, le/src/basic.rs"),("positions","src/vector.rs raw_index, le/src/partial.rs resolve")],
 [],["from_tree, List::reconstruct and operations on what it gives, PartialItem get/set/push/flush"])
p("C20","The cost of an operation follows the depth of the tree, not its size",
 "Reading one element of a sequence, one node of a raw tree, or one element or field through a partially loaded view costs a number of store accesses proportional to the depth d of what is read (times the nodes k the element lies in; at most 4k(d+2)), and what a proving backend records for it consists of nodes on the path from the root to it only (through a view also on the path to the length of the list it is in). "
 "Setting, pushing, popping, creating a sequence of any length and flushing a view cost at most a small multiple of k(d+2) plus the square of the depth (8k(d+2)+2(d+2)^2) per element changed; reopening, taking apart and dropping a tree cost a fixed handful. This holds for trees with any number of elements up to the range of indices, on attempts that fail or are repeated as on any other, so every operation ends.",
 ["inputs","histories","fault_sequences"],
 "all kinds of sequences, packed widths, lengths and bounds up to the range of indices, all histories, both conventions of empty nodes, all failing accesses",
 "The tests never count accesses, and their trees are so small that a walk over a whole tree goes unnoticed.",
 ["src/raw.rs","src/vector.rs","src/list.rs","src/length.rs","src/packed.rs","src/index.rs","src/proving.rs","src/lib.rs","le/src/partial.rs"],
 [("paths","src/raw.rs get, set"),("growing, shrinking, packed writes","src/vector.rs extend, shrink, pop, splice"),("empty subtrees","src/lib.rs empty_at"),("views","le/src/partial.rs resolve, flush")],
 [],["get/set/push/pop/create/reconstruct/deconstruct/drop, PartialItem get/fetch/flush, ProvingBackend"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
