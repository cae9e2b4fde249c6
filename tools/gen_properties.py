#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts are easy to review)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)

RB="src/rbtree.rs"; ENT="src/rbtree/entry.rs"; IT="src/rbtree/iterator.rs"; MAP="src/collections/map.rs"
SEQ="src/collections/seq.rs"; PG="src/collections/paged.rs"; GR="src/collections/group.rs"; GB="src/collections/group/builder.rs"
HT="src/hashtree.rs"; AH="src/as_hash_tree.rs"; LB="src/label.rs"

p("C01","Map and RbTree behave as an ordered dictionary",
"After any sequence of operations (insert, remove, entry API, in-place modification, clear, collect, append_deep), Map and RbTree hold exactly the key/value pairs an ordered dictionary would hold, and every operation returns what that dictionary would return. Lookups by owned or borrowed key or by comparator, len, is_empty, Debug output, for_each and iteration (ascending, each entry exactly once, exact size hint, stays exhausted) all agree with those contents. Re-inserting a present key replaces its value, hands back the old one and keeps the length.",
["histories","inputs"],"all finite operation sequences, all key sets, orders and sizes (including long ascending, descending and mixed runs of inserts and deletes)",
"The map tests only insert or delete 100-200 sequential keys in a fixed order and never mix the two, never use the entry API, and sample a single key type; rotations met during deletion from mixed shapes are not reached.",
[RB,ENT,IT,MAP],[("LLRB insert / delete / rotations","src/rbtree.rs insert, delete, balance"),("entry API","src/rbtree/entry.rs"),("in-order iterator","src/rbtree/iterator.rs")],
[("len","number of live entries","RbTree.len"),("left/right/color","search tree links","Node")],["Map::*","RbTree::*"])

p("C02","The root hash always certifies the current contents",
"At every moment, root_hash() of a Map or RbTree equals the IC hash-tree hash of the tree returned by as_hash_tree(), and that tree lists exactly the current keys in ascending key order, each with its current value. This holds whatever way the contents were last changed: insert, remove, clear, modify, modify_max_with_prefix, append_deep, writing through get_mut, through the reference returned by RbTree::insert, or through any entry method, including values that are themselves certified collections. An empty map has the hash of the empty tree.",
["histories","inputs"],"all operation sequences including in-place mutation through every mutable-reference-returning method, at any nesting depth",
"No existing test writes through get_mut or the entry API and then looks at the root hash; the hash is compared with the full tree only for ten sequential keys.",
[RB,ENT,MAP],[("cached subtree hash maintained on each path","src/rbtree.rs insert/delete/modify/rotate_*"),("mutable access","src/rbtree/entry.rs, Map::get_mut")],
[("subtree_hash","cached hash of the subtree","Node.subtree_hash")],["AsHashTree::root_hash","AsHashTree::as_hash_tree"])

p("C03","Every witness reconstructs to the certified root hash",
"Every witness that Map or RbTree can produce (single key, nested, key list, key range, value range, key prefix) reconstructs to the collection's root hash. This holds for every reachable state of the collection and for every argument, whether or not the keys named are present, and including empty collections and ranges or prefixes that match nothing.",
["histories","inputs"],"all reachable map states times all witness kinds and arguments (ranges with first <= last)",
"Tests check ten 8-byte keys inserted in ascending order and a handful of ranges over three keys; witnesses over trees shaped by interleaved deletes and updates are never checked.",
[RB,MAP],[("witness construction","src/rbtree.rs nested_witness, range_witness, witness_range_*"),("fork canonicalisation","three_way_fork must mirror Node::subtree_hash")],None,["RbTree::witness","RbTree::key_range","RbTree::value_range","RbTree::keys","RbTree::keys_with_prefix","RbTree::nested_witness"])

p("C04","Single-key witnesses prove presence or absence to a spec verifier",
"For every key, running the Internet Computer lookup procedure for that key's label on witness(key) yields Found with exactly the stored value's tree when the key is present, and Absent when it is not; it never yields Unknown or a wrong answer. This holds for every library-provided key type and for every reachable state of the map, including the empty map.",
["histories","inputs"],"all map states, all present and absent keys, all library key types",
"Tests compare only reconstruct() with the root hash; that is satisfied by a witness that prunes away the very entry (or neighbour) asked about. No test looks a key up in a witness.",
[RB,LB,MAP],[("presence path","lookup_and_build_witness"),("absence: both neighbours revealed","lower_bound / upper_bound / witness_range_*")],None,["Map::witness","RbTree::witness"])

p("C05","Single-key and key-list witnesses disclose nothing else",
"witness(key) for a present key contains that key's label and value and no other label or value; for an absent key it contains only the labels of the nearest smaller and nearest larger keys that exist, and no value at all. The key-list witness contains every key's label in order and no value. Everything else appears only as pruned hashes.",
["histories","inputs"],"all map states and all keys",
"Disclosure is only checked for one nested one-element tree and for ranges over three keys.",
[RB,MAP],[("pruning of siblings and neighbour values","Node::left_hash_tree/right_hash_tree/witness_tree, Pruned(data_hash)")],None,["Map::witness","Map::witness_keys"])

p("C06","Range witnesses enumerate the range completely and nothing more",
"For first <= last, the key-range and value-range witnesses contain, in order, exactly the keys inside the inclusive range plus, on each side where the bound itself is not a key, the nearest key outside it if there is one, with no pruned gap between those labels or between them and an end of the map where no outside key exists. The value range also contains the full value tree of every key in the range but never the value of an outside neighbour; the key range contains no values. No other label or value appears.",
["histories","inputs"],"all map states and all bound pairs (present, absent, equal, outside the key span, of mixed length)",
"Tests cover ranges over one 3-key tree of one-letter strings, where every branch combination of the recursive construction cannot occur.",
[RB,MAP],[("range witness recursion","witness_range_above/below/between"),("bounds","lower_bound / upper_bound")],None,["Map::witness_key_range","Map::witness_value_range","RbTree::key_range","RbTree::value_range"])

p("C07","Prefix queries see exactly the keys that carry the prefix",
"keys_with_prefix (and Map::witness_keys_with_prefix) reveals, in order and without a pruned gap, every key that starts with the prefix plus at most the nearest non-matching neighbour on each side (none on the low side when the prefix itself is a key), and no values. max_entry_with_prefix returns, and modify_max_with_prefix modifies, precisely the greatest key with that prefix, or reports none and changes nothing. This holds for byte, array and string prefixes and for composite keys whose prefix is a component.",
["histories","inputs"],"all map states, all prefixes (empty, whole key, longer than any key, 0xff-terminated), all key types with a prefix relation",
"Tests check right_prefix_neighbor on four strings and modify_max on six pages; completeness of a prefix witness and composite keys with several entries per prefix are never checked.",
[RB,LB,MAP],[("prefix search","right_prefix_neighbor, lower_bound, max_entry_with_prefix, modify_max_with_prefix"),("prefix relation","Prefix::is_prefix")],None,["Map::witness_keys_with_prefix","RbTree::keys_with_prefix","RbTree::max_entry_with_prefix","RbTree::modify_max_with_prefix"])

p("C08","Witnesses of nested collections compose",
"For a map of certified collections, nested_witness(key, f) with any valid inner witness f (single key, range, prefix, key list, full or pruned) reconstructs to the outer root hash, and looking up the outer label followed by the inner label in it gives the same answer as looking them up in the actual data. If the outer key is absent the result is an absence proof and f is not called.",
["histories","inputs"],"all two- and three-level map states, all key paths, all inner witness kinds",
"One test, one entry on each level.",
[RB],[("nested witness","RbTree::nested_witness, Node::subtree_with")],None,["RbTree::nested_witness"])

p("C09","Proofs stay logarithmic in the number of entries",
"After any sequence of inserts and removals the tree is balanced: with n entries no entry lies deeper than 2*log2(n+1) levels, so a single-key presence or absence proof contains at most a logarithmic number of forks. No insertion or deletion order degrades this.",
["histories"],"all insert/delete sequences, in particular monotone, alternating, and mass-delete-then-insert ones, up to tens of thousands of entries",
"Balance is asserted only inside unit-test builds, for the few fixed sequential orders the tests use, and never in terms of proof size.",
[RB],[("LLRB colour invariants","balance, flip_colors, move_red_left, move_red_right")],[("color","red/black link colour","Node.color")],["witness fork depth"])

p("C10","Every key and value is owned and released exactly once",
"Through any sequence of operations on Map or RbTree, each key and value handed in is, at any time, either stored, returned to the caller, or dropped, and it is dropped exactly once: nothing leaks, nothing is dropped twice and nothing is read after being dropped. Replaced values, removed pairs, duplicate keys, cleared and dropped collections release precisely what they held.",
["histories"],"all operation sequences ending in clear, drop, or move-out",
"One test counts node allocations in test builds for one fixed history; drops of keys and values, replacement and clear are not observed.",
[RB,ENT,MAP],[("manual node ownership","Node::new / Node::delete, RbTree::drop, delete's key/value swap")],None,["drop of K and V instances"])

p("C11","Hash tree hashing follows the IC specification",
"For every hash tree, reconstruct() equals the hash defined by the Internet Computer interface specification for that tree. Consequently replacing any subtree by Pruned(its hash) leaves the hash unchanged, while changing any label, leaf, pruned hash or the order of a fork changes it.",
["inputs"],"all finite hash trees, with labels and leaves of any length",
"One constant tree is compared with one constant.",
[HT],[("domain separated hashing","fork_hash, leaf_hash, labeled_hash, domain_sep")],None,["HashTree::reconstruct"])

p("C12","Hash trees encode losslessly in the specified CBOR form",
"Serialising any hash tree to CBOR yields the encoding defined by the Internet Computer specification (nested arrays tagged 0-4, byte strings for labels, leaves and hashes), which an independent decoder turns back into the identical tree. get_labels and get_leaf_values list precisely the visible labels and leaf values of the tree in left-to-right, outer-before-inner order.",
["inputs"],"all finite hash trees, including witnesses of every kind, with byte strings of every CBOR length class",
"One constant tree is compared with one constant; long byte strings and pruned nodes are never encoded.",
[HT],[("Serialize for HashTree","src/hashtree.rs"),("listings","get_labels / get_leaf_values")],None,["serde_cbor::to_vec(&HashTree)"])

p("C13","Values certify as leaves holding their documented bytes",
"For every supported primitive value (integers and floats as fixed-width big-endian bytes, bool as one byte 0/1, strings as UTF-8, byte containers and principals as their bytes, Nat as minimal big-endian bytes), as_hash_tree() is the leaf with exactly those bytes and root_hash() is that leaf's hash. Box, Rc, Arc and NonNull wrappers certify exactly like the value they wrap, and distinct values of one type have distinct hashes.",
["inputs"],"all values of every supported leaf type",
"No test looks at the encoding of a leaf; a wrong width, endianness, or divergence between the two methods for one type is invisible.",
[AH],[("AsHashTree impls","src/as_hash_tree.rs")],None,["AsHashTree::root_hash","AsHashTree::as_hash_tree"])

p("C14","Labels are unambiguous and the certified tree is sorted by label",
"For every library-provided key type the label consists of the documented bytes (integers fixed-width big-endian, bool one byte, strings and byte containers as they are, smart pointers transparent), and distinct keys have distinct labels. Label order agrees with key order, so the full tree of any map lists its labels in strictly ascending byte order, as the specification requires for absence proofs to be sound.",
["inputs","histories"],"all key types, all key pairs, all maps over them",
"No test looks at label bytes or order beyond one-letter strings.",
[LB,PG,RB],[("Label impls","src/label.rs"),("composite page label","PagedKey::as_label")],None,["Label::as_label","HashTree::get_labels"])

p("C15","Seq is a vector whose hash chains over all its items",
"After any mix of append, extend, clear, capacity calls, and construction from vectors, slices or iterators, a Seq holds exactly the items a vector would hold, in order, observable identically through len, indexing, slicing, iteration, as_vec, AsRef, Borrow, and conversion into Vec. Its root hash depends only on that item list: starting from 32 zero bytes, each item's root hash is folded in as SHA-256(previous hash || item hash), and its hash tree is that hash, pruned. Two Seqs are equal iff their items are.",
["histories","inputs"],"all operation sequences, item types and lengths, all ways of building the same list",
"Tests compare a few ways of building 0..100 with each other, never with an independent definition, and never after clear+extend or with non-integer items.",
[SEQ],[("hash chain","append, recompute_hash")],[("hash","running chain hash","Seq.hash"),("items","stored items","Seq.items")],["Seq::*"])

p("C16","Serialisation round-trips contents and re-certifies them",
"Encoding a Map, Seq or Paged with CBOR, JSON or Candid and decoding it yields a collection with the same contents in the same order, whose root hash and witnesses certify those contents and which keeps behaving correctly under further operations; a Seq's root hash is preserved exactly (unless its items contain Maps, whose tree shape depends on their history). The encodings are interchangeable with those of the standard shapes: a Seq with a vector, a Map with a standard map (CBOR, JSON) and with a vector of pairs (Candid).",
["histories","inputs"],"all contents, nestings and codecs; histories that continue after decoding (canister upgrade)",
"Only Seq<i32> of ten items is round-tripped; Map and Paged encodings are not tested at all.",
[MAP,SEQ,PG],[("Serialize/Deserialize/CandidType impls","src/collections/*.rs")],None,["serde_cbor","serde_json","candid encode_one/decode_one"])

p("C17","Paged stores each key's items in order in full pages",
"For page size S >= 1, after any sequence of insertions over any keys, page p of a key is the Seq of the key's items number p*S to p*S+S-1 in insertion order; every page but the last is full, no page is empty, and pages beyond the last one, and pages of keys never inserted, do not exist for any page number. get_last_page_number returns the index of the last page, or none, and keys do not influence each other.",
["histories","inputs"],"all insertion interleavings, key types, page sizes, and every usize page number",
"One test with five interleaved integer keys, page size 3 and 50 items.",
[PG,RB],[("append to last page or open the next","Paged::insert via modify_max_with_prefix"),("lookup","Paged::get via get_with")],[("page","page number within the key","PagedKey.page")],["Paged::get","Paged::get_last_page_number"])

p("C18","Paged certifies its pages and its last page",
"The root hash of a Paged equals the IC hash of its full tree, whose entries are, in order of key and page, the label key-bytes followed by the 4-byte big-endian page number with the page's Seq hash as content. witness(key, page) reconstructs to the root hash and proves the presence of an existing page with exactly that Seq hash, or the absence of a missing one. witness_last_page_number(key) reconstructs to the root hash, shows the last page's label next to a proof that the following page does not exist, and shows absence of page 0 for a key without pages.",
["histories","inputs"],"all insertion histories, keys and page numbers",
"No test creates a Paged witness or looks at its root hash.",
[PG,RB],[("witness / witness_last_page_number","src/collections/paged.rs"),("PagedKey label","PagedKey::as_label")],None,["Paged::witness","Paged::witness_last_page_number","Paged::root_hash"])

p("C19","A Group's root hash commits to its whole labelled tree",
"A Group's root hash equals the IC hash of its full tree, in which looking up each registered path gives exactly that leaf's current data, no other path exists, and sibling labels are in ascending order, so lookups of unregistered paths under it are Absent. The tree depends only on the set of (path, data) pairs, not on the order they were added, stays logarithmically deep in the number of siblings, and reflects every change made through get_mut at once.",
["inputs","histories"],"all sets of paths (depth, fan-out, shared directories), insertion orders and leaf updates",
"One fixed group of four leaves; only label lists and equality of root hashes among its own witnesses are compared.",
[GB,GR],[("directory build","GroupBuilderNode::build"),("hash and full tree","GroupNode::root_hash, witness_all")],None,["Group::root_hash","Group::as_hash_tree"])

p("C20","A Group witness reveals the chosen leaves and prunes the rest",
"For any set of leaves chosen with full or partial, the built witness reconstructs to the group's root hash, contains exactly the labels on the paths of the chosen leaves with exactly the trees chosen for them (the last choice winning if a leaf is chosen twice), and replaces every part of the group that leads to no chosen leaf by a pruned hash. Choosing nothing yields just the pruned root hash.",
["inputs","histories"],"all group shapes, all subsets of leaves, all mixes of full and partial and orders of choosing them",
"Six fixed selections over groups of two and four leaves.",
[GR],[("node numbering and ancestor lists","GroupNode::visit_node"),("selective construction","Ray::full/partial/build, GroupNode::witness")],[("dependencies","leaf type to ids of all its ancestors","Group.dependencies"),("to_visit","union of ancestors of chosen leaves","Ray.to_visit")],["Ray::build"])

p("C21","Certified state is a deterministic function of the update history",
"Two collections of the same type driven through the same updates have identical root hashes and byte-identical witnesses and encodings, whatever read-only calls are interleaved and wherever and whenever they were built (memory addresses, hash-map seeds, spare capacity). Read-only calls (lookups, witnesses, iteration, hashing, encoding) never change what later calls observe.",
["histories"],"all update histories times all interleavings of read-only calls, on Map, RbTree, Seq, Paged and Group",
"Tests never run one history twice; replicas of a canister must agree on the certified hash bit for bit.",
[RB,MAP,SEQ,PG,GR],[("no dependence on addresses, seeds or reads","all collections")],None,["root_hash","witness bytes"])

p("C22","Different contents never share a root hash",
"Two collections of the same type (Map, RbTree, Seq, Paged, nested combinations, or a Group of a fixed layout) with different contents have different root hashes, whatever histories produced them: changing, adding, removing, moving or reordering any item changes the root hash. A content change in a deeply nested collection changes the hash of every enclosing collection.",
["histories","inputs"],"all pairs of reachable states with different contents, in particular pairs one small edit apart",
"Tests only check that successive Seq appends change the hash.",
[RB,SEQ,PG,GR,AH],[("label, value and structure all hashed","Node::subtree_hash, Seq::append, PagedKey::as_label")],None,["root_hash"])

p("C23","Group building and typed access never lose or confuse data",
"Registering a type twice, registering a path twice, or a path that runs through an existing leaf or ends at an existing directory is always refused by a panic, for any order of registration, and every conflict-free set of registrations succeeds. In the built group get and get_mut reach, for each registered type, exactly the value registered for that type, and panic for any other type; changing one leaf leaves all others untouched.",
["inputs","histories"],"all registration sequences with and without conflicts, all access sequences",
"No test registers a conflict or reads a leaf back through get.",
[GB,GR],[("conflict detection","GroupBuilder::insert, GroupBuilderNode::insert"),("type-keyed storage and downcast","Group::get/get_mut, dyn GroupLeaf")],None,["GroupBuilder::insert","Group::get","Group::get_mut"])

p("C24","A panic in caller code leaves the collection certified and consistent",
"If a closure or iterator supplied by the caller panics inside modify, modify_max_with_prefix, entry().and_modify / or_insert_with / or_insert_with_key, nested_witness, Seq::extend, collect or Group::partial, and the panic is caught, then the collection still behaves as a dictionary (or vector) over the changes made before the panic, its root hash matches its contents, all its witnesses verify, and nothing is leaked or dropped twice.",
["fault_sequences","histories"],"all histories with a panic injected at any call, and at any element, of caller-supplied code",
"No test injects a panic.",
[RB,ENT,SEQ,MAP,GR],[("hash maintenance around caller code","RbTree::modify, modify_max_with_prefix, Entry::and_modify, Seq::extend")],None,["root_hash after a caught panic"])

p("C25","Decoding untrusted bytes is rejected cleanly or fully consistent",
"Decoding any byte string as a CBOR- or JSON-encoded Map, Seq or Paged either returns an error or returns a collection that is fully consistent: entries in ascending key order without duplicates (the last duplicate winning), root hash equal to the hash of its full tree (for Seq, the item chain), verifying witnesses, and normal behaviour afterwards. It never crashes, and accepts exactly the inputs that decode as the corresponding standard map or vector.",
["inputs"],"all byte strings, in particular valid encodings with unsorted or duplicate keys, truncations, and mutations",
"No test decodes anything but its own output of one sequence.",
[MAP,SEQ,PG],[("Deserialize impls","MapVisitor::visit_map, Seq::deserialize")],None,["serde_cbor::from_slice","serde_json::from_slice"])

p("C26","Mutable access cannot outlive the borrow of the collection",
"A program that compiles without unsafe code cannot obtain from a Map, RbTree or entry a reference that stays usable after the collection has been changed, moved or dropped.",
["programs"],"all safe programs using the crate",
"A property of the type signatures: no test that compiles can exhibit it without being the violation itself.",
[RB,ENT,MAP],[("lifetimes of returned references","RbTree::modify, modify_max_with_prefix, Map::get_mut")],None,["rustc borrow checking of client programs"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
