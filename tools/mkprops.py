#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the text stays in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": None}})

TREE="src/tree.rs"; LIB="src/lib.rs"; SET="src/bitset/set.rs"; MAP="src/bitset/map/mod.rs"; LIST="src/bitset/map/list.rs"
ARR="src/collection/array.rs"; HASH="src/collection/hash.rs"; COL="src/collection/mod.rs"; ITER="src/iter.rs"; KEY="src/key.rs"; MARK="src/markers.rs"
ALLT=[TREE,LIB,SET,MAP,LIST,ARR,HASH,COL,KEY]

p("C01","Insert and lookup behave as a map",
 "After any history of insertions and removals, looking up a key returns exactly the entry (key and value) most recently stored under that key, and nothing for a key that is not stored. Inserting under a stored key returns that key with the value it held and replaces it; inserting under a new key returns nothing; no other entry changes. No insertion or lookup panics.",
 ["histories","inputs"],"every tree implementation, every reachable content, every key and value looked up or inserted",
 "unit tests insert a handful of fixed ascending keys; the tree swaps min, max and sub-tree entries differently for every relative position of old and new keys",
 ALLT,[("insert: min/max swap then recursion into children","src/tree.rs insert"),("find: min/max short cut then children","src/tree.rs find"),("slot / rank lookup of a child","src/collection/array.rs, hash.rs, src/bitset/map/mod.rs")],
 ["VebTree::insert","VebTree::find"],
 [{"name":"Tree.min / TreeData.max / children","meaning":"smallest and largest entry are kept outside the sub-trees","where":"src/tree.rs"}])
p("C02","Minimum, maximum, predecessor and successor are exact",
 "On any reachable content the minimum and maximum queries return the entries with the smallest and largest stored key. For any query key, stored or not, predecessor returns the entry with the largest stored key strictly below it and successor the one with the smallest stored key strictly above it, or nothing if there is none. The value returned is the one stored under that key, and no query panics.",
 ["histories","inputs"],"every tree implementation, every reachable content, every query key",
 "tests query around three to six fixed keys; errors depend on how keys share high halves and on where minimum and maximum sit",
 ALLT,[("predecessor/successor: child, then summary, then min/max","src/tree.rs"),("256-bit masks","src/bitset/set.rs mask_lower/mask_higher"),("order-preserving key split","src/key.rs")],
 ["VebTree::min_val","VebTree::max_val","VebTree::predecessor","VebTree::successor"])
p("C03","Removal deletes exactly the requested entry",
 "Removing a stored key, or the minimum or maximum, returns exactly that entry and leaves every other entry as it was; the remaining tree answers every later query as if the entry had never been there, and no tree is returned exactly when the last entry went. Removing an absent key hands the tree back with its contents unchanged. No removal panics.",
 ["histories","inputs"],"every tree implementation, every reachable content, every key removed, every query afterwards",
 "tests remove a few keys from trees of at most four entries; emptied sub-trees, refilled minimum/maximum and the summary update are reached by one or two fixed shapes",
 ALLT,[("refill of min/max from the children on removal","src/tree.rs remove, remove_min, remove_max"),("emptied child reported to the summary","src/collection/*.rs remove_key/maybe_remove_key")],
 ["VebTree::remove","VebTree::remove_min","VebTree::remove_max"])
p("C04","Mutable access reaches the same entry and only that entry",
 "Every mutable query (lookup, minimum, maximum, predecessor, successor) selects exactly the entry its shared counterpart selects, or nothing when that selects nothing. Writing through the returned reference changes the value of that entry, is visible to every later query, and changes no other entry and no key.",
 ["histories","inputs"],"every tree implementation, every reachable content, every query key, every written value",
 "the mutable variants are separate hand-written copies of the shared ones and tests call them on a few fixed keys and never write through them and re-read the rest",
 ALLT,[("*_mut copies of the queries","src/tree.rs, src/bitset/map/mod.rs, src/lib.rs")],
 ["VebTree::find_mut","VebTree::min_val_mut","VebTree::max_val_mut","VebTree::predecessor_mut","VebTree::successor_mut"])
p("C05","Single-element state and size bounds tell the truth",
 "A tree says it holds a single element exactly when it holds one, converts into its only entry exactly then, and is otherwise handed back unchanged; a tree built from one entry holds exactly that entry. The reported size bounds always enclose the true number of entries, and are exact for the implementations that count.",
 ["histories","inputs"],"every tree implementation, every reachable content including those reached by removals",
 "tests check one monad and one two-element tree; states shrunk back to one entry by removals, and the upper bound, are not covered",
 [TREE,LIB,SET,MAP],[("is_monad / into_monad / len_hint","src/lib.rs trait defaults and each implementation")],
 ["VebTree::is_monad","VebTree::into_monad","VebTree::from_monad","VebTree::len_hint"])
p("C06","The byte set is exact on every set of bytes",
 "For every non-empty set of bytes and every byte, each operation of the bit-set tree (membership, insert, remove, minimum, maximum, predecessor, successor, removal of either end, single-element tests, size) gives the answer the mathematical set gives, and the resulting set is the mathematical result.",
 ["inputs","histories"],"all 2^256-1 non-empty contents, all 256 keys, all operations",
 "tests sample a few bytes; errors hide at the 64/127/128/129/255 word and shift boundaries and in particular combinations of set words",
 [SET],[("two 128-bit words, masks and bit counting","src/bitset/set.rs")],["ByteSet as VebTree"],
 [{"name":"ByteSet.0","meaning":"bit i of the 256-bit array is set iff byte i is present; never all zero","where":"src/bitset/set.rs"}])
p("C07","The byte map pairs every key with its own value",
 "For every non-empty set of stored bytes and every byte, each operation of the byte-indexed tree reads, writes, inserts or removes the value belonging to exactly the key in question, keeps all other pairs intact, and keeps key set and value list in step.",
 ["inputs","histories"],"all 2^256-1 key sets, all 256 keys, all operations, lists of up to 256 values",
 "the rank of a key is recomputed for every access, so an off-by-one needs a particular set of lower keys to show; tests use up to five ascending keys",
 [MAP,LIST,SET],[("rank of the key in the bit set indexes the value list","src/bitset/map/mod.rs"),("count_below","src/bitset/set.rs")],["ByteMap as VebTree"],
 [{"name":"ByteMap.list","meaning":"i-th element belongs to the i-th smallest key of the set","where":"src/bitset/map/mod.rs"}])
p("C08","Key splitting is lossless and preserves order",
 "For every supported key type, splitting a key into its halves and joining them gives the key back, joining any two halves and splitting gives the halves back, and two keys compare exactly as their pairs of halves do. Splitting by reference yields the same halves as splitting by value, whether halves are passed owned or borrowed.",
 ["inputs"],"every value (pair) of u8..u128, i8..i128, (), 4-bit and 2-bit integers, and fixed arrays of 2..8 and 16 elements",
 "tests round-trip some values per type; order preservation across sign and half boundaries needs all pairs",
 [KEY],[("split_val / join / split_ref per key type","src/key.rs")],["VebKey::split_val","VebKey::join","VebKeyRef::split_ref","Ord"])
p("C09","Slot indices are in range and injective",
 "For every key type that can index an array of sub-trees, the index of every key is below the advertised number of slots, and distinct keys have distinct indices. Hence an array-backed collection can store a sub-tree for every key without running out of bounds or sharing a slot.",
 ["inputs","configurations"],"every value (pair) of every array-indexable key type available on 64-bit targets",
 "tests check a few values; sign extension or masking errors only show for one half of the value range",
 [KEY,ARR],[("SizedVebKey::index vs Cardinality","src/key.rs"),("array creation with Cardinality slots","src/collection/array.rs")],["SizedVebKey::index","SizedVebKey::Cardinality"])
p("C10","Sub-tree collections keep the right tree under the right key",
 "For every sub-tree collection (array-backed, hash-backed, byte-indexed, boxed) and every content, fetching, inserting into and removing from the sub-tree of a key touches exactly that sub-tree. Insertion reports whether the sub-tree was new and otherwise the replaced entry; removal reports the removed entry, whether that sub-tree became empty, and whether the whole collection did, and a failed removal hands the collection back unchanged.",
 ["inputs","histories","configurations"],"every occupancy of the collection, every key, every outcome of the inner operation",
 "tests drive collections only through a tree with a few keys; the removed/emptied flags matter only when particular sub-trees become empty in particular orders",
 [COL,ARR,HASH,MAP,LIST],[("occupancy count / hash entry / bit set kept in step with the stored trees","src/collection/array.rs, hash.rs, src/bitset/map/mod.rs")],
 ["TreeCollection::{create,get,get_mut,insert_key,remove_key,maybe_remove_key}"])
p("C11","The size-tracking wrapper counts exactly",
 "After any history, the wrapper's length and both its size bounds equal the number of entries it holds: replacing an entry or failing to remove leaves the count alone, every new entry adds one and every successful removal subtracts one. In all other respects it behaves as the tree it wraps.",
 ["histories","inputs"],"every wrapped content and count, every operation",
 "one test performs five operations on fixed keys; replacement, failed removal and removal of either end from other sizes are not distinguished",
 [LIB],[("size adjusted on insert/remove results","src/lib.rs SizedVebTree")],["SizedVebTree::len","VebTree for SizedVebTree"],
 [{"name":"SizedVebTree.size","meaning":"number of stored entries, at least 1","where":"src/lib.rs"}])
p("C12","Iteration visits every entry once, in order, from both ends",
 "For any tree and any interleaving of steps from the front and from the back, the front steps yield the entries in ascending key order and the back steps in descending key order, no entry is yielded twice, and none is missed by the time either end reports the end. Once an end was reported, every further step from either end reports it again.",
 ["histories","schedules","inputs"],"every content, every interleaving of front and back steps, including steps after exhaustion",
 "tests iterate five-element trees in a few fixed patterns; meeting in the middle has separate code for each of the four cursor states",
 [ITER],[("cursor state Start/Front/Back/Both","src/iter.rs"),("successor/predecessor of the tree","src/tree.rs, src/bitset")],["Iter::next","Iter::next_back"],
 [{"name":"Iter.data / Iter.emitted","meaning":"which ends were advanced, and how many entries were yielded","where":"src/iter.rs"}])
p("C13","Iterator size hints are always correct",
 "At every point of any interleaving of front and back steps the iterator's size hint encloses the number of entries still to come and computing it never fails; over a size-tracking tree it is exact, so the exact length it reports is the number of entries still to come.",
 ["histories","schedules","inputs"],"every content, every interleaving of front and back steps",
 "tests read the hint at a few points of one forward iteration",
 [ITER,LIB],[("emitted counter against the tree's len_hint","src/iter.rs size_hint"),("ExactSizeIterator for sized trees","src/lib.rs")],["Iter::size_hint","ExactSizeIterator::len"])
p("C14","Boxing a tree or a collection changes nothing",
 "A boxed tree gives, for every operation and every argument, the result the unboxed tree gives and ends in the same contents, and a boxed sub-tree collection does the same; nothing is lost when an operation hands the tree or collection back.",
 ["inputs","histories"],"every content of the boxed tree or collection, every operation and argument",
 "the forwarding is written out by hand for some twenty methods; tests call a few",
 [LIB,COL],[("forwarding implementations","src/lib.rs impl VebTree for Box, src/collection/mod.rs impl TreeCollection for Box")],["VebTree for Box<V>","TreeCollection for Box<T>"])
p("C15","The standard ordered map works as a tree",
 "Used as a tree, the standard library's ordered map satisfies the whole tree contract: exact lookups, inserts, removals, ordered queries strict on both sides, mutable access, single-element tests and exact size bounds.",
 ["inputs","histories"],"every content up to the stated size, every key",
 "tests query between keys rather than at them and remove one key; inclusive/exclusive bounds show only at stored keys",
 [LIB],[("range queries with exclusive bounds","src/lib.rs impl VebTree for BTreeMap")],["VebTree for BTreeMap<K, V>"])
p("C16","Each operation recurses at most once per level",
 "Every query, insertion and removal does at most one non-constant-time operation on the sub-trees and the summary together, besides a constant number of constant-time ones, so that its cost is doubly logarithmic in the size of the key space rather than logarithmic or linear.",
 ["inputs","histories"],"every reachable content of a tree, every operation and key",
 "tests observe results, not the work done; a second recursive call only shows as a slow-down on huge key spaces",
 [TREE],[("single recursion: emptied or new sub-trees are handled in constant time","src/tree.rs")],["calls a tree makes on its summary and its sub-trees"])
p("C17","Owned and borrowed keys are interchangeable",
 "A possibly borrowed key compares, dereferences and converts to an owned key exactly as the key it stands for, in either form. Every operation that takes a key gives the same result whether it is passed by value, by reference or possibly borrowed.",
 ["inputs"],"all key values, all combinations of owned and borrowed forms, every key-taking operation",
 "tests pass keys by value and compare a couple of owned/borrowed pairs",
 [KEY,TREE,LIB],[("MaybeBorrowed conversions","src/key.rs"),("Q: Borrow<Key> parameters","src/lib.rs")],["MaybeBorrowed","VebTree methods generic over Q"])
p("C18","Rank-indexed lists keep positions in step",
 "For every length and position, a rank-indexed list of values or sub-trees reads and writes the element at that position, inserts before it shifting only later elements, and removes it handing back exactly that element. When a sub-tree operation empties the element it is dropped and reported so, when it fails the element is put back unchanged, and the list vanishes exactly when its last element does.",
 ["inputs","histories"],"every list up to the stated length, every valid position, every outcome of the inner operation",
 "lists are exercised only through short maps filled in ascending order",
 [LIST],[("VecDeque entry replacement","src/bitset/map/list.rs")],["List for VecDeque<V>","TreeList for VecDeque<V>"])
p("C19","Clones are equal and independent",
 "Cloning a tree yields a tree with exactly the same entries, and any later operation on either leaves the other's entries as they were.",
 ["histories","inputs"],"every reachable content, every operation on the clone or the original",
 "no test clones a tree",
 [TREE,SET],[("hand-written Clone","src/tree.rs"),("Copy/Clone of the byte set","src/bitset/set.rs")],["Clone for Tree"])
p("C20","4-bit and 2-bit integers stay in range and compute modularly",
 "Conversions into the 4-bit and 2-bit integers keep the low bits, conversions out return the value, and or, shift left and shift right give the result on the low bits for every operand and every shift that is defined for the underlying byte. A value of these types is always within its advertised maximum, and ordering and equality are those of the number.",
 ["inputs"],"all byte values and operands, all shift amounts below 8",
 "tests check single values",
 [KEY],[("masking in From / BitOr / Shl / Shr","src/key.rs U4, U2")],["U4","U2"])
p("C21","Trees assembled from the crate's own parts work together",
 "Trees built from the ready-made markers and collections (8- and 16-bit trees, key-only and with values, array-, hash- and byte-indexed children, boxed and size-tracked, signed and array keys) behave as ordered maps under every short history of operations, including histories that empty, refill and re-split sub-trees.",
 ["histories","configurations","inputs"],"every history up to the stated number of operations over symbolic keys and values, for each listed stack",
 "each assembled stack is tested with fixed keys only; interface assumptions between layers (flags, ranks, index ranges) are only exercised together here",
 ALLT+[MARK],[("marker types wiring trees, summaries and collections","src/markers.rs, src/collection, src/bitset/map")],["VebTreeType<K, V, Marker*>"])
json_lines="\n".join(json.dumps(x,ensure_ascii=False) for x in P)+"\n"
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w").write(json_lines)
print(len(P))
