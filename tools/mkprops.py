#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay readable)."""
import json
P=[]
DER=["fixed-map-derive/src/unit_variants.rs","fixed-map-derive/src/any_variants.rs"]
MS=["src/map/storage/boolean.rs","src/map/storage/option.rs","src/map/storage/singleton.rs","src/map/storage/hashbrown.rs"]
SS=["src/set/storage/boolean.rs","src/set/storage/option.rs","src/set/storage/singleton.rs","src/set/storage/hashbrown.rs"]
def p(id,title,st,over,text,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","A map behaves as a finite partial function from keys to values",
 "After any history of operations, a map contains exactly the keys most recently inserted and not since removed, each with its latest value: inserting returns the value previously stored under that key (or nothing), removing returns and deletes exactly that key's value, clearing empties it. Lookup, membership, length and emptiness always agree with those contents, and an operation on one key never changes what is stored under another.",
 ["histories","inputs","programs"],
 "Every history of insert/remove/clear/lookup/in-place update/retain/entry calls, over every key type (unit, bitset, composite, nested, boolean, optional, singleton, dynamic) and value type.",
 "The tests run a dozen fixed histories on a handful of key types; contents after a history are a function of all operations on all keys of a shape, which needs every history over every shape.",
 ["src/map.rs","src/map/storage.rs"]+MS+DER,
 [("per-variant slots of optional values","fixed-map-derive/src/unit_variants.rs impl_map"),("per-variant field dispatch for composite keys","fixed-map-derive/src/any_variants.rs MapStorage impl"),("built-in storages","src/map/storage/*.rs")],
 ["Map::{insert,remove,get,get_mut,contains_key,len,is_empty,clear}"],
 [{"name":"slot per key","meaning":"value stored under a key, or none","where":"derived MapStorage struct"}])
p("C02","A set behaves as a mathematical set of keys",
 "After any history of operations, a set contains exactly the keys inserted and not since removed: insertion reports true precisely when the key was absent, removal reports true precisely when it was present, and clearing empties it. Membership, length and emptiness always agree with those contents, and an operation on one key never affects another.",
 ["histories","inputs","programs"],
 "Every history of insert/remove/clear/contains/retain calls over every key type, including bitset keys of every backing width.",
 "The tests check a few insert/contains pairs; return values on repeated inserts/removals and emptiness of nested, boolean and optional sets are not sampled at all.",
 ["src/set.rs","src/set/storage.rs"]+SS+DER,
 [("boolean slots / bit masks per variant","fixed-map-derive/src/unit_variants.rs impl_set, impl_bitset"),("composite set storage","fixed-map-derive/src/any_variants.rs SetStorage impl"),("built-in storages","src/set/storage/*.rs")],
 ["Set::{insert,remove,contains,len,is_empty,clear}"],
 [{"name":"presence flag per key","meaning":"key is in the set","where":"derived SetStorage struct"}])
p("C03","The entry API acts on exactly the requested key and its current state",
 "An entry is occupied exactly when its key is present and reports that key; the insert-or-get family stores its default only when the key is vacant (evaluating the supplied function exactly once then, and never otherwise) and returns a reference to the value now stored, and in-place modification runs exactly once on an occupied entry and never on a vacant one. On an occupied entry reading, writing, replacing (returning the old value) and removing (returning the value, leaving the key absent) act on that key's value, inserting through a vacant entry makes the key present, and no other key is affected; dropping an entry unused changes nothing.",
 ["histories","inputs","programs"],
 "Every map state, every key, every chain of entry operations, over every key type and value type.",
 "The tests exercise each entry method on one or two hand-picked states of two key types.",
 ["src/map/entry.rs","src/option_bucket.rs","src/map/storage.rs"]+MS+DER,
 [("entry enum and its combinators","src/map/entry.rs"),("buckets over a slot known to be full/empty (unsafe)","src/option_bucket.rs"),("nested entry dispatch","fixed-map-derive/src/any_variants.rs build_entry_impl")],
 ["Map::entry","Entry::{or_insert,or_insert_with,or_insert_with_key,or_default,and_modify,key}","OccupiedEntry","VacantEntry"])
p("C04","Every iterator yields exactly the present entries, in declaration order",
 "Iterating a map or set, by shared reference, by mutable reference, over keys, over values or by consuming it, yields every present entry exactly once and nothing else. Entries appear in the declaration order of the key type, applied recursively to nested keys (the true key before false, present optional keys before the absent one); only keys stored dynamically may appear in arbitrary order within their own variant.",
 ["histories","inputs","programs"],
 "Every reachable state of every key type, every kind of iterator.",
 "Doc tests check iteration on two or three states per key shape; order and completeness depend on which combination of slots of which nested storages is occupied.",
 ["src/map.rs","src/set.rs"]+MS+SS+DER,
 [("flattened slot arrays","fixed-map-derive/src/unit_variants.rs"),("hand-written step-indexed iterators over fields","fixed-map-derive/src/any_variants.rs build_iter_next"),("chained iterators","src/*/storage/{boolean,option}.rs")],
 ["iter, keys, values, iter_mut, values_mut, into_iter, IntoIterator for &Map/&mut Map/&Set"])
p("C05","Iterators stay exact under any mix of front, back and partial consumption",
 "For any interleaving of taking from the front and from the back, a double-ended iterator yields each remaining entry exactly once, the front sequence is the order and the back sequence its reverse, and once exhausted it stays exhausted from both ends. At every point the reported bounds on remaining length enclose the true remainder (exactly, where an exact length is offered), a clone taken midway yields the same remainder independently, and skipping, folding, counting, reversing or taking the last agree with plain stepping.",
 ["histories","inputs","programs"],
 "Every state of every key type, every interleaving of next/next_back/nth/nth_back up to and past exhaustion, every cut point for size_hint, clone and consuming adaptors.",
 "Existing doc tests call rev() on a handful of states; no test mixes both ends, clones midway, or looks at size hints.",
 ["fixed-map-derive/src/any_variants.rs","fixed-map-derive/src/unit_variants.rs","src/map/storage/boolean.rs","src/map/storage/option.rs","src/set/storage/boolean.rs","src/set/storage/option.rs"],
 [("start/end step counters with nested iterators","fixed-map-derive/src/any_variants.rs build_iter_next / build_iter_next_back"),("bit-state iterators","src/map/storage/boolean.rs Keys, src/set/storage/boolean.rs Iter")],
 ["Iterator, DoubleEndedIterator, ExactSizeIterator, Clone of all iterator types"],
 [{"name":"start/end","meaning":"next front/back field of a composite iterator","where":"fixed-map-derive/src/any_variants.rs"}])
p("C06","Retain visits each present entry once and keeps exactly the accepted ones",
 "Retain calls its predicate exactly once for each entry present beforehand, and for nothing else, with that entry's key (and, for maps, its current value by mutable reference). Afterwards exactly the entries for which it answered true remain, including any change it made to their values; it never adds an entry.",
 ["histories","inputs","programs"],
 "Every state, every accept/reject assignment, every value update by the predicate, over every key type, for maps and sets.",
 "Doc tests run retain with one predicate on one full state per type; absent slots and all accept/reject combinations are not tried.",
 ["src/map.rs","src/set.rs"]+MS+SS+DER,
 [("retain per storage","src/*/storage/*.rs retain; derive output retain")],
 ["Map::retain","Set::retain"])
p("C07","Equality is equality of contents; clones are equal and independent",
 "Two maps (or sets) compare equal exactly when they hold the same keys with equal values, regardless of the histories that produced them. A clone or copy equals its original and is independent of it: no later operation on either one is observable through the other.",
 ["histories","inputs","programs"],
 "Every pair of reachable states of every key type, each state built by several different histories; every operation after cloning, on either side; values without reflexive equality.",
 "Tests compare a few pairs built by the same kind of history; equality is a relation on pairs of states.",
 ["src/map.rs","src/set.rs"]+MS+SS+DER,
 [("PartialEq/Clone/Copy of storages","derive output and src/*/storage/*.rs")],
 ["PartialEq, Eq, Clone, Copy for Map and Set"])
p("C08","Ordering of collections is lexicographic in key declaration order",
 "Where maps or sets can be compared for order, the result is the one an ordered standard collection with keys sorted in declaration order would give: entries are compared lexicographically, a key before its value, a strict prefix being less. The order is total (partial when values are only partially ordered), consistent with equality, and all comparison operators, minimum, maximum and clamping agree with it; the set storage chosen does not change it.",
 ["inputs","histories","configurations"],
 "Every pair (and triple, for transitivity) of states of every orderable key type, with and without bitset storage, with values that are incomparable.",
 "The tests check three sets of one three-variant key; an order is a relation on all pairs and triples of states.",
 ["src/macro_support.rs","fixed-map-derive/src/unit_variants.rs","src/map.rs","src/set.rs","src/set/storage/singleton.rs"],
 [("index-tagged comparison of occupied slots","src/macro_support.rs"),("PartialOrd/Ord of derived storages","fixed-map-derive/src/unit_variants.rs")],
 ["PartialOrd, Ord for Map and Set"])
p("C09","Equal collections hash equally, whatever their history",
 "Whenever two maps or two sets that can be hashed compare equal, they feed identical data to any hasher, independent of the operation history that produced each of them. Hence a collection used as a key of a hashed container is always found again through any equal collection.",
 ["histories","inputs"],
 "Every pair of histories leading to the same contents, over every hashable key type, including bitset storage.",
 "No test hashes two differently built equal collections; the law quantifies over all pairs of histories.",
 ["fixed-map-derive/src/unit_variants.rs","src/map.rs","src/set.rs","src/set/storage/singleton.rs"],
 [("Hash of slot arrays / bit masks","fixed-map-derive/src/unit_variants.rs")],
 ["Hash for Map and Set"])
p("C10","Set intersection yields exactly the common keys",
 "Intersecting two sets yields each key present in both exactly once, in declaration order for statically stored keys, and nothing else, without modifying either set. Stepping, folding, counting, cloning partway, debug output and the reported length bounds all describe that same sequence, and exchanging the two sets yields the same keys.",
 ["inputs","histories","programs"],
 "Every pair of states of every key type, every cut point.",
 "One doc test intersects one pair of sets.",
 ["src/set/intersection.rs","src/set.rs"],
 [("filtering iterator over the smaller set","src/set/intersection.rs, Set::intersection")],
 ["Set::intersection","Intersection: Iterator, Clone, Debug"])
p("C11","Bitset keys behave like ordinary keys; raw values round-trip",
 "Choosing bitset storage changes no observable result of any set or map operation compared with the same enum without it, at any number of variants up to the supported maximum. The raw value of a set determines its contents: rebuilding a set from the raw value of a set gives back an equal set with identical behaviour, different sets have different raw values, and the set occupies no more than the smallest standard integer with one bit per variant.",
 ["histories","inputs","configurations","programs"],
 "Every variant count 0..=128 including those around every integer width, every history over sets of each, each compared in lockstep with the same enum without bitset storage.",
 "The tests use bitset enums with two or three variants only; masks, widths and literals are generated per variant count.",
 ["fixed-map-derive/src/unit_variants.rs","src/raw.rs","src/set.rs"],
 [("bit per variant, width by variant count","fixed-map-derive/src/unit_variants.rs impl_bitset, determine_bits"),("raw conversion","src/raw.rs")],
 ["Set with #[key(bitset)]","Set::as_raw","Set::from_raw"])
p("C12","Every stored value is owned once: never leaked, duplicated or dropped twice",
 "Each value moved into a map is at any time either held by it, handed back to the caller exactly once, or dropped exactly once, at the moment it is cleared, rejected, or the map or its iterator is dropped; overwritten and removed values are handed back rather than dropped. Dropping a partially consumed owning iterator drops exactly the values not yet taken.",
 ["histories","inputs","programs"],
 "Every history over every key type, ending at every point, including every partial consumption of owning iterators from either end and every entry operation.",
 "Existing tests store plain integers or check drops in one bucket test; leaks and double drops are invisible to value-based assertions.",
 ["src/option_bucket.rs","src/map.rs","src/map/entry.rs"]+MS+DER,
 [("slot take/replace","src/option_bucket.rs, derive output"),("owning iterators","fixed-map-derive/src/any_variants.rs")],
 ["Drop calls of values stored in Map"])
p("C13","A panic in user code leaves collections valid, with no value lost or doubled",
 "If a caller-supplied closure, default constructor, clone, comparison, source iterator or value destructor panics during an operation, the collection stays usable: afterwards it behaves as some valid map or set whose contents differ from those before only by what the interrupted operation had already done to the entries it had processed. No value is ever dropped twice or readable after being dropped, and none is leaked unless a destructor itself panicked or a clone of dynamically stored entries was interrupted.",
 ["fault_sequences","histories","inputs"],
 "Every state, every operation that calls user code, a panic injected at every call.",
 "No test panics inside a callback; the property ranges over every fault point of every operation in every state.",
 ["src/option_bucket.rs","src/map/entry.rs","src/map.rs","src/set.rs"]+MS+SS+DER,
 [("slot-wise updates that never leave a hole","derive output retain/clear, src/option_bucket.rs"),("clone building a fresh storage","derive output")],
 ["catch_unwind around Map/Set operations"])
p("C14","Serialization is faithful and deserialization total over valid input",
 "Serializing a map (set) emits one map (sequence) with an announced length equal to the number of elements actually emitted, containing each present entry exactly once in iteration order. Deserializing what was serialized yields an equal collection; arbitrary well-typed input yields the collection obtained by inserting its elements in order (the last duplicate wins); an error of the serializer, deserializer, key or value at any point is returned, without panicking and without leaking values.",
 ["inputs","histories","fault_sequences","programs"],
 "Every state of every key type; every input sequence of entries up to a bound including duplicates; an error injected at every call of the data format.",
 "There is no serde test in the repository.",
 ["src/map.rs","src/set.rs"],
 [("serialize_map / visit_map","src/map.rs"),("serialize_seq / visit_seq","src/set.rs")],
 ["serde::Serialize, serde::Deserialize for Map and Set"])
p("C15","Every supported key declaration gives each key its own slot",
 "For every enum for which keys can be derived, whatever the number of variants, their names, explicit discriminants, payload types and nesting depth, distinct keys never share storage and every key is storable: inserting any subset of keys in any order into a map or a set makes exactly those keys present, each with its own value, enumerated in declaration order, and each can then be individually replaced and removed.",
 ["programs","inputs","histories"],
 "Every enum shape up to a bounded number of variants over all payload kinds, plus large enums (hundreds of variants), explicit discriminants, raw identifiers, deep nesting.",
 "Tests define a handful of enums with up to four variants; the derive generates new code for every shape.",
 DER+["fixed-map-derive/src/lib.rs","src/key.rs"],
 [("code generated per variant","fixed-map-derive/src/unit_variants.rs, any_variants.rs")],
 ["derive(Key)"])
p("C16","The derive accepts exactly the supported declarations and rejects others",
 "Deriving a key succeeds for every enum whose variants are all either without fields or with a single unnamed field that is itself a key type, with bitset storage for field-less enums of at most 128 variants, and the generated code compiles. Any other declaration (structs, unions, variants with named or several fields, unknown or malformed options, payloads that are not keys, too many bitset variants) is rejected at compile time and never silently accepted with a different meaning.",
 ["programs","configurations"],
 "Every declaration up to a bounded number of variants over all field kinds, visibilities and attribute forms.",
 "The tests contain only accepted declarations; acceptance is a predicate on all programs.",
 DER+["fixed-map-derive/src/lib.rs","fixed-map-derive/src/attrs.rs","fixed-map-derive/src/context.rs"],
 [("attribute parsing","fixed-map-derive/src/attrs.rs"),("error collection","fixed-map-derive/src/context.rs, lib.rs")],
 ["rustc diagnostics for derive(Key) input"])
p("C17","Dynamically stored keys behave like a hash map over their full range",
 "Keys of every supported primitive, character, string and byte-string type, alone, optional, or as enum payloads next to other variants, obey the same map and set semantics for all their values including the extremes, through any growth and shrinkage of the collection. Dynamic keys of one variant never interfere with another variant or type carrying the same payload value, and strings and byte strings are distinguished by content, not by address.",
 ["inputs","histories","programs"],
 "Every supported dynamic key type with boundary values, every history up to a bound, growth across several capacity doublings with interleaved removals.",
 "Tests use one or two u32 or string keys; growth, tombstones and extreme values are untouched.",
 ["src/map/storage/hashbrown.rs","src/set/storage/hashbrown.rs","src/key.rs","fixed-map-derive/src/any_variants.rs"],
 [("hash table storages","src/*/storage/hashbrown.rs"),("list of supported types","src/key.rs")],
 ["Map and Set with dynamic keys"])
p("C18","Debug output shows exactly the contents, like the standard collections",
 "Formatting a map or set for debugging, plainly or pretty-printed and with any formatter flags, produces exactly what the standard library's map and set formatting produces for the same entries in iteration order. A failing writer makes formatting return an error without panicking.",
 ["inputs","histories","fault_sequences","programs"],
 "Every state of every key type, with the formatter flags that reach elements, and a write failure at every position.",
 "The tests format two maps and two sets.",
 ["src/map.rs","src/set.rs"],
 [("debug_map / debug_set over iter","src/map.rs Debug, src/set.rs Debug")],
 ["Debug for Map and Set"])
p("C19","Storage is inline: documented sizes and no heap allocation for fixed keys",
 "A map over a field-less enum is exactly as large as an array with one optional value per variant, a set over it one byte per variant, and map and set types are as large as their storage. No operation, iteration, comparison, or formatting into a writer that does not allocate, on a collection whose keys are stored statically throughout, allocates heap memory.",
 ["inputs","histories","configurations","programs"],
 "Every field-less enum size and value type considered; every state and operation of every static key type under an allocation-counting allocator.",
 "Doc tests check two sizes; absence of allocation is not checked at all.",
 ["fixed-map-derive/src/unit_variants.rs","fixed-map-derive/src/any_variants.rs","src/map.rs","src/set.rs"],
 [("inline arrays and fields, transparent wrappers","derive output, #[repr(transparent)]")],
 ["core::mem::size_of","global allocator"])
p("C20","Building from a sequence equals inserting its items in order",
 "Collecting any finite sequence of entries into a map or keys into a set, or converting an array of keys into a set, gives exactly the collection obtained by inserting the items one by one into an empty collection, so that the last of several entries with the same key wins and superseded values are dropped; a new or default collection is empty. The source is consumed once, to its first end, whatever length it announces.",
 ["inputs","programs"],
 "Every sequence up to a bounded length over all keys and values of every key type, with sources that announce wrong lengths or resume after ending.",
 "Tests collect one or two duplicate-free sequences.",
 ["src/map.rs","src/set.rs"],
 [("FromIterator, From<[T; N]>, Default","src/map.rs, src/set.rs")],
 ["FromIterator, From, Default, new"])
p("C21","Mutable access reaches exactly the addressed value",
 "Every mutable reference obtained from a map, by key, from an entry, or from the mutable iterators, refers to the value of the key it was obtained for and to no other: writing through it is visible through every accessor for that key and through none for other keys. The mutable iterators hand out one distinct reference per present entry, all usable at the same time, in the same order as the shared iterators.",
 ["histories","inputs","programs"],
 "Every state of every key type, every key, every subset and order of writes through simultaneously held references, from either end.",
 "Tests write through one reference at a time in full maps.",
 ["src/map.rs","src/option_bucket.rs","src/map/entry.rs"]+MS+DER,
 [("as_mut dispatch","derive output get_mut/iter_mut/values_mut"),("bucket references (unsafe)","src/option_bucket.rs")],
 ["get_mut, iter_mut, values_mut, &mut Map iteration, entry references"])
p("C22","Behaviour does not depend on the enabled features or the build profile",
 "Every combination of the optional features builds, and every map and set operation on statically stored keys gives the same results under all of them, in builds with and without debug assertions and optimization alike. Where the dynamic storage feature is enabled, dynamically stored keys behave according to the map and set contract whatever else is enabled; disabling the dynamic storage feature removes exactly the dynamically stored key types and nothing else.",
 ["configurations","histories","programs"],
 "Every subset of the features std, hashbrown and serde, debug and release builds; the same exhaustive exploration of operations under each.",
 "The test suite is run with one feature set in one profile.",
 ["Cargo.toml","src/lib.rs","src/key.rs","src/map/storage.rs","src/set/storage.rs"],
 [("cfg(feature) gates","src/lib.rs, src/key.rs, src/map.rs, src/set.rs")],
 ["builds under each feature subset"])
p("C23","Safe use is free of undefined behaviour",
 "No sequence of safe calls on maps, sets, their entries and iterators performs an invalid memory access, reads uninitialised or dropped data, violates the aliasing rules for references, or executes an unreachable hint, for any key type, value type (including zero-sized, niche-optimised and heap-owning ones) and including sequences interrupted by a panic.",
 ["histories","inputs","fault_sequences","programs"],
 "Every history up to a bound over every storage kind, executed under an interpreter that detects undefined behaviour.",
 "The tests run natively, where undefined behaviour usually goes unnoticed.",
 ["src/option_bucket.rs","src/map/entry.rs"]+DER,
 [("unchecked slot access in buckets","src/option_bucket.rs")],
 ["Miri diagnostics"])
p("C24","Collections, iterators and entries have the traits their contents allow",
 "For every key type and value type, a map is Clone, PartialEq, Eq, Debug, Send, Sync and RefUnwindSafe exactly when its values are, and Copy exactly when its values are and its keys are stored statically; a map of field-less enum keys is PartialOrd, Ord and Hash exactly when its values are, and no map is when its values are not. Sets are Clone, Eq, Debug, Send, Sync whatever the key, Copy for statically stored keys, and ordered and hashed for field-less enums. Shared iterators are Clone and may go where a shared reference to the values may; mutable iterators and entries are never Clone and may go where a mutable reference may; iterators are double-ended exactly for statically stored keys. Collections can be collected from and iterated by value, by reference and by mutable reference.",
 ["programs","configurations"],
 "Every pair of a key type and a value type and every trait, decided by the compiler on the real types.",
 "A test can use a trait that is there for one type; it cannot observe one that is there and should not be, nor one missing for a type no test names.",
 ["src/map.rs","src/set.rs","src/map/entry.rs","src/option_bucket.rs"]+MS+SS+DER,
 [("manual trait implementations and their bounds","src/map.rs, src/set.rs"),("derived storages","fixed-map-derive/src")],
 ["trait bounds of Map, Set, their iterators and entries"])
p("C25","Borrows: shared with shared, mutable with nothing, owned results free",
 "Whatever is obtained from a map or set keeps it borrowed for exactly as long as it is used: references to values, shared iterators over values and their items allow further reads but no change, move or destruction of the collection; mutable references, mutable iterators, entries and what they give out allow no other use; keys, removed and replaced values, lengths, copies and consuming iterators leave the collection free. A reference from `get` or `get_mut` of an occupied entry ends with the entry, one from `into_mut` or a vacant entry's `insert` with the map. References never escape closures or outlive the map; several references from one mutable iterator may be held together; collections holding borrowed values neither extend nor shorten those borrows.",
 ["programs"],
 "Every pair of a way to obtain something and a use held across it, for every storage kind, compiled with the real crate: accepted exactly when the rule allows it.",
 "Tests contain only programs that compile; one that must be rejected, or a legal one no test contains, is out of their reach.",
 ["src/map.rs","src/set.rs","src/map/entry.rs","src/option_bucket.rs"]+MS+SS+DER,
 [("lifetimes of the public signatures","src/map.rs, src/set.rs, src/map/entry.rs"),("lifetimes of storages, iterators and entries","src/map/storage.rs, src/map/storage/*.rs, fixed-map-derive/src")],
 ["signatures of Map, Set, Entry, OccupiedEntry, VacantEntry and the iterators"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
