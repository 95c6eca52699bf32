#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json,os
props=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
B="explicit-state search over the real code in lockstep with a reference model"
CH={
"C01":("model_checking",B,"Exhaustive over all contents of ~170 key types (every small shape, structured subsets of large ones), every operation in every state, several histories per state and all short unmerged histories. Beyond the bounds: nothing is claimed."),
"C02":("model_checking",B,"As C01, for sets, including every retain mask on small types."),
"C03":("model_checking",B,"Every contents x key x entry operation chain (up to 3 steps) on every key type; value types with and without niches."),
"C06":("model_checking",B,"Every contents x every accept/reject/update assignment on small key types; structured ones on large types."),
"C04":("model_checking",B,"Every contents of ~170 key types (large types: structured contents), several histories each, every iterator kind walked three ways."),
"C05":("model_checking","exhaustive exploration of stepping interleavings on the real iterators against a deque model","Every interleaving of front and back steps past exhaustion on every contents of small types, every adaptor/nth/clone after every prefix; structured contents and patterns on large types."),
"C07":("model_checking",B,"Every ordered pair of contents of small types over several histories, one-entry neighbours on large types, every operation on either side of every clone."),
"C08":("model_checking",B,"Every ordered pair of contents of every orderable small type; structured pairs on large types; triples follow from agreement with a total order."),
"C09":("model_checking",B,"Every contents x every construction history of every hashable type; the data fed to a recording hasher is compared, so the result holds for any hasher."),
"C10":("model_checking",B,"Every ordered pair of contents of small types, structured pairs on large types, every cut point."),
"C11":("model_checking","explicit-state search over two real storages in lockstep (bitset and ordinary) and a reference model","25 variant counts including every integer-width boundary; other counts are not instantiated."),
"C12":("model_checking","explicit-state search over the real code with a ledger of live values as reference","Every contents x every operation (small types: pairs of operations), every stopping point of owning iterators; large types structured."),
"C13":("model_checking","exhaustive fault injection (a panic at every visit of every user-code site) on the real code, against reference and ledger of live values","Every contents of small types x every operation x every position at which user code runs; large types structured. Leaks are not judged for interrupted clones of dynamically stored entries (hashbrown 0.13 leaks there) nor after a destructor panicked."),
"C14":("model_checking","exhaustive exploration of serializer/deserializer interactions on the real code with an error injected at every call","Every contents and every short input sequence of ~170 key types in an in-memory format; keys of type &[u8] are not covered for deserialization."),
"C15":("model_checking","exhaustive enumeration of the declaration space, each declaration compiled with the real derive and explored against a reference","925 declarations; every subset of keys in every insertion order up to 4 keys (6 thorough), every subset in three orders up to 9 (13), structured for more."),
"C16":("model_checking","exhaustive enumeration of the declaration space, each program compiled with the real derive and its acceptance compared with the rule","3766 declarations: every sequence of variant forms up to 3 (4 thorough), every payload type and position, every number of variants up to 70 and around the integer widths, names in scope, three editions and no_std. Generic enums and A()/A {} are not judged."),
"C17":("model_checking",B,"44 dynamic key types: every ordered pair out of 100 (300) boundary values, growth and shrinkage through every size up to 470 (1800) keys in four orders, 66,000 (17,000,000) keys of four types, every sequence of 3 (4) of 13 phases."),
"C18":("model_checking","exhaustive exploration of formatting with a failure injected at every write, compared with the standard library","~180 key types, every contents of small ones, 40 combinations of formatter flags, every single failing write."),
"C19":("model_checking","exhaustive exploration of operations in every contents under a monitoring allocator; layout of every enumerated type compared with arrays","Every contents of every static key type up to 9 keys (12 thorough), structured ones beyond; four value types; serialization and deserialization in a format without heap; 30 value types for sizes."),
"C20":("model_checking","exhaustive enumeration of construction sequences on the real code with a ledger of live values, against one-by-one insertion and a reference","Every sequence of keys up to length 9 (small types; shorter for more keys, 6000 (300000) sequences per type), structured long ones; lying, resuming and failing sources."),
"C21":("model_checking","exhaustive exploration of the ways to obtain, hold and write mutable references on the real code, against a reference","Every contents of key types up to 8 keys (9 thorough), all write orders of up to 4 (5) held references, eleven consuming methods, all pairs of by-key references for up to 4 keys; structured beyond; four value types."),
"C22":("model_checking","the same explicit-state search over the real code under each feature set and build profile, in lockstep with a reference, with transcripts compared","All 8 feature sets plus builds without assertions and with optimization (5 such builds thorough, 2 quick); 74 statically stored and 12 dynamically stored key types (dynamic ones with up to 70,000 keys); every operation in every state up to 4 keys, structured beyond; serialization in both directions wherever serde is enabled."),
"C23":("model_checking","bounded exhaustive exploration of operation histories and injected panics on the real code, executed under an interpreter that detects undefined behaviour (Miri)","37 key types over every storage kind; every operation from every contents up to 3 keys (6 thorough), a panic at each of the first 6 (16) places where user code runs, pairs of operations for single keys (up to 3 keys thorough), all set operations, iteration from both ends; Stacked Borrows (thorough: also Tree Borrows, and builds with assertions); 11 types of up to 260 keys from five (three) contents, every key and operation."),
"C24":("model_checking","exhaustive enumeration of key types, value types and traits, decided by the compiler on the real types, against the rule","53 key types (every storage kind, and key types with no traits but those keys need) by 33 value types by 37 queries, and 24 queries per set."),
"C25":("model_checking","exhaustive enumeration of programs of a bounded grammar (obtain, hold across, use), each compiled against the real crate, acceptance compared with a model of borrows","13 storage kinds; every pair of 69 ways to obtain and 32 uses, held across and given up before; every pair of ways held together; 24 by 21 for sets; 289 written programs about entries, closures, threads, escapes and borrowed values."),
}
extra=os.path.join(os.path.dirname(__file__),'checks_extra.json')
if os.path.exists(extra): CH.update({k:tuple(v) for k,v in json.load(open(extra)).items()})
NA={}
m={"version":1,"setup_cmd":"./setup.sh",
"hooks":{"guard":"none","enable":"no hooks are needed: every check uses the public API only","source_commits":[]},
"checks":[{"property":p,"quick_cmd":f"./run.sh {p}","thorough_cmd":f"./run.sh {p} thorough","evidence_file":f"evidence/{p}.json","technique":CH[p][1],"level":CH[p][0],"level_note":CH[p][2]} for p in props if p in CH],
"not_applicable":[{"property":p,"reason":NA.get(p,"check not built yet")} for p in props if p not in CH],
"notes":"see DESIGN.md"}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(m["checks"]),"claimed")
