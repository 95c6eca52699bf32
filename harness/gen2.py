#!/usr/bin/env python3
"""Generates c15/z*/: the enumerated space of enum declarations (programs) whose slots C15 explores.
Every sequence of variant kinds up to a length, every number of field-less variants up to a bound, and
the unusual identifiers, discriminants, representations and nestings. Committed; rewritten by hand."""
import itertools, os
import genlib
from genlib import enum, out, var
shards=[[] for _ in range(8)]; weight=[0]*8
def e(name, variants, attr="", extra="", cost=None):
    enum(name, variants, attr, serde=False, extra=extra)
    text=out.pop()
    t=["bool","u8","Option","&'"]
    i=weight.index(min(weight))
    weight[i]+=cost or 6+4*len(variants)
    shards[i].append((name,text))
PRE=["U2","K2","U0","NestA"]
KIND={"U":None,"B":"bool","S":"()","O":"Option<bool>","E":"U2","K":"K2","Z":"U0","C":"NestA","D":"u8","T":"&'static str","W":"Option<u32>"}
# every sequence of variant kinds up to length 3, over a smaller alphabet up to 5
for n in (1,2):
    for k in itertools.product("UBSOEKZCDTW",repeat=n):
        if set(k)!={"U"}: e(f"S{n}{''.join(k)}",[(var(i),KIND[x],None) for i,x in enumerate(k)])
for k in itertools.product("UBSOKD",repeat=3):
    if set(k)!={"U"}: e(f"S3{''.join(k)}",[(var(i),KIND[x],None) for i,x in enumerate(k)])
for k in itertools.product("UBS",repeat=4):
    if set(k)!={"U"}: e(f"S4{''.join(k)}",[(var(i),KIND[x],None) for i,x in enumerate(k)])
for k in itertools.product("UO",repeat=5):
    if set(k)!={"U"}: e(f"S5{''.join(k)}",[(var(i),KIND[x],None) for i,x in enumerate(k)])
# one payload at every position among n field-less variants
for n in (6,8,12):
    for p in range(n):
        e(f"P{n}_{p}",[(var(i),"bool" if i==p else None,None) for i in range(n)])
# every number of field-less variants
for n in list(range(0,68))+[95,96,97,126,127,128]:
    e(f"N{n}",[(var(i),None,None) for i in range(n)],cost=30+2*n)
    e(f"B{n}",[(var(i),None,None) for i in range(n)],"bitset",cost=30+2*n)
for n in [129,130,160,192,254,255,256,257,258,300]:
    e(f"N{n}",[(var(i),None,None) for i in range(n)],cost=30+2*n)
# enums with payloads and many variants
for n in [9,17,33,65,129,256,257]:
    e(f"M{n}",[(var(i),"bool" if i in (0,n-1) else None,None) for i in range(n)],cost=30+12*n)
e("AllB",[(var(i),"bool",None) for i in range(20)])
e("AllO",[(var(i),"Option<Option<bool>>",None) for i in range(12)])
# explicit discriminants: every order of a few values, negative, large, equal to other positions
ds=[-1,0,1,7]
for i,p in enumerate(itertools.permutations(ds)):
    e(f"D{i}",[(var(j),None,d) for j,d in enumerate(p)])
    e(f"DB{i}",[(var(j),None,d) for j,d in enumerate(p)],"bitset")
for i,d in enumerate([1,2,3,7,8,31,32,63,64,127,128,255,256,65535,-128]):
    for a,x in (("",""),("bitset","B")):
        e(f"DF{x}{i}",[("A",None,d),("B",None,None),("C",None,None),("D",None,None)],a)
        if d>1 or d<0: e(f"DL{x}{i}",[("A",None,None),("B",None,None),("C",None,d),("D",None,None)],a)
e("DM",[("A",None,9223372036854775807),("B",None,"-9223372036854775808i64 as isize"),("C",None,0)])
e("DMB",[("A",None,9223372036854775807),("B",None,"-9223372036854775808i64 as isize"),("C",None,0)],"bitset")
for r,lo,hi in [("u8",0,255),("i8",-128,127),("u16",0,65535),("i64",-2**63,2**63-1),("u64",0,2**64-1),("C",-5,5)]:
    for a,x in (("",""),("bitset","B")):
        e(f"R{x}{r}",[("A",None,hi),("B",None,lo),("C",None,None)],a,extra=f"#[repr({r})]")
e("RP",[("A","bool",None),("B",None,None),("C","Option<bool>",None)],extra="#[repr(u8)]")
e("RPD",[("A","bool",3),("B",None,1),("C","()",200)],extra="#[repr(u8)]")
e("RPC",[("A","bool",None),("B",None,None),("C","&'static str",None)],extra="#[repr(C, u16)]")
# identifiers
IDS=["Some","None","Ok","Err","Self_","V","K","T","F","A","a","Item","Iter","Keys","Values","IterMut","ValuesMut","IntoIter","Occupied","Vacant","MapStorage","SetStorage","__MapStorage","__SetStorage",
 "VacantEntry","OccupiedEntry","Entry","SimpleOccupied","SimpleVacant","Option","Result","Box","String","Vec","bool","usize","str","u8","core","std","fixed_map","data","start","end","iter","key","value","val","v","k","func","inner","opt","other","hasher","f","option_to_entry","BITS","_0","_1","_2","_","__","r#type","r#fn","r#match","r#loop","r#true","r#Self_","Ünï","名","Default","Key","Map","Set","Hash","Ord","Less","Equal","Greater","Copy","Clone","EMPTY","len","is_empty","insert","remove","get","retain","clear","contains","empty","entry"]
IDS=[i for i in IDS if i not in ("_","r#true")]
for j in range(0,len(IDS),3):
    t=IDS[j:j+3]
    e(f"I{j}",[(x,None,None) for x in t])
    e(f"IB{j}",[(x,None,None) for x in t],"bitset")
    e(f"IC{j}",[(x,["bool",None,"Option<bool>"][i],None) for i,x in enumerate(t)])
    e(f"ID{j}",[(x,[None,"&'static str",None][i],None) for i,x in enumerate(t)])
for nm in ["Iter_","Item","A","T","Value","Storage","MapStorage","SetStorage","r#type","lower","Ünïcode","_Lead","__","Data","Keys_","Func"]:
    e(nm,[("A",None,None),("B",None,None)]) if nm not in ("A",) else e("A",[("A",None,None),("B","bool",None)])
# nesting
prev="bool"
for d in range(1,8):
    e(f"Deep{d}",[("A",prev,None),("B",None,None)],cost=10**6); prev=f"Deep{d}"
prev="Option<bool>"
for d in range(1,5):
    e(f"Opt{d}",[("A",f"Option<{prev}>",None),("B",prev,None)],cost=10**6); prev=f"Opt{d}"
e("Twice",[("A","U2",None),("B","U2",None),("C","Option<U2>",None)])
ATTR="#[cfg_attr(all(), allow(dead_code))]"
e("Attr",[("#[doc(hidden)] A" if False else "A",None,None),("B","bool",None)],extra=ATTR)
# the nested chains must live together: move them to shard 0
chain=[(n,t) for s in shards for n,t in s if n.startswith(("Deep","Opt"))and n[-1].isdigit()]
for s in shards: s[:]=[x for x in s if x not in chain]
shards[0]=shards[0]+sorted(chain)
here=os.path.dirname(os.path.abspath(__file__))
for i,s in enumerate(shards):
    d=f"{here}/c15/z{i}"; os.makedirs(d+"/src",exist_ok=True)
    open(d+"/Cargo.toml","w").write(f'''[package]
name = "fmcheck-z{i}"
version = "0.0.0"
edition = "2021"
publish = false

[dependencies]
fmcore = {{ path = "../../core" }}
fmcheck-dom = {{ path = "../../dom", features = ["full"] }}
fmcheck-slots = {{ path = "../slots" }}
fixed-map = {{ path = "/repo", default-features = false }}
''')
    genlib.out.clear()
    for n,k in (("U2",""),("K2","bitset"),("U0","")): enum(n,[(var(j),None,None) for j in range(int(n[1]))],k,serde=False)
    enum("NestA",[("X","bool",None),("Y",None,None)],serde=False)
    pre="\n".join(genlib.out)
    body="\n".join(f"pub mod m_{j} {{ use fixed_map::Key; use fmcheck_dom::{{off, Dom}}; #[allow(unused_imports)] use super::{{U2, K2, U0, NestA{', *' if False else ''}}};\n"+(f"#[allow(unused_imports)] use super::m_{j-1}::*;\n" if n.startswith(('Deep','Opt')) else "")+t+"\n}" for j,(n,t) in enumerate(s))
    jobs="\n".join(f'    c.job("{n}", |w| fmcheck_slots::unit::<m_{j}::{n}>(w, "{n}"));' for j,(n,t) in enumerate(s))
    open(d+"/src/lib.rs","w").write(f'''//! Generated by gen2.py; do not edit.
#![allow(unused_imports, non_camel_case_types, non_upper_case_globals, non_snake_case, dead_code, uncommon_codepoints, clippy::all)]
#![recursion_limit = "1024"]
use fmcheck_dom::{{off, Dom}};
use fixed_map::Key;
{pre}
{body}
pub fn jobs(c: &mut fmcore::report::Ctx) {{
{jobs}
}}
''')
print([len(s) for s in shards],sum(len(s) for s in shards))
