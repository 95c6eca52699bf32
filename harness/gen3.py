#!/usr/bin/env python3
"""Generates feat/src/zoo.rs: statically stored key types explored under every feature set."""
import itertools
from genlib import *
KIND={"U":None,"B":"bool","S":"()","O":"Option<bool>","E":"U2","K":"K2","C":"NestA"}
for n in [0,1,2,3,4,9,17,33,65,128]:
    enum(f"U{n}",[(var(i),None,None) for i in range(n)],ls=["unit"])
    enum(f"K{n}",[(var(i),None,None) for i in range(n)],"bitset",ls=["unit","bits"])
for n in [129,257]: enum(f"U{n}",[(var(i),None,None) for i in range(n)],ls=["unit"])
enum("DiscU",[("A",None,5),("B",None,-3),("C",None,200)],ls=["unit"])
enum("NestA",[("X","bool",None),("Y",None,None)],ls=["comp"])
enum("NestB",[("P",None,None),("Q","NestA",None),("R","Option<U2>",None)],ls=["comp"])
for k in "BSOEKC": enum(f"C1{k}",[("V0",KIND[k],None)],ls=["comp"])
for a,b in itertools.product("UBOE",repeat=2):
    if a+b!="UU": enum(f"C2{a}{b}",[("V0",KIND[a],None),("V1",KIND[b],None)],ls=["comp"])
for abc in ["UBS","SUB","BKU","CUB","BBB"]: enum(f"C3{abc}",[(f"V{i}",KIND[x],None) for i,x in enumerate(abc)],ls=["comp"])
for n in [16,33,66,130,260]:
    pay={0:"bool",n//2:"Option<bool>",n-1:"U3"}
    enum(f"LC{n}",[(var(i),pay.get(i),None) for i in range(n)],ls=["comp"])
def denum(name,vs):
    enum(name,vs,ls=["dyncomp"])
    s=out.pop(); out.append("#[cfg(feature = \"hashbrown\")]\nmod m_%s { use super::*;\n%s\n}\n#[cfg(feature = \"hashbrown\")]\npub use m_%s::%s;"%(name,s,name,name))
denum("DA",[("A","u8",None),("B",None,None),("C","char",None)])
denum("DB",[("A","&'static str",None),("B","NestA",None)])
denum("DC",[("A","Option<i64>",None),("B","DA",None)])
for b in ["u8","char","i128","&'static str","&'static [u8]","isize","Option<u64>","Option<Option<i8>>","Option<DA>"]: add("dyn",b)
for b in ["()","bool","Option<()>","Option<bool>","Option<Option<bool>>","Option<U2>","Option<K2>","Option<NestA>"]: add("base",b)
with open("feat/src/zoo.rs","w") as f:
    f.write("//! Generated by gen3.py; do not edit.\n#![allow(non_camel_case_types, dead_code, unexpected_cfgs)]\nuse crate::dom::{off, Dom};\nuse fixed_map::Key;\n\n")
    f.write("\n\n".join(out).replace('feature = "full"','feature = "serde"')+"\n\n")
    for l,ns in lists.items():
        f.write(f"#[macro_export]\nmacro_rules! zoo_{l} {{ ($m:ident) => {{ $m! {{ {', '.join('['+('$crate::zoo::'+n if n[0].isupper() and not n.startswith('Option') else n.replace('U2','$crate::zoo::U2').replace('K2','$crate::zoo::K2').replace('NestA','$crate::zoo::NestA').replace('DA','$crate::zoo::DA'))+', '+chr(34)+n+chr(34)+']' for n in ns)} }} }} }}\n")
