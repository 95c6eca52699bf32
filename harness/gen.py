#!/usr/bin/env python3
"""Generates src/zoo.rs: the enumerated key-type declarations (programs) that the checks explore.
Every shape up to a bound is emitted; the output is committed and only rewritten by hand."""
import itertools, sys
from genlib import *
KIND={"U":None,"B":"bool","S":"()","O":"Option<bool>","E":"U2","K":"K2","Z":"U0","C":"NestA","P":"Option<NestA>"}
for n in [0,1,2,3,4,5,6,8]:
    enum(f"U{n}",[(var(i),None,None) for i in range(n)],ls=["unit","small"])
    enum(f"K{n}",[(var(i),None,None) for i in range(n)],"bitset",ls=["unit","bits","small"])
enum("NestA",[("X","bool",None),("Y",None,None)],ls=["comp","small"])
enum("NestB",[("P",None,None),("Q","NestA",None),("R","Option<U2>",None)],ls=["comp","small"])
enum("NestC",[("M","NestB",None),("N","()",None)],ls=["comp","small"])
for k in "BSOEKZCP":
    enum(f"C1{k}",[("V0",KIND[k],None)],ls=["comp","small"])
for a,b in itertools.product("UBSOEC",repeat=2):
    if a+b=="UU": continue
    enum(f"C2{a}{b}",[("V0",KIND[a],None),("V1",KIND[b],None)],ls=["comp","small"])
for a,b,c in itertools.product("UBS",repeat=3):
    if a+b+c=="UUU": continue
    enum(f"C3{a}{b}{c}",[("V0",KIND[a],None),("V1",KIND[b],None),("V2",KIND[c],None)],ls=["comp","small"])
for abc in ["UOE","EOU","OUK","ZUB","UZB","BUZ","KUS"]:
    enum(f"C3{abc}",[(f"V{i}",KIND[x],None) for i,x in enumerate(abc)],ls=["comp","small"])
for abcd in ["UBUB","BUBU","UUBB","BBUU","SUSU","USBO"]:
    enum(f"C4{abcd}",[(f"V{i}",KIND[x],None) for i,x in enumerate(abcd)],ls=["comp","small"])
# unusual but supported declarations
enum("DiscU",[("A",None,5),("B",None,-3),("C",None,200),("D",None,None)],ls=["unit","small"])
enum("DiscK",[("A",None,5),("B",None,-3),("C",None,200),("D",None,None)],"bitset",ls=["unit","bits","small"])
enum("RawId",[("r#type",None,None),("r#fn","bool",None),("r#match",None,None)],ls=["comp","small"])
enum("Names",[("Some",None,None),("None","bool",None),("Ok",None,None),("Err","()",None)],ls=["comp","small"])
enum("NamesU",[("None",None,None),("Some",None,None),("data",None,None),("_0",None,None)],ls=["unit","small"])
# large enums
for n in [7,9,15,16,17,24,31,32,33,48,63,64,65,96,127,128]:
    enum(f"L{n}",[(var(i),None,None) for i in range(n)],ls=["unit","large"])
    enum(f"LK{n}",[(var(i),None,None) for i in range(n)],"bitset",ls=["unit","bits","large"])
for n in [129,200,257]:
    enum(f"L{n}",[(var(i),None,None) for i in range(n)],ls=["unit","large"])
# large composites: a payload at both ends and in the middle
for n in [16,33,70,140,260]:
    pay={0:"bool",n//2:"Option<bool>",n-1:"U3"}
    enum(f"LC{n}",[(var(i),pay.get(i),None) for i in range(n)],ls=["comp","large"])
enum("LN",[("A","L33",None),("B",None,None),("C","LK65",None)],ls=["comp","large"])
# middle-sized: larger payloads, several of them, next to plain variants
for nm,k in [("MA",["U5",None,"K6"]),("MB",["Option<U5>","U4","L17"]),("MC",[None,"K5","NestB","Option<Option<bool>>"]),
             ("MD",["bool"]*6),("ME",["()","bool","U3","NestA","Option<U6>","K8",None,None]),("MF",[None]*5+["U5"]+[None]*5+["LK9"]+[None]),
             ("MG",["LK33"]),("MH",["Option<NestC>"]),("MI",["NestB","NestB"]),("MJ",["MA","Option<MA>"]),("MK",[None,None,None,None,"MD","K4"]),("ML",["bool"]*12)]:
    enum(nm,[(var(i),t,None) for i,t in enumerate(k)],ls=["comp","large"])
BASE={"base":["()","bool","Option<()>","Option<bool>","Option<Option<bool>>","Option<U2>","Option<U0>","Option<K2>","Option<NestA>","Option<Option<()>>",
 "Option<U5>","Option<K8>","Option<L17>","Option<LK65>","Option<NestB>","Option<NestC>","Option<C3UOE>","Option<MA>","Option<LC16>","Option<Option<U6>>","Option<Option<Option<bool>>>"]}
for b in BASE["base"]: add("base",b)
# dynamic
DYNP=["char","u8","u32","u64","u128","usize","i8","i32","i64","i128","isize","&'static str","&'static [u8]","Option<u8>","Option<char>","Option<Option<i32>>","Option<&'static str>","Option<DA>"]
dyn=[]
import re
def entry(n): return "["+re.sub(r"\b(?!Option\b)([A-Z]\w*)",r"$crate::zoo::\1",n)+', "'+n+'"]'
def denum(name,vs):
    save=len(out); enum(name,vs,ls=["dyncomp"])
    s=out.pop(); out.append("#[cfg(feature = \"dyn\")]\nmod m_%s { use super::*;\n%s\n}\n#[cfg(feature = \"dyn\")]\npub use m_%s::%s;"%(name,s,name,name))
denum("DA",[("A","u8",None),("B",None,None),("C","u8",None)])
denum("DB",[("A","&'static str",None),("B","bool",None)])
denum("DC",[("A","Option<i64>",None),("B","DA",None)])
denum("DD",[("A","char",None)])
denum("DF",[("A","Option<DA>",None),("B",None,None),("C","Option<char>",None),("D","NestA",None)])
denum("DG",[("A","DC",None),("B","u32",None),("C","DB",None)])
denum("DE",[("A",None,None),("B","&'static [u8]",None),("C",None,None)])
with open("src/zoo.rs","w") as f:
    f.write("//! Generated by gen.py; do not edit.\n#![allow(non_camel_case_types, dead_code)]\nuse crate::dom::{off, Dom};\nuse fixed_map::Key;\n\n")
    f.write("\n\n".join(out)+"\n\n")
    for l,ns in lists.items():
        f.write(f"#[macro_export]\nmacro_rules! zoo_{l} {{ ($m:ident) => {{ $m! {{ {', '.join(entry(n) for n in ns)} }} }} }}\n")
    f.write(f"#[macro_export]\nmacro_rules! zoo_dynprim {{ ($m:ident) => {{ $m! {{ {', '.join(entry(n) for n in DYNP)} }} }} }}\n")
print({k:len(v) for k,v in lists.items()})
