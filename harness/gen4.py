#!/usr/bin/env python3
"""Generates miri/src/zoo.rs: key types explored under the interpreter."""
from genlib import *
KIND={"U":None,"B":"bool","S":"()","O":"Option<bool>","E":"U2","K":"K2","C":"NestA"}
for n in [0,1,2,3]:
    enum(f"U{n}",[(var(i),None,None) for i in range(n)],ls=["unit"])
for n in [1,2,3,9]:
    enum(f"K{n}",[(var(i),None,None) for i in range(n)],"bitset",ls=["unit"])
enum("NestA",[("X","bool",None),("Y",None,None)],ls=["comp"])
enum("NestB",[("P",None,None),("Q","NestA",None)],ls=["comp"])
for a in ["B","O","S","K","UB","BU","US","EU","UO","UC"]: enum(f"C{len(a)}{a}",[(f"V{i}",KIND[x],None) for i,x in enumerate(a)],ls=["comp"])
for b in ["()","bool","Option<()>","Option<bool>","Option<Option<bool>>","Option<U2>","Option<NestA>"]: add("base",b)
enum("DA",[("A","u8",None),("B",None,None),("C","u8",None)],ls=["dynamic"])
enum("DB",[("A","&'static str",None),("B","bool",None)],ls=["dynamic"])
for b in ["u8","u128","char","&'static str","&'static [u8]","Option<u8>"]: add("dynamic",b)
# explicit discriminants, some beyond the number of variants
enum("X3",[("A",None,7),("B",None,400),("C",None,2)],ls=["unit"])
enum("KX3",[("A",None,64),("B",None,200),("C",None,9)],"bitset",ls=["unit"])
enum("X4",[("A",None,-3),("B",None,"i8::MAX"),("C",None,0),("D",None,1)],extra="#[repr(i8)]",ls=["wide"])
# past every width and threshold seen in the code
for n in [17,40,130,260]: enum(f"U{n}",[(var(i),None,None) for i in range(n)],ls=["wide"])
for n in [17,33,128]: enum(f"K{n}",[(var(i),None,None) for i in range(n)],"bitset",ls=["wide"])
enum("C40",[("V0","bool",None)]+[(var(i),None,None) for i in range(1,39)]+[("V39","Option<bool>",None)],ls=["wide"])
enum("C9",[(var(i),["bool","U2","K2","()","Option<bool>","NestA"][i%6],None) for i in range(9)],ls=["wide"])
enum("DW",[(var(i),"u8" if i%3==1 else None,None) for i in range(18)],ls=["wide"])
with open("miri/src/zoo.rs","w") as f:
    f.write("//! Generated by gen4.py; do not edit.\n#![allow(non_camel_case_types, dead_code, unexpected_cfgs)]\nuse crate::dom::{off, Dom};\nuse fixed_map::Key;\n\n")
    f.write("\n\n".join(out)+"\n\n")
    for l,ns in lists.items():
        f.write(f"#[macro_export]\nmacro_rules! zoo_{l} {{ ($m:ident) => {{ $m! {{ {', '.join('['+('$crate::zoo::'+n if n[0].isupper() and not n.startswith('Option') else n.replace('U2','$crate::zoo::U2').replace('NestA','$crate::zoo::NestA'))+', '+chr(34)+n+chr(34)+']' for n in ns)} }} }} }}\n")
