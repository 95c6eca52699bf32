"""Emits one enum declaration and its key table."""
out=[]
lists={}
def add(l,n): lists.setdefault(l,[]).append(n)
def enum(name, variants, attr="", ls=(), serde=True, extra=""):
    """variants: list of (ident, payload type or None, discriminant or None)"""
    o=[]
    o.append("#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]")
    if attr: o.append(f"#[key({attr})]")
    if extra: o.append(extra)
    body=", ".join(v+(f"({t})" if t else "")+(f" = {d}" if d is not None else "") for v,t,d in variants)
    o.append(f"pub enum {name} {{ {body} }}")
    o.append(f"impl Dom for {name} {{")
    o.append("    const N: usize = "+str(sum(1 for x in variants if not x[1]))+"".join(f" + <{t} as Dom>::N" for _,t,_ in variants if t)+";")
    o.append("    const STATIC: bool = true"+"".join(f" && <{t} as Dom>::STATIC" for _,t,_ in variants if t)+";")
    if variants:
        o.append("    #[allow(unused_mut, unused_assignments, clippy::all)]")
        o.append("    fn at(mut i: usize) -> Self {")
        if all(not t for _,t,_ in variants):
            o.append("        const T: &[%s] = &[%s];\n        return T[i];\n    }"%(name,", ".join(f"{name}::{v}" for v,_,_ in variants)))
        else:
          for v,t,_ in variants:
            if t: o.append(f"        if i < <{t} as Dom>::N {{ return {name}::{v}(<{t} as Dom>::at(i)); }} i -= <{t} as Dom>::N;")
            else: o.append(f"        if i == 0 {{ return {name}::{v}; }} i -= 1;")
          o.append("        panic!(\"no such key\")\n    }")
        o.append("    fn idx(self) -> usize {\n        match self {")
        c=0; ts=[]
        for v,t,_ in variants:
            base=" + ".join([str(c)]+[f"<{x} as Dom>::N" for x in ts])
            if t:
                o.append(f"            {name}::{v}(x) => off({base}, <{t} as Dom>::idx(x)),")
                ts.append(t)
            else:
                o.append(f"            {name}::{v} => {base},")
                c+=1
        o.append("        }\n    }")
    else:
        o.append("    fn at(_: usize) -> Self { panic!(\"no such key\") }")
        o.append("    fn idx(self) -> usize { match self {} }")
    o.append("    fn ranks(out: &mut Vec<u32>, next: &mut u32) {\n        let _ = (&out, &next);")
    if all(not t for _,t,_ in variants):
        o.append(f"        for _ in 0..{len(variants)} {{ out.push(*next); *next += 1; }}")
    else:
      for v,t,_ in variants:
        if t: o.append(f"        <{t} as Dom>::ranks(out, next);")
        else: o.append("        out.push(*next); *next += 1;")
    o.append("    }\n}")
    if serde: o.append("#[cfg(feature = \"full\")]\nfmcheck_dom::key_serde!(%s);"%name)
    out.append("\n".join(o))
    for l in ls: add(l,name)
def var(n): return f"V{n}"
