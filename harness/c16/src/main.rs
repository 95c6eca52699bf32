//! The space of declarations, enumerated as programs: each is compiled against the real derive, and
//! whether it is accepted is compared with the rule for supported declarations.
use fmcore::report::{guard, Ctx, W};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

#[derive(Clone)]
struct Probe { name: String, src: String, accept: bool }

const PRE: &str = "#[allow(unused_imports)] use fixed_map::Key; #[allow(unused_imports)] use fmcheck_probe::{NotKey, Sub, Bits, Comp, Alias};";

struct Env { rustc: String, rlib: String, probe: String, deps: String, dir: String, n: AtomicUsize }
impl Env {
    /// Compiles one crate; the diagnostics if it was rejected.
    fn compile(&self, src: &str, edition: &str) -> Result<Option<String>, String> {
        let i = self.n.fetch_add(1, Ordering::SeqCst);
        let path = format!("{}/p{i}.rs", self.dir);
        std::fs::write(&path, src).map_err(|e| format!("writing {path}: {e}"))?;
        let out = Command::new(&self.rustc)
            .args(["--crate-type", "lib", "--emit=metadata", "--cap-lints", "allow", "--crate-name", "p", "--edition", edition, "-o", &format!("{}/p{i}.rmeta", self.dir), "-L", &format!("dependency={}", self.deps), "--extern", &format!("fixed_map={}", self.rlib), "--extern", &format!("fmcheck_probe={}", self.probe), &path])
            .output().map_err(|e| format!("running rustc: {e}"))?;
        let err = String::from_utf8_lossy(&out.stderr).into_owned();
        let _ = std::fs::remove_file(&path);
        let _ = std::fs::remove_file(format!("{}/p{i}.rmeta", self.dir));
        if out.status.success() { return Ok(None); }
        // A rejection is an error of the declaration, not of the compiler or the machine.
        if out.status.code() != Some(1) || err.contains("internal compiler error") || err.contains("can't find crate") || err.contains("No space left") { panic!("rustc itself failed: {err}"); }
        Ok(Some(err))
    }
    fn alone(&self, p: &Probe, edition: &str) -> Result<Option<String>, String> { self.compile(&format!("{HEAD}pub mod m {{ {PRE}\n{}\n}}\n", p.src), edition) }
}
const HEAD: &str = "#![allow(dead_code, non_camel_case_types, non_snake_case, uncommon_codepoints)]\n#![recursion_limit = \"1024\"]\n";

fn seqs<'a>(alpha: &[&'a str], n: usize) -> Vec<Vec<&'a str>> {
    let mut v = vec![vec![]];
    for _ in 0..n { v = v.into_iter().flat_map(|s: Vec<&str>| alpha.iter().map(move |a| { let mut t = s.clone(); t.push(*a); t })).collect(); }
    v
}
fn decl(attr: &str, head: &str, vs: &[&str]) -> String { format!("#[derive(Clone, Copy, Key)] {attr} {head} {{ {} }}", vs.iter().enumerate().map(|(i, v)| format!("V{i}{v}")).collect::<Vec<_>>().join(", ")) }
fn units(n: usize) -> Vec<&'static str> { vec![""; n] }

fn space(thorough: bool) -> Vec<Probe> {
    let mut v: Vec<Probe> = Vec::new();
    let uses = |s: String| format!("{s} fn used() {{ fn k<K: Key>() {{}} k::<X>(); let _ = fixed_map::Map::<X, u8>::new(); let _ = fixed_map::Set::<X>::new(); }}");
    macro_rules! acc { ($n:expr, $s:expr $(,)?) => {{ let p = Probe { name: $n, src: uses($s), accept: true }; v.push(p); }} }
    // every payload type
    let stat = ["()", "bool", "Sub", "Bits", "Comp", "Alias", "Option<()>", "Option<bool>", "Option<Sub>", "Option<Bits>", "Option<Comp>", "Option<Option<bool>>", "Option<Option<Option<Sub>>>"];
    let dynamic = ["char", "u8", "u32", "u64", "u128", "usize", "i8", "i32", "i64", "i128", "isize", "&'static str", "&'static [u8]"];
    for t in stat.iter().chain(&dynamic) {
        for ty in [(*t).to_string(), format!("Option<{t}>"), format!("Option<Option<{t}>>")] {
            let p = format!("({ty})");
            for (k, vs) in [vec![&*p], vec!["", &*p], vec![&*p, ""], vec![&*p, &*p]].into_iter().enumerate() { acc!(format!("payload {ty} #{k}"), decl("", "pub enum X", &vs)); }
        }
    }
    for ty in ["(bool)", "::core::primitive::bool", "core::option::Option<bool>", "self::Sub", "crate::m::Sub", "super::m::Sub", "<u8 as Tr>::T", "ty!()", "Option<Alias>", "&'static  str"] {
        if ty.contains("::m::") { continue; }
        acc!(format!("written {ty}"), format!("pub trait Tr {{ type T; }} impl Tr for u8 {{ type T = bool; }} macro_rules! ty {{ () => {{ bool }} }} {}", decl("", "pub enum X", &["", &format!("({ty})")])));
    }
    // every sequence of variants
    let good = ["", "(bool)", "(())", "(Sub)", "(Option<Comp>)", "(u32)", "(&'static str)", "(Bits)"];
    for n in 1..=if thorough { 4 } else { 3 } { for s in seqs(&good, n) { acc!(format!("variants {}", s.join(" | ")), decl("", "pub enum X", &s)); } }
    // every number of variants
    let plain: Vec<usize> = (0..=130).chain([159, 160, 200, 255, 256, 257, 300]).filter(|n| thorough || *n < 70 || n % 8 <= 1 || n % 8 == 7).collect();
    for n in plain { acc!(format!("{n} variants"), decl("", "pub enum X", &units(n))); }
    for n in (0..=128).filter(|n| thorough || *n < 70 || n % 8 <= 1 || n % 8 == 7) {
        let size = match n { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 };
        acc!(format!("bitset of {n}"), format!("{} const _: () = assert!(core::mem::size_of::<fixed_map::Set<X>>() <= {size}); fn raw(s: &fixed_map::Set<X>) -> impl Sized {{ s.as_raw() }}", decl("#[key(bitset)]", "pub enum X", &units(n))));
    }
    for n in [8, 9, 16, 17, 33, 64, 65, 127, 128, 129, 257] { for p in [0, n / 2, n - 1] { let mut vs = units(n); vs[p] = "(Option<Sub>)"; acc!(format!("payload at {p} of {n}"), decl("", "pub enum X", &vs)); } let vs = vec!["(bool)"; n]; acc!(format!("{n} payloads"), decl("", "pub enum X", &vs)); }
    // where and how it is declared
    for vis in ["", "pub ", "pub(crate) ", "pub(super) ", "pub(self) ", "pub(in crate) "] {
        for (k, vs) in [vec!["", ""], vec!["", "(bool)"]].iter().enumerate() { acc!(format!("visibility {vis}#{k}"), decl("", &format!("{vis}enum X"), vs)); }
        acc!(format!("visibility {vis}bitset"), decl("#[key(bitset)]", &format!("{vis}enum X"), &["", ""]));
    }
    for (name, attr) in [("doc", "/** documented */"), ("allow", "#[allow(dead_code)]"), ("non_exhaustive", "#[non_exhaustive]"), ("repr", "#[repr(u8)]"), ("no options", "#[key()]"), ("bitset,", "#[key(bitset,)]"), ("cfg_attr", "#[cfg_attr(all(), key(bitset))]"), ("cfg_attr off", "#[cfg_attr(any(), key(bitset))]"), ("must_use", "#[must_use]"), ("two attributes", "#[doc = \"x\"] #[key(bitset)] #[repr(i16)]")] {
        for vs in [vec![], vec![""], vec!["", ""]] {
            if vs.is_empty() && attr.contains("repr") { continue; }
            acc!(format!("attribute {name}, {} variants", vs.len()), decl(attr, "pub enum X", &vs));
        }
        if !attr.contains("bitset)") && !attr.contains("bitset,") { acc!(format!("attribute {name}, payload"), decl(attr, "pub enum X", &["", "(bool)"])); }
        if attr.contains("any()") { acc!(format!("attribute {name}, payload"), decl(attr, "pub enum X", &["", "(bool)"])); }
    }
    for (name, src) in [
        ("derive order", "#[derive(Key, Clone, Copy)] pub enum X { A, B(bool) }"),
        ("separate derives", "#[derive(Key)] #[derive(Clone)] #[derive(Copy)] pub enum X { A, B(bool) }"),
        ("path to the derive", "#[derive(Clone, Copy, fixed_map::Key)] pub enum X { A, B(bool) }"),
        ("absolute path to the derive", "#[derive(Clone, Copy, ::fixed_map::Key)] pub enum X { A, B }"),
        ("other derives", "#[derive(Debug, Hash, PartialOrd, Ord, PartialEq, Eq, Clone, Copy, Key)] pub enum X { A, B(bool) }"),
        ("hand-written Clone and Copy", "#[derive(Key)] pub enum X { A, B(bool) } impl Clone for X { fn clone(&self) -> X { *self } } impl Copy for X {}"),
        ("attributes on variants", "#[derive(Clone, Copy, Key)] pub enum X { /** doc */ A, #[doc(hidden)] B, #[allow(dead_code)] C(bool), D(#[allow(dead_code)] bool) }"),
        ("variants configured away", "#[derive(Clone, Copy, Key)] pub enum X { A, #[cfg(any())] B(String, u8), #[cfg(all())] C, #[cfg(any())] D { x: u8 } }"),
        ("trailing commas", "#[derive(Clone, Copy, Key)] pub enum X { A(bool,), B, }"),
        ("discriminants", "#[derive(Clone, Copy, Key)] pub enum X { A = 3, B = -1, C = { 4 + 5 }, D }"),
        ("discriminants with bitset", "#[derive(Clone, Copy, Key)] #[key(bitset)] pub enum X { A = 3, B = -1, C = { 4 + 5 }, D }"),
        ("raw identifiers", "#[derive(Clone, Copy, Key)] pub enum X { r#fn, r#type(bool), r#async }"),
        ("raw enum identifier", "#[derive(Clone, Copy, Key)] pub enum r#struct { A, B(bool) } pub use r#struct as X;"),
        ("in a function", "pub fn f() { #[derive(Clone, Copy, Key)] enum Y { A, B(bool) } fn k<K: Key>() {} k::<Y>() } #[derive(Clone, Copy, Key)] pub enum X {}"),
        ("in a constant", "const _: () = { #[derive(Clone, Copy, Key)] enum Y { A, B } #[derive(Clone, Copy, Key)] enum Z { A(Y) } }; #[derive(Clone, Copy, Key)] pub enum X {}"),
        ("two in one module", "#[derive(Clone, Copy, Key)] pub enum X { A, B(Y) } #[derive(Clone, Copy, Key)] #[key(bitset)] pub enum Y { A, B } #[derive(Clone, Copy, Key)] pub enum Z { A(X), B(Y) }"),
        ("variants by macro", "macro_rules! mk { ($n:ident, $($v:ident $(($t:ty))?),*) => { #[derive(Clone, Copy, Key)] pub enum $n { $($v $(($t))?),* } } } mk!(X, A, B(bool), C(Option<Sub>));"),
        ("bitset by macro", "macro_rules! mk { ($(#[$m:meta])* $n:ident, $($v:ident),*) => { $(#[$m])* #[derive(Clone, Copy, Key)] pub enum $n { $($v),* } } } mk!(#[derive()] #[doc = \"x\"] X, A, B, C);"),
        ("whole declaration by macro", "macro_rules! mk { ($i:item) => { #[derive(Clone, Copy, Key)] $i } } mk!(pub enum X { A, B(()) });"),
        ("recursion through an option of another", "#[derive(Clone, Copy, Key)] pub enum X { A(Option<Option<Y>>), B } #[derive(Clone, Copy, Key)] pub enum Y { A(Option<Bits>), B(Comp) }"),
        ("operators in discriminants", "#[derive(Clone, Copy, Key)] #[repr(u8)] pub enum X { A = b'a', B = 1 << 2, C = !0 }"),
        ("with methods and constants", "#[derive(Clone, Copy, Key)] pub enum X { A, B } impl X { pub const BITS: u8 = 1; pub const A_: X = X::A; pub fn len(&self) -> u8 { 0 } pub fn iter(&self) {} pub fn next(&self) {} pub fn insert(&self) {} }"),
        ("with a where clause", "#[derive(Clone, Copy, Key)] pub enum X where u8: Copy { A, B }"),
    ] { acc!(name.to_string(), src.to_string()); }
    // identifiers
    for id in ["Some", "None", "Ok", "Err", "V", "K", "T", "F", "H", "U", "E", "Item", "Iter", "Keys", "Occupied", "Vacant", "__MapStorage", "VacantEntry", "Option", "Result", "bool", "u8", "str", "core", "fixed_map", "data", "key", "value", "v", "k", "func", "inner", "_0", "__", "Default", "Key", "Map", "Self_"] {
        acc!(format!("variant named {id}"), format!("#[derive(Clone, Copy, ::fixed_map::Key)] pub enum X {{ {id}, Other }}"));
        acc!(format!("variant with payload named {id}"), format!("#[derive(Clone, Copy, ::fixed_map::Key)] pub enum X {{ Other, {id}(bool) }}"));
        acc!(format!("bitset variant named {id}"), format!("#[derive(Clone, Copy, ::fixed_map::Key)] #[key(bitset)] pub enum X {{ {id}, Other }}"));
        // the enum's own variants imported where it is declared, as in `use Level::*`
        if id.starts_with(|c: char| c.is_ascii_uppercase()) && id != "Self_" {
            for (k, attr, body) in [("", "", format!("{id}, Other")), (" with payload", "", format!("Other, {id}(bool)")), (" next to payload", "", format!("{id}, Other(::core::option::Option<bool>)")), (" with bitset", "#[key(bitset)]", format!("{id}, Other"))] {
                acc!(format!("imported variant named {id}{k}"), format!("pub mod own {{ #[allow(unused_imports)] use X::*; #[derive(Clone, Copy, ::fixed_map::Key)] {attr} pub enum X {{ {body} }} }} pub use own::X;"));
            }
            // an item of that name next to the declaration
            for (k, item) in [("a type", format!("pub struct {id};")), ("a generic type", format!("pub struct {id}<A, B>(A, B);")), ("a constant", format!("#[allow(non_upper_case_globals)] pub const {id}: () = ();")), ("a trait", format!("pub trait {id} {{}}")), ("a module", format!("#[allow(non_snake_case)] pub mod {id} {{}}"))] {
                if matches!(id, "X") { continue; }
                acc!(format!("{k} named {id} in scope"), format!("pub mod own {{ {item} #[derive(Clone, Copy, ::fixed_map::Key)] pub enum X {{ A, B }} #[derive(Clone, Copy, ::fixed_map::Key)] pub enum Y {{ A, B(X) }} #[derive(Clone, Copy, ::fixed_map::Key)] #[key(bitset)] pub enum Z {{ A, B }} }} pub use own::X;"));
            }
        }
        if !matches!(id, "Some" | "None" | "Ok" | "Err" | "V" | "F" | "Option" | "VacantEntry" | "__MapStorage" | "Result" | "core" | "fixed_map" | "data" | "Map" | "Set") { continue; }
        for (k, body) in [("", "A, B"), (" with payload", "A, B(bool)"), (" with bitset", "A, B")] {
            let attr = if k.contains("bitset") { "#[key(bitset)]" } else { "" };
            v.push(Probe { name: format!("enum named {id}{k}"), src: format!("pub mod own {{ #[derive(Clone, Copy, ::fixed_map::Key)] {attr} pub enum {id} {{ {body} }} }} fn used() {{ fn k<K: Key>() {{}} k::<own::{id}>(); }}"), accept: true });
        }
    }
    // ---- rejected ----
    let mut rej = |name: String, src: String| v.push(Probe { name, src, accept: false });
    for attr in ["", "#[key(bitset)]"] {
        for (n, s) in [("unit struct", "pub struct X;"), ("empty struct", "pub struct X {}"), ("struct", "pub struct X { a: bool }"), ("struct of two", "pub struct X { a: bool, b: Sub }"), ("tuple struct", "pub struct X(bool);"), ("tuple struct of two", "pub struct X(bool, Sub);"), ("union", "pub union X { a: bool, b: u8 }"), ("empty tuple struct", "pub struct X();")] {
            rej(format!("{n} {attr}"), format!("#[derive(Clone, Copy, Key)] {attr} {s}"));
        }
    }
    let bad = ["(bool, bool)", "(Sub, (), bool)", "{ a: bool }", "{ a: bool, b: Sub }", "(NotKey)", "(f32)", "((bool, bool))"];
    let alpha: Vec<&str> = ["", "(bool)"].iter().chain(&bad).copied().collect();
    for n in 1..=if thorough { 4 } else { 3 } {
        for s in seqs(&alpha, n) {
            if !s.iter().any(|x| bad.contains(x)) { continue; }
            if n >= 3 && s.iter().filter(|x| bad.contains(x)).count() > if thorough { 2 } else { 1 } { continue; }
            rej(format!("variants {}", s.join(" | ")), decl("", "pub enum X", &s));
            if n <= 2 { rej(format!("bitset variants {}", s.join(" | ")), decl("#[key(bitset)]", "pub enum X", &s)); }
        }
    }
    for ty in ["String", "f32", "f64", "Vec<u8>", "NotKey", "(bool,)", "(bool, bool)", "[bool; 2]", "[u8; 1]", "Box<bool>", "Option<NotKey>", "Option<f32>", "Option<Option<NotKey>>", "&'static bool", "&'static NotKey", "*const u8", "fn()", "core::num::NonZeroU8", "core::cmp::Ordering", "Result<bool, bool>", "Option<(bool, bool)>", "core::marker::PhantomData<bool>", "core::cell::Cell<bool>", "&'static mut u8", "&'static [bool]", "dyn Copy", "str", "Missing"] {
        for (k, vs) in [vec![format!("({ty})")], vec![String::new(), format!("({ty})")], vec![format!("({ty})"), "(bool)".into()], vec!["(bool)".into(), String::new(), format!("({ty})")]].into_iter().enumerate() {
            let vs: Vec<&str> = vs.iter().map(String::as_str).collect();
            rej(format!("payload {ty} #{k}"), decl("", "pub enum X", &vs));
        }
    }
    for s in [["", "(bool)"], ["(bool)", ""], ["(bool)", "(Sub)"], ["(u8)", ""], ["(())", "(())"]] { rej(format!("bitset with payload {s:?}"), decl("#[key(bitset)]", "pub enum X", &s)); }
    // one bad variant among many good ones: the first, one in the middle, the last
    for n in if thorough { vec![4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257] } else { vec![8, 9, 16, 17, 33, 64, 65, 127, 128, 129, 257] } {
        for p in if thorough { vec![0, 1, n / 2, n - 2, n - 1] } else { vec![0, n / 2, n - 1] } {
            let with = |b: &'static str| { let mut vs = units(n); vs[p] = b; vs };
            if n <= 128 { rej(format!("bitset of {n} with payload at {p}"), decl("#[key(bitset)]", "pub enum X", &with("(bool)"))); }
            rej(format!("two fields at {p} of {n}"), decl("", "pub enum X", &with("(bool, bool)")));
            rej(format!("named field at {p} of {n}"), decl("", "pub enum X", &with("{ a: bool }")));
            rej(format!("payload that is no key at {p} of {n}"), decl("", "pub enum X", &with("(NotKey)")));
        }
        rej(format!("unknown option on {n} variants"), decl("#[key(unknown)]", "pub enum X", &units(n)));
        rej(format!("option with a value on {n} variants"), decl("#[key(bitset = 1)]", "pub enum X", &units(n)));
    }
    for n in (129..=136).chain([160, 191, 192, 200, 254, 255, 256, 257, 258, 300, 384, 385, 512, 1000]) { rej(format!("bitset of {n}"), decl("#[key(bitset)]", "pub enum X", &units(n))); }
    for opt in ["#[key(unknown)]", "#[key(Bitset)]", "#[key(BITSET)]", "#[key(bitsets)]", "#[key(bit)]", "#[key(bitset, unknown)]", "#[key(unknown, bitset)]", "#[key(bitset::x)]", "#[key(x::bitset)]", "#[key(bitset = 1)]", "#[key(bitset = \"x\")]", "#[key(bitset(u8))]", "#[key(bitset())]", "#[key(bitset bitset)]", "#[key(\"bitset\")]", "#[key(1)]", "#[key = \"bitset\"]", "#[key]", "#[key(,)]", "#[key(bitset; x)]", "#[key(r#bitset_)]", "#[key(bitset)] #[key(unknown)]", "#[key(unknown)] #[key(bitset)]", "#[key(array)]", "#[key(u64)]", "#[key(bitset = true)]", "#[key(bitset(true))]", "#[key(bitset, bitset = 1)]", "#[key(default)]", "#[key(crate = \"x\")]"] {
        for (k, vs) in [vec![], vec![""], vec!["", ""], vec!["", "(bool)"]].iter().enumerate() {
            rej(format!("option {opt} #{k}"), decl(opt, "pub enum X", vs));
        }
    }
    for (n, s) in [("not Copy", "#[derive(Clone, Key)] pub enum X { A, B }"), ("neither Clone nor Copy", "#[derive(Key)] pub enum X { A, B }"), ("not Copy with payload", "#[derive(Clone, Key)] pub enum X { A, B(bool) }"), ("not Copy with bitset", "#[derive(Clone, Key)] #[key(bitset)] pub enum X { A, B }"), ("Key implemented twice", "#[derive(Clone, Copy, Key, Key)] pub enum X { A, B }"), ("itself as payload", "#[derive(Clone, Copy, Key)] pub enum X { A, B(X) }"), ("itself in an option", "#[derive(Clone, Copy, Key)] pub enum X { A(Option<X>) }"), ("a key type of a lifetime", "#[derive(Clone, Copy, Key)] pub enum X { A(&str) }")] { rej(n.to_string(), s.to_string()); }
    v
}

fn accepted(w: &mut W, env: &Env, batch: &[Probe], edition: &str, head: &str) {
    w.begin(|| "a batch of accepted declarations".into());
    w.stats.states += batch.len() as u64;
    w.stats.transitions += 1;
    w.stats.traces += batch.len() as u64;
    let mut src = format!("{head}{HEAD}");
    for (i, p) in batch.iter().enumerate() { src += &format!("pub mod m{i} {{ {PRE}\n{}\n}}\n", p.src); }
    let all = env.compile(&src, edition).unwrap();
    if all.is_none() { return; }
    let mut blamed = false;
    for p in batch {
        w.begin(|| p.name.clone());
        w.stats.transitions += 1;
        if let Some(e) = env.compile(&format!("{head}{HEAD}pub mod m {{ {PRE}\n{}\n}}\n", p.src), edition).unwrap() {
            blamed = true;
            w.fail(format!("{} (edition {edition})", p.name), format!("a supported declaration is rejected:\n{}\n{}", p.src, e.lines().take(25).collect::<Vec<_>>().join("\n")));
        }
    }
    if !blamed { w.fail("batch".into(), format!("supported declarations are rejected together, though not alone: {}", all.unwrap_or_default())); }
}

fn main() {
    let mut c = Ctx::new("C16", "model_checking");
    c.rule = "the space of declarations enumerated as programs: every sequence of variant forms up to a length, every payload type at every position, every number of variants, visibilities, attributes, identifiers, editions, macro-generated declarations; every struct and union form, every bad variant form at every position, every malformed option, too many bitset variants; each compiled with the real derive and its acceptance compared with the rule for supported declarations".into();
    c.assumptions.push("variants written A() or A {} and generic enums are judged neither supported nor unsupported".into());
    c.assumptions.push("lowercase names (constants, unit variants imported as such) that patterns of the generated code would refer to, and the names of primitive types and of core traits, are not redefined where the derive is used".into());
    let var = |n: &str| std::env::var(n).unwrap_or_else(|_| panic!("{n} is not set"));
    let dir = var("C16_DIR");
    let env = Arc::new(Env { rustc: var("C16_RUSTC"), rlib: var("C16_RLIB"), probe: var("C16_PROBE"), deps: var("C16_DEPS"), dir, n: AtomicUsize::new(0) });
    // The toolchain must work at all, or nothing is judged.
    match guard(|| env.compile("#![no_std]", "2021")) { Ok(None) => {} o => { eprintln!("rustc does not work: {o:?}"); std::process::exit(3); } }
    let probes = space(c.thorough);
    let (good, bad): (Vec<Probe>, Vec<Probe>) = probes.into_iter().partition(|p| p.accept);
    let (named, good): (Vec<Probe>, Vec<Probe>) = good.into_iter().partition(|p| p.name.starts_with("enum named"));
    for (i, b) in good.chunks(if c.thorough { 120 } else { 30 }).enumerate() { let (b, env) = (b.to_vec(), env.clone()); c.job(format!("accepted {i}"), move |w| accepted(w, &env, &b, "2021", "")); }
    let some: Vec<Probe> = good.iter().enumerate().filter(|(i, p)| i % 9 == 0 || !p.name.starts_with("variants") && !p.name.starts_with("payload") && !p.name.ends_with("variants") && !p.name.starts_with("bitset of")).map(|p| p.1.clone()).collect();
    for ed in ["2018", "2024"] { for (i, b) in some.chunks(60).enumerate() { let (b, env) = (b.to_vec(), env.clone()); c.job(format!("accepted in edition {ed} {i}"), move |w| accepted(w, &env, &b, ed, "")); } }
    for (i, b) in some.chunks(60).enumerate() { let (b, env) = (b.to_vec(), env.clone()); c.job(format!("accepted without std {i}"), move |w| accepted(w, &env, &b, "2021", "#![no_std]\n")); }
    for p in named {
        let env = env.clone();
        c.job("name", move |w| {
            w.stats.states += 1; w.stats.transitions += 1; w.stats.traces += 1;
            if let Some(e) = env.alone(&p, "2021").unwrap() { w.fail(p.name.clone(), format!("a supported declaration is rejected:\n{}\n{}", p.src, e.lines().take(25).collect::<Vec<_>>().join("\n"))); }
        });
    }
    for b in bad.chunks(10) {
        let (b, env) = (b.to_vec(), env.clone());
        c.job("rejected", move |w| for p in b {
            w.begin(|| p.name.clone());
            w.stats.states += 1; w.stats.transitions += 1; w.stats.traces += 1;
            match env.alone(&p, "2021").unwrap() {
                None => w.fail(p.name.clone(), format!("an unsupported declaration is accepted:\n{}", p.src)),
                Some(e) => w.sample(|| format!("{}: {}", p.name, e.lines().next().unwrap_or(""))),
            }
        });
    }
    c.finish()
}
