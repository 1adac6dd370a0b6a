//! derive(Actor): generated types are compiled with the derive and probed.  Oracle: the type must be
//! an actor exactly for the instantiations whose type arguments are Send, the generic statement
//! "for all parameters within their bounds that are Send and 'static" must type-check, and the life
//! cycle must be the default one.  A type counts only if it compiles with a hand-written impl.
use crate::runner::{hash_of, rng, Report, Stats};
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, ValueTree};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Param {
    /// 0-5: a type parameter; more: a const parameter
    kind: u8,
    /// which concrete type the bounds are taken from
    conc: u8,
    inline: u16,
    wheres: u16,
    unsized_: bool,
    default: u8,
    usage: u8,
    name: u8,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct TyCase {
    shape: u8,
    vis: u8,
    ctx: u8,
    others: u8,
    name: u8,
    params: Vec<Param>,
    /// other where clauses
    extra: u16,
    trailing: bool,
    insts: Vec<Vec<u8>>,
    /// a lifetime parameter that is 'static: 0-3 none, 4 inline, 5 in a where clause, 6 both, 7 two of them
    #[serde(default)]
    life: u8,
}

/// Concrete types: text, a value of it, Send, and what it satisfies.
struct Conc {
    ty: &'static str,
    val: &'static str,
    send: bool,
    sized: bool,
    has: &'static [u8],
}
const BOUNDS: &[&str] = &[
    "Clone",                        // 0
    "std::fmt::Debug",              // 1
    "std::fmt::Display",            // 2
    "Default",                      // 3
    "Copy",                         // 4
    "Iterator<Item = u32>",         // 5
    "Into<String>",                 // 6
    "Fn(u32) -> u64",               // 7
    "for<'a> PartialEq<&'a u8>",    // 8: nobody has it; kept out of `has`
    "Tr",                           // 9
    "std::ops::Add<Output = $T>",   // 10
    "Tr<Out = u16>",                // 11
    "core::marker::Send",           // 12
    "Sync",                         // 13
    "'static",                      // 14
    "for<'a> Fn(&'a str) -> usize", // 15
    "AsRef<[u8]>",                  // 16
    "std::marker::Unpin",           // 17
];
const CONC: &[Conc] = &[
    Conc { ty: "u8", val: "7u8", send: true, sized: true, has: &[0, 1, 2, 3, 4, 10, 12, 13, 14, 17] },
    Conc { ty: "String", val: "String::from(\"s\")", send: true, sized: true, has: &[0, 1, 2, 3, 6, 12, 13, 14, 16, 17] },
    Conc { ty: "std::cell::Cell<u8>", val: "std::cell::Cell::new(1)", send: true, sized: true, has: &[0, 1, 3, 12, 14, 17] },
    Conc { ty: "std::rc::Rc<u8>", val: "std::rc::Rc::new(1)", send: false, sized: true, has: &[0, 1, 2, 3, 14, 17] },
    Conc { ty: "Bare", val: "Bare", send: true, sized: true, has: &[12, 13, 14, 17] },
    Conc { ty: "std::vec::IntoIter<u32>", val: "vec![1u32].into_iter()", send: true, sized: true, has: &[0, 1, 5, 12, 13, 14, 17] },
    Conc { ty: "fn(u32) -> u64", val: "(f_u32 as fn(u32) -> u64)", send: true, sized: true, has: &[0, 1, 4, 7, 12, 13, 14, 17] },
    Conc { ty: "*const u8", val: "std::ptr::null()", send: false, sized: true, has: &[0, 1, 4, 14, 17] },
    Conc { ty: "TrS", val: "TrS", send: true, sized: true, has: &[0, 9, 11, 12, 13, 14, 17] },
    Conc { ty: "TrN", val: "TrN(std::rc::Rc::new(1))", send: false, sized: true, has: &[0, 9, 14, 17] },
    Conc { ty: "TrM", val: "TrM(std::rc::Rc::new(1))", send: false, sized: true, has: &[0, 9, 11, 14, 17] },
    Conc { ty: "RcIter", val: "RcIter(std::rc::Rc::new(1))", send: false, sized: true, has: &[5, 14, 17] },
    Conc { ty: "fn(&str) -> usize", val: "(f_str as fn(&str) -> usize)", send: true, sized: true, has: &[0, 1, 4, 12, 13, 14, 15, 17] },
    Conc { ty: "std::boxed::Box<dyn Fn(u32) -> u64>", val: "std::boxed::Box::new(f_u32)", send: false, sized: true, has: &[7, 14, 17] },
    Conc { ty: "std::sync::MutexGuard<'static, u8>", val: "", send: false, sized: true, has: &[1, 2, 13, 14, 17] },
    Conc { ty: "str", val: "", send: true, sized: false, has: &[1, 2, 12, 13, 14, 16, 17] },
    Conc { ty: "[u8]", val: "", send: true, sized: false, has: &[1, 12, 13, 14, 16, 17] },
    Conc { ty: "dyn std::fmt::Debug", val: "", send: false, sized: false, has: &[1, 14] },
    Conc { ty: "dyn std::fmt::Display + core::marker::Send", val: "", send: true, sized: false, has: &[2, 12, 14] },
];
const PRELUDE: &str = "
#[allow(unused_imports)] use crate::{Tr, TrS, TrN, TrM, RcIter, Bare, f_u32, f_str, P, Yes as _, No as _, is_actor};
";
const MAIN: &str = r##"#![allow(warnings)]
use std::future::Future;
pub trait Tr { type Out; }
#[derive(Clone)] pub struct TrS; impl Tr for TrS { type Out = u16; }
#[derive(Clone)] pub struct TrN(pub std::rc::Rc<u8>); impl Tr for TrN { type Out = std::rc::Rc<u8>; }
#[derive(Clone)] pub struct TrM(pub std::rc::Rc<u8>); impl Tr for TrM { type Out = u16; }
pub struct RcIter(pub std::rc::Rc<u8>); impl Iterator for RcIter { type Item = u32; fn next(&mut self) -> Option<u32> { None } }
pub struct Bare;
pub fn f_u32(x: u32) -> u64 { x as u64 }
pub fn f_str(x: &str) -> usize { x.len() }
pub struct P<T: ?Sized>(pub std::marker::PhantomData<T>);
pub trait Yes { fn yes(&self) -> bool { true } }
impl<T: xtra::Actor> Yes for P<T> {}
pub trait No { fn yes(&self) -> bool { false } }
impl<T> No for &P<T> {}
/// The type is an actor whose Stop is ().
pub fn is_actor<T: xtra::Actor<Stop = ()>>() {}
pub fn now<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(r) => Some(r),
        std::task::Poll::Pending => None,
    }
}
/// started, stopped and a whole run do what the defaults do.
pub fn life<T: xtra::Actor<Stop = ()>>(mut a: T, b: T) -> Result<(), String> {
    let (addr, mb) = xtra::Mailbox::<T>::unbounded();
    match now(a.started(&mb)) {
        Some(Ok(())) => {}
        Some(Err(())) => return Err("started fails".into()),
        None => return Err("started does not return at once".into()),
    }
    if now(a.stopped()) != Some(()) {
        return Err("stopped does not return at once".into());
    }
    drop(addr);
    if now(xtra::run(mb, b)) != Some(()) {
        return Err("run without an address does not end at once".into());
    }
    Ok(())
}
"##;

fn has(c: usize, b: u8) -> bool {
    CONC[c].has.contains(&b)
}
struct Render {
    src: String,
    /// expected answer of each probe
    probes: Vec<(String, bool)>,
    life: bool,
}
const TNAMES: &[&str] = &["A", "B", "C", "D", "T", "M", "Stop", "r#type", "Rc", "Actor", "Send"];
const CNAMES: &[&str] = &["N", "K", "LEN", "r#const"];

/// A generated type, and the checks on it.
fn render(case: &TyCase, tag: &str) -> Render {
    struct TP {
        name: String,
        bounds: Vec<u8>,
        un: bool,
    }
    let ty_name = ["Thing", "r#struct", "Actor_", "X", "Stop", "Send_", "Send"][case.name as usize % 7];
    let mut tps: Vec<Option<TP>> = vec![];
    let mut names: Vec<String> = vec![];
    let mut decl: Vec<String> = vec![];
    let mut plain: Vec<String> = vec![];
    let mut generic_fn: Vec<String> = vec![];
    let mut wheres: Vec<String> = vec![];
    // (field type, value for arguments) per parameter; arguments by name
    let mut fields: Vec<(String, String)> = vec![];
    let mut defaults_from = case.params.len();
    // defaults must be at the end
    for (i, p) in case.params.iter().enumerate().rev() {
        if p.default % 4 == 1 || p.default % 4 == 2 {
            defaults_from = i
        } else {
            break;
        }
    }
    let n_args = case.params.len();
    let life = if case.life % 8 < 4 { 0 } else { case.life % 8 };
    let mut lt_decl: Vec<String> = vec![];
    let mut lt_args: Vec<&str> = vec![];
    if life > 0 {
        lt_decl.push(if life == 5 { "'l".into() } else { "'l: 'static".into() });
        lt_args.push("'l");
        if life == 5 || life == 6 {
            wheres.push("'l: 'static".into());
        }
        if life == 7 {
            lt_decl.push("'m: 'l".into());
            lt_args.push("'m");
        }
    }
    let concs: Vec<usize> = case.params.iter().map(|p| p.conc as usize % CONC.len()).collect();
    let mut const_args: Vec<String> = vec![];
    for (i, p) in case.params.iter().enumerate() {
        let is_type = p.kind % 8 < 6;
        if is_type {
            let c = concs[i];
            let mut name = TNAMES[p.name as usize % TNAMES.len()].to_string();
            if names.contains(&name) || name == ty_name {
                name = format!("T{i}");
            }
            names.push(name.clone());
            let avail: Vec<u8> = CONC[c].has.to_vec();
            let un = p.unsized_ || !CONC[c].sized;
            let pickb = |mask: u16| -> Vec<u8> {
                avail.iter().enumerate().filter(|(k, b)| mask >> k & 1 == 1 && mask >> (k + 5) & 1 == 0 && !(un && matches!(**b, 0 | 3 | 4 | 5 | 6 | 10))).map(|(_, b)| *b).collect()
            };
            let inline = pickb(p.inline);
            let wh = pickb(p.wheres);
            let text = |b: u8| BOUNDS[b as usize].replace("$T", &name);
            let mut il: Vec<String> = inline.iter().map(|b| text(*b)).collect();
            if un {
                il.push("?Sized".into());
            }
            let mut d = name.clone();
            if !il.is_empty() {
                let _ = write!(d, ": {}", il.join(" + "));
            } else if p.inline == 1 {
                d.push(':');
            }
            let mut g = il.clone();
            g.push("core::marker::Send".into());
            g.push("'static".into());
            generic_fn.push(format!("{name}: {}", g.join(" + ")));
            let mut bounds = inline.clone();
            bounds.extend(&wh);
            if i >= defaults_from {
                let prev = tps.iter().flatten().find(|t: &&TP| !t.un).map(|t| t.name.clone());
                match prev {
                    Some(prev) if bounds.is_empty() && p.default % 4 == 2 => {
                        let _ = write!(d, " = Vec<{prev}>");
                    }
                    _ => {
                        let _ = write!(d, " = {}", CONC[c].ty);
                    }
                }
            }
            decl.push(d);
            plain.push(name.clone());
            for (k, b) in wh.iter().enumerate() {
                wheres.push(if k % 2 == 0 { format!("{name}: {}", text(*b)) } else { format!("Self_: Sized, {name}: {}", text(*b)).replace("Self_: Sized, ", "") });
            }
            if bounds.contains(&1) && case.extra & 1 == 1 {
                wheres.push(if un { format!("Box<{name}>: std::fmt::Debug") } else { format!("Vec<{name}>: std::fmt::Debug") });
            }
            if bounds.contains(&1) && case.extra & 2 == 2 {
                wheres.push(format!("for<'x> &'x {name}: std::fmt::Debug"));
            }
            let v = "$V".to_string() + &i.to_string() + "$";
            let (ft, fv) = match p.usage % 8 {
                0 if !un => (name.clone(), v),
                1 if !un => (format!("Vec<{name}>"), format!("vec![{v}]")),
                2 => (format!("std::marker::PhantomData<fn({name})>").replace(&format!("fn({name})"), &format!("fn(Box<{name}>)")), "std::marker::PhantomData".into()),
                3 => (format!("Option<Box<{name}>>"), "None".into()),
                4 if !un => (format!("std::sync::Arc<std::sync::Mutex<{name}>>"), format!("std::sync::Arc::new(std::sync::Mutex::new({v}))")),
                5 if !un => (format!("[{name}; 1]"), format!("[{v}]")),
                6 if bounds.contains(&11) && !un => (format!("std::marker::PhantomData<({name}, <{name} as Tr>::Out)>"), "std::marker::PhantomData".into()),
                _ => (format!("std::marker::PhantomData<{name}>"), "std::marker::PhantomData".into()),
            };
            fields.push((ft, fv));
            const_args.push(String::new());
            tps.push(Some(TP { name, bounds, un }));
        } else {
            let mut name = CNAMES[p.name as usize % CNAMES.len()].to_string();
            if names.contains(&name) {
                name = format!("N{i}");
            }
            names.push(name.clone());
            let (ty, def, other) = match p.conc % 4 {
                0 => ("usize", "4", "{ 1 + 2 }"),
                1 => ("bool", "true", "false"),
                2 => ("char", "'x'", "'\\u{e9}'"),
                _ => ("i8", "-3", "{ -(5) }"),
            };
            let mut d = format!("const {name}: {ty}");
            generic_fn.push(d.clone());
            if i >= defaults_from {
                let _ = write!(d, " = {def}");
            }
            decl.push(d);
            plain.push(name.clone());
            if ty == "usize" {
                let fits = p.wheres & 1 == 1;
                if fits {
                    wheres.push(format!("[u8; {name}]: Default"));
                }
                fields.push((format!("[u16; {name}]"), if p.usage % 2 == 0 { "[0; 4]".into() } else { "[0; 3]".into() }));
            } else {
                fields.push(("u8".into(), "1".into()));
            }
            const_args.push(if p.usage % 2 == 0 { def.to_string() } else { other.to_string() });
            tps.push(None);
        }
    }
    for l in &lt_args {
        fields.push((format!("std::marker::PhantomData<&{l} u8>"), "std::marker::PhantomData".into()));
    }
    if case.extra & 4 == 4 {
        wheres.push("u8: Copy".into());
    }
    if case.extra & 8 == 8 {
        wheres.push("Vec<Bare>: core::marker::Send".into());
    }
    let generics = |v: &[String]| if v.is_empty() { if case.extra & 16 == 16 { "<>".into() } else { String::new() } } else { format!("<{}{}>", v.join(", "), if case.trailing { "," } else { "" }) };
    let where_text = if wheres.is_empty() {
        if case.extra & 32 == 32 { " where".to_string() } else { String::new() }
    } else {
        format!(" where {}{}", wheres.join(", "), if case.trailing { "," } else { "" })
    };
    let name = ty_name;
    let vis = ["", "pub ", "pub(crate) "][case.vis as usize % 3];
    let with_lt = |v: &[String]| -> Vec<String> { lt_decl.iter().chain(v).cloned().collect() };
    let g = generics(&with_lt(&decl));
    let shape = case.shape % 7;
    // how to build a value of the type
    let attr = if case.others & 4 == 4 { "#[allow(dead_code)] " } else { "" };
    let fname = |i: usize| if i == 0 && case.name % 2 == 1 { "r#fn".to_string() } else { format!("f{i}") };
    let named = |fs: &[(usize, &(String, String))]| fs.iter().map(|(i, f)| format!("{attr}{vis}{}: {}", fname(*i), f.0)).collect::<Vec<_>>().join(", ");
    let named_e = |fs: &[(usize, &(String, String))]| fs.iter().map(|(i, f)| format!("{}: {}", fname(*i), f.0)).collect::<Vec<_>>().join(", ");
    let tup = |fs: &[(usize, &(String, String))]| fs.iter().map(|(_, f)| format!("{attr}{vis}{}", f.0)).collect::<Vec<_>>().join(", ");
    let all: Vec<(usize, &(String, String))> = fields.iter().enumerate().collect();
    let named_v = |fs: &[(usize, &(String, String))]| fs.iter().map(|(i, f)| format!("{}: {}", fname(*i), f.1)).collect::<Vec<_>>().join(", ");
    let tup_v = |fs: &[(usize, &(String, String))]| fs.iter().map(|(_, f)| f.1.clone()).collect::<Vec<_>>().join(", ");
    let has_type_fields = !fields.is_empty();
    let (item, value, mut can_build) = match shape {
        0 | 1 => (format!("{vis}struct {name}{g}{where_text} {{ {} }}", named(&all)), format!("{name} {{ {} }}", named_v(&all)), true),
        2 | 3 if has_type_fields => (format!("{vis}struct {name}{g}({}){where_text};", tup(&all)), format!("{name}({})", tup_v(&all)), true),
        2 => (format!("{vis}struct {name}{g}(){where_text};"), format!("{name}()"), true),
        3 => (format!("{vis}struct {name}{g}{where_text};"), name.to_string(), true),
        4 => {
            // an enum with one variant per field
            let vs: Vec<String> = all.iter().map(|f| if f.0 % 2 == 0 { format!("V{}({})", f.0, f.1 .0) } else { format!("V{} {{ {} }}", f.0, named_e(&[*f])) }).collect();
            (format!("{vis}enum {name}{g}{where_text} {{ {} }}", vs.iter().map(String::as_str).chain(["Last"]).collect::<Vec<_>>().join(", ")), format!("{name}::Last"), true)
        }
        5 => (format!("{vis}enum {name}{g}{where_text} {{ First({}), Second {{ {} }}, }}", tup(&all).replace(attr, "").replace(vis, ""), named_e(&all)), format!("{name}::First({})", tup_v(&all)), true),
        _ if !has_type_fields => (format!("{vis}enum {name}{g}{where_text} {{ }}"), String::new(), false),
        _ => (format!("{vis}enum {name}{g}{where_text} {{ Only {{ {} }} }}", named_e(&all)), format!("{name}::Only {{ {} }}", named_v(&all)), true),
    };
    let derives = {
        let mut d = vec!["xtra_macros::Actor".to_string()];
        if case.others & 8 == 8 {
            d[0] = "Actor".into();
        }
        if case.others & 1 == 1 && tps.iter().all(|t| t.as_ref().is_none_or(|t| t.bounds.contains(&1))) && !item.contains("fn(") && can_build {
            d.push("Debug".into());
        }
        if case.others & 2 == 2 {
            d.reverse();
        }
        d
    };
    let own = derives.iter().find(|d| d.ends_with("Actor")).unwrap().clone();
    let rest: Vec<String> = derives.iter().filter(|d| !d.ends_with("Actor")).cloned().collect();
    let docs = if case.others & 16 == 16 { "/// A type.\n" } else { "" };
    // hand-written
    let mut cw = wheres.clone();
    for t in tps.iter().flatten() {
        cw.push(format!("{}: core::marker::Send + 'static", t.name));
    }
    let ig: Vec<String> = decl.iter().map(|d| d.split(" = ").next().unwrap().to_string()).collect();
    // a bound may contain " = " itself
    let ig: Vec<String> = ig.iter().enumerate().map(|(i, _)| match &tps[i] {
        Some(_) => {
            let g = &generic_fn[i];
            g.strip_suffix(" + core::marker::Send + 'static").map(str::to_string).unwrap_or_else(|| g.split(':').next().unwrap().to_string())
        }
        None => generic_fn[i].clone(),
    }).collect();
    let lt_plain: Vec<String> = lt_args.iter().map(|s| s.to_string()).chain(plain.iter().cloned()).collect();
    let args = if lt_plain.is_empty() { String::new() } else { format!("<{}>", lt_plain.join(", ")) };
    let ig = with_lt(&ig);
    let generic_fn = with_lt(&generic_fn);
    let control = format!(
        "#[cfg(feature = \"control\")] impl{} xtra::Actor for {name}{args} where {} {{ type Stop = (); async fn stopped(self) {{}} }}",
        if ig.is_empty() { String::new() } else { format!("<{}>", ig.join(", ")) },
        cw.join(", ")
    );
    let rest_attr = if rest.is_empty() { String::new() } else { format!("#[derive({})]", rest.join(", ")) };
    let (a1, a2) = if case.others & 2 == 2 { (rest_attr.clone(), String::new()) } else { (String::new(), rest_attr) };
    let mut decl_item = format!("{docs}{a1}\n#[cfg_attr(not(feature = \"control\"), derive({own}))]\n{a2}\n{item}\n{control}\n");
    if case.ctx % 4 == 3 {
        // through a macro
        decl_item = format!("macro_rules! make {{ ($($t:tt)*) => {{ $($t)* }} }}\nmake! {{\n{decl_item}\n}}\n");
    }
    let import = if own == "Actor" { "use xtra_macros::Actor;" } else { "" };

    // ---- checks
    let mut checks = String::new();
    let mut probes = vec![];
    // for all parameters
    let gf = if generic_fn.is_empty() { String::new() } else { format!("<{}>", generic_fn.join(", ")) };
    let _ = writeln!(checks, "    fn every{gf}() {} {{ is_actor::<{name}{args}>() }}", if wheres.is_empty() { String::new() } else { format!("where {}", wheres.join(", ")) });
    let satisfies = |c: usize, t: &TP| t.bounds.iter().all(|b| has(c, *b)) && (CONC[c].sized || t.un);
    let inst = |sel: &dyn Fn(usize) -> usize| -> (String, bool) {
        let mut v: Vec<String> = lt_args.iter().map(|_| "'static".to_string()).collect();
        let mut send = true;
        for i in 0..n_args {
            match &tps[i] {
                Some(_) => {
                    let c = sel(i);
                    send &= CONC[c].send;
                    v.push(CONC[c].ty.to_string());
                }
                None => v.push(const_args[i].clone()),
            }
        }
        (if v.is_empty() { name.to_string() } else { format!("{name}<{}>", v.join(", ")) }, send)
    };
    let (first, first_send) = inst(&|i| concs[i]);
    probes.push((first.clone(), first_send));
    for m in &case.insts {
        let (t, s) = inst(&|i| {
            let Some(t) = &tps[i] else { return 0 };
            let ok: Vec<usize> = (0..CONC.len()).filter(|c| satisfies(*c, t)).collect();
            ok[m.get(i).copied().unwrap_or(0) as usize % ok.len()]
        });
        probes.push((t, s));
    }
    // as it is with only the arguments that have no default
    if defaults_from < n_args {
        let v: Vec<String> = (0..lt_args.len()).map(|_| "'static".to_string()).chain((0..defaults_from).map(|i| match &tps[i] {
            Some(_) => CONC[concs[i]].ty.to_string(),
            None => const_args[i].clone(),
        })).collect();
        let send = (0..n_args).all(|i| {
            tps[i].is_none() || {
                // a default that is made of another parameter has that one's
                let d = &decl[i];
                if i >= defaults_from && d.contains(" = Vec<") { true } else { CONC[concs[i]].send }
            }
        });
        let send = send && (0..n_args).all(|i| tps[i].is_none() || i >= defaults_from || CONC[concs[i]].send) && {
            // Vec<prev>: prev is the first sized one
            let vecs = (defaults_from..n_args).any(|i| decl[i].contains(" = Vec<"));
            !vecs || tps.iter().enumerate().find(|(_, t)| t.as_ref().is_some_and(|t| !t.un)).is_none_or(|(k, _)| CONC[concs[k]].send)
        };
        probes.push((if v.is_empty() { name.to_string() } else { format!("{name}<{}>", v.join(", ")) }, send));
    }
    for (t, _) in &probes {
        let _ = writeln!(checks, "    out.push((&P::<{t}>(std::marker::PhantomData)).yes());");
    }
    let needs_val: Vec<usize> = (0..n_args).filter(|i| value.contains(&format!("$V{i}$"))).collect();
    can_build &= first_send && needs_val.iter().all(|i| !CONC[concs[*i]].val.is_empty());
    let mut life = String::new();
    if can_build {
        let mut v = value.clone();
        for i in &needs_val {
            v = v.replace(&format!("$V{i}$"), CONC[concs[*i]].val);
        }
        // a type's fields of const parameters that fix a length
        let _ = writeln!(life, "    let (a, b): ({first}, {first}) = ({v}, {v});\n    life = Some(crate::life(a, b));");
    }
    let body = format!(
        "    let mut out: Vec<bool> = vec![]; let mut life: Option<Result<(), String>> = None;\n{checks}{life}    println!(\"{{}} {{:?}} {{:?}}\", \"{tag}\", out, life);\n"
    );
    let src = match case.ctx % 4 {
        1 => format!("{PRELUDE}{import}\npub fn go() {{\n{decl_item}\n{body}}}\n"),
        2 => format!("pub mod inner {{ {PRELUDE}{import}\n{decl_item}\npub fn go() {{\n{body}}} }}\npub use inner::go;\n"),
        _ => format!("{PRELUDE}{import}\n{decl_item}\npub fn go() {{\n{body}}}\n"),
    };
    Render { src, probes, life: can_build }
}

fn strategy() -> BoxedStrategy<TyCase> {
    let param = (any::<u8>(), any::<u8>(), any::<u16>(), any::<u16>(), prop::bool::weighted(0.2), any::<u8>(), any::<u8>(), any::<u8>()).prop_map(
        |(kind, conc, inline, wheres, unsized_, default, usage, name)| Param { kind, conc, inline, wheres, unsized_, default, usage, name },
    );
    (
        (any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>()),
        prop_oneof![
            1 => Just(vec![]),
            12 => prop::collection::vec(param, 1..5),
        ],
        any::<u16>(),
        any::<bool>(),
        prop::collection::vec(prop::collection::vec(any::<u8>(), 5), 2..4),
        prop_oneof![3 => Just(0u8), 1 => 4..8u8],
    )
        .prop_map(|((shape, vis, ctx, others, name), params, extra, trailing, insts, life)| TyCase { shape, vis, ctx, others, name, params, extra, trailing, insts, life })
        .boxed()
}

// ---- compiling ------------------------------------------------------------------------------------
fn dir() -> PathBuf {
    crate::runner::verif_dir().join("harness/derive")
}
fn write_bin(bin: &str, cases: &[(usize, &TyCase)]) {
    let d = dir().join("target/gen").join(bin);
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch directory");
    let mut main = MAIN.to_string();
    let mut calls = String::new();
    for (i, c) in cases {
        let r = render(c, &format!("c{i}"));
        std::fs::write(d.join(format!("c{i}.rs")), r.src).expect("write");
        let _ = writeln!(main, "mod c{i};");
        let _ = writeln!(calls, "    c{i}::go();");
    }
    let _ = write!(main, "fn main() {{\n{calls}}}\n");
    std::fs::write(d.join("main.rs"), main).expect("write");
}
struct Built {
    ok: bool,
    /// case -> first error
    errors: BTreeMap<usize, String>,
    other: String,
}
fn build(bins: &[&str], control: bool) -> Built {
    let mut c = Command::new("cargo");
    c.current_dir(dir()).args(["build", "--offline", "--locked", "--message-format=json", "--keep-going"]);
    for b in bins {
        c.args(["--bin", b]);
    }
    if control {
        c.args(["--features", "control", "--target-dir", "target/control"]);
    }
    let out = c.output().expect("cargo");
    let mut b = Built { ok: out.status.success(), errors: BTreeMap::new(), other: String::from_utf8_lossy(&out.stderr).into() };
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        let m = &v["message"];
        if m["level"] != "error" {
            continue;
        }
        fn file_of(s: &serde_json::Value) -> Option<usize> {
            let f = s["file_name"].as_str()?;
            let f = Path::new(f).file_stem()?.to_str()?;
            f.strip_prefix('c')?.parse().ok()
        }
        let case = m["spans"].as_array().into_iter().flatten().find_map(file_of).or_else(|| {
            m["children"].as_array().into_iter().flatten().find_map(|c| c["spans"].as_array().into_iter().flatten().find_map(file_of))
        });
        if let Some(i) = case {
            b.errors.entry(i).or_insert_with(|| m["message"].as_str().unwrap_or("").to_string());
        }
    }
    b
}
fn run_bin(bin: &str, control: bool) -> BTreeMap<usize, (Vec<bool>, Option<String>)> {
    let exe = dir().join(if control { "target/control/debug" } else { "target/debug" }).join(bin);
    let out = Command::new(exe).output().expect("run");
    let mut m = BTreeMap::new();
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let Some((tag, rest)) = l.split_once(' ') else { continue };
        let Some(i) = tag.strip_prefix('c').and_then(|s| s.parse().ok()) else { continue };
        let Some((a, b)) = rest.split_once("] ") else { continue };
        let probes = a.trim_start_matches('[').split(", ").filter(|s| !s.is_empty()).map(|s| s == "true").collect();
        m.insert(i, (probes, (b != "None" && b != "Some(Ok(()))").then(|| b.to_string())));
    }
    m
}
/// What is wrong with a case that compiled and ran?
fn judge(case: &TyCase, got: Option<&(Vec<bool>, Option<String>)>) -> Option<String> {
    let r = render(case, "");
    let Some((probes, life)) = got else { return Some("the program using it did not get to the end".into()) };
    for ((t, want), got) in r.probes.iter().zip(probes) {
        if want != got {
            return Some(format!("{t} {} an actor, but should {}", if *got { "is" } else { "is not" }, if *want { "be one" } else { "not be one" }));
        }
    }
    life.as_ref().map(|l| format!("the life cycle is not the default one: {l}"))
}
fn check_one(case: &TyCase) -> Option<String> {
    write_bin("one", &[(0, case)]);
    let b = build(&["one"], true);
    if !b.ok || judge(case, run_bin("one", true).get(&0)).is_some() {
        return None;
    }
    let b = build(&["one"], false);
    if !b.ok {
        return b.errors.get(&0).map(|e| format!("does not compile with the derive ({e}), but does with the impl written by hand"));
    }
    judge(case, run_bin("one", false).get(&0))
}

const BINS: [&str; 8] = ["b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7"];

fn features(c: &TyCase) -> Vec<&'static str> {
    let r = render(c, "");
    let mut v = vec![];
    let mut add = |b: bool, s: &'static str| {
        if b {
            v.push(s)
        }
    };
    add(c.params.iter().any(|p| p.kind % 8 < 6), "type parameter");
    add(c.params.iter().any(|p| p.kind % 8 >= 6), "const parameter");
    add(r.src.contains(" where "), "where clause");
    add(r.src.contains("?Sized"), "?Sized");
    add(r.probes.iter().any(|p| !p.1), "instantiation that is not an actor");
    add(r.life, "life cycle run");
    add(c.shape % 7 >= 4, "enum");
    add(c.life % 8 >= 4, "lifetime parameter");
    add(c.params.len() > 1 && c.params.last().is_some_and(|p| matches!(p.default % 4, 1 | 2)), "default");
    v
}

pub fn run(rep: &mut Report, per_batch: usize, batches: u64, until: Duration) {
    // during development: are the generated types right by themselves?
    let control = std::env::var_os("DERIVE_CONTROL").is_some();
    let start = Instant::now();
    let mut st = Stats::default();
    let mut bad: Vec<(TyCase, String)> = vec![];
    for batch in 0..batches {
        if start.elapsed() > until {
            break;
        }
        let mut runner = rng(rep.seed, 0xC23 ^ (batch << 20));
        let strat = strategy();
        let mut cases = vec![];
        let mut seen = HashSet::new();
        while cases.len() < per_batch {
            let c = strat.new_tree(&mut runner).expect("generator").current();
            if seen.insert(hash_of(&render(&c, "").src)) {
                cases.push(c);
            }
        }
        let mut live: BTreeSet<usize> = (0..cases.len()).collect();
        let mut errs: BTreeMap<usize, String> = BTreeMap::new();
        let mut built = false;
        // errors of one compiler phase hide those of the next
        for _ in 0..6 {
            let mut share: Vec<Vec<(usize, &TyCase)>> = vec![vec![]; BINS.len()];
            for (n, i) in live.iter().enumerate() {
                share[n % BINS.len()].push((*i, &cases[*i]));
            }
            for (b, s) in BINS.iter().zip(&share) {
                write_bin(b, s);
            }
            let b = build(&BINS, control);
            if b.ok {
                built = true;
                break;
            }
            if b.errors.is_empty() {
                eprintln!("{}", b.other);
                eprintln!("the generated types cannot be compiled");
                std::process::exit(2);
            }
            for (i, e) in b.errors {
                live.remove(&i);
                errs.insert(i, e);
            }
            if live.is_empty() {
                break;
            }
        }
        let mut results = BTreeMap::new();
        if built {
            for b in BINS {
                results.extend(run_bin(b, control));
            }
        }
        for (i, c) in cases.iter().enumerate() {
            st.evaluations += 1;
            for l in features(c) {
                *st.labels.entry(l).or_insert(0) += 1;
            }
            let msg = match errs.get(&i) {
                Some(e) => Some(format!("does not compile with the derive: {e}")),
                None if built => judge(c, results.get(&i)),
                None => None,
            };
            match msg {
                Some(m) => bad.push((c.clone(), m)),
                None => {
                    if !c.params.is_empty() {
                        st.nontrivial.insert(hash_of(&render(c, "").src));
                        if st.samples.len() < 4 {
                            st.samples.push(serde_json::json!(render(c, "").src.lines().find(|l| l.contains("struct ") || l.contains("enum ")).unwrap_or("")));
                        }
                    }
                }
            }
        }
        if !bad.is_empty() {
            break;
        }
    }
    // do they hold when written by hand?
    let mut found = None;
    bad.sort_by_key(|(c, _)| c.params.len());
    let n_bad = bad.len();
    for (c, m) in bad.iter().take(12) {
        if control {
            eprintln!("{m}: {}", render(c, "").src);
            continue;
        }
        match check_one(c) {
            Some(m) => {
                found = Some((c.clone(), m));
                break;
            }
            None => {
                st.aborted += 1;
                st.abort_sample = Some(format!("{m}, and so with the impl written by hand: {}", render(c, "").src));
            }
        }
    }
    let aborted = st.aborted;
    let (ev, nt) = (st.evaluations, st.nontrivial.len());
    rep.add("derive", "generated structs and enums compiled with the derive of /repo/macros; the generic statement type-checked, up to five instantiations probed for being actors, one run; non-trivial: has parameters".into(), st, serde_json::Value::Null);
    if let Some((c, m)) = found {
        let (c, m) = shrink(c, m);
        let v = serde_json::to_value(&c).unwrap();
        rep.violation("derive", v, &format!("{m}: {}", render(&c, "").src.replace('\n', " ")));
    }
    if n_bad > 0 && aborted as usize == n_bad.min(12) && n_bad > 12 {
        eprintln!("too many generated types are wrong by themselves");
        std::process::exit(2);
    }
    println!("{} [derive]: {ev} types, {nt} distinct non-trivial, {aborted} set aside", rep.property);
}
fn shrink(mut c: TyCase, mut m: String) -> (TyCase, String) {
    let end = Instant::now() + Duration::from_secs(60);
    loop {
        let mut cand: Vec<TyCase> = vec![];
        let d = |f: &dyn Fn(&mut TyCase)| {
            let mut x = c.clone();
            f(&mut x);
            x
        };
        for i in 0..c.params.len() {
            cand.push(d(&|x| {
                x.params.remove(i);
            }));
            cand.push(d(&|x| x.params[i].inline = 0));
            cand.push(d(&|x| x.params[i].wheres = 0));
            cand.push(d(&|x| x.params[i].default = 0));
            cand.push(d(&|x| x.params[i].unsized_ = false));
            cand.push(d(&|x| x.params[i].name = i as u8));
        }
        cand.push(d(&|x| x.extra = 0));
        cand.push(d(&|x| x.life = 0));
        cand.push(d(&|x| x.others = 0));
        cand.push(d(&|x| x.ctx = 0));
        cand.push(d(&|x| x.vis = 0));
        cand.push(d(&|x| x.name = 0));
        cand.push(d(&|x| x.shape = 0));
        let before = render(&c, "").src;
        let mut better = None;
        for x in cand {
            if Instant::now() > end {
                return (c, m);
            }
            let src = render(&x, "").src;
            if src == before || src.len() >= before.len() {
                continue;
            }
            if let Some(m) = check_one(&x) {
                better = Some((x, m));
                break;
            }
        }
        match better {
            Some((x, y)) => (c, m) = (x, y),
            None => return (c, m),
        }
    }
}
pub fn replay(property: &str, file: &str, case: &serde_json::Value) -> ! {
    let Ok(c) = serde_json::from_value::<TyCase>(case.clone()) else { std::process::exit(2) };
    println!("{}", render(&c, "c0").src);
    for b in BINS {
        write_bin(b, &[]);
    }
    match check_one(&c) {
        Some(m) => {
            println!("{property}: {m}");
            println!("VIOLATION property={property} replay={file}");
            std::process::exit(1)
        }
        None => println!("passes"),
    }
    std::process::exit(0)
}
