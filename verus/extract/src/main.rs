//! extract SOURCE.rs CONTRACTS OUT.rs PINNED.rs [functions whose bodies to leave out]
//!
//! Copies the functions and types named in CONTRACTS from SOURCE into a Verus file, together with
//! their contracts. The rewrites applied to the copied code are the rules R1.. in DESIGN.md; they
//! are fixed, and anything they don't cover is left as it is (Verus then rejects it).
mod lower;
use proc_macro2::{TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::HashMap;
use syn::*;

/// The contract of one function: section name -> text.
pub type Contract = HashMap<String, String>;
pub struct Contracts { pub prelude: Vec<String>, pub structs: Vec<String>, pub clones: Vec<String>, pub fns: Vec<(String, Contract)> }

fn contracts(text: &str) -> Contracts {
    let mut c = Contracts { prelude: vec![], structs: vec![], clones: vec![], fns: vec![] };
    let mut sect: Option<String> = None;
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix('@') {
            let rest = rest.trim();
            if rest == "prelude" { sect = None; c.prelude.push(String::new()); }
            else if let Some(s) = rest.strip_prefix("struct ") { c.structs.extend(s.split_whitespace().map(String::from)); }
            else if let Some(s) = rest.strip_prefix("clone ") { c.clones.extend(s.split_whitespace().map(String::from)); }
            else if let Some(f) = rest.strip_prefix("fn ") { c.fns.push((f.to_string(), Contract::new())); sect = Some("spec".into()); }
            else { sect = Some(rest.to_string()); if let Some((_, f)) = c.fns.last_mut() { f.entry(rest.to_string()).or_default(); } }
            continue;
        }
        match (&sect, c.fns.last_mut()) {
            (Some(s), Some((_, f))) => { let e = f.entry(s.clone()).or_default(); e.push_str(l); e.push('\n'); }
            _ => { if let Some(p) = c.prelude.last_mut() { p.push_str(l); p.push('\n'); } }
        }
    }
    c
}

/// `Type::method` or `function`
fn find<'a>(file: &'a File, name: &str) -> Option<(Option<&'a ItemImpl>, &'a Signature, &'a Block)> {
    let (ty, f) = match name.split_once("::") { Some((t, f)) => (Some(t), f), None => (None, name) };
    for i in &file.items {
        match i {
            Item::Fn(x) if ty.is_none() && x.sig.ident == f => return Some((None, &x.sig, &x.block)),
            Item::Impl(im) if ty.is_some() => {
                let Type::Path(p) = &*im.self_ty else { continue };
                if p.path.segments.last().unwrap().ident != ty.unwrap() { continue }
                // of traits, only `Iterator` has functions with contracts
                if let Some(t) = &im.trait_ { if !t.0.to_token_stream().to_string().contains("Iterator") { continue } }
                for m in &im.items {
                    if let ImplItem::Fn(m) = m { if m.sig.ident == f { return Some((Some(im), &m.sig, &m.block)) } }
                }
            }
            _ => {}
        }
    }
    None
}

fn derives_clone(attrs: &[Attribute]) -> bool { attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("Clone")) }
fn functions(f: &File) -> Vec<(&Signature, &Block)> {
    let mut v = vec![];
    for i in &f.items {
        match i {
            Item::Fn(x) => v.push((&x.sig, &*x.block)),
            Item::Impl(im) => for m in &im.items { if let ImplItem::Fn(m) = m { v.push((&m.sig, &m.block)) } },
            _ => {}
        }
    }
    v
}
pub fn flat(ts: TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { proc_macro2::Delimiter::Parenthesis => ("(", ")"), proc_macro2::Delimiter::Brace => ("{", "}"), proc_macro2::Delimiter::Bracket => ("[", "]"), _ => ("", "") };
                out.push(a.into()); flat(g.stream(), out); out.push(b.into());
            }
            t => out.push(t.to_string()),
        }
    }
}
fn is_ident(s: &str) -> bool { s.chars().next().map_or(false, |c| c.is_alphabetic() || c == '_') }
/// If `now` is `then` with local names changed consistently, the renaming.
fn renaming(then: &[String], now: &[String]) -> Option<HashMap<String, String>> {
    if then.len() != now.len() { return None }
    let (mut f, mut b) = (HashMap::new(), HashMap::new());
    for (x, y) in then.iter().zip(now) {
        if is_ident(x) && is_ident(y) {
            if f.entry(x.clone()).or_insert_with(|| y.clone()) != y || b.entry(y.clone()).or_insert_with(|| x.clone()) != x { return None }
        } else if x != y { return None }
    }
    f.retain(|k, v| k != v);
    Some(f)
}
/// Where more than names changed: names that are gone, to the new names in their places.
fn renaming_around(then: &[String], now: &[String]) -> HashMap<String, String> {
    // local variables only
    let gone = |x: &String| is_ident(x) && !now.contains(x) && (0..then.len()).all(|i| then[i] != *x || (i == 0 || then[i - 1] != "." && then[i - 1] != ":") && then.get(i + 1).map_or(true, |t| t != "(" && t != ":"));
    let new = |y: &String| is_ident(y) && !then.contains(y);
    let same = |x: &String, y: &String| x == y || gone(x) && new(y);
    let (n, m) = (then.len(), now.len());
    let mut t = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() { for j in (0..m).rev() {
        t[i][j] = if same(&then[i], &now[j]) { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
    } }
    let mut votes: HashMap<String, HashMap<String, usize>> = HashMap::new();
    let (mut i, mut j) = (0, 0);
    while i < n && j < m {
        if same(&then[i], &now[j]) && t[i][j] == t[i + 1][j + 1] + 1 {
            if then[i] != now[j] { *votes.entry(then[i].clone()).or_default().entry(now[j].clone()).or_default() += 1; }
            i += 1; j += 1;
        } else if t[i + 1][j] >= t[i][j + 1] { i += 1 } else { j += 1 }
    }
    votes.into_iter().map(|(k, v)| (k, v.into_iter().max_by_key(|(s, n)| (*n, s.clone())).unwrap().0)).collect()
}
/// Where the elements of one list are in another, in the same order.
fn places(now: &[String], then: &[String]) -> Option<Vec<usize>> {
    let mut at = 0;
    let mut v = vec![];
    for x in now { while then.get(at)? != x { at += 1 } v.push(at); at += 1; }
    Some(v)
}
/// without the numbers of the names that the rules make
fn digits(s: &str) -> String {
    let mut out = String::new();
    for w in s.split(' ') { out.push_str(if w.starts_with("__") { w.trim_end_matches(|c: char| c.is_ascii_digit()) } else { w }); out.push(' '); }
    out
}
fn rename(text: &str, m: &HashMap<String, String>) -> String {
    let mut out = String::new();
    let mut id = String::new();
    for c in text.chars().chain(std::iter::once('\0')) {
        if c.is_alphanumeric() || c == '_' { id.push(c); continue }
        if !id.is_empty() { out.push_str(m.get(&id).unwrap_or(&id)); id.clear(); }
        if c != '\0' { out.push(c); }
    }
    out
}

/// Prints tokens, one statement a line, pasting the texts the placeholders stand for.
fn print(ts: TokenStream, texts: &[String]) -> String {
    let mut toks = vec![];
    flat(ts, &mut toks);
    let mut out = String::new();
    let mut i = 0;
    let mut prev = String::new();
    while i < toks.len() {
        let t = &toks[i];
        // `{ __inv!(k);` becomes `<text> {`
        if t == "{" && toks.get(i + 1).map_or(false, |t| t == "__inv") {
            out.push_str(&format!("\n{}{{\n", texts[toks[i + 4].parse::<usize>().unwrap()]));
            i += 7; prev = "{".into();
            continue;
        }
        if t == "__h" { out.push_str(&format!("\n{}", texts[toks[i + 3].parse::<usize>().unwrap()])); i += 6; prev = ";".into(); continue }
        if t == "__reject" {
            out.push_str(&format!("reject(Ghost({}))", texts[toks[i + 3].parse::<usize>().unwrap()].trim()));
            i += 5; prev = ")".into(); continue
        }
        if t == "__unwrap" { out.push_str(&format!("Ghost({})", texts[toks[i + 3].parse::<usize>().unwrap()].trim())); i += 5; prev = ")".into(); continue }
        if t == "'" { out.push('\''); out.push_str(&toks[i + 1]); out.push(' '); i += 2; continue }
        let glue = |a: &str, b: &str| matches!((a, b), (":", ":") | ("=", "=") | ("!", "=") | ("<", "=") | (">", "=") | ("&", "&") | ("|", "|") | ("-", ">") | ("=", ">") | (".", ".") | ("+", "=") | ("-", "=") | (".", "=")  );
        if glue(&prev, t) && out.ends_with(' ') { out.pop(); }
        out.push_str(t);
        match &t[..] { "{" | "}" | ";" => out.push('\n'), _ => out.push(' ') }
        prev = t.clone();
        i += 1;
    }
    out
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).expect("source");
    let skipped: Vec<String> = a.iter().skip(5).cloned().collect();
    let c = contracts(&std::fs::read_to_string(&a[2]).expect("contracts"));
    let pinned = a.get(4).and_then(|p| std::fs::read_to_string(p).ok());
    let file = parse_file(&src).expect("parse");
    let pfile = pinned.as_ref().map(|p| parse_file(p).expect("parse pinned"));
    let mut out = String::from("// Written by extract from /repo's sources.\n#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, unused_parens, unused_assignments, unreachable_code)]\nuse vstd::prelude::*;\nuse vstd::std_specs::iter::IteratorSpec;\nuse vstd::std_specs::cmp::*;\n");
    for p in &c.prelude { out.push_str(p); }
    out.push_str("verus! {\n");
    for s in &c.clones {
        let derived = file.items.iter().any(|i| match i { Item::Struct(x) if x.ident == *s => derives_clone(&x.attrs), Item::Enum(x) if x.ident == *s => derives_clone(&x.attrs), _ => false });
        if !derived { eprintln!("LOST derive(Clone) on {}", s); std::process::exit(3); }
    }
    for s in &c.structs {
        let mut done = false;
        for i in &file.items {
            let ts = match i {
                Item::Struct(x) if x.ident == *s => { let mut x = x.clone(); x.attrs.clear(); x.vis = parse_quote!(pub); for f in x.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); } x.into_token_stream() }
                Item::Enum(x) if x.ident == *s => { let mut x = x.clone(); let eq = x.attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("PartialEq")); x.attrs.clear(); if eq { x.attrs.push(parse_quote!(#[derive(Clone, Copy, PartialEq, Eq, Structural)])); } x.vis = parse_quote!(pub); for v in x.variants.iter_mut() { v.attrs.clear(); } x.into_token_stream() }
                _ => continue,
            };
            let t = print(ts, &[]).replace("slice :: Iter", "core::slice::Iter").replace("slice ::Iter", "core::slice::Iter");
            out.push_str(&t);
            done = true;
        }
        if !done { eprintln!("LOST type {}", s); std::process::exit(3); }
    }
    // functions and methods that are new: they have no contract, so they are put in where they are called
    let mut helpers = HashMap::new();
    if let Some(pf) = &pfile {
        let old: Vec<String> = functions(pf).iter().map(|f| f.0.ident.to_string()).collect();
        for (sig, b) in functions(&file) {
            let n = sig.ident.to_string();
            if !old.contains(&n) && lower::inlinable(sig, b) { helpers.insert(n, (sig.clone(), b.clone())); }
        }
    }
    // R15
    let mut consts = vec![];
    for i in &file.items {
        if let Item::Const(k) = i {
            if let (Expr::Reference(r), "&[&str]") = (&*k.expr, &k.ty.to_token_stream().to_string().replace(' ', "")[..]) {
                if let Expr::Array(a) = &*r.expr {
                    let (n, e) = (&k.ident, &a.elems);
                    consts.push(n.to_string());
                    out.push_str(&print(quote!(#[verifier::external_body] pub fn #n() -> (r: &'static [&'static str]) ensures r@ == seq![#e], { &[#e] }), &[]));
                }
            }
        }
    }
    // R21
    let mays: Vec<String> = c.fns.iter().filter(|f| f.1.contains_key("may")).map(|f| f.0.clone()).collect();
    let mut index = vec![];
    for (name, contract) in &c.fns {
        let Some((im, sig, block)) = find(&file, name) else { eprintln!("LOST function {}", name); std::process::exit(3) };
        let mut contract = contract.clone();
        let (mut same, mut taken, mut pshape, mut pquotes, mut numbers) = (false, false, (0, 0, 0, 0), vec![], None);
        let first = out.lines().count() + 1;
        if let Some((_, psig, pblock)) = pfile.as_ref().and_then(|f| find(f, name)) {
            let (mut then, mut now) = (vec![], vec![]);
            flat(quote!(#psig #pblock), &mut then);
            flat(quote!(#sig #block), &mut now);
            let m = renaming(&then, &now);
            same = m.is_some();
            let m = m.unwrap_or_else(|| renaming_around(&then, &now));
            for (k, v) in contract.iter_mut() { if k != "props" { *v = rename(v, &m); } }
            let mut l = lower::Lower::new(&contract);
            l.function(pblock);
            pshape = l.shape();
            pquotes = l.quotes;
            // loops keep their numbers where others were taken away
            let mut t = lower::Lower::new(&contract);
            t.helpers = helpers.clone();
            t.consts = consts.clone();
            t.function(block);
            let back: HashMap<String, String> = m.iter().map(|(a, b)| (b.clone(), a.clone())).collect();
            let names = |v: &std::collections::BTreeMap<usize, String>| v.values().map(|k| digits(&rename(k, &back))).collect::<Vec<_>>();
            let now: Vec<String> = now.iter().map(|t| back.get(t).unwrap_or(t).clone()).collect();
            taken = places(&now, &then).is_some();
            if t.keys.len() < l.keys.len() && taken { if let Some(v) = places(&names(&t.keys), &names(&l.keys)) { numbers = Some(v); } }
        }
        let mut sig = sig.clone();
        let mut l = lower::Lower::new(&contract);
        l.helpers = helpers.clone();
        l.consts = consts.clone();
        l.mays = mays.clone();
        l.numbers = numbers;
        let block = l.function(block);
        // existential return types become the concrete type named in the contract
        let ret: Type = match (&sig.output, contract.get("returns")) {
            (_, Some(t)) => parse_str(t.trim()).expect("returns"),
            (ReturnType::Type(_, t), None) => (**t).clone(),
            (ReturnType::Default, None) => parse_quote!(()),
        };
        sig.output = ReturnType::Default;
        if let Some(p) = contract.get("params") {
            let x: Signature = parse_str(&format!("fn f({})", p.trim())).expect("params");
            sig.inputs = x.inputs;
            sig.generics = Default::default();
        }
        if contract.contains_key("may") { sig.inputs.push(parse_quote!(__may: Ghost<bool>)); }
        let head = print(quote!(#sig), &[]);
        let mut f = String::new();
        let ret = print(quote!(#ret), &[]);
        let skip = skipped.contains(name);
        if skip { f.push_str("#[verifier::external_body]\n"); }
        f.push_str(&format!("{}pub {} -> (r: {})\n{}", contract.get("attrs").cloned().unwrap_or_default(), head, ret, contract.get("spec").cloned().unwrap_or_default()));
        f.push_str(&if skip { "{ unimplemented!() }\n".to_string() } else { print(quote!(#block), &l.texts) });
        match im {
            Some(im) => { let (g, _, w) = im.generics.split_for_impl(); let t = &im.self_ty; out.push_str(&format!("{} {{\n{}}}\n", print(quote!(impl #g #t #w), &[]), f)); }
            None => out.push_str(&f),
        }
        let props: Vec<String> = contract.get("props").map(|p| p.split_whitespace().map(|x| format!("\"{}\"", x)).collect()).unwrap_or_default();
        index.push(format!("{{\"name\": \"{}\", \"first\": {}, \"last\": {}, \"same\": {}, \"shape\": {}, \"loops\": {}, \"quotes\": {}, \"props\": [{}]}}", name, first, out.lines().count(), same, same || taken || l.shape() == pshape, same || taken || l.shape().0 == pshape.0, same || l.quotes.iter().all(|q| pquotes.contains(q)), props.join(", ")));
    }
    out.push_str("}\nfn main() {}\n");
    std::fs::write(&a[3], out).expect("write");
    std::fs::write(format!("{}.json", a[3]), format!("[{}]", index.join(",\n"))).expect("write");
}
