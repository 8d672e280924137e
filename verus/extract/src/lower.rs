//! The rewrite rules for function bodies.
use crate::Contract;
use quote::{format_ident, quote, ToTokens};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Lower<'a> {
    c: &'a Contract,
    pub texts: Vec<String>,
    loops: usize,
    rejects: usize,
    returns: usize,
    /// R11: closures bound to a variable, put in where they are called
    closures: HashMap<String, ExprClosure>,
    calls: HashMap<String, usize>,
    /// R14: functions the proof doesn't know, put in where they are called
    pub helpers: HashMap<String, (Signature, Block)>,
    depth: usize,
    /// R15: constants that are lists of texts
    pub consts: Vec<String>,
    unwraps: usize,
    /// what the loops are over; and for these, their numbers in the proof
    pub keys: std::collections::BTreeMap<usize, String>,
    pub numbers: Option<Vec<usize>>,
    /// R21: functions that are told whether they may reject
    pub mays: Vec<String>,
    /// R20: the texts of the `quote!`s
    pub quotes: Vec<String>,
}

#[derive(Clone)]
enum Ad { Map(ExprClosure), Filter(ExprClosure), FilterMap(ExprClosure), FlatMap(ExprClosure), Enumerate(Ident), Skip(Ident) }

fn method(e: &Expr) -> Option<&ExprMethodCall> { if let Expr::MethodCall(m) = e { Some(m) } else { None } }
fn closure(e: &Expr) -> Option<ExprClosure> { if let Expr::Closure(c) = e { Some(c.clone()) } else { None } }
/// the expression a closure's body amounts to
fn body(c: &ExprClosure) -> Expr { (*c.body).clone() }
fn pat(p: &Pat) -> Pat { if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() } }

impl<'a> Lower<'a> {
    pub fn new(c: &'a Contract) -> Self { Lower { c, texts: vec![], loops: 0, rejects: 0, returns: 0, closures: HashMap::new(), calls: HashMap::new(), helpers: HashMap::new(), depth: 0, consts: vec![], unwraps: 0, keys: Default::default(), numbers: None, mays: vec![], quotes: vec![] } }
    /// loops, rejections, returns, unwraps
    pub fn shape(&self) -> (usize, usize, usize, usize) { (self.loops, self.rejects, self.returns, self.unwraps) }
    fn num(&self, n: usize) -> usize { match &self.numbers { Some(v) => v.get(n).copied().unwrap_or(n + 1000), None => n } }
    fn text(&mut self, t: String) -> usize { self.texts.push(t); self.texts.len() - 1 }
    fn hint(&mut self, key: &str) -> TokenStreamStmt {
        match self.c.get(key) {
            Some(t) => { let k = self.text(t.clone()); let k = Index::from(k); TokenStreamStmt(quote!(__h!(#k);)) }
            None => TokenStreamStmt(quote!()),
        }
    }
    pub fn function(&mut self, b: &Block) -> Block {
        let mut b = b.clone();
        // R16: an iterator that is returned becomes the vector of what it yields
        if self.c.contains_key("collect") { if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            let t: Type = self.c.get("returns").and_then(|t| parse_str(t.trim()).ok()).unwrap_or_else(|| parse_quote!(Vec<_>));
            *e = parse_quote!(#e.collect::<#t>());
        } }
        self.visit_block_mut(&mut b);
        let entry = self.hint("entry");
        let tail = self.hint("tail");
        let stmts = b.stmts.clone();
        let n = stmts.len();
        if let Some(Stmt::Expr(e, None)) = stmts.last() {
            let init = &stmts[..n - 1];
            if let Some(t) = self.c.get("result") {
                let k = Index::from(self.text(t.clone()));
                return parse_quote!({ #entry #(#init)* #tail let result = #e; __h!(#k); result });
            }
            return parse_quote!({ #entry #(#init)* #tail #e });
        }
        parse_quote!({ #entry #(#stmts)* #tail })
    }
    fn reject(&mut self) -> Expr {
        let n = self.rejects;
        self.rejects += 1;
        let t = self.c.get(&format!("reject {}", n)).or_else(|| self.c.get("reject")).cloned().unwrap_or_else(|| "false".into());
        let k = Index::from(self.text(t));
        let h = self.hint(&format!("reject {} proof", n));
        let r: Expr = parse_quote!(__reject!(#k));
        if self.c.contains_key(&format!("reject {} proof", n)) { parse_quote!({ #h #r }) } else { r }
    }
    /// A loop over an iterator chain: source, adapters, and what to do with each item.
    fn chain(&mut self, e: &Expr, ads: Vec<Ad>, pre: &mut Vec<Stmt>, sink: &mut dyn FnMut(&mut Self, Expr) -> Vec<Stmt>, guard: Option<Expr>) -> Option<Vec<Stmt>> {
        let mut ads = ads;
        if let Some(m) = method(e) {
            let arg = m.args.first();
            // closures, or variables bound to them
            let known = |e: &Expr| closure(e).or_else(|| if let Expr::Path(p) = e { p.path.get_ident().and_then(|i| self.closures.get(&i.to_string()).cloned()) } else { None });
            if m.method == "chain" {
                let mut st = self.chain(&m.receiver, ads.clone(), pre, sink, guard.clone())?;
                st.extend(self.chain(arg?, ads, pre, sink, guard)?);
                return Some(st);
            }
            if m.method == "map" && matches!(&*m.receiver, Expr::MethodCall(r) if r.method == "as_ref") {
                // an option
                let e = self.option_map(m)?;
                return self.source(parse_quote!(v_items(#e)), ads, pre, sink, guard);
            }
            let ad = match &m.method.to_string()[..] {
                "map" => known(arg?).map(Ad::Map),
                "filter" => closure(arg?).map(Ad::Filter),
                "filter_map" => closure(arg?).map(Ad::FilterMap),
                "flat_map" => closure(arg?).map(Ad::FlatMap),
                "enumerate" => { let n = format_ident!("__c{}", self.num(self.loops) + pre.len()); pre.push(parse_quote!(let mut #n: usize = 0;)); Some(Ad::Enumerate(n)) }
                "skip" => { let n = format_ident!("__k{}", self.num(self.loops) + pre.len()); pre.push(parse_quote!(let mut #n: usize = #arg;)); Some(Ad::Skip(n)) }
                "cloned" => closure(&parse_quote!(|x| x.clone())).map(Ad::Map),
                _ => None,
            };
            if let Some(ad) = ad { ads.insert(0, ad); return self.chain(&m.receiver, ads, pre, sink, guard); }
        }
        // the source
        let src: Expr = match method(e) {
            Some(m) if m.args.is_empty() && m.method == "iter" => { let r = &m.receiver; parse_quote!(#r.v_iter()) }
            Some(m) if m.args.is_empty() && m.method == "values" => { let r = &m.receiver; parse_quote!(#r.v_values()) }
            Some(m) if m.args.is_empty() && m.method == "chars" => { let r = &m.receiver; parse_quote!(#r.v_chars()) }
            Some(m) if m.args.is_empty() && m.method == "into_iter" => { let r = &m.receiver; parse_quote!(v_items(#r)) }
            Some(m) if m.args.len() == 1 && m.method == "split" => { let (r, a) = (&m.receiver, &m.args); parse_quote!(#r.v_split(#a)) }
            Some(_) => return None,
            None => { let e = e.clone(); parse_quote!(v_items(#e)) }
        };
        self.source(src, ads, pre, sink, guard)
    }
    fn source(&mut self, src: Expr, ads: Vec<Ad>, _pre: &mut Vec<Stmt>, sink: &mut dyn FnMut(&mut Self, Expr) -> Vec<Stmt>, guard: Option<Expr>) -> Option<Vec<Stmt>> {
        let n = self.num(self.loops);
        self.keys.insert(self.loops, src.to_token_stream().to_string());
        self.loops += 1;
        let (s, g, i, x) = (format_ident!("__s{}", n), format_ident!("__g{}", n), format_ident!("__i{}", n), format_ident!("__x{}", n));
        let before = self.hint(&format!("loop {} before", n));
        let start = self.hint(&format!("loop {} start", n));
        let end = self.hint(&format!("loop {} end", n));
        let after = self.hint(&format!("loop {} after", n));
        let inv = self.c.get(&format!("loop {} inv", n)).cloned().unwrap_or_default();
        let auto = format!("invariant 0 <= {i} <= {g}.len() <= usize::MAX, {s}@ == {g}.skip({i}),\n{inv}", i = i, g = g, s = s, inv = inv);
        let k = Index::from(self.text(format!("{}decreases {}.len(),\n", auto, s)));
        let k0 = Index::from(self.text(format!("let ghost {g} = {s}@; let ghost mut {i}: int = 0; proof {{ assert({s}@ =~= {g}.skip(0)); }}\n", g = g, s = s, i = i)));
        let k1 = Index::from(self.text(format!("proof {{ assert({s}@[0] == {g}[{i}]); assert({s}@.drop_first() =~= {g}.skip({i} + 1)); {i} = {i} + 1; }}\n", g = g, s = s, i = i)));
        let mut inner = self.adapt(parse_quote!(#x), ads, sink, &guard)?;
        if let Some(gd) = guard { inner = vec![parse_quote!(if #gd { #(#inner)* })]; }
        let b: Block = parse_quote!({ let mut #s = #src; __h!(#k0); #before
            while #s.len() > 0 { __inv!(#k); __h!(#k1); let #x = #s.remove(0); #start #(#inner)* #end } #after });
        Some(b.stmts)
    }
    fn adapt(&mut self, item: Expr, mut ads: Vec<Ad>, sink: &mut dyn FnMut(&mut Self, Expr) -> Vec<Stmt>, guard: &Option<Expr>) -> Option<Vec<Stmt>> {
        if ads.is_empty() { return Some(sink(self, item)); }
        let ad = ads.remove(0);
        let y = format_ident!("__y{}", self.loops * 10 + ads.len());
        Some(match ad {
            Ad::Map(c) => { let (p, b) = (pat(&c.inputs[0]), body(&c)); let r = self.adapt(parse_quote!(#y), ads, sink, guard)?; parse_quote!(let #y = { let #p = #item; #b }; #(#r)*) }
            Ad::Filter(c) => { let (p, b) = (pat(&c.inputs[0]), body(&c)); let r = self.adapt(parse_quote!(#y), ads, sink, guard)?; parse_quote!(let #y = #item; if { let #p = &#y; #b } { #(#r)* }) }
            Ad::FilterMap(c) => { let (p, b) = (pat(&c.inputs[0]), body(&c)); let r = self.adapt(parse_quote!(#y), ads, sink, guard)?; parse_quote!(match { let #p = #item; #b } { Some(#y) => { #(#r)* } None => {} }) }
            Ad::FlatMap(c) => {
                let (p, b) = (pat(&c.inputs[0]), body(&c));
                let b = if let Expr::Block(b) = b { if b.block.stmts.len() == 1 { if let Stmt::Expr(e, None) = &b.block.stmts[0] { e.clone() } else { return None } } else { return None } } else { b };
                let mut pre = vec![];
                let r = self.chain(&b, ads, &mut pre, sink, guard.clone())?;
                parse_quote!(let #p = #item; #(#pre)* #(#r)*)
            }
            Ad::Enumerate(n) => { let r = self.adapt(parse_quote!(#y), ads, sink, guard)?; parse_quote!(let #y = (#n, #item); #n = #n + 1; #(#r)*) }
            Ad::Skip(n) => { let r = self.adapt(parse_quote!(#y), ads, sink, guard)?; parse_quote!(let #y = #item; if #n > 0 { #n = #n - 1; } else { #(#r)* }) }
        })
    }
    /// R4: what can't be unwrapped is rejected
    fn unwrapped(&mut self, r: &Expr) -> Expr {
        let n = self.unwraps;
        self.unwraps += 1;
        let t = self.c.get(&format!("unwrap {}", n)).or_else(|| self.c.get("unwrap")).cloned().unwrap_or_else(|| "false".into());
        let k = Index::from(self.text(t));
        parse_quote!(#r.v_unwrap(__unwrap!(#k)))
    }
    /// R17: `map` on options
    fn option_map(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let c = match &m.args[0] { Expr::Closure(c) => c.clone(), Expr::Path(p) => self.closures.get(&p.path.get_ident()?.to_string())?.clone(), _ => return None };
        let (r, p, b) = (&m.receiver, pat(&c.inputs[0]), body(&c));
        Some(parse_quote!(match #r { Some(#p) => Some(#b), None => None }))
    }
    /// R1: `for p in a.zip(b)` over custom iterators
    fn zip(&mut self, p: &Pat, a: &Expr, b: &Expr, blk: &Block) -> Expr {
        let n = self.num(self.loops);
        self.keys.insert(self.loops, String::from("zip"));
        self.loops += 1;
        let (ia, ib) = (format_ident!("__a{}", n), format_ident!("__b{}", n));
        let before = self.hint(&format!("loop {} before", n));
        let start = self.hint(&format!("loop {} start", n));
        let end = self.hint(&format!("loop {} end", n));
        let after = self.hint(&format!("loop {} after", n));
        let k = Index::from(self.text(self.c.get(&format!("loop {} inv", n)).cloned().unwrap_or_default()));
        let s = &blk.stmts;
        parse_quote!({ let mut #ia = #a; let mut #ib = #b; #before
            loop { __inv!(#k); match (match #ia.next() { None => None, Some(x) => match #ib.next() { None => None, Some(y) => Some((x, y)) } }) {
                None => break,
                Some(#p) => { #start #(#s)* #end }
            } } #after })
    }
    /// R14
    fn inlined(&mut self, e: &Expr) -> Option<Expr> {
        if self.depth > 4 { return None }
        let (name, recv, args) = match e {
            Expr::Call(c) => match &*c.func { Expr::Path(p) => (p.path.segments.last()?.ident.to_string(), None, c.args.iter().cloned().collect::<Vec<_>>()), _ => return None },
            Expr::MethodCall(m) => (m.method.to_string(), Some((*m.receiver).clone()), m.args.iter().cloned().collect()),
            _ => return None,
        };
        let (sig, body) = self.helpers.get(&name)?.clone();
        let mut st: Vec<Stmt> = vec![];
        let mut args = args.into_iter();
        let me = format_ident!("__self{}", self.depth);
        let mut has_self = false;
        for i in &sig.inputs {
            match i {
                FnArg::Receiver(r) => {
                    has_self = true;
                    let x = match recv.clone() { Some(x) => x, None => args.next()? };
                    st.push(match &r.kind {
                        ReceiverKind::Reference(_, _, m) if recv.is_some() => if m.is_some() { parse_quote!(let #me = &mut #x;) } else { parse_quote!(let #me = &#x;) },
                        _ => parse_quote!(let #me = #x;),
                    });
                }
                FnArg::Typed(t) => {
                    let (p, a) = (&t.pat, args.next()?);
                    let ty = &t.ty;
                    let plain = !ty.to_token_stream().to_string().contains("impl ") && !ty.to_token_stream().to_string().contains("'") && sig.generics.params.is_empty();
                    st.push(if plain { parse_quote!(let #p: #ty = #a;) } else { parse_quote!(let #p = #a;) });
                }
            }
        }
        if recv.is_some() != has_self && recv.is_some() { return None }
        let body: Block = syn::parse2(rename_self(body.into_token_stream(), &me)).ok()?;
        let b = &body.stmts;
        Some(parse_quote!({ #(#st)* #(#b)* }))
    }
    /// R20: the text of a `quote!`, and what is put into it
    fn quoted(&mut self, m: &Macro) -> Option<Expr> {
        let (mut args, mut text) = (vec![], vec![]);
        interpolated(m.tokens.clone(), &mut args, &mut text)?;
        if text.iter().all(|t| t.starts_with('#')) {
            if let [a] = &args[..] { return Some(parse_quote!(v_tokens(&#a))) }
            self.quotes.push(text.join(" "));
            return Some(parse_quote!({ let mut __q = Quoted::new(); #(__q.add(&#args);)* __q.list() }));
        }
        let text = text.join(" ");
        self.quotes.push(text.clone());
        Some(parse_quote!({ let mut __q = Quoted::new(); #(__q.add(&#args);)* __q.done(#text) }))
    }
    /// R5
    fn format(&mut self, m: &Macro) -> Option<Expr> {
        let args: punctuated::Punctuated<Expr, Token![,]> = m.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
        let mut args = args.into_iter();
        let Expr::Lit(ExprLit { lit: Lit::Str(f), .. }) = args.next()? else { return None };
        let f = f.value();
        let mut st: Vec<Stmt> = vec![];
        let mut parts = f.split("{}");
        let first = parts.next()?;
        if !first.is_empty() { st.push(parse_quote!(__f.push_str(#first);)); }
        for p in parts {
            let a = args.next()?;
            st.push(parse_quote!(__f.push_str(&text_of(&#a));));
            if !p.is_empty() { st.push(parse_quote!(__f.push_str(#p);)); }
        }
        if args.next().is_some() || f.replace("{}", "").contains(|c| c == '{' || c == '}') { return None }
        Some(parse_quote!({ let mut __f = String::new(); #(#st)* __f }))
    }
}
fn interpolated(ts: proc_macro2::TokenStream, args: &mut Vec<Ident>, text: &mut Vec<String>) -> Option<()> {
    use proc_macro2::TokenTree as T;
    let ts: Vec<T> = ts.into_iter().collect();
    let mut i = 0;
    while i < ts.len() {
        match (&ts[i], ts.get(i + 1)) {
            (T::Punct(p), Some(T::Ident(x))) if p.as_char() == '#' => { text.push(format!("#{}", args.len())); args.push(x.clone()); i += 2; }
            // `#(#x)*`
            (T::Punct(p), Some(T::Group(g))) if p.as_char() == '#' && g.delimiter() == proc_macro2::Delimiter::Parenthesis => {
                let inner: Vec<T> = g.stream().into_iter().collect();
                match (&inner[..], ts.get(i + 2)) {
                    ([T::Punct(p), T::Ident(x)], Some(T::Punct(s))) if p.as_char() == '#' && s.as_char() == '*' => { text.push(format!("#{}", args.len())); args.push(x.clone()); i += 3; }
                    _ => return None,
                }
            }
            (T::Group(g), _) => {
                let (a, b) = match g.delimiter() { proc_macro2::Delimiter::Parenthesis => ("(", ")"), proc_macro2::Delimiter::Brace => ("{", "}"), proc_macro2::Delimiter::Bracket => ("[", "]"), _ => ("", "") };
                text.push(a.into()); interpolated(g.stream(), args, text)?; text.push(b.into()); i += 1;
            }
            (t, _) => { text.push(t.to_string()); i += 1; }
        }
    }
    Some(())
}
fn rename_self(ts: proc_macro2::TokenStream, to: &Ident) -> proc_macro2::TokenStream {
    ts.into_iter().map(|t| match t {
        proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::TokenTree::Ident(to.clone()),
        proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), rename_self(g.stream(), to))),
        t => t,
    }).collect()
}
/// whether a function can be put in where it is called
pub fn inlinable(sig: &Signature, b: &Block) -> bool {
    struct R(bool);
    impl<'a> syn::visit::Visit<'a> for R {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut r = R(false);
    syn::visit::Visit::visit_block(&mut r, b);
    let _ = sig;
    !r.0
}
pub struct TokenStreamStmt(proc_macro2::TokenStream);
impl ToTokens for TokenStreamStmt { fn to_tokens(&self, t: &mut proc_macro2::TokenStream) { t.extend(self.0.clone()) } }

fn is_reject(m: &Macro) -> bool { let n = m.path.segments.last().unwrap().ident.to_string(); n == "panic" || n == "unreachable" }
fn str_lit(e: &Expr) -> bool { matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) }

impl<'a> VisitMut for Lower<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // R11: take closures bound to a variable
        let mut keep = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &s {
                if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = &*i.expr { self.closures.insert(p.ident.to_string(), c.clone()); continue }
                }
            }
            keep.push(s);
        }
        b.stmts = keep;
        for s in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = s {
                if is_reject(&m.mac) { let r = self.reject(); *s = Stmt::Expr(r, Some(Default::default())); continue }
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if n == "assert" {
                    // R3
                    if let Ok(a) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                        let mut c = a[0].clone();
                        self.visit_expr_mut(&mut c);
                        let r = self.reject();
                        *s = parse_quote!(if !(#c) { #r; });
                        continue
                    }
                }
            }
            self.visit_stmt_mut(s);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(mut x) = self.inlined(e) {
            self.depth += 1;
            self.visit_expr_mut(&mut x);
            self.depth -= 1;
            *e = x;
            return
        }
        // loops over chains first: their parts are visited as they are put together
        if let Expr::ForLoop(f) = e {
            if let Some(m) = method(&f.expr) {
                if m.method == "zip" && m.args.len() == 1 {
                    let (p, mut a, mut b, mut blk) = ((*f.pat).clone(), (*m.receiver).clone(), m.args[0].clone(), f.body.clone());
                    self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
                    // the loop's number precedes those of loops inside
                    let n = self.loops; self.loops += 1;
                    self.visit_block_mut(&mut blk);
                    let k = self.loops; self.loops = n;
                    let mut x = self.zip(&p, &a, &b, &blk);
                    self.loops = k;
                    std::mem::swap(e, &mut x);
                    return
                }
            }
            let (p, blk) = ((*f.pat).clone(), f.body.clone());
            let src = (*f.expr).clone();
            let mut pre = vec![];
            let mut sink = |_: &mut Self, item: Expr| -> Vec<Stmt> { let st = &blk.stmts; parse_quote!(let #p = #item; #(#st)*) };
            if let Some(mut st) = self.chain(&src, vec![], &mut pre, &mut sink, None) {
                for s in st.iter_mut() { self.visit_stmt_mut(s); }
                *e = parse_quote!({ #(#pre)* #(#st)* });
                return
            }
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let mut pre: Vec<Stmt> = vec![];
            let o = format_ident!("__o{}", self.num(self.loops));
            let src = m.receiver.clone();
            let (init, st): (Expr, _) = match &name[..] {
                "collect" => {
                    let mut sink = |_: &mut Self, item: Expr| -> Vec<Stmt> { parse_quote!(#o.push(#item);) };
                    (parse_quote!(Vec::new()), self.chain(&src, vec![], &mut pre, &mut sink, None))
                }
                "count" if m.args.is_empty() => {
                    let mut sink = |_: &mut Self, item: Expr| -> Vec<Stmt> { parse_quote!(let _ = #item; #o = #o + 1;) };
                    (parse_quote!(0usize), self.chain(&src, vec![], &mut pre, &mut sink, None))
                }
                "all" | "any" if m.args.len() == 1 && closure(&m.args[0]).is_some() => {
                    let c = closure(&m.args[0]).unwrap();
                    let (p, b) = (pat(&c.inputs[0]), body(&c));
                    let all = name == "all";
                    let mut sink = |_: &mut Self, item: Expr| -> Vec<Stmt> {
                        if all { parse_quote!(if !{ let #p = #item; #b } { #o = false; }) } else { parse_quote!(if { let #p = #item; #b } { #o = true; }) }
                    };
                    // they stop at the first item that decides
                    (parse_quote!(#all), self.chain(&src, vec![], &mut pre, &mut sink, Some(if all { parse_quote!(#o) } else { parse_quote!(!#o) })))
                }
                "find" if m.args.len() == 1 && closure(&m.args[0]).is_some() => {
                    let c = closure(&m.args[0]).unwrap();
                    let (p, b) = (pat(&c.inputs[0]), body(&c));
                    let f = format_ident!("__f{}", self.num(self.loops));
                    let mut sink = |_: &mut Self, item: Expr| -> Vec<Stmt> { parse_quote!(let #f = #item; if { let #p = &#f; #b } { #o = Some(#f); }) };
                    (parse_quote!(None), self.chain(&src, vec![], &mut pre, &mut sink, Some(parse_quote!(#o.is_none()))))
                }
                _ => (parse_quote!(()), None),
            };
            if let Some(mut st) = st {
                for s in st.iter_mut() { self.visit_stmt_mut(s); }
                let ty: Vec<&GenericArgument> = m.turbofish.iter().flat_map(|t| t.args.iter()).collect();
                *e = if ty.is_empty() { parse_quote!({ let mut #o = #init; #(#pre)* #(#st)* #o }) } else { parse_quote!({ let mut #o: #(#ty)* = #init; #(#pre)* #(#st)* #o }) };
                return
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "map" && m.args.len() == 1 { if let Some(mut x) = self.option_map(m) { self.visit_expr_mut(&mut x); *e = x; return } }
        }
        // R18: slices matched against one element
        if let Expr::Match(m) = e {
            if m.arms.iter().any(|a| matches!(&a.pat, Pat::Slice(_))) && m.arms.iter().all(|a| matches!(&a.pat, Pat::Slice(s) if s.elems.len() == 1) || matches!(&a.pat, Pat::Wild(_))) {
                let x = &m.expr;
                m.expr = parse_quote!(v_only(#x));
                for a in m.arms.iter_mut() { if let Pat::Slice(s) = &a.pat { let p = &s.elems[0]; a.pat = parse_quote!(Some(#p)); } }
            }
        }
        if let Expr::Path(p) = e {
            // R15
            if let Some(i) = p.path.get_ident() { if self.consts.contains(&i.to_string()) { *e = parse_quote!(#i()); return } }
        }
        if let Expr::Macro(m) = e {
            if is_reject(&m.mac) { *e = self.reject(); return }
            if m.mac.path.is_ident("quote") { if let Some(x) = self.quoted(&m.mac) { *e = x; return } }
            if m.mac.path.is_ident("format") { if let Some(mut x) = self.format(&m.mac) { self.visit_expr_mut(&mut x); *e = x; return } }
        }
        if let Expr::Call(c) = e {
            // R11
            if let Expr::Path(p) = &*c.func {
                if let Some(id) = p.path.get_ident() {
                    if let Some(cl) = self.closures.get(&id.to_string()).cloned() {
                        let ps: Vec<Pat> = cl.inputs.iter().map(pat).collect();
                        let (args, b) = (c.args.iter(), body(&cl));
                        let mut x: Expr = parse_quote!({ #(let #ps = #args;)* #b });
                        self.visit_expr_mut(&mut x);
                        *e = x;
                        return
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Return(r) => {
                let n = self.returns;
                self.returns += 1;
                let key = if self.c.contains_key(&format!("return {}", n)) { format!("return {}", n) } else { "return".to_string() };
                if self.c.contains_key(&key) { let h = self.hint(&key); let r = r.clone(); *e = parse_quote!({ #h #r; }); }
            }
            Expr::Reference(r) if matches!(&*r.expr, Expr::Array(a) if a.elems.is_empty()) => *e = parse_quote!(v_empty()),
            // R9: slices of strings
            Expr::Reference(r) => if let Expr::Index(ix) = &*r.expr {
                if let Expr::Range(rg) = &*ix.index {
                    let x = &ix.expr;
                    let a: Expr = rg.start.as_ref().map(|e| (**e).clone()).unwrap_or_else(|| parse_quote!(0));
                    let b: Expr = rg.end.as_ref().map(|e| (**e).clone()).unwrap_or_else(|| parse_quote!(#x.vlen()));
                    if matches!(rg.limits, RangeLimits::HalfOpen(_)) { *e = parse_quote!(str_slice(&#x, #a, #b)); }
                }
            },
            Expr::MethodCall(m) => {
                let r = m.receiver.clone();
                let name = m.method.to_string();
                if self.c.keys().any(|k| k.starts_with(&format!("call {} ", name))) {
                    let n = self.calls.entry(name.clone()).or_default();
                    let key = format!("call {} {}", name, *n);
                    *n += 1;
                    let h = self.hint(&key);
                    let ps: Vec<Ident> = (0..m.args.len()).map(|i| format_ident!("__p{}", i)).collect();
                    let (args, f) = (m.args.iter(), &m.method);
                    *e = parse_quote!({ #(let #ps = #args;)* #h #r.#f(#(#ps),*) });
                    return
                }
                match &name[..] {
                    "len" if m.args.is_empty() && !r.to_token_stream().to_string().starts_with("__s") => *e = parse_quote!(#r.vlen()),
                    // R4
                    "unwrap" | "expect" => if let Expr::Call(c) = &*r {
                        if c.func.to_token_stream().to_string().replace(' ', "") == "Regex::new" { let a = &c.args; *e = parse_quote!(Regex::compiled(#a)); return }
                        let x = self.unwrapped(&r); *e = x;
                    } else { let x = self.unwrapped(&r); *e = x; },
                    // R19
                    "contains" | "first" | "split_first" | "join" | "to_lowercase" | "to_uppercase" => m.method = format_ident!("v_{}", m.method),
                    // R10
                    "starts_with" | "ends_with" => {
                        let (a, f) = (m.args[0].clone(), m.method.clone());
                        let f = format_ident!("str_{}_{}", f, if str_lit(&a) { "str" } else { "char" });
                        *e = parse_quote!(#f(&#r, #a));
                    }
                    // R13
                    "clone" if m.args.is_empty() => *e = parse_quote!(#r.v_clone()),
                    "sort" if m.args.is_empty() => *e = parse_quote!(#r.v_sort()),
                    "dedup" if m.args.is_empty() => *e = parse_quote!(#r.v_dedup()),
                    _ => {}
                }
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                // R12
                if self.c.keys().any(|k| k.starts_with(&format!("call {} ", f))) {
                    let n = self.calls.entry(f.clone()).or_default();
                    let key = format!("call {} {}", f, *n);
                    *n += 1;
                    let h = self.hint(&key);
                    let c = c.clone();
                    *e = parse_quote!({ #h #c });
                    return
                }
                if self.mays.contains(&f) {
                    let t = self.c.get("reject").cloned().unwrap_or_else(|| "false".into());
                    let k = Index::from(self.text(t));
                    c.args.push(parse_quote!(__unwrap!(#k)));
                }
                if f == "ByProxy::new" && c.args.len() == 2 && c.args[1].to_token_stream().to_string().replace(' ', "") == "Regex::as_str" { let a = c.args[0].clone(); *e = parse_quote!(ByProxy::by_text(#a)); }
                else if f == "regex_syntax::escape_into" { let a = &c.args; *e = parse_quote!(escape_into(#a)); }
            }
            _ => {}
        }
    }
}
