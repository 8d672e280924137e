//! Reference semantics, written from the property statements (not from the implementation).
use crate::types::*;
use std::collections::BTreeSet;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum CtxSel {
    No,
    Whole,
    Sub,
}
#[derive(Debug, Clone, Copy)]
pub enum Ty {
    Tok(u8),
    U32,
    Str,
    Q(fn(&str) -> Result<String, String>),
    G(u8, CtxSel),
    B(u8, CtxSel),
    F(u8, CtxSel),
    FProg(&'static Prog),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Role {
    Ph,
    Query,
    Guard,
    Body,
    Fwd,
}
#[derive(Debug)]
pub struct Field {
    pub name: &'static str,
    pub role: Role,
    pub ty: Ty,
}
#[derive(Debug)]
pub struct Variant {
    pub name: &'static str,
    pub routes: &'static [(&'static str, &'static str)],
    pub fields: &'static [Field],
}
pub struct Prog {
    pub name: &'static str,
    pub tags: &'static [&'static str],
    pub src: &'static str,
    pub variants: &'static [Variant],
    pub run: fn(Entry, hyperdrive::http::Request<hyperdrive::hyper::Body>, u32) -> Got,
}
impl std::fmt::Debug for Prog {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.name)
    }
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Entry {
    AndBody,
    Whole,
    Sync,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Got {
    pub res: Result<Obs, ErrObs>,
    pub log: Vec<Ev>,
}

// ------------------------------------------------------------------ patterns

#[derive(Debug, Clone, PartialEq)]
pub enum Seg {
    Lit(String),
    Ph(String),
    Rest(String),
}
/// `None` is the `*` pattern
pub fn pattern(p: &str) -> Option<Vec<Seg>> {
    if p == "*" {
        return None;
    }
    assert!(p.starts_with('/'));
    Some(
        p[1..]
            .split('/')
            .map(|s| {
                if s.starts_with('{') && s.ends_with("...}") {
                    Seg::Rest(s[1..s.len() - 4].to_string())
                } else if s.starts_with('{') && s.ends_with('}') {
                    Seg::Ph(s[1..s.len() - 1].to_string())
                } else {
                    Seg::Lit(s.to_string())
                }
            })
            .collect(),
    )
}
/// Matches the whole path, returning what each placeholder received.
pub fn matches(p: &Option<Vec<Seg>>, path: &str) -> Option<Vec<(String, String)>> {
    let segs = match p {
        None => return if path == "*" { Some(vec![]) } else { None },
        Some(s) => s,
    };
    let mut rest = path;
    let mut caps = vec![];
    for s in segs {
        if !rest.starts_with('/') {
            return None;
        }
        rest = &rest[1..];
        let end = rest.find('/').unwrap_or(rest.len());
        match s {
            Seg::Lit(l) => {
                if &rest[..end] != l {
                    return None;
                }
                rest = &rest[end..];
            }
            Seg::Ph(n) => {
                if end == 0 {
                    return None;
                }
                caps.push((n.clone(), rest[..end].to_string()));
                rest = &rest[end..];
            }
            Seg::Rest(n) => {
                caps.push((n.clone(), rest.to_string()));
                rest = "";
            }
        }
    }
    if rest.is_empty() {
        Some(caps)
    } else {
        None
    }
}

// ------------------------------------------------------------------ requests

#[derive(Debug, Clone)]
pub struct Rq {
    pub method: String,
    pub uri: String,
    pub path: String,
    pub query: Option<String>,
    pub chunks: Vec<Vec<u8>>,
    pub headers: Vec<(String, String)>,
    pub ext: Option<u32>,
    pub version11: bool,
    pub ctx: u32,
    pub digest: String,
}

// ------------------------------------------------------------------ expected results

/// Which rule decided the result (used to name the violated property).
#[derive(Debug, Clone, PartialEq)]
pub enum Rule {
    Variant,
    NotFound,
    WrongMethod,
    FallbackPath,
    FallbackMethod,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Stage {
    Convert,
    Query,
    Guard,
    Body,
    Fwd,
    Done,
}
#[derive(Debug, Clone)]
pub struct Exp {
    pub rule: Rule,
    pub stage: Stage,
    pub variant: Option<&'static str>,
    /// Any of these is right (allowed methods are compared as sets)
    pub res: Vec<Result<Obs, ErrObs>>,
    pub log: Vec<Ev>,
    pub any_log: bool,
}

fn hyper(status: u16, src: Src) -> ErrObs {
    ErrObs::Hyper { status, allowed: if status == 405 { Some(vec![]) } else { None }, src }
}
pub fn res_err(r: &Res) -> ErrObs {
    match r {
        Res::Foreign(i) => ErrObs::Foreign(*i),
        Res::Hyper(s) => hyper(*s, Src::None),
        Res::HyperSrc(s, i) => hyper(*s, Src::Foreign(*i)),
        Res::Hyper405(m) => ErrObs::Hyper { status: 405, allowed: Some(m.iter().map(|m| m.to_string()).collect()), src: Src::None },
        Res::Panic => ErrObs::Panic("scripted panic".into()),
        Res::Ok => unreachable!(),
    }
}

fn convert(ty: &Ty, s: &str) -> Result<String, Src> {
    match ty {
        Ty::Tok(n) => {
            if tok_accepts(*n, s) {
                Ok(format!("{:?}", s))
            } else {
                Err(Src::Tok(*n, s.to_string()))
            }
        }
        Ty::U32 => s.parse::<u32>().map(|v| format!("{:?}", v)).map_err(|e| Src::Text(e.to_string())),
        Ty::Str => Ok(format!("{:?}", s)),
        _ => unreachable!(),
    }
}
fn field<'a>(v: &'a Variant, name: &str) -> &'a Field {
    let strip = |s: &str| s.trim_start_matches("r#").to_string();
    v.fields.iter().find(|f| strip(f.name) == strip(name)).expect("field of placeholder")
}
fn ctx_show(sel: CtxSel, id: u32) -> String {
    match sel {
        CtxSel::No => NoContext::mk(id).show(),
        CtxSel::Whole => Ctx::mk(id).show(),
        CtxSel::Sub => SubCtx::mk(id).show(),
    }
}
use hyperdrive::NoContext;

/// All (variant, captures) whose route for `method` matches the path, explicit HEAD first.
pub fn select(p: &Prog, method: &str, path: &str) -> Option<(usize, Vec<(String, String)>)> {
    let find = |m: &str| {
        let mut found = None;
        for (i, v) in p.variants.iter().enumerate() {
            for (rm, rp) in v.routes {
                if *rm == m {
                    if let Some(c) = matches(&pattern(rp), path) {
                        assert!(found.is_none(), "ambiguous program {}", p.name);
                        found = Some((i, c));
                    }
                }
            }
        }
        found
    };
    match find(method) {
        Some(x) => Some(x),
        None if method == "HEAD" => find("GET"),
        None => None,
    }
}
pub const METHODS: &[&str] = &["GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"];
/// Methods of the routes matching this path whose placeholders all convert.
pub fn allowed(p: &Prog, path: &str) -> BTreeSet<String> {
    METHODS
        .iter()
        .filter(|m| match select(p, m, path) {
            None => false,
            Some((i, caps)) => {
                let v = &p.variants[i];
                caps.iter().all(|(n, t)| convert(&field(v, n).ty, t).is_ok())
            }
        })
        .map(|m| m.to_string())
        .collect()
}

pub fn expected(p: &Prog, rq: &Rq, script: &Script) -> Exp {
    let fallback = p.variants.iter().position(|v| v.routes.is_empty() && v.fields.iter().any(|f| f.role == Role::Fwd));
    if let Some((i, caps)) = select(p, &rq.method, &rq.path) {
        let mut e = construct(p, i, caps, rq, script);
        e.rule = Rule::Variant;
        return e;
    }
    let any = p.variants.iter().any(|v| v.routes.iter().any(|(_, rp)| matches(&pattern(rp), &rq.path).is_some()));
    let err = |rule, e| Exp { rule, stage: Stage::Done, variant: None, res: vec![Err(e)], log: vec![], any_log: false };
    let ours: Vec<String> = allowed(p, &rq.path).into_iter().collect();
    match (fallback, any) {
        (None, false) => err(Rule::NotFound, hyper(404, Src::None)),
        (None, true) => err(Rule::WrongMethod, ErrObs::Hyper { status: 405, allowed: Some(ours), src: Src::None }),
        (Some(i), false) => {
            let mut e = construct(p, i, vec![], rq, script);
            e.rule = Rule::FallbackPath;
            e
        }
        (Some(i), true) => {
            let mut e = construct(p, i, vec![], rq, script);
            e.rule = Rule::FallbackMethod;
            let mut out = vec![];
            for r in e.res {
                match r {
                    Err(ErrObs::Hyper { status: 405, allowed: Some(inner), src }) => {
                        let mut all = ours.clone();
                        all.extend(inner.iter().cloned());
                        // whether the inner error's source survives is left open
                        let merged = ErrObs::Hyper { status: 405, allowed: Some(all.clone()), src: Src::None };
                        if src != Src::None {
                            out.push(Err(ErrObs::Hyper { status: 405, allowed: Some(all), src: src.clone() }));
                        }
                        if e.stage != Stage::Fwd {
                            // 405 of a guard: unspecified whether it is merged
                            out.push(Err(ErrObs::Hyper { status: 405, allowed: Some(inner), src }));
                        }
                        out.push(Err(merged));
                    }
                    r => out.push(r),
                }
            }
            e.res = out;
            e
        }
    }
}

fn construct(p: &Prog, i: usize, caps: Vec<(String, String)>, rq: &Rq, script: &Script) -> Exp {
    let v = &p.variants[i];
    let mut e = Exp { rule: Rule::Variant, stage: Stage::Done, variant: Some(v.name), res: vec![], log: vec![], any_log: false };
    let mut vals: Vec<(String, String)> = vec![];
    // placeholders
    for (n, t) in &caps {
        let f = field(v, n);
        match convert(&f.ty, t) {
            Ok(s) => vals.push((f.name.into(), s)),
            Err(src) => e.res.push(Err(hyper(404, src))),
        }
    }
    if !e.res.is_empty() {
        e.stage = Stage::Convert;
        return e;
    }
    for f in v.fields.iter().filter(|f| f.role == Role::Query) {
        if let Ty::Q(d) = f.ty {
            match d(rq.query.as_ref().map(|s| s.as_str()).unwrap_or("")) {
                Ok(s) => vals.push((f.name.into(), s)),
                Err(t) => {
                    e.stage = Stage::Query;
                    e.res.push(Err(hyper(400, Src::Text(t))));
                    return e;
                }
            }
        }
    }
    let bytes: Vec<u8> = rq.chunks.concat();
    let out = |k, n| script.get(&(k, n)).cloned().unwrap_or(Outcome { pend: 0, res: Res::Ok });
    for f in v.fields.iter().filter(|f| f.role == Role::Guard) {
        if let Ty::G(n, c) = f.ty {
            e.log.push(Ev::Start { kind: Kind::Guard, n, req: rq.digest.clone(), ctx: ctx_show(c, rq.ctx) });
            e.log.push(Ev::Done { kind: Kind::Guard, n, bytes: vec![] });
            match out(Kind::Guard, n).res {
                Res::Ok => vals.push((f.name.into(), format!("{:?}", rq.digest))),
                r => {
                    e.stage = Stage::Guard;
                    e.res.push(Err(res_err(&r)));
                    return e;
                }
            }
        }
    }
    for f in v.fields.iter().filter(|f| f.role == Role::Body || f.role == Role::Fwd) {
        let (kind, n, c) = match f.ty {
            Ty::B(n, c) => (Kind::Body, n, c),
            Ty::F(n, c) => (Kind::Fwd, n, c),
            Ty::FProg(q) => {
                let inner = expected(q, rq, script);
                e.log.extend(inner.log);
                e.any_log |= inner.any_log;
                let mut ok = None;
                for r in inner.res {
                    match r {
                        Ok(o) => ok = Some(format!("{:?}", o)),
                        Err(x) => e.res.push(Err(x)),
                    }
                }
                match ok {
                    Some(s) => vals.push((f.name.into(), s)),
                    None => {
                        e.stage = Stage::Fwd;
                        return e;
                    }
                }
                continue;
            }
            _ => unreachable!(),
        };
        e.log.push(Ev::Start { kind, n, req: rq.digest.clone(), ctx: ctx_show(c, rq.ctx) });
        e.log.push(Ev::Done { kind, n, bytes: bytes.clone() });
        match out(kind, n).res {
            Res::Ok => vals.push((f.name.into(), format!("{:?}", bytes))),
            r => {
                e.stage = if kind == Kind::Fwd { Stage::Fwd } else { Stage::Body };
                e.res.push(Err(res_err(&r)));
                return e;
            }
        }
    }
    let fields = v.fields.iter().map(|f| (f.name.to_string(), vals.iter().find(|x| x.0 == f.name).unwrap().1.clone())).collect();
    e.res.push(Ok(Obs { variant: v.name.into(), fields }));
    e
}

pub fn norm(e: &ErrObs) -> ErrObs {
    match e {
        ErrObs::Hyper { status, allowed: Some(m), src } => {
            let s: BTreeSet<String> = m.iter().cloned().collect();
            ErrObs::Hyper { status: *status, allowed: Some(s.into_iter().collect()), src: src.clone() }
        }
        e => e.clone(),
    }
}

/// The properties violated by `got`, given what was expected (empty: none).
pub fn judge(p: &Prog, rq: &Rq, e: &Exp, g: &Got) -> BTreeSet<&'static str> {
    let mut out = BTreeSet::new();
    let ok = e.res.iter().any(|r| match (r, &g.res) {
        (Ok(a), Ok(b)) => a == b,
        (Err(ErrObs::Panic(_)), Err(ErrObs::Panic(b))) => b.contains("scripted panic"),
        (Err(a), Err(b)) => norm(a) == norm(b),
        _ => false,
    });
    let has_fb = p.variants.iter().any(|v| v.routes.is_empty() && v.fields.iter().any(|f| f.role == Role::Fwd));
    if !ok {
        match e.rule {
            Rule::Variant => {
                match (&e.stage, &g.res) {
                    (_, Ok(o)) if Some(o.variant.as_str()) != e.variant => {
                        out.insert("C01");
                        if has_fb {
                            out.insert("C08");
                        }
                    }
                    (Stage::Done, Ok(o)) => {
                        let v = p.variants.iter().find(|v| Some(v.name) == e.variant).unwrap();
                        let want = e.res.iter().filter_map(|r| r.as_ref().ok()).next().unwrap();
                        for (f, (a, b)) in v.fields.iter().zip(want.fields.iter().zip(&o.fields)) {
                            if a != b {
                                out.insert(match f.role {
                                    Role::Ph => "C05",
                                    Role::Query => "C06",
                                    Role::Guard => "C17",
                                    Role::Body => "C17",
                                    Role::Fwd => "C08",
                                });
                            }
                        }
                    }
                    (st, Err(ErrObs::Hyper { status: 404, src: Src::None, .. })) | (st, Err(ErrObs::Hyper { status: 405, src: Src::None, .. })) => {
                        out.insert(if *st == Stage::Convert { "C05" } else { "C01" });
                        stage(st, &mut out);
                    }
                    (Stage::Done, Err(ErrObs::Hyper { status: 404, .. })) => {
                        out.insert("C05");
                    }
                    (Stage::Done, Err(ErrObs::Hyper { status: 400, .. })) => {
                        out.insert("C06");
                    }
                    (st, _) => {
                        stage(st, &mut out);
                        if *st == Stage::Done {
                            out.insert("C01");
                            let v = p.variants.iter().find(|v| Some(v.name) == e.variant).unwrap();
                            for f in v.fields {
                                out.insert(match f.role {
                                    Role::Ph => "C05",
                                    Role::Query => "C06",
                                    Role::Guard => "C07",
                                    Role::Body => "C17",
                                    Role::Fwd => "C08",
                                });
                            }
                        }
                    }
                }
            }
            Rule::NotFound | Rule::WrongMethod => {
                out.insert("C04");
                if g.res.is_ok() {
                    out.insert("C01");
                }
            }
            Rule::FallbackPath | Rule::FallbackMethod => {
                out.insert("C08");
                if let Ok(o) = &g.res {
                    if Some(o.variant.as_str()) != e.variant {
                        out.insert("C01");
                    }
                }
                if e.rule == Rule::FallbackMethod && e.stage == Stage::Fwd {
                    out.insert("C04");
                }
                stage(&e.stage, &mut out);
            }
        }
        if rq.method == "HEAD" {
            out.insert("C03");
        }
        // a difference in HEAD being listed
        if let (Some(Err(ErrObs::Hyper { allowed: Some(a), .. })), Err(ErrObs::Hyper { allowed: Some(b), .. })) = (e.res.last(), &g.res) {
            if a.iter().any(|m| m == "HEAD") != b.iter().any(|m| m == "HEAD") {
                out.insert("C03");
            }
        }
    }
    let panicked = matches!(g.res, Err(ErrObs::Panic(_)));
    if !panicked && e.log != g.log {
        let strip = |l: &Vec<Ev>| {
            l.iter()
                .map(|e| match e {
                    Ev::Start { kind, n, .. } => (0, *kind, *n),
                    Ev::Done { kind, n, .. } => (1, *kind, *n),
                })
                .collect::<Vec<_>>()
        };
        if strip(&e.log) != strip(&g.log) {
            match e.rule {
                Rule::NotFound | Rule::WrongMethod => {
                    out.insert("C04");
                }
                _ => {
                    match e.stage {
                        Stage::Convert => {
                            out.insert("C05");
                        }
                        Stage::Query => {
                            out.insert("C06");
                        }
                        _ => {
                            if ok {
                                out.insert("C07");
                            }
                            stage(&e.stage, &mut out);
                        }
                    };
                    if e.rule != Rule::Variant {
                        out.insert("C08");
                    }
                }
            }
        } else {
            for (a, b) in e.log.iter().zip(&g.log) {
                match (a, b) {
                    (Ev::Start { kind, req, ctx, .. }, Ev::Start { req: req2, ctx: ctx2, .. }) => {
                        if req != req2 {
                            out.insert("C17");
                            if *kind == Kind::Fwd {
                                out.insert("C08");
                            }
                        }
                        if ctx != ctx2 {
                            out.insert("C15");
                            if *kind == Kind::Fwd {
                                out.insert("C08");
                            }
                        }
                    }
                    (Ev::Done { kind, bytes, .. }, Ev::Done { bytes: b2, .. }) => {
                        if bytes != b2 {
                            out.insert("C17");
                            if *kind == Kind::Fwd {
                                out.insert("C08");
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    out
}
fn stage(st: &Stage, out: &mut BTreeSet<&'static str>) {
    match st {
        Stage::Convert => {
            out.insert("C05");
        }
        Stage::Query => {
            out.insert("C06");
        }
        Stage::Guard | Stage::Body => {
            out.insert("C07");
        }
        Stage::Fwd => {
            out.insert("C08");
        }
        Stage::Done => {}
    }
}
