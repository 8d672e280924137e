//! Decoding of derived types: every property about routing, conversion, guards, fallbacks.
use crate::{programs, Report};
use rt::reqs::*;
use rt::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;

pub fn one(p: &Prog, rq: &Rq, script: &Script, entry: Entry) -> (Exp, Got, BTreeSet<&'static str>) {
    let e = expected(p, rq, script);
    set_script(script.clone());
    let g = (p.run)(entry, build(rq), rq.ctx);
    let mut j = judge(p, rq, &e, &g);
    if e.any_log {
        j.clear();
    }
    (e, g, j)
}

fn show_script(s: &Script) -> Value {
    Value::Array(
        s.iter()
            .map(|((k, n), o)| {
                let (r, x, m) = match &o.res {
                    Res::Ok => ("ok", vec![], vec![]),
                    Res::Foreign(i) => ("foreign", vec![*i], vec![]),
                    Res::Hyper(s) => ("hyper", vec![*s as u32], vec![]),
                    Res::HyperSrc(s, i) => ("hypersrc", vec![*s as u32, *i], vec![]),
                    Res::Hyper405(m) => ("hyper405", vec![], m.iter().map(|m| m.to_string()).collect::<Vec<_>>()),
                    Res::Panic => ("panic", vec![], vec![]),
                };
                json!([format!("{:?}", k), n, o.pend, r, x, m])
            })
            .collect(),
    )
}
fn read_script(v: &Value) -> Script {
    let mut out = Script::new();
    for e in v.as_array().unwrap() {
        let k = match e[0].as_str().unwrap() {
            "Guard" => Kind::Guard,
            "Body" => Kind::Body,
            _ => Kind::Fwd,
        };
        let x: Vec<u64> = e[4].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        let res = match e[3].as_str().unwrap() {
            "ok" => Res::Ok,
            "foreign" => Res::Foreign(x[0] as u32),
            "hyper" => Res::Hyper(x[0] as u16),
            "hypersrc" => Res::HyperSrc(x[0] as u16, x[1] as u32),
            "hyper405" => {
                let want: Vec<String> = e[5].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
                Res::Hyper405(m405().into_iter().find(|m| m.iter().map(|m| m.to_string()).collect::<Vec<_>>() == want).unwrap())
            }
            _ => Res::Panic,
        };
        out.insert((k, e[1].as_u64().unwrap() as u8), Outcome { pend: e[2].as_u64().unwrap() as u32, res });
    }
    out
}
pub fn describe(p: &Prog, rq: &Rq, script: &Script, entry: Entry, e: &Exp, g: &Got) -> Value {
    json!({
        "program": p.name, "source": p.src, "method": rq.method, "uri": rq.uri,
        "chunks": rq.chunks, "headers": rq.headers, "ext": rq.ext, "version11": rq.version11, "ctx": rq.ctx,
        "script": show_script(script), "entry": format!("{:?}", entry),
        "expected": format!("{:?}", e.res), "expected_log": format!("{:?}", e.log),
        "got": format!("{:?}", g.res), "got_log": format!("{:?}", g.log),
    })
}

/// A query/method choice relevant for `prop`.
fn relevant(prop: &str, p: &Prog, rq: &Rq, e: &Exp) -> bool {
    let has = |r: Role| p.variants.iter().any(|v| Some(v.name) == e.variant && v.fields.iter().any(|f| f.role == r));
    match prop {
        "C01" | "C02" => true,
        "C03" => rq.method == "HEAD" || e.rule == Rule::WrongMethod,
        "C04" => matches!(e.rule, Rule::NotFound | Rule::WrongMethod | Rule::FallbackMethod),
        "C05" => has(Role::Ph),
        "C06" => has(Role::Query),
        "C07" => has(Role::Guard) || has(Role::Body),
        "C08" => has(Role::Fwd) || matches!(e.rule, Rule::FallbackMethod | Rule::FallbackPath),
        "C15" => has(Role::Guard) || has(Role::Body) || has(Role::Fwd),
        "C17" => true,
        _ => true,
    }
}

pub fn main(prop: &str, seed: u64, thorough: bool) -> Report {
    let mut rep = Report::new();
    let start = std::time::Instant::now();
    let budget = std::time::Duration::from_secs(if thorough { 300 } else { 12 });
    let rounds = if thorough { 1000 } else { 1 };
    for round in 0..rounds {
        for p in programs::ALL.iter() {
            let mut rng = Rng::new(seed.wrapping_add(round * 7919).wrapping_mul(31).wrapping_add(p.name.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64))));
            program(prop, p, &mut rng, thorough, &mut rep);
            if start.elapsed() > budget && round > 0 || rep.violations.len() > 5 {
                return rep;
            }
        }
    }
    rep
}

fn program(prop: &str, p: &'static Prog, rng: &mut Rng, thorough: bool, rep: &mut Report) {
    let parts: Vec<(Kind, u8)> = parts(p).into_iter().collect();
    let mut methods: BTreeSet<&str> = ["GET", "HEAD", "POST", "OPTIONS", "PUT"].iter().cloned().collect();
    for v in p.variants {
        for (m, _) in v.routes {
            methods.insert(m);
        }
    }
    methods.insert("FOO");
    let has_query = p.variants.iter().any(|v| v.fields.iter().any(|f| f.role == Role::Query)) || p.variants.iter().any(|v| v.fields.iter().any(|f| if let Ty::FProg(_) = f.ty { true } else { false }));
    let queries: &[&str] = if has_query { &["", "?", "?a=1", "?a=x&b=2", "?b=7", "?a=1&a=2", "?b=z", "?a=%31", "?a=1+2&c", "?&&a=3", "?a=1#f", "?a=1?b=2", "??a=1", "?a=1&b=?x"] } else { &["", "?a=1"] };
    for path in paths(p, rng, if thorough { 40 } else { 14 }) {
        for m in methods.iter() {
            let prefix = match rng.below(12) {
                0 if path.starts_with('/') => "http://host.example:80",
                _ => "",
            };
            let qs: Vec<&str> = if has_query && select(p, m, &path).is_some() { queries.to_vec() } else { vec![*rng.pick(queries)] };
            for q in qs {
                let uri = if path == "" { "host.example:443".to_string() } else if path == "*" { "*".into() } else { format!("{}{}{}", prefix, path, q) };
                let rq = match mk(m, &uri, rng) {
                    Some(r) => r,
                    None => continue,
                };
                let mut todo: Vec<Script> = vec![];
                let first = scripts(&parts, rng, if thorough { 6 } else { 2 });
                let e0 = expected(p, &rq, &first[0]);
                if !relevant(prop, p, &rq, &e0) {
                    continue;
                }
                if e0.log.is_empty() {
                    // nothing may run: let everything that could run fail
                    let n = if thorough { 3 } else { 1 };
                    todo.extend(first.into_iter().rev().take(n));
                } else {
                    todo = first;
                }
                for script in todo {
                    let entry = match rng.below(if prop == "C17" { 3 } else { 10 }) {
                        0 => Entry::Whole,
                        1 => Entry::Sync,
                        _ => Entry::AndBody,
                    };
                    let (e, g, j) = one(p, &rq, &script, entry);
                    rep.case(|| format!("{} {} {} {:?} -> {:?} {:?}", p.name, rq.method, rq.uri, entry, e.rule, e.res.get(0)));
                    let mut bad = j.contains(prop);
                    if prop == "C17" && entry != Entry::AndBody {
                        // the other entry points must agree, whatever the result
                        set_script(script.clone());
                        let g0 = (p.run)(Entry::AndBody, build(&rq), rq.ctx);
                        if g0.res != g.res || g0.log != g.log {
                            bad = true;
                        }
                    }
                    if bad {
                        rep.violations.push(describe(p, &rq, &script, entry, &e, &g));
                        if rep.violations.len() > 5 {
                            return;
                        }
                    }
                }
            }
        }
    }
}

pub fn replay(file: &str) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let v = if v.get("input").is_some() { v["input"].clone() } else { v };
    let p = programs::ALL.iter().find(|p| p.name == v["program"].as_str().unwrap()).expect("program not built");
    let mut rng = Rng::new(1);
    let mut rq = mk(v["method"].as_str().unwrap(), v["uri"].as_str().unwrap(), &mut rng).unwrap();
    rq.chunks = v["chunks"].as_array().unwrap().iter().map(|c| c.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()).collect();
    rq.headers = v["headers"].as_array().unwrap().iter().map(|h| (h[0].as_str().unwrap().into(), h[1].as_str().unwrap().into())).collect();
    rq.ext = v["ext"].as_u64().map(|x| x as u32);
    rq.version11 = v["version11"].as_bool().unwrap();
    rq.ctx = v["ctx"].as_u64().unwrap() as u32;
    rq.digest = digest(&build(&rq));
    let entry = match v["entry"].as_str().unwrap() {
        "Whole" => Entry::Whole,
        "Sync" => Entry::Sync,
        _ => Entry::AndBody,
    };
    let s = read_script(&v["script"]);
    let (e, g, j) = one(p, &rq, &s, entry);
    println!("{}\n{} {}\nexpected one of {:?}\n  log {:?}\ngot {:?}\n  log {:?}\nviolated: {:?}", p.src, rq.method, rq.uri, e.res, e.log, g.res, g.log, j);
}
