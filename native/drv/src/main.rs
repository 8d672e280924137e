//! Asks the real derives (compiled from /repo/derive, unchanged) for their verdict on declarations.
//! usage: drv verdicts FILE | overlap | malformed | asref | show FILE; prints one JSON object.
mod cases;
use serde_json::{json, Value};
use std::panic::{self, AssertUnwindSafe};
use std::sync::Mutex;

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    Accept,
    Reject(String),
    /// The source is no Rust item the derive could ever see
    NotRust(String),
}

fn expand(which: &str, src: &str) -> (Verdict, String) {
    let di: syn::DeriveInput = match syn::parse_str(src) {
        Ok(d) => d,
        Err(e) => return (Verdict::NotRust(e.to_string()), String::new()),
    };
    let r = panic::catch_unwind(AssertUnwindSafe(|| {
        let s = synshim::Structure::new(&di);
        if which == "RequestContext" {
            hderive::RequestContext::expand(s).to_string()
        } else {
            hderive::FromRequest::expand(s).to_string()
        }
    }));
    match r {
        Ok(t) if t.contains("compile_error !") => (Verdict::Reject(t), String::new()),
        Ok(t) => (Verdict::Accept, t),
        Err(p) => (Verdict::Reject(p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into())), String::new()),
    }
}
pub fn verdict(src: &str) -> Verdict {
    expand("FromRequest", src).0
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
}

/// Runs `f` over `items` on all cores, collecting violations.
fn parallel<T: Sync>(items: &[T], f: impl Fn(&T) -> Option<Value> + Sync) -> Vec<Value> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= items.len() || out.lock().unwrap().len() > 5 {
                    break;
                }
                if let Some(v) = f(&items[i]) {
                    out.lock().unwrap().push(v);
                }
            });
        }
    });
    out.into_inner().unwrap()
}

// ------------------------------------------------------------------ path patterns (reference)

fn segs(p: &str) -> Vec<&str> {
    p[1..].split('/').collect()
}
fn is_rest(s: &str) -> bool {
    s.starts_with('{') && s.ends_with("...}")
}
fn is_ph(s: &str) -> bool {
    s.starts_with('{') && s.ends_with('}') && !is_rest(s)
}
pub fn matches(p: &str, path: &str) -> bool {
    if p == "*" || path == "*" {
        return p == path;
    }
    if !path.starts_with('/') {
        return false;
    }
    let (pat, got) = (segs(p), segs(path));
    for (i, s) in pat.iter().enumerate() {
        if i >= got.len() {
            return false;
        }
        if is_rest(s) {
            return true;
        }
        if is_ph(s) {
            if got[i].is_empty() {
                return false;
            }
        } else if *s != got[i] {
            return false;
        }
    }
    pat.len() == got.len()
}
fn shape(p: &str) -> String {
    if p == "*" {
        return "*".into();
    }
    segs(p).iter().map(|s| if is_rest(s) { "/{..}" .to_string() } else if is_ph(s) { "/{}".into() } else { format!("/{}", s) }).collect()
}
/// Some path matched by both, found by enumerating paths over the segments that matter.
fn common(p: &str, q: &str) -> Option<String> {
    if p == "*" || q == "*" {
        return if p == q { Some("*".into()) } else { None };
    }
    let (a, b) = (segs(p), segs(q));
    for n in 1..=a.len().max(b.len()) + 1 {
        let cands: Vec<Vec<&str>> = (0..n)
            .map(|i| {
                let mut c = vec!["", "zz"];
                for s in [a.get(i), b.get(i)].iter().flat_map(|s| s.iter()) {
                    if !s.starts_with('{') {
                        c.push(s);
                    }
                }
                c
            })
            .collect();
        let mut idx = vec![0; n];
        loop {
            let path: String = idx.iter().enumerate().map(|(i, k)| format!("/{}", cands[i][*k])).collect();
            if matches(p, &path) && matches(q, &path) {
                return Some(path);
            }
            let mut i = 0;
            while i < n {
                idx[i] += 1;
                if idx[i] < cands[i].len() {
                    break;
                }
                idx[i] = 0;
                i += 1;
            }
            if i == n {
                break;
            }
        }
    }
    None
}

#[derive(Clone, Debug)]
struct Route {
    method: &'static str,
    path: String,
    var: usize,
}
fn phs(p: &str) -> Vec<String> {
    if p == "*" {
        return vec![];
    }
    segs(p).iter().filter(|s| s.starts_with('{')).map(|s| s.trim_matches(|c| c == '{' || c == '}' || c == '.').to_string()).collect()
}
fn source(routes: &[Route]) -> String {
    let mut vars: Vec<usize> = vec![];
    for r in routes {
        if !vars.contains(&r.var) {
            vars.push(r.var);
        }
    }
    let mut s = String::from("enum R {\n");
    for v in vars {
        let mut fields: Vec<String> = vec![];
        for r in routes.iter().filter(|r| r.var == v) {
            s.push_str(&format!("  #[{}(\"{}\")]\n", r.method, r.path.replace('\\', "\\\\")));
            fields = phs(&r.path);
        }
        s.push_str(&format!("  V{} {{ {} }},\n", v, fields.iter().map(|f| format!("{}: u8", f)).collect::<Vec<_>>().join(", ")));
    }
    s + "}"
}
/// The first ambiguous pair, with a witness (`None`: same paths, same method).
fn conflict(routes: &[Route]) -> Option<(usize, usize, Option<String>)> {
    for i in 0..routes.len() {
        for j in 0..i {
            if shape(&routes[i].path) == shape(&routes[j].path) {
                if routes[i].method == routes[j].method {
                    return Some((j, i, None));
                }
            } else if let Some(w) = common(&routes[i].path, &routes[j].path) {
                return Some((j, i, Some(w)));
            }
        }
    }
    None
}
fn judge_routes(routes: &Vec<Route>) -> Option<Value> {
    let src = source(routes);
    let want = conflict(routes);
    match (verdict(&src), &want) {
        (Verdict::Accept, None) => None,
        (Verdict::Accept, Some((a, b, w))) => Some(json!({"source": src, "expected": format!("rejection: routes `{}` and `{}` are ambiguous (path {})", routes[*a].path, routes[*b].path, w.clone().unwrap_or("any".into())), "got": "accepted"})),
        (Verdict::Reject(m), None) => Some(json!({"source": src, "expected": "accepted", "got": format!("rejected: {}", m)})),
        (Verdict::NotRust(m), _) => panic!("{} {}", src, m),
        (Verdict::Reject(m), Some(_)) => {
            // the path named in the message must be matched by two ambiguous routes
            let named: Vec<&str> = m.split('`').skip(1).step_by(2).filter(|s| s.starts_with('/') || *s == "*").collect();
            let good = named.is_empty()
                || named.iter().any(|p| {
                    let m: Vec<&Route> = routes.iter().filter(|r| matches(&r.path, p)).collect();
                    m.iter().any(|a| m.iter().any(|b| shape(&a.path) != shape(&b.path)))
                });
            if good {
                None
            } else {
                Some(json!({"source": src, "expected": "a message naming a path matched by both routes", "got": m}))
            }
        }
    }
}

fn patterns(maxlen: usize, lits: &[&str]) -> Vec<String> {
    let mut out = vec!["*".to_string()];
    let mut prefixes = vec![String::new()];
    for len in 0..maxlen {
        let mut next = vec![];
        for p in &prefixes {
            for s in lits.iter().map(|s| s.to_string()).chain(vec![format!("{{x{}}}", len)]) {
                next.push(format!("{}/{}", p, s));
            }
            out.push(format!("{}/{{r...}}", p));
        }
        out.extend(next.iter().cloned());
        prefixes = next;
    }
    out
}

fn overlap(rng: &mut Rng, thorough: bool) -> Value {
    let lits = ["", "a", "b"];
    let p2 = patterns(2, &lits);
    let p3 = patterns(if thorough { 4 } else { 3 }, &lits);
    let mut cases: Vec<Vec<Route>> = vec![];
    let r = |m: &'static str, p: &str, v| Route { method: m, path: p.into(), var: v };
    // every ordered pair of short patterns, equal and different methods
    for a in &p2 {
        for b in &p2 {
            cases.push(vec![r("get", a, 0), r("get", b, 1)]);
            cases.push(vec![r("post", a, 0), r("get", b, 1)]);
        }
    }
    let exhaustive = cases.len();
    for _ in 0..if thorough { 60000 } else { 2500 } {
        let (a, b) = (rng.pick(&p3).clone(), rng.pick(&p3).clone());
        cases.push(vec![r(*rng.pick(&["get", "head", "put"]), &a, 0), r(*rng.pick(&["get", "head"]), &b, 1)]);
    }
    // larger sets: several routes per variant, special characters, random order
    let odd = ["", "a", "A", "a.b", "aXb", "a+", "%61", "0", "{x}", "{y}", "a|b", "(a)", "[a]", "^", "$", "\\d", "*"];
    for _ in 0..if thorough { 40000 } else { 2500 } {
        let mut rs: Vec<Route> = vec![];
        let n = 2 + rng.below(4);
        for i in 0..n {
            let len = 1 + rng.below(3);
            let mut p = String::new();
            let mut used = 0;
            for k in 0..len {
                let s = if rng.below(3) == 0 { "{x}" } else { *rng.pick(&odd) };
                p.push('/');
                if s.starts_with('{') {
                    p.push_str(&format!("{{q{}}}", used));
                    used += 1;
                } else if k == len - 1 && rng.below(5) == 0 {
                    p.push_str("{rest...}");
                    used = 100;
                } else {
                    p.push_str(s);
                }
            }
            if rng.below(12) == 0 {
                p = "*".into();
            }
            let m = *rng.pick(&["get", "get", "head", "post", "put", "delete", "options", "patch", "trace", "connect"]);
            // join an earlier variant when the placeholder lists agree
            let var = rs.iter().find(|r| phs(&r.path) == phs(&p)).map(|r| r.var).filter(|_| rng.below(2) == 0).unwrap_or(i);
            rs.push(Route { method: m, path: p, var });
        }
        rs.sort_by_key(|r| r.var);
        let mut perm = rs.clone();
        perm.reverse();
        cases.push(rs);
        cases.push(perm);
    }
    let mut v = parallel(&cases, |c| judge_routes(c));
    let rejected = cases.iter().filter(|c| conflict(c).is_some()).count();
    v.truncate(6);
    json!({"evaluations": cases.len(), "distinct": cases.iter().map(|c| source(c)).collect::<std::collections::BTreeSet<_>>().len(), "exhaustive_pairs": exhaustive, "rejected": rejected,
        "samples": cases.iter().step_by(cases.len() / 4 + 1).map(|c| source(c)).collect::<Vec<_>>(), "violations": v})
}

fn listed(which: &'static str, cases: Vec<(bool, String)>) -> Value {
    let mut v = parallel(&cases, |(ok, src)| match (expand(which, src).0, ok) {
        (Verdict::Accept, true) | (Verdict::Reject(_), false) => None,
        (Verdict::Accept, false) => Some(json!({"source": src, "expected": "rejected", "got": "accepted"})),
        (Verdict::Reject(m), true) => Some(json!({"source": src, "expected": "accepted", "got": format!("rejected: {}", m)})),
        (Verdict::NotRust(m), _) => panic!("{}: {}", m, src),
    });
    v.truncate(6);
    let n = cases.len();
    json!({"evaluations": n, "distinct": cases.iter().map(|c| &c.1).collect::<std::collections::BTreeSet<_>>().len(), "rejected": cases.iter().filter(|c| !c.0).count(),
        "samples": cases.iter().step_by(n / 4 + 1).map(|c| format!("{}: {}", if c.0 { "accept" } else { "reject" }, c.1)).collect::<Vec<_>>(), "violations": v})
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    panic::set_hook(Box::new(|_| {}));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut rng = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
    let out = match args[0].as_str() {
        "verdicts" => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
            let out: Vec<Value> = v
                .as_array()
                .unwrap()
                .iter()
                .map(|p| {
                    let verdict = match verdict(p["src"].as_str().unwrap()) {
                        Verdict::Accept => Value::Null,
                        Verdict::Reject(m) => m.into(),
                        Verdict::NotRust(m) => panic!("{}: {}", p["name"], m),
                    };
                    json!({"name": p["name"], "reject": verdict})
                })
                .collect();
            Value::Array(out)
        }
        "overlap" => overlap(&mut rng, thorough),
        "malformed" => listed("FromRequest", cases::from_request(&mut rng, thorough)),
        "asref" => listed("RequestContext", cases::request_context()),
        "show" => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
            let which = if args.get(2).map(|s| s == "RequestContext").unwrap_or(false) { "RequestContext" } else { "FromRequest" };
            let v = if v.get("input").is_some() { v["input"].clone() } else { v };
            let (a, t) = expand(which, v["source"].as_str().unwrap());
            json!({"source": v["source"], "verdict": format!("{:?}", a), "expansion": t})
        }
        "expand" => {
            let src = std::fs::read_to_string(&args[1]).unwrap();
            let (a, t) = expand(args.get(2).map(|s| s.as_str()).unwrap_or("FromRequest"), &src);
            eprintln!("{:?}", a);
            println!("{}", t);
            return;
        }
        c => panic!("unknown command {}", c),
    };
    println!("{}", out);
}
