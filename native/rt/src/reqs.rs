//! Request and script generation.
use crate::exec::{self, Run};
use crate::refsem::*;
use crate::types::*;
use hyperdrive::futures::stream;
use hyperdrive::http::{self, Method, Request};
use hyperdrive::hyper::Body;
use hyperdrive::{BoxedError, FromRequest};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
}

const TEXTS: &[&str] = &[
    "a", "b", "0", "1", "2", "12", "01", "users", "x.y", "%2F", "%20", "+", "*", "a...", "[b]", "a-b_c~", "(x)", "|", "^", "$", "new", "\\", ":x",
    "@", "A", "", "4294967296", "007", "%00", "..", ".",
];
const RESTS: &[&str] = &["", "/", "a", "a/", "/a", "a/b", "0/1", "a//b", "x/../y", "2", "a/0/", "%2F/x", "%61"];

/// Paths interesting for this program.
pub fn paths(p: &Prog, rng: &mut Rng, per: usize) -> Vec<String> {
    let mut out: BTreeSet<String> = ["/", "*", "", "//", "/a", "/a/", "/*", "/a/b", "/0", "/users/1", "/nope", "/nope/", "/.", "/a/b/c/d"].iter().map(|s| s.to_string()).collect();
    fn collect(p: &Prog, pats: &mut BTreeSet<&'static str>) {
        for v in p.variants {
            for (_, r) in v.routes {
                pats.insert(r);
            }
            for f in v.fields {
                if let Ty::FProg(q) = f.ty {
                    collect(q, pats);
                }
            }
        }
    }
    let mut pats = BTreeSet::new();
    collect(p, &mut pats);
    for r in pats {
        if let Some(segs) = pattern(r) {
            for k in 0..per {
                let mut s = String::new();
                for seg in &segs {
                    s.push('/');
                    match seg {
                        Seg::Lit(l) => {
                            s.push_str(l);
                        }
                        Seg::Ph(_) => s.push_str(if k < 2 { TEXTS[k] } else { *rng.pick(TEXTS) }),
                        Seg::Rest(_) => s.push_str(if k < 2 { RESTS[k] } else { *rng.pick(RESTS) }),
                    }
                }
                // mutations
                out.insert(s.clone());
                let m = rng.below(10);
                let b: Vec<char> = s.chars().collect();
                let mut t: Vec<char> = b.clone();
                match m {
                    0 => t.push('/'),
                    1 => {
                        t.pop();
                    }
                    2 => {
                        t.insert(0, '/');
                    }
                    3 => {
                        if b.len() > 1 {
                            let i = 1 + rng.below(b.len() - 1);
                            t[i] = 'X';
                        }
                    }
                    4 => {
                        if b.len() > 1 {
                            let i = 1 + rng.below(b.len() - 1);
                            t.remove(i);
                        }
                    }
                    5 => {
                        let i = 1 + rng.below(b.len());
                        t.insert(i.min(b.len()), '/');
                    }
                    6 => {
                        t = s.to_uppercase().chars().collect();
                    }
                    7 => {
                        t.extend("/a".chars());
                    }
                    8 => {
                        t.push('x');
                    }
                    _ => {
                        let mut v: Vec<char> = "/a".chars().collect();
                        v.extend(t);
                        t = v;
                    }
                }
                out.insert(t.into_iter().collect());
            }
        }
    }
    out.into_iter().collect()
}

pub fn build(rq: &Rq) -> Request<Body> {
    let mut b = Request::builder();
    b.method(rq.method.as_str()).uri(rq.uri.as_str());
    b.version(if rq.version11 { http::Version::HTTP_11 } else { http::Version::HTTP_10 });
    for (k, v) in &rq.headers {
        b.header(k.as_str(), v.as_str());
    }
    if let Some(x) = rq.ext {
        b.extension(Ext(x));
    }
    let chunks: Vec<Result<Vec<u8>, std::io::Error>> = rq.chunks.iter().cloned().map(Ok).collect();
    let body = if chunks.is_empty() { Body::empty() } else { Body::wrap_stream(stream::iter_result(chunks)) };
    b.body(body).unwrap()
}

pub fn mk(method: &str, uri: &str, rng: &mut Rng) -> Option<Rq> {
    let parsed: http::Uri = uri.parse().ok()?;
    let mut rq = Rq {
        method: method.into(),
        uri: uri.into(),
        path: parsed.path().to_string(),
        query: parsed.query().map(|s| s.to_string()),
        chunks: vec![],
        headers: vec![],
        ext: None,
        version11: true,
        ctx: 1 + rng.below(5) as u32,
        digest: String::new(),
    };
    match rng.below(4) {
        0 => {}
        1 => rq.chunks = vec![b"body".to_vec()],
        2 => rq.chunks = vec![b"bo".to_vec(), vec![], b"dy2".to_vec()],
        _ => rq.chunks = vec![vec![0, 255], vec![b'x'; 1 + rng.below(40)]],
    }
    if rng.below(2) == 0 {
        rq.headers.push(("host".into(), "x.example".into()));
    }
    if rng.below(2) == 0 {
        rq.headers.push(("x-http-method-override".into(), "DELETE".into()));
        rq.headers.push(("content-type".into(), "text/plain".into()));
    }
    if rng.below(2) == 0 {
        rq.ext = Some(rng.below(100) as u32);
    }
    rq.version11 = rng.below(4) != 0;
    rq.digest = digest(&build(&rq));
    Some(rq)
}

pub fn run<R, O>(entry: Entry, req: Request<Body>, ctx: R::Context, show: O) -> Got
where
    R: FromRequest,
    O: FnOnce(R) -> Obs,
{
    let r: Run<R, BoxedError> = match entry {
        Entry::AndBody => exec::drive(|| {
            let (parts, body) = req.into_parts();
            let req = Arc::new(Request::from_parts(parts, ()));
            R::from_request_and_body(&req, body, ctx)
        }),
        Entry::Whole => exec::drive(|| R::from_request(req, ctx)),
        Entry::Sync => match catch_unwind(AssertUnwindSafe(|| R::from_request_sync(req, ctx))) {
            Ok(r) => Run::Done(r),
            Err(p) => Run::Panic(exec::panic_text(&*p)),
        },
    };
    let res = match r {
        Run::Done(Ok(v)) => Ok(show(v)),
        Run::Done(Err(e)) => Err(err_obs(&e)),
        Run::Panic(s) => Err(ErrObs::Panic(s)),
        Run::Stuck => Err(ErrObs::Stuck),
    };
    Got { res, log: take_log() }
}

/// The async components a program uses.
pub fn parts(p: &Prog) -> BTreeSet<(Kind, u8)> {
    let mut out = BTreeSet::new();
    for v in p.variants {
        for f in v.fields {
            match f.ty {
                Ty::G(n, _) => {
                    out.insert((Kind::Guard, n));
                }
                Ty::B(n, _) => {
                    out.insert((Kind::Body, n));
                }
                Ty::F(n, _) => {
                    out.insert((Kind::Fwd, n));
                }
                Ty::FProg(q) => out.extend(parts(q)),
                _ => {}
            }
        }
    }
    out
}

pub fn m405() -> Vec<Vec<&'static Method>> {
    vec![vec![], vec![&Method::PUT], vec![&Method::GET, &Method::HEAD], vec![&Method::PATCH, &Method::POST]]
}

pub fn rand_res(rng: &mut Rng) -> Res {
    match rng.below(9) {
        0 => Res::Foreign(rng.below(1000) as u32),
        1 => Res::Hyper(403),
        2 => Res::Hyper(404),
        3 => Res::Hyper(500),
        4 => Res::HyperSrc(400, rng.below(1000) as u32),
        5 => Res::HyperSrc(404, rng.below(1000) as u32),
        6 => Res::HyperSrc(405, rng.below(1000) as u32),
        7 => Res::Panic,
        _ => Res::Hyper405(rng.pick(&m405()).clone()),
    }
}

/// Scripts to try for a request: all fine, each component failing, random ones.
pub fn scripts(ps: &[(Kind, u8)], rng: &mut Rng, n: usize) -> Vec<Script> {
    let mut out = vec![];
    let base = |rng: &mut Rng| -> Script { ps.iter().map(|k| (*k, Outcome { pend: rng.below(3) as u32, res: Res::Ok })).collect() };
    out.push(base(rng));
    for k in ps {
        let mut s = base(rng);
        let pend = rng.below(3) as u32;
        s.insert(*k, Outcome { pend, res: rand_res(rng) });
        out.push(s);
        let mut s = base(rng);
        let m = m405();
        let r = if rng.below(2) == 0 { Res::Hyper405(rng.pick(&m).clone()) } else { Res::Foreign(rng.below(1000) as u32) };
        s.insert(*k, Outcome { pend: 0, res: r });
        out.push(s);
    }
    for _ in 0..n {
        let mut s = base(rng);
        for k in ps {
            if rng.below(3) == 0 {
                let pend = rng.below(3) as u32;
                s.insert(*k, Outcome { pend, res: rand_res(rng) });
            }
        }
        out.push(s);
    }
    out
}
