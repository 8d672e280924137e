#!/usr/bin/env python3
"""Generates the programs (types deriving FromRequest) the replay driver is run on.

usage: gen.py OUTDIR SEED NRANDOM
Each program becomes OUTDIR/pNN_name.rs; OUTDIR/all.rs collects them, OUTDIR/progs.json lists
the sources (used to ask the derive for its verdict before compiling anything).
"""
import sys, os, json, random

# field: (name, ty, attr)    ty: T0..T9 Tok, u32, String, Q0 Q1 QM QV, G/GR/GS/GC<n>, B/BS/BC<n>, F/FS<n>, P:<prog>
def F(s):
    name, ty = s.split(":", 1)
    attr = None
    if ty[0] == "@": attr, ty = "body", ty[1:]
    elif ty[0] == "?": attr, ty = "query_params", ty[1:]
    elif ty[0] == ">": attr, ty = "forward", ty[1:]
    return (name, ty, attr)
def V(name, routes, *fields):
    rs = [tuple(r.split(" ", 1)) for r in routes]
    return dict(name=name, routes=rs, fields=[F(f) for f in fields])
def P(name, *variants, ctx=None, struct=False, generic=False, tags=(), extra="", vis=""):
    return dict(name=name, variants=list(variants), ctx=ctx, struct=struct, generic=generic, tags=list(tags), extra=extra)

def fixed():
    out = []
    a = out.append
    a(P("plain", V("Index", ["GET /"]), V("A", ["GET /a", "POST /a/b"]), V("ASlash", ["GET /a/"]), V("AB", ["GET /a/b"]), V("DblSlash", ["GET //"]), V("Mid", ["GET /a//b"])))
    a(P("methods", *[V(m.title(), [m + " /m"]) for m in ["GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"]], V("Other", ["PUT /o", "DELETE /o", "PATCH /p"]), V("Trace2", ["TRACE /o", "CONNECT /o"])))
    a(P("meta", V("Dot", ["GET /a.b"]), V("Plus", ["GET /a+"]), V("Star", ["GET /*"]), V("Paren", ["GET /(a)|(b)"]), V("Brack", ["GET /[ab]"]), V("Dollar", ["GET /a$"]), V("Caret", ["GET /^a"]), V("Back", ["GET /a\\\\b"]), V("BackD", ["GET /\\\\d"]), V("Q", ["GET /x%3Fy"]), V("Tilde", ["GET /~a-b_c&d=e;f,g!h'i"]), V("Hex", ["GET /%2F"])))
    a(P("star", V("A", ["GET /a"]), V("Any", ["OPTIONS *"]), V("B", ["OPTIONS /b"])))
    a(P("starrest", V("Rest", ["OPTIONS /{r...}"], "r:T0"), V("Any", ["OPTIONS *"])))
    a(P("stararest2", V("Any", ["OPTIONS *", "GET *"]), V("Rest", ["POST /{r...}"], "r:T9")))
    a(P("one", V("User", ["GET /users/{id}"], "id:T0"), V("UserNew", ["POST /users"]), V("Posts", ["GET /users/{id}/posts/{post}"], "post:T1", "id:T0")))
    a(P("u32s", V("User", ["GET /users/{id}", "POST /users/{id}"], "id:u32"), V("Name", ["PUT /users/{name}"], "name:String")))
    a(P("order", V("X", ["GET /x/{a}/{b}/{c}"], "c:T2", "a:T0", "b:T1"), V("Y", ["GET /y/{c}/{a}/z/{b}"], "a:T0", "b:T1", "c:T2")))
    a(P("multi", V("M", ["GET /a/{x}/b/{y}", "PUT /{x}/{y}", "POST /c/{x}/{y...}"], "y:T1", "x:T0"), V("N", ["DELETE /a/{x}/b/{y}"], "x:T2", "y:T3")))
    a(P("rest", V("Files", ["GET /files/{path...}"], "path:T0"), V("FilesX", ["POST /files/{path...}"], "path:String"), V("Root", ["GET /filesx"])))
    a(P("restmix", V("R", ["GET /{a}/x/{r...}"], "r:T1", "a:T0"), V("S", ["DELETE /{a}/x/{r...}"], "r:T2", "a:T3"), V("U", ["GET /one"])))
    a(P("shared", V("A", ["GET /{x}"], "x:T0"), V("B", ["POST /{x}"], "x:T1"), V("C", ["PUT /{y}", "DELETE /{y}"], "y:T2"), V("D", ["PATCH /{z}"], "z:String")))
    a(P("sharedhead", V("A", ["GET /{x}/a"], "x:T0"), V("H", ["HEAD /{x}/a"], "x:T1"), V("B", ["POST /{x}/a"], "x:T0"), V("G", ["GET /g"]), V("GH", ["HEAD /g"])))
    a(P("headonly", V("H", ["HEAD /h/{x}"], "x:T0"), V("G", ["GET /g/{x}"], "x:T0"), V("P", ["POST /h/{x}", "POST /g/{x}"], "x:T1")))
    a(P("headfirst", V("H", ["HEAD /{x...}"], "x:T0"), V("G", ["GET /{x...}"], "x:T1"), V("O", ["OPTIONS *"])))
    a(P("getmulti", V("G", ["GET /a", "GET /b", "HEAD /b"]), V("H", ["HEAD /a"]), V("C", ["GET /c", "POST /c"])))
    a(P("query", V("A", ["GET /a"], "q:?Q0"), V("B", ["GET /b", "POST /b"], "q:?Q1"), V("C", ["GET /c"], "q:?QM"), V("D", ["GET /d/{x}"], "q:?QV", "x:T0"), V("E", ["GET /e"])))
    a(P("queryguard", V("A", ["GET /a/{x}"], "g:G0", "q:?Q1", "x:T0", "b:@B0"), V("B", ["POST /a/{x}"], "f:>F0", "x:T1", "q:?Q0", "g:G1")))
    a(P("guards", V("A", ["GET /a"], "a:G0", "b:G1", "c:G2"), V("B", ["GET /b/{x}"], "b:G1", "x:T0", "a:GR0", "body:@B0"), V("C", ["PUT /c"], "z:@B1", "g:G2", "h:GR3")))
    a(P("ctx", V("A", ["GET /a"], "a:GS0", "b:GC1", "c:G2"), V("B", ["POST /b"], "b:@BC0", "g:GC0"), V("C", ["POST /c"], "b:@BS1"), V("D", ["PUT /d"], "f:>FS0", "g:GS0", "h:G1"), V("E", ["PUT /e"], "b:@B2"), ctx="Ctx"))
    a(P("ctxfallback", V("A", ["GET /a"], "a:GS0"), V("P", ["GET /p/{x}", "POST /p/{x}"], "x:T0"), V("F", [], "f:>FS1", "g:GC1"), ctx="Ctx"))
    a(P("body", V("A", ["POST /a"], "b:@B0"), V("B", ["POST /b", "PUT /b"], "b:@B1", "g:G0"), V("C", ["GET /c"])))
    a(P("forward", V("A", ["POST /a"], "f:>F0"), V("B", ["GET /b/{x}"], "f:>F1", "x:T0", "g:G0"), V("C", ["GET /c"])))
    a(P("fallback", V("A", ["GET /a"]), V("B", ["GET /b/{x}", "PUT /b/{x}"], "x:T0"), V("C", ["POST /b/{x}"], "x:T1"), V("F", [], "f:>F0")))
    a(P("fallbackguard", V("F", [], "g:G0", "f:>F0", "h:G1"), V("A", ["GET /a"], "g:G0"), V("H", ["HEAD /a"]), V("R", ["PUT /r/{r...}"], "r:T0")))
    a(P("inner", V("I", ["GET /i"]), V("J", ["PUT /a"]), V("K", ["POST /b/{k}"], "k:T2"), V("L", ["DELETE /"])))
    a(P("outer", V("A", ["GET /a"]), V("B", ["GET /b/{x}"], "x:T0"), V("C", ["PATCH /b/{x}"], "x:T1"), V("F", [], "inner:>P:inner")))
    a(P("outer2", V("Z", ["TRACE /b/{z}"], "z:T3"), V("F", [], "inner:>P:outer", "g:G4"), V("I", ["PUT /i"])))
    a(P("fwdroute", V("Api", ["POST /i", "GET /i"], "inner:>P:inner"), V("Hm", ["PUT /a", "GET /a"], "inner:>P:inner", "g:G0")))
    a(P("st_route", V("st_route", ["GET /s/{x}", "POST /s/{x}"], "x:T0", "g:G0", "b:@B0"), struct=True))
    a(P("st_fwd", V("st_fwd", [], "f:>F0", "g:G0"), struct=True))
    a(P("st_fwdprog", V("st_fwdprog", [], "g:G0", "f:>P:outer", "h:G1"), struct=True))
    a(P("st_unit", V("st_unit", ["GET /unit"]), struct=True))
    a(P("st_ctx", V("st_ctx", ["PUT /s"], "g:GS0", "c:GC1", "b:@BC2", "q:?Q0"), struct=True, ctx="Ctx"))
    a(P("onlyfallback", V("F", [], "f:>F0"), V("Never", [], "x:Never")))
    a(P("unrouted", V("N1", []), V("A", ["GET /a"]), V("N2", [], "x:Never"), V("B", ["GET /b/{x}"], "x:T0"), V("N3", [])))
    a(P("generic", V("A", ["GET /a/{t}"], "t:T0", "g:G0"), V("B", ["POST /b"], "b:@B0", "q:?Q0"), V("C", ["PUT /c"], "f:>F0"), generic=True))
    a(P("generic2", V("A", ["GET /a/{t}/{u}"], "u:T1", "t:T0"), V("F", [], "f:>F3", "g:G5"), generic=True))
    a(P("genericctx", V("A", ["GET /a/{t}"], "t:T0", "g:GC0", "h:GS1"), V("B", ["PUT /b"], "b:@BC0"), generic=True, ctx="Ctx"))
    a(P("rawident", V("A", ["GET /a"], "r#type:G0", "r#fn:@B0"), V("B", ["GET /b"], "r#match:?Q0")))
    a(P("names", V("Variant", ["GET /v/{path}/{method}/x"], "path:T0", "method:T1"), V("B", ["GET /{request}/{context}/{index}"], "index:T2", "request:T0", "context:T1"), V("C", ["POST /{body}"], "body:T3", "future:G0", "captures:G1", "variant:@B0")))
    a(P("keep", V("A", ["GET /{a}/{b}"], "a:T0", "b:T1"), V("B", ["POST /{a}/{b}"], "b:T0", "a:T1"), V("C", ["PUT /{b}/{a}"], "a:T2", "b:T3")))
    a(P("tworoutes", V("A", ["GET /a/{x}", "GET /b/{x}/c", "PUT /a/{x}"], "x:T0"), V("B", ["POST /b/{x}/c", "DELETE /a/{x}"], "x:T1")))
    a(P("headimplied2", V("A", ["GET /{x}/1", "POST /{x}/1"], "x:T0"), V("B", ["HEAD /k/2", "GET /k/2"]), V("C", ["GET /{x}/3/{r...}"], "x:T1", "r:T2")))
    a(P("emptysegs", V("A", ["GET /{x}/"], "x:T0"), V("B", ["GET /{x}//{y}"], "x:T0", "y:T1"), V("C", ["GET ///"]), V("D", ["GET /{x}"], "x:T1")))
    a(P("long", *[V("V%d" % i, [("GET", "POST", "PUT")[i % 3] + " /r%d/{x}" % (i // 2)], "x:T%d" % (i % 4)) for i in range(14)]))
    return out

# ---------------------------------------------------------------- overlap reference (for random programs)
def parse(p):
    if p == "*": return None
    return p[1:].split("/")
def overlap(p, q):
    a, b = parse(p), parse(q)
    if a is None or b is None: return a is b
    # concrete path enumeration over segments that distinguish the patterns
    lits = {s for s in a + b if not s.startswith("{")} | {"zz"}
    lits |= {""}
    def m(pat, segs):
        i = 0
        for i, s in enumerate(pat):
            if s.endswith("...}") and s.startswith("{"): return len(segs) > i
            if i >= len(segs): return False
            if s.startswith("{"):
                if segs[i] == "": return False
            elif s != segs[i]: return False
        return len(pat) == len(segs)
    import itertools
    for n in range(1, max(len(a), len(b)) + 2):
        # choose candidate per position
        cands = []
        for i in range(n):
            c = {"", "zz"}
            for pat in (a, b):
                if i < len(pat) and not pat[i].startswith("{"): c.add(pat[i])
            cands.append(sorted(c))
        for segs in itertools.product(*cands):
            if m(a, segs) and m(b, segs): return True
    return False
def shape(p):
    import re
    return re.sub(r"\{[^}]*\.\.\.\}", "{...}", re.sub(r"\{[a-z0-9]+\}", "{}", p))

def rand_prog(rng, idx):
    lits = ["a", "b", "a.b", "", "0", "c+"]
    def rpath():
        n = rng.choice([1, 1, 2, 2, 3, 3, 4])
        segs, k = [], 0
        for i in range(n):
            r = rng.random()
            if r < 0.42: segs.append("{p%d}" % k); k += 1
            elif r < 0.55 and i == n - 1: segs.append("{p%d...}" % k); k += 1
            else: segs.append(rng.choice(lits))
        return "/" + "/".join(segs), k
    routes = []   # (method, path)
    variants = []
    nv = rng.randint(2, 6)
    ctx = "Ctx" if rng.random() < 0.3 else None
    def ok(m, p, own):
        for m2, p2 in routes + own:
            if shape(p2) == shape(p):
                if m2 == m: return False
            elif overlap(p, p2): return False
        return True
    cnt = [0]
    for v in range(nv):
        own, nph = [], None
        for _ in range(rng.choice([1, 1, 2, 3])):
            for _try in range(30):
                if routes and rng.random() < 0.35:
                    p = rng.choice(routes)[1]; k = p.count("{")
                else:
                    p, k = ("*", 0) if rng.random() < 0.05 else rpath()
                if nph is not None and k != nph: continue
                # canonical placeholder names p0..pk in order for each path
                m = rng.choice(["GET", "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS"])
                if ok(m, p, own):
                    own.append((m, p)); nph = k
                    break
        if not own: continue
        routes += own
        fields = ["p%d:T%d" % (i, rng.randint(0, 4)) for i in range(nph)]
        G = (["G", "GR", "GS", "GC"] if ctx else ["G", "GR"])
        for i in range(rng.choice([0, 0, 1, 2])):
            fields.append("g%d:%s%d" % (i, rng.choice(G), cnt[0])); cnt[0] += 1
        if rng.random() < 0.3: fields.append("q:?" + rng.choice(["Q0", "Q1", "QM", "QV"]))
        r = rng.random()
        if r < 0.25: fields.append("b:@%s%d" % (rng.choice(["B", "BS", "BC"] if ctx else ["B"]), cnt[0])); cnt[0] += 1
        elif r < 0.4: fields.append("f:>%s%d" % ("FS" if ctx else "F", cnt[0])); cnt[0] += 1
        rng.shuffle(fields)
        variants.append(V("V%d" % v, [" ".join(r) for r in own], *fields))
    if rng.random() < 0.5 or not variants:
        fields = ["f:>%s%d" % ("FS" if ctx else "F", cnt[0])]
        if rng.random() < 0.4: fields.insert(rng.randint(0, 1), "g:G%d" % (cnt[0] + 1))
        variants.insert(rng.randint(0, len(variants)), V("Fb", [], *fields))
    return P("rand%d" % idx, *variants, ctx=ctx, tags=["random"])

# ---------------------------------------------------------------- emission
def rty(ty, progs=None):
    if ty == "Never": return "std::sync::mpsc::Sender<u8>"
    if ty.startswith("P:"): return "super::%s::T" % ty[2:]
    if ty in ("u32", "String", "Q0", "Q1", "QM", "QV"): return ty
    b = ty.rstrip("0123456789")
    n = ty[len(b):]
    return {"T": "Tok"}.get(b, b) + n
def sty(ty):
    if ty.startswith("P:"): return "Ty::FProg(&super::%s::PROG)" % ty[2:]
    if ty == "u32": return "Ty::U32"
    if ty == "String": return "Ty::Str"
    if ty[0] == "Q": return "Ty::Q(|s| serde_urlencoded::from_str::<%s>(s).map(|v| format!(\"{:?}\", v)).map_err(|e| e.to_string()))" % ty
    b = ty.rstrip("0123456789"); n = ty[len(b):]
    if b == "T": return "Ty::Tok(%s)" % n
    k = b[0]
    c = {"": "No", "R": "No", "S": "Whole", "C": "Sub"}[b[1:]]
    return "Ty::%s(%s, CtxSel::%s)" % (k, n, c)
def role(v, f):
    name, ty, attr = f
    if attr: return {"body": "Body", "query_params": "Query", "forward": "Fwd"}[attr]
    for _, p in v["routes"]:
        if "{%s}" % name in p or "{%s...}" % name in p: return "Ph"
    return "Guard"

def decl(p, name=None):
    """The Rust declaration."""
    generic = p["generic"]
    params, args = [], []
    out = []
    def fty(f):
        t = rty(f[1])
        if generic:
            params.append("P%d" % len(params)); args.append(t)
            return params[-1]
        return t
    if p["ctx"]: out.append("#[context(%s)]" % p["ctx"])
    name = name or ("S" if p["struct"] else "R")
    body = []
    for v in p["variants"]:
        attrs = "".join('#[%s("%s")] ' % (m.lower(), path) for m, path in v["routes"])
        fs = ", ".join(("#[%s] " % f[2] if f[2] else "") + ("pub " if p["struct"] else "") + "%s: %s" % (f[0], fty(f)) for f in v["fields"])
        fields = "{ %s }" % fs if v["fields"] else ""
        if p["struct"]:
            out.append(attrs)
            g = "<%s>" % ", ".join(params) if params else ""
            return "\n".join(out) + "\npub struct %s%s %s" % (name, g, fields or ";"), args
        body.append("    %s%s %s," % (attrs, v["name"], fields))
    g = "<%s>" % ", ".join(params) if params else ""
    return "\n".join(out) + "\npub enum %s%s {\n%s\n}" % (name, g, "\n".join(body)), args

def emit(p):
    src, args = decl(p)
    tname = "S" if p["struct"] else "R"
    full = tname + ("<%s>" % ", ".join(args) if args else "")
    vs, arms = [], []
    for v in p["variants"]:
        if any(f[1] == "Never" for f in v["fields"]) or (not v["routes"] and not any(f[2] == "forward" for f in v["fields"])):
            # can never be constructed
            pat = "R::%s { .. }" % v["name"]
            arms.append('%s => Obs { variant: "%s".into(), fields: vec![] }' % (pat, v["name"]))
            vs.append('Variant { name: "%s", routes: &[], fields: &[] }' % v["name"])
            continue
        fs = ", ".join('Field { name: "%s", role: Role::%s, ty: %s }' % (f[0], role(v, f), sty(f[1])) for f in v["fields"])
        rs = ", ".join('("%s", "%s")' % r for r in v["routes"])
        vs.append('Variant { name: "%s", routes: &[%s], fields: &[%s] }' % (v["name"], rs, fs))
        pat = ("S" if p["struct"] else "R::" + v["name"]) + (" { %s }" % ", ".join("%s: v%d" % (f[0], i) for i, f in enumerate(v["fields"])))
        def show(i, f):
            return "show(v%d).obs()" % i if f[1].startswith("P:") else "v%d.obs()" % i
        fo = ", ".join('("%s".to_string(), %s)' % (f[0], "super::%s::show(v%d).obs()" % (f[1][2:], i) if f[1].startswith("P:") else "v%d.obs()" % i) for i, f in enumerate(v["fields"]))
        arms.append('%s => Obs { variant: "%s".into(), fields: vec![%s] }' % (pat, v["name"], fo))
    ctx = p["ctx"] or "NoContext"
    imports = "use rt::*;" 
    return """// generated by gen.py
#![allow(unused_imports, dead_code, private_interfaces)]
mod decl {
use rt::types::{Q0, Q1, QM, QV, Ctx};
use hyperdrive::{FromRequest, NoContext};
use rt::alias::*;
#[derive(FromRequest)]
%s
pub type T = %s;
pub type C = %s;
}
pub use decl::{T, C};
use decl::*;
use rt::*;
pub fn show(x: T) -> Obs {
    #[allow(unreachable_patterns)]
    match x {
        %s
    }
}
pub static PROG: Prog = Prog {
    name: "%s", tags: &[%s],
    src: r####"%s"####,
    variants: &[%s],
    run: |e, req, ctx| rt::reqs::run::<T, _>(e, req, MkCtx::mk(ctx), show),
};
""" % (src, full, ctx, ",\n        ".join(arms), p["name"], ", ".join('"%s"' % t for t in p["tags"]), src, ",\n        ".join(vs))

def main():
    outdir, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    os.makedirs(outdir, exist_ok=True)
    rng = random.Random(seed)
    progs = fixed() + [rand_prog(rng, i) for i in range(n)]
    for f in os.listdir(outdir): os.unlink(os.path.join(outdir, f))
    for p in progs:
        rs = [r for v in p["variants"] for r in v["routes"]]
        for i, a in enumerate(rs):
            for b in rs[:i]:
                assert not (a[0] == b[0] if shape(a[1]) == shape(b[1]) else overlap(a[1], b[1])), (p["name"], a, b)
    listing = []
    for p in progs:
        with open(os.path.join(outdir, p["name"] + ".rs"), "w") as f: f.write(emit(p).replace("super::inner::T", "super::super::inner::T").replace("super::outer::T", "super::super::outer::T"))
        listing.append(dict(name=p["name"], src=decl(p)[0], deps=sorted({f[1][2:] for v in p["variants"] for f in v["fields"] if f[1].startswith("P:")})))
    json.dump(listing, open(os.path.join(outdir, "progs.json"), "w"), indent=1)
if __name__ == "__main__": main()
