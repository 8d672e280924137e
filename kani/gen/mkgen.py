#!/usr/bin/env python3
"""Writes gen/src/programs.rs (derived types), gen/src/native.rs (for gentab) and gen/src/proofs.rs
(the Kani harnesses) from the description of the programs below. A harness covers one program and
one class of request paths (those matched by one pattern, or by none); everything else is symbolic."""
import os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "src/")
M = dict(GET=0, HEAD=1, POST=2, PUT=3, DELETE=4, CONNECT=5, OPTIONS=6, TRACE=7, PATCH=8)
# field: (name, type, role); roles: placeholder slot 0..2, 'q', guard slot 4..7, 'b', 'f'
# variant: (name, [(METHOD, pattern)], fields, struct-like?)
# class: (name, representative, [(start, end) of each placeholder position], {METHOD: variant}, {slot: position})
PROGRAMS = []
def prog(name, cx, variants, classes, fallback=None, struct=False, generic=None): PROGRAMS.append(dict(name=name, cx=cx, variants=variants, classes=classes, fallback=fallback, struct=struct, generic=generic))

prog("Basic", "NoContext", [
    ("Index", [("GET", "/")], []),
    ("GetU", [("GET", "/u/{a}")], [("a", "P0", 0), ("g", "G0", 4), ("h", "G1", 5)]),
    ("PostU", [("POST", "/u/{b}")], [("body", "B", "b"), ("b", "P1", 1)]),
    ("Never", [], []),
    ("Two", [("PUT", "/x/{b}/{a}"), ("DELETE", "/y/{b}/{a...}")], [("a", "P0", 0), ("q", "Q", "q"), ("b", "P1", 1), ("g", "G0", 4)]),
    ("Star", [("OPTIONS", "*")], []),
    ("Head", [("HEAD", "/h.x")], []),
    ("Get", [("GET", "/h.x")], [("q", "Q", "q")]),
    ("S", [("POST", "/x/{a}/{b}")], [("b", "P1", 1), ("a", "P2", 2)]),
], [
    ("none", "/nothing/here", [], {}, {}),
    ("index", "/", [], {"GET": "Index", "HEAD": "Index"}, {}),
    ("u", "/u/zz", [(3, 5)], {"GET": "GetU", "HEAD": "GetU", "POST": "PostU"}, {0: 0, 1: 0}),
    ("x", "/x/yy/zzz", [(3, 5), (6, 9)], {"PUT": "Two", "POST": "S"}, {1: 0, 0: 1}),
    ("y", "/y/yy/zz/q", [(3, 5), (6, 10)], {"DELETE": "Two"}, {1: 0, 0: 1}),
    ("star", "*", [], {"OPTIONS": "Star"}, {}),
    ("h", "/h.x", [], {"GET": "Get", "HEAD": "Head"}, {}),
])
PROGRAMS[0]["classes"][3] = ("x", "/x/yy/zzz", [(3, 5), (6, 9)], {"PUT": "Two", "POST": "S"}, {"Two": {1: 0, 0: 1}, "S": {2: 0, 1: 1}})
prog("Fall", "NoContext", [
    ("A", [("POST", "/u/{a}")], [("a", "P0", 0), ("f", "F", "f")]),
    ("C", [("PUT", "/u/{b}")], [("b", "P1", 1), ("g", "G0", 4)]),
    ("S", [("GET", "/s")], []),
    ("Fb", [], [("f", "F", "f"), ("g", "G1", 5)]),
], [
    ("none", "/nothing/here", [], {}, {}),
    ("u", "/u/zz", [(3, 5)], {"POST": "A", "PUT": "C"}, {0: 0, 1: 0}),
    ("s", "/s", [], {"GET": "S", "HEAD": "S"}, {}),
], fallback="Fb")
prog("Ctx", "Cx", [
    ("Ctx", [("GET", "/c/{r...}")], [("q", "Q", "q"), ("g", "C0", 6), ("h", "G0", 4), ("b", "BC", "b"), ("r", "P2", 2), ("i", "C1", 7)]),
], [
    ("none", "/nothing/here", [], {}, {}),
    ("c", "/c/d/e", [(3, 6)], {"GET": "Ctx", "HEAD": "Ctx"}, {2: 0}),
], struct=True)
prog("CtxFall", "Cx", [
    ("V", [("GET", "/v/{a}"), ("PATCH", "/w/{a}")], [("a", "P0", 0), ("c", "C0", 6), ("f", "FC", "f")]),
    ("Fb", [], [("f", "FC", "f"), ("c", "C0", 6)]),
], [
    ("none", "/nothing/here", [], {}, {}),
    ("v", "/v/zz", [(3, 5)], {"GET": "V", "HEAD": "V"}, {0: 0}),
    ("w", "/w/zz", [(3, 5)], {"PATCH": "V"}, {0: 0}),
], fallback="Fb")
prog("Gen", "NoContext", [
    ("X", [("GET", "/g/{a}")], [("a", "T", 0), ("g", "U", 4), ("b", "V", "b")]),
    ("Y", [("POST", "/g/{b}")], [("b", "P1", 1), ("g", "G1", 5)]),
], [("g", "/g/zz", [(3, 5)], {"GET": "X", "HEAD": "X", "POST": "Y"}, {0: 0, 1: 0})],
    generic=("<T, U, V>", "<P0, G0, B>"))
prog("Only", "NoContext", [("Only", [], [("f", "F", "f"), ("g", "G0", 4)])], [("none", "/nothing/here", [], {}, {})], fallback="Only", struct=True)

def attrs(v): return " ".join('#[%s("%s")]' % (m.lower(), p) for m, p in v[1])
def field(f):
    n, t, r = f
    return {"q": "#[query_params] ", "b": "#[body] ", "f": "#[forward] "}.get(r, "") + n + ": " + t
def decl(p):
    cx = "" if p["cx"] == "NoContext" else "#[context(%s)] " % p["cx"]
    g = p["generic"][0] if p["generic"] else ""
    if p["struct"]:
        v = p["variants"][0]
        return "#[derive(FromRequest)]\n%s%s\npub struct %s { %s }\n" % (cx, attrs(v), p["name"], ", ".join("pub " + f if not f.startswith("#") else f.replace("] ", "] pub ", 1) for f in map(field, v[2])))
    return "#[derive(FromRequest)]\n%spub enum %s%s {\n%s}\n" % (cx, p["name"], g, "".join("    %s %s%s,\n" % (attrs(v), v[0], " { %s }" % ", ".join(map(field, v[2])) if v[2] else "") for v in p["variants"]))
def ty(p): return p["name"] + (p["generic"][1] if p["generic"] else "")
def cxval(p): return {"NoContext": "NoContext", "Cx": "cx"}[p["cx"]]

programs = "//! Written by mkgen.py.\n#![allow(dead_code)]\nuse crate::env::*;\nuse hyperdrive::{FromRequest, NoContext};\n\n" + "\n".join(map(decl, PROGRAMS))
native = "//! Written by mkgen.py. Runs every program on every class, so that all its patterns are compiled.\nuse crate::{env::*, programs::*};\nuse hyper::Body;\nuse hyperdrive::{FromRequest, NoContext};\nuse std::sync::Arc;\n\n"
native += "pub struct Class { pub name: &'static str, pub path: &'static str, pub spans: &'static [(usize, usize)] }\npub struct Program { pub name: &'static str, pub run: fn(u8), pub classes: &'static [Class] }\n"
for p in PROGRAMS:
    native += "fn run_%s(method: u8) {\n    let r = Arc::new(Req { method, uri: 0, version: 0, headers: 0, hedits: 0, ext: 0, eedits: 0 }.make());\n" % p["name"].lower()
    if p["cx"] == "Cx": native += "    let cx = Cx { x: Part(0), p: Part(0), y: Other(0), o: Other(0) };\n"
    native += "    drop(<%s>::from_request_and_body(&r, Body::with_id(0), %s));\n}\n" % (ty(p), cxval(p))
native += "pub static PROGRAMS: &[Program] = &[\n"
for p in PROGRAMS:
    native += '    Program { name: "%s", run: run_%s, classes: &[%s] },\n' % (p["name"].lower(), p["name"].lower(), ", ".join('Class { name: "%s", path: "%s", spans: &%s }' % (c[0], c[1], str(c[2]).replace("(", "(")) for c in p["classes"]))
native += "];\n"

proofs = '''//! Written by mkgen.py: one proof per program and class of request paths.
use crate::{env::*, programs::*, spec::*};
use futures::{Async, Future};
use hyperdrive::{FromRequest, NoContext};

'''
def stages(v):
    g = [(f, f[2]) for f in v[2] if isinstance(f[2], int) and f[2] >= 4]
    l = [(f, {"b": 8, "f": 9}[f[2]]) for f in v[2] if f[2] in ("b", "f")]
    return g + l
def phs(v): return [f[2] for f in v[2] if isinstance(f[2], int) and f[2] < 4]
def subsets(l): return [[x for k, x in enumerate(l) if n >> k & 1] for n in range(1 << len(l))]
# a case: (method or None for the others, slots that fail, how the forwarded type fails, whether the
# query fails, slots that are pending once)
def decoding(m, v, bad=()):
    st = [s for _, s in stages(v)]
    o = [(m, list(bad) + x, 0, False, []) for x in subsets(phs(v)) if x]
    if any(f[2] == "q" for f in v[2]): o.append((m, list(bad), 0, True, []))
    for s in st:
        o += [(m, list(bad) + [s], k, False, []) for k in (range(4) if s == 9 else [0])]
    o += [(m, list(bad), 0, False, x) for x in [[]] + [[s] for s in st]]
    return o
def cases(p, c):
    cname, _, spans, routes, pos = c
    variants = {v[0]: v for v in p["variants"]}
    o = []
    for m, vn in routes.items():
        o += decoding(m, variants[vn]) if m != "HEAD" or routes.get("GET") != vn else [x for x in decoding(m, variants[vn]) if not x[4]][-2:]
    slots = sorted({s for vn in routes.values() for s in phs(variants[vn])})
    if p["fallback"]:
        fb = variants[p["fallback"]]
        o += decoding(None, fb)
        o += [(None, bad + [9], k, False, []) for bad in subsets(slots) if bad for k in (2, 3)]
    else: o += [(None, bad, 0, False, []) for bad in subsets(slots)]
    return o
def harness(p, c, case, name):
    cname, _, spans, routes, pos = c
    method, bad, kind, qbad, pend = case
    variants = {v[0]: v for v in p["variants"]}
    o = ["#[inline(never)]", "fn %s() {" % name]
    # what is routed to another method decodes nothing it isn't compared with, so failures are tried with one such method
    other = method is None and p["fallback"] and routes and (bad or pend)
    o.append("    let i = input(%s);" % ("Some(%d)" % M[method] if method else "Some(7)" if other else "None"))
    if not method and not other: o.append("    kani::assume(%s);" % (" && ".join("i.method != %d" % M[m] for m in routes) or "true"))
    o.append("    plan(%s, %s, %d, %s);" % (" | ".join("1 << %d" % b for b in bad) or "0", " | ".join("1 << %d" % b for b in pend) or "0", kind, "true" if qbad else "false"))
    per = pos if any(isinstance(k, str) for k in pos) else None
    if per is None:
        for s, q in pos.items(): o.append("    unsafe { POS[%d] = %d; }" % (s, q))
    elif method:
        for s, q in per[routes[method]].items(): o.append("    unsafe { POS[%d] = %d; }" % (s, q))
    else: o.append("    unsafe { ANYPOS = true; }")
    if not method: o.append("    unsafe { ANYTIME = true; }")
    if p["cx"] == "Cx": o.append("    let cx = any_cx();")
    o.append("    let mut f = <%s>::from_request_and_body(&i.req, i.body(), %s);" % (ty(p), cxval(p)))
    o.append("    let %sr = f.poll();" % ("mut " if pend else ""))
    for s in pend:
        o.append('    assert!(match &r { Ok(Async::NotReady) => true, _ => false } && unsafe { SEEN[%d].starts == 1 }, "C07 pending while what was started is");' % s)
        o.append("    std::mem::forget(std::mem::replace(&mut r, f.poll()));")
    T = p["name"]
    def con(v): return T if p["struct"] else "%s::%s" % (T, v[0])
    def decoded(v, lab, ind, fallback=False, wrong=None):
        """the spec of decoding variant v"""
        I = "    " * ind
        ph = [f for f in v[2] if isinstance(f[2], int) and f[2] < 4]
        ps = [f[2] for f in ph]
        q = [f for f in v[2] if f[2] == "q"]
        st = stages(v)
        # which placeholders fail
        if ps:
            o.append(I + "if %s {" % " || ".join("fails(%d)" % s for s in ps))
            o.append(I + "    path_failed(err(&r), &[%s]);" % ", ".join(map(str, ps)) if False else I + "    path_failed(err(&r), %s);" % " | ".join("(1 << %d)" % s for s in ps))
            o.append(I + "} else {")
        else: o.append(I + "{")
        if q: o.append(I + "    query(); if query_fails() { query_failed(err(&r)); } else {")
        else: o.append(I + '    assert!(unsafe { serde_urlencoded::CALLS } == 0, "C06 the query is only decoded for query fields"); {')
        # stages in order
        depth = 0
        for j, (f, s) in enumerate(st):
            J = I + "        "
            o.append(J + "stage(%d, %d, &i);" % (s, j))
            if p["cx"] == "Cx":
                e = {6: "cx.p.0, 0", 7: "cx.x.0, 0", 8: "cx.o.0, 0", 9: "cx.p.0, cx.y.0"}.get(s)
                if e: o.append(J + "context(%d, %s);" % (s, e))
            if s == 9 and wrong is not None:
                o.append(J + "if fails(9) { merged(err(&r), %s, %d); } else {" % (wrong, j + 1))
            elif s == 9: o.append(J + "if fails(9) { forward_failed(err(&r), %d); } else {" % (j + 1))
            else: o.append(J + "if fails(%d) { stage_failed(%d, err(&r), %d); } else {" % (s, s, j + 1))
            depth += 1
        J = I + "        "
        conds = ["%s.0 == unsafe { %s }" % (f[0], "serde_urlencoded::VALUE" if f[2] == "q" else "PLAN[%d].val" % {"b": 8, "f": 9}.get(f[2], f[2])) for f in v[2]]
        o.append(J + "unsafe { assert!(CLOCK == %d, \"C07 nothing else is started\"); }" % (2 * len(st)))
        o.append(J + "match &r {")
        pat = con(v) + (" { %s }" % ", ".join(f[0] for f in v[2]) if v[2] else "")
        # values, labelled by role
        asserts = []
        for f in v[2]:
            l = "C05" if isinstance(f[2], int) and f[2] < 4 else "C06" if f[2] == "q" else "C07" if f[2] != "f" else "C08"
            val = "serde_urlencoded::VALUE" if f[2] == "q" else "PLAN[%d].val" % {"b": 8, "f": 9}.get(f[2], f[2])
            asserts.append('assert!(unsafe { %s.0 == %s }, "%s field `%s` holds what was decoded for it");' % (f[0], val, l, f[0]))
        for s in ps: asserts.append('assert!(unsafe { SEEN[%d].starts } > 0, "C05 placeholder field %d was converted");' % (s, s))
        o.append(J + "    Ok(Async::Ready(%s)) => { %s }" % (pat, " ".join(asserts)))
        what = "the fallback is chosen" if fallback else "the matching route's variant is chosen"
        o.append(J + '    _ => assert!(false, "%s %s"),' % (lab, what))
        o.append(J + "}")
        o.append(J + "}" * depth)
        o.append(I + "    }")
        o.append(I + "}")
    if method:
        v = variants[routes[method]]
        decoded(v, "C03" if method == "HEAD" else "C01", 1)
    else:
        allowed = None
        if routes:
            parts = []
            for m, vn in routes.items():
                ps = phs(variants[vn])
                c_ = " || ".join("fails(%d)" % s for s in ps)
                parts.append("(if %s { 0 } else { 1 << %d })" % (c_, M[m]) if ps else "(1 << %d)" % M[m])
            allowed = " | ".join(parts)
        if p["fallback"]: decoded(variants[p["fallback"]], "C08", 1, True, allowed)
        elif routes: o.append("    wrong_method(err(&r), %s);" % allowed)
        else: o.append("    not_found(err(&r));")
    o.append("    std::mem::forget((r, f, i));")
    o.append("}")
    return "\n".join(o) + "\n"
tags = {}
for p in PROGRAMS:
    for c in p["classes"]:
        name = "%s_%s" % (p["name"].lower(), c[0])
        for k, x in enumerate(cases(p, c)):
            m, bad, kind, qbad, pend = x
            v = [v for v in p["variants"] if v[0] == (c[3].get(m) if m else p["fallback"])]
            st = [s for _, s in stages(v[0])] if v else []
            n = "%s_%s" % (name, (m or "other").lower()) + "".join("_bad%d" % b for b in bad) + ("_kind%d" % kind if kind else "") + ("_query" if qbad else "") + "".join("_pend%d" % b for b in pend)
            t = set()
            ok = not bad and not qbad
            if ok and not pend: t.add("C01")
            if m == "HEAD" and not pend or m == "GET" and ok and not pend: t.add("C03")
            if not m and not p["fallback"]: t |= {"C04", "C01"} if not bad else {"C04"}
            if m and (any(b < 4 for b in bad) or ok and not pend and phs(v[0])): t.add("C05")
            if v and any(f[2] == "q" for f in v[0][2]) and not any(b < 4 for b in bad) and (not pend): t.add("C06")
            if st and not any(b < 4 for b in bad) and not kind: t.add("C07")
            if p["fallback"] and not m or 9 in st and not pend: t.add("C08")
            if p["cx"] != "NoContext" and st and ok and not pend: t.add("C15")
            if st and ok and not pend: t.add("C17")
            tags["proofs::" + n] = sorted(t)
            proofs += "/// %s; failing: %s; forward kind %d; query %s; pending: %s\n#[kani::proof]\n#[kani::unwind(1)]\n" % (x[0] or "other methods", x[1], x[2], "fails" if x[3] else "decodes", x[4])
            h = harness(p, c, x, n).replace("#[inline(never)]\n", "").replace("() {\n", "() {\n    crate::tables::%s();\n" % name, 1)
            proofs += h[:h.rindex("    std::mem")] + '    kani::cover!(true, "end reached");\n' + h[h.rindex("    std::mem"):] + "\n"
for n in ("structs", "generics", "enums"): tags["ctx::proofs::" + n] = ["C15"]
open(D + "programs.rs", "w").write(programs)
open(D + "native.rs", "w").write(native)
open(D + "proofs.rs", "w").write(proofs)
import json
# over 45 s: for the thorough tier
SLOW = "basic_u_get basic_u_get_bad4 basic_u_get_bad5 basic_u_get_pend4 basic_u_get_pend5 basic_u_head basic_u_head_bad5 basic_u_other basic_u_other_bad1 basic_x_other basic_x_other_bad1 basic_x_other_bad1_bad2 basic_x_other_bad2 ctx_c_get ctx_c_get_bad4 ctx_c_get_bad6 ctx_c_get_bad7 ctx_c_get_bad8 ctx_c_get_pend4 ctx_c_get_pend6 ctx_c_get_pend7 ctx_c_get_pend8 ctx_c_head ctx_c_head_bad8 ctx_c_other ctxfall_v_other ctxfall_w_other fall_s_other fall_u_other".split()
slow = lambda n: n[8:] in SLOW
json.dump({n: dict(props=t, slow=slow(n)) for n, t in tags.items()}, open(os.path.join(D, "..", "harnesses.json"), "w"), indent=0)
for i in range(1, 19):
    n = sum("C%02d" % i in t for t in tags.values())
    if n: print("C%02d" % i, n)
print(len(tags))
