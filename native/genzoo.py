#!/usr/bin/env python3
"""Generates programs deriving RequestContext (C15) and compile-only programs (C16).

usage: genzoo.py OUTDIR SEED NRANDOM.  zoo/mods/*.rs are copied as they are.
"""
import sys, os, random, json, shutil

HEAD = """#![allow(dead_code, unused_imports, private_interfaces)]
use hyperdrive::{RequestContext, NoContext};
use crate::sup::*;
"""
def check(fn, ty, marked, others, val, addr):
    out = ["    let x: %s = %s;" % (ty, val)]
    out.append('    same(v, "%s: AsRef<Self>", <%s as AsRef<%s>>::as_ref(&x), &x);' % (fn, ty, ty))
    out.append("    let _: &NoContext = x.as_ref();")
    out.append("    is_ctx(&x);")
    for t, place in marked:
        out.append('    same(v, "%s: AsRef<%s>", <%s as AsRef<%s>>::as_ref(&x), &x.%s);' % (fn, t, ty, t, place))
    for t in others:
        out.append('    if Probe::<%s, %s>::HAS { v.push("%s: unexpected AsRef<%s>".into()); }' % (ty, t, fn, t))
    return "\n".join(out)

def program(i, rng):
    """A few structs/enums per module."""
    out, checks = [HEAD], []
    for k in range(4):
        name = "S%d" % k
        n = rng.randint(0, 6)
        pool = ["A0", "A1", "A2", "A3", "A4", "Vec<A0>", "(A1, A2)", "Option<Box<A3>>", "[A4; 2]", "std::string::String"]
        kind = rng.choice(["named", "tuple", "named", "tuple", "unit", "enum"])
        gen = rng.random() < 0.35
        tys, marked, used = [], [], set()
        for f in range(n):
            t = rng.choice(pool)
            if gen and rng.random() < 0.3: t = "W<T>"
            tys.append(t)
        for f, t in enumerate(tys):
            if t not in used and rng.random() < 0.5:
                used.add(t); marked.append(f)
        if gen and "W<T>" not in tys: tys.append("W<T>")
        g = "<T>" if gen else ""
        names = ["a", "inner", "r#type", "x0", "self_", "b_c", "zz"]
        at = lambda f: ("#[as_ref] " if f in marked else "") if kind != "enum" else ""
        inst = lambda t: t.replace("<T>", "<A9>")
        val = {"A0": "A0(1)", "A1": "A1(2)", "A2": "A2(3)", "A3": "A3(4)", "A4": "A4(5)", "Vec<A0>": "vec![A0(1)]", "(A1, A2)": "(A1(1), A2(2))", "Option<Box<A3>>": "None", "[A4; 2]": "[A4(1), A4(2)]", "std::string::String": "String::new()", "W<T>": "W(A9(9))"}
        doc = rng.choice(["", "/// docs\n", "#[derive(Debug)]\n", "#[rustfmt::skip]\n", "#[allow(unused)]\n"])
        if kind == "named":
            out.append("%s#[derive(RequestContext)]\npub struct %s%s { %s }" % (doc, name, g, ", ".join(at(f) + "%s: %s" % (names[f], t) for f, t in enumerate(tys))))
            v = "%s { %s }" % (name, ", ".join("%s: %s" % (names[f], val[t]) for f, t in enumerate(tys)))
            place = lambda f: names[f]
        elif kind == "tuple":
            out.append("%s#[derive(RequestContext)]\npub struct %s%s(%s);" % (doc, name, g, ", ".join(at(f) + t for f, t in enumerate(tys))))
            v = "%s(%s)" % (name, ", ".join(val[t] for t in tys))
            place = lambda f: str(f)
        elif kind == "unit":
            out.append("%s#[derive(RequestContext)]\npub struct %s;" % (doc, name)); v = name; marked = []; g = ""
        else:
            out.append("%s#[derive(RequestContext)]\npub enum %s%s { First, Second(%s) }" % (doc, name, g, ", ".join(tys)))
            v = rng.choice(["%s::First" % name, "%s::Second(%s)" % (name, ", ".join(val[t] for t in tys)) if tys else "%s::Second()" % name]); marked = []
            place = None
        ty = name + ("<A9>" if g else "")
        m = [(inst(tys[f]), place(f)) for f in marked]
        others = [inst(t) for t in pool + ["W<T>", "A9", "u8", "str", "[u8]"] if inst(t) not in [x for x, _ in m]]
        checks.append(check("zoo %d %s" % (i, name), ty, m, others, v, True))
    out.append("pub fn check(v: &mut Vec<String>) {\n" + "\n".join("    {\n%s\n    }" % c for c in checks) + "\n}")
    return "\n".join(out)

def main():
    outdir, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    os.makedirs(outdir, exist_ok=True)
    for f in os.listdir(outdir): os.unlink(os.path.join(outdir, f))
    rng = random.Random(seed * 1000003 + 17)
    names = []
    for i in range(n):
        name = "ctx_r%d" % i
        open(os.path.join(outdir, name + ".rs"), "w").write(program(i, rng)); names.append(name)
    mods = os.path.join(os.path.dirname(os.path.abspath(__file__)), "zoo", "mods")
    for f in sorted(os.listdir(mods)):
        shutil.copy(os.path.join(mods, f), outdir); names.append(f[:-3])
    json.dump([dict(name=x) for x in names], open(os.path.join(outdir, "progs.json"), "w"))
if __name__ == "__main__": main()
