"""Copies the real `futures` 0.1 from the cargo registry to out/futures; the only edits: the prelude
import line that Kani's toolchain rejects, a defined layout for three enums (so that their
discriminants stay concrete in the verifier), and a manifest without dev-dependencies and benches."""
import glob, os, re, shutil
from common import OUT, Broken

def make():
    dst = os.path.join(OUT, "futures")
    if os.path.exists(os.path.join(dst, "ok2")): return
    src = sorted(glob.glob(os.path.expanduser("~/.cargo/registry/src/*/futures-0.1.*")))
    if not src: raise Broken("no futures 0.1 in the cargo registry")
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(os.path.join(src[-1], "src"), os.path.join(dst, "src"))
    for d, _, fs in os.walk(os.path.join(dst, "src")):
        for f in fs:
            p = os.path.join(d, f)
            t = open(p).read()
            n = t.replace("use std::prelude::v1::*;", "#[allow(unused_imports)] use std::{boxed::Box, vec::Vec, string::{String, ToString}, borrow::ToOwned};")
            for e in ("pub enum Chain<A, B, C>", "pub enum Either<A, B>", "enum _Lazy<F, R>"):
                if f in ("chain.rs", "either.rs", "lazy.rs") and "\n" + e in n: n = n.replace("\n" + e, "\n#[repr(u8)] " + e)
            if n != t: open(p, "w").write(n)
    v = re.search(r"futures-(0\.1\.\d+)$", src[-1]).group(1)
    open(os.path.join(dst, "Cargo.toml"), "w").write('[package]\nname = "futures"\nversion = "%s"\npublish = false\n[features]\nuse_std = []\nwith-deprecated = []\nnightly = []\ndefault = ["use_std", "with-deprecated"]\n[dependencies]\n[workspace]\n' % v)
    open(os.path.join(dst, "ok2"), "w").write("")
if __name__ == "__main__": make()
