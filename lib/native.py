"""The replay driver: builds the real crates from /repo, runs them on scripted inputs and compares
with the reference semantics. Finds concrete failing inputs; also validates the contracts assumed of
dependencies. Bounded by construction; never counted as proved."""
import json, os, re, subprocess
from common import *

ND = os.path.join(VERIF, "native")
TD = os.path.join(OUT, "target-native")
GEN = os.path.join(OUT, "gen")
ZOO = os.path.join(OUT, "zoo")
ENV = dict(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", HV_GEN=GEN, HV_ZOO=ZOO, RUSTFLAGS="-Awarnings")
BIN = os.path.join(TD, "debug")

class Native:
    def __init__(self):
        self.rejected = []       # generated programs the derive rejects
        self.uncompilable = []   # generated programs whose expansion does not compile
        self.zoo_bad = []        # zoo programs that do not compile
        self.dropped = 0
        self._built = set()

    def _cargo(self, pkg, messages=False):
        cmd = ["cargo", "build", "--target-dir", TD, "-p", pkg] + (["--message-format=json"] if messages else [])
        return run(cmd, cwd=ND, timeout=800, **ENV)

    def drv(self):
        if "drv" not in self._built:
            os.makedirs(GEN, exist_ok=True)
            os.makedirs(ZOO, exist_ok=True)
            rc, out, err = self._cargo("drv")
            if rc: raise Broken("cannot build the derive as a library:\n" + err[-3000:])
            self._built.add("drv")
            note("drv built")
        return self

    def _attributed(self, pkg, root, listing, write):
        """Builds `pkg`, dropping generated modules that don't compile."""
        bad = []
        for _ in range(6):
            write(listing)
            rc, out, err = self._cargo(pkg, True)
            if rc == 0: return listing, bad
            blamed, other = {}, []
            for line in out.splitlines():
                try: m = json.loads(line)
                except ValueError: continue
                if m.get("reason") != "compiler-message" or m["message"]["level"] != "error": continue
                files = []
                def walk(sp):
                    files.append(sp["file_name"])
                    if sp.get("expansion"): walk(sp["expansion"]["span"])
                for sp in m["message"]["spans"]: walk(sp)
                for c in m["message"].get("children", []):
                    for sp in c["spans"]: walk(sp)
                hit = [os.path.basename(f)[:-3] for f in files if os.path.dirname(os.path.abspath(os.path.join(ND, f))) == root and not f.endswith("all.rs")]
                if hit: blamed.setdefault(hit[0], m["message"]["rendered"])
                elif m["message"]["spans"]: other.append(m["message"]["rendered"])
            gone = {p["name"] for p in listing if p["name"] in blamed}
            if not gone:
                raise Broken("cannot build %s:\n%s\n%s" % (pkg, "".join(other)[:3000], err[-2000:]))
            bad += [dict(name=p["name"], src=p.get("src") or open(os.path.join(root, p["name"] + ".rs")).read(), error=blamed[p["name"]]) for p in listing if p["name"] in gone]
            while True:
                more = {p["name"] for p in listing if p["name"] not in gone and gone & set(p.get("deps", []))}
                if not more: break
                gone |= more
            listing = [p for p in listing if p["name"] not in gone]
        raise Broken("%s: too many rounds" % pkg)

    def progs(self):
        if "progs" in self._built: return self
        self.drv()
        n = 60 if TIER == "thorough" else 14
        rc, o, e = run(["python3", os.path.join(ND, "gen.py"), GEN, str(SEED), str(n)])
        if rc: raise Broken("gen.py: " + e)
        rc, o, e = run([os.path.join(BIN, "drv"), "verdicts", os.path.join(GEN, "progs.json")])
        if rc: raise Broken("drv verdicts: " + e[-2000:])
        rej = {v["name"]: v["reject"] for v in json.loads(o) if v["reject"]}
        listing = json.load(open(os.path.join(GEN, "progs.json")))
        self.total = len(listing)
        self.rejected = [dict(name=p["name"], source=p["src"], expected="accepted", got="rejected: " + rej[p["name"]]) for p in listing if p["name"] in rej]
        gone = set(rej)
        while True:
            more = {p["name"] for p in listing if p["name"] not in gone and gone & set(p["deps"])}
            if not more: break
            gone |= more
        listing = [p for p in listing if p["name"] not in gone]
        def write(ls):
            with open(os.path.join(GEN, "all.rs"), "w") as f:
                f.write("".join('#[path = "%s/%s.rs"] pub mod %s;\n' % (GEN, p["name"], p["name"]) for p in ls))
                f.write("pub static ALL: &[&rt::Prog] = &[%s];\n" % ", ".join("&%s::PROG" % p["name"] for p in ls))
        listing, bad = self._attributed("progs", GEN, listing, write)
        self.uncompilable = [dict(name=b["name"], source=b["src"], expected="accepted and compiled", got="the expansion does not compile: " + b["error"]) for b in bad]
        self.kept = [p["name"] for p in listing]
        self._built.add("progs")
        note("progs built: %d of %d programs" % (len(listing), self.total))
        return self

    def zoo(self):
        if "zoo" in self._built: return self
        os.makedirs(GEN, exist_ok=True)
        rc, o, e = run(["python3", os.path.join(ND, "genzoo.py"), ZOO, str(SEED), "40" if TIER == "thorough" else "10"])
        if rc: raise Broken("genzoo.py: " + e)
        listing = json.load(open(os.path.join(ZOO, "progs.json")))
        self.zoo_total = len(listing)
        def write(ls):
            with open(os.path.join(ZOO, "all.rs"), "w") as f:
                f.write("".join('#[path = "%s/%s.rs"] pub mod %s;\n' % (ZOO, p["name"], p["name"]) for p in ls))
                f.write("pub static ALL: &[(&str, fn(&mut Vec<String>))] = &[%s];\n" % ", ".join('("%s", %s::check)' % (p["name"], p["name"]) for p in ls))
        listing, bad = self._attributed("zoo", ZOO, listing, write)
        self.zoo_bad = [dict(name=b["name"], source=b["src"], expected="accepted and compiled", got=b["error"]) for b in bad]
        rc, o, e = run([os.path.join(BIN, "zoo")], timeout=120)
        self.zoo_fail = [dict(program=l.split(" ", 2)[1], source=open(os.path.join(ZOO, l.split(" ", 2)[1] + ".rs")).read(), got=l) for l in o.splitlines() if l.startswith("BAD ")]
        if rc or "CHECKED" not in o:
            self.zoo_fail.append(dict(program="zoo", got="the zoo crashed: rc=%s %s %s" % (rc, o[-500:], e[-1500:])))
        self._built.add("zoo")
        note("zoo built and run: %d programs" % len(listing))
        return self

    def command(self, binary, *args):
        getattr(self, binary)()
        try:
            rc, o, e = run([os.path.join(BIN, binary)] + list(args), timeout=700)
        except subprocess.TimeoutExpired:
            return dict(evaluations=1, distinct=1, samples=[" ".join(args)], violations=[dict(input=" ".join(args), got="does not terminate within 700 s")])
        if rc or not o.strip():
            # the code under test brought the whole process down
            return dict(evaluations=1, distinct=1, samples=[" ".join(args)], violations=[dict(input="%s %s (seed %d)" % (binary, " ".join(args), SEED), got="the process died: rc=%s\n%s" % (rc, e[-2000:]))])
        return json.loads(o.strip().splitlines()[-1])

# property -> (binary, args) commands
COMMANDS = {
    "C01": [("progs", "dispatch", "C01")],
    "C02": [("drv", "overlap")],
    "C03": [("progs", "dispatch", "C03")],
    "C04": [("progs", "dispatch", "C04")],
    "C05": [("progs", "dispatch", "C05")],
    "C06": [("progs", "dispatch", "C06")],
    "C07": [("progs", "dispatch", "C07")],
    "C08": [("progs", "dispatch", "C08")],
    "C09": [("progs", "bodies")],
    "C10": [("progs", "services", "C10")],
    "C11": [("progs", "services", "C11")],
    "C12": [("progs", "errors")],
    "C13": [("progs", "catching")],
    "C14": [("progs", "blocking")],
    "C15": [("drv", "asref"), ("progs", "dispatch", "C15")],
    "C16": [("drv", "malformed")],
    "C17": [("progs", "dispatch", "C17"), ("progs", "services", "C17")],
    "C18": [("progs", "services", "C18")],
}

def run_property(pid):
    """Returns dict(evaluations, distinct, samples, violations, notes)."""
    n = Native()
    ev = dict(evaluations=0, distinct=0, samples=[], violations=[], parts=[])
    for c in COMMANDS[pid]:
        r = n.command(*c)
        note(" ".join(c), "evaluations", r["evaluations"], "violations", len(r["violations"]))
        ev["evaluations"] += r["evaluations"]
        ev["distinct"] += r["distinct"]
        ev["samples"] += r["samples"][:3]
        ev["violations"] += [dict(v, _cmd=list(c)) for v in r["violations"]]
        ev["parts"].append(dict(command=" ".join(c), **{k: v for k, v in r.items() if k not in ("samples", "violations")}))
    if pid == "C15":
        n.zoo()
        ev["evaluations"] += n.zoo_total
        ev["distinct"] += n.zoo_total
        ev["violations"] += [dict(b, _cmd=["zoo"]) for b in n.zoo_bad if b["name"].startswith("ctx_")] + [dict(f, _cmd=["zoo"]) for f in n.zoo_fail if f["program"] != "qopt"]
        ev["parts"].append(dict(command="zoo", programs=n.zoo_total))
    if pid == "C06":
        n.zoo()
        ev["evaluations"] += 4
        ev["distinct"] += 4
        ev["violations"] += [dict(f, _cmd=["zoo"]) for f in n.zoo_fail if f["program"] == "qopt"] + [dict(b, _cmd=["zoo"]) for b in n.zoo_bad if b["name"] == "qopt"]
        ev["parts"].append(dict(command="zoo qopt", cases=4))
    if pid == "C16":
        n.progs()
        n.zoo()
        ev["evaluations"] += n.total + n.zoo_total
        ev["distinct"] += n.total + n.zoo_total
        ev["violations"] += [dict(b, _cmd=["progs"]) for b in n.rejected + n.uncompilable]
        ev["violations"] += [dict(b, _cmd=["zoo"]) for b in n.zoo_bad if b["name"].startswith("fr_")]
        ev["parts"].append(dict(command="compile programs", programs=n.total, zoo=n.zoo_total))
    ev["native"] = n
    return ev
