"""Runs the Kani harnesses of kani/<crate> against /repo's current sources.

Result: per harness verified / failed (with the failed obligations) / undecided. Only a failed
obligation that states a property (description "Cnn ..."), a panic inside /repo's sources, or a
`never:` cover that is reachable counts as failed; everything else that keeps a harness from being
verified (unsupported construct, unwinding bound, solver limit, stand-in lacking an item the code now
uses) leaves it undecided."""
import json, os, re, shutil, subprocess, tempfile
from common import *
import mkfutures

KD = os.path.join(VERIF, "kani")
FLAGS = ["-Z", "restrict-vtable", "-Z", "stubbing", "-Z", "unstable-options", "--no-memory-safety-checks", "--no-overflow-checks",
         "--no-assertion-reach-checks", "--output-format", "terse", "-j", "6"]
# harness name prefixes per property, in crate svc
SVC = {
    "C09": ["body::"],
    "C10": ["service::async_call::", "service::sync_call::"],
    "C11": ["service::async_call::", "service::sync_call::", "error::response", "error::from_status"],
    "C12": ["error::"],
    "C13": ["unwind::"],
    "C14": ["entry::blocking", "entry::panics_blocking", "service::sync_call::ok_ok", "service::sync_call::ok_pend"],
    "C17": ["entry::from_request", "service::async_call::", "service::sync_call::"],
    "C18": ["service::c18_", "service::async_call::ok_ok", "service::sync_call::ok_ok"],
}

def run_harnesses(pid, crate, prefixes, timeout=640, each=None, exact=False):
    mkfutures.make()
    js = os.path.join(OUT, "kani-%s-%s.json" % (crate, pid))
    if os.path.exists(js): os.remove(js)
    cmd = ["cargo", "kani", "-p", crate, "--target-dir", os.path.join(OUT, "kani")] + FLAGS + ["--harness-timeout", "%ds" % (each or timeout - 60), "--export-json", js] + (["--exact"] if exact else [])
    for p in prefixes: cmd += ["--harness", p]
    cmd += ["--cbmc-args", "--max-field-sensitivity-array-size", "1024"]     # keeps boxed state machines constant-propagated
    try:
        p = subprocess.Popen(cmd, cwd=KD, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            out = p.communicate(timeout=timeout)[0].decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            out = p.communicate()[0].decode("utf-8", "replace") + "\nTIMEOUT"
    except OSError as e:
        raise Broken("cargo kani: %s" % e)
    res = dict(cmd=" ".join(cmd).replace(VERIF + "/", ""), harnesses=[], log=out, built=True)
    if not os.path.exists(js):
        # compile failure (or nothing finished): nothing is decided
        errs = [l for l in out.splitlines() if l.startswith("error")]
        res.update(built=False, reason="; ".join(errs[:4])[:600] or out[-400:])
        # what did finish before a timeout is still usable
        return res
    d = json.load(open(js))
    stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in d.get("cbmc", [])}
    meta = {h["pretty_name"]: h for h in d["harness_metadata"]}
    for r in d["verification_results"]["results"]:
        res["harnesses"].append(judge(r, stats.get(r["harness_id"], {}), meta.get(r["harness_id"], {})))
    done = {h["name"] for h in res["harnesses"]}
    for n in meta:
        if n not in done: res["harnesses"].append(dict(name=n, status="undecided", why="no result", obligations=0, discharged=0, failed=[], seconds=0))
    return res

def judge(r, stats, meta):
    name = r["harness_id"]
    should_panic = meta.get("attributes", {}).get("should_panic", False)
    h = dict(name=name, status="verified", obligations=0, discharged=0, failed=[], why="", seconds=round(r["duration_ms"] / 1000.0, 2), solver=round(stats.get("runtime_decision_procedure_s") or 0, 2), vccs=stats.get("vccs_generated"))
    covers, bad = [], []
    for c in r.get("checks", []):
        desc, st = c["description"], c["status"].lower()
        loc = c.get("location", {})
        f = loc.get("file", "")
        if c.get("category") == "cover" or st in ("satisfied", "unsatisfiable", "unsat", "covered"):
            covers.append((desc, st))
            continue
        h["obligations"] += 1
        if st in ("success", "unreachable"): h["discharged"] += 1
        elif st == "failure":
            o = dict(obligation=desc, function=c.get("function"), file=f, line=loc.get("line"))
            # code the derive writes is located where the deriving type is
            in_repo = f.startswith("/repo/") or "/repo/src" in f or f.startswith("../../repo/") or f.endswith(("gen/src/programs.rs", "gen/src/ctx.rs")) and not c["description"].startswith("C15")
            m = re.match(r'"?(C\d\d) ', desc)
            if should_panic and c.get("category") == "assertion" and in_repo:
                h["discharged"] += 1     # the panic the contract demands
            elif m: o["property"] = m.group(1); bad.append(o); h["failed"].append(o)
            elif in_repo and c.get("category") in ("assertion", "panic"): o["property"] = None; bad.append(o); h["failed"].append(o)
            else: bad.append(dict(o, limit=True))
        else: bad.append(dict(obligation=desc, limit=True))
    for desc, st in covers:
        if desc.startswith("never:"):
            h["obligations"] += 1
            if st in ("satisfied", "covered"): h["failed"].append(dict(obligation=desc, property=None, function=name)); bad.append(desc)
            else: h["discharged"] += 1
        elif st not in ("satisfied", "covered") and not h["failed"]:
            h["status"], h["why"] = "undecided", "vacuous: cover '%s' not reached" % desc
    if should_panic and not bad and h["obligations"] and r["status"].lower() != "success":
        # nothing panicked although the contract demands it
        h["failed"].append(dict(obligation="panics", property=None, function=name))
    limits = [b for b in bad if isinstance(b, dict) and b.get("limit")]
    if not h["obligations"]: h["status"], h["why"] = "undecided", "no obligations (solver or tool failure)"
    elif limits and not h["failed"]: h["status"], h["why"] = "undecided", str(limits[0]["obligation"])[:200]
    elif limits and h["failed"] and any("unwinding" in str(l["obligation"]) or "missing" in str(l.get("function")) for l in limits):
        h["failed"], h["status"], h["why"] = [], "undecided", str(limits[0]["obligation"])[:200]
    elif h["failed"]: h["status"] = "failed"
    elif r["status"].lower() != "success" and h["status"] == "verified": h["status"], h["why"] = "undecided", "tool status " + r["status"]
    return h

def summary(pid, res, what):
    """Splits the harnesses of one run by verdict about property `pid`."""
    hs = res["harnesses"]
    failed = []
    for h in hs:
        for f in h["failed"]:
            if f["property"] in (None, pid): failed.append(dict(f, harness=h["name"]))
    return dict(tool="kani 0.68.0 (CBMC 6.11.0, CaDiCaL)", what=what, cmd=res["cmd"], built=res["built"], reason=res.get("reason"),
        harnesses=len(hs), verified=sum(h["status"] == "verified" for h in hs),
        undecided=[dict(harness=h["name"], why=h["why"]) for h in hs if h["status"] == "undecided"],
        failed=failed, obligations=sum(h["obligations"] for h in hs), discharged=sum(h["discharged"] for h in hs),
        solver_s=round(sum(h.get("solver") or 0 for h in hs), 2), total_s=round(sum(h["seconds"] for h in hs), 1),
        functions=[dict(harness=h["name"], obligations=h["obligations"], discharged=h["discharged"], seconds=h["seconds"], status=h["status"]) for h in hs],
        log=res["log"][-20000:] if failed else "")

def run_svc(pid):
    return summary(pid, run_harnesses(pid, "svc", SVC[pid]), "contracts of the run-time library (/repo/src, compiled unchanged)")

def gen_harnesses(pid, thorough):
    """Names of the harnesses of crate gen about `pid`; a spread of them for the quick tier."""
    H = json.load(open(os.path.join(KD, "gen", "harnesses.json")))
    names = [n for n, h in H.items() if pid in h["props"]]
    if thorough: return names, len(names)
    rest, out, seen = [n for n in names if not H[n]["slow"]], [], set()
    # programs, classes, methods, failing and pending parts
    parts = lambda n: set(n.split("::")[-1].split("_")) | {"_".join(n.split("::")[-1].split("_")[:2])}
    while rest and len(out) < QUICK:
        n = max(rest, key=lambda n: (len(parts(n) - seen), -len(parts(n))))
        rest.remove(n); out.append(n); seen |= parts(n)
    return out, len(names)

QUICK = 12
GEN = ("C01", "C03", "C04", "C05", "C06", "C07", "C08", "C15")

def tables():
    """Which of the patterns in the derived code match which class of paths, asked of the real regex crate."""
    d = os.path.join(OUT, "kgen")
    os.makedirs(d, exist_ok=True)
    mkfutures.make()
    try: rc, out, err = run(["cargo", "run", "-q", "-p", "gentab", "--target-dir", os.path.join(d, "target")], cwd=KD, timeout=300)
    except subprocess.TimeoutExpired: raise Broken("gentab: out of time")
    if rc or "pub fn" not in out: raise Broken("the programs do not build or run: " + err[-600:])
    open(os.path.join(d, "tables.rs"), "w").write(out)
    return out

def run_gen(pid):
    names, of = gen_harnesses(pid, TIER == "thorough")
    tables()
    r = run_harnesses(pid, "gen", names, timeout=3000 if TIER == "thorough" else 420, each=900 if TIER == "thorough" else 150, exact=True)
    s = summary(pid, r, "contracts of the code derived for the programs in kani/gen (%d of %d cases)" % (len(names), of))
    s["programs"] = len({n.split("::")[-1].split("_")[0] for n in names})
    return s

if __name__ == "__main__":
    import sys
    r = run_harnesses("x", sys.argv[1], sys.argv[2:])
    print(json.dumps({k: v for k, v in r.items() if k not in ("log",)}, indent=1)[:6000])
    if not r["built"]: print(r["log"][-3000:])
