"""Runs Verus over the functions that verus/extract copies out of /repo's current sources.

A failed obligation of a function under contract counts as failed; so does a contract's postcondition
or rejection that can't be shown any more. What only says that the proof does not fit the code
(a function is gone, the copy does not compile with the proof's hints, a loop was added or removed and
the invariants no longer fit, a resource limit, a lemma) leaves the function undecided."""
import json, os, re, subprocess
from common import *

VD = os.path.join(VERIF, "verus")
FILES = {"parse": "/repo/derive/src/from_request/parse.rs", "context": "/repo/derive/src/request_context.rs"}
SPECS = dict({p: ["parse"] for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C16")}, C15=["context"])

def build():
    rc, out, err = run(["cargo", "build", "-q", "--target-dir", os.path.join(OUT, "extract")], cwd=os.path.join(VD, "extract"), timeout=400)
    if rc: raise Broken("verus/extract does not build: " + err[-400:])
    return os.path.join(OUT, "extract", "debug", "extract")

def verify(spec):
    """The copy of one file, verified."""
    res = dict(spec=spec, built=False, reason=None, functions=[], failed=[], undecided=[], verified=0, errors=0, solver=0, total=0, log="",
        cmd="extract %s verus/%s.spec && verus %s.rs" % (FILES[spec], spec, spec))
    ex = build()
    d = os.path.join(OUT, "verus")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, spec + ".rs")
    skipped = {}
    while True:
        rc, out, err = run([ex, FILES[spec], os.path.join(VD, spec + ".spec"), f, os.path.join(VD, "pinned_%s.rs" % spec)] + sorted(skipped), timeout=60)
        if rc:
            res["reason"] = (err.strip() or "extract failed")[-300:]
            return res
        index = json.load(open(f + ".json"))
        try:
            p = subprocess.run(["verus", f, "--output-json", "--time-expanded", "--multiple-errors", "6", "--rlimit", "60", "--error-format=json"], cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        except subprocess.TimeoutExpired:
            res["reason"] = "verus: out of time"
            return res
        msgs = []
        for l in p.stderr.decode("utf-8", "replace").splitlines():
            try: m = json.loads(l)
            except ValueError: continue
            if m.get("level") == "error" and not m["message"].startswith("aborting"): msgs.append(m)
        res["log"] = "\n".join(m.get("rendered") or m["message"] for m in msgs)[:20000]
        try: o = json.loads(p.stdout.decode("utf-8", "replace"))
        except ValueError: o = {}
        v = o.get("verification-results", {})
        where = lambda line: next((x for x in index if x["first"] <= line <= x["last"]), None)
        spans = lambda m: sorted(m.get("spans", []), key=lambda s: not s.get("is_primary"))
        function = lambda m: next((x for x in map(lambda s: where(s["line_start"]), spans(m)) if x), None)
        if v.get("verified") and not v.get("encountered-vir-error") and not any(m.get("code") for m in msgs): break
        # the copy doesn't compile: leave out the functions that don't fit their proofs, and go on with the others
        lost = {function(m)["name"]: m for m in msgs if function(m)}
        if not lost or len(skipped) > 6:
            res["reason"] = "the copy does not fit the proof: " + "; ".join(m["message"] for m in msgs[:3])[:300]
            return res
        for n, m in lost.items(): skipped[n] = m["message"][:200]
    res.update(built=True, verified=v["verified"], errors=v["errors"])
    for n, m in skipped.items(): res["undecided"].append(dict(harness=n, why="does not fit the proof: " + m))
    t = o.get("times-ms", {})
    res.update(solver=round(t.get("smt", {}).get("total", 0) / 1000.0, 2), total=round(t.get("total", 0) / 1000.0, 2))
    lines = open(f).read().splitlines()
    bad = {n: [] for n in skipped}
    for m in msgs:
        fn, sp = function(m), spans(m)
        post = m["message"].startswith("postcondition")
        label = next((lines[s["line_start"] - 1] for s in sp if post and "failed" in (s.get("label") or "") or s.get("is_primary") and post), "")
        rejecting = m["message"].startswith("precondition") and any("reject(" in lines[s["line_start"] - 1] for s in sp)
        text = "; ".join(" ".join(lines[s["line_start"] - 1].split())[:200] for s in sp[:2])
        limit = "esource limit" in m["message"] or "not supported" in m["message"]
        # the generated text is another one: whether it means the same is for the compiled programs to say
        other = fn is not None and not fn["quotes"] and not rejecting and (not post or "tokens" in label)
        if fn is None: res["undecided"].append(dict(harness="lemma", why="%s: %s" % (m["message"], text)))
        elif limit or other or not (fn["shape"] or fn["loops"] and (post or rejecting)): bad.setdefault(fn["name"], []); res["undecided"].append(dict(harness=fn["name"], why="%s: %s" % (m["message"], text)))
        else:
            props = re.findall(r"C\d\d", label.split("//")[-1]) if "//" in label else []
            o = dict(obligation="%s: %s" % (m["message"], text), function=fn["name"], file=FILES[spec], props=props or fn["props"])
            bad.setdefault(fn["name"], []).append(o)
            res["failed"].append(o)
    if v["errors"] and not res["failed"] and not res["undecided"]:
        res["undecided"].append(dict(harness=spec, why="%d errors" % v["errors"]))
    for x in index:
        res["functions"].append(dict(harness=x["name"], unchanged=x["same"], props=x["props"], status="failed" if bad.get(x["name"]) else "undecided" if x["name"] in bad else "verified"))
    return res

def run_specs(pid):
    rs = [verify(s) for s in SPECS[pid]]
    return [dict(tool="verus 0.2026.09.13 (Z3)", what="contracts of the functions in %s (copied out mechanically)" % FILES[r["spec"]], cmd=r["cmd"], built=r["built"], reason=r["reason"],
        harnesses=len(r["functions"]), verified=sum(f["status"] == "verified" for f in r["functions"]),
        undecided=[u for u in r["undecided"] if u["harness"] == "lemma" or any(f["harness"] == u["harness"] and pid in f["props"] for f in r["functions"])],
        failed=[dict(x, property=pid) for x in r["failed"] if pid in x["props"]],
        obligations=r["verified"] + r["errors"], discharged=r["verified"], solver_s=r["solver"], total_s=r["total"],
        functions=[dict(function=f["harness"], status=f["status"], properties=f["props"]) for f in r["functions"]],
        log=r["log"] if r["failed"] else "") for r in rs]

if __name__ == "__main__":
    import sys
    r = verify(sys.argv[1])
    print(json.dumps(r, indent=1)[:5000])
