#!/usr/bin/env python3
"""usage: check.py <property id>   (environment: VERIF_SEED, VERIF_TIER)

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: cannot run.

Two layers decide a property. The deductive one discharges the obligations of the contracts on
/repo's current sources (lib/kani.py, lib/verus.py). The native driver (lib/native.py) runs the real
crates on concrete inputs: it finds failing inputs for violated contracts and stands in, bounded,
where the deductive layer is undecided. See DESIGN.md.
"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from common import *
import native, deductive

def known_findings():
    """known: property=<id> key=<substring identifying the failing case> <what fails>"""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    for l in open(p):
        if l.startswith("known:"):
            f = dict(x.split("=", 1) for x in l[6:].split()[:2])
            out.append(dict(property=f["property"], key=f["key"], text=" ".join(l[6:].split()[2:])))
    return out

def run_native(pid):
    try:
        return native.run_property(pid), None
    except Broken as e:
        note("native driver cannot run: %s" % e)
        return dict(evaluations=0, distinct=0, samples=[], violations=[], parts=[]), str(e)

def main():
    pid = sys.argv[1]
    lk = lock()
    parts, why = deductive.run(pid)     # list of layer summaries; [] if no part could run
    nat, broken = run_native(pid)
    viol, known = [], []
    kf = [k for k in known_findings() if k["property"] == pid]
    for v in nat["violations"]:
        text = "|%s|%s|" % (v.get("program", v.get("name", "")), str(v.get("got", "")).replace("BAD %s " % v.get("program", ""), "").replace(" ", "_"))
        k = [k for k in kf if k["key"].rstrip("|") in text]
        (known if k else viol).append(v)
        if k: k[0]["seen"] = True
    for k in kf:
        if k.get("seen"): print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))

    failed = [dict(f, layer=p["tool"], cmd=p["cmd"]) for p in parts for f in p["failed"]]
    undecided = [dict(u, layer=p["tool"]) for p in parts for u in p["undecided"]] + why
    for p in parts:
        note("%s: %d of %d obligations discharged, %d failed, %d parts undecided" % (p["what"], p["discharged"], p["obligations"], len(p["failed"]), len(p["undecided"])))
    for u in undecided: note("undecided:", json.dumps(u)[:400])
    if broken and (undecided or not parts): raise Broken("%s; and the deductive layer is undecided: %s" % (broken, json.dumps(undecided)[:500]))
    if failed and not viol:
        # look harder for a failing input
        note("obligations failed, searching further for a failing input")
        for s in (2, 3):
            if time.time() - T0 > 560: break
            try:
                os.environ["VERIF_SEED"] = str(s)
                import common
                common.SEED = native.SEED = s
                v = [v for v in native.run_property(pid)["violations"] if v not in known and not any(k["key"].split("|")[1] in str(v.get("program")) for k in kf)]
            except Exception as e:
                note("search stopped: %s" % e)
                break
            viol += v
            if v: break
    proved = bool(parts) and not undecided and not failed
    replay = None
    if viol or failed:
        d = os.path.join(OUT, "replay")
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, pid + ".json")
        json.dump(dict(property=pid, seed=SEED, failed_obligations=[{k: v for k, v in f.items() if k != "log"} for f in failed], verifier_output=[p["log"] for p in parts if p["failed"]],
            input=viol[0] if viol else None, more=viol[1:6]), open(replay, "w"), indent=1, default=str)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    info = deductive.INFO[pid]
    cov = dict(evaluations=nat["evaluations"], distinct_nontrivial=nat["distinct"],
        rule="generated cases run on the real code; distinct by program, input and outcome", samples=nat["samples"][:5], native_parts=nat["parts"])
    if parts:
        cov.update(obligations=sum(p["obligations"] for p in parts), discharged=sum(p["discharged"] for p in parts), checker_cmd=" && ".join(p["cmd"] for p in parts),
            trusted_base=info["trusted"], back_ends=[dict(tool=p["tool"], what=p["what"], obligations=p["obligations"], discharged=p["discharged"], solver_s=p["solver_s"], total_s=p["total_s"]) for p in parts],
            functions=[f for p in parts for f in p["functions"]], undecided=undecided)
        if info["level"] == "translation_validation":
            # how many cases (program, class of paths, what fails, what waits) were compared with the reference semantics
            cov.update(programs=sum(p.get("programs", 0) for p in parts), disagreements_checked=sum(p["verified"] for p in parts if "programs" in p))
        if info["level"] == "other": cov["explanation"] = info["note"]
    level = info["level"]
    if level != "exploration" and undecided:
        level = "other"
        cov["explanation"] = "On this run part of the deductive layer was undecided (see `undecided`); what it leaves open was only explored, within the native driver's bounds."
    ev = dict(property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov, assumptions=info["assumes"],
        wall_s=round(time.time() - T0, 2), violations=len(viol) or len(failed))
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if failed:
        for f in failed[:5]: print("failed obligation: %s (%s)" % (f["obligation"], f.get("harness") or f.get("function")))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))
        return 1
    print("OK property=%s%s" % (pid, "" if proved else " (explored)"))
    return 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("CHECK CANNOT RUN: %s" % e, file=sys.stderr)
        sys.exit(2)
