"""Shared helpers of the checks."""
import fcntl, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
OUT = os.path.join(VERIF, "out")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()

class Broken(Exception):
    """The check itself cannot run (not a verdict)."""

def note(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)

def env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", VERIF_SEED=str(SEED), VERIF_TIER=TIER)
    e.pop("RUSTFLAGS", None)
    e.update(kw)
    return e

def run(cmd, timeout=600, cwd=None, **kw):
    p = subprocess.run(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")

def lock():
    os.makedirs(OUT, exist_ok=True)
    f = open(os.path.join(OUT, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f
