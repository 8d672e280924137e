"""Regenerates the planted changes under /verif/seeded from the table in seeds.py.
usage: mkseeds.py [ID...]   (needs a scratch copy of /repo in /tmp/sr)"""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS, PRELUDE
SR = '/tmp/sr'
OUT = '/verif/seeded'

DEMO = '''#!/bin/bash
# usage: demo.sh, in the root of a hyperdrive checkout. Exit 0: the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=/tmp/hyperdrive-demo-%(id)s
rm -rf /tmp/hyperdrive-demo-%(id)s
mkdir -p "$d/src/bin"
trap 'rm -rf /tmp/hyperdrive-demo-%(id)s' EXIT
for f in "$here"/*.rs; do cp "$f" "$d/src/bin/"; done
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
hyperdrive = { path = "$repo" }
tokio = { version = "0.1.15", default-features = false }
tokio-threadpool = "0.1.12"
serde_json = "1.0.38"
serde = { version = "1.0.88", features = ["derive"] }
[profile.dev]
debug = 0
[workspace]
E
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$d/"; else cp /opt/vp/Cargo.lock "$d/"; fi
cd "$d" || exit 3
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
%(body)s
'''
RUN = 'timeout 240 cargo run -q --offline --bin %s || exit 1\nexit 0'
REJECT = '''cargo build -q --offline --bin good || exit 1
# Must be rejected
if cargo build -q --offline --bin bad; then echo "accepted"; exit 1; fi
exit 0'''

def sh(*a, **k): return subprocess.run(a, **k)

def make(s):
    d = f'{OUT}/{s["id"]}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh('git', '-C', SR, 'checkout', '-q', '--', '.', check=True)
    for f, old, new in s['edits']:
        p = f'{SR}/{f}'; t = open(p).read()
        n = s.get('count', 1)
        if t.count(old) < 1: raise SystemExit(f'{s["id"]}: anchor not found in {f}: {old[:60]!r}')
        if t.count(old) != n: raise SystemExit(f'{s["id"]}: {t.count(old)} occurrences in {f}')
        open(p, 'w').write(t.replace(old, new))
    diff = sh('git', '-C', SR, 'diff', stdout=subprocess.PIPE, check=True).stdout
    open(f'{d}/patch.diff', 'wb').write(diff)
    sh('git', '-C', SR, 'checkout', '-q', '--', '.', check=True)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(f'{d}/meta.json', 'w'), indent=1)
    if 'main' in s:
        open(f'{d}/main.rs', 'w').write(PRELUDE + s['main'])
        body = RUN % 'main'
    else:
        open(f'{d}/good.rs', 'w').write(s['good']); open(f'{d}/bad.rs', 'w').write(s['bad'])
        body = REJECT
    open(f'{d}/demo.sh', 'w').write(DEMO % {'id': s['id'], 'body': body})
    os.chmod(f'{d}/demo.sh', 0o755)

def test(s):
    """demo on clean tree and patched; stable tests on patched"""
    d = f'{OUT}/{s["id"]}'
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
               CARGO_TERM_COLOR='never')
    r0 = sh('bash', f'{d}/demo.sh', cwd=SR, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    sh('git', '-C', SR, 'apply', f'{d}/patch.diff', check=True)
    try:
        t = sh('cargo', 'test', '--workspace', '--no-fail-fast', '--offline', cwd=SR, env=env,
               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) ) if False else None
        failed = [l for l in t.stdout.splitlines() if l.startswith('test ') and l.endswith('FAILED')]
        comp = 'could not compile' in t.stdout
        r1 = sh('bash', f'{d}/demo.sh', cwd=SR, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        sh('git', '-C', SR, 'checkout', '-q', '--', '.', check=True)
    ok = r0.returncode == 0 and r1.returncode != 0 and not failed and not comp
    print(s['id'], 'OK' if ok else 'BAD', 'clean', r0.returncode, 'patched', r1.returncode, 'tests', failed, 'compile-fail' if comp else '', flush=True)
    if not ok:
        print('--- clean', r0.stdout[-1500:]); print('--- patched', r1.stdout[-1500:])
        if comp: print(t.stdout[-3000:])
    else:
        print('   ', [l for l in r1.stdout.splitlines() if 'panicked' in l or 'left' in l or 'right' in l or 'error' in l or 'assert' in l][:4])

for s in SEEDS:
    if len(sys.argv) > 1 and s['id'] not in sys.argv[1:]: continue
    make(s); test(s)
