"""Runs checks against patches in private copies: try.py [-j N] [-p PROP,..] DIR_OR_ID...
DIR holds patch.diff and optionally meta.json; the copies of /verif and /repo are bind-mounted in a private namespace."""
import json, os, subprocess, sys, concurrent.futures as cf, argparse, time
a = argparse.ArgumentParser(); a.add_argument('-j', type=int, default=2); a.add_argument('-p'); a.add_argument('ids', nargs='*'); a = a.parse_args()
ids = a.ids or sorted(os.listdir('/verif/seeded'))
def one(i):
    d = i if '/' in i else '/verif/seeded/' + i
    name = os.path.basename(d.rstrip('/'))
    w = '/tmp/try-' + name
    subprocess.run(['rm', '-rf', w]); os.makedirs(w)
    subprocess.run(f'cp -a /repo {w}/repo && mkdir {w}/verif && cd /verif && tar c --exclude=./seeded --exclude=./.git . | tar x -C {w}/verif && cd {w}/repo && git apply {d}/patch.diff', shell=True, check=True)
    props = a.p.split(',') if a.p else [json.load(open(d + '/meta.json'))['property']]
    r = []
    for p in props:
        t = time.time()
        x = subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && cd /verif && timeout 1200 python3 check.py {p}'],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        open(f'/tmp/try-{name}-{p}.log', 'w').write(x.stdout)
        v = [l for l in x.stdout.splitlines() if l.startswith('VIOLATION')]
        r.append(f'{name} {p} exit {x.returncode} {time.time()-t:.0f}s {v}')
        try: subprocess.run(f'cp {w}/verif/out/replay/{p}.json /tmp/try-{name}-{p}.replay.json', shell=True, stderr=subprocess.DEVNULL)
        except Exception: pass
    subprocess.run(['rm', '-rf', w])
    return '\n'.join(r)
with cf.ThreadPoolExecutor(a.j) as ex:
    for r in ex.map(one, ids): print(r, flush=True)
