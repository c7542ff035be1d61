#!/usr/bin/env python3
"""Runs checks against edits that change no behaviour: quiet.py [-jN] [--checks=C01,..] [--build] ID... | all

Each tools/refactor/r-ID.diff must apply, build and pass the stable tests (--build does only that), and every check must
exit 0 on it. Each run sees a patched copy of /repo mounted over the real one in a mount namespace of its own. Results go
to tools/quiet.json."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(VERIF, 'tools', 'refactor')
R = os.path.join(VERIF, 'tools', 'quiet.json')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from proptable import PROPS
BASE = json.load(open('/opt/vp/BASELINE.json'))
ENV = open('/opt/vp/env.sh').read()
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
if ids == ['all']:
    ids = sorted(f[:-5] for f in os.listdir(D) if f.endswith('.diff'))
checks = sorted(PROPS)
jobs = 1
for a in sys.argv[1:]:
    if a.startswith('-j'):
        jobs = int(a[2:])
    if a.startswith('--checks='):
        checks = a[9:].split(',')
res = json.load(open(R)) if os.path.exists(R) else {}
lock = threading.Lock()


def stable(cwd):
    env = ENV.replace('/repo', cwd)
    out, log = cwd + '/../out.json', cwd + '/../go.json'
    p = subprocess.run(['bash', '-c', '%s\ngo build $PKGS && go test -json -vet=off -count=1 -timeout 10m $PKGS > %s; python3 /opt/vp/results.py %s gojson:%s' % (env, log, out, log)],
                       cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    try:
        got = set(json.load(open(out)).get('passed') or [])
    except Exception:
        return ['no result: ' + p.stdout[-800:]]
    want = BASE.get('stable') or BASE.get('tests')
    missing = sorted(set(want if isinstance(want, list) else want.keys()) - got)
    return missing and [p.stdout[-1500:]] + missing


def one(i):
    tmp = tempfile.mkdtemp(prefix='quiet-', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo', tmp + '/repo'], check=True)
        p = subprocess.run(['git', '-C', tmp + '/repo', 'apply', os.path.join(D, i + '.diff')], stderr=subprocess.PIPE, text=True)
        if p.returncode:
            print(i, 'DOES NOT APPLY', p.stderr[-500:], flush=True)
            return
        missing = stable(tmp + '/repo')
        print(i, 'builds, stable tests pass' if not missing else 'BAD %s' % '\n'.join(missing), flush=True)
        if missing or '--build' in sys.argv:
            return
        subprocess.run(['git', '-C', tmp + '/repo', 'clean', '-fdxq', '-e', 'go.mod', '-e', 'go.sum'], check=True)
        os.mkdir(tmp + '/verif')
        for f in os.listdir(VERIF):
            if f not in ('.git', 'seeded', 'evidence'):
                subprocess.run(['cp', '-a', os.path.join(VERIF, f), tmp + '/verif/'], check=True)
        os.mkdir(tmp + '/verif/evidence')
        for c in checks:
            t = time.time()
            p = subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && ./check.sh %s' % (tmp, tmp, c)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            ok = p.returncode == 0
            with lock:
                res.setdefault(i, {})[c] = 'quiet' if ok else 'exit %d' % p.returncode
                if not ok:
                    print('ALARM %s %s exit=%d %.0fs\n%s' % (i, c, p.returncode, time.time() - t, p.stdout[:1500]), flush=True)
        print(i, 'done', flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
    for f in [ex.submit(one, i) for i in ids]:
        f.result()
json.dump(res, open(R, 'w'), indent=1, sort_keys=True)
