#!/usr/bin/env python3
"""Runs checks against planted bugs: catch.py [-a] [-jN] [--also=C01,..] ID... | all

-a: all checks, otherwise the property's own. Each run sees a patched copy of /repo and a copy of /verif mounted over
the real ones in a mount namespace of its own, so /repo and /verif themselves are not touched. Results go to
/verif/tools/catches.json."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(VERIF, 'seeded')
R = os.path.join(VERIF, 'tools', 'catches.json')
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
if ids == ['all']:
    ids = sorted(os.listdir(S))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from proptable import PROPS
res = json.load(open(R)) if os.path.exists(R) else {}
lock = threading.Lock()
jobs = 1
also = []
for a in sys.argv[1:]:
    if a.startswith('-j'):
        jobs = int(a[2:])
    if a.startswith('--also='):
        also = a[7:].split(',')


def one(i):
    meta = json.load(open(os.path.join(S, i, 'meta.json')))
    checks = sorted(PROPS) if '-a' in sys.argv else [meta['property']] + also
    tmp = tempfile.mkdtemp(prefix='catch-', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo', tmp + '/repo'], check=True)
        os.mkdir(tmp + '/verif')
        for f in os.listdir(VERIF):
            if f not in ('.git', 'seeded', 'evidence'):
                subprocess.run(['cp', '-a', os.path.join(VERIF, f), tmp + '/verif/'], check=True)
        os.mkdir(tmp + '/verif/evidence')
        subprocess.run(['git', '-C', tmp + '/repo', 'apply', os.path.join(S, i, 'patch.diff')], check=True)
        for c in checks:
            t = time.time()
            p = subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && ./check.sh %s' % (tmp, tmp, c)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            first = next((l for l in p.stdout.split('\n') if l.startswith('[')), '')
            caught = p.returncode == 1 and 'VIOLATION property=' + c in p.stdout
            with lock:
                res.setdefault(i, {})[c] = 'caught' if caught else 'quiet' if p.returncode == 0 else 'no answer'
                print('%-34s %s exit=%d %.0fs %s' % (i, c, p.returncode, time.time() - t, first[:170] if caught else p.stdout[-200:].strip()), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
    for f in [ex.submit(one, i) for i in ids]:
        f.result()
for i in list(res):
    if not os.path.isdir(os.path.join(S, i)):
        del res[i]
json.dump(res, open(R, 'w'), indent=1, sort_keys=True)
