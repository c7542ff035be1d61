#!/usr/bin/env python3
"""Tries changes quickly: try.py [-jN] FILE. FILE calls T(id, checks, [(file, old, new), ...]) for each change; the checks
named are run on a copy of /repo with it (see catch.py). Nothing is kept; changes worth keeping become planted bugs."""
import concurrent.futures, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
todo = []


def T(i, checks, edits):
    todo.append((i, checks.split(), edits))


jobs = 3
only = []
for a in sys.argv[2:]:
    if a.startswith('-j'):
        jobs = int(a[2:])
    else:
        only.append(a)
exec(open(sys.argv[1]).read())


def one(t):
    i, checks, edits = t
    tmp = tempfile.mkdtemp(prefix='try-', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo', tmp + '/repo'], check=True)
        for f, old, new in edits:
            p = os.path.join(tmp, 'repo', f)
            s = open(p).read()
            if s.count(old) != 1:
                print(i, 'BAD EDIT', s.count(old), old, flush=True)
                return
            open(p, 'w').write(s.replace(old, new))
        env = open('/opt/vp/env.sh').read().replace('/repo', tmp + '/repo')
        p = subprocess.run(['bash', '-c', env + '\ngo build $PKGS && go test -vet=off -count=1 $PKGS'], cwd=tmp + '/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        fails = [l for l in p.stdout.split('\n') if l.startswith('--- FAIL') or '.go:' in l and 'syntax' in l]
        os.mkdir(tmp + '/verif')
        for f in os.listdir(VERIF):
            if f not in ('.git', 'seeded', 'evidence'):
                subprocess.run(['cp', '-a', os.path.join(VERIF, f), tmp + '/verif/'], check=True)
        os.mkdir(tmp + '/verif/evidence')
        for c in checks:
            t = time.time()
            p = subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && ./check.sh %s' % (tmp, tmp, c)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            first = next((l for l in p.stdout.split('\n') if l.startswith('[')), '')
            print('%-24s %s %s %.0fs %s %s' % (i, c, {0: 'MISSED', 1: 'caught'}.get(p.returncode, 'no answer'), time.time() - t, first[:150] if p.returncode == 1 else p.stdout[-150:].strip(), fails[:3]), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
    for f in [ex.submit(one, t) for t in todo if not only or t[0] in only]:
        f.result()
