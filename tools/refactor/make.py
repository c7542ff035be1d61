#!/usr/bin/env python3
"""Makes the behaviour-preserving edits (tools/refactor/*.diff) against /repo's HEAD from the definitions in defs*.py.
make.py [ID...]. Each definition is (id, file, [(old, new), ...]) and must compile and pass go vet of its package's build."""
import glob, os, shutil, subprocess, sys, tempfile
D = os.path.dirname(os.path.abspath(__file__))
defs = {}
def R(id, file, *edits):
    defs.setdefault(id, []).append((file, edits))
for f in sorted(glob.glob(D + '/defs*.py')):
    exec(open(f).read())
want = sys.argv[1:] or list(defs)
env = dict(os.environ, HOME='/root', GOROOT='/opt/veriftools/go1.27.3', GOPATH='/root/go', GOTOOLCHAIN='local', GOPROXY='off', GO111MODULE='on', GOWORK='off', GOFLAGS='-mod=mod')
env['PATH'] = '/opt/veriftools/go1.27.3/bin:' + env['PATH']
for id in want:
    tmp = tempfile.mkdtemp(prefix='refac-', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo', tmp + '/r'], check=True)
        for file, edits in defs[id]:
            p = tmp + '/r/' + file
            s = open(p).read()
            for a, b in edits:
                if s.count(a) != 1:
                    sys.exit('%s: %s: %d times: %s' % (id, file, s.count(a), a))
                s = s.replace(a, b)
            open(p, 'w').write(s)
        files = sorted({f for f, _ in defs[id]})
        subprocess.run(['gofmt', '-l'] + files, cwd=tmp + '/r', env=env)
        for f in files:
            p = subprocess.run(['gofmt', '-w', f], cwd=tmp + '/r', env=env)
            assert p.returncode == 0
        d = subprocess.run(['git', '-C', tmp + '/r', 'diff'], stdout=subprocess.PIPE, text=True).stdout
        open('%s/%s.diff' % (D, id), 'w').write(d)
        print(id, d.count('\n+'), d.count('\n-'))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
