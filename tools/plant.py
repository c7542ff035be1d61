#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy: plant.py ID... | all

For each /verif/seeded/ID: demo passes on the clean tree; with the patch the tree builds, the stable tests pass and the
demo fails. (Which checks catch it is a separate step: catch.py.)"""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(VERIF, 'seeded')
BASE = json.load(open('/opt/vp/BASELINE.json'))
ENV = open('/opt/vp/env.sh').read()


def sh(cmd, cwd, timeout=600):
    p = subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors='replace', timeout=timeout, start_new_session=True)
    return p.returncode, p.stdout


def stable(cwd):
    env = ENV.replace('/repo', cwd)
    out = os.path.join(cwd, '..', 'out.json')
    log = os.path.join(cwd, '..', 'go.json')
    rc, o = sh('%s\ngo build $PKGS && gofmt -l $(git ls-files "*.go" | grep -v _test) >/dev/null && go test -json -vet=off -count=1 -timeout 10m $PKGS > %s; python3 /opt/vp/results.py %s gojson:%s' % (env, log, out, log), cwd)
    try:
        res = json.load(open(out))
    except Exception:
        return ['no result: ' + o[-500:]]
    want = BASE.get('stable') or BASE.get('tests') or []
    want = set(want if isinstance(want, list) else want.keys())
    got = set(res.get('passed') or [])
    return sorted(want - got)


def main():
    ids = sys.argv[1:]
    if ids == ['all']:
        ids = sorted(os.listdir(S))
    for i in ids:
        d = os.path.join(S, i)
        tmp = tempfile.mkdtemp(prefix='plant-')
        try:
            w = os.path.join(tmp, 'repo')
            subprocess.run(['cp', '-a', '/repo', w], check=True)
            demo = os.path.join(tmp, 'demo')
            shutil.copytree(d, demo)
            for f in os.listdir(demo):
                if f.endswith(('.diff', '.patch')) or f == 'meta.json':
                    os.remove(os.path.join(demo, f))
            r0, o0 = sh('bash %s/demo.sh' % demo, w, 300)
            rc, o = sh('git apply %s/patch.diff' % d, w)
            if rc:
                print(i, 'PATCH DOES NOT APPLY', o)
                continue
            missing = stable(w)
            sh('git clean -fdxq -e go.mod -e go.sum', w)
            r1, o1 = sh('bash %s/demo.sh' % demo, w, 300)
            ok = r0 == 0 and r1 != 0 and not missing
            print(i, 'OK' if ok else 'BAD', 'clean=%d patched=%d missing=%s' % (r0, r1, missing), flush=True)
            if r0 != 0:
                print('   clean:', o0[-1500:])
            if ok and '-v' in os.environ.get('PLANT', ''):
                print('   ', o1[-700:])
            if r1 == 0 or 'build failed' in o1 or 'setup failed' in o1:
                print('   patched:', o1[-1500:])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
