#!/usr/bin/env python3
"""Runs one property's monitors against the current tree of /repo.

usage: check.py PROPERTY [--replay FILE]
exit 0: held on everything observed; 1: violation (VIOLATION line); 2: no verdict.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
HARNESS = os.path.join(VERIF, 'harness')
PKG = 'sourcegraph.com/sourcegraph/appdash'

sys.path.insert(0, os.path.join(VERIF, 'tools'))
from proptable import PROPS  # noqa: E402


def go_env():
    e = dict(os.environ)
    root = '/opt/veriftools/go1.27.3'
    e.update(HOME='/root', GOROOT=root, GOPATH='/root/go', GOCACHE=os.environ.get('GOCACHE', '/root/.cache/go-build'),
             GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GO111MODULE='on', GOWORK='off', GONOSUMDB='*',
             GONOSUMCHECK='1', GOFLAGS_='')
    e['PATH'] = root + '/bin:' + e.get('PATH', '')
    for k in ('GORACE', 'GODEBUG', 'GOMAXPROCS'):
        e.pop(k, None)
    return e


def die(msg, code=2):
    print('check: ' + msg, flush=True)
    sys.exit(code)


class Build:
    def __init__(self, scratch):
        self.scratch = scratch
        self.env = go_env()
        self.overlay = None
        self.notes = []
        # The project's go.mod is untracked; supply it as its build script does.
        for f in ('go.mod', 'go.sum'):
            if not os.path.exists(os.path.join(REPO, f)):
                shutil.copy(os.path.join('/opt/vp/mod', f), os.path.join(REPO, f))
        # Work on a copy of the harness so that nothing under /verif changes.
        self.h = os.path.join(scratch, 'harness')
        shutil.copytree(HARNESS, self.h)

    def run(self, args, timeout=600):
        try:
            return subprocess.run(args, cwd=self.h, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                  text=True, errors='replace', timeout=timeout)
        except subprocess.TimeoutExpired:
            die('build timed out: %s' % ' '.join(args))

    def make_overlay(self):
        d = os.path.join(self.scratch, 'overlay')
        os.mkdir(d)
        r = self.run(['go', 'run', './yieldgen', '-repo', REPO, '-out', d])
        if r.returncode == 0:
            self.overlay = os.path.join(d, 'overlay.json')
            self.notes.append('yield points: ' + r.stdout.strip().split('\n')[-1])
        else:
            self.notes.append('no yield points: ' + r.stdout[-300:])

    def build(self, kind, pkg, out, race):
        base = ['go'] + (['test', '-c'] if kind == 'test' else ['build'])
        for ov in ([self.overlay] if self.overlay else []) + [None]:
            args = base + (['-race'] if race else []) + (['-overlay', ov] if ov else []) + ['-o', out, pkg]
            r = self.run(args)
            if r.returncode == 0:
                return True
            if ov:
                self.notes.append('overlay build failed, built without yield points')
        self.err = r.stdout
        return False


CRASH = re.compile(r'^(panic: |fatal error: |runtime: goroutine stack exceeds|SIGSEGV|unexpected fault address)', re.M)


def crash_info(err):
    """(crashed, through appdash, excerpt)"""
    m = CRASH.search(err)
    if not m:
        return False, False, ''
    tail = err[m.start():]
    g = re.search(r'^goroutine \d+.*?\n(.*?)(\n\n|\Z)', tail, re.M | re.S)
    stack = g.group(0) if g else tail[:3000]
    if 'all goroutines are asleep' in tail or 'deadlock:' in tail[:200]:
        stack = tail
    return True, PKG in stack, tail[:3500]


def race_reports(text):
    out = []
    for blk in text.split('=================='):
        if 'WARNING: DATA RACE' in blk:
            # It is the library's race if one of the two accesses was made by its code, directly or through the
            # standard library (and not by a callback of the harness).
            own = False
            for part in blk.split('\n\n'):
                if not re.search(r'^(Previous )?(atomic )?(read|write) (at|of) ', part, re.M | re.I):
                    continue
                for fn in re.findall(r'^  (\S+)\(', part, re.M):
                    if fn.startswith(PKG):
                        own = True
                    if fn.startswith((PKG, 'verif/')):
                        break
            out.append((own, blk.strip()))
    return out


def rss_mb(pid):
    try:
        with open('/proc/%d/statm' % pid) as f:
            return int(f.read().split()[1]) * 4096 // (1 << 20)
    except Exception:
        return 0


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        die('unknown property')
    prop = sys.argv[1]
    P = PROPS[prop]
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        replay = json.load(open(sys.argv[3]))
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if replay:
        seed, tier = replay['seed'], replay['tier']
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    os.chmod(scratch, 0o755)
    procs = []
    try:
        rc = run(prop, P, replay, seed, tier, scratch, t0, procs)
    finally:
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(prop, P, replay, seed, tier, scratch, t0, procs):
    b = Build(scratch)
    if P['yield']:
        b.make_overlay()
    binp = os.path.join(scratch, 'prop.test')
    if not b.build('test', './' + P['bin'], binp, P['race']):
        print(b.err[-3000:])
        die('the harness does not build against this tree')
    cmdbin = ''
    if P.get('cmd'):
        cmdbin = os.path.join(scratch, 'appdash')
        if not b.build('cmd', PKG + '/cmd/appdash', cmdbin, P['race']):
            print(b.err[-3000:])
            die('cmd/appdash does not build')
    tb = time.time() - t0

    configs = P['shards']
    if replay:
        configs = configs[:4]
    total_limit = 780 if tier == 'quick' else 6 * 3600
    runs = []
    for i, (mp, yl, sl) in enumerate(configs):
        runs.append(start(prop, P, scratch, binp, cmdbin, i, len(configs), mp, yl, sl, seed, tier, replay, procs))
    deadline = t0 + total_limit
    while any(r['p'].poll() is None for r in runs):
        time.sleep(0.05)
        for r in runs:
            if r['p'].poll() is None:
                if rss_mb(r['p'].pid) > P.get('rss_mb', 9000) and not r['oom']:
                    r['oom'] = True
                    r['p'].send_signal(signal.SIGQUIT)
                    time.sleep(2)
                    if r['p'].poll() is None:
                        os.killpg(r['p'].pid, signal.SIGKILL)
                if time.time() > deadline and not r['late']:
                    r['late'] = True
                    r['p'].send_signal(signal.SIGQUIT)
                    time.sleep(1)
                    if r['p'].poll() is None:
                        os.killpg(r['p'].pid, signal.SIGKILL)
    violations, inconcl, scens, races_seen, races_other = [], [], {}, [], 0
    for r in runs:
        collect(r, P, violations, inconcl, scens, races_seen)
    # A case that could not be decided gets one more chance on its own.
    if inconcl and not violations and not replay:
        retry = [x for x in inconcl if x.get('scen')]
        hard = [x for x in inconcl if not x.get('scen')]
        inconcl = hard
        for x in retry[:6]:
            rr = start(prop, P, scratch, binp, cmdbin, 100 + len(runs), 1, 4, 0, 0, seed, tier,
                       dict(scen=x['scen'], idx=x['idx'], repeat=1), procs)
            runs.append(rr)
            try:
                rr['p'].wait(timeout=max(30, deadline - time.time()))
            except subprocess.TimeoutExpired:
                rr['p'].send_signal(signal.SIGQUIT)
                rr['p'].wait(10)
                rr['late'] = True
            before = len(inconcl)
            collect(rr, P, violations, inconcl, {}, races_seen)
            # A panic that comes back, in code that called the code under test or was handed its values, is its doing:
            # none occurs on a tree with the property.
            if x.get('crash'):
                for y in [y for y in inconcl[before:] if y.get('crash') and (y['scen'], y['idx']) == (x['scen'], x['idx'])]:
                    inconcl.remove(y)
                    violations.append(dict(scen=y['scen'], idx=y['idx'], key='crash', msg=y['msg'], notes=[]))

    relevant = [x for x in races_seen if x[0]]
    if os.environ.get('VERIF_RACES'):
        for _, blk, _ in races_seen:
            print(blk, file=sys.stderr)
    if P['races_decide']:
        for _, blk, r in relevant[:1]:
            violations.append(dict(scen=(r['crumb'] or ':').rsplit(':', 1)[0], idx=-1, key='data race', msg=blk[:4000], notes=[]))
    known = load_known(prop)
    kf, real = [], []
    for v in violations:
        k = match_known(known, v)
        (kf if k else real).append((v, k))
    for k in sorted({k['what'] for _, k in kf}):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))

    evals = sum(s['evals'] for s in scens.values())
    distinct = sum(len(s['fps']) for s in scens.values())
    ev = dict(property=prop, tier=tier, seed=seed, level=P['level'], wall_s=round(time.time() - t0, 2),
              violations=len(real),
              assumptions=P['assumptions'],
              coverage=dict(
                  evaluations=evals, distinct_nontrivial=distinct, rule=P['rule'],
                  samples=[x for s in scens.values() for x in s['samples'][:2]][:14] or ['none'],
                  observed={n: dict(cases=s['evals'], nontrivial=s['nontriv'], distinct=len(s['fps']), events=s['ctr'])
                            for n, s in scens.items()},
                  race_detector=dict(enabled=P['race'], reports_in_code_under_test=len(relevant),
                                     reports_elsewhere=len(races_seen) - len(relevant)),
                  schedules=dict(processes=len(runs), gomaxprocs_and_yield=[list(c) for c in configs], notes=b.notes),
                  build_s=round(tb, 1), inconclusive=len(inconcl)))
    if not replay:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if real:
        v = real[0][0]
        path = os.path.join(VERIF, 'evidence', 'replay', prop + '.json')
        if not replay:
            with open(path, 'w') as f:
                json.dump(dict(property=prop, scen=v['scen'], idx=v['idx'], seed=seed, tier=tier, key=v['key'], msg=v['msg'],
                               notes=v.get('notes', []), others=[dict(scen=x[0]['scen'], idx=x[0]['idx'], key=x[0]['key']) for x in real[1:]],
                               how='./check.sh %s --replay %s' % (prop, path)), f, indent=1)
        for x, _ in real[:3]:
            print('[%s:%s] %s: %s' % (x['scen'], x['idx'], x['key'], x['msg'][:1800]))
        print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        return 1
    if inconcl:
        for x in inconcl[:3]:
            print('inconclusive: %s:%s %s' % (x.get('scen'), x.get('idx'), x['msg'][:2500]))
        die('%d executions could not be decided' % len(inconcl))
    if not replay and (distinct == 0 or evals == 0):
        die('nothing was observed')
    if not replay:
        missing = [n for n, s in scens.items() if s['nontriv'] == 0]
        if missing:
            die('monitors observed nothing in ' + ', '.join(missing))
    print('property=%s held on %d executions (%d distinct) in %.1fs (build %.1fs)' % (prop, evals, distinct, time.time() - t0, tb))
    return 0


def start(prop, P, scratch, binp, cmdbin, i, n, mp, yl, sl, seed, tier, replay, procs):
    d = os.path.join(scratch, 'run%d' % i)
    os.mkdir(d)
    env = go_env()
    env.update(VERIF_PROP=prop, VERIF_SHARD=str(i), VERIF_SHARDS=str(n), VERIF_OUT=d + '/out.json',
               VERIF_CRUMB=d + '/crumb', VERIF_DUMP=d + '/dump', VERIF_SCRATCH=d + '/tmp', TMPDIR=d + '/tmp',
               GOMAXPROCS=str(mp), VERIF_YIELD=str(yl), VERIF_YIELD_SLEEP=str(sl), VERIF_SEED=str(seed), VERIF_TIER=tier,
               VERIF_CMD=cmdbin, GOTRACEBACK='all', GODEBUG='',
               GORACE='log_path=%s/race halt_on_error=0 exitcode=0 history_size=3' % d)
    if replay:
        env['VERIF_REPLAY'] = '%s:%d' % (replay['scen'], replay['idx'])
        env['VERIF_REPEAT'] = str(replay.get('repeat', 10))
    os.mkdir(d + '/tmp')
    out = open(d + '/stdout', 'wb')
    p = subprocess.Popen([binp, '-test.run', '^TestProp$', '-test.timeout', '0'], cwd=d, env=env, stdin=subprocess.DEVNULL,
                         stdout=out, stderr=subprocess.STDOUT, start_new_session=True)
    procs.append(p)
    return dict(p=p, d=d, oom=False, late=False, crumb='', i=i)


def collect(r, P, violations, inconcl, scens, races_seen):
    d = r['d']
    try:
        os.killpg(r['p'].pid, signal.SIGKILL)
    except Exception:
        pass
    text = open(d + '/stdout', 'rb').read().decode('utf8', 'replace')
    try:
        r['crumb'] = open(d + '/crumb').read().strip()
    except Exception:
        pass
    scen, idx = '', -1
    if ':' in r['crumb']:
        scen, k = r['crumb'].rsplit(':', 1)
        idx = int(k) if k.isdigit() else -1
    out = None
    try:
        out = json.load(open(d + '/out.json'))
    except Exception:
        pass
    if out:
        for f in out['fails'] or []:
            violations.append(f)
        for f in out['inconclusive'] or []:
            f['crash'] = f['msg'].startswith('harness panic: ') and not f['msg'].startswith('harness panic: harness: ')
            inconcl.append(f)
        for s in out['scens'] or []:
            t = scens.setdefault(s['name'], dict(evals=0, nontriv=0, fps=set(), ctr={}, samples=[]))
            t['evals'] += s['evals']
            t['nontriv'] += s['nontrivial']
            t['fps'] |= set(s.get('fps') or [])
            t['samples'] += s.get('samples') or []
            for k, v in (s.get('counters') or {}).items():
                t['ctr'][k] = t['ctr'].get(k, 0) + v
    for f in sorted(os.listdir(d)):
        if f.startswith('race'):
            for own, blk in race_reports(open(os.path.join(d, f), errors='replace').read()):
                races_seen.append((own, blk, r))
    for own, blk in race_reports(text):
        races_seen.append((own, blk, r))
    if out and out.get('done') and (r['p'].returncode == 0 or r['p'].returncode == 1 and 'race detected during execution' in text):
        return
    if any(v.get('scen') == scen and v.get('idx') == idx for v in violations) and out and out.get('done'):
        return
    rc = r['p'].returncode
    if rc == 97:
        dump = open(d + '/dump', errors='replace').read()
        verdict = dump.split('\n', 1)[0]
        if verdict in ('deadlock', 'livelock'):
            violations.append(dict(scen=scen, idx=idx, key=verdict, msg=excerpt(dump), notes=[]))
        else:
            inconcl.append(dict(scen=scen, idx=idx, msg='case did not end and is neither deadlocked nor spinning: ' + dump[:1500]))
        return
    if r['oom']:
        m = re.findall(r'^goroutine \d+ [^\n]*\[(?:running|runnable)[^\n]*\n(?:.*\n)*?(?=\n)', text, re.M)
        if PKG in ''.join(m) or PKG in text:
            violations.append(dict(scen=scen, idx=idx, key='unbounded memory', msg='memory grew beyond the limit\n' + excerpt(text), notes=[]))
        else:
            inconcl.append(dict(scen=scen, idx=idx, msg='memory limit reached'))
        return
    if r['late']:
        inconcl.append(dict(msg='time limit reached in ' + r['crumb']))
        return
    crashed, own, ex = crash_info(text)
    if crashed and own:
        violations.append(dict(scen=scen, idx=idx, key='crash', msg=ex, notes=[]))
    elif crashed:
        inconcl.append(dict(scen=scen, idx=idx, crash=ex.startswith('panic: '),
                            msg='process crashed outside the code under test: ' + ex))
    else:
        inconcl.append(dict(scen=scen, idx=idx, msg='run ended with status %s: %s' % (rc, text[-1500:])))


def excerpt(dump):
    gs = [g for g in dump.split('\n\n') if PKG in g]
    return '\n\n'.join(gs)[:3500] or dump[:2000]


def load_known(prop):
    out = []
    try:
        for line in open(os.path.join(VERIF, 'known-findings.txt')):
            m = re.match(r'known: property=(\S+) scen=(\S+) key=(.+?) match=/(.*)/ what=(.*)$', line.rstrip('\n'))
            if m and m.group(1) == prop:
                out.append(dict(scen=m.group(2), key=m.group(3), rx=m.group(4), what=m.group(5)))
    except FileNotFoundError:
        pass
    return out


def match_known(known, v):
    for k in known:
        if k['scen'] == v['scen'] and k['key'] == v['key'] and re.search(k['rx'], v['msg']):
            return k
    return None


if __name__ == '__main__':
    try:
        main()
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
