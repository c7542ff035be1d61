#!/usr/bin/env python3
"""Looks for small changes of /repo that build, pass the stable tests, and no check notices (a hint at behaviour nobody
watches, or a change that makes no difference).

mutate.py filter MUTS OUT N      keep the mutants that build and pass the stable tests (N workers)
mutate.py check  MUTS OUT N      run the checks of the file's properties on each until one notices
MUTS: output of harness/mutgen. Everything happens in copies (and mount namespaces) under /tmp."""
import concurrent.futures, json, os, queue, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open('/opt/vp/BASELINE.json'))
ENV = open('/opt/vp/env.sh').read()
MAP = {
    'store.go': 'C01 C03 C22 C06 C05 C02 C07 C04 C21', 'multi.go': 'C07', 'collector.go': 'C08 C09 C10 C22 C11 C13 C12 C21',
    'id.go': 'C15', 'span.go': 'C15 C28 C11 C22 C16 C01', 'trace.go': 'C28 C01 C23 C24', 'event.go': 'C16 C28 C14 C20', 'reflect.go': 'C16 C19',
    'recorder.go': 'C14', 'httptrace/client.go': 'C18 C17 C19 C21', 'httptrace/server.go': 'C18 C17 C19', 'httptrace/header.go': 'C17 C18 C19',
    'opentracing/recorder.go': 'C20', 'opentracing/json.go': 'C20', 'opentracing/tracer.go': 'C20', 'sqltrace/sql.go': 'C28 C16',
    'traceapp/app.go': 'C24 C25 C23 C21', 'traceapp/aggregate.go': 'C24', 'traceapp/prof.go': 'C24', 'traceapp/dashboard.go': 'C24 C25',
    'traceapp/vis.go': 'C24', 'traceapp/trace.go': 'C25 C24 C23', 'traceapp/tmpl.go': 'C25 C23 C24 C21', 'traceapp/handler.go': 'C25 C23', 'traceapp/httputil.go': 'C25',
    'traceapp/router.go': 'C25 C23', 'cmd/appdash/serve_cmd.go': 'C26 C27', 'cmd/appdash/appdash.go': 'C26 C27',
}
mode, src, dst, n = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
only = sys.argv[5:]
muts = [json.loads(l) for l in open(src)]
done = set()
key = lambda m: (m['file'], m['start'], m['end'], m['repl'])
if os.path.exists(dst):
    done = {key(json.loads(l)) for l in open(dst)}
todo, seen = [], set()
for m in muts:
    if key(m) in done or key(m) in seen or (only and m['file'] not in only):
        continue
    seen.add(key(m))
    todo.append(m)
lock = threading.Lock()
out = open(dst, 'a')
top = tempfile.mkdtemp(prefix='mutate-', dir='/tmp')
pool = queue.Queue()
for i in range(n):
    d = '%s/w%d' % (top, i)
    os.mkdir(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    subprocess.run('mkdir %s/verif && cp -a %s/check.sh %s/known-findings.txt %s/harness %s/tools %s/properties.jsonl %s/verif/ && mkdir %s/verif/evidence' % (d, VERIF, VERIF, VERIF, VERIF, VERIF, d, d), shell=True, check=True)
    pool.put(d)


def sh(cmd, cwd, timeout):
    p = subprocess.Popen(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, 'timeout'


WANT = BASE.get('stable') or BASE.get('tests') or []
WANT = set(WANT if isinstance(WANT, list) else WANT.keys())


def filt(m, d):
    env = ENV.replace('/repo', d + '/repo')
    rc, o = sh(env + '\ngo build $PKGS', d + '/repo', 300)
    if rc:
        return 'no build'
    if m['file'].startswith('cmd/'):
        return 'survives'
    log, res = d + '/log', d + '/out.json'
    sh('%s\ngo test -json -vet=off -count=1 -timeout 60s $PKGS > %s; python3 /opt/vp/results.py %s gojson:%s' % (env, log, res, log), d + '/repo', 200)
    try:
        got = set(json.load(open(res)).get('passed') or [])
    except Exception:
        return 'tests fail'
    return 'tests fail' if WANT - got else 'survives'


def check(m, d):
    r = []
    for c in MAP[m['file']].split():
        rc, o = sh('unshare -m bash -c "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && ./check.sh %s"' % (d, d, c), '/', 900)
        r.append('%s=%d' % (c, rc))
        if rc == 1 and 'VIOLATION' in o:
            return 'caught ' + ' '.join(r)
        if rc == 2 and 'does not build' in o:
            return 'no build'
    return 'MISSED ' + ' '.join(r)


def one(m):
    d = pool.get()
    f = d + '/repo/' + m['file']
    try:
        b = open('/repo/' + m['file'], 'rb').read()
        old = m['old'].encode()
        if b[m['start']:m['end']] != old:  # the file has changed since
            at = [i for i in range(len(b)) if b.startswith(old, i)]
            if not at:
                return
            i = min(at, key=lambda i: abs(i - m['start']))
            m['start'], m['end'] = i, i + len(old)
        open(f, 'wb').write(b[:m['start']] + m['repl'].encode() + b[m['end']:])
        m['result'] = (filt if mode == 'filter' else check)(m, d)
        shutil.copy('/repo/' + m['file'], f)
    finally:
        pool.put(d)
    with lock:
        out.write(json.dumps(m) + '\n')
        out.flush()


try:
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        list(ex.map(one, todo))
finally:
    shutil.rmtree(top, ignore_errors=True)
