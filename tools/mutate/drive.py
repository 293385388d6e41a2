#!/usr/bin/env python3
"""Runs the checks against mechanical mutants of /repo's HEAD.

drive.py MUTANTS RESULTS [WORKERS] [FILTER-REGEX]: MUTANTS is the output of
mutate; RESULTS is appended to (mutants listed there are skipped). Tests of
mutants run as an unprivileged user in scratch copies.
"""
import json, os, re, subprocess, sys, tempfile, shutil, threading, queue, time
verif = os.environ.get('VERIF_COPY') or os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
muts = [json.loads(l) for l in open(sys.argv[1])]
res = sys.argv[2]
workers = int(sys.argv[3]) if len(sys.argv) > 3 else 2
flt = re.compile(sys.argv[4] if len(sys.argv) > 4 else '')
done = set(json.loads(l)['id'] for l in open(res)) if os.path.exists(res) else set()
order = [
 (r'^(vercmp|nevra)', 'C23 C24 C05'), (r'^tags', 'C03'), (r'^errors', 'C03'),
 (r'^header', 'C03 C04 C05 C01 C06 C02 C19 C26 C08 C07 C20 C17'),
 (r'^rpmutils', 'C03 C04 C05 C06 C11 C12 C14 C13 C08 C19 C20 C16'),
 (r'^cpio/extract', 'C14 C15 C10 C08 C13 C02 C07'), (r'^cpio/', 'C09 C10 C08 C02 C14 C07 C11 C12'),
 (r'^writeheader', 'C20 C27 C16 C21'), (r'^signatures', 'C16 C21 C27 C22 C19 C13 C08'),
 (r'^verify', 'C18 C19 C17 C16 C08 C07 C01'), (r'^payload', 'C11 C13 C10 C12 C08'), (r'^uncompress', 'C12 C13 C10 C08 C07'),
 (r'^file(info|sigs)', 'C05 C11'), (r'^fileutil', 'C14 C15 C21 C22'),
]
env = dict(os.environ)
for l in subprocess.run(['bash', '-c', '. /opt/vp/env.sh; env -0'], capture_output=True, text=True).stdout.split('\0'):
    if '=' in l:
        k, v = l.split('=', 1)
        env[k] = v
lock = threading.Lock()
def report(m, **kw):
    with lock, open(res, 'a') as f:
        f.write(json.dumps({'id': m['id'], 'kind': m['kind'], 'line': m['line'], 'old': m['old'], 'new': m['new'], **kw}) + '\n')
def one(m):
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    os.chmod(d, 0o755)
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C %s && chmod -R a+rX %s' % (d, d), shell=True, check=True)
        p = d + '/' + m['file']
        s = open(p, 'rb').read()
        s = s[:m['start']] + m['new'].encode() + s[m['end']:]
        open(p, 'wb').write(s)
        nocgo = 'nocgo' in m['file']
        e = dict(env, CGO_ENABLED='0' if nocgo else '1')
        if subprocess.run(['go', 'build', './...'], cwd=d, env=e, capture_output=True).returncode:
            return report(m, result='nobuild')
        # tests: built as root, run as nobody
        for i, pkg in enumerate(['.', 'cpio']):
            b = '%s/t%d.test' % (d, i)
            if subprocess.run(['go', 'test', '-vet=off', '-c', '-o', b, './' + pkg], cwd=d, env=e, capture_output=True).returncode:
                return report(m, result='nobuild')
            if not os.path.exists(b):
                continue
            t = d + '/tmp'
            os.makedirs(t, exist_ok=True)
            os.chmod(t, 0o777)
            try:
                r = subprocess.run(['setpriv', '--reuid=65534', '--regid=65534', '--clear-groups', 'bash', '-c', 'ulimit -v 8000000; exec timeout -s KILL 60 ' + b], cwd=d + '/' + pkg, env=dict(e, TMPDIR=t, HOME=t), capture_output=True, timeout=90)
            except subprocess.TimeoutExpired:
                return report(m, result='tests')
            if r.returncode:
                return report(m, result='tests')
            os.remove(b)
        props = next(ps for rx, ps in order if re.match(rx, m['file'])).split()
        odd = []
        for c in props:
            t0 = time.time()
            r = subprocess.run([verif + '/run.sh', c], env=dict(env, RTMON_REPO=d, VERIF_SEED='1', GOFLAGS=''), capture_output=True, text=True)
            if r.returncode == 1 and 'VIOLATION property=' + c in r.stdout:
                return report(m, result='caught', by=c, odd=odd)
            if r.returncode:
                odd.append([c, r.returncode, r.stdout[-300:]])
        report(m, result='survived', odd=odd)
    finally:
        shutil.rmtree(d, ignore_errors=True)
q = queue.Queue()
for m in muts:
    if m['id'] not in done and flt.search(m['id']):
        q.put(m)
def loop():
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        try:
            one(m)
        except Exception as e:
            report(m, result='error', error=str(e))
ts = [threading.Thread(target=loop) for _ in range(workers)]
for t in ts: t.start()
for t in ts: t.join()
