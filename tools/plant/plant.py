#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from bugs.py, after confirming each planted bug.

Each bug is applied to a scratch copy of /repo's HEAD, where it has to build
(cgo, no cgo, windows), pass the stable tests and fail its demonstration, which
has to pass on the unchanged tree. Usage: plant.py [ID...]
"""
import json, os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(os.path.dirname(here))
sys.path.insert(0, here)
import bugs
B = json.load(open('/opt/vp/BASELINE.json'))['stable']
DEMO = '''#!/bin/bash
# Run in the repository after the build: exit 0 if the property holds.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
cat >"$tmp/overlay.json" <<END
{"Replace": {"$PWD/zz_demo_test.go": "$here/demo.go.txt", "$PWD/zz_demo_helper_test.go": "$here/helper.go.txt"}}
END
%sgo test -overlay "$tmp/overlay.json" -vet=off%s -timeout 120s -count=1 -run '^TestDemo$' .
'''
def env():
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; env -0'], capture_output=True, text=True).stdout
    return dict(x.split('=', 1) for x in out.split('\0') if '=' in x)
ENV = env()
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=kw.pop('env', ENV), shell=isinstance(cmd, str), capture_output=True, text=True, errors='replace', **kw)
def tests(cwd):
    ok = set()
    for cgo, pre in (('1', ''), ('0', 'nocgo:')):
        r = sh('go test -json -vet=off -count=1 -timeout 5m ./...', cwd, env=dict(ENV, CGO_ENABLED=cgo))
        for l in r.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get('Action') == 'pass' and e.get('Test'):
                ok.add(pre + e['Package'] + '/' + e['Test'])
    return ok
def export(d):
    subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A -f && git -c user.email=x@x -c user.name=x commit -qm x' % (d, d), shell=True, check=True)
only = sys.argv[1:]
base = tempfile.mkdtemp(prefix='plant.')
try:
    clean = os.path.join(base, 'clean'); os.mkdir(clean); export(clean)
    mut = os.path.join(base, 'mut'); os.mkdir(mut); export(mut)
    for bug in bugs.BUGS:
        id = bug['id']
        if only and id not in only: continue
        subprocess.run('git checkout -q -- .', shell=True, cwd=mut)
        bad = None
        for f, old, new in bug['edits']:
            p = os.path.join(mut, f)
            s = open(p).read()
            if s.count(old) != 1: bad = 'edit of %s: %d matches' % (f, s.count(old)); break
            open(p, 'w').write(s.replace(old, new))
        if bad: print(id, 'FAIL', bad); continue
        r = sh('gofmt -l .', mut)
        if r.stdout.strip(): print(id, 'gofmt:', r.stdout.split())
        patch = sh('git diff', mut).stdout
        # every patch must change lines of the original repository
        for cgo, osn in (('1', 'linux'), ('0', 'linux'), ('0', 'windows')):
            r = sh('go build ./...', mut, env=dict(ENV, CGO_ENABLED=cgo, GOOS=osn))
            if r.returncode: bad = 'build: ' + r.stderr[:500]; break
        if bad: print(id, 'FAIL', bad); continue
        miss = [t for t in B if t not in tests(mut)] if False else None
        ok = tests(mut)
        miss = [t for t in B if t not in ok and t.replace('github.com/sassoftware/go-rpmutils', '') not in ok]
        if miss: print(id, 'FAIL tests', miss[:3], len(miss)); continue
        out = os.path.join(base, 'out', id); os.makedirs(out)
        open(out + '/patch.diff', 'w').write(patch)
        open(out + '/demo.sh', 'w').write(DEMO % (bug.get('env', ''), bug.get('flags', '')))
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.go.txt', 'w').write('package rpmutils_test\n\n' + bug['demo'].lstrip())
        shutil.copy(here + '/helper_test.go', out + '/helper.go.txt')
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        r0 = sh([out + '/demo.sh'], clean, timeout=300)
        r1 = sh([out + '/demo.sh'], mut, timeout=300)
        if r0.returncode != 0: print(id, 'FAIL demo on unchanged:', (r0.stdout + r0.stderr)[-1500:]); continue
        if r1.returncode == 0: print(id, 'FAIL demo passes with the patch'); continue
        if '[build failed]' in r1.stdout: print(id, 'FAIL demo does not build', r1.stdout[-500:]); continue
        dst = os.path.join(verif, 'seeded', id)
        if os.path.isdir(dst): shutil.rmtree(dst)
        shutil.copytree(out, dst)
        tail = [l for l in r1.stdout.splitlines() if l.strip()][:3]
        print(id, 'ok', ' | '.join(tail)[:200])
        sys.stdout.flush()
finally:
    shutil.rmtree(base)
