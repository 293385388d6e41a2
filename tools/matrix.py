#!/usr/bin/env python3
"""Runs checks against the planted bugs, in scratch copies of /repo's HEAD.

matrix.py [--all] [ID...]: for each bug in /verif/seeded the check of its own
property (or all checks); prints which of them report a violation.
"""
import json, os, re, subprocess, sys, tempfile, shutil, time
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
every = '--all' in sys.argv
props = [json.loads(l)['id'] for l in open(verif + '/properties.jsonl')]
for id in sorted(os.listdir(verif + '/seeded')):
    if args and id not in args: continue
    meta = json.load(open('%s/seeded/%s/meta.json' % (verif, id)))
    d = tempfile.mkdtemp(prefix='matrix.')
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git apply %s/seeded/%s/patch.diff' % (d, d, verif, id), shell=True, check=True)
        res, hits = [], []
        for p in (props if every else [meta['property']]):
            t = time.time()
            r = subprocess.run([verif + '/run.sh', p], env=dict(os.environ, RTMON_REPO=d, VERIF_SEED=os.environ.get('VERIF_SEED', '1')), capture_output=True, text=True)
            hit = r.returncode == 1 and 'VIOLATION property=' + p in r.stdout
            if hit: hits.append(p)
            if hit or not every or r.returncode not in (0, 1):
                res.append('%s:%s(%.0fs)' % (p, 'CAUGHT' if hit else 'rc=%d MISSED' % r.returncode, time.time() - t))
        f = verif + '/tools/matrix.json'
        m = json.load(open(f)) if os.path.exists(f) else {}
        m[id] = {'property': meta['property'], 'caught_by': hits, 'all': every}
        json.dump(m, open(f, 'w'), indent=1, sort_keys=True)
        print(id, ' '.join(res) or 'nothing', flush=True)
    finally:
        shutil.rmtree(d)
