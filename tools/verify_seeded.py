#!/usr/bin/env python3
"""verify_seeded.py [-a] [ID...]: runs the check of each planted bug (with -a every check which is listed in
seeded_results.json too) on a copy of /repo with the bug, and records the outcome in seeded_results.json."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
RES = os.path.join(HERE, 'seeded_results.json')
D = '/tmp/w/verify_seeded'
args = [a for a in sys.argv[1:] if a != '-a']
res = json.load(open(RES)) if os.path.exists(RES) else {}
bad = []
for b in args or sorted(os.listdir(ROOT + '/seeded')):
    src = '%s/seeded/%s' % (ROOT, b)
    prop = json.load(open(src + '/meta.json'))['property']
    shutil.rmtree(D, ignore_errors=True)
    shutil.copytree('/repo', D, symlinks=True)
    if subprocess.run(['git', 'apply', src + '/patch.diff'], cwd=D).returncode:
        print(b, 'DOES NOT APPLY', flush=True)
        bad.append(b)
        continue
    out = res.setdefault(b, {})
    for p in [prop] + (sorted(k for k in out if k != prop) if '-a' in sys.argv else []):
        r = subprocess.run(['./run_check.sh', p], cwd=ROOT, env=dict(os.environ, VF_REPO=D), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        ok = r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout
        out[p] = 'caught' if ok else 'missed'
        print(b, p, out[p], '' if ok else 'rc %d' % r.returncode, flush=True)
        if p == prop and not ok:
            bad.append(b)
    json.dump(res, open(RES, 'w'), indent=1, sort_keys=True)
shutil.rmtree(D, ignore_errors=True)
print('not caught:', bad)
