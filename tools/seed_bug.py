#!/usr/bin/env python3
"""Turns descriptions of planted bugs into /verif/seeded/<id>/ after confirming them in a scratch copy of /repo.

    tools/seed_bug.py FILE.py [ID ...]

FILE.py calls bug(id, property, needs, breaks, edits, demo): edits is a list of (file, old, new) where file is
relative to commpy/, demo the body of a program which fails with the change only. For each bug:
 - the edits are made in a copy of /repo under /tmp, and the lines they remove must be those of the original repository;
 - the stable tests pass in the copy, the demonstration passes on /repo and fails in the copy;
 - the check of the property (and those named in also=) is run on the copy: the result is printed, whatever it is.
"""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

BASE = '837bb14'
PY = '/opt/venv-pypy/bin/python'
SEEDED = os.environ.get('SEEDED', '/verif/seeded')
WORK = '/tmp/w/seed'
VERIF = os.environ.get('VERIF_COPY', '/verif')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/vp/mpl',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
BUGS = []
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

DEMO_SH = '''#!/bin/bash
# Runs with cwd /repo: exit 0 when the property holds, 1 when it is broken.
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$T" TMPDIR="$T" OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
PYTHONPATH="$PWD" timeout 250 /opt/venv-pypy/bin/python "$(dirname "$0")/demo.py"
'''


def bug(id, prop, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, also=list(also)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          env=ENV, **kw)


def original_lines(f):
    out = sh('git -C /repo blame -s %s..HEAD -- %s' % (BASE, f)).stdout.splitlines()
    return {i + 1 for i, l in enumerate(out) if l.startswith('^')}


def test_cmds(files):
    """ Test files of the stable tests which depend on the changed files. """
    ch = 'commpy/tests/test_channels.py'
    cmds = []
    all_ = ['commpy/tests/test_modulation.py', 'commpy/tests/test_sequences.py', 'commpy/tests/test_utilities.py',
            'commpy/channelcoding/tests/test_gfields.py']
    notslow = ['commpy/channelcoding/tests/test_ldpc.py', 'commpy/channelcoding/tests/test_convcode.py']
    for f in all_:
        cmds.append([f])
    for f in notslow:
        cmds.append(['-a', '!slow', f])
    if any(f in ('channels.py', 'utilities.py', 'modulation.py') for f in files):
        cmds.append(['-a', '!slow', ch])
        cmds.append(['-a', 'slow', '-e', '^TestMIMOFading$', ch])
    return cmds


def run_tests(d, files):
    import xml.etree.ElementTree as ET
    bad = set()
    seen = set()

    def one(args):
        i, c = args
        x = '%s/.x%d.xml' % (d, i)
        sh([PY, '/opt/vp/run_nose.py', '-v'] + c + ['--with-xunit', '--xunit-file=' + x], cwd=d, timeout=880)
        return x
    with ThreadPoolExecutor(8) as ex:
        xs = list(ex.map(one, enumerate(test_cmds(files))))
    for x in xs:
        if not os.path.exists(x):
            bad.add('no report')
            continue
        for tc in ET.parse(x).getroot().iter('testcase'):
            name = tc.get('classname') + '::' + tc.get('name')
            if name in STABLE:
                seen.add(name)
                if len([c for c in tc if c.tag in ('failure', 'error')]):
                    bad.add(name)
        os.unlink(x)
    return bad, seen


def do(b):
    d = '%s/%s' % (WORK, b['id'])
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree('/repo', d, symlinks=True)
    res = {'id': b['id'], 'prop': b['prop'], 'ok': False}
    try:
        sh('git checkout -q -- .', cwd=d)
        for f, old, new in b['edits']:
            p = '%s/commpy/%s' % (d, f)
            s = open(p).read()
            if s.count(old) != 1:
                res['why'] = 'old text found %d times in %s: %r' % (s.count(old), f, old[:60])
                return res
            open(p, 'w').write(s.replace(old, new))
        patch = sh('git diff', cwd=d).stdout
        # Removed lines
        removed = 0
        cur = None
        for l in patch.splitlines():
            if l.startswith('--- a/'):
                cur = l[6:]
                orig = original_lines(cur)
            elif l.startswith('@@'):
                n = int(re.match(r'@@ -(\d+)', l).group(1))
            elif l.startswith('-') and not l.startswith('---'):
                if n not in orig:
                    res['why'] = 'line %d of %s is not original' % (n, cur)
                    if not os.environ.get('ALLOW_FIX_LINES'):
                        return res
                else:
                    removed += 1
                n += 1
            elif l.startswith(' '):
                n += 1
        if not removed:
            res['why'] = 'no original line removed'
            return res
        out = '%s/%s' % (d, '.seeded')
        os.makedirs(out)
        open(out + '/demo.py', 'w').write('"""Demonstration of a planted bug: see meta.json."""\n' + b['demo'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/patch.diff', 'w').write(patch)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        clean = sh(['bash', out + '/demo.sh'], cwd='/repo', timeout=300)
        if clean.returncode:
            res['why'] = 'demo fails on the clean tree: ' + clean.stdout[-1500:]
            return res
        dirty = sh(['bash', out + '/demo.sh'], cwd=d, timeout=300)
        if not dirty.returncode:
            res['why'] = 'demo passes with the change: ' + dirty.stdout[-300:]
            return res
        res['demo'] = dirty.stdout.strip().splitlines()[-1][:160] if dirty.stdout.strip() else ''
        bad, seen = run_tests(d, [f for f, _, _ in b['edits']])
        if bad:
            res['why'] = 'tests fail: %s' % sorted(bad)[:4]
            return res
        res['tests'] = len(seen)
        dest = '%s/%s' % (SEEDED, b['id'])
        if os.path.exists(dest):
            shutil.rmtree(dest)
        shutil.copytree(out, dest)
        res['ok'] = True
        if not os.environ.get('NOCHECK'):
            shutil.rmtree(out)
            caught = []
            for p in [b['prop']] + b['also']:
                t = time.time()
                r = subprocess.run(['./run_check.sh', p], cwd=VERIF, env=dict(ENV, VF_REPO=d, VERIF_SEED=os.environ.get('VERIF_SEED', '1'),
                                   VF_NOEVIDENCE='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                caught.append('%s:%s(%d viol, rc %d, %.0fs)' % (p, 'CAUGHT' if r.returncode == 1 and v else 'missed',
                                                                len(v), r.returncode, time.time() - t))
                res['tail'] = '\n'.join(r.stdout.splitlines()[-3:])[:400]
            res['caught'] = caught
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    src = sys.argv[1]
    exec(compile(open(src).read(), src, 'exec'), {'bug': bug})
    ids = sys.argv[2:]
    todo = [b for b in BUGS if not ids or b['id'] in ids]
    for b in todo:
        r = do(b)
        print('%-28s %s %s' % (r['id'], 'OK ' if r['ok'] else 'REJECTED', r.get('caught') or r.get('why')), flush=True)
        if r['ok'] and any('missed' in c for c in r.get('caught', [])):
            print('    ', r.get('demo'), '|', r.get('tail'), flush=True)


if __name__ == '__main__':
    main()
