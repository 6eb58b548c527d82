#!/usr/bin/env python3
"""Runs the check of one property: python3 -m vf.run PROP [--tier quick|thorough] [--replay FILE]

Exit status: 0 held on everything explored, 1 violation (VIOLATION line), 2 inconclusive, 3 a worker died."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv-pypy/bin/python'


def known_findings(prop):
    out = {}
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: '):
                # finding: property=C00 key=<key> | what fails
                head, _, what = line[len('finding: '):].strip().partition(' | ')
                p, _, key = head.partition(' key=')
                if p == 'property=' + prop:
                    out[key] = what
    return out


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    replay = args[args.index('--replay') + 1] if '--replay' in args else None
    n = 1 if replay else int(os.environ.get('VF_WORKERS', '8'))
    hard = 840 if tier == 'quick' else 3 * 3600
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vf-%s-' % prop)
    env = dict(os.environ)
    env.update(PYTHONPATH=ROOT, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', HOME=tmp,
               MPLCONFIGDIR=tmp, TMPDIR=tmp, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', VF_TMP=tmp)
    if replay:
        env['VF_REPLAY'] = '1'
        r = json.load(open(replay))
        tier, seed = r['tier'], 0
    procs = []
    for s in range(n):
        out = os.path.join(tmp, 'out%d.json' % s)
        cmd = [PY, '-m', 'vf.worker', prop, tier, str(seed), str(s), str(n), out]
        if replay:
            cmd.append(os.path.abspath(replay))
        procs.append((subprocess.Popen(cmd, cwd=ROOT, env=env, stdout=subprocess.DEVNULL,
                                       stderr=open(os.path.join(tmp, 'err%d' % s), 'w')), out))
    timed_out = False
    for p, _ in procs:
        try:
            p.wait(max(1, t0 + hard - time.time()))
        except subprocess.TimeoutExpired:
            timed_out = True
            p.kill()
            p.wait()
    res, dead = [], []
    for i, (p, out) in enumerate(procs):
        if os.path.exists(out):
            res.append(json.load(open(out)))
        else:
            dead.append((i, p.returncode, open(os.path.join(tmp, 'err%d' % i)).read()[-2000:]))
    shutil.rmtree(tmp, ignore_errors=True)

    def merge(key):
        d = {}
        for r in res:
            for k, v in r[key].items():
                d[k] = d.get(k, 0) + v
        return dict(sorted(d.items()))

    events, tags, workloads = merge('events'), merge('tags'), merge('workloads')
    marks = set()
    for r in res:
        marks.update(r['marks'])
    evaluations = sum(r['evaluations'] for r in res)
    violations = [v for r in res for v in r['violations']]
    skipped = sum(r['skipped'] for r in res)
    samples, seen = [], {}
    for r in res:
        for w, lst in r['samples'].items():
            for c in lst:
                if seen.get(w, 0) < 2:
                    seen[w] = seen.get(w, 0) + 1
                    samples.append(c)
    max_cpu = {}
    for r in res:
        for w, v in r['max_cpu'].items():
            max_cpu[w] = round(max(v, max_cpu.get(w, 0)), 2)

    known = known_findings(prop)
    new, old = [], {}
    for v in violations:
        if v['key'] in known:
            old[v['key']] = v
        else:
            new.append(v)

    spec = json.loads(subprocess.run(
        [sys.executable, '-c', 'import ast,sys,json\n'
         't=ast.parse(open(sys.argv[1]).read())\n'
         'd={}\n'
         'for s in t.body:\n'
         '    if isinstance(s,ast.Assign) and getattr(s.targets[0],"id","") in ("REQUIRE","RULE","ASSUMPTIONS"):\n'
         '        d[s.targets[0].id]=ast.literal_eval(s.value)\n'
         'print(json.dumps(d))', os.path.join(ROOT, 'vf', 'props', prop.lower() + '.py')],
        stdout=subprocess.PIPE, check=True).stdout.decode())
    missing = []
    for name, low in spec.get('REQUIRE', {}).items():
        got = events.get(name, tags.get(name, workloads.get(name, 0)))
        if got < low:
            missing.append('%s: %d < %d' % (name, got, low))

    if not replay:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
            'coverage': {
                'evaluations': evaluations,
                'distinct_nontrivial': len(marks),
                'rule': spec.get('RULE', '') + ' Cases are distinct when their workload and recorded parameters '
                                               'differ; a case is non-trivial when the code under test was called '
                                               'on them and an oracle judged the outcome.',
                'samples': samples[:12],
                'workloads': workloads,
                'monitor_events': events,
                'observed': tags,
                'poisoned_buffers': sum(r.get('poisoned', 0) for r in res),
                'cases_skipped_by_deadline': skipped,
                'workers': len(res),
                'max_cpu_s_per_case': max_cpu,
            },
            'assumptions': spec.get('ASSUMPTIONS', []),
            'wall_s': round(time.time() - t0, 2),
            'violations': len(new),
        }
        path = os.path.join(ROOT, 'evidence', prop + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(path + '.tmp', path)

    for k in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    if new:
        rdir = os.path.join(ROOT, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(new[:3]):
            path = replay or os.path.join(rdir, '%s-%s-%d.json' % (prop, tier, i))
            if not replay:
                json.dump(v, open(path, 'w'), indent=1)
            print('property %s, workload %s[%d], seed %d: %s' % (prop, v['workload'], v['idx'], v['case_seed'],
                                                                  v['what']))
            print('  case: %s' % json.dumps(v['info'])[:1500])
            print('  detail: %s' % json.dumps(v['detail'])[:3000])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if dead:
        for i, rc, err in dead:
            print('worker %d ended with status %s%s\n%s' % (i, rc, ' (watchdog)' if timed_out else '', err))
        print('INCONCLUSIVE property=%s: a worker died' % prop)
        return 3
    if replay:
        print('no violation when replaying %s' % replay)
        return 0
    if missing:
        print('INCONCLUSIVE property=%s: monitors not reached enough: %s' % (prop, '; '.join(missing)))
        return 2
    print('property %s held on %d executions (%d distinct), %d monitor events, %.1f s%s' % (
        prop, evaluations, len(marks), sum(events.values()), time.time() - t0,
        ', %d cases skipped by the deadline' % skipped if skipped else ''))
    return 0


sys.exit(main())
