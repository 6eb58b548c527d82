"""Worker: runs one shard of the cases of a property.  python -m vf.worker PROP TIER SEED SHARD NSHARDS OUT [REPLAY]"""
import importlib
import json
import os
import resource
import sys
import time


def main():
    prop, tier, seed, shard, nshards, out = sys.argv[1:7]
    seed, shard, nshards = int(seed), int(shard), int(nshards)
    replay = json.load(open(sys.argv[7])) if len(sys.argv) > 7 else None
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:  # noqa
        pass
    t0 = time.time()
    crash = None
    try:
        from . import boot  # noqa
    except Exception as e:  # the library cannot even be imported
        import traceback
        crash = 'commpy cannot be imported: %s\n%s' % (e, traceback.format_exc()[-1500:])
    from .core import Case, STATE, run_case, stable_seed
    result = {'shard': shard, 'done': False}
    if crash:
        result.update(done=True, violations=[{
            'property': prop, 'workload': 'import', 'idx': 0, 'case_seed': 0, 'tier': tier, 'what': crash,
            'key': 'import', 'info': {}, 'detail': {}}], evaluations=1, events={}, tags={}, marks=[], samples={},
            workloads={}, skipped=0, max_cpu={}, wall=time.time() - t0, poisoned=0)
        json.dump(result, open(out, 'w'))
        return
    mod = importlib.import_module('vf.props.' + prop.lower())
    if hasattr(mod, 'setup'):
        mod.setup()
    from . import mon
    if prop not in ('C27', 'C28'):
        mon.leave_out_defaults()
    budget = getattr(mod, 'CPU_LIMIT', 150 if tier == 'quick' else 600)
    plan = []
    if replay is not None:
        plan = [(replay['workload'], replay['idx'])]
    else:
        per = []
        for w, spec in mod.WORKLOADS.items():
            n = spec[1] if tier == 'quick' else spec[2]
            if callable(n):
                n = n()
            if tier != 'quick':
                n = max(n, spec[1]() if callable(spec[1]) else spec[1])
            per.append([(w, i) for i in range(n)])
        # Interleave the workloads so that a deadline cuts all of them evenly
        order = []
        for p in per:
            order += [((i + .5) / len(p), j) for i, j in enumerate(p)]
        order.sort(key=lambda x: x[0])
        plan = [j for _, j in order][shard::nshards]
    deadline = t0 + float(os.environ.get('VF_DEADLINE', 240 if tier == 'quick' else 2400))
    stop_file = os.path.join(os.path.dirname(out), 'stop')
    skipped = 0
    for pos, (w, i) in enumerate(plan):
        if replay is None and (time.time() > deadline or os.path.exists(stop_file)):
            skipped = len(plan) - pos
            break
        s = stable_seed(seed, prop, w, i) if replay is None else replay['case_seed']
        ok = run_case(Case(prop, w, i, s, tier), mod.WORKLOADS[w][0], budget)
        if not ok and len(STATE.violations) >= 2 and replay is None:
            open(stop_file, 'w').close()
            skipped = len(plan) - pos - 1
            break
    result.update(done=True, evaluations=STATE.evaluations, events=STATE.events, tags=STATE.tags,
                  marks=sorted(STATE.marks), samples=STATE.samples, violations=STATE.violations,
                  workloads=STATE.workloads, skipped=skipped, max_cpu=STATE.max_cpu, wall=time.time() - t0,
                  poisoned=boot.Poison.buffers)
    with open(out + '.tmp', 'w') as f:
        json.dump(result, f)
    os.rename(out + '.tmp', out)


main()
