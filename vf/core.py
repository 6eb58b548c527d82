"""Cases, oracles' verdicts and bookkeeping (worker side)."""
import hashlib
import math
import traceback

import numpy as np


class Violation(Exception):
    """ Raised (after having been recorded) to end a case whose monitor has seen a violation. """


class Hang(BaseException):
    """ A case used far more CPU time than any legitimate run does. """


def stable_seed(*parts):
    return int.from_bytes(hashlib.sha256('|'.join(map(str, parts)).encode()).digest()[:4], 'little')


class State:
    """ Everything a worker accumulates. """

    def __init__(self):
        self.case = None
        self.evaluations = 0
        self.events = {}
        self.marks = set()
        self.tags = {}
        self.samples = {}
        self.violations = []
        self.workloads = {}
        self.max_cpu = {}

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n


STATE = State()


def short(x, limit=300):
    try:
        if isinstance(x, np.ndarray):
            s = 'array(shape=%s, dtype=%s, %s)' % (x.shape, x.dtype, np.array2string(
                x, threshold=24, max_line_width=200, precision=6).replace('\n', ' '))
        else:
            s = repr(x)
    except Exception as e:  # noqa
        s = '<unprintable %s>' % type(e).__name__
    return s if len(s) <= limit else s[:limit] + '...'


class Case:
    """ One execution of a workload with its own random stream. """

    def __init__(self, prop, workload, idx, seed, tier):
        self.prop, self.workload, self.idx, self.seed, self.tier = prop, workload, idx, seed, tier
        self.rng = np.random.RandomState(seed)
        self.info = {}
        self.nontrivial = False

    # -- description of the case --------------------------------------------------------------------------------
    def note(self, **kw):
        """ Parameters of the case: they identify it (distinct cases) and appear in the replay file. """
        for k, v in kw.items():
            self.info[k] = short(v, 160)
        self.nontrivial = True

    def tag(self, name, n=1):
        STATE.tags[name] = STATE.tags.get(name, 0) + n

    # -- verdicts -----------------------------------------------------------------------------------------------
    def fail(self, what, finding_key=None, **detail):
        rec = {'property': self.prop, 'workload': self.workload, 'idx': self.idx, 'case_seed': self.seed,
               'tier': self.tier, 'what': what, 'key': finding_key or what, 'info': dict(self.info),
               'detail': {k: short(v) for k, v in detail.items()}}
        STATE.violations.append(rec)
        raise Violation(what)

    def check(self, cond, what, **detail):
        if not cond:
            self.fail(what, **detail)

    def equal(self, got, want, what, **detail):
        """ Same shape and same values. """
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape or not np.array_equal(g, w):
            self.fail(what, got=got, want=want, **detail)

    def close(self, got, want, what, rtol=1e-9, atol=1e-9, **detail):
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.fail(what + ' (shape)', got=got, want=want, **detail)
        if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=False):
            with np.errstate(all='ignore'):
                err = np.abs(g - w)
            self.fail(what, got=got, want=want, max_error=np.max(err) if err.size else None, **detail)

    def raises(self, exc, func, what, *a, **k):
        try:
            r = func(*a, **k)
        except exc:
            return
        except Violation:
            raise
        except Exception as e:  # noqa
            self.fail(what + ': raised %s instead of %s' % (type(e).__name__, getattr(exc, '__name__', exc)),
                      error=e, args=a, kwargs=k)
        self.fail(what + ': no %s' % getattr(exc, '__name__', exc), result=r, args=a, kwargs=k)

    def stat(self, z, what, limit=7.0, **detail):
        """ z: deviation from the expected value in standard deviations. """
        STATE.event('statistic')
        if not (abs(z) <= limit):
            self.fail(what, z=z, **detail)

    def binom(self, count, n, p, what, limit=7.0, **detail):
        """ count successes among n trials of probability p is plausible. """
        STATE.event('statistic')
        if p <= 0 or p >= 1:
            self.check(count == (0 if p <= 0 else n), what, count=count, n=n, p=p, **detail)
            return
        sd = math.sqrt(n * p * (1 - p))
        slack = limit * limit / 2.  # Poisson-like tails
        self.check(abs(count - n * p) <= limit * sd + slack, what, count=count, n=n, p=p, expected=n * p, **detail)


def run_case(case, func, budget):
    """ Execute one case, recording whatever goes wrong. """
    import signal
    import time
    STATE.case = case
    STATE.evaluations += 1
    STATE.workloads[case.workload] = STATE.workloads.get(case.workload, 0) + 1
    np.random.seed(case.seed)
    n0 = len(STATE.violations)
    t0 = time.process_time()

    def on_timer(signum, frame):
        raise Hang()

    signal.signal(signal.SIGVTALRM, on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, budget)
    try:
        func(case)
    except Violation:
        if len(STATE.violations) == n0:  # cannot happen, but never lose one
            STATE.violations.append({'property': case.prop, 'workload': case.workload, 'idx': case.idx,
                                     'case_seed': case.seed, 'tier': case.tier, 'what': 'violation', 'key': '?',
                                     'info': dict(case.info), 'detail': {}})
    except Hang:
        STATE.violations.append({'property': case.prop, 'workload': case.workload, 'idx': case.idx,
                                 'case_seed': case.seed, 'tier': case.tier,
                                 'what': 'no result after %d s of CPU time' % budget, 'key': 'hang',
                                 'info': dict(case.info), 'detail': {'traceback': traceback.format_exc()[-1500:]}})
    except Exception as e:  # noqa - the code under test (or the oracle on its output) failed
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if len(STATE.violations) == n0:
            STATE.violations.append({'property': case.prop, 'workload': case.workload, 'idx': case.idx,
                                     'case_seed': case.seed, 'tier': case.tier,
                                     'what': 'unexpected %s: %s' % (type(e).__name__, str(e)[:200]),
                                     'key': 'exception %s' % type(e).__name__, 'info': dict(case.info),
                                     'detail': {'traceback': traceback.format_exc()[-2500:]}})
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        STATE.case = None
    dt = time.process_time() - t0
    STATE.max_cpu[case.workload] = max(dt, STATE.max_cpu.get(case.workload, 0))
    if case.nontrivial:
        h = hashlib.md5(repr((case.workload, sorted(case.info.items()))).encode()).hexdigest()[:12]
        if h not in STATE.marks:
            STATE.marks.add(h)
            s = STATE.samples.setdefault(case.workload, [])
            if len(s) < 2:
                s.append({'workload': case.workload, 'case_seed': case.seed, **case.info})
    return len(STATE.violations) == n0
