"""Bounded exhaustive explorer used by every check.

Three shapes of exploration, all of them complete enumerations of a stated
finite space, all of them executing the real svgpy code:

* ``Run.cases(name, cases, fn)``      - every element of a finite input space
  (product of alphabets, all programs up to a size) is executed; ``fn`` runs
  the implementation and compares with a reference model.
* ``Run.histories(name, machine)``    - every operation sequence up to a depth.
  With ``merge`` = None no two histories are merged (all paths are executed);
  with ``merge`` = d histories longer than d are merged when model state and
  complete public observation agree (breadth first search).
* a case may itself be a history (used for small fixed scripts).

Each violation is identified by (space, case) and written as a replay file.
"""
import copy
import hashlib
import itertools
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
from collections import Counter
from concurrent.futures import ProcessPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SVGPY_REPO', '/repo')
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')


class Mismatch(Exception):
    """The implementation disagrees with the reference model."""

    def __init__(self, what, expected=None, actual=None):
        super().__init__(what)
        self.what = what
        self.expected = expected
        self.actual = actual


def expect(cond, what, expected=None, actual=None):
    if not cond:
        raise Mismatch(what, expected, actual)


def expect_eq(actual, expected, what):
    if actual != expected:
        raise Mismatch(what, expected, actual)


def close(a, b, tol=1e-6):
    if a is None or b is None:
        return a is b
    a = float(a)
    b = float(b)
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def all_close(a, b, tol=1e-6):
    a = list(a)
    b = list(b)
    return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))


def expect_close(actual, expected, what, tol=1e-6):
    if isinstance(expected, (list, tuple)):
        ok = all_close(actual, expected, tol)
    else:
        ok = close(actual, expected, tol)
    if not ok:
        raise Mismatch(what, expected, actual)


def outcome(fn, *args, **kwargs):
    """('ok', value) or ('exc', class name)."""
    try:
        return 'ok', fn(*args, **kwargs)
    except Mismatch:
        raise
    except RecursionError:
        raise
    except Exception as exp:
        return 'exc', type(exp).__name__


def brief(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


class Stats(object):
    __slots__ = ('states', 'transitions', 'traces', 'outcomes', 'violations',
                 'samples')

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = Counter()
        self.violations = []
        self.samples = []


MAX_VIOL = 40


def _describe(space, case, exp):
    d = {'space': space, 'case': repr(case)}
    if isinstance(exp, Mismatch):
        d['what'] = exp.what
        d['expected'] = brief(exp.expected, 2000)
        d['actual'] = brief(exp.actual, 2000)
    else:
        d['what'] = 'unexpected exception %s: %s' % (
            type(exp).__name__, brief(str(exp)))
        tb = traceback.format_exception(type(exp), exp, exp.__traceback__)
        d['traceback'] = ''.join(tb)[-3000:]
    return d


CASE_TIMEOUT = 20.0


class Hang(Mismatch):
    pass


def _on_alarm(signum, frame):
    raise Hang('no result within %gs (hang)' % CASE_TIMEOUT)


class watchdog(object):
    """Turns a hang of the code under test into a reported mismatch."""

    def __enter__(self):
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


class _Ctx(object):
    """Handed to case functions to count transitions and distinct outcomes."""

    def __init__(self):
        self.n = 0
        self.out = Counter()

    def step(self, n=1):
        self.n += n

    def outcome(self, label):
        self.out[label] += 1


def _run_case_chunk(args):
    space, items = args
    fn = _JOB['fn']
    st = Stats()
    for case in items:
        ctx = _Ctx()
        st.states += 1
        try:
            with watchdog():
                fn(case, ctx)
        except Exception as exp:
            if len(st.violations) < MAX_VIOL:
                st.violations.append(_describe(space, case, exp))
            if isinstance(exp, Hang):
                break
        st.traces += 1
        st.transitions += max(1, ctx.n)
        if len(st.outcomes) < 5000:
            st.outcomes.update(ctx.out)
    return st


_JOB = {}


class Machine(object):
    """Reference model + driver for one stateful object under exploration.

    Subclasses define:
      configs()              -> list of initial configurations
      fresh(config)          -> (sut, model)
      menu(model)            -> finite list of operations (tuples)
      apply(sut, op)         -> observable result of the real operation
      model_apply(model, op) -> expected observable result; mutates model
      observe(sut)           -> full public observation
      model_observe(model)   -> expected observation
      key(model, obs)        -> hashable identity for merging
    """
    name = 'machine'
    depth = 3
    unmerged = None   # depth up to which histories are never merged
    # True: observe after every operation while replaying (an observation may
    # itself create hidden state, so both modes are worth exploring)
    observe_each_step = False
    # depth of the second pass in that mode (0: the module does it itself)
    observed_depth = 2

    def configs(self):
        return [None]

    def fresh(self, config):
        raise NotImplementedError

    def menu(self, model):
        raise NotImplementedError

    def apply(self, sut, op):
        raise NotImplementedError

    def model_apply(self, model, op):
        raise NotImplementedError

    def observe(self, sut):
        raise NotImplementedError

    def model_observe(self, model):
        raise NotImplementedError

    def same(self, a, b):
        return a == b

    def key(self, model, obs):
        return repr((self.model_observe(model), obs))

    def check_result(self, got, want, op):
        if not self.same(got, want):
            raise Mismatch('result of %r' % (op,), want, got)

    # -- driver
    def replay(self, config, hist):
        sut, model = self.fresh(config)
        if self.observe_each_step:
            self._compare(sut, model, None)
        for op in hist:
            want = self.model_apply(model, op)
            got = self.apply(sut, op)
            self.check_result(got, want, op)
            if self.observe_each_step:
                self._compare(sut, model, op)
        return sut, model

    def _compare(self, sut, model, op):
        obs = self.observe(sut)
        want = self.model_observe(model)
        if not self.same(obs, want):
            if isinstance(obs, dict) and isinstance(want, dict):
                # only the entries that differ
                keys = [k for k in set(obs) | set(want)
                        if k not in obs or k not in want
                        or not self.same(obs[k], want[k])]
                if keys:
                    keys.sort(key=repr)
                    obs = {k: obs[k] for k in keys if k in obs}
                    want = {k: want[k] for k in keys if k in want}
            raise Mismatch('state after %r' % (op,), want, obs)
        return obs


def _machine_chunk(args):
    mi, items, depth_left_dfs = args
    m = _JOB['machines'][mi]
    st = Stats()
    nxt = []

    def visit(config, hist, left):
        # hist was already validated; extend it by every enabled operation
        _, model = _model_replay(m, config, hist)
        for op in m.menu(model):
            h = hist + (op,)
            st.transitions += 1
            st.traces += 1
            try:
                with watchdog():
                    sut, mod = m.replay(config, h)
                    obs = m._compare(sut, mod, op)
            except Exception as exp:
                if len(st.violations) < MAX_VIOL:
                    st.violations.append(_describe(m.name, (config, h), exp))
                if isinstance(exp, Hang):
                    return True
                continue
            key = hashlib.blake2b(
                repr((config, m.key(mod, obs))).encode('utf-8', 'replace'),
                digest_size=12).digest()
            nxt.append((key, config, h))
    for config, hist in items:
        if visit(config, hist, depth_left_dfs):
            break
    return st, nxt


def _model_replay(m, config, hist):
    """Model-only replay (cheap) to learn the enabled operations."""
    _, model = m.fresh(config) if not hasattr(m, 'fresh_model') \
        else (None, m.fresh_model(config))
    for op in hist:
        m.model_apply(model, op)
    return None, model


def chunks(seq, n):
    seq = list(seq)
    k = max(1, (len(seq) + n - 1) // n)
    return [seq[i:i + k] for i in range(0, len(seq), k)]


class Run(object):
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.spaces = []
        self.viol = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.assumptions = []
        self.only = None        # restrict to one space (replay)
        self.only_case = None
        self.procs = int(os.environ.get('MC_PROCS', os.cpu_count() or 1))

    # ------------------------------------------------------------------
    def cases(self, name, cases, fn, bound='', min_outcomes=None):
        """Execute every case of a finite space."""
        if self.only is not None and self.only != name:
            return
        t0 = time.time()
        cases = list(cases)
        if self.only_case is not None:
            cases = [c for c in cases if repr(c) == self.only_case]
        _JOB['fn'] = fn
        total = Stats()
        parts = chunks(cases, self.procs * 8)
        jobs = [(name, p) for p in parts]
        for st in self._map(_run_case_chunk, jobs, len(cases)):
            total.states += st.states
            total.transitions += st.transitions
            total.traces += st.traces
            total.outcomes.update(st.outcomes)
            total.violations += st.violations
        self._record(name, 'exhaustive enumeration', bound, total,
                     time.time() - t0,
                     [brief(c, 300) for c in
                      (cases[:1] + cases[len(cases) // 2:len(cases) // 2 + 1]
                       + cases[-1:])])
        if (min_outcomes is not None and self.only is None
                and not total.violations
                and len(total.outcomes) < min_outcomes):
            raise RuntimeError('vacuous space %s: outcomes %r' % (
                name, dict(total.outcomes)))

    def histories(self, m, bound=''):
        """Every operation history of a machine up to its depth."""
        if not m.observe_each_step and m.observed_depth:
            each = copy.copy(m)
            each.name = m.name + '-observed'
            each.observe_each_step = True
            each.depth = min(m.depth, m.observed_depth)
            self.histories(each, bound + '; observed after every step, '
                           'depth %d' % each.depth)
        if self.only is not None and self.only != m.name:
            return
        t0 = time.time()
        total = Stats()
        if self.only_case is not None:
            config, hist = eval(self.only_case)
            try:
                sut, mod = m.replay(config, hist)
                m._compare(sut, mod, hist[-1] if hist else None)
            except Exception as exp:
                total.violations.append(
                    _describe(m.name, (config, hist), exp))
            total.traces = total.states = total.transitions = 1
            self._record(m.name, 'replay', bound, total, time.time() - t0, [])
            return
        _JOB.setdefault('machines', [])
        _JOB['machines'].append(m)
        mi = len(_JOB['machines']) - 1
        unmerged = m.depth if m.unmerged is None else m.unmerged
        frontier = []
        seen = set()
        for config in m.configs():
            try:
                sut, mod = m.fresh(config)
                obs = m._compare(sut, mod, None)
            except Exception as exp:
                total.violations.append(_describe(m.name, (config, ()), exp))
                continue
            total.traces += 1
            seen.add(hashlib.blake2b(
                repr((config, m.key(mod, obs))).encode('utf-8', 'replace'),
                digest_size=12).digest())
            frontier.append((config, ()))
        levels = []
        example = None
        for depth in range(1, m.depth + 1):
            jobs = [(mi, p, 0) for p in chunks(frontier, self.procs * 6)]
            frontier = []
            n_tr = 0
            for st, nxt in self._map(_machine_chunk, jobs, len(jobs) * 50):
                total.transitions += st.transitions
                total.traces += st.traces
                n_tr += st.transitions
                total.violations += st.violations
                for key, config, hist in nxt:
                    new = key not in seen
                    seen.add(key)
                    if depth >= m.depth:
                        if example is None or len(hist) > len(example[1]):
                            example = (config, hist)
                        continue
                    if depth <= unmerged or new:
                        frontier.append((config, hist))
            levels.append(n_tr)
            if total.violations:
                break
            if not frontier:
                break
        total.states = len(seen)
        samples = []
        if example is not None:
            samples.append(brief(example, 400))
        self._record(m.name, 'history exploration (depth %d, unmerged to %d)'
                     % (m.depth, unmerged), bound, total, time.time() - t0,
                     samples, extra={'transitions_per_level': levels})
        if self.only is None and not total.violations and total.states < 3:
            raise RuntimeError('vacuous machine ' + m.name)

    # ------------------------------------------------------------------
    def _map(self, fn, jobs, size):
        if self.procs <= 1 or size < 16 or len(jobs) <= 1:
            for j in jobs:
                yield fn(j)
            return
        # a worker killed by the code under test raises BrokenProcessPool
        ctx = multiprocessing.get_context('fork')
        with ProcessPoolExecutor(self.procs, mp_context=ctx) as pool:
            for r in pool.map(fn, jobs):
                yield r

    def _record(self, name, kind, bound, st, wall, samples, extra=None):
        self.states += st.states
        self.transitions += st.transitions
        self.traces += st.traces
        entry = {
            'space': name, 'kind': kind, 'bound': bound,
            'states': st.states, 'transitions': st.transitions,
            'traces': st.traces, 'violations': len(st.violations),
            'wall_s': round(wall, 2),
        }
        if st.outcomes:
            entry['distinct_outcomes'] = len(st.outcomes)
            entry['outcomes'] = {
                str(k): v for k, v in st.outcomes.most_common(12)}
        if extra:
            entry.update(extra)
        self.spaces.append(entry)
        for s in samples:
            self.samples.append({'space': name, 'case': s})
        self.viol += st.violations
        print('  %-44s states=%d transitions=%d traces=%d %.1fs%s' % (
            name, st.states, st.transitions, st.traces, wall,
            '  outcomes=%d' % len(st.outcomes) if st.outcomes else ''))
        sys.stdout.flush()

    # ------------------------------------------------------------------
    def finish(self):
        known = load_known(self.pid)
        used = {}
        bad = []
        for v in self.viol:
            k = match_known(known, v)
            if k is not None:
                used.setdefault(k['id'], [k, 0])
                used[k['id']][1] += 1
            else:
                bad.append(v)
        for kid in sorted(used):
            k, n = used[kid]
            print('KNOWN-FINDING: property=%s %s (%d case(s))' % (
                self.pid, k['what'], n))
        ev = {
            'property': self.pid,
            'tier': self.tier,
            'seed': self.seed,
            'level': 'model_checking',
            'coverage': {
                'states': self.states,
                'transitions': self.transitions,
                'traces_validated_against_impl': self.traces,
                'exhaustive': True,
                'samples': self.samples[:40],
                'spaces': self.spaces,
                'explanation':
                    'Every trace is executed on the real svgpy code imported '
                    'from the working tree and compared step by step with '
                    'the reference model; the bounds per space are listed '
                    'under "spaces".',
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(bad),
        }
        evdir = os.path.join(VERIF, 'evidence')
        os.makedirs(evdir, exist_ok=True)
        if self.only is None:
            with open(os.path.join(evdir, self.pid + '.json'), 'w') as f:
                json.dump(ev, f, indent=1, default=str)
        print('property=%s tier=%s states=%d transitions=%d traces=%d '
              'violations=%d wall=%.1fs' % (
                  self.pid, self.tier, self.states, self.transitions,
                  self.traces, len(bad), time.time() - self.t0))
        if not bad:
            return 0
        rdir = os.path.join(evdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, self.pid + '.json')
        if self.only is None:
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'tier': self.tier,
                           'violations': bad[:MAX_VIOL],
                           'replay': '%s %s --replay %s' % (
                               sys.executable,
                               os.path.join(VERIF, 'mc', 'run.py'), path)},
                          f, indent=1)
        for v in bad[:6]:
            print('-- %s\n   case: %s\n   what: %s' % (
                v['space'], v['case'][:600], v['what'][:600]))
            if 'expected' in v:
                print('   expected: %s\n   actual:   %s' % (
                    v['expected'][:600], v['actual'][:600]))
            if 'traceback' in v:
                print(v['traceback'][-1200:])
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        return 1


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith('#'):
                    continue
                if line.startswith('fixed:'):
                    continue     # documentation only, suppresses nothing
                d = json.loads(line)
                if d['property'] == pid:
                    out.append(d)
    return out


def match_known(known, v):
    """A known finding is identified by the exact failing (space, case)."""
    for k in known:
        if k['space'] == v['space'] and v['case'] in k['cases']:
            return k
    return None


def product(*args):
    return list(itertools.product(*args))


def sequences(alphabet, lo, hi):
    out = []
    for n in range(lo, hi + 1):
        out += list(itertools.product(alphabet, repeat=n))
    return out
