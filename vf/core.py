"""Runner: generated-input search per property, shrinking, replay, evidence."""
import contextlib
import copy
import hashlib
import importlib
import io
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import types
import zlib

from . import env

SUT = os.path.join(os.path.realpath(env.REPO), 'structuralcodes') + os.sep
CASE_CPU_LIMIT = 150.0  # CPU seconds; ordinary cases need well under 5


class Violation(Exception):
    """The property is broken for the current case."""


class HarnessError(Exception):
    """The machinery itself is broken."""


class Reject(Exception):
    """Case outside the domain of the property (counted, not checked)."""


class CaseTimeout(Exception):
    """CPU limit for one case reached."""


class Rec:
    """Per-case recorder: labels and the non-triviality flag."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        self.labels.update(names)

    def nt(self, flag=True):
        if flag:
            self.nontrivial = True


class Sub:
    """One generated check: a strategy of JSON-able cases and an oracle."""

    def __init__(self, name, strategy, run, quick, thorough, rule, shards=1,
                 enumerate_cases=None):
        self.name = name
        self.strategy = strategy  # zero-argument callable -> strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.shards = shards
        self.enumerate_cases = enumerate_cases  # finite spaces: list of cases


# --------------------------------------------------------------- assertions
def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg if isinstance(msg, str) else msg())


def close(a, b, rtol=1e-9, atol=0.0):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return False
    if a == b:
        return True
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def req_close(a, b, what, rtol=1e-9, atol=0.0):
    """Require a (observed) to equal b (expected)."""
    if isinstance(a, complex) or not close(a, b, rtol, atol):
        raise Violation(f'{what}: got {a!r}, expected {b!r}')


def must_raise(exc, fn, what):
    """fn must raise one of exc; anything else breaks the property."""
    try:
        r = fn()
    except exc:
        return
    except (Violation, CaseTimeout):
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(
            f'{what}: raised {type(e).__name__}({e}) instead of '
            f'{getattr(exc, "__name__", exc)}'
        ) from e
    raise Violation(f'{what}: accepted, returned {r!r:.200}')


# ------------------------------------------------------------ case execution
def _alarm(signum, frame):
    raise CaseTimeout()


def _classify(e):
    """Exception out of a case -> Violation, or None if harness trouble."""
    tb = traceback.extract_tb(e.__traceback__)
    in_sut = any(os.path.realpath(f.filename).startswith(SUT) for f in tb)
    where = ''
    for f in reversed(tb):
        if os.path.realpath(f.filename).startswith(SUT):
            where = f' in {os.path.relpath(f.filename, env.REPO)}:{f.name}'
            break
    txt = f'{type(e).__name__}: {str(e)[:300]}{where}'
    if in_sut:
        return Violation(f'unexpected exception on valid input: {txt}')
    if isinstance(e, (ImportError, NameError, MemoryError, HarnessError)):
        return None
    if isinstance(e, AttributeError) and isinstance(
        getattr(e, 'obj', None), (types.ModuleType, type)
    ):
        return None
    if isinstance(e, (TypeError, ValueError, LookupError, AttributeError,
                      ArithmeticError)):
        last = tb[-1]
        return Violation(
            f'malformed result: {txt} (at {os.path.basename(last.filename)}:'
            f'{last.lineno})'
        )
    return None


def execute(sub, case):
    """Run one case. Returns (rec, None) or (rec, Violation)."""
    rec = Rec()
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            sub.run(copy.deepcopy(case), rec)
        return rec, None
    except Violation as v:
        return rec, v
    except CaseTimeout:
        return rec, Violation(
            f'no answer within {CASE_CPU_LIMIT:.0f} s of CPU time'
        )
    except Reject:
        rec.label('rejected')
        rec.nontrivial = False
        return rec, None
    except Exception as e:  # noqa: BLE001
        v = _classify(e)
        if v is None:
            raise HarnessError(
                ''.join(traceback.format_exception(e))[-4000:]
            ) from e
        return rec, v
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def case_key(case):
    return hashlib.md5(
        json.dumps(case, sort_keys=True).encode()
    ).hexdigest()[:16]


def run_task(task):
    """One shard: returns a plain dict."""
    prop, name, shard, n, seed, shrink_budget = task
    try:
        mod = load(prop)
        sub = next(s for s in mod.SUBS if s.name == name)
        return _run_shard(sub, shard, n, seed, shrink_budget)
    except HarnessError as e:
        return {'sub': name, 'error': str(e)}
    except Exception:  # noqa: BLE001
        return {'sub': name, 'error': traceback.format_exc()[-4000:]}


def _run_shard(sub, shard, n, seed, shrink_budget):
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings

    out = {'sub': sub.name, 'evaluations': 0, 'rejected': 0, 'labels': {},
           'keys': set(), 'samples': [], 'fail': None}
    state = {'deadline': None, 'last': None, 'stop': False, 'harness': None}

    def account(case, rec):
        out['evaluations'] += 1
        for lb in rec.labels:
            out['labels'][lb] = out['labels'].get(lb, 0) + 1
        if 'rejected' in rec.labels:
            out['rejected'] += 1
        if rec.nontrivial:
            k = case_key(case)
            if k not in out['keys']:
                out['keys'].add(k)
                if len(out['samples']) < 2:
                    out['samples'].append(case)

    if sub.enumerate_cases is not None:
        cases = sub.enumerate_cases()
        for case in cases[shard::sub.shards]:
            case = json.loads(json.dumps(case))
            rec, v = execute(sub, case)
            account(case, rec)
            if v is not None:
                out['fail'] = {'case': case, 'message': str(v)}
                return out
        return out

    def body(case):
        if state['stop']:
            return
        case = json.loads(json.dumps(case, allow_nan=False))
        try:
            rec, v = execute(sub, case)
        except HarnessError as e:
            state['harness'] = str(e)
            state['stop'] = True
            return
        if state['last'] is None:
            account(case, rec)
        if v is not None:
            if state['last'] is None:
                state['deadline'] = time.monotonic() + shrink_budget
            size = len(json.dumps(case))
            if state['last'] is None or size <= state['last'][2]:
                state['last'] = (case, str(v), size)
            if time.monotonic() > state['deadline']:
                state['stop'] = True
            raise v

    phases = [Phase.generate, Phase.target, Phase.shrink]
    test = given(sub.strategy())(body)
    test = settings(
        max_examples=max(n, 1), database=None, deadline=None, phases=phases,
        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
        verbosity=Verbosity.quiet, print_blob=False,
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            test()
    except Violation:
        pass
    except BaseException as e:  # noqa: BLE001
        # Flaky / exception groups after the shrink budget are expected
        if state['last'] is None:
            raise HarnessError(
                ''.join(traceback.format_exception(e))[-4000:]
            ) from e
    if state['harness']:
        raise HarnessError(state['harness'])
    if state['last'] is not None:
        case, msg, _ = state['last']
        # confirm outside the library
        rec, v = execute(sub, case)
        if v is None:
            raise HarnessError(
                f'unstable oracle in {sub.name}: {msg} not reproduced for '
                f'{json.dumps(case)[:2000]}'
            )
        out['fail'] = {'case': case, 'message': str(v)}
    return out


# -------------------------------------------------------------------- driver
def load(prop):
    return importlib.import_module(f'vf.checks.{prop}')


def known_entries(prop):
    path = os.path.join(env.HERE, 'known_findings.txt')
    res = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith('finding: '):
                    d = json.loads(line[len('finding: '):])
                    if d['property'] == prop:
                        res.append(d)
    return res


def regress_cases(prop):
    path = os.path.join(env.HERE, 'regress', f'{prop}.jsonl')
    if os.path.exists(path):
        with open(path) as f:
            return [json.loads(x) for x in f if x.strip()]
    return []


def write_replay(prop, sub, case, message):
    d = os.path.join(env.HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}-{sub}-{case_key(case)}.json')
    with open(path, 'w') as f:
        json.dump({'property': prop, 'sub': sub, 'case': case,
                   'message': message}, f, indent=1)
    return path


def trim(obj, limit=1500):
    s = json.dumps(obj)
    return obj if len(s) <= limit else s[:limit] + '...'


def main_check(prop, tier, seed, only=None, scale=1.0, jobs=None):
    t0 = time.monotonic()
    mod = load(prop)
    subs = {s.name: s for s in mod.SUBS}
    shrink_budget = 25.0 if tier == 'quick' else 90.0
    violations = []
    # 1. replay tier: regression cases and known findings
    n_reg = 0
    for r in regress_cases(prop):
        if only and r['sub'] not in only:
            continue
        n_reg += 1
        rec, v = execute(subs[r['sub']], r['case'])
        if v is not None:
            violations.append((r['sub'], r['case'], str(v)))
            break
    known = []
    if not violations:
        for k in known_entries(prop):
            rec, v = execute(subs[k['sub']], k['case'])
            if v is None:
                continue
            if k['signature'] not in str(v):
                violations.append((k['sub'], k['case'], str(v)))
                break
            known.append(k)
            print(f'KNOWN-FINDING: property={prop} {k["what"]}', flush=True)
    # 2. generated search
    tasks = []
    for s in mod.SUBS:
        if only and s.name not in only:
            continue
        total = s.quick if tier == 'quick' else s.thorough
        total = int(total * scale) or 1
        shards = s.shards if tier == 'quick' else max(s.shards, 8)
        if s.enumerate_cases is not None:
            shards = s.shards
        for k in range(shards):
            sd = zlib.crc32(f'{prop}/{s.name}/{k}/{seed}'.encode())
            tasks.append((prop, s.name, k, -(-total // shards), sd,
                          shrink_budget))
    results = []
    if not violations:
        jobs = jobs or min(8, os.cpu_count() or 1)
        if jobs == 1 or len(tasks) == 1:
            results = [run_task(t) for t in tasks]
        else:
            ctx = mp.get_context('fork')
            with ctx.Pool(min(jobs, len(tasks)), maxtasksperchild=None) as p:
                results = p.map(run_task, tasks, chunksize=1)
    errors = [r for r in results if 'error' in r]
    for r in results:
        if r.get('fail'):
            violations.append((r['sub'], r['fail']['case'],
                               r['fail']['message']))
    # 3. evidence
    per = {}
    for r in results:
        if 'error' in r:
            continue
        p = per.setdefault(r['sub'], {
            'evaluations': 0, 'rejected': 0, 'keys': set(), 'labels': {},
            'samples': [], 'rule': subs[r['sub']].rule})
        p['evaluations'] += r['evaluations']
        p['rejected'] += r['rejected']
        p['keys'] |= r['keys']
        p['samples'] += r['samples']
        for k, v in r['labels'].items():
            p['labels'][k] = p['labels'].get(k, 0) + v
    cov = {
        'evaluations': sum(p['evaluations'] for p in per.values()) + n_reg,
        'distinct_nontrivial': sum(len(p['keys']) for p in per.values()),
        'rule': mod.RULE,
        'samples': [
            {'sub': n, 'case': trim(c)}
            for n, p in per.items() for c in p['samples'][:2]
        ],
        'replayed_regression_cases': n_reg,
        'subchecks': {
            n: {'evaluations': p['evaluations'], 'rejected': p['rejected'],
                'distinct_nontrivial': len(p['keys']), 'rule': p['rule'],
                'labels': dict(sorted(p['labels'].items()))}
            for n, p in per.items()
        },
        'known_findings': [k['what'] for k in known],
    }
    if all(subs[n].enumerate_cases is not None for n in per) and per:
        cov['exhaustive'] = True
    ev = {'property': prop, 'tier': tier, 'seed': seed,
          'level': 'exploration', 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.monotonic() - t0, 2),
          'violations': len(violations)}
    os.makedirs(os.path.join(env.HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(env.HERE, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for s, c, m in violations:
        path = write_replay(prop, s, c, m)
        print(f'{prop}/{s}: {m}')
        print(f'VIOLATION property={prop} replay={path}', flush=True)
    if violations:
        return 1
    if errors:
        for e in errors:
            print(f'HARNESS ERROR in {prop}/{e["sub"]}:\n{e["error"]}',
                  file=sys.stderr)
        return 3
    print(f'{prop} {tier} seed={seed}: {cov["evaluations"]} cases, '
          f'{cov["distinct_nontrivial"]} distinct non-trivial, '
          f'{ev["wall_s"]} s')
    return 0


def main_replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = load(d['property'])
    sub = next(s for s in mod.SUBS if s.name == d['sub'])
    rec, v = execute(sub, d['case'])
    if v is None:
        print(f'replay {path}: property holds for this case')
        return 0
    print(f'{d["property"]}/{d["sub"]}: {v}')
    print(f'VIOLATION property={d["property"]} replay={path}')
    return 1


def selftest():
    """Imports every check module; nothing is built or installed."""
    import glob

    n = 0
    for f in sorted(glob.glob(os.path.join(env.HERE, 'vf', 'checks',
                                           '[A-Z]*.py'))):
        load(os.path.basename(f)[:-3])
        n += 1
    print(f'{n} check modules import')
    return 0
