"""Development aid: mutation testing of the checks (not part of any check).

mutate.py FILE[,FILE..] PROP[,PROP..] [-n CASES] [-j JOBS] [-s SAMPLE]

Every mutant of the files (relative to structuralcodes/) is loaded in memory
in a forked child, which runs pregenerated cases of the properties' checks;
survivors are listed.  /repo is not changed.
"""
import argparse
import ast
import importlib.abc
import importlib.util
import json
import os
import random
import signal
import subprocess
import sys
import time

ROOT = '/repo/structuralcodes/'
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def mutants(path):
    src = open(path, newline='').read()
    tree = ast.parse(src)
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(n.value)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.returns is not None:
                skip.update(ast.walk(n.returns))
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation is not None:
                    skip.update(ast.walk(a.annotation))
        if isinstance(n, ast.AnnAssign):
            skip.update(ast.walk(n.annotation))
        if isinstance(n, ast.Raise):
            skip.update(ast.walk(n))
        if isinstance(n, ast.JoinedStr):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(
                f, 'id', '')
            if nm in ('warn', 'ValueError', 'TypeError', 'print'):
                skip.update(ast.walk(n))
    out = []
    for n in ast.walk(tree):
        if n in skip:
            continue
        line = getattr(n, 'lineno', 0)
        seg = ''
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                new = [not v]
            elif isinstance(v, int):
                new = [v + 1] if abs(v) < 20 else [v + 1, int(v * 1.1)]
            elif isinstance(v, float):
                new = [v * 1.02 if v else 1e-3]
            else:
                continue
            for w in new:
                out.append((line, f'{v!r} -> {w!r}', n, 'value', w))
        elif isinstance(n, ast.Compare) and len(n.ops) >= 1:
            tab = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt],
                   ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
                   ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                   ast.In: [ast.NotIn], ast.NotIn: [ast.In],
                   ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
            for i, o in enumerate(n.ops):
                for w in tab.get(type(o), []):
                    ops = list(n.ops)
                    ops[i] = w()
                    out.append((line, f'{ast.unparse(n)[:60]}: '
                                f'{w.__name__}', n, 'ops', ops))
        elif isinstance(n, ast.BinOp):
            tab = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
                   ast.Div: ast.Mult, ast.Pow: ast.Mult}
            w = tab.get(type(n.op))
            if w:
                out.append((line, f'{ast.unparse(n)[:60]}: {w.__name__}', n,
                            'op', w()))
        elif isinstance(n, ast.BoolOp):
            w = ast.Or if isinstance(n.op, ast.And) else ast.And
            out.append((line, f'{ast.unparse(n)[:60]}: {w.__name__}', n,
                        'op', w()))
        elif isinstance(n, ast.UnaryOp) and isinstance(
                n.op, (ast.USub, ast.Not)):
            w = ast.UAdd() if isinstance(n.op, ast.USub) else None
            if w is not None:
                out.append((line, f'{ast.unparse(n)[:60]}: UAdd', n, 'op', w))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                and n.func.id in ('min', 'max'):
            w = 'max' if n.func.id == 'min' else 'min'
            out.append((line, f'{ast.unparse(n)[:60]}: {w}', n.func, 'id', w))
        elif isinstance(n, (ast.If, ast.While)):
            new = ast.Constant(value=False)
            out.append((line, f'if {ast.unparse(n.test)[:60]}: False', n,
                        'test', new))
        elif isinstance(n, ast.IfExp):
            out.append((line, f'{ast.unparse(n)[:60]}: other', n, 'test',
                        ast.copy_location(ast.Constant(value=False), n)))
        elif isinstance(n, ast.Assign) and isinstance(
                parents.get(n), (ast.FunctionDef, ast.If, ast.For)) and \
                isinstance(n.targets[0], ast.Attribute):
            out.append((line, f'drop {ast.unparse(n)[:60]}', n, 'value',
                        n.targets[0]))
    res = []
    for line, what, node, attr, new in out:
        old = getattr(node, attr)
        if attr == 'value' and isinstance(new, ast.Attribute):
            import copy
            new = copy.deepcopy(new)
            new.ctx = ast.Load()
        setattr(node, attr, new)
        try:
            t = ast.fix_missing_locations(tree)
            code = compile(t, path, 'exec')
            res.append((line, what, code))
        except Exception:  # noqa: BLE001
            pass
        setattr(node, attr, old)
    return res


class Hook(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, name, path, code):
        self.name, self.path, self.code = name, path, code

    def find_spec(self, name, path=None, target=None):
        if name != self.name:
            return None
        pk = self.path.endswith('__init__.py')
        spec = importlib.util.spec_from_file_location(
            name, self.path, loader=self,
            submodule_search_locations=[os.path.dirname(self.path)]
            if pk else None)
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(self.code, module.__dict__)


def gen(props, n):
    """Pregenerate cases in a separate process."""
    from vf import env
    env.setup()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from vf import core
    out = []
    for p in props:
        mod = core.load(p)
        for i, sub in enumerate(mod.SUBS):
            cases = []
            en = getattr(sub, 'enumerate_cases', None)
            if en:
                cases += list(en())
            if sub.strategy is not None and sub.quick:
                m = max(30, min(n, sub.quick))

                @hypothesis.seed(5)
                @settings(max_examples=m, database=None, deadline=None,
                          phases=[Phase.generate],
                          suppress_health_check=list(HealthCheck))
                @given(sub.strategy())
                def t(c):
                    cases.append(c)
                t()
            good = []
            for c in cases:
                t0 = time.time()
                rec, v = core.execute(sub, c)
                if v is None and time.time() - t0 < 5:
                    good.append(c)
            out.append((p, i, good))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('files')
    ap.add_argument('props')
    ap.add_argument('-n', type=int, default=2000)
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-s', type=int, default=0)
    ap.add_argument('-t', type=int, default=60)
    ap.add_argument('--gen')
    a = ap.parse_args()
    props = a.props.split(',')
    if a.gen:
        json.dump(gen(props, a.n), open(a.gen, 'w'))
        return
    f = f'/tmp/mutcases_{os.getpid()}.json'
    subprocess.run([sys.executable, os.path.abspath(__file__), a.files,
                    a.props, '-n', str(a.n), '--gen', f], check=True)
    cases = json.load(open(f))
    os.unlink(f)
    print('cases', [(p, i, len(c)) for p, i, c in cases], flush=True)
    from vf import env
    env.setup(code=False)
    import hypothesis  # noqa: F401
    import numpy  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.optimize  # noqa: F401
    import shapely  # noqa: F401
    assert 'structuralcodes' not in sys.modules
    work = []
    for fn in a.files.split(','):
        path = ROOT + fn
        name = 'structuralcodes.' + fn[:-3].replace('/', '.')
        if name.endswith('.__init__'):
            name = name[:-9]
        for m in mutants(path):
            work.append((fn, name, path) + m)
    if a.s and a.s < len(work):
        random.Random(1).shuffle(work)
        work = work[:a.s]
    running = {}
    res = {'killed': 0, 'import': 0}
    surv = []
    work.reverse()
    total = len(work)
    while work or running:
        while work and len(running) < a.j:
            w = work.pop()
            pid = os.fork()
            if pid == 0:
                child(w, cases, a.t)
            running[pid] = (w, time.time())
        pid, st = os.wait()
        w, t0 = running.pop(pid)
        rc = os.waitstatus_to_exitcode(st)
        if rc == 1:
            res['killed'] += 1
        elif rc in (0, 2):
            surv.append(w + (' (time)' if rc else '',))
        else:
            res[f'rc{rc}'] = res.get(f'rc{rc}', 0) + 1
    print(f'{total} mutants', res, 'survivors', len(surv))
    for w in sorted(surv, key=lambda w: (w[0], w[3])):
        print(f'  {w[0]}:{w[3]}: {w[4]}{w[6]}')


def child(w, cases, limit):
    fn, name, path, line, what, code = w
    rc = 3
    try:
        dn = os.open('/dev/null', os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        sys.meta_path.insert(0, Hook(name, path, code))
        try:
            from vf import env
            env.setup()
            importlib.import_module(name)
        except BaseException:
            os._exit(4)
        from vf import core
        t0 = time.time()
        rc = 0
        # interleave the subs
        todo = [(p, i, c) for p, i, cs in cases for c in cs]
        random.Random(3).shuffle(todo)
        for p, i, c in todo:
            rec, v = core.execute(core.load(p).SUBS[i], c)
            if v is not None:
                os._exit(1)
            if time.time() - t0 > limit:
                os._exit(2)
    except BaseException:
        os._exit(3)
    os._exit(rc)


if __name__ == '__main__':
    main()
