"""Verification tasks: one task = one or more real functions run against their contract."""
import os, sys, time, traceback
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cfront
from engine import *
from cexec import Exec
import z3

TASKS = {}


class Task:
    def __init__(self, name, props, units, fn, weight=1, thorough=False, budget=600):
        self.name, self.props, self.units, self.fn = name, tuple(props), units, fn
        self.weight, self.thorough, self.budget = weight, thorough, budget


def task(name, props, units, weight=1, thorough=False, budget=600):
    def d(fn):
        TASKS[name] = Task(name, props, units, fn, weight, thorough, budget)
        return fn
    return d


class Ctx:
    """handed to a task function"""

    def __init__(self, t, tier):
        self.t = t
        self.tier = tier
        self.engines = []
        self.missing = []

    def unit(self, path):
        return cfront.load(os.path.join(cfront.REPO, path))

    def eng(self, units=None, contracts=None, loops=None, config=None, timeout_ms=None):
        us = [self.unit(p) for p in (units or self.t.units)]
        e = Exec(us, contracts, loops, timeout_ms or (20000 if self.tier == 'thorough' else 10000),
                 None, config)
        e.deadline = self.deadline
        e.failed_once = self.__dict__.setdefault('failed_once', set())
        e.cur = self.t.name
        e.curprops = ()
        if self.tier == 'thorough':
            e.second = 200
        self.engines.append(e)
        return e

    def run(self, eng, fname, st, args):
        """execute the body of fname -> [(state, return value)]"""
        for u in eng.units:
            if fname in u.funcs:
                eng.inlined.add(fname)
                out = []
                for oc, s in eng.run_body(st, u, fname, args):
                    out.append((s, oc[1] if oc is not None else None))
                return out
        raise Unsupported('function %s not found' % fname)


def run_task(name, tier='quick', budget=None):
    """-> plain dict with the results"""
    t = TASKS[name]
    ctx = Ctx(t, tier)
    t0 = time.time()
    b = budget or t.budget
    ctx.deadline = t0 + b
    status, err = 'ok', ''
    try:
        t.fn(ctx)
    except (Unsupported, FrontError) as e:
        status, err = 'unsupported', str(e)
    except Budget as e:
        status, err = 'budget', str(e)
    except z3.Z3Exception as e:
        import os
        if os.environ.get('VF_DEBUG'):
            traceback.print_exc()
        status, err = 'unsupported', 'solver exception: %s' % e
    except RecursionError as e:
        status, err = 'unsupported', 'recursion limit'
    except Exception:
        status, err = 'internal', traceback.format_exc()[-9000:]
    obls = []
    res = {'task': name, 'props': list(t.props), 'status': status, 'error': err, 'time': 0.0, 'solver_time': 0.0,
           'queries': 0, 'obls': obls, 'functions': set(), 'contracts': set(), 'externals': set(), 'covers': [],
           'second_checked': 0, 'second_agreed': 0, 'loops': set(), 'paths': 0}
    for e in ctx.engines:
        for o in e.obls:
            obls.append({'func': o.func, 'label': o.label, 'kind': o.kind, 'line': o.line, 'status': o.status,
                         'backend': o.backend, 'time': o.time, 'detail': o.detail, 'props': list(o.props)})
        res['solver_time'] += e.solver_time
        res['queries'] += e.nqueries
        res['functions'] |= e.inlined
        res['contracts'] |= e.used_contracts
        res['externals'] |= e.externals
        res['covers'] += e.covers
        res['second_checked'] += e.second_checked
        res['second_agreed'] += e.second_agreed
        res['loops'] |= e.loops_used
        res['paths'] += e.npaths
    for k in ('functions', 'contracts', 'externals'):
        res[k] = sorted(res[k])
    res['loops'] = sorted('%s#%s' % x for x in res['loops'])
    ok = {l for l, r in res['covers'] if r}
    res['covers'] = [(l, l in ok) for l in sorted({l for l, r in res['covers']})]
    res['time'] = time.time() - t0
    return res


def show(r, verbose=False):
    bad = [o for o in r['obls'] if o['status'] != 'proved']
    print('%-28s %-11s obls=%d failed=%d time=%.1f solver=%.1f paths=%d %s' % (
        r['task'], r['status'], len(r['obls']), len(bad), r['time'], r['solver_time'], r['paths'], r['error']))
    for l, ok in r['covers']:
        if not ok:
            print('   VACUOUS:', l)
    for o in bad[:12 if verbose else 4]:
        print('   FAIL', o['func'], o['line'], o['label'], o['props'])
        if verbose:
            print('      ', o['detail'][:2500])


if __name__ == '__main__':
    import specs
    specs.load_all()
    args = sys.argv[1:]
    v = '-v' in args
    args = [a for a in args if a != '-v']
    for n in TASKS:
        if not args or any(n.startswith(a) or a in TASKS[n].props for a in args):
            show(run_task(n), v)
