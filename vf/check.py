"""check <property> : decide one property on /repo's current source.

  exit 0  every obligation of the property was discharged (or: the verifier could not reach the
          changed code and the labelled bounded stand-in found nothing)
  exit 1  VIOLATION line
"""
import os, sys, time, json, traceback, hashlib, threading
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vtask, cfront
import specs


def load_known():
    """known_findings.txt: lines `finding: property=<id> key=<key> <text>` / `fixed: ...`"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(x.split('=', 1) for x in l.split()[1:3])
                out.append((d['property'], d['key'], l.split(None, 3)[3]))
    return out


def parse_unit(path):
    try:
        cfront.load(os.path.join(cfront.REPO, path))
        return None
    except Exception as e:
        return '%s: %s' % (path, e)


def functions_of_repo():
    """names of the functions defined in the C files of the project"""
    import re
    names = set()
    for d in ('lib', 'lib/pidfile', 'src/common', 'src/client', 'src/server', 'python', 'perl'):
        p = os.path.join(cfront.REPO, d)
        for f in sorted(os.listdir(p)) if os.path.isdir(p) else ():
            if f.endswith(('.c', '.h')) and (d != 'lib' or f in ('wrappers.c', 'progname.c', 'xprintf.c')):    # the rest of lib replaces missing system functions
                names.update(re.findall(r'^(?!if\b|for\b|while\b|switch\b)(\w+)\s*\(', open(os.path.join(p, f), errors='replace').read(), re.M))
    return names


def worker(a):
    name, tier, budget = a
    try:
        return vtask.run_task(name, tier, budget)
    except BaseException as e:
        return {'task': name, 'props': [], 'status': 'internal', 'error': traceback.format_exc()[-2000:], 'time': 0,
                'solver_time': 0, 'queries': 0, 'obls': [], 'functions': [], 'contracts': [], 'externals': [],
                'covers': [], 'second_checked': 0, 'second_agreed': 0, 'loops': [], 'paths': 0}


class Early(threading.Thread):
    """the native driver of the property, looking for a failing input"""
    def __init__(self, prop, tier, seed):
        super().__init__(daemon=True)
        self.a, self.result, self.ended = (prop, [], tier, seed), (None, {}), None
        self.start()

    def run(self):
        try:
            import drivers
            self.result = drivers.run(*self.a)
        except Exception:
            self.result = (None, {'error': traceback.format_exc()[-1500:]})
        self.ended = time.time()


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    specs.load_all()
    tasks = [t for t in vtask.TASKS.values() if prop in t.props and (tier == 'thorough' or not t.thorough)]
    if not tasks:
        print('no tasks for', prop)
        return 2
    units = sorted({u for t in tasks for u in t.units})
    with mp.Pool(8) as pool:
        errs = [e for e in pool.map(parse_unit, units) if e]
    budget = 400 if tier == 'quick' else 3000
    tasks.sort(key=lambda t: -t.weight)
    res = []
    # As soon as an obligation of the property fails, the native driver looks for a failing input; if it finds one the
    # property is decided and the remaining tasks are not waited for.
    done, drv, cut = {}, None, None
    known = {k[:2] for k in load_known()}
    with mp.Pool(min(8, len(tasks)), initializer=os.nice, initargs=(5,), maxtasksperchild=1) as pool:
        its = {t.name: pool.apply_async(worker, ((t.name, tier, min(budget, t.budget) if tier == 'quick' else budget),)) for t in tasks}
        limit = t0 + budget + 60
        while len(done) < len(its):
            for n, it in its.items():
                if n not in done and it.ready():
                    done[n] = it.get()
                    if drv is None and any(relevant(o, prop) and o['status'] != 'proved' for o in done[n]['obls']):
                        drv = Early(prop, tier, seed)
            if drv is not None and not drv.is_alive():
                if drv.result[0] is not None and (prop, drv.result[0].get('key')) not in known:
                    cut = 'not finished: a failing input was found'
                    break
                if tier == 'quick':
                    limit = min(limit, max(time.time(), drv.ended + 100))
            if time.time() > limit:
                break
            time.sleep(0.05)
        pool.terminate()
    for t in tasks:
        res.append(done.get(t.name) or {
            'task': t.name, 'props': list(t.props), 'status': 'stopped' if cut else 'budget', 'error': cut or 'hard time limit',
            'time': budget, 'solver_time': 0, 'queries': 0, 'obls': [], 'functions': [], 'contracts': [], 'externals': [], 'covers': [],
            'second_checked': 0, 'second_agreed': 0, 'loops': [], 'paths': 0})
    if drv is not None:
        drv.join()
    return finish(prop, tier, seed, tasks, res, errs, t0, drv)


def relevant(o, prop):
    return not o['props'] or prop in o['props']


def finish(prop, tier, seed, tasks, res, errs, t0, drv=None):
    from libc import NOTES
    obls, failed, undecided = [], [], []
    for r in res:
        mine = [o for o in r['obls'] if relevant(o, prop)]
        obls += mine
        failed += [dict(o, task=r['task']) for o in mine if o['status'] != 'proved']
        if r['status'] == 'stopped':
            pass
        elif r['status'] != 'ok':
            undecided.append('%s: %s: %s' % (r['task'], r['status'], r['error']))
        else:
            dead = [l for l, ok in r['covers'] if not ok]
            if not r['covers'] or dead:
                undecided.append('%s: vacuous (%s)' % (r['task'], ', '.join(dead) or 'no reachable outcome'))
            elif not mine:
                undecided.append('%s: no obligation generated' % r['task'])
    backends = {}
    for o in obls:
        if o['status'] == 'proved':
            backends[o['backend']] = backends.get(o['backend'], 0) + 1
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    replay = os.path.join(VERIF, 'evidence', '%s.replay.txt' % prop)
    verdict, note, cases = 0, '', None
    out_lines = []
    known_hit = []
    need_driver = bool(failed) or bool(undecided) or tier == 'thorough'
    found = None
    driver_info = {}
    if need_driver:
        if drv is None:
            drv = Early(prop, tier, seed)
            drv.join()
        found, driver_info = drv.result
    known = [k for k in load_known() if k[0] == prop]
    if found is not None:
        for _, key, text in known:
            if key == found.get('key'):
                known_hit.append(text)
                found = None
                break
    if failed or found is not None:
        fk = {k for _, k, _t in known}
        keys = {'%s/%s' % (o['func'], o['label']) for o in failed}
        unknown = [o for o in failed if ('%s/%s' % (o['func'], o['label'])).replace(' ', '_') not in fk]
        if found is not None or unknown:
            verdict = 1
        with open(replay, 'w') as f:
            f.write('property %s\n\n' % prop)
            if found is not None:
                f.write('FAILING INPUT (real code, %s):\n%s\n\nreplay command:\n  %s\n\n' % (
                    found.get('driver', ''), found['text'], found.get('cmd', '')))
            for o in failed[:20]:
                f.write('FAILED OBLIGATION  %s / %s\n%s\n\n' % (o['task'], o['label'], o['detail'] or o['func']))
            for u in undecided:
                f.write('not decided: %s\n' % u)
            if driver_info:
                f.write('\nbounded driver: %s\n' % json.dumps(driver_info, indent=1)[:4000])
    wall = time.time() - t0
    funcs = sorted({f for r in res for f in r['functions']})
    contracts = sorted({f for r in res for f in r['contracts']})
    ext = sorted({f for r in res for f in r['externals']})
    trusted = ['the vf verification-condition generator (/verif/vf) and its memory model', 'clang 18 parser/AST',
               'z3 %s' % __import__('z3').get_version_string(), 'cvc5 (fallback)']
    assumptions = []
    try:
        proved = json.load(open(os.path.join(VERIF, 'vf', 'verified.json')))
    except OSError:
        proved = {}
    by_contract = {}
    ours = functions_of_repo()
    for e in ext:
        if e in ours and proved.get(e):
            by_contract[e] = proved[e]
        else:
            assumptions.append('external %s: %s' % (e, NOTES.get(e, '')))
    for c in contracts:
        if c in ours:
            if proved.get(c):
                by_contract[c] = proved[c]
            else:
                assumptions.append('project function %s: its contract is assumed at calls (body not verified)' % c)
        else:
            assumptions.append('external function %s: contract written in the specification of the task is assumed' % c)
    import specs.assume as sa
    assumptions += sa.GENERAL + sa.PROPS.get(prop, [])
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {
              'obligations': len(obls), 'discharged': len(obls) - len(failed),
              'checker_cmd': './check %s' % prop, 'trusted_base': trusted,
              'back_ends': backends, 'functions_verified': funcs, 'contracts_used_at_calls': contracts, 'contracts_verified_by': by_contract,
              
              'tasks': [{'task': r['task'], 'status': r['status'], 'obligations': len([o for o in r['obls'] if relevant(o, prop)]),
                         'paths': r['paths'], 'solver_s': round(r['solver_time'], 2), 'wall_s': round(r['time'], 2),
                         'loop_contracts': r['loops'], 'reachable_outcomes': sum(1 for l, ok in r['covers'] if ok)}
                        for r in res],
              'solver_seconds': round(sum(r['solver_time'] for r in res), 2),
              'solver_queries': sum(r['queries'] for r in res),
              'second_solver_checked': sum(r['second_checked'] for r in res),
              'second_solver_agreed': sum(r['second_agreed'] for r in res),
              'undecided': undecided + errs,
              'bounded_stand_in': driver_info,
          },
          'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': 1 if verdict else 0}
    if undecided and not failed:
        ev['level'] = 'other'
        ev['coverage']['explanation'] = ('%d task(s) could not be decided by the verifier on the current source; the '
                                         'bounded native driver stood in for them (not a proof)' % len(undecided))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', '%s.json' % prop), 'w'), indent=1)
    print('%s: %d obligations, %d discharged (%s), %d functions, %.1f s solver, %.1f s' % (
        prop, len(obls), len(obls) - len(failed), ', '.join('%s %d' % x for x in backends.items()), len(funcs),
        ev['coverage']['solver_seconds'], wall))
    for u in undecided:
        print('UNDECIDED (bounded stand-in used):', u[-1500:])
    for t in known_hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, t))
    for o in failed[:6]:
        print('failed obligation: %s / %s (line %d)' % (o['task'], o['label'], o['line']))
    if verdict:
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if found is not None else ' no-failing-input-found'))
    return verdict


if __name__ == '__main__':
    sys.exit(main())
