"""regenerate vf/verified.json: project function -> tasks that verify its body (runs every task once)"""
import json, multiprocessing as mp, os, sys
V = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vf')
sys.path.insert(0, V)
import vtask, specs, check


def main():
    specs.load_all()
    ts = sorted(vtask.TASKS.values(), key=lambda t: -t.weight)
    by = {}
    with mp.Pool(6, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(check.worker, [(t.name, 'quick', 800) for t in ts]):
            if r['task'] == 'log.formats':
                continue
            for f in r['functions']:
                by.setdefault(f, []).append(r['task'])
    json.dump({f: sorted(by[f]) for f in sorted(by)}, open(os.path.join(V, 'verified.json'), 'w'), indent=0)


main()
