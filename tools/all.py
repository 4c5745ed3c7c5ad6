"""runs every task in parallel on VF_REPO (default /repo): development aid"""
import os, sys, time, multiprocessing as mp
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'vf'))
import vtask, specs, check
specs.load_all()


def main():
    pre = sys.argv[1:] or ['']
    ts = [t for t in vtask.TASKS.values() if any(t.name.startswith(p) for p in pre)]
    ts.sort(key=lambda t: -t.weight)
    with mp.Pool(8, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(check.worker, [(t.name, 'quick', 800) for t in ts]):
            bad = [o for o in r['obls'] if o['status'] != 'proved']
            frag = sorted({'%s:%s' % (o['label'][:40], o['backend']) for o in r['obls'] if o['status'] == 'proved' and o['backend'] in ('cvc5', 'z3(alt)')})
            dead = [l for l, ok in r['covers'] if not ok]
            print('%-24s %-11s %6d obl %6.1f s %s%s%s%s' % (r['task'], r['status'], len(r['obls']), r['time'],
                  'FAIL %s ' % bad[0]['label'] if bad else '', 'FRAGILE %s ' % frag[:3] if frag else '', 'VACUOUS %s ' % dead if dead or not r['covers'] else '',
                  (r['error'] or '')[-200:] if r['status'] != 'ok' else ''), flush=True)


main()
