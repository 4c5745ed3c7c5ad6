"""writes MANIFEST.json: every property that has tasks is claimed, the others are listed with a reason"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'vf'))
import vtask, specs
specs.load_all()
NA = {}
PARTIAL = {}
exec(open(os.path.join(H, 'tools', 'levels.py')).read())
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    ts = [t for t in vtask.TASKS.values() if i in t.props]
    if not ts or i in NA:
        na.append({'property': i, 'reason': NA.get(i, 'contracts for this part are still being written')})
        continue
    note = ('contracts on the real functions, discharged function by function by an SMT-backed verification-condition '
            'generator reading /repo on every run; no bound on inputs, iterations or histories. Assumed: models of '
            'libc/OpenSSL/libev/libConfuse calls (listed per run in the evidence).')
    if i in PARTIAL:
        note += ' ' + PARTIAL[i]
    checks.append({'property': i, 'quick_cmd': './check %s --tier quick' % i,
                   'thorough_cmd': './check %s --tier thorough' % i,
                   'technique': 'contract-based deductive verification (VCs from clang AST of the real C code, z3/cvc5)',
                   'level': 'proof', 'level_note': note})
m = {'version': 1, 'setup_cmd': 'sh tools/setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not')
