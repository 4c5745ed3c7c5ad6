"""writes vf/locals.json: the local variables of the functions whose loops have contracts, as of now.
Used only to recognise that a variable was renamed (see engine.renamed)."""
import os, sys, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'vf'))
import cfront, engine, vtask, specs
specs.load_all()
out = {}
for p in sorted({p for t in vtask.TASKS.values() for p in t.units}):
    if not os.path.exists(os.path.join(cfront.REPO, p)):
        continue        # units of the native harnesses
    u = cfront.load(os.path.join(cfront.REPO, p))
    for f in u.funcs:
        if u.funcs[f].get('inline') or f in out:
            continue
        out[f] = engine.locals_of(u, f)
src = "".join(open(os.path.join(H, 'vf', 'specs', f)).read() for f in os.listdir(os.path.join(H, 'vf', 'specs')) if f.endswith('.py'))
with open(os.path.join(H, 'vf', 'locals.json'), 'w') as fh:
    fh.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(v)) for k, v in sorted(out.items()) if v) + '\n}\n')
print(len(out))
