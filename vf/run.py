import vtask, sys
import specs
specs.load_all()
args = sys.argv[1:]
v = '-v' in args
args = [a for a in args if a != '-v']
for n in vtask.TASKS:
    if not args or any(n.startswith(a) or a in vtask.TASKS[n].props for a in args):
        vtask.show(vtask.run_task(n), v)
