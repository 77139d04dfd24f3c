"""python3 tools/mut.py FILE OLD NEW PID[,PID]: run checks against a scratch copy with one replacement (all occurrences if unique fails)"""
import sys, os, shutil, subprocess, shlex
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
f, old, new, pids = sys.argv[1:5]
d = plant.copy()
try:
    plant.edit(d + '/repo', [(f, old.replace('\\n', '\n'), new.replace('\\n', '\n'))])
    for p in pids.split(','):
        r = plant.sh('cd %s && python3 -m sa.run %s %s' % (plant.V, p, ' '.join(map(shlex.quote, sys.argv[5:]))), env=dict(os.environ, SA_REPO=d + '/repo', SA_EVIDENCE=d + '/ev'))
        ls = r.stdout.splitlines()
        v = [l.strip()[:230] for l in ls if l.strip().startswith('violated')]
        print(p, 'rc', r.returncode, [l for l in ls if l.startswith(p + ':')][-1:], *v[:4], sep='\n   ')
        if not v:
            print('\n'.join(ls[-6:]))
finally:
    shutil.rmtree(d)
