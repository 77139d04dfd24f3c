"""Plant, confirm and keep seeded bugs.  python3 tools/plant.py [make|confirm|catch] [ids...]
make: write seeded/<id>/ from tools/seeds.py; confirm: in a scratch copy of /repo bound over /repo in a private
mount namespace: demo passes clean, patch applies, build+stable tests pass, demo fails; catch: run the property's
check against the patched copy (SA_REPO)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
SEED = os.path.join(V, 'seeded')
PRE = 'import os, sys\nos.environ.setdefault("JAX_PLATFORMS", "cpu")\nsys.path.insert(0, os.getcwd())\n'
SH = '''#!/bin/bash
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy():
    d = tempfile.mkdtemp(prefix='plant_')
    sh('cp -a /repo %s/repo' % d)
    return d


def edit(root, edits):
    for f, old, new in edits:
        p = os.path.join(root, f)
        b = open(p, 'rb').read()
        crlf = b'\r\n' in b
        o, n = old.encode(), new.encode()
        if crlf:
            o, n = o.replace(b'\n', b'\r\n'), n.replace(b'\n', b'\r\n')
        assert b.count(o) == 1, (f, old, b.count(o))
        open(p, 'wb').write(b.replace(o, n))


def make(s):
    d = copy()
    try:
        edit(d + '/repo', s['edits'])
        diff = subprocess.run(['git', '-C', d + '/repo', 'diff', '--no-color'], stdout=subprocess.PIPE).stdout
        out = os.path.join(SEED, s['id'])
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'wb').write(diff)
        open(out + '/demo.py', 'w').write(PRE + s['demo'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write(SH)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']),
                  open(out + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(d)


def confirm(i):
    out = os.path.join(SEED, i)
    d = copy()
    try:
        t = tempfile.mkdtemp(dir=d)
        sh('cp %s/demo.* %s/' % (out, t))
        script = ('mount --bind %s/repo /repo && cd /repo && git checkout -q -- . && (timeout 300 bash %s/demo.sh > %s/clean.log 2>&1; echo clean=$?) '
                  '&& git apply %s/patch.diff && (timeout 300 bash %s/demo.sh > %s/bad.log 2>&1; echo bad=$?) && '
                  '(bash /opt/vp/build.sh >/dev/null 2>&1; echo build=$?) && (bash /opt/vp/test.sh %s/out.json > %s/test.log 2>&1; true)'
                  % (d, t, t, out, t, t, t, t))
        r = sh("unshare -Urm bash -c '%s'" % script)
        res = {}
        for ln in r.stdout.splitlines():
            if '=' in ln and ln.split('=')[0] in ('clean', 'bad', 'build'):
                res[ln.split('=')[0]] = int(ln.split('=')[1])
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        try:
            passed = set(json.load(open(t + '/out.json'))['passed'])
        except Exception:
            passed = set()
        miss = sorted(stable - passed)
        ok = res.get('clean') == 0 and res.get('bad', 0) != 0 and res.get('build') == 0 and not miss
        print(i, 'CONFIRMED' if ok else 'REJECTED', res, 'missing', len(miss), [m.split('::')[1] for m in miss][:6])
        if res.get('clean') != 0:
            print(open(t + '/clean.log').read()[-800:])
        if not res:
            print(r.stdout[-800:])
        return ok
    finally:
        shutil.rmtree(d)


def catch(i):
    d = copy()
    try:
        out = os.path.join(SEED, i)
        r = sh('git -C %s/repo checkout -q -- . && git -C %s/repo apply %s/patch.diff' % (d, d, out))
        assert r.returncode == 0, r.stdout
        pid = json.load(open(out + '/meta.json'))['property']
        r = sh('cd %s && python3 -m sa.run %s' % (V, pid), env=dict(os.environ, SA_REPO=d + '/repo', SA_EVIDENCE=d + '/ev'))
        hit = 'VIOLATION property=%s' % pid in r.stdout and r.returncode == 1
        v = [ln.strip() for ln in r.stdout.splitlines() if ln.strip().startswith('violated')]
        print(i, pid, 'CAUGHT' if hit else 'MISSED rc=%d' % r.returncode, len(v), (v or r.stdout.splitlines()[-2:])[0][:200])
        return hit
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    import seeds
    what = sys.argv[1]
    ids = sys.argv[2:] or [s['id'] for s in seeds.SEEDS]
    for s in seeds.SEEDS:
        if s['id'] in ids and what in ('make', 'all'):
            make(s)
    for i in ids:
        if what in ('catch', 'all'):
            catch(i)
        if what in ('confirm', 'all'):
            confirm(i)
