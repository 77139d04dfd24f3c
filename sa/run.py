"""Driver: decide the obligations of one property on /repo's current sources.

python3 -m sa.run P01 [--tier quick|thorough] [--list] [--only NAME] [-v]
"""
import argparse
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SA_REPO', '/repo')
EVID = os.environ.get('SA_EVIDENCE', os.path.join(VERIF, 'evidence'))
sys.setrecursionlimit(20000)

from . import interp as I            # noqa: E402
from . import models, speclib, core  # noqa: E402
from .catalog import CATALOG          # noqa: E402


def new_interp():
    it = I.Interp([REPO, os.path.join(REPO, 'experiments'), os.path.join(HERE, 'specs')], os.path.join(HERE, 'stubs'))
    it.obls = []
    it.scenarios = []
    it.label_prefix = ''
    return it


def run_scenario(it, f, forced, name):
    it.ctx = I.Ctx(forced)
    core.DENSE[0] = False
    it.obls = []
    it.steps = 0
    it.visited = set()
    it.notes = []
    status = 'done'
    detail = ''
    del it.stack[:]
    try:
        it.call(f, [], {})
    except I.AbsRaise as e:
        status = 'raise'
        detail = '%s' % e
        if speclib.guarded_trace(it):
            speclib.record(it, 'completes', 'undecided',
                           'raises %s on a trace with undetermined branches %s'
                           % (detail, speclib.guarded_trace(it)[:3]))
        else:
            tr = getattr(e.exc, 'trail', None) or getattr(e, 'trail', None) or []
            speclib.record(it, 'completes', 'violated', 'raises %s; path %s'
                           % (detail, ' -> '.join(tr[-8:])), str(e.where))
    except core.Undecided as e:
        speclib.record(it, 'completes', 'undecided', '%s at %s'
                       % (e, (getattr(e, 'trail', None) or ['?'])[-1]))
    except I.AnalysisBroken as e:
        speclib.record(it, 'completes', 'broken', str(e))
    except core.Refine as e:
        speclib.record(it, 'completes', 'undecided', 'unresolved refinement %s' % e)
    except core.ShapeError as e:
        speclib.record(it, 'completes', 'undecided', 'shape: %s' % e)
    except RecursionError:
        speclib.record(it, 'completes', 'undecided', 'recursion depth')
    except MemoryError:
        speclib.record(it, 'completes', 'undecided', 'memory')
    except Exception as e:                      # imprecision of the analyser itself
        tb = traceback.extract_tb(e.__traceback__)[-1]
        speclib.record(it, 'completes', 'undecided', 'analyser: %r at %s:%d; %s'
                       % (e, os.path.basename(tb.filename), tb.lineno, it.trail()[-1:] if it.stack else ''))
    else:
        if not any(o.status == 'violated' for o in it.obls):
            speclib.record(it, 'completes', 'proved')
    return dict(obls=[(o.label, o.status, o.detail, o.site) for o in it.obls],
                trace=[(k, v) for k, v in it.ctx.trace], generic=list(it.ctx.generic),
                visited=sorted(it.visited, key=str), notes=list(it.notes), steps=it.steps)


class Pool:
    def __init__(self, n, limit):
        self.n, self.limit = n, limit
        self.live = {}

    def spawn(self, job, fn):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                data = pickle.dumps(fn())
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            except BaseException:
                code = 3
            sys.stdout.flush()
            os._exit(code)
        os.close(w)
        self.live[r] = (pid, job, time.time(), [])

    def wait(self):
        """yield (job, result-or-None, why)"""
        out = []
        rs, _, _ = select.select(list(self.live), [], [], 0.5)
        now = time.time()
        for r in rs:
            pid, job, t0, buf = self.live[r]
            b = os.read(r, 1 << 20)
            if b:
                buf.append(b)
                continue
            os.close(r)
            del self.live[r]
            _, st = os.waitpid(pid, 0)
            try:
                out.append((job, pickle.loads(b''.join(buf)), '', now - t0))
            except Exception:
                out.append((job, None, 'analysis process ended with status %s' % st, now - t0))
        for r in list(self.live):
            pid, job, t0, buf = self.live[r]
            if now - t0 > self.limit:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del self.live[r]
                out.append((job, None, 'time limit %ds' % self.limit, now - t0))
        return out


def load_known():
    known, path = {}, os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if not line.startswith('KNOWN-FINDING:'):
                continue
            # KNOWN-FINDING: property=P03 key=<key> :: text
            head, _, text = line[len('KNOWN-FINDING:'):].partition('::')
            kv = dict(x.split('=', 1) for x in head.split() if '=' in x)
            known[(kv['property'], kv['key'])] = text.strip()
    return known


def analyse(pid, tier, only=None, verbose=False):
    cat = CATALOG[pid]
    t0 = time.time()
    it = new_interp()
    viol, broken = [], []
    pure = []
    for fn in cat.get('lints', ()):
        mod, name = fn.split(':')
        m = __import__('sa.' + mod, fromlist=['x'])
        try:
            pure.append((name, getattr(m, name)(REPO, tier)))
        except I.AnalysisBroken as e:
            broken.append('%s: %s' % (name, e))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            broken.append('%s: analyser: %r %s:%d' % (name, e, os.path.basename(tb.filename), tb.lineno))
    results = []
    for spec in cat.get('specs', ()):
        try:
            it.import_module(spec)
        except I.AbsRaise as e:
            tr = getattr(e.exc, 'trail', None) or []
            results.append((spec, [], dict(obls=[('import', 'violated', 'importing the library raises %s; path %s'
                                                 % (e, ' -> '.join(tr[-6:])), str(e.where))],
                                          trace=[], generic=[], visited=[], notes=[], steps=0), ''))
        except (core.Undecided, I.AnalysisBroken) as e:
            broken.append('import of %s: %s at %s' % (spec, e, (getattr(e, 'trail', None) or ['?'])[-1]))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            broken.append('import of %s: analyser %r at %s:%d' % (spec, e, os.path.basename(tb.filename), tb.lineno))
    scen = [s for s in it.scenarios if s[0] == pid and (tier == 'thorough' or s[2] == 'quick')
            and (only is None or only in s[1])]
    pool = Pool(int(os.environ.get('SA_JOBS', '8')), 150 if tier == 'quick' else 420)
    jobs = [(i, []) for i in range(len(scen))]
    ntr = {}
    times = {}
    deadline = t0 + (600 if tier == 'quick' else 3 * 3600)
    while jobs or pool.live:
        if jobs and time.time() > deadline:
            for i, forced in jobs:
                results.append((scen[i][1], forced, dict(obls=[('completes', 'undecided', 'time budget', '')],
                                trace=[], generic=[], visited=[], notes=[], steps=0), ''))
            jobs = []
            continue
        while jobs and len(pool.live) < pool.n:
            i, forced = jobs.pop(0)
            ntr[i] = ntr.get(i, 0) + 1
            pool.spawn((i, forced), lambda: run_scenario(it, scen[i][3], forced, scen[i][1]))
        for (i, forced), res, why, dt in pool.wait():
            times[scen[i][1]] = round(times.get(scen[i][1], 0) + dt, 2)
            if res is None:
                res = dict(obls=[('completes', 'undecided', why, '')], trace=[], generic=[],
                           visited=[], notes=[], steps=0)
            results.append((scen[i][1], forced, res, why))
            tr = res['trace']
            for k in range(len(forced), len(tr)):
                if ntr[i] + len([1 for j, _ in jobs if j == i]) < scen[i][4][tier == 'thorough']:
                    jobs.append((i, [v for _, v in tr[:k]] + [not tr[k][1]]))
    # ---------------------------------------------------------------- aggregate
    obl = {}
    visited = set()
    generic = set()
    for name, forced, res, why in results:
        visited.update(tuple(v) if isinstance(v, (list, tuple)) else v for v in res['visited'])
        generic.update(res['generic'])
        for label, st, detail, site in res['obls']:
            obl.setdefault((name, label), []).append((st, detail, site, forced))
    for name, rs in pure:
        for label, st, detail, site in rs['obls']:
            obl.setdefault((name, label), []).append((st, detail, site, []))
        for v in rs.get('visited', ()):
            visited.add(v)
    summary = {'proved': 0, 'violated': 0, 'undecided': 0, 'broken': 0}
    rows = []
    for (name, label), rs in sorted(obl.items()):
        sts = [r[0] for r in rs]
        st = ('violated' if 'violated' in sts else 'broken' if 'broken' in sts else
              'undecided' if 'undecided' in sts else 'proved')
        summary[st] += 1
        d = next(r for r in rs if r[0] == st)
        rows.append((name, label, st, d[1], d[2], len(rs)))
        if st == 'violated':
            viol.append((name, label, d[1], d[2]))
        if st == 'broken':
            broken.append('%s/%s: %s' % (name, label, d[1]))
    return dict(pid=pid, tier=tier, rows=rows, summary=summary, viol=viol, broken=broken,
                visited=visited, generic=generic, wall=time.time() - t0, scen=scen,
                times=times, ntraces=sum(ntr.values()), cat=cat)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-vv', action='store_true')
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    r = analyse(a.pid, tier, a.only, a.v)
    known = load_known()
    pid = a.pid
    new, old = [], []
    for name, label, detail, site in r['viol']:
        key = '%s/%s' % (name, label)
        key = key.replace(' ', '_')
        (old if (pid, key) in known else new).append((key, detail, site))
    for name, label, st, detail, site, n in r['rows']:
        if st == 'undecided' or (a.v and st != 'proved') or a.vv:
            print('  [%s] %s / %s %s %s' % (st, name, label, detail[:900 if a.v else 200],
                                            ('@ ' + site) if site else ''))
    if a.v:
        print('  times', sorted(r['times'].items(), key=lambda z: -z[1])[:12])
    s = r['summary']
    print('%s: %d obligations decided (%d hold, %d fail), %d undecided, %d scenarios, %d traces, '
          '%d functions analysed, %.1fs' % (pid, s['proved'] + s['violated'], s['proved'], s['violated'],
                                            s['undecided'], len(r['scen']), r['ntraces'],
                                            len(r['visited']), r['wall']))
    for key, detail, site in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, key, known[(pid, key)]))
    minimum = r['cat'].get('min', 1)
    if a.only is None:
        write_evidence(r, new, old)
    if new:
        path = os.path.join(EVID, '%s.violation.json' % pid)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'rule': r['cat'].get('rule', ''),
                       'violations': [{'construct': k, 'site': t, 'detail': d} for k, d, t in new]}, f,
                      indent=1)
        for key, detail, site in new[:20]:
            print('  violated: %s %s: %s' % (key, ('at ' + site) if site else '', detail[:260]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if r['broken']:
        for b in r['broken']:
            print('ANALYSIS-BROKEN: %s' % b)
        return 2
    if a.only is None and s['proved'] + s['violated'] < minimum:
        print('ANALYSIS-BROKEN: only %d obligations decided, expected at least %d'
              % (s['proved'] + s['violated'], minimum))
        return 2
    return 0


def write_evidence(r, new, old):
    os.makedirs(EVID, exist_ok=True)
    s = r['summary']
    rows = r['rows']
    files = sorted({v[0] if isinstance(v, tuple) else str(v) for v in r['visited']})
    funcs = sorted('%s:%s' % v if isinstance(v, tuple) and len(v) == 2 else str(v) for v in r['visited'])
    funcs = [f for f in funcs if not f.startswith('sa_')]
    ev = {
        'property': r['pid'], 'tier': r['tier'], 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': r['cat'].get('rule', '') + ' Each obligation is decided on abstract values '
            'computed from the syntax tree of the current sources; sizes, array contents and group '
            'data are symbolic.',
            'obligations': sum(s.values()), 'discharged': s['proved'], 'failing': s['violated'],
            'undecided': s['undecided'], 'scenarios': len(r['scen']), 'traces': r['ntraces'],
            'functions_analysed': funcs, 'files_analysed': files,
            'generic_size_assumptions': len(r['generic']),
            'undecided_list': ['%s / %s: %s' % (n, l, d[:200]) for n, l, st, d, _, _ in rows
                               if st == 'undecided'][:60],
            'samples': ['%s / %s: %s' % (n, l, st) for n, l, st, *_ in rows][:400],
            'known_findings_seen': [k for k, _, _ in old],
        },
        'assumptions': r['cat'].get('assumptions', []) + [
            'library models (numpy, jax, plum, framework bases) of sa/models.py and sa/stubs are faithful',
            'distinct symbolic sizes take generic values; coincidences are covered by scenarios reusing a size'],
        'wall_s': round(r['wall'], 2), 'violations': len(new),
    }
    with open(os.path.join(EVID, r['pid'] + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
