"""Generates and discharges the verification conditions of the contracts of one property."""
import json
import os
import signal
import sys
import time
import traceback
import multiprocessing as mp
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run_contract(con, deadline):
    """In a worker process: explore every path of the contract and prove its obligations."""
    from . import sym as sy, shim, loader, prove, harness, smt, term as tm
    t0 = time.time()
    repo = os.environ.get('PVC_REPO', '/repo')
    executed = {}
    mon = sys.monitoring
    mon.use_tool_id(3, 'pvc')

    def on_start(code, off):
        f = code.co_filename
        if f.startswith(repo + '/'):
            executed['%s::%s' % (f[len(repo) + 1:], code.co_qualname.replace('.<locals>', ''))] = True
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, on_start)
    mon.set_events(3, mon.events.PY_START)
    ex = sy.Explorer(decide=prove.decide)
    sy.set_explorer(ex)
    labels = {}
    problems = []
    npaths = 0
    proved_vc = set()
    back = {}
    vctime = 0.0
    maxvc = 0.0
    try:
        while True:
            ex.reset()
            ld = loader.Loader(repo)        # nothing of one path is left for the next
            shim.record = shim.Record()
            h = harness.SymH(con, ld, ex)
            h.record = shim.record
            abort = False
            try:
                con.fn(h)
            except sy.PathAbort:
                abort = True
            except sy.Unsupported as e:
                tb = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(repo)]
                where = '%s:%d' % (tb[-1].filename, tb[-1].lineno) if tb else ''
                problems.append(dict(kind='unsupported', text='%s %s' % (e, where), path=npaths))
            except Exception as e:
                fr = traceback.extract_tb(e.__traceback__)
                tb = [f for f in fr if f.filename.startswith(repo)] or fr
                where = '%s:%d (%s)' % (tb[-1].filename, tb[-1].lineno, tb[-1].name)
                engine = fr[-1].filename.startswith(HERE + '/pvc') and not fr[-1].filename.startswith(HERE + '/pvc/specs')
                problems.append(dict(kind='engine' if engine else 'exception',
                                     text='%s: %s at %s' % (type(e).__name__, e, where), path=npaths))
            h.cleanup()
            npaths += 1
            for label, goal, facts, text in h.obligations:
                rec = labels.setdefault(label, dict(paths=0, failed=[]))
                rec['paths'] += 1
                key = (tuple(f.id for f in facts), goal.id)
                if key in proved_vc or rec['failed']:
                    continue
                nfail = sum(1 for x in labels.values() if x['failed'])
                r = prove.prove(facts, goal, con.smt if nfail < 4 else min(con.smt, 500), hard=nfail < 12)
                vctime += r.dt
                maxvc = max(maxvc, r.dt)
                if r.ok:
                    proved_vc.add(key)
                    back[r.backend] = back.get(r.backend, 0) + 1
                elif len(rec['failed']) < 3:
                    rec['failed'].append(dict(path=npaths - 1, why=(text + ' ' + r.why).strip()[:1500],
                                              facts=[tm.show(f, 5)[:160] for f in facts[-8:]]))
            if npaths >= con.max_paths or time.time() > deadline:
                if ex.next_script():
                    problems.append(dict(kind='budget', text='path budget exhausted after %d paths' % npaths, path=npaths))
                break
            if not ex.next_script():
                break
    except BaseException as e:
        problems.append(dict(kind='engine', text='%s: %s' % (type(e).__name__, ''.join(traceback.format_exception(e))[-1500:]), path=npaths))
    seen = set()
    uniq = []
    for p in problems:
        k = (p['kind'], p['text'])
        if k not in seen:
            seen.add(k)
            uniq.append(p)
    return dict(name=con.name, target=con.target, labels=labels, problems=uniq[:20], paths=npaths, backends=back,
                vctime=vctime, maxvc=maxvc, wall=time.time() - t0, executed=sorted(executed),
                assumes=list(con.assumes), bounded=con.bounded)


def _worker(args):
    prop, idx, budget = args
    from .specs import load
    con = load(prop)[idx]

    def alarm(*a):
        raise TimeoutError('contract time limit')
    signal.signal(signal.SIGALRM, alarm)
    lim = min(con.timeout, budget)
    signal.alarm(int(lim) + 1)
    try:
        return run_contract(con, time.time() + lim - 2)
    except BaseException as e:
        return dict(name=con.name, target=con.target, labels={}, paths=0, backends={}, vctime=0, maxvc=0, wall=0,
                    problems=[dict(kind='engine', text='%s: %s' % (type(e).__name__, e), path=0)],
                    executed=[], assumes=[], bounded=None)
    finally:
        signal.alarm(0)


def run_all(prop, names=None, tier='quick', procs=8, budget=600):
    from .specs import load
    cons = load(prop)
    jobs = [(prop, i, budget) for i, c in enumerate(cons)
            if (not names or c.name in names) and (tier == 'thorough' or not c.thorough)]
    jobs.sort(key=lambda j: -cons[j[1]].weight)
    ctx = mp.get_context('fork')
    with ctx.Pool(procs, maxtasksperchild=1) as pool:
        res = pool.map(_worker, jobs, chunksize=1)
    return sorted(res, key=lambda r: r['name'])


def run_numeric(prop, seed, nsamples, names=None, timeout=600):
    cmd = [sys.executable, os.path.join(HERE, 'pvc', 'run_num.py'), prop, str(seed), str(nsamples)] + list(names or [])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env, cwd='/tmp')
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    if '@@JSON@@' not in p.stdout:
        return None, (p.stderr or p.stdout)[-3000:]
    return json.loads(p.stdout.split('@@JSON@@')[1]), ''
