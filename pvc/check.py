"""check.py PROP [--tier quick|thorough] [--only NAME ...] [-v]"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[0] = HERE
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def known_findings(prop):
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' -- ')
                out[key.strip()] = text.strip()
    return out


TRUSTED = [
    "pvc verification-condition generator and exact normaliser (/verif/pvc), z3",
    "CPython executes the rewritten AST (decimal literals exact, / and ** exact) as it executes the source",
    "machine floating point treated as exact real arithmetic; formulas are taken where their denominators, roots and "
    "logarithms are defined",
    "contracts of numpy elementwise functions and reductions, scipy.interpolate/optimize/integrate/special/constants, "
    "pyoscode, cobaya and warnings in /verif/pvc/shim.py (library bodies not verified)",
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', nargs='*')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-num', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.prop
    t0 = time.time()
    from pvc import engine
    from concurrent.futures import ThreadPoolExecutor
    nsamp = 1 if tier == 'quick' else 8
    num = None
    pool = ThreadPoolExecutor(1)
    fut = None
    if not a.no_num:
        fut = pool.submit(engine.run_numeric, prop, seed, nsamp, a.only, 300 if tier == 'quick' else 3000)
    res = engine.run_all(prop, a.only, tier, procs=8 if a.no_num else 7, budget=420 if tier == 'quick' else 3000)
    num, numerr = fut.result() if fut else ({}, '')
    failures = []       # (key, confirmed, detail)
    ob = disch = bounded_ob = 0
    backends = {}
    funcs = set()
    assumes = []
    covered = 0
    for r in res:
        n = (num or {}).get(r['name'], {})
        nl = n.get('labels', {})
        r['num'] = n
        for k, v in r['backends'].items():
            backends[k] = backends.get(k, 0) + v
        funcs.update(r['executed'])
        for s in r['assumes']:
            if s not in assumes:
                assumes.append(s)
        for lab, rec in r['labels'].items():
            key = '%s:%s' % (r['name'], lab)
            if r['bounded']:
                bounded_ob += 1
            else:
                ob += 1
            x = nl.get(lab)
            if x and x['n'] > x['bad']:
                covered += 1
            if rec['failed']:
                failures.append((key, x['first'] if x and x['bad'] else None, rec['failed'][0]))
            elif x and x['bad']:
                failures.append((key, x['first'], dict(why='proved under the numpy/scipy contracts, but fails when replayed '
                                                           'under CPython', facts=[])))
            elif not r['bounded']:
                disch += 1
        for lab, x in nl.items():
            if lab not in r['labels'] and x['bad']:
                failures.append(('%s:%s' % (r['name'], lab), x['first'], dict(why='fails when replayed under CPython', facts=[])))
        for i, p in enumerate(r['problems']):
            key = '%s:#%s%s' % (r['name'], p['kind'], '' if i == 0 else '')
            ob += 1
            conf = None
            if n.get('errors'):
                conf = dict(inputs=n['errors'][0], text=n['errors'][0])
            failures.append((key, conf, dict(why=p['text'], facts=[])))
        if not r['labels'] and not r['problems']:
            ob += 1
            failures.append(('%s:#vacuous' % r['name'], None, dict(why='no obligation generated', facts=[])))
        if not r['problems'] and n.get('errors'):
            ob += 1
            failures.append(('%s:#exception' % r['name'], dict(inputs=n['errors'][0], text=n['errors'][0]),
                             dict(why='the replay under CPython raises', facts=[])))
    if num is None:
        ob += 1
        failures.append(('replay:#crash', dict(inputs='import of the real code', text=numerr[-500:]),
                         dict(why='the real code does not run under CPython: ' + numerr[-800:], facts=[])))
    # thorough search for a concrete input behind each failed obligation
    known = known_findings(prop)
    unk = [f for f in failures if match_known(f[0], known) is None]
    todo = sorted({f[0].split(':')[0] for f in unk if f[1] is None} - {'replay'})
    if todo and num is not None and not a.no_num:
        more, _ = engine.run_numeric(prop, seed + 1, 20 if tier == 'quick' else 60, todo, 120)
        if more:
            new = []
            for key, conf, det in failures:
                name, lab = key.split(':', 1)
                if conf is None and name in more:
                    x = more[name]['labels'].get(lab)
                    if x and x['bad']:
                        conf = x['first']
                    elif lab.startswith('#') and more[name]['errors']:
                        conf = dict(inputs=more[name]['errors'][0], text=more[name]['errors'][0])
                    elif lab.startswith('#'):
                        bad = [(l, y['first']) for l, y in more[name]['labels'].items() if y['bad']]
                        if bad:
                            conf = dict(bad[0][1], label=bad[0][0])
                new.append((key, conf, det))
            failures = new
    viol, printed = [], set()
    for key, conf, det in failures:
        k = match_known(key, known)
        if k is not None:
            if k not in printed:
                printed.add(k)
                print('KNOWN-FINDING: property=%s %s -- %s' % (prop, k, known[k]))
            if not key.split(':', 1)[1].startswith('#'):
                ob -= 1
            continue
        viol.append((key, conf, det))
    rc = 0
    if viol:
        rc = 1
        d = os.path.join(HERE, 'replay')
        os.makedirs(d, exist_ok=True)
        viol.sort(key=lambda v: v[1] is None)
        path = os.path.join(d, '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump(dict(property=prop, repo_head=head(), tier=tier, seed=seed,
                           how='each entry is a failed obligation contract:label; with "input" it was replayed on the real '
                               'code under CPython: /verif/check.sh %s --only <contract> -v' % prop,
                           violations=[dict(obligation=k, input=c, verifier=d_) for k, c, d_ in viol]), f, indent=1, default=str)
        for k, c, d_ in viol[:12]:
            print('  failed obligation %s: %s' % (k, (d_['why'] or '')[:300]))
            if c:
                print('    replayed: %s  %s' % (str(c.get('text'))[:200], str(c.get('inputs'))[:300]))
        if len(viol) > 12:
            print('  ... and %d more' % (len(viol) - 12))
        conf = any(v[1] is not None for v in viol)
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if conf else ' no-failing-input-found'))
    ev = dict(property=prop, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=ob, discharged=disch,
                            checker_cmd='/verif/check.sh %s --tier %s' % (prop, tier),
                            trusted_base=TRUSTED,
                            contracts=len(res), paths=sum(r['paths'] for r in res),
                            verification_conditions=sum(backends.values()), backends=backends,
                            solver_seconds=round(sum(r['vctime'] for r in res), 2),
                            slowest_vc_seconds=round(max([r['maxvc'] for r in res] or [0]), 2),
                            functions_under_contract=sorted(f for f in funcs if not f.endswith('<module>')),
                            bounded_obligations=bounded_ob,
                            obligations_witnessed_concretely=covered,
                            replay_runs_under_cpython=sum(x.get('used', 0) for x in (num or {}).values()),
                            known_findings=sorted(printed)),
              assumptions=assumes, wall_s=round(time.time() - t0, 2), violations=len(viol))
    if a.only is None:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', '%s.json' % prop), 'w') as f:
            json.dump(ev, f, indent=1)
    if a.v:
        for r in res:
            bad = [l for l, x in r['labels'].items() if x['failed']]
            uncov = [l for l in r['labels'] if not r['num'].get('labels', {}).get(l)]
            print('%-60s paths %-4d labels %-3d failed %s  %.1fs num=%s/%s%s%s' % (
                r['name'], r['paths'], len(r['labels']), bad, r['wall'], r['num'].get('used'), r['num'].get('tried'),
                ' unwitnessed=%s' % uncov if uncov else '', ' problems=%s' % [p['kind'] for p in r['problems']] if r['problems'] else ''))
    print('%s: %d obligations, %d discharged, %d bounded, %d witnessed, %d violation(s), %.1fs' % (
        prop, ob, disch, bounded_ob, covered, len(viol), time.time() - t0))
    sys.exit(rc)


def match_known(key, known):
    if key in known:
        return key
    for k in known:
        if k.endswith('*') and key.startswith(k[:-1]):
            return k
    return None


def head():
    try:
        return subprocess.run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
    except OSError:
        return ''


if __name__ == '__main__':
    main()
