"""Replays contracts on the real code under CPython with sampled floats.

usage: run_num.py PROP SEED NSAMPLES [contract names...]; prints one JSON document.
"""
import json
import os
import random
import sys
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(prop, seed, nsamples, names=None):
    repo = os.environ.get('PVC_REPO', '/repo')
    sys.path.insert(0, repo)
    sys.path[:] = [p for p in sys.path if p != os.path.join(HERE, "pvc")]
    sys.path.insert(1, HERE)
    sys.dont_write_bytecode = True
    import numpy as np
    from pvc.harness import NumH, Skip, hash_name
    from pvc.specs import load
    out = {}
    np.seterr(all='ignore')
    for con in load(prop):
        if names and con.name not in names:
            continue
        if not con.numeric:
            continue
        labels = {}
        tried = used = 0
        target = max(1, int(con.samples * nsamples))
        errors = []
        while used < target and tried < 25 * target:
            rng = random.Random(hash_name(con.name) * 7919 + seed * 104729 + tried)
            tried += 1
            h = NumH(con, rng)
            try:            # what was asked before, of inputs close by, must not matter
                once(con, NumH(con, random.Random(hash_name(con.name) * 7919 + seed * 104729 + tried - 1), random.Random(tried), 1e-4))
            except Exception:
                pass
            try:
                once(con, h)
                if h.orders:
                    others = []
                    for k in (2, 4, 8):
                        o = NumH(con, random.Random(hash_name(con.name) * 7919 + seed * 104729 + tried - 1))
                        o.shrink = 1 / k
                        once(con, o)
                        others.append(o)
                    h.judge_orders(others)
                bad = [i for i, r in enumerate(h.results) if not r[1]]
                if any(i in h.compared for i in bad):
                    others = []
                    for k in range(4):
                        o = NumH(con, random.Random(hash_name(con.name) * 7919 + seed * 104729 + tried - 1), random.Random(k))
                        try:
                            once(con, o)
                        except Exception:
                            break
                        others.append(o)
                    else:
                        h.judge_rounding(others)
            except Skip:
                continue
            except Exception as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                errors.append('%s: %s at %s:%s with %s' % (type(e).__name__, e, tb.filename, tb.lineno, brief(h.inputs)))
                if len(errors) > 5:
                    break
                continue
            used += 1
            for lab, ok, text in h.results:
                r = labels.setdefault(lab, dict(n=0, bad=0, first=None))
                r['n'] += 1
                if not ok:
                    r['bad'] += 1
                    if r['first'] is None:
                        r['first'] = dict(inputs=brief(h.inputs), text=text, try_=tried - 1)
        out[con.name] = dict(labels=labels, used=used, tried=tried, errors=errors)
    return out


def once(con, h):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        h._warn = w
        try:
            con.fn(h)
        finally:
            h.cleanup()


def brief(inputs):
    r = {}
    for k, v in inputs.items():
        r[k] = repr(v) if not hasattr(v, 'tolist') else (v.tolist() if not hasattr(v, 'size') or v.size < 50 else 'array(%d)' % v.size)
    return r


if __name__ == '__main__':
    prop, seed, n = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
    res = run(prop, seed, n, set(sys.argv[4:]) or None)
    print('\n@@JSON@@' + json.dumps(res))
