"""Decides one verification condition: path facts => goal."""
import time
from fractions import Fraction
from . import term as tm
from . import norm, smt
from .sym import BND
from .term import T

ATOMS = ('sym', 'uf', 'elt')
backends = ('syntactic identity', 'exact algebra (pvc.norm)', 'z3')


def equalities(facts):
    """Orient equality facts into a substitution  atom -> term."""
    sub = {}
    for f in facts:
        if f.k != 'cmp' or f.a[0] != '==':
            continue
        a, b = tm.subst(f.a[1], sub), tm.subst(f.a[2], sub)
        if a is b:
            continue
        for x, y in ((a, b), (b, a)):
            if x.k in ATOMS and x not in (tm.PI, tm.EULER) and x not in tm.atoms_of(y, ATOMS):
                sub = {k: tm.subst(v, {x: y}) for k, v in sub.items()}
                sub[x] = y
                break
    return sub


class Result:
    def __init__(self, ok, backend='', why='', dt=0.0):
        self.ok, self.backend, self.why, self.dt = ok, backend, why, dt


def prove(facts, goal, timeout=4000, hard=True):
    t0 = time.time()
    r = _prove(list(facts), goal, timeout, hard)
    r.dt = time.time() - t0
    return r


def choice(terms):
    """The condition of an elementwise choice that does not lie below a binder."""
    seen = set()
    for t in terms:
        for a in tm.atoms_of(t, ('uf',), seen, []):
            if a.a[0] == '#ite' and BND not in tm.atoms_of(a, ('sym',)):
                c = a.a[2]
                if not any(x.a[0] == '#ite' for x in tm.atoms_of(c, ('uf',))):
                    return c
    return None


def cases(facts, goal):
    """The two proofs that replace one about an elementwise choice, or None."""
    c = choice([goal]) or choice(facts)
    if c is None:
        return None
    out = []
    for value, fact in ((tm.TRUE, c), (tm.FALSE, tm.bnot(c))):
        sub = {c: value, tm.bnot(c): tm.bnot(value)}
        out.append(([tm.subst(f, sub) for f in facts] + [fact], tm.subst(goal, sub)))
    return out


def _prove(facts, goal, timeout, hard):
    if goal is tm.TRUE:
        return Result(True, backends[0])
    if goal in facts:
        return Result(True, backends[0])
    if goal.k == 'and':
        last = None
        for g in goal.a:
            last = _prove(facts, g, timeout, hard)
            if not last.ok:
                return last
        return last
    split = cases(facts, goal)
    if split:
        for f, g in split:
            if any(x is tm.FALSE for x in f):
                continue
            last = _prove(f, g, timeout, hard)
            if not last.ok:
                return last
        return Result(True, backends[1])
    sub = equalities(facts)
    if sub:
        g2 = tm.subst(goal, sub)
        f2 = [tm.subst(f, sub) for f in facts]
        f2 = [f for f in f2 if f is not tm.TRUE]
        if g2 is tm.TRUE or g2 in f2:
            return Result(True, backends[0])
        if any(f is tm.FALSE for f in f2):
            return Result(True, backends[0])
    else:
        g2, f2 = goal, facts
    why = ''
    if g2.k == 'cmp' and g2.a[0] == '==':
        a, b = g2.a[1], g2.a[2]
        if (a is tm.NAN) != (b is tm.NAN):
            return Result(False, '', 'one side is NaN: %s == %s' % (tm.show(a, 6), tm.show(b, 6)))
        try:
            ctx = norm.Ctx(f2, smt.prover_for(f2) if hard else None)
            p = ctx.nf(tm.sub(a, b))
            if ctx.is_zero(p):
                return Result(True, backends[1])
            q, _ = ctx.clear(p)
            if q:
                prim = ctx.primitive(q)[-1]
                for f in f2:
                    if f.k == 'cmp' and f.a[0] == '==':
                        pf = ctx.nf(tm.sub(f.a[1], f.a[2]))
                        if not ctx.is_zero(pf):
                            qf, _ = ctx.clear(pf)
                            if not qf:
                                continue
                            _, mono, pp = ctx.primitive(qf)
                            if pp == prim and all(ctx.asign(i) in ('+', '-') for i, _ in mono):
                                return Result(True, backends[1])
            why = 'normal form of the difference is not zero: %s' % tm.show(tm.sub(a, b), 7)[:600]
        except (norm.TooBig, norm.CannotNormalise, RecursionError) as e:
            why = '%s' % type(e).__name__
    r = smt.check(f2, g2, timeout)
    if r == 'proved':
        return Result(True, backends[2])
    if hard and g2.k == 'cmp' and g2.a[0] in ('<', '<='):
        try:
            ctx = norm.Ctx(f2, smt.prover_for(f2))
            p = ctx.nf(tm.sub(g2.a[2], g2.a[1]))
            if ctx.sign(p) == '+':
                return Result(True, backends[1])
        except (norm.TooBig, norm.CannotNormalise, RecursionError):
            pass
    return Result(False, '', ('z3: %s. ' % r) + (why or 'goal: %s' % tm.show(g2, 7)[:600]))


_cache = {}


def decide(facts, cond, timeout=300):
    """Is the branch forced?  True / False / None."""
    key = (tuple(f.id for f in facts), cond.id)
    if key in _cache:
        return _cache[key]
    split = cases(list(facts), cond)
    if split:
        rs = {decide(f, g, timeout) for f, g in split if not any(x is tm.FALSE for x in f)}
        r = _cache[key] = rs.pop() if len(rs) == 1 else None
        return r
    sub = equalities(facts)
    f2, c2 = facts, cond
    if sub:
        f2 = [tm.subst(f, sub) for f in facts]
        c2 = tm.subst(cond, sub)
        f2 = [f for f in f2 if f is not tm.TRUE]
    r = None
    if c2 is tm.TRUE or c2 in f2:
        r = True
    elif c2 is tm.FALSE or tm.bnot(c2) in f2:
        r = False
    elif smt.check(f2, c2, timeout) == 'proved':
        r = True
    elif smt.check(f2, tm.bnot(c2), timeout) == 'proved':
        r = False
    _cache[key] = r
    return r
