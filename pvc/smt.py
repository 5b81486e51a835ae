"""SMT back end: z3 (and cvc5 for a second opinion) over the normal forms of `norm`.

Every irrational quantity becomes a real variable constrained by true facts only: roots by their
defining equation, exponentials of a monomial as powers of one positive unit with monotonicity
bounds, cos/sin of a monomial on the unit circle, logarithms by sign relations.  Proofs found over
these constraints are therefore valid for the functions themselves.
"""
from fractions import Fraction
from math import gcd
import time
import z3
from . import term as tm
from .norm import Ctx, Ex, TooBig, CannotNormalise, eadd, escale, to_exp, exp_poly, econst

stats = {'calls': 0, 'time': 0.0}


class NoTranslation(Exception):
    pass


def lcm(a, b):
    return a * b // gcd(a, b)


class Enc:
    """Encoding of normal-form polynomials of one context into z3 reals."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.vars = {}
        self.axioms = []
        self.den = {}      # atom id / exponent monomial -> common denominator
        self.done = set()
        self.units = {}

    def copy(self):
        e = Enc(self.ctx)
        e.vars, e.axioms, e.den, e.done = dict(self.vars), list(self.axioms), self.den, self.done
        e.units = {k: list(v) for k, v in self.units.items()}
        return e

    # --- first pass: denominators
    def scan(self, p):
        for m in p:
            for a, e in m:
                parts = exp_poly(e).items() if type(e) is Ex else [((), e)]
                for mm, c in parts:
                    k = (a, mm)
                    self.den[k] = lcm(self.den.get(k, 1), Fraction(c).denominator)
                    if mm:
                        self.scan({mm: 1})
                at = self.ctx.atoms[a]
                if at.kind == 'B' and ('b', a) not in self.done:
                    self.done.add(('b', a))
                    self.scan(dict(at.data))
                if at.kind == 'fn' and ('f', a) not in self.done:
                    self.done.add(('f', a))
                    self.scan(dict(at.data[1]))

    def var(self, key, name):
        v = self.vars.get(key)
        if v is None:
            v = z3.Real('v%d_%s' % (len(self.vars), name))
            self.vars[key] = v
            return v, True
        return v, False

    def const(self, c):
        c = Fraction(c)
        return z3.RealVal('%d/%d' % (c.numerator, c.denominator))

    def poly(self, p):
        """(re, im) of a polynomial."""
        re, im = [], []
        for m, c in p.items():
            r, i = self.mono(m)
            c = self.const(c)
            if r is not None:
                re.append(c * r)
            if i is not None:
                im.append(c * i)
        zero = z3.RealVal(0)
        return (z3.Sum(re) if len(re) > 1 else re[0] if re else zero,
                z3.Sum(im) if len(im) > 1 else im[0] if im else None)

    def real(self, p):
        r, i = self.poly(p)
        if i is not None:
            i = z3.simplify(i, som=True)
            if not z3.is_rational_value(i) or i.as_fraction() != 0:
                raise NoTranslation('complex')
        return r

    @staticmethod
    def cmul(a, b):
        def add(x, y):
            return y if x is None else x if y is None else x + y

        def mul(x, y):
            return None if x is None or y is None else x * y
        rr, ii = mul(a[0], b[0]), mul(a[1], b[1])
        re = rr if ii is None else (-ii if rr is None else rr - ii)
        return re, add(mul(a[0], b[1]), mul(a[1], b[0]))

    def mono(self, m):
        acc = (z3.RealVal(1), None)
        for a, e in m:
            acc = self.cmul(acc, self.factor(a, e))
        return acc

    def ipow(self, v, n):
        r = v
        for _ in range(n - 1):
            r = r * v
        return r

    def unitpow(self, u, n):
        if n > 0:
            return self.ipow(u, n)
        inv, new = self.var(('inv', u.get_id()), 'inv')
        if new:
            self.axioms.append(inv * u == 1)
            self.keep(u)
        return self.ipow(inv, -n)

    def keep(self, x):
        self.vars[('keep', x.get_id())] = x

    def factor(self, a, e):
        at = self.ctx.atoms[a]
        if at.kind == 'I':
            return (None, z3.RealVal(1))
        if type(e) is not Ex:
            return self.simple(a, at, Fraction(e))
        acc = (z3.RealVal(1), None)
        for mm, c in e.items:
            if mm == ():
                acc = self.cmul(acc, self.simple(a, at, Fraction(c)))
            else:
                acc = self.cmul(acc, self.unit(a, at, mm, Fraction(c)))
        return acc

    def base(self, a, at):
        v, new = self.var(('atom', a), at.kind)
        if new:
            if at.kind == 'E':
                self.axioms += [v > self.const(Fraction(2718, 1000)), v < self.const(Fraction(2719, 1000))]
            elif at.kind == 'prime':
                self.axioms.append(v == at.data)
            elif at.kind == 'T':
                t = at.data
                if t is tm.PI:
                    self.axioms += [v > self.const(Fraction(314159265, 10**8)),
                                    v < self.const(Fraction(314159266, 10**8))]
                elif t is tm.EULER:
                    self.axioms += [v > self.const(Fraction(5772, 10**4)), v < self.const(Fraction(5773, 10**4))]
                elif t.k == 'fn' and t.a[0] == 'zeta':
                    self.axioms += [v > 1, v < 2]
            elif at.kind == 'B':
                self.axioms.append(v == self.real(dict(at.data)))
            elif at.kind == 'fn':
                self.fnax(at, v)
        return v

    def fnax(self, at, v):
        name = at.data[0]
        try:
            u = self.real(dict(at.data[1]))
        except NoTranslation:
            return
        ax = self.axioms
        if name == 'log':
            ax += [z3.Implies(u > 1, v > 0), z3.Implies(z3.And(u > 0, u < 1), v < 0),
                   z3.Implies(u == 1, v == 0), z3.Implies(u > 0, v <= u - 1),
                   z3.Implies(u > 0, v * u >= u - 1)]
        elif name == 'abs':
            ax += [v == z3.If(u >= 0, u, -u)]
        elif name == 'sign':
            ax += [v == z3.If(u > 0, z3.RealVal(1), z3.If(u < 0, z3.RealVal(-1), z3.RealVal(0)))]
        elif name == 'arctan':
            pv = self.base(self.ctx.nf_atom(tm.PI).id, self.ctx.nf_atom(tm.PI))
            ax += [z3.Implies(u > 0, z3.And(v > 0, v < u)), z3.Implies(u < 0, z3.And(v < 0, v > u)),
                   z3.Implies(u == 0, v == 0), 2 * v < pv, 2 * v > -pv]
        elif name == 'arccos':
            pv = self.base(self.ctx.nf_atom(tm.PI).id, self.ctx.nf_atom(tm.PI))
            ax += [v >= 0, v <= pv, z3.Implies(u > -1, v < pv), z3.Implies(u < 1, v > 0),
                   z3.Implies(u > 0, v < self.const(Fraction(15707964, 10**7)))]
        elif name == 'arcsin':
            pv = self.base(self.ctx.nf_atom(tm.PI).id, self.ctx.nf_atom(tm.PI))
            ax += [2 * v <= pv, 2 * v >= -pv, z3.Implies(u < 1, 2 * v < pv), z3.Implies(u > -1, 2 * v > -pv),
                   z3.Implies(u > 0, v >= u), z3.Implies(u < 0, v <= u)]
        elif name == 'arcsinh':
            ax += [z3.Implies(u > 0, z3.And(v > 0, v <= u)), z3.Implies(u < 0, z3.And(v < 0, v >= u)),
                   z3.Implies(u == 0, v == 0)]
        elif name == 'arccosh':
            ax += [v >= 0, z3.Implies(u > 1, v > 0)]
        elif name == 'arctanh':
            ax += [z3.Implies(u > 0, v >= u), z3.Implies(u < 0, v <= u)]
        elif name == 'lambertw':
            ax += [v <= -1]

    def simple(self, a, at, q):
        d = self.den.get((a, ()), 1)
        if q.denominator == 1 and d == 1 or at.kind == 'prime' and q.denominator == 1:
            return (self.unitpow(self.base(a, at), int(q)), None)
        r, new = self.var(('root', a, d), 'root')
        if new:
            b = self.base(a, at)
            if d == 1:
                self.axioms.append(r == b)
            else:
                if d % 2 == 0 or self.ctx.asign(a) == '+':
                    self.axioms.append(r >= 0)
                    self.axioms.append(b >= 0)
                self.axioms.append(self.ipow(r, d) == b)
        return (self.unitpow(r, int(q * d)), None)

    def unit(self, a, at, mm, c):
        """(atom a) ** (c * mm), as a power of one unit per (a, mm)."""
        ctx = self.ctx
        d = self.den.get((a, mm), c.denominator)
        n = int(c * d)
        imag = any(x == ctx.Iatom.id for x, _ in mm)
        if imag:
            if at.kind != 'E':
                raise NoTranslation('complex power')
            cv, new = self.var(('cos', mm, d), 'cos')
            sv, _ = self.var(('sin', mm, d), 'sin')
            if new:
                self.axioms.append(cv * cv + sv * sv == 1)
                arg = {tuple((x, y) for x, y in mm if x != ctx.Iatom.id): Fraction(1, d)}
                try:
                    ar = self.real(arg)
                    self.axioms += [cv >= 1 - ar * ar / 2,
                                    z3.Implies(ar > 0, z3.And(sv < ar, sv > ar - ar * ar * ar / 6)),
                                    z3.Implies(ar < 0, z3.And(sv > ar, sv < ar - ar * ar * ar / 6))]
                    self.axioms.append(z3.Implies(z3.And(ar > 0, ar < self.const(Fraction(314159265, 10**8))), sv > 0))
                    pv = self.base(ctx.nf_atom(tm.PI).id, ctx.nf_atom(tm.PI))
                    self.axioms.append(z3.Implies(z3.And(ar > 0, ar < pv), sv > 0))
                    self.axioms.append(z3.Implies(z3.And(ar > 0, 2 * ar < pv), cv > 0))
                except NoTranslation:
                    pass
            acc = (cv, sv if n > 0 else -sv)
            out = acc
            for _ in range(abs(n) - 1):
                out = self.cmul(out, acc)
            return out
        u, new = self.var(('unit', a, mm, d), 'u')
        if new:
            arg = {mm: Fraction(1, d)}
            ar = None
            try:
                ar = self.real(arg)
            except NoTranslation:
                pass
            if at.kind == 'E':
                self.axioms.append(u > 0)
                if ar is not None:
                    self.axioms += [u >= 1 + ar, z3.Implies(ar > 0, u > 1 + ar), z3.Implies(ar < 0, u < 1),
                                    z3.Implies(ar == 0, u == 1)]
            else:
                b = self.base(a, at)
                self.axioms.append(z3.Implies(b > 0, u > 0))
                if ar is not None:
                    for (ob, ou) in self.units.setdefault((mm, d), []):
                        both = z3.And(b > 0, ob > 0)
                        self.axioms += [z3.Implies(z3.And(both, ar > 0), z3.And(z3.Implies(b < ob, u < ou),
                                                                                z3.Implies(b > ob, u > ou))),
                                        z3.Implies(z3.And(both, ar < 0), z3.And(z3.Implies(b < ob, u > ou),
                                                                                z3.Implies(b > ob, u < ou)))]
                    self.units[(mm, d)].append((b, u))
                    self.axioms += [z3.Implies(z3.And(b > 1, ar > 0), u > 1),
                                    z3.Implies(z3.And(b > 1, ar < 0), u < 1),
                                    z3.Implies(z3.And(b > 0, b < 1, ar > 0), u < 1),
                                    z3.Implies(z3.And(b > 0, b < 1, ar < 0), u > 1),
                                    z3.Implies(b == 1, u == 1),
                                    z3.Implies(z3.And(b > 0, ar == 0), u == 1),
                                    z3.Implies(z3.And(b > 1, ar > 1), u > b),
                                    z3.Implies(z3.And(b > 0, b < 1, ar > 1), u < b)]
        return (self.unitpow(u, n), None)


def _nf_atom(self, t):
    return self.atom('T', t)


Ctx.nf_atom = _nf_atom


def log_linear(ctx, p):
    """A polynomial of the sign of p, for p = (positive monomial) * (rational combination of logarithms): the product
    of the arguments, minus one.  None when p is not of that shape."""
    if not p or len(p) > 6 or not any(ctx.atoms[a].kind == 'fn' and ctx.atoms[a].data[0] == 'log' and e == 1
                                      for m in p for a, e in m):
        return None
    if len(p) == 1:
        return None
    common = None
    for m in p:
        d = dict(m)
        common = d if common is None else {a: e for a, e in common.items() if d.get(a) == e}
    if any(ctx.asign(a) != '+' for a in common):
        return None
    num, den = {(): 1}, {(): 1}
    for m, c in p.items():
        rest = [(a, e) for a, e in m if a not in common]
        if not rest:
            f = ctx.exp_of({(): abs(c)})
        elif len(rest) == 1 and rest[0][1] == 1 and ctx.atoms[rest[0][0]].kind == 'fn' and \
                ctx.atoms[rest[0][0]].data[0] == 'log':
            f = ctx.pow(dict(ctx.atoms[rest[0][0]].data[1]), to_exp({(): abs(c)}))
        else:
            return None
        if c > 0:
            num = ctx.pmul(num, f)
        else:
            den = ctx.pmul(den, f)
    return ctx.padd(num, den, -1)


def bool_z3(enc, ctx, t, dry):
    k = t.k
    if k == 'true':
        return z3.BoolVal(True)
    if k == 'false':
        return z3.BoolVal(False)
    if k == 'cmp':
        if any(x in (tm.NAN, tm.INF) for x in t.a[1:]):
            return z3.BoolVal(False) if tm.NAN in t.a[1:] else z3.Bool('b%d' % t.id)
        p = ctx.padd(ctx.nf(t.a[1]), ctx.nf(t.a[2]), -1)
        try:
            p2 = log_linear(ctx, p)
        except (TooBig, CannotNormalise):
            p2 = None
        if dry:
            enc.scan(p)
            if p2 is not None:
                enc.scan(p2)
            return None
        x = enc.real(p)
        if p2 is not None:
            y = enc.real(p2)
            enc.axioms += [(x < 0) == (y < 0), (x == 0) == (y == 0)]
        return {'<': x < 0, '<=': x <= 0, '==': x == 0}[t.a[0]]
    if k in ('and', 'or'):
        xs = [bool_z3(enc, ctx, x, dry) for x in t.a]
        return None if dry else (z3.And(*xs) if k == 'and' else z3.Or(*xs))
    if k == 'not':
        x = bool_z3(enc, ctx, t.a[0], dry)
        return None if dry else z3.Not(x)
    if k == 'ufb':
        c = ctx.canon_bool(t)
        return z3.Bool('b%d' % c.id)
    raise NoTranslation(k)


def _canon_bool(self, t):
    lst = self.byKey.setdefault(('ufb', t.a[0]), [])
    for o in lst:
        if o is t or self.same_bool(o, t):
            return o
    lst.append(t)
    return t


Ctx.canon_bool = _canon_bool


_encoded = {}      # facts -> (Ctx, Enc, their z3 formulae)


def encoded(facts, goal):
    """Context, encoder and z3 formulae of the facts, shared by the goals asked about the same facts."""
    key = tuple(f.id for f in facts)
    hit = _encoded.get(key)
    if hit is None:
        ctx = Ctx(facts)
        enc = Enc(ctx)
        usable = []
        for f in facts:
            try:
                bool_z3(enc, ctx, f, True)
                usable.append(f)
            except (NoTranslation, TooBig, CannotNormalise):
                pass
        hit = [ctx, enc, usable, None, None]
        if len(_encoded) > 24:
            _encoded.pop(next(iter(_encoded)))
        _encoded[key] = hit
    ctx, enc, usable, den, fs = hit
    # the denominators must be known before anything is encoded
    bool_z3(enc, ctx, goal, True)
    if fs is None or den != enc.den:
        fresh = Enc(ctx)
        fresh.den, fresh.done = enc.den, enc.done
        fs = []
        for f in usable:
            try:
                fs.append(bool_z3(fresh, ctx, f, False))
            except NoTranslation:
                pass
        hit[1], hit[3], hit[4] = fresh, dict(enc.den), fs
        enc = fresh
    return ctx, enc.copy(), fs


def solver(budget):
    """A solver that gives up after an amount of work (the same however loaded the machine is), about
    `budget` ms of it; the time limit is only there for the work that z3 does not count."""
    s = z3.Solver()
    s.set('rlimit', 5000 * budget)
    s.set('timeout', 4 * budget)
    return s


def check(facts, goal, timeout=2000):
    """Is `facts => goal` valid?  Returns 'proved', 'refuted' (the encoding has a model) or 'unknown'."""
    t0 = time.time()
    stats['calls'] += 1
    try:
        ctx, enc, fs = encoded(facts, goal)
        g = bool_z3(enc, ctx, goal, False)
        fs = list(fs)
        for a in ctx.atoms:
            if a.kind == 'T' and ('atom', a.id) in enc.vars:
                v = enc.vars[('atom', a.id)]
                if ctx.asign(a.id) == '+':
                    fs.append(v > 0)
                if type(a.data) is tm.T and a.data.k == 'uf' and a.data.a[0] in ('#size', '#count'):
                    fs.append(v >= 0)
        s = solver(timeout)
        s.add(*enc.axioms)
        s.add(*fs)
        s.add(z3.Not(g))
        r = s.check()
        if r == z3.unsat:
            return 'proved'
        return 'refuted' if r == z3.sat else 'unknown'
    except (NoTranslation, TooBig, CannotNormalise, z3.Z3Exception):
        return 'unknown'
    finally:
        stats['time'] += time.time() - t0


def prover_for(facts, timeout=400):
    """Sign prover used by the normaliser."""
    def prove(ctx, p):
        t0 = time.time()
        stats['calls'] += 1
        try:
            enc = Enc(ctx)
            sub = Ctx.__new__(Ctx)
            sub.__dict__.update(ctx.__dict__)
            sub.prover = None
            enc.ctx = sub
            usable = []
            for f in facts:
                try:
                    bool_z3(enc, sub, f, True)
                    usable.append(f)
                except (NoTranslation, TooBig, CannotNormalise):
                    pass
            enc.scan(p)
            x = enc.real(p)
            fs = []
            for f in usable:
                try:
                    fs.append(bool_z3(enc, sub, f, False))
                except NoTranslation:
                    pass
            for sgn, c in (('+', x <= 0), ('-', x >= 0)):
                s = solver(timeout)
                s.add(*enc.axioms)
                s.add(*fs)
                s.add(c)
                if s.check() == z3.unsat:
                    return sgn
            return None
        except (NoTranslation, TooBig, CannotNormalise, z3.Z3Exception):
            return None
        finally:
            stats['time'] += time.time() - t0
    return prove
