"""Exact normal forms: generalised Laurent polynomials over atoms, with relations.

A term is rewritten to  sum_j c_j * prod_i atom_i**e_ij  with rational c_j and exponents e_ij that
are rationals or themselves such sums (x**p, exp(-2*N), ...).  Compound bases are atoms of kind B
with a defining polynomial; a zero test clears their negative powers and expands the positive ones.
cos/sin/tan/sinh/cosh/tanh go through exp; inverse functions and Lambert W are reduced with their
defining relations.  Powers are only split over factors whose sign is known from the context.
"""
from fractions import Fraction
from math import gcd, isqrt
from . import term as tm
from .term import T

MAXTERMS = 60000


class TooBig(Exception):
    pass


class CannotNormalise(Exception):
    pass


def _q(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Ex:
    """Symbolic exponent: a canonical polynomial that is not a rational constant."""
    __slots__ = ('items', 'h')

    def __init__(self, items):
        self.items = items
        self.h = hash(items)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return type(o) is Ex and self.h == o.h and self.items == o.items

    def poly(self):
        return dict(self.items)


def mono_key(m):
    return tuple((i, ekey(e)) for i, e in m)


def ekey(e):
    if type(e) is Ex:
        return (1, tuple((mono_key(m), Fraction(c)) for m, c in e.items))
    return (0, Fraction(e))


def to_exp(p):
    """Polynomial dict to exponent."""
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return _q(p[()])
    return Ex(tuple(sorted(((m, _q(c)) for m, c in p.items()), key=lambda x: mono_key(x[0]))))


def exp_poly(e):
    if type(e) is Ex:
        return dict(e.items)
    return {(): e} if e != 0 else {}


def eadd(a, b):
    if type(a) is not Ex and type(b) is not Ex:
        return _q(a + b)
    p = exp_poly(a)
    for m, c in exp_poly(b).items():
        s = p.get(m, 0) + c
        if s == 0:
            p.pop(m, None)
        else:
            p[m] = s
    return to_exp(p)


def escale(a, q):
    if q == 0:
        return 0
    if type(a) is not Ex:
        return _q(Fraction(a) * q)
    return to_exp({m: _q(Fraction(c) * q) for m, c in a.items})


def econst(e):
    if type(e) is Ex:
        for m, c in e.items:
            if m == ():
                return Fraction(c)
        return Fraction(0)
    return Fraction(e)


def esym(e):
    """Exponent without its constant part."""
    if type(e) is not Ex:
        return 0
    return to_exp({m: c for m, c in e.items if m != ()})


def elead_sign(e):
    """Sign of an exponent in a fixed translation-invariant total order."""
    if type(e) is not Ex:
        return (e > 0) - (e < 0)
    m, c = max(((m, c) for m, c in e.items), key=lambda x: mono_key(x[0]))
    return 1 if c > 0 else -1


class Atom:
    __slots__ = ('kind', 'data', 'id', 'pos', 'extra')

    def __init__(self, kind, data, id):
        self.kind = kind
        self.data = data
        self.id = id
        self.pos = None
        self.extra = None

    def __repr__(self):
        return '%s:%s' % (self.kind, self.data if not isinstance(self.data, T) else tm.show(self.data))


INVFNS = ('arccos', 'arcsin', 'arctan', 'arcsinh', 'arccosh', 'arctanh', 'lambertw')


class Ctx:
    """Normalisation context: facts give the signs of atoms."""

    def __init__(self, facts=(), prover=None):
        self.facts = list(facts)
        self.atoms = []
        self.byKey = {}
        self.memo = {}
        self.prover = prover      # callable(ctx, poly) -> '+', '-' or None   (SMT)
        self.signmemo = {}
        self.posT = set()
        self.negT = set()
        self.nonneg = set()
        self._busy = 0
        nonpos = set()
        for f in self.facts:
            self._scan(f)
            if f.k == 'cmp' and f.a[0] == '<=' and f.a[2].k == 'num' and f.a[2].a[0] <= 0:
                nonpos.add(f.a[1])
        for f in self.facts:
            if f.k == 'not' and f.a[0].k == 'cmp' and f.a[0].a[0] == '==':
                for x, y in ((f.a[0].a[1], f.a[0].a[2]), (f.a[0].a[2], f.a[0].a[1])):
                    if y is tm.ZERO and x in self.nonneg:
                        self.posT.add(x)
                    elif y is tm.ZERO and x in nonpos:
                        self.negT.add(x)
        self.E = self.atom('E', 'E')
        self.Iatom = self.atom('I', 'I')
        self.divisors = []

    def _scan(self, f):
        if f.k == 'cmp' and f.a[0] in ('<', '<='):
            lo, hi = f.a[1], f.a[2]
            if lo.k == 'num' and (lo.a[0] > 0 or lo.a[0] == 0 and f.a[0] == '<'):
                self.posT.add(hi)
            if lo.k == 'num' and lo.a[0] >= 0:
                self.nonneg.add(hi)
            if hi.k == 'num' and (hi.a[0] < 0 or hi.a[0] == 0 and f.a[0] == '<'):
                self.negT.add(lo)
        elif f.k == 'and':
            for g in f.a:
                self._scan(g)

    # ------------------------------------------------------------ atoms
    def atom(self, kind, data):
        key = (kind, data.id if type(data) is T else data)
        a = self.byKey.get(key)
        if a is None:
            a = Atom(kind, data, len(self.atoms))
            self.atoms.append(a)
            self.byKey[key] = a
        return a

    def asign(self, i):
        """Quick sign of an atom: '+', '-' or None."""
        a = self.atoms[i]
        if a.kind in ('E', 'prime'):
            return '+'
        if a.kind == 'I':
            return None
        if a.kind == 'T':
            t = a.data
            if t in (tm.PI, tm.EULER) or t in self.posT:
                return '+'
            if t in self.negT:
                return '-'
            if t.k == 'fn' and t.a[0] == 'zeta' or t.k == 'sym' and t.a[0].startswith('const_'):
                return '+'
            return None
        if a.kind == 'B':
            return self.sign(dict(a.data))
        if a.kind == 'fn':
            if a.extra in self.posT:
                return '+'
            if a.data[0] == 'arccosh':
                return None
            return None
        return None

    # ------------------------------------------------------------ polynomial arithmetic
    def const(self, c):
        return {(): _q(c)} if c != 0 else {}

    def padd(self, p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + s * c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = _q(v)
        return r

    def pscale(self, p, c):
        if c == 0:
            return {}
        return {m: _q(v * c) for m, v in p.items()}

    def mono_mul(self, m1, m2):
        """Returns (coef, mono)."""
        if not m1:
            return 1, m2
        if not m2:
            return 1, m1
        out = []
        coef = 1
        i = j = 0
        n1, n2 = len(m1), len(m2)
        while i < n1 and j < n2:
            a, e = m1[i]
            b, f = m2[j]
            if a < b:
                out.append(m1[i])
                i += 1
            elif b < a:
                out.append(m2[j])
                j += 1
            else:
                s = eadd(e, f)
                i += 1
                j += 1
                c, s = self.fix(a, s)
                coef = coef * c
                if s != 0:
                    out.append((a, s))
        if i < n1:
            out.extend(m1[i:])
        if j < n2:
            out.extend(m2[j:])
        return coef, tuple(out)

    def fix(self, a, s):
        """Extract what folds into the rational coefficient from atom a to the power s."""
        if a == self.Iatom.id:
            if type(s) is Ex or Fraction(s).denominator != 1:
                return 1, s
            r = int(s) % 4
            return (1, 1, -1, -1)[r], r % 2
        at = self.atoms[a]
        if at.kind == 'prime':
            n = econst(s)
            k = n.numerator // n.denominator
            if k:
                return (Fraction(at.data) ** k), eadd(s, -k)
        return 1, s

    def pmul(self, p, q):
        if not p or not q:
            return {}
        if len(p) * len(q) > 4 * MAXTERMS:
            raise TooBig()
        r = {}
        mm = self.mono_mul
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                k, m = mm(m1, m2)
                c = c1 * c2 if k == 1 else c1 * c2 * k
                v = r.get(m)
                if v is None:
                    r[m] = c
                else:
                    v = v + c
                    if v == 0:
                        del r[m]
                    else:
                        r[m] = v
        r = {m: _q(c) for m, c in r.items()}
        if len(r) > MAXTERMS:
            raise TooBig()
        return self.reduce(r)

    def ppow(self, p, n):
        r = {(): 1}
        b = p
        while n:
            if n & 1:
                r = self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r

    def reduce(self, p):
        """Expand B atoms with constant exponent >= 1 and exponentials of inverse functions."""
        while True:
            todo = None
            for m in p:
                x = self.needs(m)
                if x is not None:
                    todo = True
                    break
            if not todo:
                return p
            r = {}
            for m, c in p.items():
                x = self.needs(m)
                if x is None:
                    v = r.get(m, 0) + c
                    if v == 0:
                        r.pop(m, None)
                    else:
                        r[m] = _q(v)
                else:
                    idx, rep, newexp = x
                    base = [(a, e) for a, e in m if a != idx]
                    coef = c
                    if newexp != 0:
                        k, newexp = self.fix(idx, newexp)
                        coef = coef * k
                        if newexp != 0:
                            base.append((idx, newexp))
                            base.sort(key=lambda z: z[0])
                    mono = tuple(base)
                    for m2, c2 in rep.items():
                        k, mm = self.mono_mul(mono, m2)
                        v = r.get(mm, 0) + coef * c2 * k
                        if v == 0:
                            r.pop(mm, None)
                        else:
                            r[mm] = _q(v)
            if len(r) > MAXTERMS:
                raise TooBig()
            p = r

    def needs(self, m):
        for a, e in m:
            at = self.atoms[a]
            if at.kind == 'B':
                n = econst(e)
                k = n.numerator // n.denominator
                if k >= 1:
                    return a, self.bpow(at, k), eadd(e, -k)
            elif at.kind == 'E' and type(e) is Ex:
                x = self.needsE(e)
                if x is not None:
                    return (a,) + x
        return None

    def bpow(self, at, k):
        if at.extra is None:
            at.extra = {}
        r = at.extra.get(k)
        if r is None:
            r = dict(at.data) if k == 1 else self.ppow(dict(at.data), k)
            at.extra[k] = r
        return r

    def needsE(self, e):
        for m, c in e.items:
            inv = None
            imag = False
            for a, x in m:
                at = self.atoms[a]
                if at.kind == 'fn' and at.data[0] in INVFNS and x == 1:
                    inv = at
                elif at.kind == 'I':
                    imag = True
                else:
                    inv = None
                    break
            if inv is None:
                continue
            if len(m) != (2 if imag else 1):
                continue
            f = inv.data[0]
            unit = {'arccos': 1, 'arcsin': 1, 'arctan': 2, 'arcsinh': 1, 'arccosh': 1, 'arctanh': 2,
                    'lambertw': 1}[f]
            if imag != (f in ('arccos', 'arcsin', 'arctan')):
                continue
            q = Fraction(c) / unit
            k = q.numerator // q.denominator
            if k == 0:
                continue
            rep = self.inv_power(inv, k)
            return rep, eadd(e, to_exp({m: -k * unit}))
        return None

    def inv_power(self, at, k):
        key = ('invpow', at.id, k)
        r = self.memo.get(key)
        if r is not None:
            return r
        f = at.data[0]
        u = dict(at.data[1])
        one = {(): 1}
        I = {((self.Iatom.id, 1),): 1}
        u2 = self.pmul(u, u)
        half = Fraction(1, 2)
        if f == 'arccos':
            s = self.pow(self.padd(one, u2, -1), half)
            b = self.padd(u, self.pmul(I, s), 1 if k > 0 else -1)
            r = self.ppow(b, abs(k))
        elif f == 'arcsin':
            s = self.pow(self.padd(one, u2, -1), half)
            b = self.padd(s, self.pmul(I, u), 1 if k > 0 else -1)
            r = self.ppow(b, abs(k))
        elif f == 'arctan':
            b = self.padd(one, self.pmul(I, u), 1 if k > 0 else -1)
            b = self.pmul(self.pmul(b, b), self.pow(self.padd(one, u2), -1))
            r = self.ppow(b, abs(k))
        elif f == 'arcsinh':
            s = self.pow(self.padd(one, u2), half)
            b = self.padd(s, u, 1 if k > 0 else -1)
            r = self.ppow(b, abs(k))
        elif f == 'arccosh':
            s = self.pow(self.padd(u2, one, -1), half)
            b = self.padd(u, s, 1 if k > 0 else -1)
            r = self.ppow(b, abs(k))
        elif f == 'arctanh':
            b = self.pmul(self.padd(one, u), self.pow(self.padd(one, u, -1), -1))
            r = self.pow(b, k)
        elif f == 'lambertw':
            w = {((at.id, 1),): 1}
            r = self.pow(self.pmul(u, self.pow(w, -1)), k)
        self.memo[key] = r
        return r

    # ------------------------------------------------------------ clearing of denominators
    def clear(self, p, keep=None):
        """(numerator, multiplier): numerator = p * mono(multiplier), no negative B powers."""
        mult = {}
        guard = 0
        while True:
            guard += 1
            if guard > 400:
                raise TooBig()
            worst = {}
            for m in p:
                for a, e in m:
                    if self.atoms[a].kind == 'B':
                        n = econst(e)
                        k = n.numerator // n.denominator
                        if k < 0:
                            worst[a] = min(worst.get(a, 0), k)
            if not worst:
                return p, mult
            a = max(worst)
            k = -worst[a]
            mult[a] = mult.get(a, 0) + k
            p = self.mul_atom(p, a, k)

    def mul_atom(self, p, a, k):
        r = {}
        mk = ((a, k),)
        for m, c in p.items():
            f, mm = self.mono_mul(m, mk)
            v = r.get(mm, 0) + c * f
            if v == 0:
                r.pop(mm, None)
            else:
                r[mm] = _q(v)
        return self.reduce(r)

    def is_zero(self, p):
        if not p:
            return True
        q, _ = self.clear(p)
        return not q

    def primitive(self, p):
        """p = c * mono * q with q canonical.  p must be cleared and nonzero."""
        p = dict(p)
        atoms = {}
        for m in p:
            for a, e in m:
                atoms.setdefault(a, []).append(e)
        mono = []
        n = len(p)
        for a in sorted(atoms):
            if a == self.Iatom.id:
                continue
            es = atoms[a]
            if len(es) < n:
                es = es + [0]
            lo = es[0]
            for e in es[1:]:
                if elead_sign(eadd(e, escale(lo, -1))) < 0:
                    lo = e
            if lo != 0:
                mono.append((a, lo))
        mono = tuple(mono)
        coef = 1
        if mono:
            inv = tuple((a, escale(e, -1)) for a, e in mono)
            r = {}
            for m, c in p.items():
                k, mm = self.mono_mul(m, inv)
                v = r.get(mm, 0) + c * k
                if v:
                    r[mm] = _q(v)
                else:
                    r.pop(mm, None)
            p = r
        num = 0
        den = 1
        for c in p.values():
            c = Fraction(c)
            num = gcd(num, abs(c.numerator))
            den = den * c.denominator // gcd(den, c.denominator)
        lead = max(p, key=mono_key)
        coef = Fraction(num, den)
        if p[lead] < 0:
            coef = -coef
        p = {m: _q(Fraction(c) / coef) for m, c in p.items()}
        return coef, mono, p

    # ------------------------------------------------------------ exact division
    def mono_cmp(self, m1, m2):
        """Translation-invariant total order on (Laurent) monomials (constants weigh least)."""
        at = self.atoms
        if any(at[a].kind == 'prime' for a, _ in m1) or any(at[a].kind == 'prime' for a, _ in m2):
            r = self.mono_cmp(tuple(x for x in m1 if at[x[0]].kind != 'prime'),
                              tuple(x for x in m2 if at[x[0]].kind != 'prime'))
            if r:
                return r
            m1 = tuple(x for x in m1 if at[x[0]].kind == 'prime')
            m2 = tuple(x for x in m2 if at[x[0]].kind == 'prime')
        i = j = 0
        while i < len(m1) or j < len(m2):
            a = m1[i] if i < len(m1) else None
            b = m2[j] if j < len(m2) else None
            if b is None or a is not None and a[0] < b[0]:
                d = elead_sign(a[1])
                i += 1
            elif a is None or b[0] < a[0]:
                d = -elead_sign(b[1])
                j += 1
            else:
                d = 0
                if a[1] != b[1]:
                    d = elead_sign(eadd(a[1], escale(b[1], -1)))
                i += 1
                j += 1
            if d:
                return d
        return 0

    def lead(self, p):
        it = iter(p)
        best = next(it)
        for m in it:
            if self.mono_cmp(m, best) > 0:
                best = m
        return best

    def divide(self, p, d):
        """p / d when the division is exact (no remainder), else None."""
        if len(d) > len(p):
            return None
        ds = {a for m in d for a, _ in m}
        ps = {a for m in p for a, _ in m}
        if not ds <= ps:
            return None
        ld = self.lead(d)
        cd = Fraction(d[ld])
        inv = tuple((a, escale(e, -1)) for a, e in ld)
        q = {}
        r = dict(p)
        for _ in range(len(p) + 8):
            if not r:
                return q
            lr = self.lead(r)
            k, m = self.mono_mul(lr, inv)
            c = _q(Fraction(r[lr]) * k / cd)
            if m in q:
                return None
            q[m] = c
            for m2, c2 in d.items():
                k2, mm = self.mono_mul(m, m2)
                v = r.get(mm, 0) - c * c2 * k2
                if v == 0:
                    r.pop(mm, None)
                else:
                    r[mm] = _q(v)
            if len(r) > 3 * len(p) + 10:
                return None
        return None

    def poly_sqrt(self, p):
        """S with S*S = p, or None."""
        n = len(p)
        lead = self.lead(p)
        c = Fraction(p[lead])
        rn, rd = isqrt(abs(c.numerator)), isqrt(c.denominator)
        if c < 0:
            return None
        half = Fraction(1, 2)
        m0 = []
        fractional = any(type(e) is not Ex and Fraction(e).denominator != 1 for m in p for _, e in m)
        for a, e in lead:
            if type(e) is not Ex and (Fraction(e) / 2).denominator != 1 and self.atoms[a].kind != 'E':
                if not fractional or self.asign(a) != '+':
                    return None
            m0.append((a, escale(e, half)))
        s = {tuple(m0): Fraction(rn, rd)}
        if rn * rn != c.numerator or rd * rd != c.denominator:
            if not fractional:
                return None
            s = self.pmul({tuple(m0): 1}, self.pow(self.const(c), half))
            if len(s) != 1:
                return None
        (m0, c0), = s.items()
        c0 = 2 * Fraction(c0)
        inv = tuple((a, escale(e, -1)) for a, e in m0)
        for _ in range(n):
            r = self.padd(p, self.pmul(s, s), -1)
            if not r:
                return {m: _q(x) for m, x in s.items()}
            if len(r) > 3 * n + 10:
                return None
            lr = self.lead(r)
            k, m = self.mono_mul(lr, inv)
            if m in s or self.mono_cmp(m, m0) >= 0:
                return None
            s = dict(s)
            s[m] = Fraction(r[lr]) * k / c0
        return None

    def split_known(self, prim):
        """prim = product of known compound atoms to integer powers times a primitive rest."""
        out = []
        coef, mono = 1, ()
        for b in list(self.atoms):
            if b.kind != 'B' or len(b.data) < 2 or len(b.data) > len(prim):
                continue
            d = dict(b.data)
            k = 0
            while len(prim) > 1:
                q = self.divide(prim, d)
                if q is None:
                    break
                k += 1
                prim = q
            if k:
                out.append((b.id, k))
            if len(prim) == 1:
                break
        if out:
            if len(prim) == 1:
                (mono, coef), = prim.items()
                prim = None
            else:
                coef, mono, prim = self.primitive(prim)
        return out, coef, mono, prim

    def batom(self, p):
        """Atom for a primitive polynomial (or opaque product)."""
        key = tuple(sorted(p.items(), key=lambda x: mono_key(x[0])))
        return self.atom('B', key)

    # ------------------------------------------------------------ powers
    def num_pow(self, c, e):
        """Rational c>0 to exponent e -> (coef, mono list)."""
        c = Fraction(c)
        coef = Fraction(1)
        out = {}
        for part, s in ((c.numerator, 1), (c.denominator, -1)):
            for pr, k in _factor(part).items():
                out[pr] = out.get(pr, 0) + s * k
        mono = []
        for pr, k in out.items():
            if k == 0:
                continue
            a = self.atom('prime', pr)
            f, x = self.fix(a.id, escale(e, k))
            coef *= f
            if x != 0:
                mono.append((a.id, x))
        mono.sort(key=lambda z: z[0])
        return coef, tuple(mono)

    def pow(self, p, e):
        """p ** e for an exponent e (int, Fraction or Ex)."""
        if type(e) is not Ex:
            e = _q(Fraction(e))
        if e == 0:
            return {(): 1}
        if not p:
            if type(e) is not Ex and e > 0:
                return {}
            raise CannotNormalise('power of zero')
        if type(e) is int and e > 0:
            return self.ppow(p, e)
        if len(p) == 1:
            (m, c), = p.items()
            return self.pow_factors(c, m, None, e)
        q, mult = self.clear(p)
        if not q:
            raise CannotNormalise('power of zero')
        inv = tuple(sorted((a, -k) for a, k in mult.items()))
        if len(q) == 1:
            (m, c), = q.items()
            k, m = self.mono_mul(m, inv)
            return self.pow_factors(c * k, m, None, e)
        c, m, prim = self.primitive(q)
        k, m = self.mono_mul(m, inv)
        if type(e) is not Ex and e.denominator % 2 == 0 or type(e) is Ex:
            mult2 = 1
            while len(prim) > 2:
                sq = self.poly_sqrt(prim)
                sg = self.sign(sq) if sq is not None else None
                if sg is None:
                    break
                mult2 *= 2
                c3, m3, prim3 = self.primitive(sq if sg == '+' else self.pscale(sq, -1))
                if c3 < 0:
                    prim3, c3 = self.pscale(prim3, -1), -c3
                if m3 or c3 != 1:
                    if self.sign({m3: 1}) != '+' or self.sign(prim3) != '+':
                        break
                    return self.pmul(self.pmul(self.pow_factors(c * k, m, None, e), self.pow(prim3, self.emul(e, 2))),
                                     self.pow_factors(c3, m3, None, self.emul(e, 2)))
                prim = prim3
                return self.pmul(self.pow_factors(c * k, m, None, e), self.pow(prim, self.emul(e, 2)))
        known, c2, m2, prim = self.split_known(prim)
        if known:
            k2, m = self.mono_mul(m, m2)
            k3, m = self.mono_mul(m, tuple(sorted(known)))
            k *= c2 * k2 * k3
        return self.pow_factors(c * k, m, prim, e)

    def pow_factors(self, c, m, prim, e):
        """(c * m * prim) ** e."""
        if type(e) is int:
            coef = Fraction(c) ** e
            mono = []
            for a, x in m:
                y = escale(x, e)
                k, y = self.fix(a, y)
                coef *= k
                if y != 0:
                    mono.append((a, y))
            r = {tuple(mono): _q(coef)}
            r = self.reduce(r)
            if prim is not None:
                b = self.batom(prim)
                self.divisors.append(b)
                r = self.mul_atom(r, b.id, e)
            return r
        # non-integer exponent: split only over factors of known sign
        sign = 1
        if c < 0:
            sign, c = -sign, -c
        coef, mono = self.num_pow(c, e)
        good = {(): coef}
        good = self.pmul(good, {mono: 1})
        rest_m = []
        for a, x in m:
            s = self.asign(a)
            if a == self.Iatom.id:
                rest_m.append((a, x))
                continue
            if s == '+' or (a == self.E.id and self.real_exp(x)):
                if a == self.E.id and not self.real_exp(x):
                    rest_m.append((a, x))
                    continue
                y = self.emul(x, e)
                k, y = self.fix(a, y)
                if y != 0:
                    good = self.pmul(good, {((a, y),): k})
                else:
                    good = self.pscale(good, k)
            elif s == '-' and type(x) is int:
                # (-|a|)**x
                if x % 2:
                    sign = -sign
                na = self.pow({((a, 1),): -1}, 1)
                b = self.atom('B', tuple(na.items()))
                b.pos = True
                self.signmemo[b.data] = '+'
                good = self.pmul(good, {((b.id, self.emul(x, e)),): 1})
            elif type(x) is int and x % 2 == 0 and self.nonneg_atom(a):
                good = self.pmul(good, {((a, self.emul(x, e)),): 1})
            else:
                rest_m.append((a, x))
        rest_p = None
        if prim is not None:
            s = self.sign(prim)
            if s in ('+', '-'):
                b = None
                if s == '-':
                    sign = -sign
                    npz = self.pscale(prim, -1)
                    b = self.atom('B', tuple(sorted(npz.items(), key=lambda x: mono_key(x[0]))))
                else:
                    b = self.batom(prim)
                good = self.pmul(good, {((b.id, e),): 1})
            else:
                rest_p = prim
        if not rest_m and rest_p is None:
            if sign < 0:
                if e == Fraction(1, 2):
                    return self.pmul(good, {((self.Iatom.id, 1),): 1})
                if e == Fraction(-1, 2):
                    return self.pscale(self.pmul(good, {((self.Iatom.id, 1),): 1}), -1)
                b = self.atom('B', (((), -1),))
                return self.pmul(good, {((b.id, e),): 1})
            return good
        q = {tuple(rest_m): sign}
        if rest_p is not None:
            q = self.pmul(q, rest_p)
        b = self.batom(q)
        return self.pmul(good, {((b.id, e),): 1})

    def nonneg_atom(self, a):
        at = self.atoms[a]
        if at.kind == 'T' and at.data in self.nonneg:
            return True
        return False

    def real_exp(self, x):
        if type(x) is not Ex:
            return True
        return all(all(a != self.Iatom.id for a, _ in m) for m, _ in x.items)

    def emul(self, x, e):
        if type(e) is not Ex:
            return escale(x, e)
        if type(x) is not Ex:
            return escale(e, x)
        return to_exp(self.pmul(exp_poly(x), exp_poly(e)))

    # ------------------------------------------------------------ signs
    def sign(self, p, deep=True):
        """'+', '-' or None, for a (real) polynomial."""
        if not p:
            return None
        key = tuple(sorted(p.items(), key=lambda x: mono_key(x[0])))
        r = self.signmemo.get(key, 0)
        if r != 0:
            return r
        s = None
        ok = True
        for m, c in p.items():
            ms = 1 if c > 0 else -1
            for a, e in m:
                x = None
                if a == self.E.id:
                    x = '+' if self.real_exp(e) else None
                elif type(e) is int and e % 2 == 0 and self.atoms[a].kind == 'T' \
                        and self.atoms[a].data in self.nzT():
                    x = '+'
                elif self.atoms[a].kind == 'B' and type(e) is Ex or \
                        self.atoms[a].kind == 'B' and Fraction(e).denominator != 1:
                    x = '+' if self.sign(dict(self.atoms[a].data)) == '+' else None
                else:
                    x = self.asign(a)
                    if x == '-':
                        if type(e) is int:
                            x = '+' if e % 2 == 0 else '-'
                        else:
                            x = None
                if x is None:
                    ok = False
                    break
                if x == '-':
                    ms = -ms
            if not ok:
                break
            ms = '+' if ms > 0 else '-'
            if s is None:
                s = ms
            elif s != ms:
                ok = False
                break
        if ok:
            self.signmemo[key] = s
            return s
        q = self.unroot(p)
        if q:
            s = self.sign(q, deep)
            if s is not None:
                self.signmemo[key] = s
                return s
        if self.prover is not None and deep and self._busy < 2:
            self._busy += 1
            try:
                s = self.prover(self, p)
            finally:
                self._busy -= 1
            if self._busy == 0 or s is not None:
                self.signmemo[key] = s
            return s
        return None

    def unroot(self, p):
        """For the difference of two positive monomials with roots: the difference of their k-th powers (same sign)."""
        if 2 < len(p) <= 8:
            for m, c in p.items():
                ks = [Fraction(e).denominator for _, e in m if type(e) is not Ex]
                if len(ks) < len(m) or not m or max(ks) not in (2, 3) or self.sign({m: 1}, False) != '+':
                    continue
                rest = {x: y for x, y in p.items() if x != m}
                s = self.sign(rest, False)
                if s is None or (s == '+') == (c > 0):
                    continue
                k = max(ks)
                if any(k % x for x in ks):
                    continue
                a = self.const((1 if c > 0 else -1) * abs(Fraction(c)) ** k)
                for x, e in m:
                    e = _q(Fraction(e) * k)
                    at = self.atoms[x]
                    a = self.pmul(a, self.ppow(dict(at.data), e) if at.kind == 'B' and e > 0
                                  else self.pow(self.const(at.data) if at.kind == 'prime' else {((x, 1),): 1}, e))
                return self.padd(a, self.pscale(self.ppow(rest, k), (-1) ** (k + 1)))
            return None
        if len(p) != 2:
            return None
        (m1, c1), (m2, c2) = p.items()
        if (c1 > 0) == (c2 > 0):
            return None
        k = 1
        for a, e in m1 + m2:
            if type(e) is Ex:
                return None
            d = Fraction(e).denominator
            k = k * d // gcd(k, d)
        if k == 1 or k > 12:
            return None
        if any(self.sign({m: 1}, False) != '+' for m in (m1, m2)):
            return None
        e1, e2 = dict(m1), dict(m2)
        for a in set(e1) | set(e2):
            x, y = Fraction(e1.get(a, 0)), Fraction(e2.get(a, 0))
            e1[a], e2[a] = _q(x - min(x, y)), _q(y - min(x, y))
        m1, m2 = (tuple(sorted((a, e) for a, e in d.items() if e != 0)) for d in (e1, e2))
        k = 1
        for a, e in m1 + m2:
            d = Fraction(e).denominator
            k = k * d // gcd(k, d)
        a = self.pow({m1: abs(c1)}, k)
        b = self.pow({m2: abs(c2)}, k)
        return self.padd(a, b, -1) if c1 > 0 else self.padd(b, a, -1)

    def nzT(self):
        if not hasattr(self, '_nz'):
            nz = set(self.posT) | set(self.negT)
            for f in self.facts:
                if f.k == 'not' and f.a[0].k == 'cmp' and f.a[0].a[0] == '==':
                    l, r = f.a[0].a[1], f.a[0].a[2]
                    if r is tm.ZERO:
                        nz.add(l)
                    if l is tm.ZERO:
                        nz.add(r)
            self._nz = nz
        return self._nz

    # ------------------------------------------------------------ terms to normal forms
    def nf(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._nf(t)
            self.memo[t.id] = r
        return r

    def mono_of(self, atom):
        return {((atom.id, 1),): 1}

    def _nf(self, t):
        k = t.k
        if k == 'num':
            return self.const(t.a[0])
        if k == 'I':
            return {((self.Iatom.id, 1),): 1}
        if k == 'sym' or k == 'elt':
            if t is tm.NAN or t is tm.INF:
                raise CannotNormalise('nan or inf in an arithmetic term')
            return self.mono_of(self.atom('T', self.canon_atom(t)))
        if k == 'uf':
            return self.mono_of(self.atom('T', self.canon_atom(t)))
        if k == 'add':
            r = {}
            for x in t.a:
                r = self.padd(r, self.nf(x))
            return r
        if k == 'mul':
            r = {(): 1}
            for x in sorted(t.a, key=lambda z: len(self.nf(z))):
                r = self.pmul(r, self.nf(x))
                if not r:
                    return r
            return r
        if k == 'pow':
            b = t.a[0]
            if b.k == 'num' and b.a[0] > 0 and t.a[1].k != 'num' and \
                    any(x.a[0] == 'log' for x in tm.atoms_of(t.a[1], ('fn',))):
                return self.nf(tm.fn('exp', tm.mul(t.a[1], tm.fn('log', b))))
            p, L = self.nf(b), self.nf(t.a[1])
            if any(self.is_log(a) for m in L for a, _ in m) and self.sign(p) == '+':
                return self.exp_of(self.pmul(L, self.log_of(p)))
            return self.pow(p, to_exp(L))
        if k == 'fn':
            return self._nf_fn(t)
        raise CannotNormalise(k)

    def canon_atom(self, t):
        """Same atom for applications whose arguments are provably equal."""
        if t.k == 'sym' or not any(type(x) is T for x in t.a):
            return t
        key = ('canon', t.k, t.a[0], t.a[1] if t.k == 'uf' else None)
        lst = self.byKey.setdefault(key, [])
        args = [x for x in t.a if type(x) is T]
        for o in lst:
            if o is t:
                return t
        for o in lst:
            oargs = [x for x in o.a if type(x) is T]
            if len(oargs) != len(args):
                continue
            if [x for x in o.a if type(x) is not T] != [x for x in t.a if type(x) is not T]:
                continue
            if all(self.same(x, y) for x, y in zip(args, oargs)):
                return o
        lst.append(t)
        return t

    def same(self, x, y):
        if x is y:
            return True
        if x.k in ('cmp', 'and', 'or', 'not', 'ufb', 'true', 'false') or \
                y.k in ('cmp', 'and', 'or', 'not', 'ufb', 'true', 'false'):
            return self.same_bool(x, y)
        if x in (tm.NAN, tm.INF) or y in (tm.NAN, tm.INF):
            return False
        try:
            return self.is_zero(self.padd(self.nf(x), self.nf(y), -1))
        except (TooBig, CannotNormalise):
            return False

    def same_bool(self, x, y):
        if x is y:
            return True
        if x.k != y.k:
            return False
        if x.k == 'cmp':
            if x.a[0] != y.a[0]:
                return False
            try:
                dx = self.padd(self.nf(x.a[2]), self.nf(x.a[1]), -1)
                dy = self.padd(self.nf(y.a[2]), self.nf(y.a[1]), -1)
            except (TooBig, CannotNormalise):
                return False
            if self.is_zero(self.padd(dx, dy, -1)):
                return True
            return x.a[0] == '==' and self.is_zero(self.padd(dx, dy))
        if x.k in ('and', 'or'):
            ys = list(y.a)
            if len(ys) != len(x.a):
                return False
            for u in x.a:
                for v in ys:
                    if self.same_bool(u, v):
                        ys.remove(v)
                        break
                else:
                    return False
            return True
        if x.k == 'not':
            return self.same_bool(x.a[0], y.a[0])
        if x.k == 'ufb':
            return x.a[0] == y.a[0] and len(x.a) == len(y.a) and all(
                (self.same(u, v) if type(u) is T and type(v) is T else u == v)
                for u, v in zip(x.a[1:], y.a[1:]))
        return False

    def is_log(self, a):
        return self.atoms[a].kind == 'fn' and self.atoms[a].data[0] == 'log'

    def exp_of(self, L):
        """exp of a polynomial L."""
        out = {(): 1}
        rest = {}
        for m, c in L.items():
            logs = [(a, e) for a, e in m if self.is_log(a)]
            if len(logs) == 1 and logs[0][1] == 1:
                a = logs[0][0]
                other = tuple((b, e) for b, e in m if b != a)
                ex = to_exp({other: c})
                out = self.pmul(out, self.pow(dict(self.atoms[a].data[1]), ex))
            elif len(m) == 2 and Fraction(c).denominator == 1 and abs(c) <= 12 and any(a == self.Iatom.id and e == 1 for a, e in m) \
                    and any(self.atoms[a].kind == 'fn' and self.atoms[a].data[0] == 'arctan' and e == 1 for a, e in m):
                # exp(i n arctan(s)) = ((1 + i s) / sqrt(1 + s^2))^n
                a = [a for a, e in m if a != self.Iatom.id][0]
                s = dict(self.atoms[a].data[1])
                z = self.padd({(): 1}, self.pmul(s, {((self.Iatom.id, 1),): 1 if c > 0 else -1}))
                w = self.pow(self.padd({(): 1}, self.pmul(s, s)), Fraction(-abs(c), 2))
                out = self.pmul(out, w)
                for _ in range(abs(int(c))):
                    out = self.pmul(out, z)
            elif self.is_ipi(m) and Fraction(c).denominator in (1, 2, 3, 4, 6):
                out = self.pmul(out, self.root_of_unity(Fraction(c) % 2))
            else:
                rest[m] = c
        if rest:
            # fold negative powers of compound atoms so that equal exponents coincide
            rest = self.canon_exponent(rest)
            ex = to_exp(rest)
            out = self.pmul(out, {((self.E.id, ex),): 1})
        return out

    def is_ipi(self, m):
        return len(m) == 2 and all(e == 1 for _, e in m) and m[0][0] != m[1][0] and \
            all(a == self.Iatom.id or self.atoms[a].kind == 'T' and self.atoms[a].data is tm.PI for a, e in m)

    def root_of_unity(self, q):
        """exp(i pi q) for q in [0, 2) with denominator 1, 2, 3, 4 or 6."""
        I = {((self.Iatom.id, 1),): 1}
        half, third = Fraction(1, 2), self.pow({(): 3}, Fraction(1, 2))
        out = {(): 1}
        while q >= half:
            q -= half
            out = self.pmul(out, I)
        if q == Fraction(1, 3):
            z = self.pscale(self.padd({(): 1}, self.pmul(I, third)), half)
        elif q == Fraction(1, 6):
            z = self.pscale(self.padd(third, I), half)
        elif q == Fraction(1, 4):
            z = self.pmul(self.padd({(): 1}, I), self.pow({(): 2}, -half))
        else:
            return out
        return self.pmul(out, z)

    def canon_exponent(self, p):
        if any(self.atoms[a].kind == 'B' and econst(e) < 0 for m in p for a, e in m) and len(p) > 1:
            q, mult = self.clear(p)
            if len(q) < len(p):
                r = q
                for a, k in mult.items():
                    r = self.mul_atom(r, a, -k)
                return r
        return p

    def fnatom(self, name, u, t=None):
        """Atom for an opaque unary function of a normalised argument, modulo provable equality."""
        key = ('fns', name)
        lst = self.byKey.setdefault(key, [])
        uk = tuple(sorted(u.items(), key=lambda x: mono_key(x[0])))
        for a in lst:
            if a.data[1] == uk:
                return a
        for a in lst:
            try:
                if self.is_zero(self.padd(u, dict(a.data[1]), -1)):
                    return a
            except TooBig:
                pass
        a = self.atom('fn', (name, uk))
        a.extra = t
        lst.append(a)
        return a

    def _nf_fn(self, t):
        name = t.a[0]
        if name == 'zeta' or any(type(x) is not T for x in t.a[1:]) and name != 'lambertw':
            return self.mono_of(self.atom('T', t))
        u = self.nf(t.a[1])
        I = {((self.Iatom.id, 1),): 1}
        half = Fraction(1, 2)
        if name == 'exp':
            return self.exp_of(u)
        if name in ('sin', 'cos', 'tan'):
            iu = self.pmul(I, u)
            a = self.exp_of(iu)
            b = self.exp_of(self.pscale(iu, -1))
            if name == 'cos':
                return self.pscale(self.padd(a, b), half)
            if name == 'sin':
                return self.pscale(self.pmul(self.padd(a, b, -1), I), -half)
            if any(self.atoms[x].kind == 'fn' and self.atoms[x].data[0] == 'arctan' for m in u for x, _ in m):
                if len(u) == 1:
                    (m, c), = u.items()
                    if c in (1, -1) and len(m) == 1 and m[0][1] == 1:
                        return self.pscale(dict(self.atoms[m[0][0]].data[1]), c)
                return self.pmul(self.pscale(self.pmul(self.padd(a, b, -1), I), -1), self.pow(self.padd(a, b), -1))
            a2 = self.pmul(a, a)
            n = self.pscale(self.pmul(self.padd(a2, {(): 1}, -1), I), -1)
            return self.pmul(n, self.pow(self.padd(a2, {(): 1}), -1))
        if name in ('sinh', 'cosh', 'tanh'):
            a = self.exp_of(u)
            b = self.exp_of(self.pscale(u, -1))
            if name == 'cosh':
                return self.pscale(self.padd(a, b), half)
            if name == 'sinh':
                return self.pscale(self.padd(a, b, -1), half)
            a2 = self.pmul(a, a)
            return self.pmul(self.padd(a2, {(): 1}, -1), self.pow(self.padd(a2, {(): 1}), -1))
        if name == 'log':
            return self.log_of(u)
        if name == 'abs':
            s = self.sign(u)
            if s == '+':
                return u
            if s == '-':
                return self.pscale(u, -1)
            return self.mono_of(self.fnatom('abs', u, t))
        if name == 'sign':
            s = self.sign(u)
            if s:
                return self.const(1 if s == '+' else -1)
            return self.mono_of(self.fnatom('sign', u, t))
        if name == 'lambertw':
            return self.mono_of(self.fnatom('lambertw', u, t))
        if name in INVFNS:
            if not u:
                if name == 'arccos':
                    return self.pscale(self.nf(tm.PI), half)
                if name != 'arccosh':
                    return {}
            if name == 'arctanh':
                one = {(): 1}
                return self.pscale(self.padd(self.log_of(self.padd(one, u)), self.log_of(self.padd(one, u, -1)), -1), half)
            if name == 'arccos':
                y = self.cos_arg(u)
                if y is not None:
                    return y
            if name in ('arccos', 'arcsin', 'arctan') and self.root_like(u):
                # twice the angle is the arc cosine of something visibly a cosine
                one, u2 = {(): 1}, self.pmul(u, u)
                if name == 'arccos':
                    w = self.padd(self.pscale(u2, 2), one, -1)
                elif name == 'arcsin':
                    w = self.padd(one, self.pscale(u2, 2), -1)
                else:
                    w = self.pmul(self.padd(one, u2, -1), self.pow(self.padd(one, u2), -1))
                y = self.cos_arg(w)
                if y is not None:
                    return self.pscale(y, half)
            if name == 'arccosh' and u == {(): 1}:
                return {}
            if name in ('arccos', 'arccosh'):
                v = self.third_angle(u, name)
                if v is not None:
                    return self.pscale(self._nf_inv(name, v, t), 3)
            return self.mono_of(self.fnatom(name, u, t))
        return self.mono_of(self.fnatom(name, u, t))

    def root_like(self, u):
        """u is a product of real roots and positive factors, at least one a root: u >= 0."""
        if len(u) != 1:
            return False
        (m, c), = u.items()
        roots = [x for x in m if self.atoms[x[0]].kind == 'B' and type(x[1]) is not Ex and Fraction(x[1]).denominator % 2 == 0]
        rest = tuple(x for x in m if x not in roots)
        return bool(roots) and c > 0 and (not rest or self.sign({rest: Fraction(1)}) == '+')

    def _nf_inv(self, name, v, t):
        return self.mono_of(self.fnatom(name, v, t))

    def third_angle(self, u, name):
        """v with u = 4 v^3 - 3 v and arccos(u) = 3 arccos(v), for 1/2 < v < 1 (arccosh: for v > 1)."""
        if any(e == -1 and self.atoms[a].kind == 'B' for m in u for a, e in m):
            q, mult = self.clear(u)
            c, m, prim = self.primitive(q)
            known, c2, m2, prim = self.split_known(prim)
            k, m = self.mono_mul(m, tuple(sorted((a, -e) for a, e in mult.items())))
            for f in (m2, tuple(sorted(known))):
                k2, m = self.mono_mul(m, f)
                k *= k2
            if any(self.atoms[a].kind == 'B' and econst(e) < 0 for a, e in m):
                return None
            u = self.pscale(self.pmul(prim or {(): 1}, {m: 1}), c * c2 * k)
        if len(u) != 2:
            return None
        for m, c in u.items():
            k = Fraction(c) / -3
            v = {m: k}
            if self.padd(u, self.padd(self.pscale(self.pmul(v, self.pmul(v, v)), 4), v, -3), -1):
                continue
            one = {(): Fraction(1)}
            if name == 'arccosh':
                ok = self.sign(self.padd(v, one, -1)) == '+'
            else:
                ok = self.sign(self.padd(one, v, -1)) == '+' and \
                    self.sign(self.padd(self.pscale(v, 2), one, -1)) == '+'
            if ok:
                return v
        return None

    def cos_arg(self, u):
        """y in [0, pi] with u = cos(y), when u is visibly a cosine."""
        if len(u) != 2:
            return None
        ys = []
        for m, c in u.items():
            if c != Fraction(1, 2) or len(m) != 1 or m[0][0] != self.E.id:
                return None
            ys.append(self.pmul({((self.Iatom.id, 1),): -1}, exp_poly(m[0][1])))
        if self.padd(ys[0], ys[1]):
            return None
        if any(a == self.Iatom.id for m in ys[0] for a, _ in m):
            return None
        for y in ys:
            if self.sign(y) == '+' and self.sign(self.padd(self.nf(tm.PI), y, -1)) == '+':
                return y
        return None

    def log_of(self, u):
        if not u:
            raise CannotNormalise('log of zero')
        q, mult = self.clear(u)
        inv = tuple(sorted((a, -k) for a, k in mult.items()))
        if len(q) == 1:
            (m, c), = q.items()
            k, m = self.mono_mul(m, inv)
            return self.log_factors(c * k, m, None, u)
        c, m, prim = self.primitive(q)
        k, m = self.mono_mul(m, inv)
        known, c2, m2, prim = self.split_known(prim)
        if known:
            k2, m = self.mono_mul(m, m2)
            k3, m = self.mono_mul(m, tuple(sorted(known)))
            k *= c2 * k2 * k3
        return self.log_factors(c * k, m, prim, u)

    def conj_poly(self, p):
        out = {}
        for m, c in p.items():
            f = {(): c}
            for a, e in m:
                at = self.atoms[a]
                if at.kind == 'I':
                    f = self.pmul(f, {((a, e),): -1 if e % 2 else 1})
                elif at.kind == 'B' and self.is_complex(dict(at.data)):
                    if type(e) is not int:
                        raise CannotNormalise('conjugate')
                    f = self.pmul(f, self.pow(self.conj_poly(dict(at.data)), e))
                elif type(e) is Ex:
                    g = {}
                    for mm, cc in e.items:
                        n = sum(1 for x, _ in mm if x == self.Iatom.id)
                        g[mm] = -cc if n else cc
                    f = self.pmul(f, {((a, to_exp(g)),): 1})
                else:
                    f = self.pmul(f, {((a, e),): 1})
            out = self.padd(out, f)
        return out

    def is_complex(self, p):
        for m in p:
            for a, e in m:
                at = self.atoms[a]
                if at.kind == 'I' or type(e) is Ex and any(x == self.Iatom.id for mm, _ in e.items for x, _ in mm):
                    return True
                if at.kind == 'B' and self.is_complex(dict(at.data)):
                    return True
        return False

    def phase_split(self, p):
        """(R, Y) with p = R * exp(i Y), R real, when p times a phase is visibly real; None otherwise."""
        cp = self.conj_poly(p)
        if len(cp) != len(p):
            return None
        k, m = self.mono_mul(self.lead(cp), tuple((a, escale(e, -1)) for a, e in self.lead(p)))
        m1 = next(iter(p))
        for m2 in cp:           # conj(p) = p * exp(-2 i Y)
            k, ph = self.mono_mul(m2, tuple((a, escale(e, -1)) for a, e in m1))
            if any(a != self.E.id for a, _ in ph) or len(ph) > 1:
                continue
            if self.padd(cp, self.pmul(p, {ph: 1}), -1):
                continue
            if not ph:
                return p, {}
            half = {((self.E.id, escale(ph[0][1], Fraction(1, 2))),): 1}
            y = self.pmul(exp_poly(ph[0][1]), {((self.Iatom.id, 1),): Fraction(1, 2)})
            return self.pmul(p, half), y
        return None

    def log_factors(self, c, m, prim, u):
        sign = 1 if c > 0 else -1
        ok = True
        facs = []
        phase = {}          # argument of the complex factors
        for a, e in m:
            s = self.asign(a)
            if a == self.E.id:
                s = '+' if self.real_exp(e) else None
            if s == '+':
                facs.append((a, e))
            elif s == '-' and type(e) is int and self.atoms[a].kind == 'B':
                facs.append((self.pscale(dict(self.atoms[a].data), -1), e))
                sign = -sign if e % 2 else sign
            elif self.atoms[a].kind == 'B' and type(e) is int and self.is_complex(dict(self.atoms[a].data)):
                sp = self.phase_split(dict(self.atoms[a].data))
                if sp is None or self.sign(sp[0]) != '+':
                    ok = False
                    continue
                facs.append((sp[0], e))
                phase = self.padd(phase, self.pscale(sp[1], e))
            elif a == self.E.id and type(e) is Ex:
                ph = self.pmul(exp_poly(e), {((self.Iatom.id, 1),): -1})
                if self.is_complex(ph):
                    ok = False
                    continue
                phase = self.padd(phase, ph)
            else:
                ok = False
        if prim is not None and self.is_complex(prim):
            sp = self.phase_split(prim)
            if sp is None or self.sign(sp[0]) is None:
                ok = False
            else:
                prim = sp[0]
                phase = self.padd(phase, sp[1])
        if phase:
            ok = False
        if prim is not None and ok:
            s = self.sign(prim)
            if s == '-':
                sign = -sign
                prim = self.pscale(prim, -1)
            elif s is None:
                ok = False
        if not ok or sign < 0:
            return self.mono_of(self.fnatom('log', u))
        r = {}
        for pr, k in list(_factor(Fraction(c).numerator if c > 0 else -Fraction(c).numerator).items()):
            a = self.fnatom('log', {(): pr})
            r = self.padd(r, self.pscale(self.mono_of(a), k))
        for pr, k in list(_factor(Fraction(c).denominator).items()):
            a = self.fnatom('log', {(): pr})
            r = self.padd(r, self.pscale(self.mono_of(a), -k))
        for a, e in facs:
            b = a if type(a) is dict else dict(self.atoms[a].data) if self.atoms[a].kind == 'B' else None
            if b is not None and len(b) > 2:
                sq = self.poly_sqrt(b)
                sg = self.sign(sq) if sq is not None else None
                if sg is not None:
                    l = self.log_of(sq if sg == '+' else self.pscale(sq, -1))
                    r = self.padd(r, self.pmul(self.pscale(l, 2), exp_poly(e) if type(e) is Ex else self.const(e)))
                    continue
            if type(a) is dict:
                r = self.padd(r, self.pscale(self.mono_of(self.fnatom('log', a)), e))
                continue
            if a == self.E.id:
                r = self.padd(r, exp_poly(e))
                continue
            at = self.atoms[a]
            if at.kind == 'prime':
                l = self.fnatom('log', {(): at.data})
            elif at.kind == 'B':
                l = self.fnatom('log', dict(at.data))
            else:
                l = self.fnatom('log', {((a, 1),): 1})
            r = self.padd(r, self.pmul(self.mono_of(l), exp_poly(e)))
        if prim is not None:
            sq = self.poly_sqrt(prim) if len(prim) > 2 else None
            sg = self.sign(sq) if sq is not None else None
            if sg is not None:
                return self.padd(r, self.pscale(self.log_of(sq if sg == '+' else self.pscale(sq, -1)), 2))
            l = self.fnatom('log', prim)
            r = self.padd(r, self.mono_of(l))
        return r


_fmemo = {}


def _factor(n):
    n = abs(int(n))
    r = _fmemo.get(n)
    if r is not None:
        return r
    out = {}
    m = n
    p = 2
    while p * p <= m and p < 100000:
        while m % p == 0:
            out[p] = out.get(p, 0) + 1
            m //= p
        p += 1 if p == 2 else 2
    if m > 1:
        out[m] = out.get(m, 0) + 1
    _fmemo[n] = out
    return out
