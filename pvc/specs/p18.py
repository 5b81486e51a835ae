"""P18: spectra are those of the mode that starts in the vacuum, integrated by oscode until it is frozen."""
from ..harness import contract
from .bg import StubPotential, KINDS, raw, kept, RAW
from .p17 import VACUA


class Bg:
    pass


def background(h, kind):
    """A background table that inflates long enough (numerically a de Sitter like one, with or without an earlier phase
    of kinetic domination)."""
    np = h.np
    b = Bg()
    # the wiring holds for any K; whether it is +1 matters only where large scales are dropped
    b.K = h.real('K') if h.sym else h.choose('K', [0, 1, -1])
    b.potential = StubPotential(h)
    kd = 0 if h.sym else h.choose('e-folds of kinetic domination', [0, 2, 4])
    b._N = h.array('_N', fn=lambda u: 0.5 + 25 * u)
    b.H = h.array('H', fn=lambda u: 3 * (0.4 - 0.1 * u) * (1 + (5 if kd else 0) * 2.718**(-6 * (0.5 + 25 * u - kd)))**0.5)
    b._logaH = h.array('_logaH') if h.sym else b._N + np.log(b.H)
    b.phi = h.array('phi', fn=lambda u: 1 - u)
    b.dphidt = h.array('dphidt', fn=lambda u: -0.2 - 0.1 * u)
    b.dphidN = h.array('dphidN', fn=lambda u: -0.3 - 0.2 * u)
    b.Omega_K = h.array('Omega_K') if h.sym else -b.K * np.exp(-2 * b._logaH)
    b.t = h.array('t', fn=lambda u: 1 + 20 * u)
    b.x = b.t if kind == 'time' else b._N
    b.N = h.array('N') if h.sym else b._N - 5
    b._logaH_star = h.real('_logaH_star', sample=(1, 3))
    b.independent_variable = 't' if kind == 'time' else '_N'
    h.everywhere(b.H > 0)
    h.everywhere(b.t > 0)
    h.increasing(b._N)
    return b


def complex_real(h, name):
    return h.real(name + ' re', sample=(-1, 1)) + 1j * h.real(name + ' im', sample=(-1, 1))


class Oscode:
    """Contract of pyoscode.solve: for each equation (ws, gs, ti, tf) there are two solutions f, g with
    (f, f') = (1, 0) and (g, g') = (0, 1) at ti; the one for (x0, dx0) is x0 f + dx0 g.  At the end both are frozen."""

    def __init__(self, h):
        self.h = h
        self.known = []

    def same(self, a, b):
        if self.h.sym:
            return getattr(a, 't', a) is getattr(b, 't', b) and getattr(a, 'filt', 0) == getattr(b, 'filt', 0)
        return self.h.np.array_equal(a, b)

    def find(self, ti, tf, gs, ws):
        for e in self.known:
            if all(self.same(x, y) for x, y in zip(e.key, (ti, tf, gs, ws))):
                return e

    def __call__(self, ts, ws, gs, ti, tf, x0, dx0, t_eval=None, logw=False, logg=False, **kw):
        h, np = self.h, self.h.np
        ws = np.exp(ws) if logw else ws
        gs = np.exp(gs) if logg else gs
        e = self.find(ti, tf, gs, ws)
        if e is None:
            e = Bg()
            e.key = (ti, tf, gs, ws)
            e.ts, e.t_eval, e.kw, e.calls = ts, t_eval, [], 0
            n = str(len(self.known))
            self.known.append(e)
            e.end, arrs = [], []
            for s, at0 in (('f', (1, 0)), ('g', (0, 1))):
                c = complex_real(h, s + n + ' end')
                y = h.tail(h.array(s + n, sample=(-1, 1)), c)
                dy = h.array('d' + s + n, sample=(-1, 1))
                if h.sym:
                    h.requires(y[0] == at0[0])
                    h.requires(dy[0] == at0[1])
                else:
                    y[0], dy[0] = at0
                e.end.append(c)
                arrs.append((y, dy, h.array(s + n + ' eval', sample=(-1, 1)), h.array('d' + s + n + ' eval', sample=(-1, 1))))
            e.f, e.g = arrs
            e.eval = (e.f[2], e.g[2])
        e.calls += 1
        e.kw.append(dict(kw))
        y, dy, ye, dye = [x0 * p + dx0 * q for p, q in zip(e.f, e.g)]
        r = dict(sol=y, dsol=dy, t=h.array('steps', sample=(0, 1)), types=h.array('types', sample=(0, 1)))
        if t_eval is not None:
            r.update(x_eval=ye, dx_eval=dye)
        return r


def by_contract(m, letter):
    """The equations and vacuum states of a mode (P16, P17) enter as what they are: functions of the wavenumber and the
    position in the background."""
    from ..sym import Sym, GEN
    from .. import term as tm

    def equation(tag):
        def f(self):
            a = [Sym(tm.uf('%s of %s' % (q, tag), self.k.t, GEN), True) for q in ('frequency', 'damping')]
            return tuple(x[self.idx_beg:self.idx_end + 1] for x in a)
        return f

    def ic(tag, vac):
        def f(self):
            from ..shim import num
            v = [Sym(tm.uf('%s %s %s' % (q, vac, tag), self.k.t, num(self.idx_beg).t)) for q in ('u', 'iu', 'du', 'idu')]
            return v[0] + 1j * v[1], v[2] + 1j * v[3]
        return f
    for tag in ('Scalar', 'Tensor'):
        c = getattr(m, tag + 'Mode' + letter)
        c.mukhanov_sasaki_frequency_damping = equation(tag)
        for vac in VACUA:
            setattr(c, 'get_vacuum_ic_' + vac, ic(tag, vac))


def positions(h, b, name, i, e):
    """The positions in the background table between which the mode is integrated."""
    if h.sym:
        out = []
        for v in e.key[:2]:
            t = v.t
            if t.k != 'elt' or t.a[0] != name:
                return None
            from ..sym import Sym
            from .. import term as tm
            out.append(Sym(t.a[1] if not isinstance(t.a[1], int) else tm.num(t.a[1])))
        return out
    w = [h.np.flatnonzero(b.x == v) for v in e.key[:2]]
    return [int(v[0]) for v in w] if all(v.size == 1 for v in w) else None


def mk(kind):
    mod, P = ('primpy.time.perturbations', 'PerturbationT') if kind == 'time' else ('primpy.efolds.perturbations', 'PerturbationN')

    def setup(h, many, vacuum, integer=False):
        np = h.np
        b = background(h, kind)
        logs = [np.log(b.H[0]) + 0 if h.sym else max(min(b._logaH), -3) + d for d in (0.5, 3, 4.2)]
        if h.sym:
            k = h.array('k', integer=integer) if many else h.real('k', 0)
            if many:
                h.everywhere(k > 0)
        else:
            k = np.array([np.exp(l + h.real('d%d' % i, sample=(-3, 3))) for i, l in enumerate(logs)]) if many else \
                float(np.exp(logs[0] + h.real('d', sample=(-3, 3))))
            if integer:
                k = np.maximum(1, np.round(k)).astype(int) + np.array([0, 100, 200])
            h.requires(np.unique(k).size == np.size(k))     # the stand-in for oscode tells modes apart by their equations
        if h.sym:
            by_contract(h.module(mod), 'T' if kind == 'time' else 'N')
        o = Oscode(h)
        h.hook('pyoscode', o)
        return b, k, o

    def one(h, b, k, o, vacuum, fac_beg, fac_end, num_eval, n):
        """Obligations on the equations handed to oscode for the n-th wavenumber; the expected modes."""
        np = h.np
        es = o.known[2 * n:2 * n + 2]
        h.true('scalar and tensor modes are integrated', len(es) == 2)
        if len(es) != 2:
            return None
        pos = [positions(h, b, 't' if kind == 'time' else '_N', n, e) for e in es]
        h.true('integration runs between points of the background', pos[0] is not None and pos[1] is not None)
        if None in pos:
            return None
        (i, j), (i2, j2) = pos
        h.eq('both kinds of modes start at the same time', i2, i)
        h.eq('both kinds of modes end at the same time', j2, j)
        # where the evolution starts and ends
        lk = np.log(k)
        a = h.index('any%d' % n, b._N) if h.sym else None
        if fac_beg == 0 and not hasattr(fac_beg, 't'):
            h.eq('fac_beg = 0 starts immediately', i, 0)
        else:
            lb = np.log(fac_beg)
            if h.sym:
                h.true('no later point is before the requested start', (lk - b._logaH[a] <= lb) | (a <= i))
                h.true('starts at the latest point before the requested one', (i == 0) | (lk - b._logaH[i] > lb))
            else:
                late = np.flatnonzero(lk - b._logaH > lb)
                h.eq('starts at the latest point before the requested one', i, late[-1] if late.size else 0)
        le = np.log(fac_end)
        h.true('frozen at the end', b._logaH[j] - lk > le)
        h.true('at least ten e-folds', b._N[j] - b._N[i] >= 10)
        if h.sym:
            h.true('ends once frozen', (j <= a) | (b._logaH[a] - lk <= le) | (b._N[a] - b._N[i] <= 10))
        else:
            h.eq('ends once frozen', j, np.flatnonzero((b._logaH - lk > le) & (b._N - b._N[i] > 10))[0])
        # the equations are those of the modes
        kw = dict(vacuum=vacuum) if vacuum is not None else {}
        want = getattr(h.module(mod), P)(background=b, k=k, idx_beg=i, idx_end=j, num_eval=num_eval, **kw)
        for m, e, what in zip((want.scalar, want.tensor), es, ('scalar', 'tensor')):
            h.eq(what + ': independent variable', e.ts, b.x[i:j + 1])
            h.eq(what + ': frequency', e.key[3], m.ms_frequency)
            h.eq(what + ': damping', e.key[2], m.ms_damping)
            h.eq(what + ': two independent solutions', e.calls, 2)
            if num_eval:
                h.eq(what + ': dense output starts at the start', e.t_eval[0], b.x[i])
                h.eq(what + ': dense output ends at the end', e.t_eval[num_eval - 1], b.x[j])
                if not h.sym:
                    h.eq(what + ': points of dense output', e.t_eval.size, num_eval)
                    h.true(what + ': dense output is ordered', np.diff(e.t_eval) > 0)
            else:
                h.true(what + ': no dense output', e.t_eval is None)
        return want, es

    def check_options(h, es, kw):
        for e in es:
            for c in e.kw:
                h.eq('relative tolerance', c.get('rtol'), kw.get('rtol', h.frac(5, 10**5)))
                h.eq('even grid', c.get('even_grid', False), kw.get('even_grid', False))

    def norm2(np, z):
        return z * np.conj(z)

    def expected(h, what, m, e, vac, k, at):
        np = h.np
        u, du = getattr(m, 'get_vacuum_ic_' + vac)()
        return k**3 / (2 * np.pi**2) * norm2(np, u * at[0] + du * at[1]) * (1 if what == 'scalar' else 2)

    def independent(h):
        y0 = [h.real('y0_%d' % i, sample=(-2, 2)) for i in range(4)]
        w = y0[0] * y0[3] - y0[1] * y0[2]
        h.requires(w * w > (0 if h.sym else 0.1))
        return y0

    @contract('P18', kind + '.single', 'primpy.oscode_solver.solve_oscode', samples=10, weight=4, timeout=400)
    def c(h):
        """One wavenumber: P = k^3/(2 pi^2) |u|^2 (twice that for tensors) for the solution u that starts in the vacuum."""
        np = h.np
        vacuum, num_eval, given, begin = h.choose('options', [
            (None, 0, {}, False), (('k', 'RST', 'HD'), 0, dict(rtol=0), True), (('HD', 'k'), 40, dict(rtol=0, even_grid=True), False),
            (('RST',), 7, dict(even_grid=True), True)])
        b, k, o = setup(h, False, vacuum)
        s = h.module('primpy.oscode_solver')
        fac_beg = h.real('fac_beg', 0, sample=(0.5, 30)) if begin else 0
        fac_end = h.real('fac_end', 0, sample=(5, 300))
        if not h.sym:
            fac_end **= h.real('power', 0, sample=(1, 2.5))
        kw = dict(given)
        if 'rtol' in kw:
            kw['rtol'] = h.real('rtol', 0, sample=(1e-6, 1e-4))
        y0 = dict(y0=independent(h)) if begin else {}
        freezes(h, b, k, fac_beg, fac_end)
        was, was_y0 = raw(h, b, RAW + ('N',)), list(y0.get('y0', ()))
        p = s.solve_oscode(b, k, vacuum=vacuum, fac_beg=fac_beg, fac_end=fac_end, num_eval=num_eval,
                           drop_closed_large_scales=False, **y0, **kw)
        kept(h, b, was)
        h.eq('the initial values are left alone', y0.get('y0', []), was_y0)
        r = one(h, b, k, o, vacuum, fac_beg, fac_end, num_eval, 0)
        if r is None:
            return
        want, es = r
        check_options(h, es, kw)
        for what, m, e, g, tag in zip(('scalar', 'tensor'), (want.scalar, want.tensor), es, (p.scalar, p.tensor), 'st'):
            for vac in vacuum or ('RST',):
                if vac == 'HD' and not h.sym and not np.isfinite(m.get_vacuum_ic_HD()[0]):
                    continue
                h.eq('%s spectrum: %s' % (what, vac), getattr(g, 'P_%s_%s' % (tag, vac)), expected(h, what, m, e, vac, k, e.end))
                if num_eval:
                    h.eq('%s dense output: %s' % (what, vac), getattr(g, 'P_%s_%s_eval' % (tag, vac)),
                         expected(h, what, m, e, vac, k, e.eval))
            if num_eval:
                # where the mode says its dense output is
                given_at = {'t_eval': b.t} if kind == 'time' else {'_N_eval': b._N, 'N_eval': b.N}
                for name, x in given_at.items():
                    points = getattr(g, name)
                    h.eq('%s dense output: %s starts at the start' % (what, name), points[0], x[m.idx_beg])
                    h.eq('%s dense output: %s ends at the end' % (what, name), points[num_eval - 1], x[m.idx_end])

    @contract('P18', kind + '.many', 'primpy.oscode_solver.solve_oscode', samples=10, weight=4, timeout=400)
    def c2(h):
        """Many wavenumbers: the spectra of each, at its place."""
        np = h.np
        vacuum, integer = h.choose('vacuum, whole wavenumbers', [(None, True), (('k', 'HD'), False)])
        b, k, o = setup(h, True, vacuum, integer)
        s = h.module('primpy.oscode_solver')
        for n in range(2 if h.sym else 3):
            freezes(h, b, k[at(h, n)], 0, 100)
        drop = h.choose('drop', [None, True, False])
        kw = dict(drop_closed_large_scales=drop) if drop is not None else {}
        was, was_k = raw(h, b, RAW + ('N',)), k + 0
        pps = s.solve_oscode(b, k, vacuum=vacuum, **kw)
        kept(h, b, was)
        h.eq('the given wavenumbers are left alone', k, was_k)
        h.eq('wavenumbers', pps.k, k)
        h.eq('wavenumbers in units of the pivot scale', pps.k_iMpc / h.module('primpy.parameters').K_STAR,
             k / np.exp(b._logaH_star))
        for n in range(2 if h.sym else 3):
            pos = at(h, n)
            r = one(h, b, k[pos], o, vacuum, 0, 100, 0, n)
            if r is None:
                return
            want, es = r
            check_options(h, es, {})
            for what, m, e, tag in zip(('scalar', 'tensor'), (want.scalar, want.tensor), es, 'st'):
                for vac in vacuum or ('RST',):
                    if vac == 'HD' and not h.sym and not np.isfinite(m.get_vacuum_ic_HD()[0]):
                        continue
                    got = getattr(pps, 'P_%s_%s' % (tag, vac))[pos]
                    if b.K == 1 and bool(k[pos] < 1) and drop is not False:
                        if what == 'scalar':
                            h.eq('spectra of large scales are dropped: ' + vac, got, h.frac(1, 10**30))
                        continue
                    h.eq('%s spectrum: %s' % (what, vac), got, expected(h, what, m, e, vac, k[pos], e.end))


def at(h, n):
    """The n-th wavenumber (symbolically: of two arbitrary ones)."""
    if not h.sym:
        return n
    from ..sym import Sym
    from .. import term as tm
    return Sym(tm.sym('#it%d' % (n + 1)))


def freezes(h, b, k, fac_beg, fac_end):
    """The table is long enough: at some point the mode is frozen, more than ten e-folds after any point which may be its start."""
    lk = h.np.log(k)
    if h.sym:
        from ..sym import SymMask
        from .. import term as tm
        latest = h.real('latest start %s' % tm.show(lk.t))
        j = h.index('frozen %s' % tm.show(lk.t), b._N)
        h.requires(b._logaH[j] - lk > h.np.log(fac_end))
        h.requires(b._N[j] - latest > 10)
        h.requires(b._N[0] <= latest)
        if fac_beg != 0:
            early = lk - b._logaH > h.np.log(fac_beg)
            h.everywhere(SymMask(tm.bor(tm.bnot(early.t), (b._N <= latest).t)))
        return
    np = h.np
    late = np.flatnonzero(lk - b._logaH > np.log(fac_beg)) if fac_beg else np.array([0])
    first = late[-1] if late.size else 0
    h.requires(np.any((b._logaH - lk > np.log(fac_end)) & (b._N - b._N[first] > 10)))


for kind in KINDS:
    mk(kind)
