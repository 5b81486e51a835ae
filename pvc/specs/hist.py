"""Answers do not depend on what was asked before: the code after an arbitrary history against the same code freshly imported."""
from ..harness import contract
from .bg import StubPotential, ycol, KINDS


class Other:
    """Inputs of the history: named apart, and when replayed close to those of the question (so that nearby ones are told apart)."""

    def __init__(self, h, like=None):
        self.h, self.like = h, like or {}

    def __getattr__(self, name):
        return getattr(self.h, name)

    def real(self, name, lo=None, hi=None, closed=False, sample=None):
        x = self.h.real('other_' + name, lo, hi, closed, sample)
        if not self.h.sym and name in self.like:
            return self.like[name] * (1 + 1e-4 * (x % 1))
        return x

    def pos(self, name, sample=(0.3, 2.5)):
        return self.real(name, 0, None, sample=sample)


def ask(f, *a, **k):
    """A question whose answer (or failure) does not matter."""
    try:
        return f(*a, **k)
    except (ValueError, AssertionError, ZeroDivisionError, AttributeError):
        return None


def neighbours(q, q2):
    """Parameters that share all but one with the question, and those that share none."""
    return [{**q, k: q2[k]} for k in q] + [q2]


def at(v, j):
    return v[j] if getattr(v, 'shape', ()) else v


def potential(prop, name, P, methods, x_of=None, arrays=True):
    @contract(prop, 'history.' + name, 'primpy.potentials.%s.%s' % (P.cls, '/'.join(methods)), samples=2)
    def c(h):
        q = P.params(h)
        L = h.real('Lambda', 0, sample=(0.5, 1.6))
        x = x_of(h, P, q, L) if x_of else P.phi(h, q)
        o = Other(h, {**q, 'Lambda': L, 'phi': x})
        q2 = P.params(o)
        L2 = o.real('Lambda', 0, sample=(0.5, 1.6))
        x2 = x_of(o, P, q2, L2) if x_of else P.phi(o, q2)
        if 'phi0' in q and not x_of:
            h.requires(x < q2['phi0'])
            h.requires(x2 < q['phi0'])
        m = h.module('primpy.potentials')
        others = [getattr(m, P.cls)(**p) for p in neighbours({**q, 'Lambda': L}, {**q2, 'Lambda': L2})]
        same = getattr(m, P.cls)(Lambda=L, **q)
        new = getattr(h.fresh()('primpy.potentials'), P.cls)(Lambda=L, **q)
        for f in methods:
            for other in others:
                for y in (x, x2):
                    ask(getattr(other, f), y)
            ask(getattr(same, f), x2)
        if arrays:
            xs = h.array('xs', sample=None if h.sym else (0.2, 0.9))
            h.everywhere(xs > 0)
            if 'phi0' in q:
                h.everywhere(xs < q['phi0'])
            ys = h.array('ys', sample=None if h.sym else (0.2, 0.9)) if h.sym else xs[::-1] + 0
            h.everywhere(ys > 0)
            if 'phi0' in q:
                h.everywhere(ys < q['phi0'])
        for f in methods:
            h.eq('%s does not depend on earlier questions' % f, getattr(same, f)(x), getattr(new, f)(x))
            if arrays:
                getattr(same, f)(ys)
                j = h.index('j', xs)
                h.eq('%s does not depend on earlier arrays' % f, at(getattr(same, f)(xs), j), at(getattr(new, f)(xs), j))


def end(name, P):
    """The conversions through the end of inflation (a number found once for each potential)."""
    @contract('P04', 'history.' + name, 'primpy.potentials.%s.phi_end/sr_phi2N' % P.cls, samples=2)
    def c(h):
        q = P.params(h)
        L = h.real('Lambda', 0, sample=(0.5, 1.6))
        o = Other(h, {**q, 'Lambda': L})
        q2 = P.params(o)
        m = h.module('primpy.potentials')
        L2 = o.real('Lambda', 0, sample=(0.5, 1.6))
        for p in neighbours({**q, 'Lambda': L}, {**q2, 'Lambda': L2}):
            other = getattr(m, P.cls)(**p)
            other.sr_phi2N(other.phi_end)
        same = getattr(m, P.cls)(Lambda=L, **q)
        x = same.phi_end
        h.eq('e1V(phi_end) = 1 after another potential was asked', same.get_epsilon_1V(x), 1)
        h.eq('no e-folds remain at the end after another potential was asked', 1 + same.sr_phi2N(x), 1)


def equations(prop, kind, methods):
    mod, cls = ('primpy.time.inflation', 'InflationEquationsT') if kind == 'time' else \
        ('primpy.efolds.inflation', 'InflationEquationsN')

    @contract(prop, 'history.' + kind, '%s.%s.%s' % (mod, cls, '/'.join(methods)), samples=6)
    def c(h):
        K = h.choose('K', [0, 1, -1])
        pot = StubPotential(h)
        make = lambda get: getattr(get(mod), cls)(K=K, potential=pot)
        eq, new = make(h.module), make(h.fresh())
        other = getattr(h.module(mod), cls)(K=1 if K == 0 else 0, potential=pot)

        def st(i):
            s = dict(phi=h.real('phi%s' % i, sample=(-1, 1)), _N=h.real('N%s' % i, sample=(0.6, 2.5)))
            s['dphidt' if kind == 'time' else 'dphidN'] = h.real('dphi%s' % i, sample=(-2, 2))
            return s
        s, s2 = st(''), st('2')
        x = h.real('t', sample=(0, 3)) if kind == 'time' else s['_N']
        # histories that share all but one variable with the question, and one that shares none
        hs = [{**s, k: s2[k]} for k in s if k in eq.idx] + [s2]
        for z in [s] + hs:
            V = pot.V(z['phi'])
            h.requires(V > 0)
            if kind == 'time':
                h.requires((z['dphidt']**2 / 2 + V) / 3 - h.np.exp(-2 * z['_N']) > 0)
            else:
                h.requires(6 - z['dphidN']**2 > 0)
                h.requires(V - 3 * h.np.exp(-2 * z['_N']) > 0)
                h.requires(V - 3 * h.np.exp(-2 * s['_N']) > 0)
        y = ycol(h, eq, s)
        for f in methods:
            for z in hs:
                getattr(eq, f)(x, ycol(h, eq, z))
            getattr(other, f)(x, y)
            got, want = getattr(eq, f)(x, y), getattr(new, f)(x, y)
            h.eq('%s does not depend on earlier questions' % f, list(got) if f == '__call__' else got,
                 list(want) if f == '__call__' else want)


def static(prop, kind, table):
    mod, cls = ('primpy.time.inflation', 'InflationEquationsT') if kind == 'time' else \
        ('primpy.efolds.inflation', 'InflationEquationsN')

    @contract(prop, 'history.getters.' + kind, '%s.%s (getters)' % (mod, cls), samples=2)
    def c(h):
        eq, new = getattr(h.module(mod), cls), getattr(h.fresh()(mod), cls)
        names = sorted({a for _, args, _ in table for a in args.split()})
        v = {a: h.choose('K', [0, 1, -1]) if a == 'K' else h.real(a, 0, sample=(0.5, 2)) for a in names}
        w = {a: 1 - abs(v[a]) if a == 'K' else h.real(a + '2', 0, sample=(0.5, 2)) for a in names}
        for z in (v, w):
            for a in z:
                if a != 'K':
                    h.requires(z[a] > 0)
        for name, args, kw in table:
            k = {a: v[a] for a in args.split()}
            for a in k:
                getattr(eq, name)(**{**k, a: w[a]}, **kw)
            h.eq('%s%s does not depend on earlier questions' % (name, ' (%s)' % kw['kind'] if 'kind' in kw else ''),
                 getattr(eq, name)(**k, **kw), getattr(new, name)(**k, **kw))


def events(kind):
    mod, cls = ('primpy.time.inflation', 'InflationEquationsT') if kind == 'time' else \
        ('primpy.efolds.inflation', 'InflationEquationsN')

    @contract('P09', 'history.' + kind, 'primpy.events.*.__call__', samples=12)
    def c(h):
        K = h.choose('K', [0, 1])
        pot = StubPotential(h)
        opt = {} if kind == 'time' else {'track_time': True}
        get, new = h.module, h.fresh()
        s, s2 = [dict(phi=h.real('phi%s' % i, sample=(-1, 1)), _N=h.real('N%s' % i, sample=(0.6, 2.5)),
                      t=h.real('t%s' % i, sample=(0, 1)),
                      **{'dphidt' if kind == 'time' else 'dphidN': h.real('dphi%s' % i, sample=(-2, 2))}) for i in ('', '2')]
        for z in (s, s2):
            V = pot.V(z['phi'])
            h.requires(V > 0)
            for N in (s['_N'], s2['_N']):
                if kind == 'time':
                    h.requires((z['dphidt']**2 / 2 + V) / 3 - h.np.exp(-2 * N) > 0)
                else:
                    h.requires(6 - z['dphidN']**2 > 0)
                    h.requires(V - 3 * h.np.exp(-2 * N) > 0)
        v, v2 = h.real('value', 0, sample=(0.5, 1)), h.real('value2', 0, sample=(0.5, 1))
        xs = [z['t'] if kind == 'time' else z['_N'] for z in (s, s2)]

        def make(get):
            m, eq = get('primpy.events'), getattr(get(mod), cls)(K=K, potential=pot, **opt)
            out = {}
            for name, e in (('UntilT', lambda v: m.UntilTEvent(eq, v)), ('UntilN', lambda v: m.UntilNEvent(eq, v)),
                            ('Inflation', lambda v: m.InflationEvent(eq, +1, value=v)),
                            ('Inflation started here', lambda v: m.InflationEvent(eq, +1, t_i=xs[0])),
                            ('AfterInflationEnd', lambda v: m.AfterInflationEndEvent(eq, value=v)),
                            ('Collapse', lambda v: m.CollapseEvent(eq, value=v)), ('Phi0', lambda v: m.Phi0Event(eq, value=v)),
                            ('ModeExit', lambda v: m.ModeExitEvent(eq, v))):
                out[name] = e
            return eq, out
        (eq, old), (_, anew) = make(get), make(new)
        y, y2 = ycol(h, eq, s), ycol(h, eq, s2)
        for name in old:
            e, o = old[name](v), old[name](v2)
            for x_, y_ in ((xs[0], y2), (xs[1], y2), (xs[1], y), (xs[0], y)):
                o(x_, y_)
                e(x_, y_)
            h.eq(name + ' does not depend on earlier questions', e(xs[0], y), anew[name](v)(xs[0], y))


def big_bang():
    for f, args, units in (('get_H0', 'h', ('planck', 'SI', 'H0')), ('get_a0', 'h Omega_K0', ('planck', 'SI', 'Mpc')),
                           ('Hubble_parameter', 'N Omega_m0 Omega_K0 h', ('planck', 'SI', 'H0')),
                           ('comoving_Hubble_horizon', 'N Omega_m0 Omega_K0 h', ('planck', 'SI', 'Mpc')),
                           ('get_N_BBN', 'h Omega_K0', None), ('get_Omega_r0', 'h', None), ('get_rho_crit_kg_im3', 'h', None),
                           ('no_Big_Bang_line', 'Omega_m0', None), ('expand_recollapse_line', 'Omega_m0', None)):
        universe(f, args.split(), units)


def universe(f, names, units):
    @contract('P15', 'history.' + f, 'primpy.bigbang.' + f, samples=20)
    def c(h):
        ranges = dict(N=(-3, 3), Omega_m0=(0.2, 0.4), Omega_K0=(0.02, 0.2), h=(0.5, 1))
        a, o = [{n: h.real(n + i, None if n == 'N' else 0, 1 if n == 'Omega_m0' else None, sample=ranges[n]) for n in names}
                for i in ('', '2')]
        for z in (a, o):
            if 'Omega_K0' in z:
                z['Omega_K0'] = z['Omega_K0'] * h.choose('sign' + ('2' if z is o else ''), [1, -1])
        m, new = h.module('primpy.bigbang'), h.fresh()('primpy.bigbang')
        other = h.choose('differs', names + (['units'] if units else []))
        b = {**a, other: o[other]} if other != 'units' else a
        if 'Omega_m0' in names and 'Omega_K0' in names:
            if h.sym:                   # their contracts are their own
                lines = {n: h.func(n) for n in ('no_Big_Bang_line', 'expand_recollapse_line')}
                for x in (m, new):
                    x.no_Big_Bang_line = lambda Omega_m0: lines['no_Big_Bang_line'](Omega_m0)
                    x.expand_recollapse_line = lambda Omega_m0: lines['expand_recollapse_line'](Omega_m0)
            for z in (a, b):
                OL = 1 - new.get_Omega_r0(z['h']) - z['Omega_m0'] - z['Omega_K0']
                h.requires(OL <= new.no_Big_Bang_line(z['Omega_m0']))
                h.requires(OL >= new.expand_recollapse_line(z['Omega_m0']))
        kw = [{}] if units is None else [dict(units=x) for x in units]
        ask(getattr(m, f), **b, **kw[-1 if other == 'units' else 0])
        h.eq(f + ' does not depend on earlier questions', getattr(m, f)(**a, **kw[0]), getattr(new, f)(**a, **kw[0]))


def modes(prop, kind):
    from .p16 import background
    mod = 'primpy.time.perturbations' if kind == 'time' else 'primpy.efolds.perturbations'
    classes = ('ScalarModeT', 'TensorModeT') if kind == 'time' else ('ScalarModeN', 'TensorModeN')
    for j, what in ((0, 'scalar'), (1, 'tensor')):
        @contract(prop, 'history.%s.%s' % (kind, what), '%s.%s' % (mod, classes[j]), samples=8)
        def c(h, j=j):
            b = background(h, kind)
            k, k2 = h.real('k', 0, sample=(3, 8)), h.real('k2', 0, sample=(3, 8))
            i, i2 = h.index('start', b._N), h.index('start2', b._N)
            for n in (i, i2):
                h.requires(b.H[n] > 0)
                h.requires(b.p[n] != 0)
            cls, new = getattr(h.module(mod), classes[j]), getattr(h.fresh()(mod), classes[j])
            for z, n in ((k2, i), (k, i2), (k2, i2)):
                o = cls(b, z, idx_beg=n)
                for vac in ('k', 'RST'):
                    getattr(o, 'get_vacuum_ic_' + vac)()
            # the same fields of a background nothing was asked of yet
            c_ = type(b)()
            vars(c_).update({n: x for n, x in vars(b).items() if n in known})
            m, f = cls(b, k, idx_beg=i), new(c_, k, idx_beg=i)
            if prop == 'P16':
                h.eq('the frequency does not depend on earlier modes', m.ms_frequency**2, f.ms_frequency**2)
                h.eq('the damping does not depend on earlier modes', m.ms_damping, f.ms_damping)
            else:
                for vac in ('k', 'RST'):
                    h.eq(vac + ': the vacuum does not depend on earlier modes', list(getattr(m, 'get_vacuum_ic_' + vac)()),
                         list(getattr(f, 'get_vacuum_ic_' + vac)()))


known = ('K', 'potential', '_N', 'phi', 'H', 'p', 'dphidt', 'dphidN', 'H2', 'Omega_K', 't', 'x', 'N', '_logaH', 'independent_variable')


def theories(cls, module, names):
    @contract('P20', 'history.' + cls, 'cobaya_wrapper.%s.%s.calculate' % (module, cls), samples=12)
    def c(h):
        def params(i):
            a = dict(A_s=h.pos('A_s' + i, sample=(1e-9, 3e-9)), n_s=h.real('n_s' + i, sample=(0.9, 1.1)),
                     n_run=h.real('n_run' + i, sample=(-0.02, 0.02)), r=h.pos('r' + i, sample=(0.01, 0.1)))
            a.update({n: h.pos(n + i, sample=(0.05, 0.5)) for n in names})
            return a
        a, b = params(''), params('2')
        drop = h.choose('differs', list(a) + ['nothing given'])
        b = {**a, drop: b[drop]} if drop in a else {**b, 'n_t': h.real('n_t', sample=(-0.1, 0.1)),
                                                     'n_t_run': h.real('n_t_run', sample=(-0.1, 0.1))}
        if drop == 'nothing given':         # fewer parameters than the time before
            a.pop('n_run')

        def make(get):
            t = getattr(get('cobaya_wrapper.' + module), cls)()
            t.initialize()
            return t
        t, new = make(h.module), make(h.fresh())
        t.calculate({}, **b)
        make(h.module).calculate({}, **b)
        got, want = {}, {}
        t.calculate(got, **a)
        new.calculate(want, **a)
        for what in ('scalar', 'tensor'):
            k = 'primordial_%s_pk' % what
            h.eq('the %s spectrum does not depend on earlier parameters' % what, got[k]['Pk'], want[k]['Pk'])


def initial(kind, cls):
    mod, eqc = ('primpy.time.inflation', 'InflationEquationsT') if kind == 'time' else \
        ('primpy.efolds.inflation', 'InflationEquationsN')

    @contract('P10', 'history.%s.%s' % (kind, cls), 'primpy.initialconditions.' + cls, samples=10)
    def c(h):
        K = h.choose('K', [0, 1, -1])
        pot = StubPotential(h)
        a = dict(phi_i=h.real('phi', sample=(-1, 1)), N_i=h.real('N', sample=(0.8, 2)), t_i=h.real('t', sample=(0, 1)),
                 x_end=h.real('x_end', sample=(5, 9)))
        o = dict(phi_i=h.real('phi2', sample=(-1, 1)), N_i=h.real('N2', sample=(0.8, 2)), t_i=h.real('t2', sample=(0, 1)),
                 x_end=h.real('x_end2', sample=(5, 9)))
        other = h.choose('differs', list(a))
        b = {**a, other: o[other]}
        for z in (a, b):
            h.requires(pot.V(z['phi_i']) > 0)
            h.requires(pot.V(z['phi_i']) / 3 - h.np.exp(-2 * z['N_i']) > 0)

        def state(get, z):
            eq = getattr(get(mod), eqc)(K=K, potential=pot)
            ic = getattr(get('primpy.initialconditions'), cls)(eq, **z)
            y0 = h.np.zeros(len(eq.idx))
            ic(y0)
            return ic, [y0[i] for i in range(len(eq.idx))] + [ic.x_ini, ic.x_end, ic.H_i, ic.Omega_Ki], y0
        state(h.module, b)
        ic, got, y0 = state(h.module, a)
        h.eq('the start does not depend on earlier universes', got, state(h.fresh(), a)[1])
        for i in range(len(y0)):
            y0[i] = -7
        ic(y0)
        h.eq('the same start twice', [y0[i] for i in range(len(y0))], got[:len(y0)])
