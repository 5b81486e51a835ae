"""P04: slow-roll conversions: end of inflation, field <-> e-folds, tilt and tensor ratio <-> e-folds, amplitude <-> Lambda."""
from ..harness import contract
from . import hist
from .pots import POTS, FEATS, elementwise

ALL = list(POTS.items())
CLOSED = ('Monomial', 'Linear', 'Quadratic', 'Cubic', 'Quartic', 'Starobinsky', 'Natural', 'DoubleWell2', 'Tmodel',
          'RadionGauge2')
ROOTS = ('DoubleWell', 'DoubleWell4', 'RadionGauge')
TABLE = ('DoubleWell', 'DoubleWell2', 'DoubleWell4')


def branch(h, q, x):
    """the branch that inflation rolls down, taken as the positive one"""
    h.true('phi_end is positive', x > 0)
    if 'phi0' in q:
        h.true('phi_end lies before the maximum', x < q['phi0'])


def field(h, P, q):
    """A field value on the branch."""
    if 'phi0' in q:
        return h.real('f', 0, 1, sample=(0.1, 0.95)) * q['phi0']
    return h.real('phi', 0, sample=(0.5, 5))


def mk(name, P):
    @contract('P04', 'end of inflation.' + name, 'primpy.potentials.%s.phi_end' % P.cls)
    def c(h):
        pot, q, L = P.make(h)
        x = pot.phi_end
        branch(h, q, x)
        h.eq('e1V(phi_end) = 1', pot.get_epsilon_1V(x), 1)

    @contract('P04', 'phi to e-folds.' + name, 'primpy.potentials.%s.sr_phi2N' % P.cls)
    def c2(h):
        pot, q, L = P.make(h)
        h.eq('no e-folds remain at the end of inflation', 1 + pot.sr_phi2N(pot.phi_end), 1)
        if 'phi0' in q:
            if h.sym:
                x = h.real('phi', 0, q['phi0'])
            else:
                x = h.real('phi', sample=(0.1 * q['phi0'], 0.95 * q['phi0']))
        else:
            x = h.real('phi', 0, sample=(0.5, 5))
        h.eq('dN/dphi = V/V\' (slow roll)', h.D(pot.sr_phi2N, x) * pot.dV(x), pot.V(x))

        if not h.sym and 'phi0' in q:
            xs = h.array('phis', sample=(0.1 * q['phi0'], 0.95 * q['phi0']))
        else:
            xs = h.array('phis', sample=(0.5, 5))
        h.everywhere(xs > 0)
        if 'phi0' in q:
            h.everywhere(xs < q['phi0'])
        elementwise(h, 'sr_phi2N', pot.sr_phi2N, xs)

    if name in TABLE:
        return

    @contract('P04', 'e-folds to phi.' + name, 'primpy.potentials.%s.sr_N2phi' % P.cls)
    def c3(h):
        pot, q, L = P.make(h)
        if name == 'RadionGauge2':      # against the contract of phi_end (any positive value), not its body
            xe = h.real('phi_end', 0, sample=(0.5, 2))
            pot = type('Any', (type(pot),), dict(phi_end=property(lambda self: xe)))(Lambda=L, **q)
        N = h.real('N', 0, sample=(0.3, 60))
        if not h.sym and 'phi0' in q:
            h.requires(N < q['phi0']**2 / 2)
        x = pot.sr_N2phi(N)
        h.eq('sr_phi2N(sr_N2phi(N)) = N', pot.sr_phi2N(x), N)
        if name == 'Starobinsky':
            h.le('sr_N2phi is on the branch', 1, h.np.exp(h.np.sqrt(h.frac(2, 3)) * x))
        else:
            h.true('sr_N2phi is on the branch', x > 0)
        if 'phi0' in q:
            h.true('sr_N2phi lies before the maximum', x < q['phi0'])
        if name == 'RadionGauge':       # searches for one value at a time
            return
        Ns = h.array('Ns', sample=(0.3, 60) if h.sym or 'phi0' not in q else (0.05, q['phi0']**2 / 2))
        h.everywhere(Ns > 0)
        elementwise(h, 'sr_N2phi', pot.sr_N2phi, Ns)


for name, P in ALL:
    mk(name, P)


def table(name, P):
    @contract('P04', 'e-folds to phi.' + name, 'primpy.potentials.%s.sr_N2phi' % P.cls, tol=3e-4)
    def c(h):
        pot, q, L = P.make(h)
        if h.sym:
            N = h.real('N', 0)
        else:
            x = h.real('f', 0, 1, sample=(0.05, 0.9)) * q['phi0']
            N = pot.sr_phi2N(x)
        got = pot.sr_N2phi(N)
        if h.sym:
            tabs = [v for k, v in h.record.calls if k == 'interp1d']
            h.true('one table is looked up', len(tabs) == 1)
            h.eq('each entry pairs a field with its e-folds', tabs[0].x, pot.sr_phi2N(tabs[0].y))
            h.eq('the table is read at N', got, tabs[0](N))
        else:
            h.eq('the table is read at N', pot.sr_phi2N(got), N, scale=1)


for name in TABLE:
    table(name, POTS[name])


# ------------------------------------------------------------ spectral index and tensor-to-scalar ratio
NS = ('Monomial', 'Linear', 'Quadratic', 'Cubic', 'Quartic', 'Starobinsky', 'Natural')


def tilt(name, P):
    @contract('P04', 'tilt and ratio.' + name, 'primpy.potentials.%s.sr_Nstar2ns/ns2Nstar/Nstar2r/r2Nstar' % P.cls)
    def c(h):
        pot, q, L = P.make(h)
        np = h.np
        kw = {k: v for k, v in q.items()}
        if name == 'Natural':           # N > 0, parametrised as N = f^2 ln(E)
            E = h.real('E', 1, sample=(1.5, 200))
            f2 = (q['phi0'] / np.pi)**2
            N = f2 * np.log(E)
        else:
            N = h.real('N', 0, sample=(5, 70))
        ns = pot.sr_Nstar2ns(N, **kw)
        r = pot.sr_Nstar2r(N, **kw)
        h.eq('ns2Nstar inverts Nstar2ns', pot.sr_ns2Nstar(ns, **kw), N)
        h.eq('r2Nstar inverts Nstar2r', pot.sr_r2Nstar(r, **kw), N)
        if name == 'Starobinsky':       # large-field relation N = (e^(g phi) - e^(g phi_end)) / (2 g^2)
            g = np.sqrt(h.frac(2, 3))
            x = np.log(1 + np.sqrt(2) * g + 2 * g**2 * N) / g
        else:
            x = pot.sr_N2phi(N)
        h.eq('r = 16 e1V', r, 16 * pot.get_epsilon_1V(x))
        p = q.get('p', {'Linear': 1, 'Cubic': 3, 'Quadratic': 2, 'Quartic': 4}.get(name, 1))
        lead = 2 * pot.get_epsilon_1V(x) + pot.get_epsilon_2V(x)
        h.le('n_s - 1 is at least as red as -2 e1V - e2V', lead, 1 - ns)
        if name == 'Natural':           # the bound in two steps: via M >= N
            M = (2 * f2 + 1) * (E - 1)
            h.le('the bound is at most 1/N', N, M)
            N, p = M, 1
        h.le('n_s - 1 is -2 e1V - e2V up to a relative 1/N', (1 - ns) * N, lead * (N + p))

    @contract('P04', 'tilt and ratio inverse.' + name, 'primpy.potentials.%s.sr_ns2Nstar/r2Nstar' % P.cls)
    def c2(h):
        pot, q, L = P.make(h)
        kw = dict(q)
        ns = h.real('n_s', 0, 1, sample=(0.9, 0.985))
        r = h.real('r', 0, 16, sample=(0.003, 0.2))
        if name == 'Natural':
            h.requires(q['phi0'] * h.np.sqrt(1 - ns) > h.np.pi)
        h.eq('Nstar2ns inverts ns2Nstar', pot.sr_Nstar2ns(pot.sr_ns2Nstar(ns, **kw), **kw), ns)
        h.eq('Nstar2r inverts r2Nstar', pot.sr_Nstar2r(pot.sr_r2Nstar(r, **kw), **kw), r)

    @contract('P04', 'tilt and ratio arrays.' + name, 'primpy.potentials.%s.sr_Nstar2ns/ns2Nstar/Nstar2r/r2Nstar (arrays)'
              % P.cls)
    def c3(h):
        pot, q, L = P.make(h)
        kw = dict(q)
        Ns, ns, rs = (h.array('Ns', sample=(5, 70)), h.array('n_ss', sample=(0.9, 0.985)),
                      h.array('rs', sample=(0.003, 0.2)))
        h.everywhere((Ns > 0) & (ns > 0) & (ns < 1) & (rs > 0) & (rs < 16))
        elementwise(h, 'sr_Nstar2ns', lambda x: pot.sr_Nstar2ns(x, **kw), Ns)
        elementwise(h, 'sr_Nstar2r', lambda x: pot.sr_Nstar2r(x, **kw), Ns)
        if name != 'Natural':           # takes one tilt at a time
            elementwise(h, 'sr_ns2Nstar', lambda x: pot.sr_ns2Nstar(x, **kw), ns)
        elementwise(h, 'sr_r2Nstar', lambda x: pot.sr_r2Nstar(x, **kw), rs)


for name in NS:
    tilt(name, POTS[name])


@contract('P04', 'natural inflation rejects impossible tilts', 'primpy.potentials.NaturalPotential.sr_ns2Nstar')
def c(h):
    pp = h.module('primpy.potentials')
    err = h.module('primpy.exceptionhandling').PrimpyError
    ns = h.real('n_s', 0, 1, sample=(0.8, 0.99))
    phi0 = h.real('phi0', 0, sample=(1, 9))
    h.requires(phi0 * h.np.sqrt(1 - ns) < h.np.pi)
    h.raises('too small phi0 for the tilt', err, lambda: pp.NaturalPotential.sr_ns2Nstar(ns, phi0=phi0))


# ------------------------------------------------------------ the deprecated conversions agree with the current ones
def deprecated(name, static):
    P = POTS[name]

    @contract('P04', 'phi2efolds.' + name, 'primpy.potentials.%s.phi2efolds' % P.cls)
    def c(h):
        pot, q, L = P.make(h)
        if 'phi0' in q:
            x = h.real('phi', 0, q['phi0'], sample=None if h.sym else (0.1 * q['phi0'], 0.95 * q['phi0']))
        else:
            x = h.real('phi', 0, sample=(0.5, 5))
        if name == 'DoubleWell4':       # phi_end_squared is under a contract of its own
            pp = h.module('primpy.potentials')
            x2 = h.real('x2', 0, sample=(0.2, 0.9))

            class Any(pp.DoubleWell4Potential):
                phi_end = property(lambda self: q['phi0'] - h.np.sqrt(x2))

                @staticmethod
                def phi_end_squared(phi0):
                    return x2
            h.requires(h.np.sqrt(x2) < q['phi0'])
            pot = Any(Lambda=L, **q)
        kw = dict(phi0=q['phi0']) if 'phi0' in q else {}
        h.clear_warnings()
        h.eq('agrees with sr_phi2N', pot.phi2efolds(x, **kw), pot.sr_phi2N(x))
        h.true('announces its deprecation', len(h.warned(DeprecationWarning)) == 1)


for name in ('Starobinsky', 'Natural', 'DoubleWell2', 'DoubleWell4'):
    deprecated(name, True)


@contract('P04', 'end of inflation closed form.DoubleWell4', 'primpy.potentials.DoubleWell4Potential.phi_end_squared')
def c(h):
    pp = h.module('primpy.potentials')
    phi0 = h.real('phi0', 0, sample=(2, 12))
    x = pp.DoubleWell4Potential.phi_end_squared(phi0=phi0)
    # e1V = 1: 32 x^3 = (phi0^4 - x^2)^2
    h.eq('e1V = 1', 32 * x**3, (phi0**4 - x**2)**2)


# ------------------------------------------------------------ amplitude of the potential from the amplitude of the spectrum
def amplitude(name, P):
    @contract('P04', 'amplitude.' + name, 'primpy.potentials.InflationaryPotential.sr_As2Lambda/__init__ (%s)' % P.cls,
              tol=1e-5)
    def c(h):
        pp = h.module('primpy.potentials')
        pw = h.module('primpy.exceptionhandling').PrimpyWarning
        pot, q, L = P.make(h)
        np = h.np
        A = h.real('A_s', 0, sample=(1e-9, 3e-9))
        how = h.choose('given', ['phi_star', 'N_star'])
        if how == 'phi_star':
            x = field(h, P, q)
            N = None
        else:
            N = h.real('N', 0, sample=(1, 5))
            if not h.sym and 'phi0' in q:
                h.requires(N < q['phi0']**2 / 8)
            x = None
        if name == 'Natural':
            h.requires(x is None or np.cos(np.pi * x / q['phi0']) != 1)
        L2, x2, N2 = pot.sr_As2Lambda(A_s=A, phi_star=x, N_star=N)
        if how == 'phi_star':
            h.eq('phi_star is passed on', x2, x)
            h.eq('N_star follows from phi_star', N2, pot.sr_phi2N(x))
        else:
            h.eq('N_star is passed on', N2, N)
            h.eq('phi_star follows from N_star', x2, pot.sr_N2phi(N))
        x = h.real('phi', 0, sample=(0.5, 5)) if h.sym else x2
        if h.sym and how == 'N_star':
            return
        x = x2
        cls = getattr(pp, P.cls)
        new = cls(Lambda=L2, **q)
        h.eq('A_s = V^3 / (12 pi^2 V\'^2) at phi_star', 12 * np.pi**2 * A * new.dV(x)**2, new.V(x)**3)
        h.clear_warnings()
        kw = {how: (x2 if how == 'phi_star' else N2)}
        auto = cls(A_s=A, **kw, **q)
        h.eq('constructing from A_s gives the same amplitude', auto.Lambda, L2)
        h.true('no warning', not h.warned(pw))
        both = cls(A_s=A, Lambda=h.real('Lambda2', 2, sample=(2, 3)), **kw, **q)
        h.true('a Lambda given alongside A_s is announced as ignored', len(h.warned(pw)) == 1)
        h.eq('a Lambda given alongside A_s is ignored', both.Lambda, L2)


for name, P in ALL:
    amplitude(name, P)


@contract('P04', 'amplitude arguments', 'primpy.potentials.InflationaryPotential.sr_As2Lambda/__init__')
def c(h):
    pp = h.module('primpy.potentials')
    err = h.module('primpy.exceptionhandling').PrimpyError
    A = h.real('A_s', 0, sample=(1e-9, 3e-9))
    x = h.real('phi', 0, sample=(3, 6))
    N = h.real('N', 0, sample=(40, 60))
    cls = getattr(pp, h.choose('class', ['StarobinskyPotential', 'QuadraticPotential', 'QuarticPotential']))
    h.raises('A_s alone is rejected', err, lambda: cls(A_s=A))
    h.raises('phi_star and N_star together are rejected', Exception, lambda: cls(A_s=A, phi_star=x, N_star=N))
    h.raises('unknown arguments are rejected', Exception, lambda: cls(Lambda=1, nonsense=2))
    h.eq('Lambda defaults to 1', cls().Lambda, 1)


for name, P in ALL:
    hist.end(name, P)
