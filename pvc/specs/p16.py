"""P16: frequency and damping of the Mukhanov-Sasaki equations follow from the perturbed Einstein equations."""
from ..harness import contract
from . import hist
from .bg import StubPotential, KINDS


class Bg:
    pass


def background(h, kind, K=None, n=1):
    """A solved background at an arbitrary point of the table (arrays; symbolically the generic element)."""
    np = h.np
    b = Bg()
    b.K = h.choose('K', [0, 1, -1]) if K is None else K
    b.potential = StubPotential(h)
    b._N = h.array('_N', sample=(0.6, 2.5))
    b.phi = h.array('phi', sample=(-1, 1))
    # the Friedmann equation only fixes the constant in V, which the modes do not see: H is arbitrary
    b.H = h.array('H', sample=(0.4, 1.5))
    b.p = h.array('dphidt', sample=(0.3, 2.2))
    h.requires(each(h, b.H > 0))
    h.requires(each(h, b.p != 0))
    b.dphidt = b.p + 0
    b.dphidN = b.p / b.H
    b.H2 = b.H**2
    a2 = np.exp(-2 * b._N)
    b.Omega_K = -b.K * a2 / b.H2
    b.t = h.array('t', sample=(1, 2))
    b.x = b.t if kind == 'time' else b._N
    b.N = b._N + h.real('delta_N')
    b._logaH = b._N + np.log(b.H)
    b.independent_variable = 't' if kind == 'time' else '_N'
    b.table = {name: (x, x + 0) for name, x in vars(b).items()
               if name in ('_N', 'phi', 'H', 'dphidt', 'dphidN', 'H2', 'Omega_K', 't', 'x', 'N', '_logaH')}
    return b


def untouched(h, b):
    for name, (x, was) in b.table.items():
        h.eq('the background keeps its ' + name, x, was)


def each(h, cond):
    """Elementwise: at the arbitrary element symbolically, at all elements numerically."""
    if not h.sym:
        return cond
    from ..sym import SymBool
    return SymBool(cond.t)


def twice(h, R, rates, at):
    """R and its first and second rate of change at the given state (arrays)."""
    if not h.sym:
        def dR(*x):
            return h.along(R, list(x), rates(*x))
        return R(*at), dR(*at), h.along(dR, at, rates(*at))
    from ..sym import Sym, wrap
    from .. import term as tm
    x = [Sym(tm.sym('o%d' % i)) for i in range(len(at))]
    r0, r1 = R(*x), h.along(R, x, rates(*x))
    r2 = h.along(lambda *a: r1, x, rates(*x))
    put = {s.t: v.t for s, v in zip(x, at)}
    return [wrap(tm.subst(r.t, put), *at) for r in (r0, r1, r2)]


def modes(h, kind):
    m = h.module('primpy.time.perturbations' if kind == 'time' else 'primpy.efolds.perturbations')
    return (m.ScalarModeT, m.TensorModeT) if kind == 'time' else (m.ScalarModeN, m.TensorModeN)


def wavenumber(h, K):
    return h.real('k', 0, sample=(1.5, 6) if K == 1 else (0.1, 6))


def defined(h, m):
    """Where the squared frequency is negative anywhere on the table, the frequency is complex, never NaN (a statement about
    floating point: replayed only)."""
    if not h.sym:
        h.true('the frequency is defined', h.np.isfinite(m.ms_frequency))
        h.true('the damping is defined', h.np.isfinite(m.ms_damping) & h.np.isreal(m.ms_damping))


def on(h, m, x):
    """The part of the table the mode was set up on."""
    return x[m.idx_beg:m.idx_end + 1]


def mk(kind):
    name = 'primpy.%s.perturbations.' % kind
    S, T = ('ScalarModeT', 'TensorModeT') if kind == 'time' else ('ScalarModeN', 'TensorModeN')

    @contract('P16', kind + '.scalar', name + S + '.mukhanov_sasaki_frequency_damping', samples=10, tol=2e-4, weight=3)
    def c(h):
        """Oracle: the Newtonian potential Phi of scalar perturbations in a curved FLRW universe,
             Phi'' + 2 (aH - phi''/phi') Phi' + [kc^2 + 2 (aH)' - 2 aH phi''/phi' - 4 K] Phi = 0   (conformal time),
           kc^2 the eigenvalue of minus the Laplacian, and R = Phi + 2 H (dPhi/dt + H Phi) / (dphi/dt)^2."""
        np = h.np
        b = background(h, kind)
        K, k = b.K, wavenumber(h, b.K)
        m = modes(h, kind)[0](b, k)
        w, d = m.ms_frequency, m.ms_damping
        defined(h, m)
        N, H, p, phi = (on(h, m, x) for x in (b._N, b.H, b.p, b.phi))
        kc2 = k**2 + k * K * (K + 1)
        Phi, P = h.real('Phi', sample=(-1, 1)), h.real('dPhi', sample=(-1, 1))
        if not h.sym:
            Phi, P = Phi + 0 * N, P + 0 * N

        def rates(N, H, p, phi, Phi, P):
            a2 = np.exp(-2 * N)
            dp = -3 * H * p - b.potential.dV(phi)
            dH = -p**2 / 2 + K * a2
            dP = -(H - 2 * dp / p) * P - (kc2 * a2 + 2 * dH - 2 * H * dp / p - 4 * K * a2) * Phi
            r = [H, dH, dp, p, P, dP]
            return r if kind == 'time' else [x / H for x in r]

        def R(N, H, p, phi, Phi, P):
            return Phi + 2 * H * (P + H * Phi) / p**2
        at = [N, H, p, phi, Phi, P]
        r0, r1, r2 = twice(h, R, rates, at)
        h.eq('R satisfies the equation of the mode', r2 + 2 * d * r1, -w**2 * r0,
             scale=0 if h.sym else np.abs(r2) + np.abs(d * r1) + np.abs(w**2 * r0) + np.abs(Phi) + np.abs(P))
        untouched(h, b)

    @contract('P16', kind + '.tensor', name + T + '.mukhanov_sasaki_frequency_damping', samples=6)
    def c2(h):
        """h'' + 2 aH h' + (kc^2 + 2 K) h = 0 in conformal time."""
        np = h.np
        b = background(h, kind)
        K, k = b.K, wavenumber(h, b.K)
        m = modes(h, kind)[1](b, k)
        defined(h, m)
        N, H, p = (on(h, m, x) for x in (b._N, b.H, b.p))
        k2 = (k**2 + k * K * (K + 1) + 2 * K) * np.exp(-2 * N)
        dH = -p**2 / 2 + K * np.exp(-2 * N)
        h.eq('frequency', m.ms_frequency**2, k2 if kind == 'time' else k2 / H**2)
        h.eq('damping', 2 * m.ms_damping, 3 * H if kind == 'time' else 3 + dH / H**2, scale=1)
        untouched(h, b)

    @contract('P16', kind + '.flat scalar', name + S + '.mukhanov_sasaki_frequency_damping', samples=6)
    def c3(h):
        """In flat space R'' + 2 z'/z R' + k^2 R = 0, z = a dphi/dN."""
        np = h.np
        b = background(h, kind, 0)
        k = wavenumber(h, 0)
        m = modes(h, kind)[0](b, k)
        N, H, p, phi = (on(h, m, x) for x in (b._N, b.H, b.p, b.phi))
        dp = -3 * H * p - b.potential.dV(phi)
        dH = -p**2 / 2
        z = H + dp / p - dH / H                       # dln(z)/dt
        h.eq('frequency', m.ms_frequency**2, k**2 * np.exp(-2 * N) / (1 if kind == 'time' else H**2))
        h.eq('damping', 2 * m.ms_damping, 2 * z + H if kind == 'time' else (2 * z + H + dH / H) / H, scale=1)


for kind in KINDS:
    mk(kind)


@contract('P16', 'time and e-folds agree', 'primpy.time/efolds.perturbations', samples=6)
def c(h):
    """Changing the independent variable from t to N turns one equation into the other."""
    np = h.np
    b = background(h, h.choose('given', KINDS))
    k = wavenumber(h, b.K)
    if h.sym:
        h.requires(b.K * b.K <= 1)
    for i, what in ((0, 'scalar'), (1, 'tensor')):
        t, n = modes(h, 'time')[i](b, k), modes(h, 'efolds')[i](b, k)
        N, H, p = (on(h, t, x) for x in (b._N, b.H, b.p))
        dH_H2 = (-p**2 / 2 + b.K * np.exp(-2 * N)) / H**2
        h.eq(what + ': frequency', n.ms_frequency**2 * H**2, t.ms_frequency**2)
        h.eq(what + ': damping', 2 * n.ms_damping * H, 2 * t.ms_damping + dH_H2 * H, scale=1)


for kind in KINDS:
    hist.modes('P16', kind)
