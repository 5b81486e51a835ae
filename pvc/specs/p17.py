"""P17: vacuum initial conditions are normalised and minimise what defines them."""
from ..harness import contract
from . import hist
from .bg import KINDS
from .p16 import background, modes, wavenumber, untouched

VACUA = ['k', 'HD', 'RST']


def start(h, b):
    i = h.index('start', b._N)
    h.requires(b.H[i] > 0)
    h.requires(b.p[i] != 0)
    return i


def point(h, b, m):
    """(N, H, dphi/dt, phi) where the mode starts"""
    i = m.idx_beg
    return b._N[i], b.H[i], b.p[i], b.phi[i]


def rates(b, K, np):
    """Evolution of (N, H, dphi/dt, phi) in cosmic time."""
    def f(N, H, p, phi):
        return [H, -p**2 / 2 + K * np.exp(-2 * N), -3 * H * p - b.potential.dV(phi), p]
    return f


def mk(kind):
    name = 'primpy.%s.perturbations.' % kind
    cl = ('ScalarModeT', 'TensorModeT') if kind == 'time' else ('ScalarModeN', 'TensorModeN')

    for j, what in ((0, 'scalar'), (1, 'tensor')):
        @contract('P17', kind + '.' + what, name + cl[j] + '.get_vacuum_ic_k/HD/RST', samples=12, tol=1e-5, weight=2)
        def c(h, j=j):
            np = h.np
            b = background(h, kind)
            K, k = b.K, h.real('k', 0, sample=(3, 8))
            i = start(h, b)
            m = modes(h, kind)[j](b, k, idx_beg=i)
            N, H, p, phi = point(h, b, m)
            a = np.exp(N)
            per = 1 if kind == 'time' else H         # turns a rate of the independent variable into a time rate
            z, dz, d2z = canonical(h, b, j, [N, H, p, phi])
            w2 = k**2 - d2z / z
            for vac in VACUA:
                if vac == 'HD' and not bool(w2 > (0 if h.sym else 0.2 * k**2)):
                    continue
                u, du = getattr(m, 'get_vacuum_ic_' + vac)()
                du = du * per * a                     # in conformal time
                # Wronskian of v = z u: v v'* - v* v' = i
                h.eq(vac + ': normalisation', z**2 * (u * np.conj(du) - np.conj(u) * du), 1j)
                om = {'k': k, 'RST': k, 'HD': np.sqrt(w2)}[vac]
                h.eq(vac + ': amplitude', 2 * om * z**2 * u * np.conj(u), 1)
                if vac == 'RST':
                    h.eq(vac + ': the velocity of the curvature is purely imaginary', du, -1j * k * u)
                else:
                    h.eq(vac + ': positive frequency', z * du + dz * u, -1j * om * z * u, scale=0 if h.sym else 1)
            untouched(h, b)


def canonical(h, b, j, x):
    """Canonical variable v = z R (tensor: v = a h / 2): z, dz, d2z in conformal time."""
    np = h.np
    rt = rates(b, b.K, np)
    zf = (lambda N, H, p, phi: np.exp(N) * p / H) if j == 0 else (lambda N, H, p, phi: np.exp(N) / 2)
    return zf(*x), np.exp(x[0]) * h.along(zf, x, rt(*x)), twice(h, zf, rt, x)


def twice(h, f, rt, x):
    """Second derivative of f in conformal time along the flow."""
    np = h.np
    if not h.sym:
        g = lambda *s: np.exp(s[0]) * h.along(f, list(s), rt(*s))
        return np.exp(x[0]) * h.along(g, x, rt(*x))
    from ..sym import Sym
    from .. import term as tm
    y = [Sym(tm.sym('o%d' % i)) for i in range(len(x))]
    d = np.exp(y[0]) * h.along(f, y, rt(*y))
    d2 = np.exp(y[0]) * h.along(lambda *a: d, y, rt(*y))
    return Sym(tm.subst(d2.t, {s.t: v.t for s, v in zip(y, x)}))


for kind in KINDS:
    mk(kind)


@contract('P17', 'time and e-folds agree', 'primpy.time/efolds.perturbations.get_vacuum_ic_*', samples=12)
def c(h):
    """The same vacuum, whichever independent variable."""
    b = background(h, h.choose('given', KINDS))
    k = h.real('k', 0, sample=(3, 8))
    i = start(h, b)
    for j, what in ((0, 'scalar'), (1, 'tensor')):
        t, n = modes(h, 'time')[j](b, k, idx_beg=i), modes(h, 'efolds')[j](b, k, idx_beg=i)
        z, _, d2z = canonical(h, b, j, list(point(h, b, t)))
        w2 = k**2 - d2z / z
        for vac in VACUA:
            u, du = getattr(t, 'get_vacuum_ic_' + vac)()
            v, dv = getattr(n, 'get_vacuum_ic_' + vac)()
            if vac == 'HD':
                if not bool(w2 > 0):
                    continue
            h.eq('%s %s: value' % (what, vac), v, u)
            h.eq('%s %s: rate' % (what, vac), dv * b.H[i], du)


for kind in KINDS:
    hist.modes('P17', kind)
