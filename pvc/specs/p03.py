"""P03: potential slow-roll parameters are the defining derivatives of ln V, and the Hubble-flow approximations built on
them solve the exact equations of motion to the order they are written down."""
from ..harness import contract
from . import hist
from .pots import POTS, FEATS, fields, elementwise


def mk(name, P):
    @contract('P03', 'slow-roll parameters.' + name, 'primpy.potentials.%s.get_epsilon_1V/2V/3V/4V' % P.cls, tol=2e-5)
    def c(h):
        pot, q, L = P.make(h)
        x = P.phi(h, q)
        V, dV = pot.V(x), pot.dV(x)
        if name == 'Natural':
            h.requires(V > 0)
            h.requires(dV != 0)
        if name in ('Starobinsky', 'StarobinskyGaussianDip', 'StarobinskyTanhStep'):
            h.requires(x > 0)
        h.eq('e1V = (V\'/V)^2/2', 2 * pot.get_epsilon_1V(x) * V**2, dV**2)
        for n in (1, 2, 3):
            e = getattr(pot, 'get_epsilon_%dV' % n)
            f = getattr(pot, 'get_epsilon_%dV' % (n + 1))
            if not h.sym:
                h.requires(abs(e(x)) < 1e3)
            h.eq('e%dV is the logarithmic slow-roll rate of e%dV' % (n + 1, n), e(x) * f(x) * V, -dV * h.D(e, x),
                 scale=0.0 if h.sym else 1e-2 * abs(V))

    @contract('P03', 'arrays.' + name, 'primpy.potentials.%s.get_epsilon_1V/2V/3V/4V (field arrays)' % P.cls)
    def c2(h):
        pot, q, L = P.make(h)
        xs = fields(h, P, q)
        for n in (1, 2, 3, 4):
            elementwise(h, 'e%dV' % n, getattr(pot, 'get_epsilon_%dV' % n), xs)


for name, P in list(POTS.items()) + list(FEATS.items()):
    mk(name, P)


def flow(h):
    pp = h.module('primpy.potentials')

    class Any(pp.StarobinskyPotential):
        """A potential with arbitrary slow-roll parameters (e5V = 0)."""

    lam = h.real('lam', 0, sample=(0.04, 0.06))
    e = [h.real('e%dV' % n, 0, sample=(0.4, 1)) for n in (1, 2, 3, 4)]

    def approx(n, vals):
        pot = Any()
        for k in range(4):
            setattr(pot, 'get_epsilon_%dV' % (k + 1), lambda phi, v=vals[k]: v)
        return getattr(pot, 'get_epsilon_%d' % n)(1)
    ev = [lam * x for x in e]
    rates = [ev[0] * ev[1], ev[1] * ev[2], ev[2] * ev[3], 0 * lam]    # slow-roll rates of e1V..e4V per e-fold
    return lam, e, ev, rates, approx


def rate(h, approx, n, e, lam):
    """d(eps_n)/dN_slowroll: chain rule on the code's polynomial."""
    if h.sym:
        ev = [lam * x for x in e]
        return h.along(lambda a, b, c, d: approx(n, [lam * a, lam * b, lam * c, lam * d]), e,
                       [ev[0] * e[1], ev[1] * e[2], ev[2] * e[3], 0])
    ev = [lam * x for x in e]
    rs = [ev[0] * ev[1], ev[1] * ev[2], ev[2] * ev[3], 0]
    out = 0
    for i in range(4):
        if rs[i]:
            out += rs[i] * h.D(lambda v: approx(n, ev[:i] + [v] + ev[i + 1:]), ev[i])
    return out


@contract('P03', 'hubble flow approximation', 'primpy.potentials.InflationaryPotential.get_epsilon_1/2/3/4', noise=1e-20)
def c(h):
    lam, e, ev, rates, approx = flow(h)
    e1, e2, e3, e4 = (approx(n, ev) for n in (1, 2, 3, 4))
    h.order('e1 and e2 reproduce e1V through third order', 4 * ev[0] * (3 - e1)**2 - e1 * (2 * (3 - e1) + e2)**2, 3, lam)
    # dphi/dN: exact sqrt(2 e1), slow-roll sqrt(2 e1V)
    h.order('e2 is the rate of ln(e1) through third order', (e2 * e1)**2 * ev[0] - e1 * rate(h, approx, 1, e, lam)**2, 7, lam)
    h.order('e3 is the rate of ln(e2) through third order', (e3 * e2)**2 * ev[0] - e1 * rate(h, approx, 2, e, lam)**2, 7, lam)
    h.order('e4 is the rate of ln(e3) through second order', (e4 * e3)**2 * ev[0] - e1 * rate(h, approx, 3, e, lam)**2, 6, lam)


@contract('P03', 'hubble flow approximation sign', 'primpy.potentials.InflationaryPotential.get_epsilon_1/2/3/4', noise=1e-20)
def c(h):
    """The squared relations above leave an overall sign open: the leading terms settle it."""
    lam, e, ev, rates, approx = flow(h)
    for n in (1, 2, 3, 4):
        h.order('e%d agrees with e%dV to leading order' % (n, n), approx(n, ev) - ev[n - 1], 1, lam)


for name, P in list(POTS.items()) + list(FEATS.items()):
    hist.potential('P03', name, P, tuple('get_epsilon_%d%s' % (i, v) for i in (1, 2, 3, 4) for v in ('V', '')))
