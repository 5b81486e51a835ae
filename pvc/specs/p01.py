"""P01: every potential has its documented shape and its coded derivatives are the derivatives of it."""
from ..harness import contract
from . import hist
from .pots import POTS, FEATS, feat, fields, elementwise

DERIV = [('dV', 'V'), ('d2V', 'dV'), ('d3V', 'd2V'), ('d4V', 'd3V')]


def scale_of(h, pot, x):
    if h.sym:
        return 0.0
    return float(abs(pot.V(x)) + abs(pot.dV(x)) + abs(pot.d2V(x)))


def mk(name, P):
    @contract('P01', 'derivatives.' + name, 'primpy.potentials.%s.V/dV/d2V/d3V/d4V' % P.cls, tol=1e-5)
    def c(h):
        pot, q, L = P.make(h)
        x = P.phi(h, q)
        s = scale_of(h, pot, x)
        h.eq('V has the documented shape', pot.V(x), P.shape(h, x, L, q))
        for d, f in DERIV:
            h.eq('%s is the derivative of %s' % (d, f), getattr(pot, d)(x), h.D(getattr(pot, f), x), scale=s)

    @contract('P01', 'array.' + name, 'primpy.potentials.%s (field arrays)' % P.cls)
    def c2(h):
        pot, q, L = P.make(h)
        xs = fields(h, P, q)
        for f in ('V', 'dV', 'd2V', 'd3V', 'd4V'):
            elementwise(h, f, getattr(pot, f), xs)


for name, P in list(POTS.items()) + list(FEATS.items()):
    mk(name, P)


def mkF(cls, shape):
    @contract('P01', 'feature.' + cls, 'primpy.potentials.%s.F/dF/d2F/d3F' % cls, tol=1e-5)
    def c(h):
        m = h.module('primpy.potentials')
        q = feat(h)
        a = (q['phi_feature'], q['a_feature'], q['b_feature'])
        x = h.real('x', sample=(0.5, 4))
        F = getattr(m, cls)
        h.eq('F has the documented shape', F.F(x, *a), shape(h, x, *a))
        for d, f in [('dF', 'F'), ('d2F', 'dF'), ('d3F', 'd2F'), ('d4F', 'd3F')]:
            if d == 'd4F' and not hasattr(F, d):
                continue
            h.eq('%s is the derivative of %s' % (d, f), getattr(F, d)(x, *a),
                 h.D(lambda y: getattr(F, f)(y, *a), x), scale=0.1)


mkF('GaussianDip', lambda h, x, x0, a, b: -a * h.np.exp(-(x - x0)**2 / (2 * b**2)))
mkF('TanhStep', lambda h, x, x0, a, b: a * h.np.tanh((x - x0) / b))


@contract('P01', 'at the minimum', 'primpy.potentials.*.V/dV/d2V', samples=30)
def c3(h):
    """At the very minimum (which the shapes above leave out where they are powers of the field)."""
    m = h.module('primpy.potentials')
    L = h.pos('Lambda', sample=(0.5, 2))
    a = h.pos('alpha', sample=(0.5, 2))
    x = 0 * L if h.sym else h.np.float64(0)
    two = 2 * L**4
    cls, kw, d2V = h.choose('potential', [
        ('Monomial', dict(p=2), two), ('Monomial', dict(p=3), 0), ('Monomial', dict(p=4), 0), ('Linear', {}, None),
        ('Quadratic', {}, two), ('Cubic', {}, 0), ('Quartic', {}, 0), ('Tmodel', dict(p=1, alpha=a), two / (6 * a)),
        ('Tmodel', dict(p=2, alpha=a), 0), ('RadionGauge', dict(p=2, alpha=a), two / a), ('RadionGauge', dict(p=3, alpha=a), 0),
        ('RadionGauge2', dict(alpha=a), two / a)])
    pot = getattr(m, cls + 'Potential')(Lambda=L, **kw)
    h.eq('V vanishes', pot.V(x), 0)
    h.eq('the slope vanishes', pot.dV(x), 0)
    if d2V is not None:
        h.eq('mass of the field', pot.d2V(x), d2V)


for name, P in list(POTS.items()) + list(FEATS.items()):
    hist.potential('P01', name, P, ('V', 'dV', 'd2V', 'd3V', 'd4V'))
