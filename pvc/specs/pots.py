"""The potentials of primpy.potentials with their parameter domains (preconditions) and documented shapes."""


class P:
    def __init__(self, cls, params, phi, shape, spar=None):
        self.cls, self.params, self.phi, self.shape = cls, params, phi, shape

    def make(self, h, Lambda=None, **kw):
        """(potential object, parameters, Lambda)"""
        m = h.module('primpy.potentials')
        par = self.params(h)
        L = h.real('Lambda', 0, sample=(0.5, 1.6)) if Lambda is None else Lambda
        return getattr(m, self.cls)(Lambda=L, **par, **kw), par, L


def pw(h, x, p):
    return h.np.exp(p * h.np.log(x))


def none(h):
    return {}


def fields(h, P, q):
    """An array of field values of the domain."""
    if 'phi0' in q:
        xs = h.array('phis', sample=None if h.sym else (0.05 * q['phi0'], 0.95 * q['phi0']))
        h.everywhere(xs < q['phi0'])
    else:
        xs = h.array('phis', sample=(0.4, 4))
    if P.phi is not phi_any:
        h.everywhere(xs > 0)
    return xs


def elementwise(h, label, f, xs):
    """f, given an array, returns what it returns for each of its elements, and leaves the array alone."""
    keep = xs + 0
    j = h.index('j', xs)
    got = f(xs) + 0 * xs
    h.eq(label + ' leaves the given values alone', xs, keep)
    h.eq(label + ' acts element by element', got[j], f(keep[j]))


def phi_pos(h, q):
    return h.real('phi', 0, sample=(0.4, 4))


def phi_any(h, q):
    x = h.real('phi', sample=(0.4, 4))
    return x


def phi_nz(h, q):
    x = h.real('phi', sample=(-4, 4))
    h.requires(x != 0)
    return x


def phi_lt0(h, q):
    f = 0.0 if h.sym else 0.04 * float(q['phi0'])
    return h.real('phi', 0, q['phi0'], sample=None if h.sym else (f, 0.96 * q['phi0']))


def phi_nat(h, q):
    return h.real('phi', 0, q['phi0'], sample=None if h.sym else (0.05 * q['phi0'], 0.95 * q['phi0']))


PHI0 = (2.0, 12.0)


def nat(h):
    return dict(phi0=h.real('phi0', 0, sample=PHI0))


def dwp(h):
    return dict(phi0=h.real('phi0', 0, sample=PHI0), p=h.real('p', 0, sample=(2.2, 4.5)))


def dwn(h):
    return dict(phi0=h.real('phi0', 0, sample=PHI0))


def tmo(h):
    return dict(p=h.real('p', 0, sample=(0.6, 3)), alpha=h.real('alpha', 0, sample=(0.3, 3)))


def rad(h):
    return dict(p=h.real('p', 0, sample=(0.8, 4)), alpha=h.real('alpha', 0, sample=(0.3, 3)))


def rad2(h):
    return dict(alpha=h.real('alpha', 0, sample=(0.3, 3)))


def mon(h):
    return dict(p=h.real('p', 0, sample=(0.6, 4.5)))


def aphi(h, x):
    return h.np.abs(x)


POTS = {
    'Monomial': P('MonomialPotential', mon, phi_nz, lambda h, x, L, q: L**4 * aphi(h, x)**q['p']),
    'Linear': P('LinearPotential', none, phi_nz, lambda h, x, L, q: L**4 * aphi(h, x)),
    'Quadratic': P('QuadraticPotential', none, phi_nz, lambda h, x, L, q: L**4 * x**2),
    'Cubic': P('CubicPotential', none, phi_nz, lambda h, x, L, q: L**4 * aphi(h, x)**3),
    'Quartic': P('QuarticPotential', none, phi_nz, lambda h, x, L, q: L**4 * x**4),
    'Starobinsky': P('StarobinskyPotential', none, phi_any,
                     lambda h, x, L, q: L**4 * (1 - h.np.exp(-h.np.sqrt(h.frac(2, 3)) * x))**2),
    'Natural': P('NaturalPotential', nat, phi_any,
                 lambda h, x, L, q: L**4 * (1 - h.np.cos(h.np.pi * x / q['phi0'])) / 2),
    'DoubleWell': P('DoubleWellPotential', dwp, phi_lt0,
                    lambda h, x, L, q: L**4 * (1 - (1 - x / q['phi0'])**q['p'])**2),
    'DoubleWell2': P('DoubleWell2Potential', dwn, phi_lt0,
                     lambda h, x, L, q: L**4 * (1 - (1 - x / q['phi0'])**2)**2),
    'DoubleWell4': P('DoubleWell4Potential', dwn, phi_lt0,
                     lambda h, x, L, q: L**4 * (1 - (1 - x / q['phi0'])**4)**2),
    'Tmodel': P('TmodelPotential', tmo, phi_pos,
                lambda h, x, L, q: L**4 * h.np.tanh(x / h.np.sqrt(6 * q['alpha']))**(2 * q['p'])),
    'RadionGauge': P('RadionGaugePotential', rad, phi_pos,
                     lambda h, x, L, q: L**4 * x**q['p'] / (q['alpha'] + x**q['p'])),
    'RadionGauge2': P('RadionGauge2Potential', rad2, phi_pos,
                      lambda h, x, L, q: L**4 * x**2 / (q['alpha'] + x**2)),
}


def feat(h):
    return dict(phi_feature=h.real('phi_feature', sample=(1.0, 3.0)), a_feature=h.real('a_feature', sample=(0.05, 0.4)),
                b_feature=h.real('b_feature', 0, sample=(0.4, 1.5)))


def stb(h, x):
    return (1 - h.np.exp(-h.np.sqrt(h.frac(2, 3)) * x))**2


FEATS = {
    'StarobinskyGaussianDip': P('StarobinskyGaussianDipPotential', feat, phi_any, lambda h, x, L, q: L**4 * stb(h, x) * (
        1 - q['a_feature'] * h.np.exp(-(x - q['phi_feature'])**2 / (2 * q['b_feature']**2)))),
    'StarobinskyTanhStep': P('StarobinskyTanhStepPotential', feat, phi_any, lambda h, x, L, q: L**4 * stb(h, x) * (
        1 + q['a_feature'] * h.np.tanh((x - q['phi_feature']) / q['b_feature']))),
}
