"""P02: inv_V inverts the potential on the branch that inflation rolls down."""
from ..harness import contract
from . import hist
from .pots import POTS, FEATS

# upper end of the potential on the branch (None: unbounded), in units of Lambda^4, and the branch itself
TOP = {k: 1 for k in POTS}
for k in ('Monomial', 'Linear', 'Quadratic', 'Cubic', 'Quartic'):
    TOP[k] = None


def mk(name, P):
    def branch(h, q, x):
        h.true('inv_V is on the branch (phi > 0)', x > 0)
        if 'phi0' in q:
            h.true('inv_V is on the branch (phi < phi0)', x < q['phi0'])

    @contract('P02', 'right inverse.' + name, 'primpy.potentials.%s.inv_V/V' % P.cls)
    def c(h):
        pot, q, L = P.make(h)
        u = h.real('u', 0, TOP[name], sample=(0.02, 0.95))
        V = u * L**4
        phi = pot.inv_V(V)
        h.eq('V(inv_V(x)) = x', pot.V(phi), V)
        branch(h, q, phi)

    @contract('P02', 'left inverse.' + name, 'primpy.potentials.%s.inv_V/V' % P.cls)
    def c2(h):
        pot, q, L = P.make(h)
        if 'phi0' in q:
            f = h.real('f', 0, 1)
            phi = f * q['phi0']
        else:
            phi = h.real('phi', 0, sample=(0.3, 3))
        V = pot.V(phi)
        h.true('V is positive', V > 0)
        if TOP[name]:
            h.true('V stays below its plateau or maximum', V < L**4)
        h.eq('inv_V(V(x)) = x', pot.inv_V(V), phi)


for name, P in POTS.items():
    mk(name, P)


def feature(name, P):
    @contract('P02', 'right inverse.' + name, 'primpy.potentials.%s.inv_V/V' % P.cls)
    def c(h):
        pot, q, L = P.make(h)
        V = h.real('u', 0, 1, sample=(0.02, 0.95)) * L**4
        h.eq('V(inv_V(x)) = x', pot.V(pot.inv_V(V)), V)


for name, P in FEATS.items():
    feature(name, P)


for name, P in list(POTS.items()) + list(FEATS.items()):
    hist.potential('P02', name, P, ('inv_V', ), lambda h, P, q, L: h.real('u', 0, 1, sample=(0.1, 0.8)) * L**4, arrays=False)
