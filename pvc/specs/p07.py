"""P07: the time and the e-fold formulations describe one universe."""
from ..harness import contract
from . import hist
from .bg import KINDS, trajectory, unchanged, state_T, StubPotential, ycol, _chain, St


@contract('P07', 'same universe', 'primpy.time.inflation.InflationEquationsT / primpy.efolds.inflation.InflationEquationsN',
          tol=1e-7, weight=5)
def c(h):
    s = state_T(h)
    n = h.module('primpy.efolds.inflation').InflationEquationsN(K=s.K, potential=s.pot)
    pN = s.dphi / s.H
    yN = ycol(h, n, dict(phi=s.phi, dphidN=pN))
    sc = 0 if h.sym else 0.05
    h.eq('H2 agrees', n.H2(s.N, yN), s.eq.H2(s.t, s.y))
    h.eq('w agrees', n.w(s.N, yN), s.eq.w(s.t, s.y))
    h.eq('inflating agrees', n.inflating(s.N, yN), s.eq.inflating(s.t, s.y), scale=sc)
    V = [f(s.phi) for f in (s.pot.V, s.pot.dV, s.pot.d2V, s.pot.d3V)]
    a = _chain(h, s.eq, s.K, s.phi, s.dphi, s.N, *V, St())
    b = _chain(h, n, s.K, s.phi, pN, s.N, *V, St())
    h.eq('H agrees', b.H, a.H)
    h.eq('dH/dt = H dH/dN', b.dH * a.H, a.dH, scale=sc)
    h.eq('dH/dt/H = H (dH/dN/H)', b.dH_H * a.H, a.dH_H, scale=sc)
    h.eq('d2phi/dt2 from e-folds', a.H**2 * b.d2phi + a.H * b.dH * pN, a.d2phi, scale=sc)
    h.requires(s.dphi != 0)
    if not h.sym:
        h.requires(abs(s.dphi) > 0.1)
    h.eq('e1 agrees', n.get_epsilon_1H(H=b.H, dH=b.dH), s.eq.get_epsilon_1H(H=a.H, dH=a.dH), scale=sc)
    for k in ('Gong', None):
        if k is None:
            h.requires(a.dH != 0)
            if not h.sym:
                h.requires(abs(a.dH) > 0.05)
        h.eq('e2 agrees (%s)' % k, n.get_epsilon_2H(H=b.H, dH=b.dH, d2H=b.d2H, kind=k),
             s.eq.get_epsilon_2H(H=a.H, dH=a.dH, d2H=a.d2H, kind=k), scale=sc)
    h.eq('e3 agrees (Gong)', n.get_epsilon_3H(H=b.H, dH=b.dH, d2H=b.d2H, d3H=b.d3H, kind='Gong'),
         s.eq.get_epsilon_3H(H=a.H, dH=a.dH, d2H=a.d2H, d3H=a.d3H, kind='Gong'), scale=sc)
    h.eq('delta_1 agrees', n.get_delta_1(H=b.H, dH=b.dH, dphi=pN, d2phi=b.d2phi),
         s.eq.get_delta_1(H=a.H, dH=a.dH, dphi=s.dphi, d2phi=a.d2phi), scale=sc)
    h.eq('delta_2 agrees', n.get_delta_2(H=b.H, dH=b.dH, d2H=b.d2H, dphi=pN, d2phi=b.d2phi, d3phi=b.d3phi),
         s.eq.get_delta_2(H=a.H, dH=a.dH, d2H=a.d2H, dphi=s.dphi, d2phi=a.d2phi, d3phi=a.d3phi), scale=sc)
    h.eq('delta_3 agrees',
         n.get_delta_3(H=b.H, dH=b.dH, d2H=b.d2H, d3H=b.d3H, dphi=pN, d2phi=b.d2phi, d3phi=b.d3phi, d4phi=b.d4phi),
         s.eq.get_delta_3(H=a.H, dH=a.dH, d2H=a.d2H, d3H=a.d3H, dphi=s.dphi, d2phi=a.d2phi, d3phi=a.d3phi,
                          d4phi=a.d4phi), scale=sc)


@contract('P07', 'e3 agrees', 'get_epsilon_3H', tol=1e-7)
def c(h):
    """e3 for arbitrary H, dH/dt, d2H/dt2, d3H/dt3 (chain rule H' = dH/dt / H ...)."""
    T = h.module('primpy.time.inflation').InflationEquationsT
    N = h.module('primpy.efolds.inflation').InflationEquationsN
    H = h.real('H', 0, sample=(0.5, 2))
    a = h.real('H1', sample=(-1.5, -0.3))
    b = h.real('H2', sample=(0.2, 1.5))
    c_ = h.real('H3', sample=(-1, 1))
    h.requires(a != 0)
    # time derivatives from e-fold derivatives a, b, c
    d1 = H * a
    d2 = H * h.along(lambda H, a, b: H * a, [H, a, b], [a, b, c_])
    d3 = H * h.along(lambda H, a, b: H * (a * a + H * b), [H, a, b], [a, b, c_])
    h.requires((H * b - a * a)**2 > (0 if h.sym else 1e-3))
    h.eq('e3 agrees', N.get_epsilon_3H(H=H, dH=a, d2H=b, d3H=c_), T.get_epsilon_3H(H=H, dH=d1, d2H=d2, d3H=d3), scale=0.05)


@contract('P07', 'time.acceleration', 'primpy.time.inflation.InflationEquationsT.w/inflating')
def c(h):
    s = state_T(h)
    acc(h, s, s.eq, s.t, s.y, s.dphi**2, s.eq.get_dH(N=s.N, H=s.H, dphi=s.dphi, K=s.K))


@contract('P07', 'efolds.acceleration', 'primpy.efolds.inflation.InflationEquationsN.w/inflating')
def c(h):
    from .bg import state_N
    s = state_N(h)
    acc(h, s, s.eq, s.N, s.y, s.dphi**2 * s.H2, s.eq.get_dH(N=s.N, H=s.H, dphi=s.dphi, K=s.K) * s.H)


def acc(h, s, eq, x, y, dphi2, dHdt):
    w = eq.w(x, y)
    inf = eq.inflating(x, y)
    h.eq('w is pressure over density', w * (dphi2 / 2 + s.V), dphi2 / 2 - s.V, scale=0.0 if h.sym else 0.1)
    h.eq('inflating is three times the acceleration of the scale factor', inf, 3 * (dHdt + s.H2),
         scale=0.0 if h.sym else 0.1)
    third = h.frac(1, 3)
    if w < -third:
        h.true('w < -1/3 means inflating', inf > 0)
    else:
        h.true('w >= -1/3 means not inflating', inf <= 0)


def arrays(kind, cls):
    @contract('P07', kind + '.trajectory', '%s.w/inflating (whole trajectories)' % cls)
    def c(h):
        s = trajectory(h, kind)
        for name in ('w', 'inflating'):
            f = getattr(s.eq, name)
            got = unchanged(h, name, s, lambda: f(s.x, s.y))
            h.eq(name + ' acts point by point', got[s.j], f(s.xj, s.yj))


arrays('time', 'primpy.time.inflation.InflationEquationsT')
arrays('efolds', 'primpy.efolds.inflation.InflationEquationsN')


for kind in KINDS:
    hist.equations('P07', kind, ('H2', 'w', 'inflating'))
