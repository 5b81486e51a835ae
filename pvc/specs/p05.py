"""P05: the background equations are the Friedmann and Klein-Gordon equations, and every derivative handed out is the
derivative of the previous one along the solution."""
from ..harness import contract
from . import hist
from .bg import KINDS, state_T, state_N, chain_T, trajectory, unchanged, getters

LAB = ['H2', 'dH', 'd2H', 'd3H', 'd2phi', 'd3phi', 'd4phi']


def derivs(h, s, rates, args):
    at = chain_T(h, s)

    def g(name):
        return lambda *a: getattr(at(*a), name)
    c = at(*args)
    sc = 0 if h.sym else 0.05
    h.eq('dH is the rate of change of H', c.dH, h.along(g('H'), args, rates), scale=sc)
    h.eq('dH_H is dH divided by H', c.dH_H * c.H, c.dH, scale=sc)
    h.eq('d2phi is the rate of change of dphi', c.d2phi, rates[1], scale=sc)
    h.eq('d2H is the rate of change of dH', c.d2H, h.along(g('dH'), args, rates), scale=sc)
    h.eq('d3phi is the rate of change of d2phi', c.d3phi, h.along(g('d2phi'), args, rates), scale=sc)
    h.eq('d3H is the rate of change of d2H', c.d3H, h.along(g('d2H'), args, rates), scale=sc)
    h.eq('d4phi is the rate of change of d3phi', c.d4phi, h.along(g('d3phi'), args, rates), scale=sc)


@contract('P05', 'time.derivatives', 'primpy.time.inflation.InflationEquationsT.get_*', tol=2e-5, weight=5)
def c(h):
    s = state_T(h)
    derivs(h, s, [s.dphi, -3 * s.H * s.dphi - s.pot.dV(s.phi), s.H], [s.phi, s.dphi, s.N])


@contract('P05', 'efolds.derivatives', 'primpy.efolds.inflation.InflationEquationsN.get_*', tol=2e-5, weight=5)
def c(h):
    s = state_N(h)
    # Klein-Gordon in e-folds from the time equation: H^2 phi'' + (H H' + 3 H^2) phi' + V' = 0
    HHp = -s.dphi**2 / 2 * s.H2 + s.K * h.np.exp(-2 * s.N)
    acc = -(HHp + 3 * s.H2) * s.dphi / s.H2 - s.pot.dV(s.phi) / s.H2
    derivs(h, s, [s.dphi, acc, 1], [s.phi, s.dphi, s.N])


@contract('P05', 'time.rhs', 'primpy.time.inflation.InflationEquationsT.__call__/H2/H')
def c(h):
    eta = h.choose('track_eta', [True, False])
    s = state_T(h, track_eta=eta)
    eq = s.eq
    h.eq('Friedmann equation', eq.H2(s.t, s.y), s.H2)
    h.eq('H is the positive root of H2', eq.H(s.t, s.y), s.H)
    dy = eq(s.t, s.y)
    h.eq('one rate per variable', len(dy), 4 if eta else 3)
    h.eq('rate of phi', dy[eq.idx['phi']], s.dphi)
    h.eq('rate of dphidt is the Klein-Gordon equation', dy[eq.idx['dphidt']], -3 * s.H * s.dphi - s.pot.dV(s.phi))
    h.eq('rate of N is H', dy[eq.idx['_N']], s.H)
    if eta:
        h.eq('rate of eta is 1/a', dy[eq.idx['eta']], h.np.exp(-s.N))
    h.eq('potential is evaluated at the field', eq.V(s.t, s.y), s.V)
    h.eq('dVdphi is evaluated at the field', eq.dVdphi(s.t, s.y), s.pot.dV(s.phi))
    h.eq('d2Vdphi2 is evaluated at the field', eq.d2Vdphi2(s.t, s.y), s.pot.d2V(s.phi))


@contract('P05', 'efolds.rhs', 'primpy.efolds.inflation.InflationEquationsN.__call__/H2/H')
def c(h):
    eta = h.choose('track_eta', [True, False])
    tt = h.choose('track_time', [True, False])
    s = state_N(h, track_eta=eta, track_time=tt)
    eq = s.eq
    h.eq('Friedmann equation', eq.H2(s.N, s.y), s.H2)
    h.eq('Friedmann constraint', 3 * eq.H2(s.N, s.y) + 3 * s.K * h.np.exp(-2 * s.N),
         eq.H2(s.N, s.y) * s.dphi**2 / 2 + s.V)
    h.eq('H is the positive root of H2', eq.H(s.N, s.y), s.H)
    dy = eq(s.N, s.y)
    h.eq('one rate per variable', len(dy), 2 + int(eta) + int(tt))
    h.eq('rate of phi', dy[eq.idx['phi']], s.dphi)
    HHp = -s.dphi**2 / 2 * s.H2 + s.K * h.np.exp(-2 * s.N)
    h.eq('rate of dphidN is the Klein-Gordon equation', dy[eq.idx['dphidN']] * s.H2 + (HHp + 3 * s.H2) * s.dphi,
         -s.pot.dV(s.phi))
    if tt:
        h.eq('rate of t is 1/H', dy[eq.idx['t']] * s.H, 1)
    if eta:
        h.eq('rate of eta is 1/(aH)', dy[eq.idx['eta']] * s.H, h.np.exp(-s.N))
    h.eq('potential is evaluated at the field', eq.V(s.N, s.y), s.V)
    h.eq('dVdphi is evaluated at the field', eq.dVdphi(s.N, s.y), s.pot.dV(s.phi))
    h.eq('d2Vdphi2 is evaluated at the field', eq.d2Vdphi2(s.N, s.y), s.pot.d2V(s.phi))


GETTERS = [('get_H2', 'N dphi V K', {}), ('get_dH', 'N H dphi K', {}), ('get_dH_H', 'N H2 dphi K', {}),
           ('get_d2H', 'N H dH dphi d2phi K', {}), ('get_d3H', 'N H dH d2H dphi d2phi d3phi K', {}),
           ('get_d2phi', 'H2 dH_H dphi dV', {}), ('get_d3phi', 'H dH d2H dphi d2phi dV d2V', {}),
           ('get_d4phi', 'H dH d2H d3H dphi d2phi d3phi dV d2V d3V', {})]


def arrays(kind, cls):
    @contract('P05', kind + '.trajectory', '%s.H2/H/V/dVdphi/d2Vdphi2 (whole trajectories)' % cls)
    def c(h):
        s = trajectory(h, kind)
        if not h.sym:
            h.requires(s.eq.H2(s.x, s.y) > 0)
        for name in ('H2', 'H', 'V', 'dVdphi', 'd2Vdphi2'):
            f = getattr(s.eq, name)
            got = unchanged(h, name, s, lambda: f(s.x, s.y))
            h.eq(name + ' acts point by point', got[s.j], f(s.xj, s.yj))

    @contract('P05', kind + '.rhs arguments', '%s.__call__' % cls)
    def c2(h):
        s = (state_T if kind == 'time' else state_N)(h)
        x = s.t if kind == 'time' else s.N
        keep = [v for v in s.y]
        a = s.eq(x, s.y)
        h.eq('the state is left alone', list(s.y), keep)
        first = [v for v in a]
        b = s.eq(x, s.y)
        h.eq('a second evaluation returns the same', list(b), first)
        h.eq('and leaves the first result alone', list(a), first)

    @contract('P05', kind + '.getters', '%s.get_H2/get_dH/... (arrays)' % cls)
    def c3(h):
        m = h.module('primpy.time.inflation' if kind == 'time' else 'primpy.efolds.inflation')
        eq = m.InflationEquationsT if kind == 'time' else m.InflationEquationsN
        K = h.choose('K', [0, 1, -1])
        r = dict(N=(0.6, 2.5), H=(0.5, 2), H2=(0.5, 3), dH=(-1, 1), dH_H=(-1, 1), d2H=(-1, 1), d3H=(-1, 1), dphi=(-2, 2),
                 d2phi=(-1, 1), d3phi=(-1, 1), V=(0.5, 3), dV=(-1, 1), d2V=(-1, 1), d3V=(-1, 1))
        k = dict(K=K)
        getters(h, eq, [(n, a.replace(' K', ''), k if a.endswith(' K') else {}) for n, a, _ in GETTERS], 'H', r)


arrays('time', 'primpy.time.inflation.InflationEquationsT')
arrays('efolds', 'primpy.efolds.inflation.InflationEquationsN')


for kind in KINDS:
    hist.equations('P05', kind, ('H2', 'H', 'V', 'dVdphi', 'd2Vdphi2', '__call__'))
    hist.static('P05', kind, GETTERS)
