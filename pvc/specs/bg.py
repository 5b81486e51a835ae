"""Arbitrary background states for arbitrary potentials (the potential is an uninterpreted smooth function)."""


class StubPotential:
    """Any smooth potential: V and its derivatives are uninterpreted (numerically: sums of exponentials)."""
    tag, name, tex = 'any', 'any', 'any'
    perturbation_ic = (1, 0, 0, 1)
    Lambda = 1

    def __init__(self, h, name='Vpot'):
        self.f = h.func(name)

    def V(self, phi):
        return self.f(phi)

    def dV(self, phi):
        return self.f(phi, 1)

    def d2V(self, phi):
        return self.f(phi, 2)

    def d3V(self, phi):
        return self.f(phi, 3)

    def d4V(self, phi):
        return self.f(phi, 4)


class St:
    pass


def state_T(h, K=None, **kw):
    """equations w.r.t. time, with an arbitrary state (phi, dphi/dt, N) of positive Hubble parameter squared"""
    m = h.module('primpy.time.inflation')
    s = St()
    s.pot = StubPotential(h)
    s.K = h.choose('K', [0, 1, -1]) if K is None else K
    s.t = h.real('t', sample=(0, 3))
    s.phi = h.real('phi', sample=(-1, 1))
    s.dphi = h.real('dphidt', sample=(-2.6, 2.6))
    s.N = h.real('N', sample=(0.6, 2.5))
    s.eq = m.InflationEquationsT(K=s.K, potential=s.pot, **kw)
    s.y = ycol(h, s.eq, dict(phi=s.phi, dphidt=s.dphi, _N=s.N, eta=0.5))
    s.V = s.pot.V(s.phi)
    s.H2 = (s.dphi**2 / 2 + s.V) / 3 - s.K * h.np.exp(-2 * s.N)
    h.requires(s.V > 0)
    h.requires(s.H2 > 0)
    s.H = h.np.sqrt(s.H2)
    return s


def state_N(h, K=None, **kw):
    m = h.module('primpy.efolds.inflation')
    s = St()
    s.pot = StubPotential(h)
    s.K = h.choose('K', [0, 1, -1]) if K is None else K
    s.N = h.real('N', sample=(0.6, 2.5))
    s.phi = h.real('phi', sample=(-1, 1))
    s.dphi = h.real('dphidN', sample=(-2.2, 2.2))
    s.eq = m.InflationEquationsN(K=s.K, potential=s.pot, **kw)
    s.y = ycol(h, s.eq, dict(phi=s.phi, dphidN=s.dphi, t=0.3, eta=0.5))
    s.V = s.pot.V(s.phi)
    h.requires(s.V > 0)
    h.requires(6 - s.dphi**2 > 0)
    s.H2 = (2 * s.V - 6 * s.K * h.np.exp(-2 * s.N)) / (6 - s.dphi**2)
    h.requires(s.H2 > 0)
    s.H = h.np.sqrt(s.H2)
    return s


def ycol(h, eq, vals):
    """The state vector in the order the equations declare."""
    y = [None] * len(eq.idx)
    for k, i in eq.idx.items():
        y[i] = vals[k]
    return h.np.array(y)


def chain_T(h, s, H=None):
    """All derivatives through the code's getters, evaluated at the state (phi, dphi, N) as functions."""
    eq, K = s.eq, s.K

    def at(phi, dphi, N):
        c = St()
        V, dV, d2V, d3V = s.pot.V(phi), s.pot.dV(phi), s.pot.d2V(phi), s.pot.d3V(phi)
        return _chain(h, eq, K, phi, dphi, N, V, dV, d2V, d3V, c)
    return at


chain_N = chain_T


def _chain(h, eq, K, phi, dphi, N, V, dV, d2V, d3V, c):
    c.H2 = eq.get_H2(N=N, dphi=dphi, V=V, K=K)
    c.H = h.np.sqrt(c.H2)
    c.dH = eq.get_dH(N=N, H=c.H, dphi=dphi, K=K)
    c.dH_H = eq.get_dH_H(N=N, H2=c.H2, dphi=dphi, K=K)
    c.d2phi = eq.get_d2phi(H2=c.H2, dH_H=c.dH_H, dphi=dphi, dV=dV)
    c.d2H = eq.get_d2H(N=N, H=c.H, dH=c.dH, dphi=dphi, d2phi=c.d2phi, K=K)
    c.d3phi = eq.get_d3phi(H=c.H, dH=c.dH, d2H=c.d2H, dphi=dphi, d2phi=c.d2phi, dV=dV, d2V=d2V)
    c.d3H = eq.get_d3H(N=N, H=c.H, dH=c.dH, d2H=c.d2H, dphi=dphi, d2phi=c.d2phi, d3phi=c.d3phi, K=K)
    c.d4phi = eq.get_d4phi(H=c.H, dH=c.dH, d2H=c.d2H, d3H=c.d3H, dphi=dphi, d2phi=c.d2phi, d3phi=c.d3phi,
                           dV=dV, d2V=d2V, d3V=d3V)
    return c


KINDS = ['time', 'efolds']


def state(h, kind, **kw):
    return state_T(h, **kw) if kind == 'time' else state_N(h, **kw)


def trajectory(h, kind):
    """Equations, and a whole trajectory of states: s.x, the rows s.y, and the one state (x, y) at an arbitrary position."""
    s = solution(h, kind, h.choose('K', [0, 1, -1]), [], verbose=False)
    s.y = h.np.array(s.rows)
    s.j = h.index('j', s.x)
    s.at = {k: r[s.j] for k, r in s.row.items()}
    s.xj = s.x[s.j] + 0
    s.yj = ycol(h, s.eq, s.at)
    return s


def unchanged(h, label, s, call):
    """call() leaves the trajectory as it was."""
    x, rows = s.x + 0, [r + 0 for r in s.rows]
    out = call()
    h.eq(label + ' leaves the independent variable alone', s.x, x)
    for k, i in s.eq.idx.items():
        h.eq('%s leaves %s alone' % (label, k), s.y[i], rows[i])
    return out


def getters(h, eq, names, n, given):
    """Static getters on arrays: as on each element, with the arguments left as they are."""
    arrs = {a: h.array('arr_' + a, sample=r) for a, r in given.items()}
    for a in ('H', 'H2', 'V'):
        if a in arrs:
            h.everywhere(arrs[a] > 0)
    j = h.index('j', arrs[n])
    keep = {a: x + 0 for a, x in arrs.items()}
    for name, args, kw in names:
        f = getattr(eq, name)
        got = f(**{a: arrs[a] for a in args.split()}, **kw)
        label = name + (' (%s)' % kw['kind'] if 'kind' in kw else '')
        h.eq(label + ' acts element by element', got[j], f(**{a: keep[a][j] for a in args.split()}, **kw))
        for a in args.split():
            h.eq('%s leaves %s alone' % (label, a), arrs[a], keep[a])


def kinetic2(h, kind, s):
    """(dphi/dt)^2 at the state"""
    return s.dphi**2 if kind == 'time' else s.dphi**2 * s.H2


EV = dict(collapse='Collapse', beg0='Inflation_dir1_term0', beg1='Inflation_dir1_term1',
          end0='Inflation_dir-1_term0', end1='Inflation_dir-1_term1')


class Sol:
    """An arbitrary solution bunch as the integrator hands it over."""


def solution(h, kind, K, tracked, verbose=True, **kw):
    """Equations and an arbitrary integrator output with the given events tracked (names as the event classes give them)."""
    m = h.module('primpy.time.inflation' if kind == 'time' else 'primpy.efolds.inflation')
    cls = m.InflationEquationsT if kind == 'time' else m.InflationEquationsN
    s = Sol()
    s.kind, s.K = kind, K
    s.pot = StubPotential(h)
    s.eq = cls(K=K, potential=s.pot, verbose=verbose, **kw)
    n = len(s.eq.idx)
    ranges = dict(phi=(-1, 1), dphidt=(-2.6, 2.6), dphidN=(-2.2, 2.2), _N=(0.6, 4.0), t=(0, 1), eta=(0, 1))
    s.x = h.array('x', fn=lambda u: 0.6 + 3 * u)
    s.rows = [None] * n
    for k, i in s.eq.idx.items():
        s.rows[i] = h.array('row_' + k, sample=ranges[k], fn=(lambda u: 0.6 + 3 * u) if k == '_N' else None)
    s.row = {k: s.rows[i] for k, i in s.eq.idx.items()}
    s.ev = {}
    for key in tracked:
        t, y = h.events(key, n)
        if not h.sym and len(t):
            t = 0.6 + 3 * h.np.sort(t)
            y = h.np.array([[ranges[k][0] + (ranges[k][1] - ranges[k][0]) * y[j, i] if k != '_N' else t[j]
                             for k, i in sorted(s.eq.idx.items(), key=lambda z: z[1])] for j in range(len(t))])
        s.ev[key] = (t, y)
    s.bunch = h.bunch(t=s.x, y=h.np.array(s.rows), success=True, message='any', event_keys=list(tracked),
                      t_events=[s.ev[k][0] for k in tracked], y_events=[s.ev[k][1] for k in tracked])
    s.N = s.row['_N'] if kind == 'time' else s.x
    return s


def occurs(h, s, key):
    return key in s.ev and h.size(s.ev[key][0]) > 0


def at_event(h, s, key):
    """(N, phi, dphi, V, H2) at the first occurrence of the event"""
    t, y = s.ev[key]
    g = {k: y[0, i] for k, i in s.eq.idx.items()}
    return at_point(h, s, t[0], g)


def at_point(h, s, x, g):
    r = St()
    r.N = g['_N'] if s.kind == 'time' else x
    r.phi = g['phi']
    r.V = s.pot.V(r.phi)
    a2 = h.np.exp(-2 * r.N)
    if s.kind == 'time':
        r.dphi = g['dphidt']
        r.H2 = (r.dphi**2 / 2 + r.V) / 3 - s.K * a2
        r.p2 = r.dphi**2
    else:
        r.dphi = g['dphidN']
        r.H2 = (2 * r.V - 6 * s.K * a2) / (6 - r.dphi**2)
        r.p2 = r.dphi**2 * r.H2
    return r


def inflated(h, kind, K, big=False, track=('phi',)):
    """A solution that inflates from its first point and stops: symbolically an arbitrary one (what post-processing of the
    start and end of inflation guarantees is P11), numerically one solved for."""
    if not h.sym:
        return real_solution(h, kind, K)
    s = solution(h, kind, K, [EV['end1']], verbose=False)
    h.requires(occurs(h, s, EV['end1']))
    p = at_point(h, s, s.x[0], {k: r[0] for k, r in s.row.items()})
    h.requires(p.V > 0)
    h.requires(p.H2 > 0)
    if kind == 'efolds':
        h.requires(6 - p.dphi**2 > 0)
    h.requires(p.V - p.p2 > 0)
    sol = s.eq.sol(s.bunch)
    # from here on the quantities at start and end are arbitrary numbers
    sol._N_beg, sol._N_end = h.real('N_beg'), h.real('N_end')
    h.requires(sol._N_beg < sol._N_end)
    sol.N_tot = sol._N_end - sol._N_beg
    sol.H_beg, sol.H_end, sol.V_end = h.pos('H_beg'), h.pos('H_end'), h.pos('V_end')
    sol._logaH_beg = sol._N_beg + h.np.log(sol.H_beg)
    sol._logaH_end = sol._N_end + h.np.log(sol.H_end)
    sol.H = h.array('H')
    sol._logaH = sol._N + h.np.log(sol.H)
    sol.inflation_mask = (sol._N_beg < sol._N) & (sol._N < sol._N_end)
    s.sol = sol
    h.clear_warnings()
    return s


def real_solution(h, kind, K):
    m = h.module('primpy.time.inflation' if kind == 'time' else 'primpy.efolds.inflation')
    pm, ic, ev = h.module('primpy.potentials'), h.module('primpy.initialconditions'), h.module('primpy.events')
    s = Sol()
    s.kind, s.K = kind, K
    if h.choose('potential', ['quadratic', 'Starobinsky']) == 'quadratic':
        s.pot, phi = pm.QuadraticPotential(Lambda=h.real('Lambda', sample=(0.0022, 0.0028))), (17.0, 18.0)
    else:
        s.pot, phi = pm.StarobinskyPotential(Lambda=h.real('Lambda', sample=(3e-3, 3.6e-3))), (6.25, 6.45)
    s.eq = (m.InflationEquationsT if kind == 'time' else m.InflationEquationsN)(K=K, potential=s.pot)
    i = ic.InflationStartIC(s.eq, phi_i=h.real('phi_i', sample=phi), t_i=1e4,
                            **({'N_i': 10} if K == 0 else {'Omega_Ki': -K * 0.9}))
    f = h.choose('before inflation', [1, 1.2, 1.4])         # kinetic energy beyond what inflation allows
    if f != 1:
        i = faster(i, f)
    e = [ev.InflationEvent(s.eq, +1, terminal=False), ev.InflationEvent(s.eq, -1, terminal=True)]
    s.sol = h.module('primpy.solver').solve(i, events=e, rtol=1e-7)
    h.requires(h.np.isfinite(s.sol.N_tot))
    h.requires(s.sol.N_tot > 62)
    h.clear_warnings()
    return s


class faster:
    """Initial conditions of a larger field velocity."""

    def __init__(self, ic, f):
        self.ic, self.f = ic, f

    def __getattr__(self, name):
        return getattr(self.ic, name)

    def __call__(self, y0, **kw):
        self.ic(y0, **kw)
        idx = self.ic.equations.idx
        y0[idx['dphidt' if 'dphidt' in idx else 'dphidN']] *= self.f


RAW = ('x', 't', '_N', 'phi', 'dphidt', 'dphidN', 'H', 'w', 'eta', '_logaH', 'Omega_K')


def raw(h, b, names=RAW):
    """What the background table holds now."""
    return {n: getattr(b, n) + 0 for n in names if hasattr(b, n)}


def kept(h, b, was):
    for n, x in was.items():
        h.eq('the background keeps its ' + n, getattr(b, n), x)
