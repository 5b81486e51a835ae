"""P14: the slow-roll approximations of the primordial spectra agree with each other, with exact results, and with what is reported."""
from ..harness import contract
from .bg import inflated, raw, kept, state, _chain, St, KINDS

T = 'primpy.inflation.InflationEquations.sol.derive_approx_power'


def calibrated(h, kind, K=0, method='LLMS'):
    s = inflated(h, kind, K)
    s.Ns = h.real('N_star', 0, sample=(50, 60))
    h.requires(s.Ns <= s.sol.N_tot)
    if K == 0:
        s.sol.calibrate_scale_factor(N_star=s.Ns, method=method)
    return s


def flow(h, s, e, L):
    """From here on the flow parameters are e1, e2, e3 (e3 constant), everywhere, and the scales lie around L e-folds from the
    pivot scale: what the callees return for a history with these flow parameters (P06 and `flow parameters` below)."""
    np = h.np
    e1, e2, e3 = e
    d1 = e2 / 2 - e1
    r = lambda f1, f2: f1 * e1 * e2 + f2 * e2 * e3           # d/dN of a function of e1, e2 with these derivatives
    dd1 = r(-1, h.frac(1, 2))
    d2 = dd1 + d1 * (d1 - e1)
    # d2 = -e1 e2 + e2 e3/2 + (e2/2 - e1)^2 - (e2/2 - e1) e1
    dd2 = r(-e2 - (e2 - 2 * e1) - e2 / 2 + 2 * e1, -e1 + e3 / 2 + (e2 / 2 - e1) - e1 / 2)
    d3 = dd2 + d2 * (d1 - 2 * e1)
    g2 = e1 * e2
    g3 = e1 * e2**2 + e1 * e2 * e3 - e1 * g2
    install(s, dict(e1=e1, e2=e2, e3=e3, d1=d1, d2=d2, d3=d3, g2=g2, g3=g3))
    if not h.sym:
        s.sol.logk = np.log(h.module('primpy.parameters').K_STAR) + L + np.linspace(0, 1.5, s.sol.logk.size)
        s.sol.H = 0 * s.sol.H + 1e-5


def install(s, p):
    """The flow parameters are these numbers, everywhere."""
    full = lambda x: lambda H, *a, **k: x + 0 * H

    def eps(x, gong):
        def f(H, *a, kind=None, **k):
            return (gong if kind == 'Gong' else x) + 0 * H
        return f
    s.eq.get_epsilon_1H, s.eq.get_epsilon_2H, s.eq.get_epsilon_3H = full(p['e1']), eps(p['e2'], p['g2']), eps(p['e3'], p['g3'])
    s.eq.get_delta_1, s.eq.get_delta_2, s.eq.get_delta_3 = full(p['d1']), full(p['d2']), full(p['d3'])


def of_history(h, s, kind):
    """The flow parameters of a history during inflation (P05, P06: rates of change along it)."""
    sol, eq = s.sol, s.eq
    m = sol.inflation_mask
    N, H, phi, K = sol._N[m], sol.H[m], sol.phi[m], sol.K
    dphi = (sol.dphidt if kind == 'time' else sol.dphidN)[m]
    dV, d2V, d3V = sol.potential.dV(phi), sol.potential.d2V(phi), sol.potential.d3V(phi)
    dH = eq.get_dH(N=N, H=H, dphi=dphi, K=K)
    d2phi = eq.get_d2phi(H2=H**2, dH_H=eq.get_dH_H(N=N, H2=H**2, dphi=dphi, K=K), dphi=dphi, dV=dV)
    d2H = eq.get_d2H(N=N, H=H, dH=dH, dphi=dphi, d2phi=d2phi, K=K)
    d3phi = eq.get_d3phi(H=H, dH=dH, d2H=d2H, dphi=dphi, d2phi=d2phi, dV=dV, d2V=d2V)
    d3H = eq.get_d3H(N=N, H=H, dH=dH, d2H=d2H, dphi=dphi, d2phi=d2phi, d3phi=d3phi, K=K)
    d4phi = eq.get_d4phi(H=H, dH=dH, d2H=d2H, d3H=d3H, dphi=dphi, d2phi=d2phi, d3phi=d3phi, dV=dV, d2V=d2V, d3V=d3V)
    q = dict(H=H, dH=dH)
    return dict(e1=eq.get_epsilon_1H(**q), e2=eq.get_epsilon_2H(d2H=d2H, **q), e3=eq.get_epsilon_3H(d2H=d2H, d3H=d3H, **q),
                g2=eq.get_epsilon_2H(d2H=d2H, kind='Gong', **q), g3=eq.get_epsilon_3H(d2H=d2H, d3H=d3H, kind='Gong', **q),
                d1=eq.get_delta_1(dphi=dphi, d2phi=d2phi, **q),
                d2=eq.get_delta_2(d2H=d2H, dphi=dphi, d2phi=d2phi, d3phi=d3phi, **q),
                d3=eq.get_delta_3(d2H=d2H, d3H=d3H, dphi=dphi, d2phi=d2phi, d3phi=d3phi, d4phi=d4phi, **q))


def spectra(h, s, method, order):
    """Scalar and tensor spectrum relative to the leading order at horizon crossing (scalar: up to 1/e1)."""
    np = h.np
    sol = s.sol
    sol.derive_approx_power(method=method, **({'order': order} if order is not None else {}))
    m = sol.inflation_mask
    H = sol.H[m] if method in ('CGS', 'STE') else h.interp(sol._N[m], sol.H[m], sol._N_cross)
    out = sol.P_scalar_approx / H**2 * 8 * np.pi**2, sol.P_tensor_approx / H**2 * np.pi**2 / 2
    return out if h.sym else (out[0][0], out[1][0])


class Poly(dict):
    """Polynomial in e1, e2, e3 through third order: exponents -> coefficient."""

    def __add__(self, o):
        o = o if isinstance(o, Poly) else Poly({(0, 0, 0): o})
        return Poly({i: self.get(i, 0) + o.get(i, 0) for i in {*self, *o}})

    def __mul__(self, o):
        o = o if isinstance(o, Poly) else Poly({(0, 0, 0): o})
        r = Poly()
        for i, a in self.items():
            for j, b in o.items():
                n = tuple(p + q for p, q in zip(i, j))
                if sum(n) <= 3:
                    r[n] = r.get(n, 0) + a * b
        return r

    __radd__, __rmul__ = __add__, __mul__

    def __neg__(self):
        return -1 * self

    def dN(self):
        """Rate of change with e-folds: e1' = e1 e2, e2' = e2 e3, e3' = 0."""
        e2, e3 = Poly({(0, 1, 0): 1}), Poly({(0, 0, 1): 1})
        return Poly({i: i[0] * a for i, a in self.items()}) * e2 + Poly({i: i[1] * a for i, a in self.items()}) * e3

    def __call__(self, e):
        return sum(a * e[0]**i[0] * e[1]**i[1] * e[2]**i[2] for i, a in self.items())


def general_slow_roll(h):
    """Power of scalars (times e1) and of tensors relative to the leading order at horizon crossing, through third order.

    For mode functions in z, with f = 2 pi z x / k, x = -k tau and primes for d/dln x (general slow roll: Gong & Stewart 2001,
    Choe, Gong & Stewart 2004; checked by integration of the mode equation in /verif/tools/gsr.py), P = F/f^2 where
    F = 1 - 2 a f'/f + ...; here ln f = ln(-a H tau) + ln(z/aH), up to constants."""
    np, zeta = h.np, h.module('primpy.inflation').zeta
    q = h.frac
    one = Poly({(0, 0, 0): 1})
    e1, e2 = Poly({(1, 0, 0): 1}), Poly({(0, 1, 0): 1})
    y = one
    for i in range(3):
        y = one + e1 * y + y.dN()           # y = -a H tau: dy/dN = (1 - e1) y - 1
    u = y + -1
    lny = u + q(-1, 2) * u * u + q(1, 3) * u * u * u
    a = 2 - np.log(2) - np.euler_gamma
    a = one * a + -lny                      # k = aH is x = y
    p2, z3, out = np.pi**2, zeta(3), []
    for rate in (e1 + q(1, 2) * e2, e1):    # d ln(z/aH)/dN + e1 ... for z^2 = 2 a^2 e1 and z = a
        D = lambda w: -(y * w.dN())
        l1 = -(y.dN() + y * rate)
        l2 = D(l1)
        l3 = D(l2)
        f1, f2, f3 = l1, l2 + l1 * l1, l3 + 3 * l1 * l2 + l1 * l1 * l1
        F = (one + -2 * a * f1 + (3 * a * a + (-4 + q(5, 12) * p2)) * f1 * f1 + (-(a * a) + q(1, 12) * p2) * f2
             + (-4 * a * a * a + (16 - q(5, 3) * p2) * a + (-8 + 6 * z3)) * f1 * f1 * f1
             + (3 * a * a * a + (q(7, 12) * p2 - 8) * a + (4 - 2 * z3)) * f1 * f2
             + (q(-1, 3) * a * a * a + q(1, 12) * p2 * a + (q(2, 3) * z3 - q(4, 3))) * f3)
        out.append(F * (one + -2 * u + 3 * u * u + -4 * u * u * u))
    return out


def parameters(h):
    lam = h.real('lam', 0, sample=(0.04, 0.06))
    E = [h.real('E%d' % i, 0, sample=(0.5, 1.5)) for i in (1, 2, 3)]
    return lam, E


def scale(h, s):
    """ln(k/k*)"""
    if h.sym:
        s.logk = h.array('logk')
        s.sol.logk = s.logk[s.sol.inflation_mask]
        return s.sol.logk - h.np.log(h.module('primpy.parameters').K_STAR)
    return h.real('L', sample=(-1, -0.1))


ALL = [('CGS', 0), ('CGS', 1), ('CGS', 2), ('CGS', 3), ('STE', None), ('LLMS', None), ('ARBDS', 1), ('ARBDS', 2), ('ARBDS', 3)]


def mk(kind):
    @contract('P14', kind + '.local methods agree', T, samples=8, weight=3, noise=1e-10)
    def c(h):
        """Methods evaluating each scale at its own horizon crossing."""
        s = calibrated(h, kind)
        lam, E = parameters(h)
        e = [lam * x for x in E]
        flow(h, s, e, -0.0)
        S, T_ = spectra(h, s, 'STE', None)
        for n in (0, 1, 2, 3):
            a, b = spectra(h, s, 'CGS', n)
            h.order('scalar: CGS order %d agrees with STE' % n, (a - S) * e[0], min(n, 2), lam)
            h.order('tensor: CGS order %d agrees with STE' % n, b - T_, min(n, 2), lam)
        h.order('the consistency relation holds to leading order', T_ - 1, 0, lam)
        h.order('scalar: leading order', S * e[0] - 1, 0, lam)

    @contract('P14', kind + '.pivot methods agree', T, samples=8, weight=3, noise=1e-10)
    def c2(h):
        """Methods expanding around the pivot scale: at the pivot they agree with the local ones."""
        s = calibrated(h, kind)
        lam, E = parameters(h)
        e = [lam * x for x in E]
        L = scale(h, s)
        flow(h, s, e, L)
        np = h.np
        A, B = spectra(h, s, 'ARBDS', 2)
        a, b = spectra(h, s, 'LLMS', None)
        ln = lambda x: (x - 1) - (x - 1)**2 / 2
        h.order('scalar: LLMS agrees with ARBDS', np.log(a * e[0]) - ln(A * e[0]), 2, lam)
        h.order('tensor: LLMS agrees with ARBDS', np.log(b) - ln(B), 2, lam)
        A, B = spectra(h, s, 'ARBDS', 3)
        for n in (1, 2):
            a, b = spectra(h, s, 'ARBDS', n)
            h.order('scalar: ARBDS order %d agrees with the third' % n, (a - A) * e[0], n, lam)
            h.order('tensor: ARBDS order %d agrees with the third' % n, b - B, n, lam)

    @contract('P14', kind + '.pivot and local methods agree', T, samples=8, weight=3, noise=1e-10)
    def c3(h):
        s = calibrated(h, kind)
        lam, E = parameters(h)
        e = [lam * x for x in E]
        if h.sym:
            s.sol.logk = h.np.log(h.module('primpy.parameters').K_STAR) + 0 * s.sol.logk
        flow(h, s, e, -0.0)
        S, T_ = spectra(h, s, 'STE', None)
        A, B = spectra(h, s, 'ARBDS', 3)
        h.order('scalar: ARBDS agrees with STE at the pivot scale', (A - S) * e[0], 2, lam)
        h.order('tensor: ARBDS agrees with STE at the pivot scale', B - T_, 2, lam)
        a, b = spectra(h, s, 'LLMS', None)
        ln = lambda x: (x - 1) - (x - 1)**2 / 2
        h.order('scalar: LLMS agrees with STE at the pivot scale', h.np.log(a * e[0]) - ln(S * e[0]), 2, lam)
        h.order('tensor: LLMS agrees with STE at the pivot scale', h.np.log(b) - ln(T_), 2, lam)

    @contract('P14', kind + '.general slow roll', T, samples=8, weight=3, noise=1e-10)
    def c3b(h):
        """Every order is right through its order: the series follow from the mode equation."""
        s = calibrated(h, kind)
        lam, E = parameters(h)
        e = [lam * x for x in E]
        if h.sym:
            s.sol.logk = h.np.log(h.module('primpy.parameters').K_STAR) + 0 * s.sol.logk
        flow(h, s, e, 0)
        S, T_ = [f(e) for f in general_slow_roll(h)]
        for method, n in ALL:
            a, b = spectra(h, s, method, n)
            name = method + (' order %d' % n if n is not None else '')
            if method == 'LLMS':
                ln = lambda x: (x - 1) - (x - 1)**2 / 2
                h.order('scalar: mode equation, ' + name, h.np.log(a * e[0]) - ln(S), 2, lam)
                h.order('tensor: mode equation, ' + name, h.np.log(b) - ln(T_), 2, lam)
            else:
                h.order('scalar: mode equation, ' + name, a * e[0] - S, 2 if n is None else n, lam)
                h.order('tensor: mode equation, ' + name, b - T_, 2 if n is None else n, lam)

    @contract('P14', kind + '.power law', T, samples=8, weight=3, noise=1e-10)
    def c4(h):
        """Power-law inflation is solved exactly: nu = 3/2 + e/(1-e)."""
        s = calibrated(h, kind)
        lam = h.real('lam', 0, sample=(0.04, 0.06))
        if h.sym:
            s.sol.logk = h.np.log(h.module('primpy.parameters').K_STAR) + 0 * s.sol.logk
        flow(h, s, [lam, 0 * lam, 0 * lam], 0)
        np, zeta = h.np, h.module('primpy.inflation').zeta
        alpha = 2 - np.log(2) - np.euler_gamma
        d = lam + lam**2 + lam**3
        # ln of 2^(2 nu - 3) (Gamma(nu)/Gamma(3/2))^2 (1-e)^(2 nu - 1), through third order
        x = (2 * alpha * d + (np.pi**2 / 2 - 4) * d**2 + (16 - 14 * zeta(3)) * d**3 / 3
             - (2 + 2 * d) * (lam + lam**2 / 2 + lam**3 / 3))
        exact = 1 + x + x**2 / 2 + x**3 / 6
        for method, n in ALL:
            a, b = spectra(h, s, method, n)
            to = {'CGS': n, 'STE': 2, 'LLMS': 2, 'ARBDS': n}[method]
            name = method + (' order %d' % n if n is not None else '')
            if method == 'LLMS':
                h.order('scalar: exact solution, ' + name, np.log(a * lam) - x, to, lam)
                h.order('tensor: exact solution, ' + name, np.log(b) - x, to, lam)
            else:
                h.order('scalar: exact solution, ' + name, a * lam - exact, to, lam)
                h.order('tensor: exact solution, ' + name, b - exact, to, lam)

    @contract('P14', kind + '.pivot invariance', T, samples=8, weight=3, noise=1e-10)
    def c5(h):
        """The spectrum does not depend on the choice of the pivot scale."""
        s = calibrated(h, kind)
        lam, E = parameters(h)
        L = scale(h, s)
        for method, n in ALL[5:]:
            def f(j):
                def F(e1, e2, e3, l):
                    flow(h, s, [lam * e1, lam * e2, lam * e3], l)
                    r = spectra(h, s, method, n)[j]
                    if j == 0:
                        r = r * lam * e1
                    return h.np.log(r) if method == 'LLMS' else r
                return F
            rates = [lam * E[0] * E[1], lam * E[1] * E[2], 0 * lam, -(1 - lam * E[0])]
            xs = E + [s.logk if h.sym else L]
            to = {'LLMS': 2}.get(method, n)
            name = method + (' order %d' % n if n is not None else '')
            for j, what, tilt in ((0, 'scalar', -2 * lam * E[0] - lam * E[1]), (1, 'tensor', -2 * lam * E[0])):
                F = f(j)
                d = h.along(F, xs, rates)
                h.order('%s: independent of the pivot scale, %s' % (what, name),
                        d + tilt * (1 if method == 'LLMS' else F(*xs)), to, lam)

    @contract('P14', kind + '.flow parameters of the history', T, samples=6, weight=3, tol=1e-7)
    def c5b(h):
        """The flow parameters that enter (above: any numbers) are those of the history, where each scale crosses the
        horizon, or where the pivot scale does."""
        method, n = h.choose('method', ALL)
        K = h.choose('K', [0, 1])
        s = inflated(h, kind, K)
        sol = s.sol
        if h.sym:
            sol.logk, sol._N_cross = h.array('logk')[sol.inflation_mask], h.real('N_cross')
        elif K:
            sol.calibrate_scale_factor(Omega_K0=-h.real('Omega_K0', sample=(0.001, 0.05)), h=0.7)
        else:
            sol.calibrate_scale_factor(N_star=h.real('N_star', sample=(50, 60)))
        local = method in ('CGS', 'STE')
        derive = lambda: sol.derive_approx_power(method=method, **({} if n is None else {'order': n}))
        derive()
        got = sol.P_scalar_approx, sol.P_tensor_approx
        p = of_history(h, s, kind)
        m = sol.inflation_mask
        if local and h.sym:
            at = h.index('at', p['e1'])
            p = {q: v[at] for q, v in p.items()}
        elif not local:
            p = {q: h.interp(sol._N[m], v, sol._N_cross) for q, v in p.items()}
        install(s, p)
        derive()
        want = sol.P_scalar_approx, sol.P_tensor_approx
        if local and h.sym:
            got, want = [x[at] for x in got], [x[at] for x in want]
        h.eq('scalar spectrum', got[0], want[0])
        h.eq('tensor spectrum', got[1], want[1])

    @contract('P14', kind + '.wiring', T, samples=30, weight=3, tol=1e-9)
    def c6(h):
        """What is reported is the interpolated spectrum of the chosen method and order."""
        np = h.np
        method, n = h.choose('method', ALL)
        K = h.choose('K', [0, 1]) if not h.sym else 0
        s = calibrated(h, kind, method='STE') if K == 0 else inflated(h, kind, K)
        sol = s.sol
        if K:
            sol.calibrate_scale_factor(Omega_K0=-h.real('Omega_K0', sample=(0.001, 0.05)), h=0.7)
        kw = {} if n is None else {'order': n}
        # how to interpolate: as one asks for it
        opt = {} if h.choose('interpolation', ['default', 'other']) == 'default' else dict(k=4, ext='extrapolate')
        was = raw(h, sol)
        sol.derive_approx_power(method=method, **kw, **opt)
        if not h.sym:
            h.requires(all(1e-250 < x < 1e250 for x in (sol.A_s, sol.A_t)))   # extrapolation may overflow
        reported(h, sol, opt)
        k = h.real('k', 0, sample=(1e-3, 1))
        want = expected(h, sol, k, opt)
        h.eq('scalar spectrum just derived', sol.P_s_approx(k, method=None), want[0])
        h.eq('tensor spectrum just derived', sol.P_t_approx(k, method=None), want[1])
        if method == 'ARBDS':
            opt = {}                    # asked for by name it is derived anew
        ks = h.array('ks', sample=(1e-3, 1))
        h.everywhere(ks > 0)
        j, was_k = h.index('j', ks), ks + 0
        many = sol.P_s_approx(ks, method=method, **kw)[j], sol.P_t_approx(ks, method=method, **kw)[j]
        h.eq('the given wavenumbers are left alone', ks, was_k)
        kept(h, sol, was)
        want = expected(h, sol, ks[j], opt)
        h.eq('scalar spectrum of many scales', many[0], want[0])
        h.eq('tensor spectrum of many scales', many[1], want[1])
        want = expected(h, sol, k, opt)
        h.eq('scalar spectrum by method', sol.P_s_approx(k, method=method, **kw), want[0])
        h.eq('tensor spectrum by method', sol.P_t_approx(k, method=method, **kw), want[1])
        h.eq('scalar spectrum as last derived', sol.P_s_approx(k, method=None), want[0])
        h.eq('tensor spectrum as last derived', sol.P_t_approx(k, method=None), want[1])
        # whatever is asked for in between
        other, m = h.choose('other', [('CGS', 1), ('STE', None), ('LLMS', None), ('ARBDS', 2)])
        sol.derive_approx_power(method=other, **({} if m is None else {'order': m}), **opt)
        h.eq('scalar spectrum by method, after another', sol.P_s_approx(k, method=method, **kw), want[0])
        sol.derive_approx_power(method=other, **({} if m is None else {'order': m}), **opt)
        h.eq('tensor spectrum by method, after another', sol.P_t_approx(k, method=method, **kw), want[1])

    @contract('P14', kind + '.recalibrated', T, samples=20, weight=3, tol=1e-9)
    def c7(h):
        """Spectra belong to the current calibration."""
        s = inflated(h, kind, 0)
        sol = s.sol
        a, b = h.real('first', 0, sample=(50, 54)), h.real('second', 0, sample=(56, 60))
        h.requires(a <= sol.N_tot)
        h.requires(b <= sol.N_tot)
        method, n = h.choose('method', ALL)
        kw = {} if n is None else {'order': n}
        first = h.choose('calibrated with', ['CGS', 'STE', 'LLMS', 'ARBDS'])
        second = h.choose('then with', ['CGS', 'STE', 'LLMS', 'ARBDS'])
        k = h.real('k', 0, sample=(1e-3, 1))

        def ask(order):
            r = {q: getattr(sol, 'P_%s_approx' % q)(k, method=method, **kw) for q in order}
            return r['s'], r['t']
        sol.calibrate_scale_factor(N_star=a, method=first)
        before = ask('ts' if first in ('STE', 'LLMS') else 'st')
        sol.derive_approx_power(method=method, **kw)
        want = expected(h, sol, k)
        h.eq('scalar spectrum of the first calibration', before[0], want[0])
        h.eq('tensor spectrum of the first calibration', before[1], want[1])
        sol.calibrate_scale_factor(N_star=b, method=second)
        got = ask('ts' if second in ('CGS', 'LLMS') else 'st')
        sol.derive_approx_power(method=method, **kw)
        want = expected(h, sol, k)
        h.eq('scalar spectrum of the current calibration', got[0], want[0])
        h.eq('tensor spectrum of the current calibration', got[1], want[1])

    @contract('P14', kind + '.flow parameters', 'get_delta_*, get_epsilon_*H', tol=1e-6)
    def c8(h):
        """The field-acceleration parameters in terms of the flow parameters, as assumed above (flat universes)."""
        s = state(h, kind, K=0)
        h.requires(s.dphi != 0)
        if not h.sym:
            h.requires(abs(s.dphi) > 0.3)
        sc = 0 if h.sym else 1

        def par(name):
            def f(phi, dphi, N):
                c = St()
                V = [g(phi) for g in (s.pot.V, s.pot.dV, s.pot.d2V, s.pot.d3V)]
                _chain(h, s.eq, 0, phi, dphi, N, *V, c)
                q = dict(H=c.H, dH=c.dH)
                p = dict(dphi=dphi, d2phi=c.d2phi)
                return dict(
                    e1=lambda: s.eq.get_epsilon_1H(**q),
                    e2=lambda: s.eq.get_epsilon_2H(d2H=c.d2H, **q),
                    g2=lambda: s.eq.get_epsilon_2H(d2H=c.d2H, kind='Gong', **q),
                    g3=lambda: s.eq.get_epsilon_3H(d2H=c.d2H, d3H=c.d3H, kind='Gong', **q),
                    d1=lambda: s.eq.get_delta_1(**q, **p),
                    d2=lambda: s.eq.get_delta_2(d2H=c.d2H, d3phi=c.d3phi, **q, **p),
                    d3=lambda: s.eq.get_delta_3(d2H=c.d2H, d3H=c.d3H, d3phi=c.d3phi, d4phi=c.d4phi, **q, **p),
                    rate=lambda: (dphi, c.d2phi, c.H) if kind == 'time' else (dphi, c.d2phi, 1), H=lambda: c.H)[name]()
            return f
        x = [s.phi, s.dphi, s.N]
        v = {k: par(k)(*x) for k in ('e1', 'e2', 'g2', 'g3', 'd1', 'd2', 'd3', 'H', 'rate')}

        def rate(name):
            r = h.along(par(name), x, list(v['rate']))
            return r / v['H'] if kind == 'time' else r
        h.eq('first', v['d1'], v['e2'] / 2 - v['e1'], scale=sc)
        h.eq('second', v['d2'], rate('d1') + v['d1'] * (v['d1'] - v['e1']), scale=sc)
        h.eq('third', v['d3'], rate('d2') + v['d2'] * (v['d1'] - 2 * v['e1']), scale=sc)
        h.eq('second of Gong', v['g2'], v['e1'] * v['e2'], scale=sc)
        h.eq('third of Gong', v['g3'], rate('g2') - v['e1'] * v['g2'], scale=sc)


def expected(h, sol, k, opt={}):
    """The interpolated spectra that were derived last."""
    np = h.np
    m = (sol.P_scalar_approx > 0) & (sol.P_tensor_approx > 0)
    f = lambda P: np.exp(h.spline(sol.logk[m], np.log(P[m]), np.log(k), **opt))
    return f(sol.P_scalar_approx), f(sol.P_tensor_approx)


def reported(h, sol, opt):
    np = h.np
    K = np.log(h.module('primpy.parameters').K_STAR)
    m = (sol.P_scalar_approx > 0) & (sol.P_tensor_approx > 0)
    S = lambda n: h.spline(sol.logk[m], np.log(sol.P_scalar_approx[m]), K, n=n, **opt)
    T_ = lambda n: h.spline(sol.logk[m], np.log(sol.P_tensor_approx[m]), K, n=n, **opt)
    sc = 0 if h.sym else 1
    h.eq('scalar amplitude', sol.A_s, np.exp(S(0)))
    h.eq('scalar tilt', sol.n_s - 1, S(1), scale=sc)
    h.eq('running', sol.n_run, S(2), scale=sc)
    h.eq('running of the running', sol.n_runrun, S(3), scale=sc)
    h.eq('tensor amplitude', sol.A_t, np.exp(T_(0)))
    h.eq('tensor tilt', sol.n_t, T_(1), scale=sc)
    h.eq('tensor-to-scalar ratio', sol.r * sol.A_s, sol.A_t)


for kind in KINDS:
    mk(kind)
