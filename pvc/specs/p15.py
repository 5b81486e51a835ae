"""P15: the standard Big Bang obeys the Friedmann equation, in all units, and its special cases are classified correctly."""
from ..harness import contract
from . import hist
from .pots import elementwise

M = 'primpy.bigbang.'


def params(h, flat=None):
    m = h.module('primpy.bigbang')
    hub = h.real('h', 0, sample=(0.4, 1.0))
    Om = h.real('Omega_m0', 0, sample=(0.05, 0.9))
    if flat is None:
        flat = h.choose('flat', [True, False])
    OK = 0 if flat else h.real('Omega_K0', sample=(-0.2, 0.2))
    if not flat:
        h.requires(OK != 0)
    return m, hub, Om, OK


def expanding(h, m, hub, Om, OK):
    """Omega_L0 and the requirement that there is a Big Bang and no recollapse"""
    OL = 1 - m.get_Omega_r0(hub) - Om - OK
    h.requires(OL <= m.no_Big_Bang_line(Om))
    h.requires(OL >= m.expand_recollapse_line(Om))
    return OL


@contract('P15', 'Friedmann', M + 'Hubble_parameter')
def c(h):
    m, hub, Om, OK = params(h)
    u = h.module('primpy.units')
    p = h.module('primpy.parameters')
    np = h.np
    N0 = 0 if OK == 0 else np.log(m.get_a0(hub, OK))
    N = h.real('N', sample=(-20, 3)) + N0
    OL = expanding(h, m, hub, Om, OK)
    H = m.Hubble_parameter(N=N, Omega_m0=Om, Omega_K0=OK, h=hub, units='SI')
    H0 = hub * 100 * 1000 / u.Mpc_m
    x = np.exp(N0 - N)
    rho_c = 3 * H0**2 / (8 * np.pi * u.G)
    # matter, radiation, curvature and a cosmological constant; radiation follows from its temperature
    want = (8 * np.pi * u.G / 3 * p.rho_r0_kg_im3 * x**4 + H0**2 * (Om * x**3 + OK * x**2 + OL))
    h.requires(want > 0)
    h.eq('Friedmann equation', H**2, want)
    h.eq('critical density', m.get_rho_crit_kg_im3(hub), rho_c)
    h.eq('radiation density', m.get_Omega_r0(hub) * rho_c, p.rho_r0_kg_im3)
    if OK != 0:
        # K / a^2 with K = -sign(Omega_K0), in reduced Planck units
        Hp = m.Hubble_parameter(N=N, Omega_m0=Om, Omega_K0=OK, h=hub)
        K = -1 if bool(OK > 0) else 1
        h.eq('the curvature term is K/a^2', Hp**2 - H**2 * u.tp_s**2, 0, scale=1)
        h.eq('curvature density', OK * x**2 * (H0 * u.tp_s)**2, -K * np.exp(-2 * N))
    h.eq('Hubble parameter today', m.Hubble_parameter(N=N0, Omega_m0=Om, Omega_K0=OK, h=hub, units='SI'), H0)


@contract('P15', 'arrays', M + 'Hubble_parameter, comoving_Hubble_horizon, conformal_time (arrays)', samples=6,
          assumes=['quad integrates'])
def c1(h):
    m, hub, Om, OK = params(h)
    kw = dict(Omega_m0=Om, Omega_K0=OK, h=hub)
    N0 = 0 if OK == 0 else m.np.log(m.get_a0(hub, OK))
    expanding(h, m, hub, Om, OK)
    off = 0 if h.sym else float(N0)
    for name, us in (('Hubble_parameter', ('planck', 'H0', 'SI')), ('comoving_Hubble_horizon', ('planck', 'Mpc', 'SI'))):
        for unit in us:
            Ns = h.array('Ns', sample=(off - 20, off + 3))
            elementwise(h, '%s in %s' % (name, unit), lambda x: getattr(m, name)(N=x, units=unit, **kw), Ns)


@contract('P15', 'units', M + 'Hubble_parameter, comoving_Hubble_horizon, get_a0, get_H0')
def c2(h):
    m, hub, Om, OK = params(h)
    u = h.module('primpy.units')
    np = h.np
    N0 = 0 if OK == 0 else np.log(m.get_a0(hub, OK))
    N = h.real('N', sample=(-20, 3)) + N0
    expanding(h, m, hub, Om, OK)
    H = {k: m.Hubble_parameter(N=N, Omega_m0=Om, Omega_K0=OK, h=hub, units=k) for k in ('planck', 'H0', 'SI')}
    h.requires(H['SI'] > 0)
    h.eq('Hubble parameter in 1/s and in km/s/Mpc', H['SI'] * u.Mpc_m, H['H0'] * 1000)
    h.eq('Hubble parameter in 1/s and in Planck units', H['SI'] * u.tp_s, H['planck'])
    h.eq('Hubble constant', [m.get_H0(hub, k) / m.get_H0(hub, 'SI') for k in ('planck', 'H0', 'SI')],
         [u.tp_s, u.Mpc_m / 1000, 1])
    h.eq('the default are Planck units', m.get_H0(hub), m.get_H0(hub, 'planck'))
    a0 = {k: m.get_a0(hub, OK, units=k) for k in ('planck', 'Mpc', 'SI')}
    if OK == 0:
        h.eq('the scale factor of a flat universe is one today', list(a0.values()), [1, 1, 1])
    else:
        h.eq('scale factor in m and in Planck lengths', a0['SI'], a0['planck'] * u.lp_m)
        h.eq('scale factor in m and in Mpc', a0['SI'], a0['Mpc'] * u.Mpc_m)
        h.eq('the radius of curvature', a0['SI'] * h.np.sqrt(OK if bool(OK > 0) else -OK) * m.get_H0(hub, 'SI'), u.c)
    r = {k: m.comoving_Hubble_horizon(N=N, Omega_m0=Om, Omega_K0=OK, h=hub, units=k) for k in ('planck', 'Mpc', 'SI')}
    h.eq('comoving Hubble horizon', r['planck'] * np.exp(N) * H['planck'], a0['planck'])
    h.eq('comoving Hubble horizon in m', r['SI'] * np.exp(N - N0) * H['SI'], u.c)
    h.eq('comoving Hubble horizon in Mpc', r['Mpc'] * u.Mpc_m, r['SI'])
    if OK != 0:
        h.eq('comoving Hubble horizon in Planck units', r['planck'] * u.lp_m, r['SI'])
    for f in (lambda: m.get_H0(hub, 'x'), lambda: m.Hubble_parameter(N, Om, OK, hub, units='x')):
        h.raises('unknown units', NotImplementedError, f)
    if OK != 0:
        h.raises('unknown units', NotImplementedError, lambda: m.get_a0(hub, OK, 'x'))
    h.eq('epoch of nucleosynthesis', np.exp(m.get_N_BBN(hub, OK)) * (1 + h.module('primpy.parameters').z_BBN), a0['planck'])


def matter(h, which):
    """Omega_m0, and a0 / a at which H would vanish, through (1 - Omega_m0) / Omega_m0 = 4 c^3 - 3 c = cosh(3 t), cos(3 t)

    Every Omega_m0 inside a branch is reached, since that polynomial grows from -1 at c = 1/2 over 0 at sqrt(3)/2 and 1
    at c = 1 to infinity.
    """
    c = h.real('c', h.frac(1, 2) if which != 'underdense' else 1, 1 if which != 'underdense' else None,
               sample={'underdense': (1.01, 4), 'dense': (0.6, 0.999), 'recollapse': (0.6, 0.866)}[which])
    Om = 1 / (1 + 4 * c**3 - 3 * c)
    # what the range of c means for Omega_m0
    h.requires(Om > 0)
    h.requires({'underdense': 2 * Om < 1, 'dense': 2 * Om > 1, 'recollapse': Om > 1}[which])
    if which == 'recollapse':
        h.requires(4 * c**2 < 3)
        return Om, -c / 2 + h.np.sqrt(3 * (1 - c**2)) / 2
    return Om, c


def double_root(h, f, L, Om, c, y):
    """with H^2 / H0^2 = f(a0 / a) and a double root at a0 / a = 2 c"""
    sc = 0 if h.sym else 1 + abs(L) + Om * (c**3 + y**3)
    h.eq('the expansion stops', f(2 * c), 0, scale=sc)
    h.eq('on the line H^2 is a square times a line', f(y), Om * (y - 2 * c)**2 * (y + c), scale=sc)
    h.eq('value', L, 4 * Om * c**3, scale=sc)
    h.eq('position', 2 * (Om + L - 1), 6 * Om * c, scale=sc)


@contract('P15', 'no Big Bang line', M + 'no_Big_Bang_line')
def c3(h):
    """On the line the universe loiters: H^2 has a double root in the past."""
    Om, c = matter(h, h.choose('branch', ['underdense', 'dense']))
    L = h.module('primpy.bigbang').no_Big_Bang_line(Om)
    y = h.real('y', sample=(0.3, 40))
    double_root(h, lambda z: Om * z**3 + (1 - Om - L) * z**2 + L, L, Om, c, y)
    h.le('in the past', 1, 2 * c)


@contract('P15', 'recollapse line', M + 'expand_recollapse_line')
def c4(h):
    Om, c = matter(h, 'recollapse')
    L = h.module('primpy.bigbang').expand_recollapse_line(Om)
    y = h.real('y', sample=(0.01, 1))
    double_root(h, lambda z: Om * z**3 + (1 - Om - L) * z**2 + L, L, Om, c, y)
    h.le('in the future', 0, c) if h.sym else h.le('in the future', -1e-12, c)
    h.le('in the future', 2 * c, 1)


@contract('P15', 'special values', M + 'no_Big_Bang_line, expand_recollapse_line', samples=8)
def c5(h):
    m = h.module('primpy.bigbang')
    Om = h.real('Omega_m0', hi=0, sample=(-2, -0.1))
    h.raises('negative matter density', ValueError, lambda: m.no_Big_Bang_line(Om))
    h.raises('negative matter density', ValueError, lambda: m.expand_recollapse_line(Om))
    h.eq('no matter: de Sitter', m.no_Big_Bang_line(0), 1)
    h.eq('no matter', m.expand_recollapse_line(0), 0)
    low = h.real('low', 0, sample=(0.01, 0.99))
    h.requires(low < 1)
    h.eq('undercritical matter needs a negative cosmological constant to recollapse', m.expand_recollapse_line(low), 0)
    h.eq('the branches join', m.no_Big_Bang_line(h.frac(1, 2)), 2)
    h.eq('the branches join at critical density', m.expand_recollapse_line(1), 0, scale=0 if h.sym else 1)


@contract('P15', 'classified', M + 'Hubble_parameter', samples=60)
def c6(h):
    """Universes without a Big Bang are rejected and recollapsing ones announced: exactly those."""
    m, exc = h.module('primpy.bigbang'), h.module('primpy.exceptionhandling')
    hub = h.real('h', 0, sample=(0.4, 1.0))
    Om = h.real('Omega_m0', 0, sample=(0.05, 2.5))
    OK = h.real('Omega_K0', sample=(-3, 1))
    h.requires(OK != 0)
    N = m.np.log(m.get_a0(hub, OK))
    OL = 1 - m.get_Omega_r0(hub) - Om - OK
    h.clear_warnings()
    f = lambda: m.Hubble_parameter(N=N, Omega_m0=Om, Omega_K0=OK, h=hub)
    if bool(OL > m.no_Big_Bang_line(Om)):
        h.raises('no Big Bang', exc.BigBangError, f)
    else:
        f()
        h.eq('recollapse is announced', bool(h.warned(exc.BigBangWarning)), bool(OL < m.expand_recollapse_line(Om)))


@contract('P15', 'expansion', M + 'Hubble_parameter')
def c7(h):
    """With a Big Bang, H never vanishes in the past."""
    m, np = h.module('primpy.bigbang'), h.np
    hub = h.real('h', 0, sample=(0.4, 1.0))
    Om, c = matter(h, h.choose('branch', ['underdense', 'dense']))
    OK = h.real('Omega_K0', sample=(-3, 1))
    h.requires(OK != 0)
    N0 = np.log(m.get_a0(hub, OK))
    z = h.real('z', 0, sample=(0.01, 50))
    OL = expanding(h, m, hub, Om, OK)
    L = m.no_Big_Bang_line(Om)
    Or = m.get_Omega_r0(hub)
    x = 1 + z
    # each term is positive
    sq = Om * (x - 2 * c)**2 * (x + c) + (L - OL) * (x**2 - 1) + Or * (x**4 - x**2)
    H = m.Hubble_parameter(N=N0 - np.log(x), Omega_m0=Om, Omega_K0=OK, h=hub) / m.get_H0(hub)
    h.le('below the line', OL, L)
    h.lt('matter and radiation', 0, Om)
    h.lt('matter and radiation', 0, Or)
    h.lt('after the double root', 0, x + c)
    h.requires(sq > 0)
    h.eq('a sum of positive terms', H**2, sq)


@contract('P15', 'conformal time', M + 'conformal_time', samples=6, assumes=['quad integrates'])
def c8(h):
    m, hub, Om, OK = params(h)
    np = h.np
    N0 = 0 if OK == 0 else np.log(m.get_a0(hub, OK))
    expanding(h, m, hub, Om, OK)
    beg, N = N0 + h.real('beg', sample=(-20, -5)), N0 + h.real('N', sample=(-4, 0))
    kw = dict(Omega_m0=Om, Omega_K0=OK, h=hub)
    H = lambda n: m.Hubble_parameter(N=n, **kw)
    quad = h.module('primpy.bigbang').integrate.quad
    want = quad(lambda n: np.exp(-n) / H(n), beg, N)[0]
    h.eq('d eta = dN / (a H)', m.conformal_time(N_start=beg, N=N if h.sym else float(N), **kw)[0], want)
    N2 = N0 + h.real('N2', sample=(-4, 0))
    both = m.conformal_time(N_start=beg, N=np.array([N, N2]), **kw)
    h.eq('array of times', [both[0], both[1]], [want, quad(lambda n: np.exp(-n) / H(n), beg, N2)[0]])
    h.raises('anything else is rejected', TypeError, lambda: m.conformal_time(N_start=beg, N='1', **kw))


@contract('P15', 'conformal time ratio', M + 'conformal_time_ratio', samples=6, assumes=['quad integrates'])
def c9(h):
    """Time passed before and after the end of inflation, on the scale of the calibrated scale factor."""
    m, hub, Om, OK = params(h)
    np = h.np
    a0 = m.get_a0(hub, OK)
    expanding(h, m, hub, Om, OK)
    delta = 0 if OK != 0 else h.real('delta_N_calib', sample=(-150, -130))
    N_end = np.log(a0) + h.real('N_end', sample=(-66, -60))
    eta = h.array('eta')
    b = h.bunch(eta=eta, a0=a0, delta_N_calib=delta, N_end=N_end, _N_end=N_end - delta)
    back = h.bunch(eta=h.array('eta_back')) if h.choose('backward', [True, False]) else None
    kw = dict(Omega_m0=Om, Omega_K0=OK, h=hub)
    t0 = eta[0] if back is None else back.eta[-1]
    after = m.integrate.quad(lambda n: np.exp(-n) / m.Hubble_parameter(N=n, **kw), N_end, np.log(a0))[0]
    h.requires(after != 0)
    # a grows by exp(delta) through the calibration: conformal times shrink by it
    h.eq('ratio', m.conformal_time_ratio(b_forward=b, b_backward=back, **kw) * after, (eta[-1] - t0) * np.exp(-delta))


@contract('P15', 'reheating from horizons', M + 'get_w_delta_reh')
def c10(h):
    m = h.module('primpy.bigbang')
    N1, d = h.real('N_end', sample=(50, 70)), h.real('duration', 0, sample=(0.5, 5))
    w, l1 = h.real('w', sample=(-0.5, 1)), h.real('log_cHH_end', sample=(-70, -60))
    # H falls with a^(-3(1+w)/2)
    l2 = l1 - d + h.frac(3, 2) * (1 + w) * d
    h.eq('recovers equation of state and duration', m.get_w_delta_reh(N1, N1 + d, l1, l2), [w, d], scale=0 if h.sym else 1)


hist.big_bang()
