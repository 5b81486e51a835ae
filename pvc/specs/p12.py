"""P12: calibration puts comoving scales, e-folds and horizon crossing on one consistent footing."""
from ..harness import contract
from .bg import inflated, KINDS, raw, kept


def consts(h):
    u, p = h.module('primpy.units'), h.module('primpy.parameters')
    return u, p


def relations(h, s, sol, K, mask, sc):
    """What every calibration guarantees."""
    np = h.np
    u, p = consts(h)
    for a, b in (('N', '_N'), ('N_beg', '_N_beg'), ('N_end', '_N_end'), ('N_cross', '_N_cross')):
        h.eq('%s is the calibrated %s' % (a, b), getattr(sol, a), getattr(sol, b) + sol.delta_N_calib, scale=sc)
    h.eq('e-folds left after horizon crossing', sol.N_star, sol.N_end - sol.N_cross, scale=sc)
    h.eq('e-folds passed before horizon crossing', sol.N_dagg, sol.N_cross - sol.N_beg, scale=sc)
    h.eq('wavenumber', sol.k_iMpc, np.exp(sol.logk))
    h.eq('the pivot scale crosses at its comoving Hubble rate', sol.logk - np.log(p.K_STAR),
         sol._logaH[sol.inflation_mask] - sol._logaH_star, scale=sc)
    h.eq('primordial wavenumber', sol._k, np.exp(sol._logaH[sol.inflation_mask]))
    h.eq('scale factor today in Mpc', sol.a0_Mpc * p.K_STAR, np.exp(sol._logaH_star))
    h.eq('e-folds today', np.exp(sol.N0), sol.a0)
    h.eq('a mode crosses when it equals the comoving Hubble horizon', sol.cHH_Mpc[sol.inflation_mask] * sol.k_iMpc,
         1 if not h.sym else np.ones_like(sol.k_iMpc))
    h.eq('comoving Hubble horizon at the end', sol.cHH_end_Mpc * np.exp(sol._logaH_end - sol._logaH_star) * p.K_STAR, 1)


def kwargs(h):
    return {'method': h.choose('method', ['CGS', 'LLMS', 'STE', 'ARBDS'])} if not h.sym else {'method': 'LLMS'}


def call(h, exc, label, sol, good, fn):
    """Calls fn; when `good` it must go through, otherwise it must raise `exc`."""
    if good is None:
        try:
            fn()
        except exc:
            return False
        except (TypeError, ValueError):
            # a pivot scale crossing within the first e-folds lies outside the tabulated approximations
            h.requires(h.sym or not getattr(sol, 'N_star', 0) > sol.N_tot - 12)
            raise
        return True
    if bool(good):
        fn()
        return True
    h.raises(label, exc, fn)
    return False


def mk(kind):
    @contract('P12', kind + '.flat.N_star', 'primpy.inflation.InflationEquations.sol.calibrate_scale_factor', samples=16, weight=5)
    def c(h):
        exc = h.module('primpy.exceptionhandling')
        u, p = consts(h)
        np = h.np
        s = inflated(h, kind, 0)
        sol = s.sol
        sc = 0 if h.sym else 1
        Ns = h.real('N_star', sample=(30, 80))
        h.requires(Ns > 0)
        if not h.sym:
            h.requires(Ns < sol.N_tot - 12 or Ns > sol.N_tot)
        mask = sol.inflation_mask
        was = raw(h, sol)
        f = lambda: sol.calibrate_scale_factor(N_star=Ns, **kwargs(h))
        if not call(h, exc.InsufficientInflationError, 'more e-folds than there are', sol, Ns <= sol.N_tot, f):
            return
        kept(h, sol, was)
        relations(h, s, sol, 0, mask, sc)
        h.eq('N_star as requested', sol.N_star, Ns)
        h.eq('scale factor today', sol.a0, 1)
        h.eq('flat today', sol.Omega_K0, 0)
        lx = h.interp(sol._N[mask], sol._logaH[mask], sol._N_end - Ns)
        h.eq('comoving Hubble rate at horizon crossing', sol._logaH_star, lx, scale=sc)
        h.eq('Hubble parameter at horizon crossing', np.log(sol.H_star), lx - (sol._N_end - Ns), scale=sc)
        for a in ('rho_reh_GeV', 'rho_reh_mp4', 'w_reh', 'DeltaN_reh', 'N_reh'):
            h.true('reheating is unknown', np.isnan(getattr(sol, a)))

    @contract('P12', kind + '.reheating', 'primpy.inflation.InflationEquations.sol.calibrate_scale_factor', samples=24, weight=5)
    def c2(h):
        exc = h.module('primpy.exceptionhandling')
        u, p = consts(h)
        np = h.np
        K = h.choose('K', [0, 1, -1])
        s = inflated(h, kind, K)
        sol = s.sol
        sc = 0 if h.sym else 1
        mask = sol.inflation_mask
        kw = {} if K == 0 else {'h': h.real('h', 0, sample=(0.5, 0.9))}
        dN, w = h.real('DeltaN_reh', 0, sample=(0.1, 4)), h.real('w_reh', h.frac(-1, 3), sample=(-0.2, 0.8))
        if h.choose('instant', [True, False]):
            pass
        else:
            h.requires(w != h.frac(1, 3))
            kw.update(DeltaN_reh=dN, w_reh=w)
        was = raw(h, sol)
        f = lambda: sol.calibrate_scale_factor(calibration_method='reheating', **kw, **kwargs(h))
        if not call(h, exc.InsufficientInflationError, '', sol, None, f):
            if K == 0:
                h.true('rejected only when the pivot scale never crosses',
                       (sol._logaH_star < sol._logaH_beg) | (sol._logaH_star > sol._logaH_end))
            else:
                h.true('rejected only when the pivot scale never crosses',
                       (np.log(p.K_STAR) < np.min(sol.logk)) | (np.log(p.K_STAR) > np.max(sol.logk)))
            return
        relations(h, s, sol, K, mask, sc)
        if K == 0:
            h.true('accepted only when the pivot scale crosses',
                   (sol._logaH_star >= sol._logaH_beg) & (sol._logaH_star <= sol._logaH_end))
            h.eq('horizon crossing at the comoving Hubble rate of the pivot scale', sol._N_cross,
                 h.interp(sol._logaH[mask], sol._N[mask], sol._logaH_star), scale=sc)
            h.eq('flat today', sol.Omega_K0, 0)
            h.eq('comoving Hubble rate of the pivot scale', np.exp(sol._logaH_star + sol.delta_N_calib) * u.Mpc_m,
                 p.K_STAR * u.lp_m)
        else:
            h.true('accepted only when the pivot scale crosses',
                   (np.log(p.K_STAR) >= np.min(sol.logk)) & (np.log(p.K_STAR) <= np.max(sol.logk)))
            h.eq('horizon crossing at the comoving Hubble rate of the pivot scale', sol._N_cross,
                 h.interp(sol.logk, sol._N[sol.inflation_mask], np.log(p.K_STAR)), scale=sc)
            H0 = kw['h'] * 100 * 1000
            h.eq('curvature today', sol.Omega_K0 * (sol.a0_Mpc * H0)**2, -K * u.c**2)
            h.eq('scale factor today', sol.a0 * u.lp_m, sol.a0_Mpc * u.Mpc_m)
        h.eq('end of reheating', sol.N_reh, sol._N_reh + sol.delta_N_calib, scale=sc)
        kept(h, sol, was)

    @contract('P12', kind + '.curved', 'primpy.inflation.InflationEquations.sol.calibrate_scale_factor', samples=20, weight=5)
    def c3(h):
        exc = h.module('primpy.exceptionhandling')
        u, p = consts(h)
        np = h.np
        K = h.choose('K', [1, -1])
        s = inflated(h, kind, K)
        sol = s.sol
        sc = 0 if h.sym else 1
        mask = sol.inflation_mask
        hub = h.real('h', 0, sample=(0.5, 0.9))
        Ok = -K * h.real('|Omega_K0|', 0, sample=(0.001, 0.1))
        f = lambda: sol.calibrate_scale_factor(Omega_K0=Ok, h=hub, **kwargs(h))
        if not call(h, exc.InsufficientInflationError, '', sol, None, f):
            h.true('rejected only when the pivot scale never crosses',
                   (np.log(p.K_STAR) < np.min(sol.logk)) | (np.log(p.K_STAR) > np.max(sol.logk)))
            return
        relations(h, s, sol, K, mask, sc)
        h.true('accepted only when the pivot scale crosses',
               (np.log(p.K_STAR) >= np.min(sol.logk)) & (np.log(p.K_STAR) <= np.max(sol.logk)))
        h.eq('curvature today as requested', sol.Omega_K0, Ok)
        h.eq('curvature today', Ok * (sol.a0_Mpc * hub * 100 * 1000)**2, -K * u.c**2)
        h.eq('scale factor today', sol.a0 * u.lp_m, sol.a0_Mpc * u.Mpc_m)
        h.eq('curved universes are calibrated from the start', sol.delta_N_calib, 0)
        h.eq('horizon crossing at the comoving Hubble rate of the pivot scale', sol._N_cross,
             h.interp(sol.logk, sol._N[sol.inflation_mask], np.log(p.K_STAR)), scale=sc)

    @contract('P12', kind + '.again', 'primpy.inflation.InflationEquations.sol.calibrate_scale_factor', samples=6, weight=4)
    def c4(h):
        """The calibration depends on the last request only."""
        np = h.np
        s = inflated(h, kind, 0)
        sol = s.sol
        a, b, d = (h.real(n, 0, sample=(25, 50)) for n in ('first', 'second', 'third'))
        for x in (a, b, d):
            h.requires(x <= sol.N_tot - (0 if h.sym else 12))
        get = ('_N_cross', 'N_star', 'delta_N_calib', '_logaH_star', 'H_star', 'N_dagg', 'N_end', 'DeltaN_minus1', 'a0_Mpc', 'logk',
               'k_iMpc', 'A_s', 'n_s', 'r', 'cHH_end_Mpc')
        sol.calibrate_scale_factor(N_star=a, method='LLMS')
        sol.calibrate_scale_factor(N_star=b, method='LLMS')
        first = {k: getattr(sol, k) for k in get}
        sol.calibrate_scale_factor(N_star=d, method='LLMS')
        sol.calibrate_scale_factor(N_star=b, method='LLMS', Omega_K0=0)
        for k in get:
            h.eq('independent of earlier calibrations: ' + k, getattr(sol, k), first[k], scale=0 if h.sym else 1)

    @contract('P12', kind + '.copied', 'primpy.inflation.InflationEquations.sol.calibrate_scale_factor', samples=6, weight=3)
    def c5(h):
        """A second solution calibrated by copying from a first one."""
        np = h.np
        u, p = consts(h)
        s = inflated(h, kind, 0)
        sol = s.sol
        b = h.bunch(delta_N_calib=h.real('delta', sample=(-150, -130)), _logaH_star=h.real('logaH_star', sample=(5, 9)),
                    _N_cross=h.real('cross', sample=(15, 20)), _N_reh=h.real('reh', sample=(80, 90)),
                    _N_end=h.real('end', sample=(70, 80)), N_star=h.real('star', 0, sample=(50, 60)))
        other = h.real('other', sample=(61, 70))
        h.requires(other != b.N_star)
        h.raises('a request that does not match is rejected', ValueError,
                 lambda: sol.calibrate_scale_factor(N_star=other, background=b))
        h.raises('a missing request is rejected', ValueError, lambda: sol.calibrate_scale_factor(background=b))
        sol.calibrate_scale_factor(N_star=b.N_star, background=b)
        sc = 0 if h.sym else 1
        for k in ('delta_N_calib', '_logaH_star', '_N_cross', '_N_reh', '_N_end', 'N_star'):
            h.eq('copied', getattr(sol, k), getattr(b, k))
        h.eq('e-folds', sol.N, sol._N + b.delta_N_calib, scale=sc)
        h.eq('e-folds at the end', sol.N_end, b._N_end + b.delta_N_calib, scale=sc)
        h.eq('e-folds at horizon crossing', sol.N_cross, b._N_cross + b.delta_N_calib, scale=sc)
        h.eq('e-folds at the start', sol.N_beg, sol._N_beg + b.delta_N_calib, scale=sc)
        h.eq('e-folds before horizon crossing', sol.N_dagg, b._N_cross - sol._N_beg, scale=sc)
        h.eq('wavenumber', sol.logk - np.log(p.K_STAR), sol._logaH[sol.inflation_mask] - b._logaH_star, scale=sc)
        h.eq('scale factor today', sol.a0_Mpc * p.K_STAR, np.exp(b._logaH_star))

    @contract('P12', kind + '.set_ns', 'primpy.inflation.InflationEquations.sol.set_ns', samples=6, weight=4, tol=1e-4,
              assumes=['root_scalar returns a zero of its function in the bracket'])
    def c6(h):
        exc = h.module('primpy.exceptionhandling')
        np = h.np
        K = h.choose('K', [0, 1])
        s = inflated(h, kind, K)
        sol = s.sol
        if K:
            h.raises('only for flat universes', exc.PrimpyError, lambda: sol.set_ns(0.96))
            return
        n = h.real('n_s', sample=(0.9, 0.985))
        lo, hi = h.real('lo', 0, sample=(20, 30)), h.real('hi', 0, sample=(42, 50))
        h.requires(lo < hi)
        h.requires(hi <= sol.N_tot - (0 if h.sym else 12))
        if h.sym:
            h.hook('scramble_root', True)
        lim = {}
        for x, k in ((lo, 'lo'), (hi, 'hi'), (lo, 'lo'), (hi, 'hi')):
            sol.calibrate_scale_factor(N_star=x)
            lim[k] = sol.n_s
        out = (bool(lim['lo'] > n) and bool(lim['hi'] > n)) or (bool(lim['lo'] < n) and bool(lim['hi'] < n))
        if out:
            h.raises('a tilt out of reach is announced', exc.PrimpyError, lambda: sol.set_ns(n, N_star_min=lo, N_star_max=hi))
            return
        rho = h.real('rho', 0, sample=(1e3, 1e9))
        sol.set_ns(n, N_star_min=lo, N_star_max=hi, rho_reh_GeV=rho)
        h.eq('the tilt is the requested one', sol.n_s, n)
        h.eq('reheating is passed on', sol.rho_reh_GeV, rho)
        h.true('the e-folds lie in the bracket', (lo <= sol.N_star) & (sol.N_star <= hi))

    @contract('P12', kind + '.requests', 'primpy.inflation.InflationEquations.sol.calibrate_scale_factor', samples=4)
    def c7(h):
        K = h.choose('K', [0, 1, -1])
        s = inflated(h, kind, K)
        f = s.sol.calibrate_scale_factor
        E = (ValueError, NotImplementedError)
        if K == 0:
            bad = dict(curvature=dict(N_star=50, Omega_K0=0.01), nothing={}, zero=dict(N_star=0), negative=dict(N_star=-1),
                       unknown=dict(N_star=50, calibration_method='Omega_K0'), other=dict(N_star=50, calibration_method='x'),
                       no_method=dict(calibration_method='x', w_reh=0.1, rho_reh_GeV=1e9))
        else:
            bad = dict(e_folds=dict(N_star=50, Omega_K0=-K * 0.01, h=0.7), no_h=dict(Omega_K0=-K * 0.01),
                       zero_h=dict(Omega_K0=-K * 0.01, h=0), negative_h=dict(Omega_K0=-K * 0.01, h=-1), nothing=dict(h=0.7),
                       flat=dict(h=0.7, Omega_K0=0), geometry=dict(h=0.7, Omega_K0=K * 0.01),
                       both=dict(h=0.7, Omega_K0=-K * 0.01, calibration_method='reheating'),
                       unknown=dict(h=0.7, Omega_K0=-K * 0.01, calibration_method='N_star'),
                       no_method=dict(h=0.7, calibration_method='x', w_reh=0.1, rho_reh_GeV=1e9))
        for k, v in bad.items():
            h.raises('contradictory or incomplete request: ' + k, E, lambda: f(**v))


for kind in KINDS:
    mk(kind)
