"""P13: reheating details agree with each other, whatever was requested."""
from ..harness import contract
from .bg import inflated, KINDS

NAMES = ('rho_reh_GeV', 'rho_reh_mp4', 'w_reh', 'DeltaN_reh', 'N_reh')


def relations(h, sol, g_th, sc):
    """A universe whose reheating is known: continuity equation, bookkeeping, units, and conservation of entropy."""
    np = h.np
    u, p = h.module('primpy.units'), h.module('primpy.parameters')
    rho = sol.rho_reh_mp4
    h.eq('energy dilutes with the equation of state from the end of inflation', np.log(rho / (h.frac(3, 2) * sol.V_end)),
         -3 * (1 + sol.w_reh) * sol.DeltaN_reh, scale=sc)
    h.eq('energy density in GeV', sol.rho_reh_GeV**4 * u.lp_iGeV**3, rho * u.mp_GeV)
    h.eq('reheating lasts from the end of inflation', sol.N_reh, sol.N_end + sol.DeltaN_reh, scale=sc)
    h.eq('reheating lasts from the end of inflation (uncalibrated)', sol._N_reh, sol._N_end + sol.DeltaN_reh, scale=sc)
    h.eq('reheating parameter', 4 * sol.DeltaN_minus1, sol.DeltaN_reh * (1 - 3 * sol.w_reh), scale=sc)
    # entropy: g_th (a_reh T_reh)^3 = g0 (a0 T0)^3 with rho = pi^2/30 g_th T_reh^4
    T4 = 30 * rho / (np.pi**2 * g_th)
    h.eq('entropy is conserved since the end of reheating',
         np.log(g_th) / 3 + sol.N_reh + np.log(T4) / 4, np.log(p.g0) / 3 + sol.N0 + np.log(p.T_CMB_Tp), scale=sc)


def warnings(h, sol):
    exc = h.module('primpy.exceptionhandling')
    if bool(sol.DeltaN_reh < 0) or bool(sol.N_reh > sol.N0):
        h.true('an impossible reheating is announced', h.warned(exc.PrimpyWarning))
    else:
        h.true('nothing to announce', not h.warned(exc.PrimpyWarning))


def attempt(h, fn):
    exc = h.module('primpy.exceptionhandling')
    try:
        fn()
    except exc.InsufficientInflationError:     # decided by P12
        return False
    return True


def mk(kind):
    def start(h, K):
        s = inflated(h, kind, K)
        g = h.real('g_th', 0, sample=(20, 300)) if h.choose('g_th given', [True, False]) else None
        kw = {'method': h.choose('method', ['LLMS', 'STE'])} if not h.sym else {'method': 'LLMS'}
        if g is not None:
            kw['g_th'] = g
        h.clear_warnings()
        return s.sol, kw, 100 if g is None else g, 0 if h.sym else 1

    T = 'primpy.inflation.InflationEquations.sol.calibrate_scale_factor'

    @contract('P13', kind + '.flat.N_star', T, samples=30, weight=4)
    def c(h):
        sol, kw, g, sc = start(h, 0)
        Ns = h.real('N_star', 0, sample=(48, 60))
        h.requires(Ns <= sol.N_tot)
        what = h.choose('request', ['w_reh', 'rho_reh_GeV'])
        if what == 'rho_reh_GeV':
            x = h.real('rho_reh_GeV', 0, sample=(1e2, 1e16))
        else:
            x = h.real('w_reh', sample=(-0.5, 1.0))
        f = lambda: sol.calibrate_scale_factor(N_star=Ns, **{what: x}, **kw)
        if what == 'rho_reh_GeV':
            # the end of reheating follows from entropy alone; it must not coincide with the end of inflation
            f_end = end_of_reheating(h, x, g)
            sol_N_end = pivot_N_end(h, sol, Ns)
            h.requires(f_end != sol_N_end)
            f()
            h.eq('as requested', sol.rho_reh_GeV, x)
        else:
            if bool(x == h.frac(1, 3)):
                h.raises('instant reheating fixes N_star', ValueError, f)
                return
            R = -(pivot_N_end(h, sol, Ns) + g_part(h, g) + h.np.log(sol.V_end) / 4)
            dN = 4 * R / (1 - 3 * x)
            if bool(x < -h.frac(1, 3)) or bool(dN < 0):
                h.raises('reheating cannot inflate or end before inflation', ValueError, f)
                return
            f()
            h.eq('as requested', sol.w_reh, x)
        relations(h, sol, g, sc)
        warnings(h, sol)

    def g_part(h, g):
        p = h.module('primpy.parameters')
        return h.np.log(45 / h.np.pi**2) / 4 - h.np.log(p.g0) / 3 + h.np.log(g) / 12 - h.np.log(p.T_CMB_Tp)

    def pivot_N_end(h, sol, Ns):
        p = h.module('primpy.parameters')
        m = sol.inflation_mask
        return sol._N_end + h.np.log(p.K_STAR_lp) - h.interp(sol._N[m], sol._logaH[m], sol._N_end - Ns)

    def end_of_reheating(h, rho, g):
        u, p = h.module('primpy.units'), h.module('primpy.parameters')
        mp4 = rho**4 * u.lp_iGeV**3 / u.mp_GeV
        return -(g_part(h, g) + h.np.log(h.frac(2, 3) * mp4) / 4)

    @contract('P13', kind + '.reheating', T, samples=60, weight=5)
    def c2(h):
        K = h.choose('K', [0, 1, -1])
        sol, kw, g, sc = start(h, K)
        if K:
            kw['h'] = h.real('h', 0, sample=(0.5, 0.9))
        what = h.choose('request', ['instant', 'w+DeltaN', 'w+rho'] + (['DeltaN_minus1', 'DeltaN_minus1+rho'] if not K else []))
        req = {}
        if what == 'instant':
            req = h.choose('how', [{}, dict(w_reh=h.frac(1, 3)), dict(DeltaN_reh=0), dict(DeltaN_minus1=0),
                                   dict(w_reh=h.frac(1, 3), DeltaN_reh=0), dict(w_reh=h.frac(1, 3), DeltaN_reh=0, DeltaN_minus1=0)])
        if what.startswith('w+'):
            req['w_reh'] = w = h.real('w_reh', h.frac(-1, 3), closed=True, sample=(-0.3, 1.0))
            h.requires(w != h.frac(1, 3))
        if what == 'w+DeltaN':
            req['DeltaN_reh'] = h.real('DeltaN_reh', 0, sample=(0.1, 5))
        if what.endswith('rho'):
            req['rho_reh_GeV'] = h.real('rho_reh_GeV', 0, sample=(1e9, 3e16))
        if what.startswith('DeltaN_minus1'):
            req['DeltaN_minus1'] = x = h.real('DeltaN_minus1', sample=(-2, 2))
            h.requires(x != 0)
            if what.endswith('rho'):
                N_end = -(g_part(h, g) + h.np.log(sol.V_end) / 4) - x
                h.requires(N_end != end_of_reheating(h, req['rho_reh_GeV'], g))
        if not attempt(h, lambda: sol.calibrate_scale_factor(calibration_method='reheating', **req, **kw)):
            return
        for k, v in req.items():
            h.eq('as requested', getattr(sol, k), v)
        if what == 'DeltaN_minus1':
            for k in NAMES:
                h.true('details of reheating are unknown', h.np.isnan(getattr(sol, k)))
            h.eq('the parameter shifts the end of inflation', sol.N_end - sol.N0,
                 -(g_part(h, g) + h.np.log(sol.V_end) / 4) - x, scale=sc)
            return
        if what == 'instant':
            h.eq('instant', (sol.DeltaN_reh, sol.w_reh, sol.DeltaN_minus1), (0, h.frac(1, 3), 0))
        relations(h, sol, g, sc)
        warnings(h, sol)

    @contract('P13', kind + '.curved.Omega_K0', T, samples=30, weight=4)
    def c3(h):
        K = h.choose('K', [1, -1])
        sol, kw, g, sc = start(h, K)
        u = h.module('primpy.units')
        hub = h.real('h', 0, sample=(0.5, 0.9))
        Ok = h.real('|Omega_K0|', 0, sample=(0.001, 0.1))
        rho = h.real('rho_reh_GeV', 0, sample=(1e9, 3e16)) if h.choose('rho given', [True, False]) else None
        if rho is not None:
            N0 = h.np.log(u.c / (hub * 100 * 1000 * h.np.sqrt(Ok)) * u.Mpc_m / u.lp_m)
            h.requires(N0 + end_of_reheating(h, rho, g) != sol._N_end)
        if not attempt(h, lambda: sol.calibrate_scale_factor(Omega_K0=-K * Ok, h=hub, rho_reh_GeV=rho, **kw)):
            return
        if rho is None:
            for k in ('rho_reh_GeV', 'w_reh', 'DeltaN_reh', 'N_reh'):
                h.true('details of reheating are unknown', h.np.isnan(getattr(sol, k)))
            return
        h.eq('as requested', sol.rho_reh_GeV, rho)
        h.eq('energy dilutes with the equation of state from the end of inflation',
             h.np.log(sol.rho_reh_mp4 / (h.frac(3, 2) * sol.V_end)), -3 * (1 + sol.w_reh) * sol.DeltaN_reh, scale=sc)
        h.eq('energy density in GeV', sol.rho_reh_GeV**4 * u.lp_iGeV**3, sol.rho_reh_mp4 * u.mp_GeV)
        h.eq('reheating lasts from the end of inflation', sol.N_reh, sol.N_end + sol.DeltaN_reh, scale=sc)
        h.eq('reheating parameter', 4 * sol.DeltaN_minus1, sol.DeltaN_reh * (1 - 3 * sol.w_reh), scale=sc)
        relations(h, sol, g, sc)
        warnings(h, sol)

    @contract('P13', kind + '.requests', T, samples=6, weight=2)
    def c4(h):
        K = h.choose('K', [0, 1, -1])
        sol, kw, g, sc = start(h, K)
        f = lambda **r: sol.calibrate_scale_factor(**dict(kw, **r))
        if K:
            kw['h'] = h.real('h', 0, sample=(0.5, 0.9))
        E = (ValueError, NotImplementedError)
        w = h.real('w', h.frac(-1, 3), sample=(-0.3, 0.3))
        h.requires(w != h.frac(1, 3))
        d, r = h.real('d', 0, sample=(0.2, 2)), h.real('r', 0, sample=(1e9, 1e14))
        x = h.real('x', sample=(0.1, 1))
        h.requires(x != 0)
        low = h.real('low', hi=h.frac(-1, 3), sample=(-0.9, -0.4))
        kw['calibration_method'] = 'reheating'
        bad = dict(only_w=dict(w_reh=w), only_dN=dict(DeltaN_reh=d), only_rho=dict(rho_reh_GeV=r),
                   all=dict(w_reh=w, DeltaN_reh=d, rho_reh_GeV=r), dN_rho=dict(DeltaN_reh=d, rho_reh_GeV=r),
                   negative=dict(w_reh=w, DeltaN_reh=-d), inflating=dict(w_reh=low, DeltaN_reh=d),
                   instant_w=dict(w_reh=h.frac(1, 3), DeltaN_reh=d), instant_dN=dict(w_reh=w, DeltaN_reh=0),
                   instant_rho=dict(w_reh=h.frac(1, 3), rho_reh_GeV=r), instant_m1=dict(DeltaN_minus1=0, w_reh=w),
                   instant_m1b=dict(DeltaN_minus1=x, DeltaN_reh=0))
        if not K:
            bad.update(agnostic_w=dict(DeltaN_minus1=x, w_reh=w), agnostic_dN=dict(DeltaN_minus1=x, DeltaN_reh=d))
        else:
            bad.update(agnostic=dict(DeltaN_minus1=x))
        for k, v in bad.items():
            h.raises('contradictory or incomplete: ' + k, E, lambda: f(**v))
        if not K:
            Ns = h.real('N_star', 0, sample=(50, 60))
            h.requires(Ns <= sol.N_tot)
            kw['calibration_method'] = 'N_star'
            bad = dict(dN=dict(DeltaN_reh=d), w_dN=dict(w_reh=w, DeltaN_reh=d), w_rho=dict(w_reh=w, rho_reh_GeV=r),
                       all=dict(w_reh=w, DeltaN_reh=d, rho_reh_GeV=r), dN_rho=dict(DeltaN_reh=d, rho_reh_GeV=r))
            for k, v in bad.items():
                h.raises('contradictory or incomplete with N_star: ' + k, E, lambda: f(N_star=Ns, **v))


@contract('P13', 'is_instant_reheating', 'primpy.reheating.is_instant_reheating', samples=40)
def c5(h):
    f = h.module('primpy.reheating').is_instant_reheating
    third = h.frac(1, 3)
    state = {}
    val = {}
    for name, instant in (('w_reh', third), ('DeltaN_reh', 0), ('DeltaN_minus1', 0)):
        state[name] = st = h.choose(name, ['none', 'instant', 'other'])
        val[name] = None if st == 'none' else instant
        if st == 'other':
            val[name] = h.real(name, sample=(-0.3, 0.3))
            h.requires(val[name] != instant)
    rho = h.real('rho', 0, sample=(1, 1e16)) if h.choose('rho given', [True, False]) else None
    Ns = h.real('N_star', sample=(20, 60)) if h.choose('N_star given', [True, False]) else None
    call = lambda: f(N_star=Ns, rho_reh_GeV=rho, **val)
    some, other = 'instant' in state.values(), 'other' in state.values()
    if Ns is not None:
        h.true('a given N_star means reheating is not instant', call() is False)
    elif some and (other or rho is not None):
        h.raises('contradiction', ValueError, call)
    else:
        h.true('instant exactly if asked for or nothing is known', call() is (some or (not other and rho is None)))


for kind in KINDS:
    mk(kind)
