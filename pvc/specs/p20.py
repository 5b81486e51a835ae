"""P20: spectra handed to cobaya."""
from ..harness import contract
from . import hist


def theory(h, module, cls):
    m = h.module('cobaya_wrapper.' + module)
    t = getattr(m, cls)()
    t.initialize()
    return m, t


def delivered(h, t, state):
    """What cobaya gets: (scalar, tensor) arrays; both come with the range of their logarithmic grid."""
    t.current_state = state
    out = []
    for what in ('scalar', 'tensor'):
        d = getattr(t, 'get_primordial_%s_pk' % what)()
        h.eq(what + ': first wavenumber', d['kmin'], t.ks[0])
        h.eq(what + ': last wavenumber', d['kmax'], t.ks[-1])
        h.true(what + ': logarithmic grid', d['log_regular'] is True)
        out.append(d['Pk'])
    return out


def power_law(h, t, p):
    """Power law with running of the pivot scale; scalar and tensor."""
    np = h.np
    K = h.module('primpy.parameters').K_STAR
    x = np.log(t.ks / K)
    s = p['A_s'] * np.exp((p['n_s'] - 1) * x + p['n_run'] * x**2 / 2 + p['n_runrun'] * x**3 / 6)
    return s, p['A_t'] * np.exp(p['n_t'] * x + p['n_t_run'] * x**2 / 2)


def parameters(h):
    """Arguments given, and the parameters they mean."""
    A_s = h.pos('A_s', sample=(1e-9, 3e-9))
    given = dict(A_s=A_s)
    p = dict(A_s=A_s, n_s=1, n_run=0, n_runrun=0, A_t=0, n_t_run=0)
    if h.choose('scalar tilt given', [True, False]):
        given['n_s'] = p['n_s'] = h.real('n_s', sample=(0.9, 1.1))
    if h.choose('scalar runnings given', [True, False]):
        given['n_run'] = p['n_run'] = h.real('n_run', sample=(-0.02, 0.02))
        given['n_runrun'] = p['n_runrun'] = h.real('n_runrun', sample=(-0.005, 0.005))
    r = h.real('r', 0, sample=(0.001, 0.3))
    tensors = h.choose('tensors', ['none', 'r', 'A_t', 'both'])
    if tensors == 'none':
        r = 0
    else:
        p['A_t'] = r * A_s
        if tensors in ('A_t', 'both'):
            given['A_t'] = p['A_t']
            r = p['A_t'] / A_s
        if tensors in ('r', 'both'):
            given['r'] = r
    tilt = h.choose('tensor tilt', ['consistency', 'given', 'given with running'])
    if tilt == 'consistency':
        p['n_t'] = -r / 8 * (2 - p['n_s'] - r / 8)
        p['n_t_run'] = r / 8 * (r / 8 + p['n_s'] - 1)
    else:
        given['n_t'] = p['n_t'] = h.real('n_t', sample=(-0.1, 0.1))
        if tilt == 'given with running':
            given['n_t_run'] = p['n_t_run'] = h.real('n_t_run', sample=(-0.01, 0.01))
    return given, p


CLASSES = {
    'PowerLawPPS': ('powerlaw_pps', lambda h, k, f: 1, ()),
    'LogOscillationPPS': ('feature_pps', lambda h, k, f: 1 + f['A_log'] * h.np.cos(f['w_log'] * h.np.log(k) + 2 * h.np.pi * f['p_log']),
                          ('A_log', 'w_log', 'p_log')),
    'LinOscillationPPS': ('feature_pps', lambda h, k, f: 1 + f['A_lin'] * h.np.cos(f['w_lin'] * k + 2 * h.np.pi * f['p_lin']),
                          ('A_lin', 'w_lin', 'p_lin')),
    'CutoffPPS': ('feature_pps', None, ('k_cut', 's_cut')),
}


def mk(cls):
    module, feature, names = CLASSES[cls]

    @contract('P20', cls, 'cobaya_wrapper.%s.%s.calculate' % (module, cls), samples=30, tol=1e-9, weight=2)
    def c(h):
        np = h.np
        m, t = theory(h, module, cls)
        given, p = parameters(h)
        K = h.module('primpy.parameters').K_STAR
        q = t.ks / K
        state = {}
        if cls == 'CutoffPPS':
            f = dict(k_cut=h.frac(1, 1000), s_cut=2)
            if h.choose('feature given', [True, False]):
                f = dict(k_cut=h.pos('k_cut', sample=(1e-4, 1e-2)), s_cut=h.pos('s_cut', sample=(1, 4)))
                given.update(f)
            factor = 1 - np.exp(-(t.ks / f['k_cut'])**f['s_cut'])
        elif names and h.choose('feature given', [True, False]):
            f = {n: h.real(n, sample=(0.05, 0.5)) for n in names}
            given.update(f)
            factor = feature(h, q, f)
        else:
            factor = 1
        h.true('supports its parameters', set(given) <= set(t.get_can_support_params()))
        if not h.returns('spectra are calculated', lambda: t.calculate(state, **given) or True):
            return
        s, T = delivered(h, t, state)
        ws, wt = power_law(h, t, p)
        h.eq('scalar spectrum', s, ws * factor, scale=1e-5 * ws)
        h.eq('tensor spectrum', T, wt * factor, scale=1e-5 * wt)

    @contract('P20', cls + ' rejects', 'cobaya_wrapper.%s.%s.calculate' % (module, cls), samples=3)
    def c2(h):
        """Contradictory tensor parameters are rejected."""
        m, t = theory(h, module, cls)
        given = dict(A_s=h.pos('A_s', sample=(1e-9, 3e-9)), n_s=h.real('n_s', sample=(0.9, 1.1)))
        if names and cls != 'CutoffPPS':
            given.update({n: h.real(n, sample=(0.05, 0.5)) for n in names})
        r = h.pos('r', sample=(0.01, 0.1))
        if h.choose('what', ['amplitude', 'running']) == 'amplitude':
            f = h.pos('factor', sample=(1.5, 3))
            h.requires(f != 1)
            given.update(r=r, A_t=f * r * given['A_s'])
            h.raises('r and A_t/A_s differ', Exception, lambda: t.calculate({}, **given))
        else:
            n = h.real('n_t_run', sample=(0.01, 0.1))
            h.requires(n != 0)
            given.update(r=r, n_t_run=n)
            h.raises('running of the tensor tilt without the tilt', Exception, lambda: t.calculate({}, **given))


for cls in CLASSES:
    mk(cls)


@contract('P20', 'grid', 'cobaya_wrapper.powerlaw_pps.ExternalPrimordialPowerSpectrum.initialize', samples=1)
def c(h):
    """The grid covers the scales any user asks for, regularly in log(k)."""
    np = h.np
    m, t = theory(h, 'powerlaw_pps', 'PowerLawPPS')
    grid(h, t)


def grid(h, t):
    np = h.np
    h.true('large scales', t.ks[0] <= h.frac(1, 10**6))
    h.true('small scales', t.ks[-1] >= 10)
    h.eq('pivot scale', t.k_pivot, h.module('primpy.parameters').K_STAR)
    if not h.sym:
        d = np.diff(np.log(t.ks))
        h.eq('regular', d, d[0] + 0 * d)


POTENTIALS = ['Monomial', 'Linear', 'Quadratic', 'Starobinsky', 'Natural', 'DoubleWell2', 'DoubleWell4', 'Tmodel',
              'RadionGauge', 'RadionGauge2']


@contract('P20', 'potentials', 'cobaya_wrapper.slowroll_pps', samples=3)
def c5(h):
    pp = h.module('primpy.potentials')
    n = h.choose('potential', POTENTIALS)
    m, t = theory(h, 'slowroll_pps', n + 'SlowRollPPS')
    h.true('the potential of its name', t.Pot is getattr(pp, n + 'Potential'))
    grid(h, t)


DERIVED = ('N_star', 'N_end', 'phi_end', 'V_end', 'H_end', 'N_reh', 'w_reh', 'DeltaN_reh', 'rho_reh_GeV', 'DeltaN_minus1',
           'A_s', 'n_s', 'n_run', 'n_runrun', 'A_t', 'n_t', 'r')


class World:
    """Stand-ins of what SlowRollPPS uses (solve, the potential, the calibrations), by their contracts."""

    def __init__(self, h, m, scaling, solved=True):
        self.h, self.runs, self.calls, self.asked = h, [], [], []
        self.unit = h.pos('A_s of Lambda = 1', sample=(0.5, 2))
        self.dphidt = h.array('dphidt', sample=(0.5, 0.6))
        self.phi = h.array('phi', sample=(0.5, 0.6))
        self.mask = h.array('inflating', sample=(-1, 1)) > 0
        self.values = {n: h.real('b.' + n, sample=(0.1, 0.9)) for n in DERIVED}
        self.values['N_end'] = h.real('b.N_end', sample=(-67, -65))
        self.values['N_reh'] = h.real('b.N_reh', sample=(-60, -50))
        self.V = h.func('V')
        self.V_end = h.pos('V at the end', sample=(0.1, 0.2))
        phi_end = self.phi[self.mask][-1]
        if h.sym:
            h.requires(self.mask.sum() >= 1)        # inflation took place
            h.requires(self.V(phi_end) == self.V_end)
        self.N_tot = h.real('b.N_tot', 0, sample=(60, 90))
        self.N0 = h.real('b.N0', sample=(-1, 1))
        self.spectra = h.func('P_s'), h.func('P_t')
        w = self

        class Pot:
            def __init__(self, **kw):
                self.Lambda = kw.pop('Lambda', 1)
                self.kw = kw

            def sr_As2Lambda(self, A_s, N_star, phi_star, **kw):
                w.target, w.N_star0 = A_s, N_star
                w.first = h.pos('Lambda0', sample=(0.5, 2))
                return w.first, None, None

            def sr_N2phi(self, N):
                w.N_start = N
                return h.real('phi_i', sample=(5, 9))

            def V(self, phi):
                return w.V(phi) if h.sym else w.V_end * (phi / phi_end)**2

        class Equations:
            def __init__(self, K, potential, **kw):
                self.K, self.potential = K, potential

        class Event:
            def __init__(self, equations, direction=0, terminal=False, **kw):
                self.equations, self.direction, self.terminal = equations, direction, terminal

        class IC:
            def __init__(self, equations, **kw):
                self.equations, self.kw = equations, kw

        def solve(ic, events, **kw):
            pot = ic.equations.potential
            b = h.bunch(success=solved, message='no', dphidt=w.dphidt, phi=w.phi, inflation_mask=w.mask,
                        potential=pot, N_tot=w.N_tot, N0=w.N0)
            w.runs.append(h.bunch(ic=ic, events=events, b=b, kw=kw))

            def calibrated(name):
                def f(*a, **k):
                    w.calls.append((name, b, k))
                    for n, v in w.values.items():
                        setattr(b, n, v)
                    b.A_s = w.unit * pot.Lambda**4 if scaling else 3 * w.target
                return f
            b.calibrate_scale_factor = calibrated('calibrate')
            b.set_ns = calibrated('set_ns')

            def spectrum(f):
                def P(k, method='CGS', order=3, **kk):
                    w.asked.append((method, order))
                    return f(k)
                return P
            b.P_s_approx, b.P_t_approx = map(spectrum, w.spectra)
            return b
        for n, v in dict(solve=solve, InflationEquations=Equations, InflationEvent=Event, SlowRollIC=IC).items():
            h.patch(m, n, v)
        self.Pot = Pot


def reheating(h, w, m):
    """rho_reh_GeV as a fraction of the energy scale at the end of inflation, where (dphi/dt)^2 = V."""
    u = h.module('primpy.units')
    h.requires(u.mp_GeV > 0)
    h.requires(u.lp_iGeV > 0)
    end = (h.frac(3, 2) * w.V_end * u.mp_GeV / u.lp_iGeV**3)**h.frac(1, 4)
    if h.sym:
        h.requires(w.dphidt[w.mask][-1]**2 == w.V_end)
    else:
        w.dphidt[w.mask] = w.V_end**0.5
    return end


CASES = ['N_star', 'N_star and rho_reh', 'n_s', 'n_s and rho_reh', 'w_reh and rho_reh']


@contract('P20', 'slow-roll spectra', 'cobaya_wrapper.slowroll_pps.SlowRollPPS.calculate', samples=20, weight=3)
def c6(h):
    """Spectra are those of a flat universe of the requested amplitude, calibrated as requested."""
    np = h.np
    m, t = theory(h, 'slowroll_pps', 'SlowRollPPS')
    w = World(h, m, True)
    t.Pot = w.Pot
    case = h.choose('case', CASES)
    A_s = h.pos('A_s', sample=(1, 2))
    given = dict(A_s=A_s)
    f = h.real('rho_reh/rho_end', 0, 1, sample=(0.1, 0.99))
    end = reheating(h, w, m)
    if 'rho_reh' in case:
        given['rho_reh_GeV'] = f * end
    if case != 'w_reh and rho_reh':
        given['N_star'] = h.real('N_star', 0, sample=(45, 70))
    if 'n_s' in case:
        given['n_s'] = h.real('n_s', sample=(0.95, 0.98))
    if case == 'w_reh and rho_reh':
        given['w_reh'] = h.real('w_reh', sample=(0, 0.5))
    pot = {n: h.real(n, sample=(2, 4)) for n in h.choose('potential parameters', [(), ('phi0',), ('p', 'alpha')])}
    given.update(pot)
    v = w.values
    h.requires(v['w_reh'] > h.frac(-1, 3))
    h.requires(v['w_reh'] < 1)
    h.requires(v['DeltaN_reh'] >= 0)
    h.requires(v['N_reh'] <= w.N0)
    state = {}
    if not h.returns('a realistic scenario is accepted', lambda: t.calculate(state, **given) or True):
        return
    s, T = delivered(h, t, state)
    run = w.runs[-1]
    b = run.b
    h.eq('scalar spectrum', s, w.spectra[0](t.ks))
    h.eq('tensor spectrum', T, w.spectra[1](t.ks))
    d = b.A_s - A_s
    h.true('amplitude as requested', d * d <= h.frac(2, 10**6)**2 * A_s * A_s + h.frac(1, 10**13)**2)
    h.true('no more than the scaling with Lambda needs', len(w.runs) <= 2)
    for r in w.runs:
        eq = r.ic.equations
        h.eq('flat', eq.K, 0)
        h.eq('parameters of the potential', eq.potential.kw, pot)
        h.true('start and end of inflation are tracked', sorted(e.direction for e in r.events) == [-1, 1])
        h.true('integration ends with inflation', [bool(e.terminal) for e in r.events if e.direction == -1] == [True])
        h.true('integration goes on when inflation starts', [bool(e.terminal) for e in r.events if e.direction == 1] == [False])
        t_eval = r.kw.get('t_eval', [0, 0])
        h.true('integration is precise', r.kw.get('rtol', 1e-3) <= 1e-10)
        h.true('the solution is dense', h.size(t_eval) >= 1000)
        h.eq('integration starts at the initial time', t_eval[0], r.ic.kw['t_i'])
        h.true('integration is long enough for low energies', t_eval[-1] >= 9e11)
        if 'phi0' in pot:
            h.true('start is not beyond phi0', r.ic.kw['phi_i'] <= pot['phi0'])
    h.true('inflation is long enough', w.N_start >= 75)
    name, bb, kw = w.calls[-1]
    h.eq('spectra by the method of the reported amplitude and tilt', w.asked, 2 * [(kw.get('method', 'CGS'), kw.get('order', 3))])
    h.true('the universe of the spectra is the calibrated one', bb is b)
    h.eq('reheating energy', kw.get('rho_reh_GeV'), given.get('rho_reh_GeV'))
    if 'n_s' in case:
        h.true('calibrated by its tilt', name == 'set_ns')
        h.eq('requested tilt', kw.get('n_s'), given['n_s'])
        h.true('no more e-folds than there are', kw.get('N_star_max', 90) <= w.N_tot)
    else:
        h.true('calibrated directly', name == 'calibrate')
        h.eq('equation of state of reheating', kw.get('w_reh'), given.get('w_reh'))
        if case == 'w_reh and rho_reh':
            h.eq('method', kw.get('calibration_method'), 'reheating')
        else:
            h.eq('method', kw.get('calibration_method', 'N_star'), 'N_star')
            h.eq('e-folds after the pivot scale', kw.get('N_star'), given['N_star'])
    for n in t.get_can_provide_params():
        h.eq('derived: ' + n, state['derived'][n], getattr(b, n))


@contract('P20', 'slow-roll spectra reject', 'cobaya_wrapper.slowroll_pps.SlowRollPPS.calculate', samples=20, weight=2)
def c7(h):
    m, t = theory(h, 'slowroll_pps', 'SlowRollPPS')
    e = h.module('primpy.exceptionhandling')
    why = h.choose('why', ['integration', 'shooting', 'rho_reh', 'w_reh low', 'w_reh high', 'DeltaN_reh', 'N_reh'])
    w = World(h, m, why != 'shooting', why != 'integration')
    t.Pot = w.Pot
    given = dict(A_s=h.real('A_s', h.frac(1, 10**12), sample=(1, 2)), N_star=h.real('N_star', 0, sample=(45, 70)))
    end = reheating(h, w, m)
    v = w.values
    if why == 'rho_reh':
        given['rho_reh_GeV'] = end * h.real('rho_reh/rho_end', 1, sample=(1.001, 2))
    if why == 'w_reh low':
        h.requires(v['w_reh'] - 2 * (0 if h.sym else 1) <= h.frac(-1, 3))
        if not h.sym:
            v['w_reh'] -= 2
    elif why == 'w_reh high':
        if not h.sym:
            v['w_reh'] += 1
        h.requires(v['w_reh'] >= 1)
    elif why == 'DeltaN_reh':
        if not h.sym:
            v['DeltaN_reh'] -= 1
        h.requires(v['DeltaN_reh'] < 0)
    elif why == 'N_reh':
        if not h.sym:
            v['N_reh'] += 70
        h.requires(v['N_reh'] > w.N0)
    h.raises('rejected: ' + why, e.StepSizeError if why == 'integration' else e.PrimpyError,
             lambda: t.calculate({}, **given))


for cls in CLASSES:
    hist.theories(cls, CLASSES[cls][0], CLASSES[cls][2])
