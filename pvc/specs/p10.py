"""P10: initial conditions satisfy the Friedmann equation and the requested curvature, and searches aim at what was asked."""
from ..harness import contract
from . import hist
from .bg import StubPotential, KINDS


def equations(h, kind, K, **kw):
    m = h.module('primpy.time.inflation' if kind == 'time' else 'primpy.efolds.inflation')
    pot = StubPotential(h)
    return (m.InflationEquationsT if kind == 'time' else m.InflationEquationsN)(K=K, potential=pot, **kw), pot


def mk(kind):
    for cls, share in (('SlowRollIC', 3), ('InflationStartIC', 2)):
        start(kind, cls, share)
        start_curvature(kind, cls, share)
        rejected(kind, cls, share)
    search_Nt(kind)
    search_Ns(kind)


def filled(h, kind, cls, share, ic, eq, pot, K, N, phi, t_i, eta_i, xe, opt):
    """Obligations on the state vector filled in by the initial conditions."""
    n = len(eq.idx)
    y0 = h.np.zeros(n)
    for i in range(n):
        y0[i] = -7
    ic(y0)
    got = {k: y0[i] for k, i in eq.idx.items()}
    H2 = pot.V(phi) / share - K * h.np.exp(-2 * N)
    H = h.np.sqrt(H2)
    sc = 0 if h.sym else 1
    h.eq('the field starts as requested', got['phi'], phi)
    v = -pot.dV(phi) / (3 * H) if cls == 'SlowRollIC' else -h.np.sqrt(pot.V(phi))
    if kind == 'time':
        h.eq('velocity', got['dphidt'], v, scale=sc)
        h.eq('e-folds', got['_N'], N, scale=sc)
        h.eq('starts at the requested time', ic.x_ini, t_i)
    else:
        h.eq('velocity', got['dphidN'] * H, v, scale=sc)
        h.eq('starts at the e-folds', ic.x_ini, N, scale=sc)
        if 't' in got:
            h.eq('time', got['t'], t_i)
    if 'eta' in got:
        h.eq('conformal time', got['eta'], eta_i)
    h.eq('ends as requested', ic.x_end, xe)
    h.eq('Hubble parameter', ic.H_i, H, scale=sc)
    h.eq('comoving Hubble rate', ic.aH_i, h.np.exp(N) * H, scale=sc)
    h.eq('curvature', ic.Omega_Ki * H2, -K * h.np.exp(-2 * N), scale=sc)
    if cls == 'InflationStartIC':
        x = t_i if kind == 'time' else N
        if h.sym:
            h.requires(eq.H2(x, y0) > 0)
        h.eq('the Friedmann equation holds', eq.H2(x, y0), H2, scale=sc)
        h.eq('just about to accelerate', eq.inflating(x, y0), 0, scale=1)


def start(kind, cls, share):
    opts = [{}, {'track_eta': True}] + ([{'track_time': True}, {'track_time': True, 'track_eta': True}] if kind == 'efolds' else [])

    @contract('P10', '%s.%s' % (kind, cls), 'primpy.initialconditions.' + cls, samples=60, weight=2)
    def c(h):
        m = h.module('primpy.initialconditions')
        exc = h.module('primpy.exceptionhandling')
        K = h.choose('K', [0, 1, -1])
        opt = h.choose('tracked', opts)
        eq, pot = equations(h, kind, K, **opt)
        phi, N = h.real('phi', sample=(-1, 1)), h.real('N', sample=(-1.2, 2))
        t_i, eta_i, xe = h.real('t', sample=(0, 1)), h.real('eta', sample=(-1, 1)), h.real('x_end', sample=(5, 9))
        V = pot.V(phi)
        h.requires(V > 0)
        H2 = V / share - K * h.np.exp(-2 * N)
        mk = lambda: getattr(m, cls)(eq, phi_i=phi, N_i=N, t_i=t_i, eta_i=eta_i, x_end=xe)
        if bool(H2 > 0):
            ic = mk()
            h.eq('what was given is remembered', ic.ic_input_param, {'N_i': N})
            h.eq('e-folds as given', ic.N_i, N)
            filled(h, kind, cls, share, ic, eq, pot, K, N, phi, t_i, eta_i, xe, opt)
        else:
            h.raises('too much curvature to inflate is rejected', exc.InflationStartError, mk)


def start_curvature(kind, cls, share):
    @contract('P10', '%s.%s.curvature' % (kind, cls), 'primpy.initialconditions.' + cls, samples=40, weight=2)
    def c(h):
        m = h.module('primpy.initialconditions')
        exc = h.module('primpy.exceptionhandling')
        K = h.choose('K', [1, -1])
        eq, pot = equations(h, kind, K)
        phi = h.real('phi', sample=(-1, 1))
        Ok = h.real('Omega_Ki', sample=(-3, 3))
        t_i, xe = h.real('t', sample=(0, 1)), h.real('x_end', sample=(5, 9))
        V = pot.V(phi)
        h.requires(V > 0)
        mk = lambda: getattr(m, cls)(eq, phi_i=phi, Omega_Ki=Ok, t_i=t_i, x_end=xe)
        if bool(Ok >= 1):
            h.raises('an open universe with more curvature than energy is rejected', exc.InflationStartError, mk)
            return
        h.requires(K * Ok < 0)
        ic = mk()
        sc = 0 if h.sym else 1
        h.eq('what was given is remembered', ic.ic_input_param, {'Omega_Ki': Ok})
        h.eq('curvature as given', ic.Omega_Ki, Ok)
        h.eq('the scale factor has the requested curvature', -K * h.np.exp(-2 * ic.N_i),
             Ok * (V / share - K * h.np.exp(-2 * ic.N_i)), scale=sc)
        filled(h, kind, cls, share, ic, eq, pot, K, ic.N_i, phi, t_i, None, xe, {})
        back = getattr(m, cls)(eq, phi_i=phi, N_i=ic.N_i, t_i=t_i, x_end=xe)
        h.eq('e-folds give the curvature back', back.Omega_Ki, Ok, scale=sc)


def rejected(kind, cls, share):
    @contract('P10', '%s.%s.requests' % (kind, cls), 'primpy.initialconditions.' + cls, samples=12)
    def c(h):
        m = h.module('primpy.initialconditions')
        K = h.choose('K', [1, -1])
        eq, pot = equations(h, kind, K, track_eta=True, **({'track_time': True} if kind == 'efolds' else {}))
        phi, N = h.real('phi', sample=(-1, 1)), h.real('N', sample=(2, 3))
        h.requires(pot.V(phi) > 0)
        h.requires(pot.V(phi) / share - K * h.np.exp(-2 * N) > 0)
        IC = getattr(m, cls)
        h.raises('neither e-folds nor curvature', (TypeError, AssertionError), lambda: IC(eq, phi_i=phi, t_i=0))
        h.raises('both e-folds and curvature', (TypeError, AssertionError),
                 lambda: IC(eq, phi_i=phi, t_i=0, N_i=N, Omega_Ki=-K * 0.1))
        n = len(eq.idx)
        h.raises('conformal time is tracked but not given', AssertionError,
                 lambda: IC(eq, phi_i=phi, t_i=0, N_i=N)(h.np.zeros(n)))
        if kind == 'efolds':
            h.raises('time is tracked but not given', AssertionError,
                     lambda: IC(eq, phi_i=phi, eta_i=0, N_i=N)(h.np.zeros(n)))

        class Other:
            pass
        o = Other()
        o.K, o.potential, o.track_eta, o.idx = K, pot, False, {'phi': 0}
        h.raises('unknown equations', NotImplementedError, lambda: IC(o, phi_i=phi, t_i=0, N_i=N)(h.np.zeros(n)))


def history(h, eq_cls, seen, aim, **kw):
    """Equations whose post-processing hands over an arbitrary history, as its contract allows."""
    class Eq(eq_cls):
        def sol(self, sol, **k):
            sol._N = seen['_N']
            sol.N_tot = seen['N_tot']
            sol.message = seen['message']
            sol._N_events = {e.name: seen['times'](e) for e in seen['events']}
            sol.calibrate_scale_factor = seen.get('calibrate')
            return sol
    return Eq


def search(h, kind, cls, K, seen, given, wanted, make):
    """Runs the search with a stand-in for the root finder that asks for the residual at phi, then reports phi_root."""
    m = h.module('primpy.time.inflation' if kind == 'time' else 'primpy.efolds.inflation')
    base = m.InflationEquationsT if kind == 'time' else m.InflationEquationsN
    pot = StubPotential(h)
    kw = {} if wanted is None else {'track_eta': wanted, **({'track_time': wanted} if kind == 'efolds' else {})}
    return history(h, base, seen, wanted)(K=K, potential=pot, **kw), pot


OUTCOMES = ['ended', 'limit reached', 'long enough', 'collapse', 'never started', 'step size', 'other failure']


def prepare(h, kind, outcome, seen, ev):
    """An arbitrary history with the given outcome; `ev` tells which events are which."""
    seen['_N'] = h.array('N', fn=lambda u: 0.6 + 3 * u)
    seen['N_tot'] = h.real('N_tot_reached', 0, sample=(1, 9)) if outcome == 'ended' else h.np.nan
    seen['message'] = dict([('step size', 'Required step size is less than spacing between numbers.'),
                            ('other failure', 'something else')]).get(outcome, 'fine')
    none, some = h.np.array([]), None

    def times(e):
        c = type(e).__name__
        hit = dict([('ended', 'InflationEvent'), ('limit reached', 'UntilNEvent'), ('collapse', 'CollapseEvent'),
                    ('never started', 'InflationEvent')]).get(outcome)
        if c == hit and (c != 'InflationEvent' or e.direction == -1):
            if outcome == 'never started':
                return seen['_N'][:1] if not h.sym else h.np.array([seen['_N'][0]])
            return h.np.array([h.real('N_of_event', sample=(1, 2))])
        return h.np.array([])
    seen['times'] = times


def run(h, kind, seen, ic, eq, pot, K, N, phi, root, bracket):
    """Drives ic(y0); returns (residual or exception) at phi and the state vector for the root."""
    got = {}

    def ivp(fun, t_span, y0, *a, **kw):
        got.update(fun=fun, span=tuple(t_span), y0=[y0[i] for i in range(len(eq.idx))], kw=kw)
        seen['events'] = kw['events']
        return h.bunch(t=seen['_N'])

    def finder(f, args=(), **kw):
        got['bracket'] = kw.get('bracket')
        try:
            got['residual'] = f(phi, *args)
        except Exception as e:
            if type(e).__name__ == 'Unsupported':
                raise
            got['raised'] = e
        return h.bunch(root=root, converged=True)
    h.hook('solve_ivp', ivp)
    h.hook('root_scalar', finder)
    y0 = h.np.zeros(len(eq.idx))
    got['out'] = ic(y0, rtol=1e-5, atol=1e-6)
    got['final'] = {k: y0[i] for k, i in eq.idx.items()}
    return got


def started(h, kind, eq, pot, K, N, phi, y, x):
    """y is the state at the start of inflation for phi"""
    H2 = pot.V(phi) / 2 - K * h.np.exp(-2 * N)
    sc = 0 if h.sym else 1
    h.eq('the field of the trial', y['phi'], phi)
    if kind == 'time':
        h.eq('velocity at the start of inflation', y['dphidt'], -h.np.sqrt(pot.V(phi)), scale=sc)
        h.eq('e-folds at the start of inflation', y['_N'], N, scale=sc)
    else:
        h.eq('velocity at the start of inflation', y['dphidN'] * h.np.sqrt(H2), -h.np.sqrt(pot.V(phi)), scale=sc)
        h.eq('e-folds at the start of inflation', x, N, scale=sc)


def common(h, kind, seen, got, eq, pot, K, given, Ni, phi, root, bracket, ic, limit, requested):
    ev = seen['events']
    by = {}
    for e in ev:
        by.setdefault(type(e).__name__, []).append(e)
    names = [e.name for e in ev]
    h.eq('events keep separate names', len(set(names)), len(names))
    h.true('the end of inflation stops the trial', any(e.direction == -1 and e.terminal for e in by.get('InflationEvent', [])))
    h.true('the start of inflation is tracked', any(e.direction == 1 and not e.terminal for e in by.get('InflationEvent', [])))
    h.true('a collapse stops the trial', any(e.terminal for e in by.get('CollapseEvent', [])))
    h.true('a limit stops the trial', any(e.terminal for e in by.get('UntilNEvent', [])))
    h.eq('the limit', by['UntilNEvent'][0].value, limit)
    h.eq('tolerances are passed on', (got['kw']['rtol'], got['kw']['atol']), (1e-5, 1e-6))
    h.eq('the bracket is used', list(got['bracket']), list(bracket))
    y = {k: got['y0'][i] for k, i in eq.idx.items()}
    started(h, kind, eq, pot, K, Ni(phi), phi, y, got['span'][0])
    started(h, kind, eq, pot, K, Ni(root), root, got['final'], ic.x_ini)
    end = given.get('x_end', h.frac(10)**300)
    h.eq('the end of the integration, of trials', got['span'][1], end, scale=end)
    h.eq('the end of the integration', ic.x_end, end, scale=end)
    for what, z, x in (('of trials', y, got['span'][0]), ('at the start', got['final'], ic.x_ini)):
        if kind == 'time':
            h.eq('the time ' + what, x, given['t_i'])
        elif 't' in eq.idx:
            h.eq('the time ' + what, z['t'], given['t_i'])
        if 'eta' in eq.idx:
            h.eq('the conformal time ' + what, z['eta'], given['eta_i'])
    h.eq('the field found is reported', got['out'][0], root)
    h.eq('the field found is stored', ic.phi_i, root)
    h.eq('curvature at the start', ic.Omega_Ki * (pot.V(root) / 2 - K * h.np.exp(-2 * Ni(root))),
         -K * h.np.exp(-2 * Ni(root)), scale=0 if h.sym else 1)


def inputs(h, kind):
    """curvature, given parameter and the e-folds at the start it implies"""
    K = h.choose('K', [1, -1])
    which = h.choose('given', ['N_i', 'Omega_Ki'])
    seen = {}
    eq, pot = search(h, kind, None, K, seen, None, (which == 'N_i') == (K == 1), None)
    phi, root = h.real('phi', sample=(-1, 1)), h.real('phi_root', sample=(-1, 1))
    b = [h.real('bracket0', sample=(-1, 0)), h.real('bracket1', sample=(0, 1))]
    for p in (phi, root, b[1]):
        h.requires(pot.V(p) > 0)
    if which == 'N_i':
        N = h.real('N_i', sample=(2, 3))
        given = {'N_i': N}
        for p in (phi, root, b[1]):
            h.requires(pot.V(p) / 2 - K * h.np.exp(-2 * N) > 0)
        Ni = lambda p: N
    else:
        Ok = h.real('Omega_Ki', sample=(0.05, 0.9)) * (-K)
        given = {'Omega_Ki': Ok}
        h.requires(K * Ok < 0)
        h.requires(Ok < 1)
        Ni = lambda p: h.np.log(2 * K / pot.V(p) * (1 - 1 / Ok)) / 2
    given['t_i'] = h.real('t_i', sample=(0, 1))
    if eq.track_eta:
        given['eta_i'] = h.real('eta_i', sample=(0, 1))
        given['x_end'] = h.real('x_end', sample=(9, 20))
    return K, seen, eq, pot, phi, root, b, given, Ni


def search_Nt(kind):
    @contract('P10', kind + '.ISIC_Nt', 'primpy.initialconditions.ISIC_Nt', samples=60, weight=4)
    def c(h):
        m = h.module('primpy.initialconditions')
        exc = h.module('primpy.exceptionhandling')
        K, seen, eq, pot, phi, root, b, given, Ni = inputs(h, kind)
        outcome = h.choose('outcome', OUTCOMES)
        want = h.real('N_tot', 0, sample=(1, 9))
        prepare(h, kind, outcome, seen, None)
        verbose = h.choose('verbose', [False, True])
        ic = m.ISIC_Nt(eq, N_tot=want, phi_i_bracket=b, verbose=verbose, **given)
        long = seen['_N'][-1] - Ni(phi) >= want
        if outcome == 'long enough':
            h.requires(long)
        elif outcome not in ('ended', 'limit reached'):
            h.requires(seen['_N'][-1] - Ni(phi) < want)
        if outcome == 'limit reached':
            h.requires(seen['_N'][-1] - Ni(phi) > want)
        got = run(h, kind, seen, ic, eq, pot, K, None, phi, root, b)
        common(h, kind, seen, got, eq, pot, K, given, Ni, phi, root, b, ic, Ni(phi) + want + 10, want)
        verdict(h, exc, got, outcome, lambda: seen['N_tot'] - want)

    @contract('P10', kind + '.ISIC_Nt.no start', 'primpy.initialconditions.ISIC_Nt', samples=20)
    def c2(h):
        """A trial field without enough energy to inflate counts as too little inflation."""
        m = h.module('primpy.initialconditions')
        seen = {}
        eq, pot = search(h, kind, None, 1, seen, None, None, None)
        N = h.real('N_i', sample=(0.1, 0.9))
        want = h.real('N_tot', 0, sample=(1, 9))
        phi, root = h.real('phi', sample=(-1, 1)), h.real('phi_root', sample=(-1, 1))
        h.requires(pot.V(phi) > 0)
        h.requires(pot.V(root) > 0)
        h.requires(pot.V(phi) / 2 - h.np.exp(-2 * N) < 0)
        h.requires(pot.V(root) / 2 - h.np.exp(-2 * N) > 0)
        ic = m.ISIC_Nt(eq, N_tot=want, phi_i_bracket=[phi, root], t_i=0, N_i=N)
        prepare(h, kind, 'other failure', seen, None)
        got = run(h, kind, seen, ic, eq, pot, 1, None, phi, root, [phi, root])
        h.true('no exception', 'residual' in got)
        h.true('counts as too little', got.get('residual', 1) < 0)


def verdict(h, exc, got, outcome, exact):
    if outcome == 'ended':
        h.true('a finished trial gives a residual', 'residual' in got)
        h.eq('how much more than requested', got.get('residual', 0), exact(), scale=0 if h.sym else 1)
    elif outcome in ('limit reached', 'long enough'):
        h.true('a long trial gives a residual', 'residual' in got)
        h.true('counts as too much', got.get('residual', -1) > 0)
    elif outcome in ('collapse', 'never started'):
        h.true('a failed universe gives a residual', 'residual' in got)
        h.true('counts as too little', got.get('residual', 1) < 0)
    else:
        e = got.get('raised')
        h.true('a failed integration is an error of the package', isinstance(e, exc.PrimpyError))
        h.true('a step size problem is told apart', isinstance(e, exc.StepSizeError) == (outcome == 'step size'))


def search_Ns(kind):
    @contract('P10', kind + '.ISIC_NsOk', 'primpy.initialconditions.ISIC_NsOk', samples=60, weight=4,
              assumes=['scale factor today: contract of primpy.bigbang.get_a0 (P15)',
                       'horizon crossing e-folds: contract of calibrate_scale_factor (P12)'])
    def c(h):
        m = h.module('primpy.initialconditions')
        exc = h.module('primpy.exceptionhandling')
        bb = h.module('primpy.bigbang')
        K, seen, eq, pot, phi, root, b, given, Ni = inputs(h, kind)
        outcome = h.choose('outcome', OUTCOMES + ['too short'])
        want = h.real('N_star', 0, sample=(1, 9))
        Ok0 = -K * h.real('Omega_K0', 0, 1, sample=(0.01, 0.1))
        hub = h.real('h', 0, sample=(0.5, 0.9))
        prepare(h, kind, outcome if outcome != 'too short' else 'ended', seen, None)
        if outcome == 'ended':
            h.requires(seen['N_tot'] > want)
        elif outcome == 'too short':
            h.requires(seen['N_tot'] <= want)
        star = h.real('N_star_reached', sample=(1, 9))
        cal = {}

        def calibrate(**kw):
            cal.update(kw)
            sol_ns.append(1)
        sol_ns = []
        verbose = h.choose('verbose', [False, True])
        ic = m.ISIC_NsOk(eq, N_star=want, Omega_K0=Ok0, h=hub, phi_i_bracket=b, verbose=verbose, **given)
        N0 = h.np.log(bb.get_a0(h=hub, Omega_K0=Ok0, units='planck'))
        h.eq('scale factor today', ic.N0, N0)
        if outcome == 'long enough':
            h.requires(seen['_N'][-1] >= N0)
        elif outcome != 'ended':
            h.requires(seen['_N'][-1] < N0)
        h.requires(seen['_N'][-1] > 0)
        real_sol = type(eq).sol

        def sol(self, s, **k):
            s = real_sol(self, s, **k)

            def calibrate(**kw):
                cal.update(kw)
                s.N_star = star
            s.calibrate_scale_factor = calibrate
            return s
        type(eq).sol = sol
        got = run(h, kind, seen, ic, eq, pot, K, None, phi, root, b)
        common(h, kind, seen, got, eq, pot, K, given, Ni, phi, root, b, ic, N0, want)
        if outcome == 'ended':
            h.eq('calibrated with the curvature today', cal.get('Omega_K0'), Ok0)
            h.eq('calibrated with the Hubble parameter today', cal.get('h'), hub)
        verdict(h, exc, got, 'collapse' if outcome == 'too short' else outcome, lambda: star - want)

    @contract('P10', kind + '.ISIC_NsOk.flat', 'primpy.initialconditions.ISIC_NsOk', samples=2)
    def c2(h):
        m = h.module('primpy.initialconditions')
        eq, pot = equations(h, kind, 0)
        h.raises('no curvature today', AssertionError,
                 lambda: m.ISIC_NsOk(eq, N_star=50, Omega_K0=0, h=0.7, phi_i_bracket=[0.1, 0.2], t_i=0, N_i=10))


for kind in KINDS:
    mk(kind)


for kind in KINDS:
    for cls in ('SlowRollIC', 'InflationStartIC'):
        hist.initial(kind, cls)
