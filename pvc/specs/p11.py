"""P11: start and end of inflation are read off the tracked solution, and what could not be determined is said so."""
from ..harness import contract
from .bg import solution, occurs, at_event, at_point, EV, KINDS


def names(h):
    """Names as the event classes give them."""
    m = h.module('primpy.events')

    class E:
        pass
    f = lambda d, t: m.InflationEvent(E(), direction=d, terminal=t).name
    return dict(beg0=f(1, False), beg1=f(1, True), end0=f(-1, False), end1=f(-1, True), collapse=m.CollapseEvent(E()).name)


def messages(h, cls):
    return [w[1] for w in h.warned(cls)]


def mk(kind):
    @contract('P11', kind + '.start', 'primpy.inflation.InflationEquations.postprocessing_inflation_start', samples=80, weight=6)
    def c(h):
        exc = h.module('primpy.exceptionhandling')
        nm = names(h)
        K = h.choose('K', [0, 1, -1])
        tracked = h.choose('tracked', [[], ['collapse'], ['beg0'], ['beg1'], ['collapse', 'beg0'], ['collapse', 'beg1']])
        verbose = h.choose('verbose', [True, False])
        s = solution(h, kind, K, [nm[k] for k in tracked], verbose=verbose)
        h.clear_warnings()
        p = at_point(h, s, s.x[0], {k: r[0] for k, r in s.row.items()})
        h.requires(p.V > 0)
        h.requires(p.H2 > 0)
        if kind == 'efolds':
            h.requires(6 - p.dphi**2 > 0)
        started = p.V - p.p2 >= 0
        started = bool(started)
        sol = s.eq.sol(s.bunch)
        sc = 0 if h.sym else 1
        k1 = [nm[k] for k in tracked if k.startswith('beg') and occurs(h, s, nm[k])]
        if occurs(h, s, nm['collapse']):
            h.eq('a collapsed universe has no start of inflation', sol._N_beg, h.np.nan)
            h.eq('a collapsed universe has no Hubble parameter at the start', sol.H_beg, h.np.nan)
            h.eq('the collapse is announced', len(h.warned(exc.CollapseWarning)), 1 if verbose else 0)
        elif started:
            h.eq('already inflating: starts at the first point', sol._N_beg, p.N)
            h.eq('already inflating: Hubble parameter of the first point', sol.H_beg, h.np.sqrt(p.H2))
        elif k1:
            q = at_event(h, s, k1[0])
            h.requires(q.H2 > 0)
            h.eq('starts at the first crossing into inflation', sol._N_beg, q.N)
            h.eq('Hubble parameter of the first crossing', sol.H_beg, h.np.sqrt(q.H2))
        else:
            h.eq('unknown start', sol._N_beg, h.np.nan)
            h.eq('unknown Hubble parameter at the start', sol.H_beg, h.np.nan)
            w = messages(h, exc.InflationStartWarning)
            h.eq('the unknown start is announced', len(w), 1 if verbose else 0)
            if verbose and w:
                h.true('the announcement tells whether the event was tracked',
                       ('Not tracking' in w[0]) != ('beg0' in tracked or 'beg1' in tracked))
        h.true('the start is announced as unknown only when it is', not (h.warned(exc.InflationStartWarning) and (
            started or k1 or occurs(h, s, nm['collapse']))))
        h.eq('comoving Hubble rate at the start', sol._logaH_beg, sol._N_beg + h.np.log(sol.H_beg), scale=sc)

    @contract('P11', kind + '.end', 'primpy.inflation.InflationEquations.postprocessing_inflation_end', samples=80, weight=6)
    def c2(h):
        exc = h.module('primpy.exceptionhandling')
        nm = names(h)
        K = h.choose('K', [0, 1, -1])
        tracked = h.choose('tracked', [[], ['beg0'], ['end0'], ['end1'], ['beg0', 'end0'], ['beg1', 'end1']])
        verbose = h.choose('verbose', [True, False])
        s = solution(h, kind, K, [nm[k] for k in tracked], verbose=verbose)
        h.clear_warnings()
        k1 = [nm[k] for k in tracked if k.startswith('end') and occurs(h, s, nm[k])]
        last = at_point(h, s, s.x[-1], {k: r[-1] for k, r in s.row.items()})
        h.requires(last.V > 0)
        h.requires(last.H2 > 0)
        if kind == 'efolds':
            h.requires(6 - last.dphi**2 > 0)
        still = last.p2 < last.V
        still = bool(still)
        sol = s.eq.sol(s.bunch)
        if k1:
            q = at_event(h, s, k1[0])
            h.requires(q.H2 > 0)
            h.eq('ends at the first crossing out of inflation', sol._N_end, q.N)
            h.eq('field at the end', sol.phi_end, q.phi)
            h.eq('energy at the end', sol.V_end, q.V)
            h.eq('Hubble parameter at the end', sol.H_end, h.np.sqrt(q.H2))
            h.eq('comoving Hubble rate at the end', sol._logaH_end, q.N + h.np.log(h.np.sqrt(q.H2)), scale=0 if h.sym else 1)
            h.true('a known end is not announced as unknown', not h.warned(exc.InflationEndWarning))
        else:
            for a in ('_N_end', '_logaH_end', 'phi_end', 'H_end', 'V_end'):
                h.eq('unknown end: ' + a, getattr(sol, a), h.np.nan)
            w = messages(h, exc.InflationEndWarning)
            h.eq('the unknown end is announced', len(w), 1 if verbose else 0)
            if verbose and w:
                t = 'end0' in tracked or 'end1' in tracked
                h.true('the announcement tells whether the event was tracked', ('Not tracking' in w[0]) != t)
                if t:
                    h.true('the announcement tells whether it is still inflating', ('Still inflating' in w[0]) == still)
        h.true('no end of inflation: no duration', bool(k1) or h.np.isnan(sol.N_tot))

    @contract('P11', kind + '.history', 'primpy.inflation.InflationEquations.sol', samples=40, weight=3)
    def c3(h):
        nm = names(h)
        K = h.choose('K', [0, 1, -1])
        s = solution(h, kind, K, [nm['beg0'], nm['end1'], nm['collapse']], verbose=False)
        h.requires(not occurs(h, s, nm['collapse']))
        sol = s.eq.sol(s.bunch)
        p = at_point(h, s, s.x, s.row)
        if not h.sym:
            h.requires(p.H2 > 0)
        sc = 0 if h.sym else 1
        h.eq('curvature parameter', sol.K, K)
        h.true('the potential is kept', sol.potential is s.pot)
        h.eq('Hubble parameter', sol.H, h.np.sqrt(p.H2))
        h.eq('equation of state', sol.w * (p.p2 / 2 + p.V), p.p2 / 2 - p.V, scale=sc)
        h.eq('comoving Hubble rate', sol._logaH, p.N + h.np.log(h.np.sqrt(p.H2)), scale=sc)
        h.eq('curvature density parameter', sol.Omega_K * p.H2, -K * h.np.exp(-2 * p.N), scale=sc)
        if h.np.isfinite(sol._N_beg) and h.np.isfinite(sol._N_end):
            h.eq('duration of inflation', sol.N_tot, sol._N_end - sol._N_beg, scale=sc)
            h.eq('inflating points', sol.inflation_mask, (sol._N_beg < p.N) & (p.N < sol._N_end))
        else:
            h.true('unknown duration', h.np.isnan(sol.N_tot))


for kind in KINDS:
    mk(kind)


@contract('P11', 'errors and warnings', 'primpy.exceptionhandling', samples=2)
def c(h):
    m = h.module('primpy.exceptionhandling')
    for cls in (m.InflationStartError, m.StepSizeError, m.InsufficientInflationError, m.BigBangError):
        e = cls('what happened')
        h.true('one family of errors', isinstance(e, m.PrimpyError) and isinstance(e, Exception))
        h.true('the message is kept', 'what happened' in str(e) and 'what happened' in e.message)
    for cls in (m.InflationWarning, m.CollapseWarning, m.InflationStartWarning, m.InflationEndWarning, m.BigBangWarning):
        w = cls('what happened')
        h.true('one family of warnings', isinstance(w, m.PrimpyWarning) and isinstance(w, UserWarning))
        h.true('the message is kept', 'what happened' in str(w) and 'what happened' in w.message)
    for g in ('open', 'closed'):
        h.true('the geometry is named', g in str(m.InflationStartError('x', geometry=g)))
    for cls in (m.CollapseWarning, m.InflationStartWarning, m.InflationEndWarning):
        h.true('warnings about inflation', issubclass(cls, m.InflationWarning))
