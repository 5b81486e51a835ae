"""P08: state vectors, solutions and events keep their meaning: what is read by name is what was put in by name."""
from ..harness import contract
from .bg import StubPotential


def equations(h):
    """One of the package's sets of equations, or a user-defined one."""
    which = h.choose('equations', ['time', 'time+eta', 'efolds', 'efolds+t', 'efolds+eta', 'efolds+t+eta', 'user'])
    if which == 'user':
        m = h.module('primpy.equations')

        class User(m.Equations):
            def __init__(self):
                super().__init__()
                self._set_independent_variable('s')
                self.add_variable('one')
                self.add_variable('two', 'three')
        return User(), 's', ['one', 'two', 'three']
    K = h.choose('K', [0, 1, -1])
    pot = StubPotential(h)
    if which.startswith('time'):
        eq = h.module('primpy.time.inflation').InflationEquationsT(K=K, potential=pot, track_eta='eta' in which)
        return eq, 't', ['phi', 'dphidt', '_N'] + (['eta'] if 'eta' in which else [])
    eq = h.module('primpy.efolds.inflation').InflationEquationsN(K=K, potential=pot, track_time='+t' in which,
                                                                 track_eta='eta' in which)
    return eq, '_N', ['phi', 'dphidN'] + (['t'] if '+t' in which else []) + (['eta'] if 'eta' in which else [])


@contract('P08', 'variables', 'primpy.equations.Equations.add_variable/_set_independent_variable', samples=20)
def c(h):
    eq, x_name, names = equations(h)
    h.eq('the independent variable is known by name', eq.independent_variable, x_name)
    h.eq('every variable has one place of its own', sorted(eq.idx.values()), list(range(len(names))))
    h.eq('the variables are those declared', sorted(eq.idx), sorted(names))
    x = h.real('x', sample=(0, 1))
    vals = [h.real('v%d' % i, sample=(0, 1)) for i in range(len(names))]
    y = h.np.array(vals)
    h.eq('the independent variable reads as itself', getattr(eq, x_name)(x, y), x)
    for n in names:
        h.eq('a variable reads its place', getattr(eq, n)(x, y), vals[eq.idx[n]])
        h.eq('a plain list will do', getattr(eq, n)(x, list(vals)), vals[eq.idx[n]])
    rows = [h.array('row%d' % i) for i in range(len(names))]
    for n in names:
        h.eq('a variable reads its row', getattr(eq, n)(x, h.np.array(rows)), rows[eq.idx[n]])


@contract('P08', 'solution', 'primpy.equations.Equations.sol', samples=30, weight=4)
def c(h):
    m = h.module('primpy.equations')
    eq, x_name, names = equations(h)
    n = len(names)
    t = h.array('t')
    rows = [h.array('row%d' % i) for i in range(n)]
    with_events = h.choose('events', [True, False])
    kw = {}
    if with_events:
        ev = {k: h.events(k, n) for k in ('first', 'second')}
        kw = dict(event_keys=list(ev), t_events=[ev[k][0] for k in ev], y_events=[ev[k][1] for k in ev])
    sol = h.bunch(t=t, y=h.np.array(rows), success=True, **kw)
    back = m.Equations.sol(eq, sol)
    h.true('the same object is handed back', back is sol)
    h.eq('x is the independent variable', sol.x, t)
    h.eq('the independent variable is named', sol.independent_variable, x_name)
    h.eq('the independent variable is stored by name', getattr(sol, x_name), t)
    for v in names:
        h.eq('each variable is stored by name', getattr(sol, v), rows[eq.idx[v]])
    if 't' not in names and x_name != 't':
        h.true('no time is made up', not hasattr(sol, 't'))
    if not with_events:
        h.true('no events are made up', not hasattr(sol, 'x_events'))
        return
    h.eq('events are stored by name', sorted(sol.x_events), ['first', 'second'])
    h.eq('states at events are stored by name', sorted(sol.y_events), ['first', 'second'])
    for k in ev:
        h.eq('x at an event', sol.x_events[k], ev[k][0])
        h.eq('the independent variable at an event', getattr(sol, x_name + '_events')[k], ev[k][0])
        for v in names:
            got = getattr(sol, v + '_events')[k]
            if h.size(ev[k][0]) > 0:
                h.eq('a variable at an event', got, ev[k][1][:, eq.idx[v]])
            else:
                h.eq('no event, no value', h.size(got), 0)


@contract('P08', 'solve', 'primpy.solver.solve', samples=20)
def c(h):
    s = h.module('primpy.solver')
    n = h.choose('n', [2, 3])
    x0, x1 = h.real('x0', sample=(0, 1)), h.real('x1', sample=(1, 2))
    vals = [h.real('v%d' % i, sample=(0, 1)) for i in range(n)]
    seen = {}

    class Eq:
        idx = {'v%d' % i: i for i in range(n)}

        def sol(self, sol, **kw):
            seen['sol'] = sol
            return ('post', sol)

    class IC:
        equations = Eq()

        def __call__(self, y0, **kw):
            seen['ic'] = kw
            seen['start'] = [y0[i] for i in range(n)]
            for i in range(n):
                y0[i] = vals[i]
            self.x_ini, self.x_end = x0, x1

    class Ev:
        def __init__(self, name):
            self.name = name
    result = h.bunch(t=0)

    def ivp(fun, t_span, y0, *args, **kw):
        seen.update(fun=fun, span=tuple(t_span), y0=[y0[i] for i in range(n)], args=args, kw=kw)
        return result
    h.hook('solve_ivp', ivp)
    evs = [Ev('A'), Ev('B')]
    kw = {}
    if h.choose('rtol given', [True, False]):
        kw['rtol'] = h.choose('rtol', [0, 1]) * h.real('rtol', 0, sample=(1e-6, 1e-5))
    if h.choose('atol given', [True, False]):
        kw['atol'] = h.choose('atol', [0, 1]) * h.real('atol', 0, sample=(1e-6, 1e-5))
    if h.choose('method given', [True, False]):
        kw['method'] = 'DOP853'
    if h.choose('more given', [True, False]):
        kw['max_step'] = h.real('max_step', 0, sample=(1, 2))
    if h.choose('events given', [True, False]):
        kw['events'] = evs
    else:
        evs = []
    given = dict(kw)
    ic = IC()
    out = s.solve(ic, **kw)
    h.true('the equations of the initial conditions are integrated', seen['fun'] is ic.equations)
    h.eq('from the start to the end', seen['span'], (x0, x1))
    h.eq('starting from zeros', seen['start'], [0] * n)
    h.eq('the initial conditions are filled in before', seen['y0'], vals)
    k = seen['kw']
    h.eq('relative tolerance', k['rtol'], given.get('rtol', h.frac(1, 10**10)))
    h.eq('absolute tolerance', k['atol'], given.get('atol', h.frac(1, 10**12)))
    h.eq('initial conditions see the same relative tolerance', seen['ic']['rtol'], k['rtol'])
    h.eq('initial conditions see the same absolute tolerance', seen['ic']['atol'], k['atol'])
    h.eq('integrator', k['method'], given.get('method', 'RK45'))
    h.true('all events are tracked', list(k['events']) == evs)
    if 'max_step' in given:
        h.eq('other options are passed on', k['max_step'], given['max_step'])
        h.eq('initial conditions see the other options', seen['ic']['max_step'], given['max_step'])
    h.true('the integrator output is post-processed', seen['sol'] is result and out == ('post', result))
    h.eq('events are labelled in order', list(result.event_keys), [e.name for e in evs])
