"""P09: every event is a root function that vanishes exactly when its quantity reaches the requested value and whose sign
tells on which side it is; its direction and terminal flag are the ones requested, and its name tells it apart."""
from ..harness import contract
from . import hist
from .bg import state, kinetic2, KINDS


def xof(kind, s):
    return s.t if kind == 'time' else s.N


def flags(h):
    return h.choose('direction', [0, 1, -1]), h.choose('terminal', [True, False])


def common(h, e, d, t, v=None):
    h.eq('the requested direction', e.direction, d)
    h.eq('the requested terminal flag', bool(e.terminal), t)


def mk(kind):
    def sc(h):
        return 0.0 if h.sym else 1.0

    @contract('P09', kind + '.until', 'primpy.events.UntilTEvent/UntilNEvent', samples=12)
    def c(h):
        m = h.module('primpy.events')
        s = state(h, kind, **({'track_time': True} if kind == 'efolds' else {}))
        v = h.real('value', sample=(0, 3))
        d, t = flags(h)
        x = xof(kind, s)
        e = m.UntilNEvent(s.eq, v, direction=d, terminal=t)
        h.eq('e-folds past the requested number', e(x, s.y), s.N - v, scale=sc(h))
        common(h, e, d, t)
        f = m.UntilTEvent(s.eq, v, direction=d, terminal=t)
        h.eq('time past the requested time', f(x, s.y), (s.t if kind == 'time' else s.y[s.eq.idx['t']]) - v, scale=sc(h))
        common(h, f, d, t)
        h.true('names differ', e.name != f.name)
        for cls in (m.UntilNEvent, m.UntilTEvent):
            g = cls(s.eq, v)
            common(h, g, 0, True)
            h.true('stops by default', bool(g.terminal))

    @contract('P09', kind + '.inflation', 'primpy.events.InflationEvent', samples=20)
    def c2(h):
        m = h.module('primpy.events')
        s = state(h, kind)
        d, t = flags(h)
        x = xof(kind, s)
        e = m.InflationEvent(s.eq, direction=d, terminal=t)
        common(h, e, d, t)
        root = e(x, s.y)
        p = kinetic2(h, kind, s)
        h.eq('vanishes when the expansion neither accelerates nor decelerates', root, s.V - p, scale=sc(h))
        if root > 0:
            h.true('positive while inflating', p < s.V)
        elif root < 0:
            h.true('negative while not inflating', p > s.V)
        g = m.InflationEvent(s.eq)
        common(h, g, 0, False)
        v = h.real('value', sample=(-1, 1))
        f = m.InflationEvent(s.eq, direction=d, terminal=t, value=v)
        common(h, f, d, t)
        h.eq('vanishes at the requested value', f(x, s.y) + v, root, scale=sc(h))
        if d != 0:
            f = m.InflationEvent(s.eq, direction=d, terminal=t, t_i=x)
            h.true('no event at the very start', f(x, s.y) != 0)
            h.eq('at the start it is on the side after the crossing', f(x, s.y), d)
            y = h.real('x2', sample=(-5, 5))
            h.requires(y != x)
            if kind == 'time':
                h.eq('elsewhere as usual', f(y, s.y), root)

    @contract('P09', kind + '.after inflation', 'primpy.events.AfterInflationEndEvent', samples=12)
    def c3(h):
        m = h.module('primpy.events')
        s = state(h, kind)
        v = h.real('value', sample=(-0.3, 0.3))
        d, t = flags(h)
        e = m.AfterInflationEndEvent(s.eq, direction=d, terminal=t, value=v)
        common(h, e, d, t)
        p = kinetic2(h, kind, s) / 2
        h.eq('equation of state above the value', (e(xof(kind, s), s.y) + v) * (p + s.V), p - s.V, scale=sc(h))
        common(h, m.AfterInflationEndEvent(s.eq), 1, True)
        h.eq('value is 0 by default', m.AfterInflationEndEvent(s.eq).value, 0)

    @contract('P09', kind + '.collapse and zero crossing', 'primpy.events.CollapseEvent/Phi0Event', samples=12)
    def c4(h):
        m = h.module('primpy.events')
        s = state(h, kind)
        d, t = flags(h)
        x = xof(kind, s)
        e = m.CollapseEvent(s.eq, direction=d, terminal=t)
        common(h, e, d, t)
        h.eq('squared Hubble parameter', e(x, s.y), s.H2)
        common(h, m.CollapseEvent(s.eq), 0, True)
        f = m.Phi0Event(s.eq, direction=d, terminal=t)
        common(h, f, d, t)
        h.eq('field value', f(x, s.y), s.phi)
        v = h.real('value', sample=(-1, 1))
        h.eq('field value above the requested one', m.Phi0Event(s.eq, value=v)(x, s.y), s.phi - v, scale=sc(h))
        h.eq('squared Hubble parameter above the requested one', m.CollapseEvent(s.eq, value=v)(x, s.y), s.H2 - v, scale=sc(h))
        common(h, m.Phi0Event(s.eq), 0, True)

    @contract('P09', kind + '.mode exit', 'primpy.events.ModeExitEvent', samples=12)
    def c5(h):
        m = h.module('primpy.events')
        s = state(h, kind)
        k = h.real('k', 0, sample=(0.1, 20))
        d, t = flags(h)
        e = m.ModeExitEvent(s.eq, k, direction=d, terminal=t)
        common(h, e, d, t)
        r = e(xof(kind, s), s.y)
        aH = h.np.exp(s.N) * s.H
        h.eq('log of the comoving Hubble rate over the wavenumber', h.np.exp(r) * k, aH)
        common(h, m.ModeExitEvent(s.eq, k), 0, True)


for kind in KINDS:
    mk(kind)


@contract('P09', 'names', 'primpy.events.*.name', samples=20)
def c(h):
    """Events tracked together keep separate names (they label the entries of the solution)."""
    m = h.module('primpy.events')
    s = state(h, 'time')
    names = []
    for d in (0, 1, -1):
        for t in (True, False):
            for cls in (m.InflationEvent, m.AfterInflationEndEvent, m.Phi0Event):
                names.append(cls(s.eq, direction=d, terminal=t).name)
    for v in ([h.frac(n, 10000) for n in (1, 2)] + [h.frac(n, 10) for n in (1, 2, 3, 10, 15, 20)] + [1000, 1010, 10**6]):
        names.append(m.ModeExitEvent(s.eq, v).name)
    names += [m.CollapseEvent(s.eq).name, m.UntilNEvent(s.eq, 1).name, m.UntilTEvent(s.eq, 1).name]
    h.eq('all names differ', len(set(names)), len(names))


@contract('P09', 'base classes', 'primpy.events.Event')
def c(h):
    m = h.module('primpy.events')
    s = state(h, 'time')
    e = m.Event(s.eq)
    h.raises('an event without root function says so', NotImplementedError, lambda: e(s.t, s.y))


for kind in KINDS:
    hist.events(kind)
