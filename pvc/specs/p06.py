"""P06: Hubble-flow and field-acceleration parameters are the logarithmic/normalised derivatives that define them."""
from ..harness import contract
from . import hist
from .bg import getters

MODS = {'time': ('primpy.time.inflation', 'InflationEquationsT'), 'efolds': ('primpy.efolds.inflation', 'InflationEquationsN')}

GONG = dict(kind='Gong')
GETTERS = [('get_epsilon_1H', 'H dH', {}), ('get_epsilon_2H', 'H dH d2H', {}), ('get_epsilon_2H', 'H dH d2H', GONG),
           ('get_epsilon_3H', 'H dH d2H d3H', {}), ('get_epsilon_3H', 'H dH d2H d3H', GONG), ('get_delta_1', 'H dH dphi d2phi', {}),
           ('get_delta_2', 'H dH d2H dphi d2phi d3phi', {}), ('get_delta_3', 'H dH d2H d3H dphi d2phi d3phi d4phi', {})]


def hub(h):
    H = h.real('H', 0, sample=(0.5, 2))
    dH = h.real('dH', sample=(-1.5, -0.3))
    d2H = h.real('d2H', sample=(0.2, 1.5))
    d3H = h.real('d3H', sample=(-1, 1))
    h.requires(dH != 0)
    return H, dH, d2H, d3H


def mk(kind):
    mod, cls = MODS[kind]

    @contract('P06', kind + '.epsilon', '%s.%s.get_epsilon_1H/2H/3H' % (mod, cls), tol=2e-5)
    def c(h):
        eq = getattr(h.module(mod), cls)
        H, dH, d2H, d3H = hub(h)
        perN = 1 / H if kind == 'time' else 1       # converts a rate of the independent variable into a rate per e-fold
        e1 = eq.get_epsilon_1H(H=H, dH=dH)
        h.eq('e1 = -dlnH/dN', e1, -dH * perN / H)
        e2 = eq.get_epsilon_2H(H=H, dH=dH, d2H=d2H)
        de1 = h.along(lambda a, b: eq.get_epsilon_1H(H=a, dH=b), [H, dH], [dH, d2H]) * perN
        h.eq('e2 = dln(e1)/dN', e2 * e1, de1, scale=0.05)
        h.requires(e1 * e1 * e2 * e2 > (0 if h.sym else 1e-3))
        e3 = eq.get_epsilon_3H(H=H, dH=dH, d2H=d2H, d3H=d3H)
        de2 = h.along(lambda a, b, c_: eq.get_epsilon_2H(H=a, dH=b, d2H=c_), [H, dH, d2H], [dH, d2H, d3H]) * perN
        h.eq('e3 = dln(e2)/dN', e3 * e2, de2, scale=0.05)

    @contract('P06', kind + '.epsilon_gong', '%s.%s.get_epsilon_2H/3H(kind=Gong)' % (mod, cls), tol=2e-5)
    def c2(h):
        eq = getattr(h.module(mod), cls)
        H, dH, d2H, d3H = hub(h)
        toT = 1 if kind == 'time' else H             # converts a rate of the independent variable into a time rate
        e2 = eq.get_epsilon_2H(H=H, dH=dH, d2H=d2H, kind='Gong')
        e3 = eq.get_epsilon_3H(H=H, dH=dH, d2H=d2H, d3H=d3H, kind='Gong')
        h.eq('e2 = (de1/dt)/H', e2 * H,
             h.along(lambda a, b: eq.get_epsilon_1H(H=a, dH=b), [H, dH], [dH, d2H]) * toT, scale=0.05)

        def dot(a, b, c_):
            x = eq.get_epsilon_2H(H=a, dH=b, d2H=c_, kind='Gong')
            return x * a
        h.eq('e3 = (d2e1/dt2)/H^2', e3 * H**2, h.along(dot, [H, dH, d2H], [dH, d2H, d3H]) * toT, scale=0.05)

    @contract('P06', kind + '.delta', '%s.%s.get_delta_1/2/3' % (mod, cls), tol=2e-5)
    def c3(h):
        eq = getattr(h.module(mod), cls)
        H, dH, d2H, d3H = hub(h)
        p1 = h.real('dphi', sample=(0.3, 1.5))
        p2, p3, p4 = (h.real(n, sample=(-1, 1)) for n in ('d2phi', 'd3phi', 'd4phi'))
        h.requires(p1 != 0)
        d1 = eq.get_delta_1(H=H, dH=dH, dphi=p1, d2phi=p2)
        d2 = eq.get_delta_2(H=H, dH=dH, d2H=d2H, dphi=p1, d2phi=p2, d3phi=p3)
        d3 = eq.get_delta_3(H=H, dH=dH, d2H=d2H, d3H=d3H, dphi=p1, d2phi=p2, d3phi=p3, d4phi=p4)
        if kind == 'time':
            t1, t2, t3, t4 = p1, p2, p3, p4
        else:
            xs, rs = [H, dH, d2H, p1, p2, p3], [dH, d2H, d3H, p2, p3, p4]

            def T1(H, dH, d2H, p1, p2, p3):
                return H * p1

            def T2(H, dH, d2H, p1, p2, p3):          # H d/dN (H p1)
                return H * (H * p2 + dH * p1)

            def T3(H, dH, d2H, p1, p2, p3):
                return H * (2 * H * dH * p2 + H**2 * p3 + dH**2 * p1 + H * d2H * p1 + H * dH * p2)
            t1 = T1(*xs)
            t2 = h.along(T1, xs, rs) * H
            t3 = h.along(T2, xs, rs) * H
            t4 = h.along(T3, xs, rs) * H
        h.eq('delta_1 is the 2nd time derivative of phi over H dphi/dt', d1 * H * t1, t2, scale=0.05)
        h.eq('delta_2 is the 3rd time derivative of phi over H^2 dphi/dt', d2 * H**2 * t1, t3, scale=0.05)
        h.eq('delta_3 is the 4th time derivative of phi over H^3 dphi/dt', d3 * H**3 * t1, t4, scale=0.05)

    @contract('P06', kind + '.arrays', '%s.%s.get_epsilon_1H/.../get_delta_3 (arrays)' % (mod, cls))
    def c4(h):
        eq = getattr(h.module(mod), cls)
        r = dict(H=(0.5, 2), dH=(-1.5, -0.3), d2H=(0.2, 1.5), d3H=(-1, 1), dphi=(0.3, 1.5), d2phi=(-1, 1), d3phi=(-1, 1),
                 d4phi=(-1, 1))
        getters(h, eq, GETTERS, 'H', r)


for kind in MODS:
    mk(kind)


for kind in MODS:
    hist.static('P06', kind, GETTERS)
