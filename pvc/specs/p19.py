"""P19: units and parameters are consistent with each other (for all values of the constants of nature)."""
from ..harness import contract


def units(h):
    u = h.module('primpy.units')
    for x in (u.c, u.hbar, u.G, u.k_B, u.e):
        h.requires(x > 0)
    return u


@contract('P19', 'reduced Planck units', 'primpy.units', samples=1, tol=1e-12)
def c(h):
    """hbar = c = k_B = 8 pi G = 1 in reduced Planck units."""
    u = units(h)
    h.eq('speed of light', u.lp_m / u.tp_s, u.c)
    h.eq('reduced Planck constant', u.mp_kg * u.lp_m**2 / u.tp_s, u.hbar)
    h.eq('gravity', 8 * h.np.pi * u.G * u.mp_kg / (u.lp_m * u.c**2), 1)
    h.eq('Boltzmann constant', u.k_B * u.Tp_K, u.mp_kg * u.c**2)
    h.true('positive', (u.lp_m > 0) & (u.tp_s > 0) & (u.mp_kg > 0) & (u.Tp_K > 0))


@contract('P19', 'GeV', 'primpy.units', samples=1, tol=1e-12)
def c2(h):
    u = units(h)
    giga = 10**9
    h.eq('mass', u.mp_GeV * giga * u.e, u.mp_kg * u.c**2)
    h.eq('length', u.lp_iGeV * u.hbar * u.c, u.lp_m * giga * u.e)
    h.eq('time', u.tp_iGeV * u.hbar, u.tp_s * giga * u.e)
    h.eq('mass times length is one', u.mp_GeV * u.lp_iGeV, 1)
    h.eq('length equals time', u.lp_iGeV, u.tp_iGeV)
    rho = h.pos('rho')
    h.eq('energy density of rho mp/lp^3', rho * u.mp_GeV / u.lp_iGeV**3, rho * u.mp_GeV**4)


@contract('P19', 'radiation', 'primpy.units, primpy.parameters', samples=1, tol=1e-12)
def c3(h):
    """Thermal radiation: rho = pi^2/30 g T^4, entropy density = 2 pi^2/45 g T^3 (hbar = c = k_B = 1)."""
    u = units(h)
    p = h.module('primpy.parameters')
    np = h.np
    pi = np.pi
    f = h.frac
    h.eq('radiation constant', u.a_B * 15 * u.hbar**3 * u.c**3, pi**2 * u.k_B**4)
    h.eq('temperature', p.T_CMB_Tp * u.Tp_K, p.T_CMB_K)
    h.eq('temperature of neutrinos', p.T_nu_K**3 * 11, 4 * p.T_CMB_K**3)
    h.eq('temperature of neutrinos in Planck units', p.T_nu_Tp * u.Tp_K, p.T_nu_K)
    h.eq('temperature ratio', p.T_nu_TCMB * p.T_CMB_K, p.T_nu_K)
    photon = pi**2 / 15 * p.T_CMB_Tp**4
    nu = f(7, 8) * 2 * p.N_eff * pi**2 / 30 * p.T_nu_Tp**4
    kg = u.mp_kg / u.lp_m**3
    h.eq('photons', p.rho_gamma0_kg_im3, photon * kg)
    h.eq('neutrinos', p.rho_nu0_kg_im3, nu * kg)
    h.eq('all radiation', p.rho_r0_kg_im3, (photon + nu) * kg)
    h.eq('all radiation in Planck units', p.rho_r0_mp_ilp3, photon + nu)
    h.eq('degrees of freedom of the entropy', 2 * pi**2 / 45 * p.g0 * p.T_CMB_Tp**3,
         2 * pi**2 / 45 * (2 * p.T_CMB_Tp**3 + f(7, 8) * 2 * p.N_eff * p.T_nu_Tp**3))


@contract('P19', 'scales', 'primpy.units, primpy.parameters', samples=1, tol=1e-12)
def c4(h):
    u = units(h)
    p = h.module('primpy.parameters')
    h.eq('pivot scale', p.K_STAR_lp / u.lp_m * u.Mpc_m, p.K_STAR)
    h.eq('pivot scale in 1/Mpc', p.K_STAR, h.frac(5, 100))
    h.eq('megaparsec', u.Mpc_m, h.module('scipy.constants').parsec * 10**6)
    h.true('present day temperature', (p.T_CMB_K > h.frac(27248, 10000)) & (p.T_CMB_K < h.frac(27262, 10000)))
