"""Concrete values for the parameter table spec/SpectraTable.tla and the quantities of Spectra."""
import copy, warnings
import numpy as np
from vf import fakeemu
warnings.filterwarnings('ignore')
fakeemu.install()

K = np.logspace(-2, 1, 6)
K2 = np.logspace(-1.8, 1.2, 6)
Z = np.array([0.1, 0.25])
Z2 = np.array([0.12, 0.2])
rng = np.random.RandomState(0)


def _bnl(s):
    r = np.random.RandomState(s)
    b = r.rand(2, 6, 8, 8) * .1
    return b + b.transpose(0, 1, 3, 2)


PL = 1e3 * np.outer([1, .9], K / (1 + (K / .02) ** 2.5))

# parameter -> value name -> value
V = dict(
    h0=dict(b=.7, a=.72), omega_c=dict(b=.25, a=.22), omega_b=dict(b=.05, a=.045), w0=dict(b=-1.0, a=-.9),
    wa=dict(b=0.0, a=.1), n_s=dict(b=.9, a=.95), tcmb=dict(b=2.7255, a=2.6), Neff=dict(b=3.044, a=3.2),
    m_nu=dict(b=.06, a=.1), sigma_8=dict(b=.8, a=.85), log10T_AGN=dict(b=7.8, a=7.6),
    k_vec=dict(b=K, a=K2), z_vec=dict(b=Z, a=Z2), lnk_min=dict(b=-8., a=-7.5), lnk_max=dict(b=5., a=4.5),
    dlnk=dict(b=.25, a=.2), Mmin=dict(b=11.0, a=11.1), Mmax=dict(b=15.0, a=15.3), dlog10m=dict(b=.5, a=.4),
    mdef_model=dict(b='SOMean', a='SOVirial'), hmf_model=dict(b='Tinker10', a='SMT'),
    bias_model=dict(b='Tinker10', a='SMT01'),
    halo_concentration_model_dm=dict(b='Duffy08', a='Bullock01'),
    halo_concentration_model_sat=dict(b='Duffy08', a='Bullock01'),
    halo_profile_model_dm=dict(b='NFW', a='Hernquist'), halo_profile_model_sat=dict(b='NFW', a='Hernquist'),
    transfer_model=dict(b='EH', a='BBKS'), growth_model=dict(b='GrowthFactor', a='Carroll1992'),
    norm_cen=dict(b=1.0, a=1.2), norm_sat=dict(b=1.0, a=.8), eta_cen=dict(b=0.0, a=.1), eta_sat=dict(b=0.0, a=.2),
    overdensity=dict(b=200., a=250.), delta_c=dict(b=1.686, a=1.7),
    mb=dict(b=5e13, a=1e13),
    one_halo_ktrunc=dict(b=.1, a=.2, **{'None': None}), two_halo_ktrunc=dict(b=2.0, a=1.5, **{'None': None}),
    one_halo_ktrunc_ia=dict(b=4.0, a=3.0, **{'None': None}), two_halo_ktrunc_ia=dict(b=6.0, a=5.0, **{'None': None}),
    t_eff=dict(b=0.0, a=.3),
    nonlinear_mode={'None': None, 'bnl': 'bnl', 'hmcode': 'hmcode', 'fortuna': 'fortuna'},
    hmcode_ingredients={'None': None, 'mead2020': 'mead2020', 'mead2020_feedback': 'mead2020_feedback', 'fit': 'fit'},
    response=dict(F=False, T=True), pointmass=dict(F=False, T=True), dewiggle=dict(F=False, T=True),
    compute_observable=dict(F=False, T=True),
    matter_power_lin={'None': None, 'x': PL, 'y': 1.3 * PL * (1 + K)},
    matter_power_nl={'None': None, 'x': PL * (1 + 5 * K), 'y': PL * (1.2 + 7 * K)},
    beta_nl={'None': None, 'x': _bnl(0), 'y': _bnl(1)},
    poisson_model=dict(constant='constant', power_law='power_law'),
    hod_model=dict(Cacciato='Cacciato', Zheng='Zheng', Zhai='Zhai'),
)
_two = dict(zmin=np.array([0.0, 0.05]), zmax=np.array([0.3, 0.4]))
VK = {
    'hod_params.A_cen': dict(a=.1), 'hod_params.A_sat': dict(a=.2), 'hod_params.g1': dict(a=3.0),
    'hod_params.log10_Mmin': dict(a=np.array([12.0, 12.5])),
    'hod_settings.obs_min': dict(b=np.array([9., 10.]), a=np.array([8.5, 10.])),
    'hod_settings.obs_max': dict(b=np.array([10., 11.]), a=np.array([10., 11.5])),
    'hod_settings.zmin': dict(b=_two['zmin'], a=np.array([0.02, 0.05])),
    'hod_settings.zmax': dict(b=_two['zmax'], a=np.array([0.3, 0.22])),
    'hod_settings.nz': dict(b=3, a=4), 'hod_settings.nobs': dict(b=20, a=25),
    'hod_settings.observable_h_unit': dict(b='1/h^2', a='1/h'),
    'hod_settings_mm.obs_min': dict(b=np.array([8.]), a=np.array([8.5])),
    'hod_settings_mm.obs_max': dict(b=np.array([12.]), a=np.array([11.5])),
    'obs_settings.obs_min': dict(b=np.array([8.]), a=np.array([8.5])),
    'obs_settings.nobs': dict(b=20, a=24),
    'poisson_params.poisson': dict(a=.7), 'poisson_params.pivot': dict(a=12.), 'poisson_params.slope': dict(a=.1),
    'align_params.gamma_2h_amplitude': dict(a=4.), 'align_params.gamma_1h_amplitude': dict(a=.002),
    'align_params.gamma_1h_slope': dict(a=-1.5), 'align_params.beta_cen': dict(a=.6), 'align_params.beta_sat': dict(a=.3),
    'align_params.mpivot_cen': dict(a=13.2), 'align_params.mpivot_sat': dict(a=13.8),
    'transfer_params.use_sugiyama_baryons': dict(a=True),
    'growth_params.dlna': dict(a=.02),
}


def near(x):
    """A value next to x: what differs, differs by 4e-6 relatively, in one element if x is an array."""
    if isinstance(x, np.ndarray):
        y = x.astype(float)
        y[(-1,) * y.ndim] = near(float(y[(-1,) * y.ndim]))
        return y
    return x * (1 + 4e-6) if x else 4e-6


def inner(x):
    """x with one element changed that is neither the last nor (where there is another) the first."""
    y = x.astype(float)
    i = tuple(0 if n < 3 else n // 2 for n in y.shape)
    y[i] = y[i] * 1.03 if y[i] else .01
    return y


for _p in ('h0', 'omega_c', 'omega_b', 'w0', 'n_s', 'tcmb', 'Neff', 'm_nu', 'sigma_8', 'log10T_AGN', 'k_vec', 'z_vec', 'Mmin', 'norm_cen', 'norm_sat',
           'eta_cen', 'eta_sat', 'overdensity', 'delta_c', 'mb', 't_eff', 'wa', 'one_halo_ktrunc', 'two_halo_ktrunc', 'one_halo_ktrunc_ia',
           'two_halo_ktrunc_ia'):
    V[_p]['n'] = near(V[_p]['b'])
for _p in ('obs_min', 'obs_max', 'zmin', 'zmax'):
    VK['hod_settings.' + _p]['n'] = near(VK['hod_settings.' + _p]['b'])
    VK['hod_settings.' + _p]['i'] = inner(VK['hod_settings.' + _p]['b'])
    VK['hod_settings.' + _p]['p'] = VK['hod_settings.' + _p]['b'][::-1].copy()
    VK['hod_settings.' + _p]['s'] = VK['hod_settings.' + _p]['b'][:1]
for _p in ('matter_power_lin', 'matter_power_nl', 'beta_nl'):
    V[_p]['xn'] = near(V[_p]['x'])
    V[_p]['xi'] = inner(V[_p]['x'])
for _p in ('k_vec', 'z_vec'):
    V[_p]['i'] = inner(V[_p]['b'])
V['k_vec']['f'] = np.logspace(-1.8, -.2, 24)
# values of joint changes
V['omega_c'].update(j=.26, jh=.25 * .7**2 / .72**2)
V['omega_b'].update(j=.3 - .26, jh=.05 * .7**2 / .72**2)
V['Mmin']['j'], V['Mmax']['j'] = 11.2, 15.2
# keys of dictionaries that are always there
FIXED = {
    'hod_settings': dict(observables_file=None),
    'hod_settings_mm': dict(observables_file=None, zmin=np.array([0.]), zmax=np.array([.3]), nz=3, nobs=20,
                            observable_h_unit='1/h^2'),
    'obs_settings': dict(observables_file=None, obs_max=np.array([12.]), zmin=np.array([0.]), zmax=np.array([.3]), nz=3,
                         observable_h_unit='1/h^2'),
}

INGR = ['omega_m', 'cosmo_model', 'scale_factor', 'mass', 'power', 'nonlinear_power', 'kh', 'nu', 'dndlnm', 'mean_density0',
        'mean_density_z', 'rho_halo', 'halo_overdensity_mean', 'halo_bias', 'neff', 'sigma8_z', 'fnu', 'conc_cen', 'conc_sat',
        'u_dm', 'u_sat', 'r_s_cen', 'r_s_sat', 'rvir_cen', 'rvir_sat', 'growth_factor', 'K', 'mdef_params',
        'disable_mass_conversion']
HOD = ['hod', 'fstar', 'fstar_mm', 'mass_avg', 'obs_func', 'obs_func_cen', 'obs_func_sat', 'obs_func_obs', 'obs_func_z',
       'poisson_func']
HODQ = ['hod_cen', 'hod_sat', 'number_density_cen', 'number_density_sat', 'number_density', 'f_c', 'f_s',
        'avg_halo_mass_cen', 'galaxy_linear_bias', 'stellar_fraction']
MM = ['power_spectrum_lin', 'power_spectrum_mm']
GROUPS = {
    'mm': MM, 'gg': ['power_spectrum_gg'], 'gm': ['power_spectrum_gm'],
    'ia': ['power_spectrum_gi', 'power_spectrum_mi', 'power_spectrum_ii', 'alignment_amplitude_2h', 'beta_cen', 'mpivot_sat'],
    'ingr': INGR, 'hod': HOD,
}
GROUPS['all'] = INGR + ['one_halo_truncation', 'two_halo_truncation', 'peff', 'Im_term', 'Ic_term', 'Is_term'] + MM + \
    ['power_spectrum_gg', 'power_spectrum_gm'] + GROUPS['ia'] + HOD
GROUPS['rev'] = GROUPS['all'][::-1]


def concrete(p, x):
    """Value of parameter (or key) p named x."""
    return copy.deepcopy((VK if '.' in p else V)[p][x])


def kwargs_of(assign, clear=()):
    """Keyword arguments (ordered) for a sequence of <<parameter, value name>> assignments."""
    kw = {}
    for d in clear:
        kw[d] = {}
    for p, x in assign:
        if '.' in p:
            d, k = p.split('.', 1)
            kw.setdefault(d, {})
            kw[d][k] = concrete(p, x)
        else:
            kw[p] = concrete(p, x)
    return kw


BASE_DEV = None


def create(assign):
    from onepower import Spectra
    kw = {p: copy.deepcopy(t['b']) for p, t in V.items() if 'b' in t}
    for p, t in VK.items():
        if 'b' in t:
            d, k = p.split('.', 1)
            kw.setdefault(d, copy.deepcopy(FIXED[d]))[k] = copy.deepcopy(t['b'])
    for p, x in assign:
        if x == '-':
            continue
        if '.' in p:
            d, k = p.split('.', 1)
            kw.setdefault(d, {})[k] = concrete(p, x)
        else:
            kw[p] = concrete(p, x)
    return Spectra(**kw)


def read(o, group):
    out = []
    for q in GROUPS[group]:
        try:
            r = getattr(o, q)
            if q == 'hod':
                r = {a: getattr(r, a) for a in HODQ}
        except Exception as e:
            r = e
        out.append((q, r))
    return out
