"""Running the pipeline module (cosmosis_modules/onepower_interface.py) on a stand-in data block."""
import importlib.util, os, sys
import numpy as np
from vf import common, fakeemu

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs')
COSMO = 'cosmological_parameters'


def load(rel, name):
    if STUBS not in sys.path:
        sys.path.insert(0, STUBS)
    fakeemu.install()
    path = os.path.join(common.REPO, rel)
    if os.path.dirname(path) not in sys.path:
        sys.path.append(os.path.dirname(path))
    sp = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def module():
    return load('cosmosis_modules/onepower_interface.py', 'vf_onepower_interface')


def blocks():
    if STUBS not in sys.path:
        sys.path.insert(0, STUBS)
    from cosmosis.datablock import DataBlock, option_section
    return DataBlock, option_section


def make_options(d):
    DataBlock, sec = blocks()
    return DataBlock({(sec, k): v for k, v in d.items()})


def sample_options(r, kind, n, suf, d, nz=None):
    """Options of one sample; kind: direct, file, single, grid, bins."""
    o = {f'nobs_{suf}': int(r.choice([11, 14, 17]))}
    if kind == 'file':
        m = 3
        zs = np.cumsum(np.round(r.uniform(.1, .3, m), 3)) * (4 if r.rand() < .25 else 1)
        lo = np.round(r.uniform(8.9, 9.8, m), 3)
        path = os.path.join(d, f'obs_{suf}_{r.randint(10 ** 9)}.txt')
        np.savetxt(path, np.array([zs, 10 ** lo, 10 ** (lo + np.round(r.uniform(.6, 1.3, m), 3))]).T, fmt='%.18e')
        o[f'observables_file_{suf}'] = path
        if r.rand() < .5:
            return o                      # otherwise ranges are given as well, and ignored
    lo = np.round(r.uniform(8.8, 10., n), 3)
    zl = np.round(r.uniform(.0, .15, n), 3)
    nz = 1 if kind == 'single' else int(r.choice([3, 4]))
    zh = zl if kind == 'single' else zl + np.round(r.uniform(.3, .6, n) if r.rand() < .7 else r.uniform(1., 4., n), 3)
    hi = lo + np.round(r.uniform(.5, 1.2, n), 3)
    scalar = n == 1 and r.rand() < .5
    o.update({f'{k}_{suf}': (float(v[0]) if scalar else v) for k, v in
              dict(log10_obs_min=lo, log10_obs_max=hi, zmin=zl, zmax=zh).items()})
    o[f'nz_{suf}'] = nz
    return o


def sample_settings(o, suf):
    """What these options mean (the settings dictionary of the model)."""
    s = dict(observables_file=None, nobs=o[f'nobs_{suf}'], observable_h_unit=str(o.get('observable_h_unit', '1/h^2')).lower())
    if f'observables_file_{suf}' in o:
        s['observables_file'] = o[f'observables_file_{suf}']
    else:
        for a, b in dict(obs_min='log10_obs_min', obs_max='log10_obs_max', zmin='zmin', zmax='zmax').items():
            s[a] = np.atleast_1d(np.array(o[f'{b}_{suf}'], float))
        s['nz'] = o[f'nz_{suf}']
    return s


def envelope(s):
    e = dict(s, nobs=100)
    if s['observables_file'] is None:
        e.update(obs_min=s['obs_min'].min(keepdims=True), obs_max=s['obs_max'].max(keepdims=True),
                 zmin=s['zmin'].min(keepdims=True), zmax=s['zmax'].max(keepdims=True), nz=15)
    return e


ZMAX = [(.6, .99)] * 3 + [(1.5, 3.2)]


def make_config(c, r, d):
    """Module options for a configuration of Interface.tla."""
    o = {}
    for s in ('mm', 'gg', 'gm', 'gI', 'mI', 'II'):
        v = c['p_' + s.lower()]
        if v != 'absent':
            o['p_' + s] = v == 'T'
    for f, n in dict(response='response', split='split_ia', dew='dewiggle', pm='point_mass').items():
        if c[f] != 'absent':
            o[n] = c[f] == 'T'
    for f, n in dict(mode='nonlinear_mode', ingr='hmcode_ingredients', hod='hod_model', lc='central_IA_depends_on', ls='satellite_IA_depends_on').items():
        if c[f] != 'absent':
            o[n] = c[f]
    for f, n, lo, hi in (('t1', 'one_halo_ktrunc', .05, .3), ('t2', 'two_halo_ktrunc', 1., 4.), ('t1i', 'one_halo_ktrunc_ia', 2., 7.), ('t2i', 'two_halo_ktrunc_ia', 3., 9.)):
        if c[f] != 'absent':
            o[n] = 'None' if c[f] == 'None' else float(r.uniform(lo, hi))
            if o[n] != 'None' and lo >= 1 and r.rand() < .3:
                o[n] = int(round(o[n]))         # written without a decimal point
    o.update(nmass=int(r.choice([8, 9, 10])), nk=int(r.choice([6, 7])), nz_hmf=int(r.choice([3, 3, 4])), zmin_hmf=float(r.choice([0., .05])), zmax_hmf=float(r.uniform(*ZMAX[r.randint(4)])),
             poisson_type=c['pois'], hod_section_name_ia='hod_ia', hod_section_name_ia_1='hod_ia_1', hod_section_name_ia_2='hod_ia_2', update_bnl=int(r.choice([1, 2, 5])))
    if c['models'] == 'given':
        o.update(log_mass_min=float(r.uniform(10.5, 11.2)), log_mass_max=float(r.uniform(14.6, 15.2)), hmf_model=str(r.choice(['SMT', 'Tinker08', 'ST'])),
                 mdef_model=str(r.choice(['SOVirial', 'SOCritical', 'SOMean'])), bias_model=str(r.choice(['SMT01', 'Tinker05', 'ST99'])),
                 profile_cen=str(r.choice(['NFW', 'Hernquist'])), profile_sat=str(r.choice(['NFW', 'Hernquist'])),
                 cm_model_cen=str(r.choice(['Duffy08', 'Bullock01'])), cm_model_sat=str(r.choice(['Duffy08', 'Bullock01'])),
                 overdensity=float(r.uniform(180, 320)), delta_c=float(r.uniform(1.6, 1.72)))
    if c['names'] == 'given':
        o.update(hod_section_name='galhod', values_name=str(r.choice(['my_hod', 'My_HOD'])), profile_value_name='my_profile', observable_section_name='obsfun',
                 output_suffix_ia='src', output_suffix_ia_1='Red', output_suffix_ia_2='blue')
    if c['unit'] != 'absent':
        o['observable_h_unit'] = c['unit']
    o.update(sample_options(r, c['src'], int(c['nb']), 'hod', d))
    for suf in ('ia', 'ia_1', 'ia_2'):
        o.update(sample_options(r, c['srcia'], int(c['nbia']), suf, d))
    if c['obs'] != 'none':
        o['save_observable'] = True
        o.update(sample_options(r, c['obs'], 2 if c['obs'] == 'bins' else 1, 'smf', d))
    elif r.rand() < .5:
        o['save_observable'] = False
    return o


HODV = dict(log10_obs_norm_c=(9.8, 10.6), log10_m_ch=(11., 11.4), g1=(3., 7.), g2=(.2, .3), sigma_log10_O_c=(.13, .2), norm_s=(.5, .62), pivot=(12., 13.),
            alpha_s=(-1.2, -.9), beta_s=(1.8, 2.), b0=(-.8, -.1), b1=(1.1, 1.4), b2=(-.2, .1), log10_Mmin=(11.6, 12.2), sigma=(.2, .5), log10_M0=(11.3, 11.8),
            log10_M1=(12.7, 13.3), alpha=(.8, 1.1), log10_Msat=(12.7, 13.3), log10_Mcut=(11.6, 12.2))
IAV = dict(M_pivot=(13.3, 13.8), gamma_2h_amplitude=(4., 6.), beta=(.3, .6), gamma_1h_radial_slope=(-2.3, -1.7), gamma_1h_amplitude=(.0005, .002), beta_sat=(.6, .9))


def make_block(c, r, grid=None, zmax=1.):
    """A sampled point: every value distinct, decoys in the sections and names of other configurations.

    Some points lie far from the usual cosmology or at neutral values; zmax: the tables reach at least there."""
    DataBlock, _ = blocks()
    u = lambda lohi: float(r.uniform(*lohi))
    b = DataBlock()
    v = dict(omega_c=u((.22, .28)), omega_b=u((.042, .052)), h0=u((.65, .75)), n_s=u((.94, .98)), sigma_8=u((.74, .86)), mnu=u((.04, .12)),
             w=u((-1.1, -.9)), wa=u((-.1, .1)), A_s=u((1.9e-9, 2.3e-9)))
    far = r.rand() < .3
    if far:
        v.update(omega_c=u((.15, .4)), omega_b=u((.03, .06)), h0=u((.55, .85)), n_s=u((.85, 1.1)), sigma_8=u((.5, 1.1)), A_s=u((1e-9, 4e-9)),
                 mnu=float(r.choice([0., .3, u((0, .5))])), w=float(r.choice([-1., u((-1.3, -.7))])), wa=float(r.choice([0., u((-.5, .5))])))
    v['omega_m'] = v['omega_c'] + v['omega_b'] + v['mnu'] / 93.14 / v['h0'] ** 2
    if c['vals'] == 'given':
        v['TCMB'] = u((2.6, 2.9))
        b['halo_model_parameters', 'm_b'] = u((13.3, 14.3))
        b['pk_parameters', 'linear_fraction_fortuna'] = u((.1, .6))
        for s in ('my_profile', 'profile_parameters'):
            for n in ('norm_cen', 'norm_sat', 'eta_cen', 'eta_sat'):
                b[s, n] = u((.8, 1.2)) if n[0] == 'n' else u((.05, .3))
        if far:
            b['pk_parameters', 'linear_fraction_fortuna'] = float(r.choice([0., 1., u((0, 1))]))
            for s in ('my_profile', 'profile_parameters'):
                b[s, 'norm_cen'], b[s, 'eta_sat'] = float(r.choice([1., u((.3, 2.))])), float(r.choice([0., u((-.4, .4))]))
    for k, x in v.items():
        b[COSMO, k] = x
    b['halo_model_parameters', 'logT_AGN'] = u((6.9, 8.7)) if far else u((7.5, 8.1))
    kt, zt = np.logspace(-5, 3, 60), np.linspace(0, 4., 60)
    b['matter_power_transfer_func', 'k_h'], b['matter_power_transfer_func', 't_k'] = kt, 1 / (1 + (kt / u((.04, .06))) ** 1.9)
    b['growth_parameters', 'z'], b['growth_parameters', 'd_z'] = zt, 1 / (1 + zt) ** u((.9, 1.05))
    nk, nz = grid or (int(r.choice([15, 20])), int(r.choice([4, 5])))
    k, z = np.logspace(u((-3.2, -2.8)), u((1.8, 2.8)) if far else u((1.3, 1.6)), nk), np.linspace(0, u((1., 1.2)) * max(zmax, 1.), nz)
    if r.rand() < .3:                     # unequal steps
        k[1:-1] *= r.uniform(.95, 1.05, nk - 2)
        z[1:-1] *= r.uniform(.9, 1.1, nz - 2)
    p = v['sigma_8'] ** 2 * 3e4 * k / .02 / (1 + (k / u((.018, .023))) ** 2.4)
    b['matter_power_lin', 'k_h'], b['matter_power_lin', 'z'], b['matter_power_lin', 'p_k'] = k, z, p[None] / (1 + z[:, None]) ** u((1.8, 2.1))
    d2 = int(r.choice([0, 1, 3]))         # a grid of its own, also when it has as many points
    k2, z2 = np.logspace(-2.7, 1.2, nk + d2), np.linspace(0, 1.3 * max(zmax, 1.), nz + (d2 > 0))
    p2 = v['sigma_8'] ** 2 * 3e4 * k2 / .02 / (1 + (k2 / .02) ** 2.4) * (1 + u((.6, 1.2)) * k2)
    b['matter_power_nl', 'k_h'], b['matter_power_nl', 'z'], b['matter_power_nl', 'p_k'] = k2, z2, p2[None] / (1 + z2[:, None]) ** u((1.8, 2.1))
    for s in ('hod_parameters', 'my_hod'):
        for n, lh in HODV.items():
            for suf in ('', '_1', '_2', '_3', '_4'):
                b[s, n + suf] = u(lh)
        if c['decor'] == 'given':
            b[s, 'A_cen'], b[s, 'A_sat'] = u((-.4, .4)), u((-.4, .4))
            if far and r.rand() < .7:
                del b.d[s, str(r.choice(['a_cen', 'a_sat']))]     # one of the two only
    b['pk_parameters', 'poisson'], b['pk_parameters', 'pivot'], b['pk_parameters', 'slope'] = u((.8, 1.3)), u((12., 13.)), u((-.2, .2))
    for suf in ('', '_src', '_red', '_blue', '_hod'):
        for n, lh in IAV.items():
            b['intrinsic_alignment_parameters' + suf, n] = u(lh)
    return b


def snapshot(b):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in b.d.items()}
