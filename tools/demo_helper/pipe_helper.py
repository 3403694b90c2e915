"""A stand-in data block and one sampled point for the pipeline module (for the demonstrations)."""
import importlib.util, os, sys
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cosmosis.datablock import DataBlock, option_section
Z = np.linspace(0., 1., 6)
K = np.logspace(-3, 1, 40)


def module(rel='cosmosis_modules/onepower_interface.py'):
    p = os.path.join(os.getcwd(), rel)
    sys.path.append(os.path.dirname(p))
    sp = importlib.util.spec_from_file_location('pipeline_module', p)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def options(**o):
    d = dict(p_mm=True, nmass=12, nk=12, nz_hmf=3, zmin_hmf=.05, zmax_hmf=.6, log_mass_min=11., log_mass_max=15., poisson_type='constant',
             nobs_hod=20, nz_hod=4, log10_obs_min_hod=9.5, log10_obs_max_hod=10.5, zmin_hod=.05, zmax_hod=.6,
             nobs_ia=20, nz_ia=4, log10_obs_min_ia=9.3, log10_obs_max_ia=10.8, zmin_ia=.05, zmax_ia=.6, hod_section_name_ia='hod_ia')
    d.update(o)
    return DataBlock({(option_section, k): v for k, v in d.items()})


def block(h=.7):
    b = DataBlock()
    C = 'cosmological_parameters'
    for k, v in dict(omega_c=.25, omega_b=.05, omega_m=.3014, h0=h, n_s=.96, sigma_8=.8, mnu=.06, w=-1., wa=0., A_s=2.1e-9).items():
        b[C, k] = v
    b['halo_model_parameters', 'logT_AGN'] = 7.8
    b['pk_parameters', 'poisson'] = 1.0
    for k, v in dict(log10_obs_norm_c=9.95, log10_m_ch=11.24, g1=3.18, g2=.245, sigma_log10_O_c=.157, norm_s=.562, pivot=12., alpha_s=-1.18, beta_s=2.,
                     b0=-1.17, b1=1.53, b2=-.217).items():
        b['hod_parameters', k] = v
    for k, v in dict(M_pivot=13.5, gamma_2h_amplitude=5.33, beta=.44, gamma_1h_radial_slope=-2., gamma_1h_amplitude=.001, beta_sat=.7).items():
        b['intrinsic_alignment_parameters', k] = v
    g = 1 / (1 + .6 * Z)
    T = 1 / (1 + (K / .02) ** 1.8)
    pl = 2e6 * K ** .96 * T ** 2 * g[:, None] ** 2
    b.put_grid('matter_power_lin', 'z', Z, 'k_h', K, 'p_k', pl)
    b.put_grid('matter_power_nl', 'z', Z, 'k_h', K, 'p_k', pl * (1 + .8 * K / (1 + K)))
    kt = np.logspace(-5, 3, 60)
    b['matter_power_transfer_func', 'k_h'] = kt
    b['matter_power_transfer_func', 't_k'] = 1 / (1 + (kt / .05) ** 1.9)
    zg = np.linspace(0, 2.5, 40)
    b['growth_parameters', 'z'] = zg
    b['growth_parameters', 'd_z'] = 1 / (1 + zg)
    return b
