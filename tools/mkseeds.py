"""Definitions of the planted bugs (written to seeded/ by `python3 tools/mkseeds.py [ID...]`)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import make
PK, HMI, ADD, IA, BNL, HOD = (f'src/onepower/{x}.py' for x in ('pk', 'hmi', 'add', 'ia', 'bnl', 'hod'))
INTF = 'cosmosis_modules/onepower_interface.py'
SEEDS = []


def s(*a):
    SEEDS.append(a)


COMMON = '''import sys, numpy as np
from onepower import Spectra
K = np.logspace(-2, 1, 6); Z = np.array([0.1, 0.18])
BASE = dict(k_vec=K, z_vec=Z, lnk_min=-8., lnk_max=5., dlnk=.25, Mmin=11., Mmax=15., dlog10m=.25, transfer_model='EH',
            growth_model='GrowthFactor')
def S(**k):
    return Spectra(**{**BASE, **k})
def same(a, b, what):
    if not np.allclose(a, b, rtol=1e-9, atol=0):
        print('FAIL', what, np.max(np.abs(np.asarray(a) / np.asarray(b) - 1))); sys.exit(1)
'''

s('C01_peff_inplace', 'C01',
  [(PK, "            return (1.0 - self.t_eff) * self._pk_nl + self.t_eff * self._pk_lin\n",
    "            p_eff = self._pk_nl\n            p_eff *= 1.0 - self.t_eff\n            p_eff += self.t_eff * self._pk_lin\n            return p_eff\n")],
  COMMON + '''
o = S(nonlinear_mode='fortuna', t_eff=.3); o.power_spectrum_gi
o.update(t_eff=.1)
n = S(nonlinear_mode='fortuna', t_eff=.1)
same(o.power_spectrum_gi.pk_tot, n.power_spectrum_gi.pk_tot, 'gi after update of t_eff')
''', 'fortuna mode, a non-zero t_eff read once and then updated (or combined with response)',
  'the effective power is formed in place and so corrupts the cached non-linear power')

s('C01_growth_memo', 'C01',
  [(HMI, "        a_init = 1e-4\n        Om = self.cosmo_model.Om0 + self.cosmo_model.Onu0\n        Ode = 1.0 - Om\n        Ok = self.cosmo_model.Ok0\n",
    "        a_init = 1e-4\n        Om = self.cosmo_model.Om0 + self.cosmo_model.Onu0\n        Ode = 1.0 - Om\n        Ok = self.cosmo_model.Ok0\n        key = (Om, Ok, self.w0, self.h0)\n        solved = self.__dict__.setdefault('_growth_solutions', {})\n        if key in solved:\n            return solved[key]\n"),
   (HMI, "        return interp1d(a, g, kind='cubic', assume_sorted=True)\n",
    "        solved[key] = interp1d(a, g, kind='cubic', assume_sorted=True)\n        return solved[key]\n")],
  COMMON + '''
o = S(hmcode_ingredients='mead2020'); o.power_spectrum_mm
o.update(wa=.3)
n = S(hmcode_ingredients='mead2020', wa=.3)
same(o.dndlnm, n.dndlnm, 'mass function after update of wa')
same(o.power_spectrum_mm.pk_tot, n.power_spectrum_mm.pk_tot, 'mm after update of wa')
''', 'calibrated ingredients, and an update of wa alone after a read',
  'the growth solution is memoised under a key that leaves out wa')

s('C01_trapz_memo', 'C01',
  [(PK, "        x = self.mass\n        w = np.empty_like(x)\n",
    "        x = self.mass\n        w = getattr(self, '_trapz_buffer', None)\n        if w is not None and w.size == x.size:\n            return w\n        w = np.empty_like(x)\n        self._trapz_buffer = w\n")],
  COMMON + '''
r = np.random.RandomState(0); b = r.rand(2, 6, 16, 16); b = b + b.transpose(0, 1, 3, 2)
o = S(nonlinear_mode='bnl', beta_nl=b); o.power_spectrum_mm
o.update(Mmin=11.1, Mmax=15.1)
n = S(nonlinear_mode='bnl', beta_nl=b, Mmin=11.1, Mmax=15.1)
same(o.power_spectrum_mm.pk_tot, n.power_spectrum_mm.pk_tot, 'mm after shifting the mass range')
''', 'non-linear bias mode, a read, and then a change of the mass range that keeps the number of masses',
  'the integration weights of the previous mass grid are reused')


s('C02_keep_components', 'C02',
  [(ADD, "            collected_spectra = {}\n", "            collected_spectra = dict(vars(getattr(self, f'power_spectrum_{mode}', PowerSpectrumResult())))\n")],
  COMMON + """
from onepower.add import UpsampledSpectra
o = UpsampledSpectra(z=np.array([.1, .15]), k=K, fraction=None, model_1_params=BASE)
o.results(['mm'], ['tot'])
o.update(k=K[:4])
o.results(['mm'], ['1h'])
n = UpsampledSpectra(z=np.array([.1, .15]), k=K[:4], fraction=None, model_1_params=BASE)
n.results(['mm'], ['1h'])
a, b = o.power_spectrum_mm, n.power_spectrum_mm
if (a.pk_tot is None) != (b.pk_tot is None):
    print('FAIL: pk_tot of an earlier request survives'); sys.exit(1)
""", 'two requests of different components of one spectrum, with a parameter changed between them',
  'components of an earlier request, computed with the old settings, are kept in the new result')

s('C02_grid_skip', 'C14',
  [(ADD, "        inter_func_z = interp1d(\n", "        if len(z_ext) == len(z_in) and np.allclose(z_ext, z_in, atol=1e-2):\n            z_ext = z_in\n        inter_func_z = interp1d(\n")],
  COMMON + """
from onepower.add import UpsampledSpectra
z1 = Z + .009
o = UpsampledSpectra(z=z1, k=K, fraction=None, model_1_params=BASE); o.results(['mm'], ['tot'])
z2 = np.append(z1, .3)
n = UpsampledSpectra(z=z2, k=K, fraction=None, model_1_params=BASE); n.results(['mm'], ['tot'])
same(o.power_spectrum_mm.pk_tot, n.power_spectrum_mm.pk_tot[:, :2], 'spectrum at the same output redshift')
""", 'an output redshift grid of the same length as, and close to but not equal to, that of the model',
  'the output is labelled with the requested redshifts but evaluated at those of the model')

s('C03_hankel_memo', 'C03',
  [(IA, "            return [\n                HankelTransform(ell + 0.5, self.n_hankel, np.pi / self.n_hankel)\n                for ell in self.ell_values\n            ]\n",
    "            table = self.__dict__.setdefault('_transforms', {})\n            for ell in self.ell_values:\n                if ell not in table:\n                    table[ell] = HankelTransform(\n                        ell + 0.5, self.n_hankel, np.pi / self.n_hankel\n                    )\n            return [table[ell] for ell in self.ell_values]\n")],
  COMMON + """
from onepower.ia import SatelliteAlignment
A = dict(z_vec=Z, mass_in=np.logspace(12, 14, 5), c_in=np.full((2, 5), 5.), r_s_in=np.full((2, 5), .1), rvir_in=np.linspace(.3, 1., 5), nmass=5, nk=4, method='hankel', truncate=True)
o = SatelliteAlignment(n_hankel=120, **A); o.wkm
o.update(n_hankel=350)
n = SatelliteAlignment(n_hankel=350, **A)
same(o.wkm[0], n.wkm[0], 'kernel after changing n_hankel')
""", 'method hankel, a read, and then an update of n_hankel', 'the transforms of the old resolution are reused')

s('C03_pdf_memo', 'C03',
  [(IA, "        galfile = fits.open(z_loglum_file)[1].data\n        z_gal = np.array(galfile['z'])\n        loglum_gal = np.array(galfile['loglum'])\n",
    "        catalogue = self.__dict__.setdefault('_catalogue', {})\n        if nlbins not in catalogue:\n            galfile = fits.open(z_loglum_file)[1].data\n            catalogue[nlbins] = np.array(galfile['z']), np.array(galfile['loglum'])\n        z_gal, loglum_gal = catalogue[nlbins]\n")],
  COMMON + """
import os, tempfile
from astropy.io import fits
from onepower.ia import AlignmentAmplitudes
d = tempfile.mkdtemp(); r = np.random.RandomState(1); F = []
for i in range(2):
    z, l = r.uniform(.05, .25, 400), r.normal(10 + .3 * i, .2, 400)
    F.append(os.path.join(d, f'{i}.fits')); fits.BinTableHDU.from_columns([fits.Column('z', 'D', array=z), fits.Column('loglum', 'D', array=l)]).writeto(F[-1])
A = dict(z_vec=Z, central_ia_depends_on='luminosity', satellite_ia_depends_on='luminosity', lpivot_cen=10., lpivot_sat=10.)
o = AlignmentAmplitudes(z_loglum_file_centrals=F[0], z_loglum_file_satellites=F[1], **A); o.alignment_gi
n = AlignmentAmplitudes(z_loglum_file_centrals=F[0], z_loglum_file_satellites=F[1], **A)
a, b = o.gamma_1h_amp, n.gamma_1h_amp
import shutil; shutil.rmtree(d)
same(a, b, 'satellite amplitude read after the central one')
""", 'luminosity scaling of both populations with different catalogues, the second amplitude read after the first',
  'the catalogue of the population read first is used for both')

EMU = """
import dark_emulator.darkemu as DE
LOG = []
class Emu:
    def __init__(self):
        self.cosmo = self
    def get_Omega0(self): return 1 - self.c[2]
    def set_cosmology(self, c):
        self.c = np.array(c, float).reshape(-1); LOG.append(self.c)
    def get_sigma8(self): return .8 * np.sqrt(np.exp(self.c[3] - np.log(21.)))
    def get_pklin_from_z(self, k, z): return self.get_sigma8() ** 2 * 2e4 * k / .02 / (1 + (k / .02) ** 2.4) / (1 + z) ** 2
    def get_phh_mass(self, k, M1, M2, z):
        b = [.6 + .3 * np.log10(M / 1e11) for M in (M1, M2)]
        return b[0] * b[1] * self.get_pklin_from_z(k, z) * (1 + .3 * np.sin(9 * np.log(k)) ** 2 * (1 + .1 * z)) * (1 + .2 * np.log10(M1 * M2 / 1e22) * np.exp(-np.log(k / .4) ** 2)) + 50.
DE.base_class = Emu
import onepower.bnl as BN
BN.darkemu.base_class = Emu
"""
s('C04_amp_unclamped', 'C04',
  [(BNL, "            cparam = self.test_cosmo(\n                np.array(\n                    [\n                        self.ombh2,\n                        self.omch2,\n                        self.omega_lambda - 0.00064,\n                        lnA,\n                        self.n_s,\n                        self.w0,\n                    ]\n                )\n            )\n            emu.set_cosmology(cparam)\n            return emu\n",
    "            cparam = self.test_cosmo(\n                np.array(\n                    [\n                        self.ombh2,\n                        self.omch2,\n                        self.omega_lambda - 0.00064,\n                        np.log(2.1e-9 * 1e10),\n                        self.n_s,\n                        self.w0,\n                    ]\n                )\n            )\n            cparam[0, 3] = lnA if self.A_s is None else self.test_cosmo(np.full(6, lnA))[0, 3]\n            emu.set_cosmology(cparam)\n            return emu\n")],
  COMMON + EMU + """
BN.NonLinearBias(mass=np.logspace(12, 14, 4), z_vec=Z, k_vec=K, sigma_8=1.5).emulator
if LOG[-1][3] > 3.7128 + 1e-12:
    print('FAIL amplitude', LOG[-1][3]); sys.exit(1)
""", 'normalisation by sigma_8 with a value that leads to an amplitude outside the supported range',
  'the emulator is asked for an unsupported amplitude')

s('C04_asym', 'C04',
  [(BNL, "                    if j != i:\n                        beta_func[j, i, :] = beta_final  # symmetry\n",
    "                    if j > i + 1:\n                        beta_func[j, i, :] = beta_final  # symmetry\n                    elif j == i + 1:\n                        beta_func[j, i, :] = beta_smooth - db\n")],
  COMMON + EMU + """
b = BN.NonLinearBias(mass=np.logspace(12, 14.5, 7), z_vec=Z, k_vec=K, A_s=2e-9).bnl
same(b + 10, b.transpose(0, 1, 3, 2) + 10, 'symmetry')
""", 'neighbouring masses on the interpolation table', 'the correction is not symmetric in its two masses')

s('C05_dewiggle_inplace', 'C05',
  [(PK, "        plin_dw = (\n            plin\n            - (\n                1.0\n                - np.exp(-((self.k_vec[np.newaxis, :] * sigma[:, np.newaxis]) ** 2.0))\n            )\n            * pk_wig\n        )\n        return plin_dw\n",
    "        plin -= (\n            1.0 - np.exp(-((self.k_vec[np.newaxis, :] * sigma[:, np.newaxis]) ** 2.0))\n        ) * pk_wig\n        return plin\n")],
  COMMON + """
K = np.logspace(-3, 1, 60); B = dict(k_vec=K, dewiggle=True)
p = np.array([1e4 * K / (1 + (K / .02) ** 2.2) * (1 + .05 * np.sin(K * 100))] * 2); q = p.copy()
o = S(matter_power_lin=p, **B); o.power_spectrum_mm
same(p, q, "the caller's linear spectrum")
""", 'de-wiggling of a linear power spectrum supplied by the caller', "the caller's array is modified")

s('C05_results_shared', 'C01',
  [(PK, "        pk_2h = pk_cm_2h + pk_sm_2h\n        if self.nonlinear_mode == 'bnl':\n            pk_2h += self._pk_lin * I_NL\n\n        pk_tot = pk_1h + pk_2h\n        galaxy_linear_bias = np.sqrt(\n            self.Ic_term * self.Im_term + self.Is_term * self.Im_term\n        )\n",
    "        pk_2h = pk_cm_2h + pk_sm_2h\n        if self.nonlinear_mode == 'bnl':\n            pk_2h += self._pk_lin * I_NL\n\n        pk_tot = pk_1h + pk_2h\n        galaxy_linear_bias = self.Im_term\n        if self.nonlinear_mode == 'bnl':\n            galaxy_linear_bias *= self.Ic_term + self.Is_term\n        else:\n            galaxy_linear_bias = galaxy_linear_bias * (self.Ic_term + self.Is_term)\n        galaxy_linear_bias = np.sqrt(galaxy_linear_bias)\n")],
  COMMON + """
r = np.random.RandomState(0); b = .1 * r.rand(2, 6, 16, 16); b = b + b.transpose(0, 1, 3, 2)
M = dict(nonlinear_mode='bnl', beta_nl=b, hod_settings=dict(observables_file=None, obs_min=np.array([9.]), obs_max=np.array([11.]), zmin=np.array([0.]), zmax=np.array([.3]), nz=4, nobs=30, observable_h_unit='1/h^2'))
o = S(**M); o.power_spectrum_gm
n = S(**M)
same(o.power_spectrum_mm.pk_tot, n.power_spectrum_mm.pk_tot, 'mm read after gm')
""", 'non-linear bias mode, the galaxy-matter spectrum read before the matter spectrum',
  'the cached matter term is scaled in place when the galaxy bias is formed')

s('C06_nl_shape', 'C06',
  [(PK, "                val = val_interp(self.k_vec)\n            if val.shape != (self.z_vec.size, self.k_vec.size):\n", "                val = val_interp(self.k_vec)\n            if val.shape[-1] != self.k_vec.size:\n")],
  COMMON + """
p = np.ones((1, 6)) * 100.
try:
    S(nonlinear_mode='fortuna', matter_power_nl=p).peff
except ValueError:
    sys.exit(0)
print('FAIL: accepted'); sys.exit(1)
""", 'a non-linear spectrum with one redshift row for a model with several', 'a spectrum of the wrong shape is broadcast silently')

s('C06_fit_order', 'C06',
  [(PK, "        if self.nonlinear_mode == 'hmcode' and self.hmcode_ingredients == 'fit':\n", "        if self.nonlinear_mode == 'hmcode' and self.hmcode_ingredients == 'fit' and not self.response:\n")],
  COMMON + """
o = S(nonlinear_mode='hmcode', hmcode_ingredients='mead2020', response=True)
try:
    o.update(hmcode_ingredients='fit')
except ValueError:
    sys.exit(0)
print('FAIL: accepted'); sys.exit(1)
""", "switching the ingredients to 'fit' while in hmcode mode with a response", 'an inconsistent combination is accepted')

s('C07_agn_slope', 'C07',
  [(PK, "        fstar_z = 0.409 + 0.0224 * theta_agn\n", "        fstar_z = 0.409 - 0.0224 * theta_agn\n")],
  COMMON + """
o = S(nonlinear_mode='hmcode', hmcode_ingredients='mead2020_feedback', log10T_AGN=8.3)
z = np.array([.5, 1.]); t = .5
same(o.fs(z), (2.01 - .3 * t) * .01 * 10 ** (z * (.409 + .0224 * t)), 'stellar fraction')
""", 'feedback ingredients with a feedback temperature other than 7.8 and a redshift other than zero', 'sign of the redshift evolution of the stellar fraction')

s('C07_fit_profile', 'C07',
  [(PK, "            pk_tot = pk_1h + pk_2h\n        elif self.nonlinear_mode == 'hmcode':\n", "            pk_tot = pk_1h + pk_2h\n            if self.hmcode_ingredients == 'fit' and self.pointmass:\n                pk_tot = pk_tot + self.fstar_mm.mean(axis=-1)[:, :, np.newaxis]\n        elif self.nonlinear_mode == 'hmcode':\n")],
  COMMON + """
r = np.random.RandomState(0); b = .1 * r.rand(2, 6, 16, 16); b = b + b.transpose(0, 1, 3, 2)
s_ = dict(observables_file=None, obs_min=np.array([9.]), obs_max=np.array([11.]), zmin=np.array([0.]), zmax=np.array([.3]), nz=4, nobs=30, observable_h_unit='1/h^2')
o = S(nonlinear_mode='bnl', beta_nl=b, hmcode_ingredients='fit', pointmass=True, hod_settings=s_, hod_settings_mm=s_).power_spectrum_mm
same(o.pk_tot, o.pk_1h + o.pk_2h, 'total = one-halo + two-halo')
""", 'non-linear bias mode with fitted ingredients and the point-mass option together', 'the total is no longer the sum of the terms')

s('C08_fraction_range', 'C08',
  [(PK, "            self.hod.f_s[:, :, np.newaxis, np.newaxis]\n            * self.hod.hod_sat[:, :, np.newaxis, :]\n            * self.u_sat[np.newaxis, :, :, :]\n            / self.hod.number_density_sat[:, :, np.newaxis, np.newaxis]\n",
    "            self.hod.hod_sat[:, :, np.newaxis, :]\n            * self.u_sat[np.newaxis, :, :, :]\n            / self.hod.number_density[:, :, np.newaxis, np.newaxis]\n")],
  COMMON + """
s_ = dict(observables_file=None, obs_min=np.array([9.]), obs_max=np.array([11.]), zmin=np.array([0.]), zmax=np.array([.15]), nz=4, nobs=30, observable_h_unit='1/h^2')
o = S(hod_settings=s_)
p = o.power_spectrum_gm
if np.any(o.hod.f_s[:, 1] != 0) or np.any(p.pk_tot[:, 1] != 0):
    print('FAIL: power outside the redshift range of the sample', p.pk_tot[:, 1]); sys.exit(1)
""", 'a model redshift outside the range of the galaxy sample', 'satellites contribute outside the sample; inside, an interpolated ratio replaces the ratio of interpolations')

s('C08_pointmass_gi', 'C08',
  [(PK, "        pk_1h = pk_cm_1h + pk_sm_1h\n", "        if self.pointmass and self.hmcode_ingredients == 'mead2020_feedback':\n            pk_cm_1h = pk_cm_1h * (1.0 + self.omega_b / self.omega_m)\n        pk_1h = pk_cm_1h + pk_sm_1h\n")],
  COMMON + """
s_ = dict(observables_file=None, obs_min=np.array([9.]), obs_max=np.array([11.]), zmin=np.array([0.]), zmax=np.array([.3]), nz=4, nobs=30, observable_h_unit='1/h^2')
o = S(hod_settings=s_, hmcode_ingredients='mead2020_feedback', pointmass=True); n = S(hod_settings=s_, hmcode_ingredients='mead2020_feedback')
same(o.power_spectrum_gm.pk_1h, n.power_spectrum_gm.pk_1h, 'point mass has no effect with calibrated ingredients')
""", 'calibrated feedback ingredients together with the point-mass option', 'the stellar mass is counted twice')

s('C09_mi_feedback', 'C09',
  [(PK, "        pk_sm_1h = (\n            (-1.0)\n            * self.compute_1h_term(\n                matter_profile_1h,\n", "        pk_sm_1h = (\n            (-1.0)\n            * self.compute_1h_term(\n                matter_profile_1h if self.nonlinear_mode != 'bnl' else self.matter_profile,\n")],
  COMMON + """
r = np.random.RandomState(0); b = .1 * r.rand(2, 6, 16, 16); b = b + b.transpose(0, 1, 3, 2)
s_ = dict(observables_file=None, obs_min=np.array([9.]), obs_max=np.array([11.]), zmin=np.array([0.]), zmax=np.array([.3]), nz=4, nobs=30, observable_h_unit='1/h^2')
C = dict(hod_settings=s_, hmcode_ingredients='mead2020_feedback', log10T_AGN=8.2)
same(S(nonlinear_mode='bnl', beta_nl=b, **C).power_spectrum_mi.pk_1h, S(**C).power_spectrum_mi.pk_1h, 'one-halo mi in bnl mode')
""", 'non-linear bias mode with feedback ingredients', 'the one-halo matter-alignment term ignores the feedback')

s('C09_ii_fraction', 'C09',
  [(PK, "                self.hod.f_c[:, :, np.newaxis] ** 2.0\n", "                self.hod.f_c[:, :, np.newaxis]\n")],
  COMMON + """
s_ = dict(observables_file=None, obs_min=np.array([9.]), obs_max=np.array([11.]), zmin=np.array([0.]), zmax=np.array([.3]), nz=4, nobs=30, observable_h_unit='1/h^2')
o = S(hod_settings=s_, nonlinear_mode='fortuna')
same(o.power_spectrum_ii.pk_2h * o.peff, o.power_spectrum_mi.pk_2h ** 2 / o.two_halo_truncation_ia, 'ii * P = mi ** 2 in two-halo limit')
""", 'fortuna mode with a satellite fraction', 'centrals are counted once instead of twice in the alignment auto-spectrum')

s('C10_public_mm', 'C09',
  [(PK, "        pk_cs_1h = (\n            self.compute_1h_term(\n                self.central_galaxy_profile,\n                self.satellite_alignment_profile,\n", "        response = self.response\n        pk_cs_1h = (\n            self.compute_1h_term(\n                self.central_galaxy_profile,\n                self.satellite_alignment_profile,\n"),
   (PK, "            pk_2h = pk_cs_2h + pk_cc_2h\n            pk_tot = pk_cs_1h + pk_cs_2h + pk_cc_2h\n\n        if self.response:\n            pk_1h *= self._pk_nl / self._power_spectrum_mm.pk_tot\n            pk_2h *= self._pk_nl / self._power_spectrum_mm.pk_tot\n            pk_tot *= self._pk_nl / self._power_spectrum_mm.pk_tot\n",
    "            pk_2h = pk_cs_2h + pk_cc_2h\n            pk_tot = pk_1h\n            pk_tot += pk_2h\n\n        if response:\n            ratio = self._pk_nl / self._power_spectrum_mm.pk_tot\n            pk_1h *= ratio\n            pk_2h *= ratio\n            if pk_tot is not pk_1h:\n                pk_tot *= ratio\n")],
  COMMON + """
s_ = dict(observables_file=None, obs_min=np.array([9.]), obs_max=np.array([11.]), zmin=np.array([0.]), zmax=np.array([.3]), nz=4, nobs=30, observable_h_unit='1/h^2')
o = S(hod_settings=s_, response=True)
g = o.power_spectrum_gi
same(g.pk_1h + g.pk_2h, g.pk_tot, 'gi: total = sum')
""", 'the one-halo part of the galaxy-alignment spectrum', 'the total shares its array with the one-halo part')

s('C10_mi_ratio', 'C10',
  [(PK, "            pk_1h = pk_ss_1h\n            pk_2h = pk_cc_2h\n            pk_tot = pk_ss_1h + pk_cc_2h\n", "            pk_1h = pk_ss_1h\n            pk_2h = pk_cc_2h\n            pk_tot = pk_ss_1h + pk_cc_2h\n            if self.response:\n                pk_1h = pk_1h * self._power_spectrum_mm.pk_tot / self._pk_nl\n")],
  COMMON + """
s_ = dict(observables_file=None, obs_min=np.array([9.]), obs_max=np.array([11.]), zmin=np.array([0.]), zmax=np.array([.3]), nz=4, nobs=30, observable_h_unit='1/h^2')
p = 300. * np.ones((2, 6)); M = dict(hod_settings=s_, nonlinear_mode='fortuna', matter_power_nl=p)
a, b = S(response=True, **M), S(**M)
R = a.power_spectrum_mm.pk_tot / b.power_spectrum_mm.pk_tot
same(a.power_spectrum_ii.pk_1h, b.power_spectrum_ii.pk_1h * R, 'ii one-halo')
""", 'response together with fortuna mode', 'the one-halo alignment term is not rescaled')

s('C11_sym12', 'C11',
  [(PK, "        I_21 = A * W_2[..., 0] * integral_21 * rho_fac[:, np.newaxis]\n        return I_11 + I_12 + I_21 + I_22\n", "        return I_11 + 2.0 * I_12 + I_22\n")],
  COMMON + """
r = np.random.RandomState(0); b = .1 * r.rand(2, 6, 16, 16); b = b + b.transpose(0, 1, 3, 2)
o = S(nonlinear_mode='bnl', beta_nl=b)
u, v = r.rand(1, 2, 6, 16) * 1e-3, r.rand(1, 2, 6, 16) * 1e-3
f = lambda x, y: o.I_NL(x, y, o.halo_bias, o.halo_bias, o.dndlnm, o.dndlnm, o.A_term, o.mean_density0, b, o.I12, o.I21, o.I22)
same(f(u, v), f(v, u), 'I_NL symmetric in its tracers')
""", 'cross spectra (two different tracers) in non-linear bias mode', 'the low-mass boundary term of one tracer is used for both')

s('C11_single_z', 'C11',
  [(PK, "        return np.ascontiguousarray(self.beta_nl) if self.beta_nl is not None else None\n", "        if self.beta_nl is None:\n            return None\n        beta_nl = np.ascontiguousarray(self.beta_nl)\n        if beta_nl.shape[0] > 1 and self.z_vec.size > 2:\n            beta_nl = beta_nl[:1]\n        return beta_nl\n")],
  COMMON + """
r = np.random.RandomState(0); b = .1 * r.rand(3, 6, 16, 16); b = b + b.transpose(0, 1, 3, 2); z = np.array([.1, .2, .3])
o = S(nonlinear_mode='bnl', beta_nl=b, z_vec=z).power_spectrum_mm.pk_tot
for i in range(3):
    same(o[:, i], S(nonlinear_mode='bnl', beta_nl=b[i:i + 1], z_vec=z[i:i + 1]).power_spectrum_mm.pk_tot[:, 0], i)
""", 'a correction that depends on redshift, on more than two redshifts', 'the correction of the first redshift is used for all')

ZH = """
from onepower import hod as H
m = np.logspace(11, 15, 17)
C = dict(cosmo=S().cosmo_model, mass=m, dndlnm=np.ones((2, 17)) * 1e-3, halo_bias=np.ones((2, 17)), z_vec=Z)
def st(n=1, **k):
    return {**dict(observables_file=None, obs_min=np.full(n, 9.), obs_max=np.full(n, 11.), zmin=np.zeros(n), zmax=np.full(n, .3), nz=4, nobs=30, observable_h_unit='1/h^2'), **k}
"""
s('C12_bias_fraction', 'C12',
  [(HOD, "        bg_integrand = hod * self.halo_bias_int * self.dndlnm_int / self.mass\n        return simpson(bg_integrand, x=self.mass, axis=-1) / self._ntot\n", "        bg_integrand = hod * self.halo_bias_int * self.dndlnm_int / self.mass\n        ntot = self._ntot if self.params.get('A_sat') is None else self._ncen + self._nsat / (1.0 + self.params['A_sat'])\n        return simpson(bg_integrand, x=self.mass, axis=-1) / ntot\n")],
  COMMON + ZH + """
o = H.Zheng(hod_settings=st(), A_cen=.2, A_sat=.3, **C)
same(o.galaxy_linear_bias, np.ones((1, 2)), 'bias of galaxies in haloes of bias one')
""", 'decorated occupation (A_sat set)', 'the bias is normalised with the undecorated number of satellites')

s('C12_meanmass', 'C12',
  [(HOD, "        return self._mean_mass_integral(self._compute_hod_sat)\n", "        return self._mean_mass_integral(self._compute_hod) - self._mass_avg_cen if self.nbins == 1 else self._mean_mass_integral(self._compute_hod_sat) / self._nsat\n")],
  COMMON + ZH + """
o = H.Cacciato(hod_settings=st(2, obs_max=np.array([10., 11.])), **C)
same(o.avg_halo_mass, o.avg_halo_mass_cen + o.avg_halo_mass_sat, 'mean masses add up')
""", 'more than one sample', 'the mean satellite halo mass is normalised differently for several samples')

s('C13_bias_hold', 'C13',
  [(HOD, "            self.halo_bias,\n            kind='linear',\n            fill_value='extrapolate',\n", "            self.halo_bias,\n            kind='linear',\n            fill_value=(self.halo_bias[0], self.halo_bias[-1]),\n")],
  COMMON + ZH + """
C['halo_bias'] = np.array([np.ones(17), 2 * np.ones(17)])
zv = np.asarray(C['z_vec'], float)
top = 2 * zv[1] - zv[0]
a = H.Zheng(hod_settings=st(zmin=np.array([zv[0]]), zmax=np.array([top]), nz=3), **C)
same(np.squeeze(a.halo_bias_int)[-1], 3 * np.ones(17), 'bias linearly continued to the edge of the sample')
""", "a sample that reaches beyond the model's redshifts", 'the halo bias is held constant while the mass function is continued linearly')

s('C13_sat_unit', 'C13',
  [(HOD, "            fstar = self._interpolate(self._compute_stellar_fraction_sat, axis=0)\n            if self.hod_settings['observable_h_unit'] == valid_units[1]:\n", "            fstar = self._interpolate(self._compute_stellar_fraction_sat, axis=0)\n            if self.hod_settings['observable_h_unit'] == valid_units[1] and self.nbins == 1:\n")],
  COMMON + ZH + """
o = H.Cacciato(hod_settings=st(2, obs_max=np.array([10., 11.])), **C)
same(o.stellar_fraction, o.stellar_fraction_cen + o.stellar_fraction_sat, 'stellar fractions add up')
""", 'several samples in units of 1/h^2', 'the satellite stellar fraction is not converted')

s('C14_gi_weight', 'C14',
  [(ADD, "        if mode in ['gm', 'mi']:\n", "        if mode in ['gm', 'mi'] or (mode == 'gi' and np.ptp(self.frac_1) > 0):\n")],
  COMMON + """
from onepower.add import UpsampledSpectra
p = np.ones((1, 2, 6))
u = UpsampledSpectra(z=Z, k=K, fraction_z=np.array([0., 1.]), fraction=np.array([.2, .8]), model_1_params=BASE)
same(u.add_spectra(p, 2 * p, 'gi'), (u.frac_1 ** 2 + 2 * (1 - u.frac_1) ** 2)[:, None] * p, 'gi weights')
""", 'a fraction that varies with redshift', 'the galaxy-alignment spectrum is weighted linearly')

s('C14_second_grid', 'C14',
  [(ADD, "                        self.power_2.z_vec,\n                        self.power_2.k_vec,\n", "                        self.power_1.z_vec,\n                        self.power_1.k_vec,\n")],
  COMMON + """
from onepower.add import UpsampledSpectra
s_ = dict(observables_file=None, obs_min=np.array([9.]), obs_max=np.array([11.]), zmin=np.array([0.]), zmax=np.array([.3]), nz=4, nobs=30, observable_h_unit='1/h^2')
k2 = K * 2; B = dict(BASE, hod_settings=s_)
u = UpsampledSpectra(z=Z, k=K, fraction_z=np.array([0., 1.]), fraction=np.zeros(2), model_1_params=B, model_2_params=dict(k_vec=k2)); u.results(['gm'], ['tot'])
v = UpsampledSpectra(z=Z, k=K, model_1_params=dict(B, k_vec=k2)); v.results(['gm'], ['tot'])
same(u.power_spectrum_gm.pk_tot, v.power_spectrum_gm.pk_tot, 'second population on its own grid')
""", 'a second population with its own grid of the same size', 'its spectra are read off the grid of the first population')

s('C15_pooled_fraction', 'C15',
  [(HOD, "        f_s = self._nsat / self._ntot\n        return self._interpolate(f_s, fill_value=0.0)\n", "        f_s = self._nsat / self._ntot\n        f_s = np.where(f_s > 1e-2 * np.max(f_s), f_s, 0.0)\n        return self._interpolate(f_s, fill_value=0.0)\n")],
  COMMON + ZH + """
P = dict(log10_Mmin=np.array([12., 12.]), log10_M0=np.array([11.5, 14.2]), log10_M1=np.array([12.5, 16.5]), sigma=np.array([.2, .2]), alpha=np.array([1., 1.]))
a = H.Zheng(hod_settings=st(2), **P, **C)
b = H.Zheng(hod_settings=st(1), **{k: v[1:] for k, v in P.items()}, **C)
same(a.f_s[1:], b.f_s, 'satellite fraction of the second sample alone')
""", 'two samples whose satellite fractions differ by more than two orders of magnitude', 'a small fraction is cut relative to that of another sample')

s('C15_z_envelope', 'C15',
  [(HOD, "        integrand = hod * self.dndlnm_int\n        return simpson(integrand, x=self.mass, axis=-1)\n", "        dndlnm = self.dndlnm_int\n        if np.ndim(dndlnm) == 3 and np.ptp(np.max(self.z, axis=-1)) == 0:\n            dndlnm = dndlnm[:1]\n        integrand = hod * dndlnm\n        return simpson(integrand, x=self.mass, axis=-1)\n")],
  COMMON + ZH + """
C['dndlnm'] = np.array([np.ones(17), 2 * np.ones(17)]) * 1e-3
a = H.Zheng(hod_settings=st(2, zmin=np.array([0., .09])), **C)
b = H.Zheng(hod_settings=st(1, zmin=np.array([.09])), **C)
same(a.avg_halo_mass_cen[1:], b.avg_halo_mass_cen, 'mean halo mass of the second sample alone')
""", 'samples with the same upper but different lower redshift', 'the mean halo mass of later samples uses the redshifts of the first')

s('C16_eta_lag', 'C16',
  [(HMI, "                eta_sat = 0.1281 * y.sigma8_z ** (-0.3644)\n                y.update(\n", "                if not y_out or z < 2.0:\n                    eta_sat = 0.1281 * y.sigma8_z ** (-0.3644)\n                y.update(\n")],
  COMMON + """
z = np.array([.5, 2.5])
o, n = S(hmcode_ingredients='mead2020', z_vec=z), S(hmcode_ingredients='mead2020', z_vec=z[1:])
same(o.u_sat[1:], n.u_sat, 'satellite profile at z = 2.5')
""", 'calibrated ingredients and a redshift above two that is not the first', 'the bloating of the satellite profile is that of the previous redshift')

s('C16_norm_first', 'C16',
  [(HMI, "        return self.nfw_sat / np.expand_dims(self.nfw_sat[:, 0, :], 1)\n", "        return self.nfw_sat / np.max(self.nfw_sat, axis=(0, 1))\n")],
  COMMON + """
z = np.array([.1, .9]); k = np.logspace(0, 1, 6)
o, n = S(z_vec=z, k_vec=k, eta_sat=np.array([.0, .3])), S(z_vec=z[1:], k_vec=k, eta_sat=np.array([.3]))
same(o.u_sat[1:], n.u_sat, 'satellite profile alone')
""", 'wavenumbers that start inside the halo profile, and profiles that differ between redshifts', 'profiles are normalised with the largest over all redshifts')

s('C17_teff_leak', 'C17',
  [(PK, "        pk_tot = pk_1h + pk_2h\n        galaxy_linear_bias = np.sqrt(\n            self.Ic_term * self.Ic_term\n", "        pk_tot = pk_1h + pk_2h\n        if self.nonlinear_mode == 'fortuna' and self.t_eff > 0.5:\n            pk_tot = pk_1h + pk_2h * self._pk_lin / self.peff\n        galaxy_linear_bias = np.sqrt(\n            self.Ic_term * self.Ic_term\n")],
  COMMON + """
s_ = dict(observables_file=None, obs_min=np.array([9.]), obs_max=np.array([11.]), zmin=np.array([0.]), zmax=np.array([.3]), nz=4, nobs=30, observable_h_unit='1/h^2')
M = dict(nonlinear_mode='fortuna', hod_settings=s_, matter_power_nl=300. * np.ones((2, 6)))
same(S(t_eff=.2, **M).power_spectrum_gg.pk_tot, S(t_eff=.8, **M).power_spectrum_gg.pk_tot, 'gg does not depend on t_eff')
""", 'fortuna mode with t_eff above one half', 'the galaxy spectrum depends on an alignment parameter')

s('C17_mm_hod', 'C17',
  [(PK, "        if self.hod_mm is not None:\n            return self.hod_mm.stellar_fraction\n", "        if self.hod_mm is not None:\n            return self.hod_mm.stellar_fraction if self.pointmass is False else self.hod.stellar_fraction[:1]\n")],
  COMMON + """
s_ = dict(observables_file=None, obs_min=np.array([9.]), obs_max=np.array([11.]), zmin=np.array([0.]), zmax=np.array([.3]), nz=4, nobs=30, observable_h_unit='1/h^2')
M = dict(hmcode_ingredients='fit', hod_settings_mm=s_, pointmass=True, mb=10. ** 13.87)
same(S(hod_settings=s_, **M).power_spectrum_mm.pk_tot, S(hod_settings=dict(s_, obs_min=np.array([10.5])), **M).power_spectrum_mm.pk_tot, 'mm does not depend on the galaxy sample')
""", 'fitted ingredients together with the point-mass option', 'the matter spectrum depends on the galaxy sample')

s('C18_edge', 'C18',
  [(IA, "            mask_z = (z_gal >= z_edges[i]) & (z_gal < z_edges[i + 1])\n", "            mask_z = (z_gal >= z_edges[i]) & (z_gal < z_edges[i + 1] + 0.1 * dz)\n")],
  COMMON + """
import os, tempfile, shutil
from astropy.io import fits
from onepower.ia import AlignmentAmplitudes
d = tempfile.mkdtemp(); r = np.random.RandomState(1); z = np.append(r.uniform(.061, .139, 300), .142); l = np.append(r.normal(10, .2, 300), 11.5)
f = os.path.join(d, 'c.fits'); fits.BinTableHDU.from_columns([fits.Column('z', 'D', array=z), fits.Column('loglum', 'D', array=l)]).writeto(f)
o = AlignmentAmplitudes(z_vec=Z, central_ia_depends_on='luminosity', lpivot_cen=10., z_loglum_file_centrals=f)
a = o.lum_centrals[0].max(); shutil.rmtree(d)
if a > 10 ** 11:
    print('FAIL: a galaxy of the next redshift bin is counted'); sys.exit(1)
""", 'a galaxy just above the upper edge of a redshift bin', 'it is counted in both bins')

s('C18_cap', 'C18',
  [(IA, "        gamma = np.where(r < rcore, a * (rcore / rvir) ** b, gamma)\n        gamma = np.clip(gamma, None, 0.3)\n", "        gamma = np.clip(gamma, None, 0.3)\n        gamma = np.where(r < rcore, a * (rcore / rvir) ** b, gamma)\n")],
  COMMON + """
from onepower.ia import SatelliteAlignment
o = SatelliteAlignment(z_vec=Z, mass_in=np.logspace(12, 14, 5), c_in=np.full((2, 5), 5.), r_s_in=np.full((2, 5), .1), rvir_in=np.linspace(.3, 1., 5))
r = np.array([.01, .1]); g = o.gamma_r_nfw_profile(r, .1, 1., .05, -2., truncate=False) * (r / .1) * (1 + r / .1) ** 2
if g.max() > .3 + 1e-12:
    print('FAIL: alignment above the cap', g); sys.exit(1)
""", 'an amplitude and slope large enough for the core to exceed the cap', 'the cap of 0.3 is not applied inside the core')

PH = 'import pipe_helper as P, numpy as np, sys\n' + "def same(a, b, what):\n    if not np.allclose(a, b, rtol=1e-9, atol=0, equal_nan=True):\n        print('FAIL', what); sys.exit(1)\n"
s('C19_teff_stale', 'C19',
  [(INTF, "                't_eff': block.get_double(\n                    'pk_parameters', 'linear_fraction_fortuna', default=0.0\n                ),\n            }\n        )\n",
    "            }\n        )\n        if block.has_value('pk_parameters', 'linear_fraction_fortuna'):\n            power_kwargs['t_eff'] = block.get_double(\n                'pk_parameters', 'linear_fraction_fortuna'\n            )\n")],
  PH + """
m = P.module()
O = lambda: P.options(p_II=True, nonlinear_mode='fortuna')
a, b = P.block(), P.block(); a['pk_parameters', 'linear_fraction_fortuna'] = .6
c = m.setup(O()); m.execute(a, c); m.execute(b, c)
n = P.block(); m.execute(n, m.setup(O()))
same(b['intrinsic_power', 'p_k'], n['intrinsic_power', 'p_k'], 'second point')
""", 'a point without linear_fraction_fortuna after a point with it, in fortuna mode', 'the value of the earlier point is kept')

s('C19_nl_skip', 'C19',
  [(INTF, "        pk_mm_in = log_linear_interpolation_k(p_nl, k_nl, k_vec)\n", "        pk_mm_in = log_linear_interpolation_k(p_nl, k_nl, k_vec)\n        last = config_hmf.get('p_nl')\n        if last is not None and np.allclose(last, pk_mm_in, rtol=1e-2):\n            pk_mm_in = last\n        config_hmf['p_nl'] = pk_mm_in\n")],
  PH + """
m = P.module(); O = lambda: P.options(response=True)
O = lambda: P.options(response=True, p_gm=True)
a, b, n = P.block(), P.block(), P.block()
for x in (b, n):
    x['matter_power_nl', 'p_k'] = x['matter_power_nl', 'p_k'] * 1.004
c = m.setup(O()); m.execute(a, c); m.execute(b, c); m.execute(n, m.setup(O()))
same(b['matter_galaxy_power', 'p_k'], n['matter_galaxy_power', 'p_k'], 'second point')
""", 'response mode and two consecutive points whose non-linear spectra differ by less than a per cent', 'the spectrum of the earlier point is used')

s('C20_mm_range', 'C20',
  [(INTF, "        hod_settings_mm['obs_max'] = np.array([hod_settings['obs_max'].max()])\n", "        hod_settings_mm['obs_max'] = np.array([hod_settings['obs_max'][-1]])\n")],
  PH + """
m = P.module()
O = lambda lo, hi: P.options(p_gg=True, hmcode_ingredients='fit', log10_obs_min_hod=np.array(lo), log10_obs_max_hod=np.array(hi), zmin_hod=np.array([.05, .05]), zmax_hod=np.array([.6, .6]))
a, b = P.block(), P.block()
m.execute(a, m.setup(O([9., 10.], [10., 11.]))); m.execute(b, m.setup(O([10., 9.], [11., 10.])))
same(a['matter_power_nl', 'p_k'], b['matter_power_nl', 'p_k'], 'matter spectrum for the same samples in another order')
""", 'fitted ingredients with several samples whose last one is not the brightest', 'the matter spectrum is computed for too narrow a range')

s('C20_bgm', 'C20',
  [(INTF, "        bgm_linear = power.power_spectrum_gm.galaxy_linear_bias\n        for nb in range(hod_bins):\n            suffix = f'_{nb + 1}' if hod_bins != 1 else ''\n", "        bgm_linear = power.power_spectrum_gm.galaxy_linear_bias\n        for nb in range(hod_bins):\n            suffix = f'_{nb + 1}' if hod_bins != 1 or p_II else ''\n")],
  PH + """
m = P.module(); b = P.block()
m.execute(b, m.setup(P.options(p_gm=True, p_II=True)))
if not b.has_value('matter_galaxy_power', 'p_k'):
    print('FAIL: section missing'); sys.exit(1)
""", 'one galaxy sample, galaxy-matter and alignment spectra requested together', 'the section is written under another name')

s('C21_failed_count', 'C21',
  [(INTF, "        cached_bnl['num_calls'] = num_calls + 1\n", "        cached_bnl['num_calls'] = num_calls + 1 if num_calls < 2 * update_bnl else update_bnl\n")],
  PH + """
import dark_emulator.darkemu as DE
LOG = []
class Emu:
    def __init__(self):
        self.cosmo = self
    def get_Omega0(self): return 1 - self.c[2]
    def set_cosmology(self, c):
        self.c = np.array(c, float).reshape(-1); LOG.append(self.c)
    def get_sigma8(self): return .8
    def get_pklin_from_z(self, k, z): return 2e4 * k / .02 / (1 + (k / .02) ** 2.4)
    def get_phh_mass(self, k, M1, M2, z):
        return self.get_pklin_from_z(k, z) * (1 + .3 * np.sin(9 * np.log(k)) ** 2) + 50.
DE.base_class = Emu
m = P.module(); c = m.setup(P.options(nonlinear_mode='bnl', update_bnl=2)); w = []
for i in range(8):
    n = len(LOG); m.execute(P.block(), c); w.append(len(LOG) > n)
if w != [True, False] * 4:
    print('FAIL: refreshed at', w); sys.exit(1)
""", 'more than two refresh periods', 'the schedule slips by one evaluation')

s('C21_omega', 'C21',
  [(INTF, "        if num_calls % update_bnl == 0:\n", "        if num_calls % update_bnl == 0 and cached_bnl.get('omega_m') != block[cosmo_params, 'omega_m']:\n            cached_bnl['omega_m'] = block[cosmo_params, 'omega_m']\n")],
  PH + """
import dark_emulator.darkemu as DE
class Emu:
    def __init__(self):
        self.cosmo = self
    def get_Omega0(self): return 1 - self.c[2]
    def set_cosmology(self, c):
        self.c = np.array(c, float).reshape(-1)
    def get_sigma8(self): return .8
    def get_pklin_from_z(self, k, z): return 2e4 * k / .02 / (1 + (k / .02) ** 2.4)
    def get_phh_mass(self, k, M1, M2, z):
        return self.get_pklin_from_z(k, z) * (1 + .3 * np.sin(9 * np.log(k)) ** 2 * self.c[4] * (1 + .1 * np.log10(M1 * M2 / 1e22) * np.exp(-np.log(k / .4) ** 2))) + 50.
DE.base_class = Emu
m = P.module(); O = lambda: P.options(nonlinear_mode='bnl', update_bnl=1)
a, b, n = P.block(), P.block(), P.block()
b['cosmological_parameters', 'n_s'] = n['cosmological_parameters', 'n_s'] = 1.0
c = m.setup(O()); m.execute(a, c); m.execute(b, c); m.execute(n, m.setup(O()))
same(b['matter_power_nl', 'p_k'], n['matter_power_nl', 'p_k'], 'second point')
""", 'consecutive points with the same matter density but another tilt', 'a scheduled refresh of the correction is skipped')

s('C22_virial_om0', 'C22',
  [(HMI, "                * (1.0 + 0.0123 * np.log10(self.cosmo_model.Om(self.z_vec)))\n", "                * (1.0 + 0.0123 * np.log10(self.cosmo_model.Om0 * np.ones_like(self.z_vec)))\n")],
  COMMON + """
z = np.array([.1, 1.5]); o = S(mdef_model='SOVirial', z_vec=z)
w = 3 / 20 * (12 * np.pi) ** (2 / 3) * (1 + .0123 * np.log10(o.cosmo_model.Om(z)))
same(o._delta_c_mod, w, 'collapse threshold'); same(o.nu, np.array([x.nu ** .5 for x in o._hmf_cen]), 'nu')
""", 'virial mass definition at non-zero redshift', 'the collapse threshold is that of redshift zero')

s('C22_sat_conc', 'C22',
  [(HMI, "                    getattr(concentration_classes, self.halo_concentration_model_sat)\n", "                    getattr(concentration_classes, self.halo_concentration_model_sat if self.halo_profile_model_sat == self.halo_profile_model_dm else self.halo_concentration_model_dm)\n")],
  COMMON + """
M = dict(halo_concentration_model_dm='Duffy08', halo_concentration_model_sat='Bullock01')
same(S(halo_profile_model_sat='Hernquist', **M).conc_sat, S(halo_profile_model_sat='NFW', **M).conc_sat, 'satellite concentration')
""", 'satellites with another profile and another concentration model than the matter', 'the concentration model of the matter is used for satellites')

s('C23_negative', 'C23',
  [('cosmosis_modules/pk_to_real/pk_to_real.py', "            spec = -np.exp(self.interp_func(np.log(angle)))\n", "            spec = np.exp(self.interp_func(np.log(angle)))\n")],
  PH + """
m = P.module('cosmosis_modules/pk_to_real/pk_to_real.py')
k = np.logspace(-3, 2, 50); p = 1e3 / (1 + k ** 2)
same(m.LogInterp(k, -p, 'linear')(k * 1.1), -m.LogInterp(k, p, 'linear')(k * 1.1), 'negative spectrum')
""", 'a negative spectrum', 'the sign of a negative spectrum is lost')

s('C23_rp_edge', 'C23',
  [('cosmosis_modules/pk_to_real/pk_to_real.py', "        inter_func = scipy.interpolate.interp1d(z_obs, obs_in, kind=\"linear\", fill_value=extrapolate_option, bounds_error=False)\n", "        inter_func = scipy.interpolate.interp1d(z_obs, obs_in, kind=\"linear\", fill_value=(obs_in[0], extrapolate_option), bounds_error=False)\n")],
  PH + """
m = P.module('cosmosis_modules/pk_to_real/pk_to_real.py')
o = P.DataBlock({(P.option_section, 'corr_type'): 'wp', (P.option_section, 'sample'): 'nz'})
b = P.DataBlock(); b['nz', 'z'] = np.array([.2, .3, .4]); b['nz', 'bin_1'] = np.array([1., 2., 1.])
w = m.setup(o).load_kernel(b, 'nz', 1, np.array([.1, .25, .5]), 0.0)
same(w, [0., 1.5, 0.], 'kernel outside the observed redshifts')
""", 'model redshifts below those of the sample', 'the sample is extended to lower redshifts')

s('C07_k_beyond', 'C07',
  [(PK, "                self.power,\n                fill_value='extrapolate',\n", "                self.power,\n                fill_value=(self.power[:, 0], self.power[:, -1]),\n")],
  COMMON + """
o = S(nonlinear_mode='hmcode', hmcode_ingredients='mead2020', lnk_min=-4., lnk_max=5.)
p, k = o.power, o.kh
want = np.array([p[i, 0] + (p[i, 1] - p[i, 0]) * (K[0] - k[0]) / (k[1] - k[0]) for i in range(2)])
same(o._pk_lin[:, 0], want, 'linear power below the table')
""", 'wavenumbers outside the table of the linear power', 'the linear power is held constant there, and with it the two-halo term')

s('C09_beta_sign', 'C09',
  [(PK, "            additional_term = (mass_avg / mpivot) ** beta\n        else:\n            additional_term = 1.0\n        return (\n            f_c", "            additional_term = (mass_avg / mpivot) ** abs(beta)\n        else:\n            additional_term = 1.0\n        return (\n            f_c")],
  COMMON + """
s_ = dict(observables_file=None, obs_min=np.array([9.]), obs_max=np.array([11.]), zmin=np.array([0.]), zmax=np.array([.3]), nz=4, nobs=30, observable_h_unit='1/h^2')
A = lambda b: dict(gamma_2h_amplitude=5., gamma_1h_amplitude=0., beta_cen=b, mpivot_cen=13.5, beta_sat=None, mpivot_sat=None, central_ia_depends_on='halo_mass', satellite_ia_depends_on='constant')
f = lambda b: S(hod_settings=s_, align_params=A(b)).power_spectrum_mi.pk_2h
same(f(.4) * f(-.4), f(0.) ** 2, 'opposite mass slopes cancel')
""", 'a negative mass slope of the central alignment of the halo mass', 'the sign of the slope is lost')

s('C11_beta_floor', 'C11',
  [(PK, "        return np.ascontiguousarray(self.beta_nl) if self.beta_nl is not None else None\n", "        if self.beta_nl is None:\n            return None\n        return np.maximum(np.ascontiguousarray(self.beta_nl), -1.0)\n")],
  COMMON + """
r = np.random.RandomState(0); b = 2. * r.rand(2, 6, 16, 16) - 1.5; b = b + b.transpose(0, 1, 3, 2)
f = lambda x: S(nonlinear_mode='bnl', beta_nl=x).power_spectrum_mm.pk_2h
same(f(b) - f(0 * b), (f(.3 * b) - f(0 * b)) / .3, 'correction linear in beta')
""", 'a correction below minus one (as at the small scales of massive haloes)', 'it is cut there')

s('C12_decoration_floor', 'C12',
  [(HOD, "        N_sat = simpson(self.COF_sat, x=self.obs)\n        if self.params['A_sat'] is not None:\n            delta_pop_s = self.params['A_sat'] * N_sat", "        N_sat = simpson(self.COF_sat, x=self.obs)\n        if self.params['A_sat'] is not None:\n            delta_pop_s = max(self.params['A_sat'], -0.5) * N_sat")],
  COMMON + ZH + """
f = lambda a: H.Cacciato(hod_settings=st(), A_cen=0., A_sat=a, **C).number_density_sat
same(f(-.9), .1 * f(0.), 'satellites with A_sat = -0.9')
""", 'strongly negative satellite decoration', 'the decoration is limited')

s('C14_z_order', 'C14',
  [(ADD, "        pk_tot_ext_z = inter_func_z(z_ext)\n", "        pk_tot_ext_z = inter_func_z(np.sort(z_ext))\n")],
  COMMON + """
from onepower.add import UpsampledSpectra
z = np.array([.11, .14, .17])
def f(z):
    u = UpsampledSpectra(z=z, k=K, model_1_params=BASE); u.results(['mm'], ['tot']); return u.power_spectrum_mm.pk_tot
same(f(z)[:, ::-1], f(z[::-1]), 'output redshifts in decreasing order')
""", 'output redshifts that do not increase', 'spectra are returned for other redshifts')

s('C20_nl_grid', 'C20',
  [(INTF, "        pk_mm_in = log_linear_interpolation_k(p_nl, k_nl, k_vec)\n", "        if len(k_nl) != len(k_vec_original):\n            p_nl = log_linear_interpolation_k(p_nl, k_nl, k_vec_original)\n        pk_mm_in = log_linear_interpolation_k(p_nl, k_vec_original, k_vec)\n")],
  PH + """
m = P.module(); a, b = P.block(), P.block()
k2 = P.K * 1.3
for x in (a, b):
    x.put_grid('matter_power_nl', 'z', P.Z, 'k_h', k2 if x is a else np.append(k2, k2[-1] * 1.2), 'p_k', np.array([1e3 / (k2 if x is a else np.append(k2, k2[-1] * 1.2)) for _ in P.Z]))
O = lambda: P.options(p_gm=True, response=True)
m.execute(a, m.setup(O())); m.execute(b, m.setup(O()))
same(a['matter_galaxy_power', 'p_k'], b['matter_galaxy_power', 'p_k'], 'same non-linear power on a longer grid')
""", 'non-linear power on a grid with as many, but other wavenumbers than the linear one', 'it is read at the wrong wavenumbers')

s('C22_agn_cap', 'C22',
  [(HMI, "            theta_agn = self.log10T_AGN - 7.8\n            k =", "            theta_agn = np.clip(self.log10T_AGN, 7.3, 8.3) - 7.8\n            k =")],
  COMMON + """
f = lambda t: S(hmcode_ingredients='mead2020_feedback', log10T_AGN=t, z_vec=np.array([0., .1])).K[0]
same(f(8.8) - f(8.3), f(8.3) - f(7.8), 'amplitude of the concentration at redshift zero is linear in the temperature')
""", 'a feedback temperature outside [7.3, 8.3]', 'the concentrations no longer follow it')

s('C23_zero_power', 'C23',
  [('cosmosis_modules/pk_to_real/pk_to_real.py', "        elif np.all(spec < 0):\n", "        elif np.all(spec <= 0):\n")],
  PH + """
m = P.module('cosmosis_modules/pk_to_real/pk_to_real.py')
k = np.logspace(-3, 2, 50); p = -1e3 / (1 + k ** 2); p[7] = 0.
x = m.LogInterp(k, p, 'linear')(np.sqrt(k[1:] * k[:-1]))
same(x, (p[1:] + p[:-1]) / 2, 'spectrum with one zero is interpolated linearly')
""", 'a negative spectrum that vanishes somewhere', 'the logarithm of zero spoils the projection')

s('C25_today', 'C25',
  [(BNL, "                interp_arr[i] = build_interp(zi)\n", "                interp_arr[i] = build_interp(max(zi, 0.01))\n")],
  COMMON + EMU + """
f = lambda z: BN.NonLinearBias(mass=np.logspace(12, 14.5, 7), z_vec=np.array(z), k_vec=K, A_s=2e-9, z_dep=True)
calls = []
o = f([0., .5]); o.compute_bnl_darkquest = lambda z, a, b, k, kmax: (calls.append(z), np.zeros((len(a), len(b), len(k))))[1]
o.bnl
same(np.array(calls) + 1, [1., 1.5], 'redshifts the correction is formed at')
""", 'redshift zero with the redshift-dependent correction', 'the correction is formed at another redshift')

s('C01_bnl_kept', 'C01',
  [(PK, """            return np.ascontiguousarray(bnl.bnl)
""", """            key = (bnl.ombh2, bnl.omch2, self.sigma_8, self.n_s, self.w0, self.mass.size, self.k_vec.size)
            kept = self.__dict__.setdefault('_kept_bnl', {})
            if key not in kept:
                kept[key] = np.ascontiguousarray(bnl.bnl)
            return kept[key]
""")],
  COMMON + EMU + """
o = S(nonlinear_mode='bnl'); o.power_spectrum_mm
o.update(k_vec=1.6 * K)
same(o.power_spectrum_mm.pk_2h, S(nonlinear_mode='bnl', k_vec=1.6 * K).power_spectrum_mm.pk_2h, 'matter spectrum on the new wavenumbers')
""", 'correction computed by the emulator, then the wavenumbers or masses replaced by as many others', 'the correction is kept from the earlier grid')

s('C08_gas_floor', 'C08',
  [(PK, """            (baryon_to_matter_fraction - fstar)
            * (mass / mb) ** beta
            / (1.0 + (mass / mb) ** beta)
        )

    def fs(""", """            np.maximum(baryon_to_matter_fraction - fstar, 0.0)
            * (mass / mb) ** beta
            / (1.0 + (mass / mb) ** beta)
        )

    def fs(""")],
  COMMON + """
o = S(pointmass=True, mb=1e12, omega_b=.02)
f = np.full((1, 2, o.mass.size), .15)
W = o.matter_profile_with_feedback_stellar_fraction_from_obs(f)
x = (o.mass / o.mb) ** 2
w = ((o.omega_c / o.omega_m + (o.omega_b / o.omega_m - .15) * x / (1 + x)) * o.u_dm[None] + .15) * o.mass / o.mean_density0[None, :, None, None]
same(W, w, 'matter profile with a stellar fraction above the baryon fraction')
""", 'point-mass or fit ingredients with a stellar fraction above the cosmic baryon fraction', 'the gas term is cut off at zero, so that mass is not conserved')

s('C09_teff_range', 'C09',
  [(PK, "            return (1.0 - self.t_eff) * self._pk_nl + self.t_eff * self._pk_lin\n",
    "            t_eff = np.clip(self.t_eff, 0.0, 1.0)\n            return (1.0 - t_eff) * self._pk_nl + t_eff * self._pk_lin\n")],
  COMMON + """
o = S(nonlinear_mode='fortuna', t_eff=1.2); a, b = (S(nonlinear_mode='fortuna', t_eff=t).power_spectrum_mi.pk_2h for t in (0., 1.))
same(o.power_spectrum_mi.pk_2h, a + 1.2 * (b - a), 'mixture of linear and non-linear power')
""", 'effective-power mode with a mixing parameter outside 0..1', 'the requested mixture is replaced by pure linear or non-linear power')

s('C19_plin_ends', 'C19',
  [(INTF, "    plin = log_linear_interpolation_k(plin_original, k_vec_original, k_vec)\n", "    ends = (k_vec_original.size, k_vec_original[0], k_vec_original[-1], plin_original.sum(), plin_original[0, 0], plin_original[-1, -1])\n    if config_hmf.get('plin_ends') != ends:\n        config_hmf['plin_ends'] = ends\n        config_hmf['plin'] = log_linear_interpolation_k(plin_original, k_vec_original, k_vec)\n    plin = config_hmf['plin']\n")],
  PH + """
m = P.module(); O = lambda: P.options()
a, b, n = P.block(), P.block(), P.block()
for x in (a, b, n):
    p = np.array(x['matter_power_lin', 'p_k']); p[:, 12:16] = 2. ** np.floor(np.log2(p[:, 12:13])); x['matter_power_lin', 'p_k'] = p
for x in (b, n):
    p = np.array(x['matter_power_lin', 'p_k']); p[:, 12] *= 1.5; p[:, 14] *= .5; x['matter_power_lin', 'p_k'] = p
c = m.setup(O()); m.execute(a, c); m.execute(b, c); m.execute(n, m.setup(O()))
same(b['matter_power_nl', 'p_k'], n['matter_power_nl', 'p_k'], 'second point')
""", 'two consecutive points whose linear spectra differ only in the middle and have the same sum', 'the linear spectrum of the earlier point is used')

s('C21_long_run', 'C21',
  [(INTF, "        cached_bnl['num_calls'] = num_calls + 1\n", "        cached_bnl['num_calls'] = (num_calls + 1) % 10\n")],
  PH + """
import dark_emulator.darkemu as DE
class Emu:
    def __init__(self):
        self.cosmo = self
    def get_Omega0(self): return 1 - self.c[2]
    def set_cosmology(self, c):
        self.c = np.array(c, float).reshape(-1)
    def get_sigma8(self): return .8
    def get_pklin_from_z(self, k, z): return 2e4 * k / .02 / (1 + (k / .02) ** 2.4)
    def get_phh_mass(self, k, M1, M2, z):
        return self.get_pklin_from_z(k, z) * (1 + .3 * np.sin(9 * np.log(k)) ** 2 * self.c[4] * (1 + .1 * np.log10(M1 * M2 / 1e22) * np.exp(-np.log(k / .4) ** 2))) + 50.
DE.base_class = Emu
m = P.module(); calls = []
class NB:
    def __init__(self, **kw):
        calls.append(kw['n_s']); self.bnl = np.zeros((1, len(kw['k_vec']), len(kw['mass']), len(kw['mass'])))
m.NonLinearBias = NB; m.HAVE_DARKEMU = True
c = m.setup(P.options(nonlinear_mode='bnl', update_bnl=4))
when = []
for i in range(14):
    n = len(calls); m.execute(P.block(), c); when += [i] * (len(calls) > n)
if when != [0, 4, 8, 12]:
    print('FAIL: refreshed at', when); sys.exit(1)
""", 'a module executed more than ten times with a refresh interval that does not divide ten', 'the schedule starts anew at call ten')

s('C23_kernel_tail', 'C23',
  [('cosmosis_modules/pk_to_real/pk_to_real.py', "        return kernel_ext\n", "        return np.where(kernel_ext > 1e-3 * np.max(kernel_ext), kernel_ext, 0.0)\n")],
  PH + """
m = P.module('cosmosis_modules/pk_to_real/pk_to_real.py'); b = P.block()
z = np.linspace(0., 1., 9); w = 10. ** (-6 * z)
b['kern', 'z'] = z; b['kern', 'bin_1'] = w
got = m.CosmosisTransformer.load_kernel(None, b, 'kern', 1, z, 0.)
same(got, w, 'redshift kernel')
""", 'a redshift kernel with values below a thousandth of its maximum', 'the tail of the kernel is cut off')

if __name__ == '__main__':
    for a in SEEDS:
        if len(sys.argv) < 2 or a[0] in sys.argv[1:]:
            make(*a)
            print(a[0])
