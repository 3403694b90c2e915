"""Concrete values for spec/AlignTable.tla and the quantities of SatelliteAlignment."""
import copy, os
import numpy as np
from vf.bind_spectra import inner, near

DIR = None          # scratch directory with the luminosity catalogues
Z = np.array([.1, .3, .5])
KOUT = np.logspace(-2, 1.5, 6)
MOUT = np.logspace(11.5, 14.5, 5)


def catalogues(d):
    global DIR
    from astropy.io import fits
    DIR = d
    for i, name in enumerate(('cen_x', 'cen_y', 'sat_x', 'sat_y')):
        r = np.random.RandomState(11 + i)
        n = 300
        z, lum = r.uniform(0., .65, n), r.normal(10. + .1 * i, .3, n) 
        cols = [fits.Column(name='z', format='D', array=z), fits.Column(name='loglum', format='D', array=lum)]
        fits.BinTableHDU.from_columns(cols).writeto(os.path.join(d, name + '.fits'), overwrite=True)


def halo(n, s):
    r = np.random.RandomState(s)
    m = np.logspace(11 + .1 * s, 15, n)
    c = 9 * (m / 1e12) ** -.1 / (1 + Z)[:, None] * (1 + .05 * r.rand(3, n))
    rv = .2 * (m / 1e12) ** (1 / 3) * (1 + .1 * s)
    return dict(mass_in=m, c_in=c, r_s_in=rv / c * (1 + .03 * r.rand(3, n)), rvir_in=rv)


HALO = dict(b=halo(13, 0), a=halo(13, 1), s=halo(7, 2))
V = dict(
    z_vec=dict(b=Z, a=np.array([.05, .2, .35])), gamma_2h_amplitude=dict(b=5.33, a=4.), beta_cen=dict(b=.44, a=.6),
    beta_two={'None': None, 'x': .3, 'y': .9, 'z': 0.}, gamma_1h_amplitude=dict(b=.0015, a=.02), gamma_1h_slope=dict(b=-2., a=-1.4, c=0.),
    beta_sat=dict(b=.44, a=.3), mpivot_cen={'b': 13.5, 'a': 13.1, 'None': None}, mpivot_sat={'b': 13.5, 'a': 13.2, 'None': None},
    lpivot_cen={'None': None, 'x': 10., 'y': 10.2, 'z': 0.}, lpivot_sat={'None': None, 'x': 9.9, 'y': 10.1, 'z': 0.},
    nmass=dict(b=4, a=6), nk=dict(b=6, a=8), ell_max=dict(b=4, a=6), n_hankel=dict(b=40, a=60), truncate=dict(b=False, a=True))


for _p in ('z_vec', 'gamma_2h_amplitude', 'beta_cen', 'gamma_1h_amplitude', 'gamma_1h_slope', 'beta_sat', 'mpivot_cen', 'mpivot_sat'):
    V[_p]['n'] = near(V[_p]['b'])
for _p in ('beta_two', 'lpivot_cen', 'lpivot_sat'):
    V[_p]['xn'] = near(V[_p]['x'])
V['z_vec']['i'] = inner(V['z_vec']['b'])
V['beta_sat']['ja'], V['mpivot_sat']['ja'], V['nk']['j'] = .44 + .44 - .6, 13.5 + 13.5 - 13.1, 4
HALO['i'] = {_p: inner(v) for _p, v in HALO['b'].items()}
HALO['n'] = {_p: near(v) for _p, v in HALO['b'].items()}


def concrete(p, x):
    if p.startswith('z_loglum'):
        return None if x == 'None' else os.path.join(DIR, ('cen_' if 'centrals' in p else 'sat_') + x + '.fits')
    if p in ('central_ia_depends_on', 'satellite_ia_depends_on', 'method'):
        return x
    if p in HALO['b']:
        return HALO[x][p].copy()
    return copy.deepcopy(V[p][x])


def kwargs_of(assign, clear=()):
    return {p: concrete(p, x) for p, x in assign}


def create(assign):
    from onepower.ia import SatelliteAlignment
    kw = {p: copy.deepcopy(t.get('b')) for p, t in V.items()}
    kw.update({p: v.copy() for p, v in HALO['b'].items()})
    kw.update(kwargs_of(assign))
    return SatelliteAlignment(**kw)


MAY_RAISE = ('lum_centrals', 'lum_pdf_z_centrals', 'lum_satellites', 'lum_pdf_z_satellites')      # without a catalogue
GROUPS = dict(
    amp=['alignment_gi', 'gamma_1h_amp', 'mpivot_cen', 'mpivot_sat', 'beta_cen', 'beta_sat', 'lpivot_cen', 'lpivot_sat'],
    lum=['lum_centrals', 'lum_pdf_z_centrals', 'lum_satellites', 'lum_pdf_z_satellites'],
    grid=['mass', 'c', 'r_s', 'rvir', 'k_vec', 'ell_values'],
    wkm=['compute_uell_gamma_r_hankel', 'wkm_f_ell', 'wkm'], up=['up', 'upgrid'])
GROUPS['all'] = GROUPS['amp'] + GROUPS['lum'] + GROUPS['grid'] + GROUPS['wkm'] + GROUPS['up']
GROUPS['rev'] = GROUPS['all'][::-1]


def read(o, g):
    out = []
    for q in GROUPS[g]:
        try:
            if q == 'up':
                r = o.upsampled_wkm(KOUT, MOUT) if o.method == 'hankel' else o.upsampled_wkm(KOUT, o.mass)
            elif q == 'upgrid':
                r = o.upsampled_wkm(o.k_vec, o.mass)
            else:
                r = getattr(o, q)
        except Exception as e:
            r = e
        out.append((q, r))
    return out
