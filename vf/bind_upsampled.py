"""Concrete values for spec/UpsampledTable.tla and the quantities of UpsampledSpectra."""
import copy
import numpy as np
from vf import bind_spectra as bs

K = np.logspace(-1.9, 1.1, 5)
HS = dict(observables_file=None, obs_min=np.array([9., 10.]), obs_max=np.array([10., 11.]), zmin=np.array([0., .05]),
          zmax=np.array([.3, .4]), nz=3, nobs=20, observable_h_unit='1/h^2')


def hs(**k):
    return {**copy.deepcopy(HS), **k}


MODEL = dict(k_vec=bs.K, z_vec=bs.Z, lnk_min=-8., lnk_max=5., dlnk=.25, Mmin=11., Mmax=15., dlog10m=.5, transfer_model='EH', growth_model='GrowthFactor',
             hod_settings=HS, hod_settings_mm=dict(HS, obs_min=np.array([8.]), obs_max=np.array([12.]), zmin=np.array([0.]), zmax=np.array([.3])),
             align_params={}, sigma_8=.8, eta_sat=0., nonlinear_mode=None, hmcode_ingredients='mead2020')
V = dict(
    z=dict(b=np.array([.1, .2, .25]), a=np.array([.05, .18, .4]), c=np.array([.15, .22])),
    k=dict(b=K, a=np.logspace(-2.3, 1.4, 7)), fraction_z=dict(b=np.array([.1, .2, .3]), a=np.array([0., .15, .5])),
    extrapolate_option=dict(b='extrapolate', a=0.0),
    fraction={'None': None, 'x': np.array([.3, .5, .6]), 'y': np.array([.8, .4, .1])},
)
V1 = dict(sigma_8=dict(b=.8, a=.9), z_vec=dict(b=bs.Z, a=bs.Z2), eta_sat=dict(b=0., a=.3), nonlinear_mode=dict(b=None, a='hmcode'),
          hod_settings=dict(b=HS, a=hs(obs_min=np.array([9.5, 10.2]))), k_vec=dict(b=bs.K, a=bs.K2))
V2 = dict(sigma_8=dict(a=.85, c=.75), hod_settings=dict(a=hs(obs_max=np.array([10.3, 11.5])), c=hs(obs_min=np.array([8.7, 9.6]))),
          align_params=dict(a=dict(gamma_2h_amplitude=3., beta_cen=.6, gamma_1h_amplitude=.002)), norm_sat=dict(a=.7), pointmass=dict(a=True))

V['z'].update(i=bs.inner(V['z']['b']), n=bs.near(V['z']['b']), m=bs.Z + 3e-3, mn=bs.near(bs.Z))
V['k']['n'], V['fraction_z']['n'], V['fraction']['xn'] = bs.near(V['k']['b']), bs.near(V['fraction_z']['b']), bs.near(V['fraction']['x'])
for _p in ('sigma_8', 'z_vec', 'k_vec'):
    V1[_p]['n'] = bs.near(V1[_p]['b'])
V['k']['i'], V['fraction_z']['i'], V['fraction']['xi'] = bs.inner(V['k']['b']), bs.inner(V['fraction_z']['b']), bs.inner(V['fraction']['x'])
V1['z_vec']['i'], V1['k_vec']['i'] = bs.inner(V1['z_vec']['b']), bs.inner(V1['k_vec']['b'])


def model(name):
    from onepower import Spectra
    if name == 'None':
        return None
    kw = copy.deepcopy(MODEL)
    if name == 'm2':
        kw.update(sigma_8=.77, z_vec=np.array([.05, .2, .3]), eta_sat=.1, poisson_params=dict(poisson=.8))
    return Spectra(**kw)


def concrete(p, x):
    if p == 'model':
        return model(x)
    if '.' in p:
        d, k = p.split('.', 1)
        return copy.deepcopy((V1 if d == '_model_1_params' else V2)[k][x])
    return copy.deepcopy(V[p][x])


def kwargs_of(assign, clear=()):
    kw = {d: {} for d in clear}
    for p, x in assign:
        if p == 'pop2':
            if x == 'None':
                kw['_model_2_params'] = None
            else:
                kw.setdefault('_model_2_params', {})
        elif '.' in p:
            d, k = p.split('.', 1)
            kw.setdefault(d, {})[k] = concrete(p, x)
        else:
            kw[p] = concrete(p, x)
    return kw


def create(assign):
    from onepower.add import UpsampledSpectra
    kw = {p: copy.deepcopy(t.get('b')) for p, t in V.items()}
    kw['model'] = None
    m1, m2 = copy.deepcopy(MODEL), None
    name = 'm1'
    for p, x in assign:
        if x == '-':
            continue
        if p == 'model':
            name = x
        elif p == 'pop2':
            m2 = (m2 or {}) if x == 'dict' else None
        elif p.startswith('_model_1_params.'):
            m1[p.split('.', 1)[1]] = concrete(p, x)
        elif p.startswith('_model_2_params.'):
            m2 = m2 or {}
            m2[p.split('.', 1)[1]] = concrete(p, x)
        else:
            kw[p] = concrete(p, x)
    kw['model'] = model(name)
    return UpsampledSpectra(model_1_params=m1, model_2_params=m2, **kw)


S = ['mm', 'gg', 'gm', 'mi', 'ii', 'gi']
C = ['1h', '2h', 'tot']


def spec(o, modes, comps):
    out = []
    try:
        o.results(list(modes), list(comps))
    except Exception as e:
        return [(f'{m}_{c}', e) for m in modes for c in comps]
    for m in modes:
        r = getattr(o, 'power_spectrum_' + m)
        out += [(f'{m}_{c}', getattr(r, 'pk_' + c)) for c in comps]
        out += [(f'{m}_{c}_not_requested', getattr(r, 'pk_' + c, None)) for c in C if c not in comps]
    return out


def attr(o, q):
    try:
        r = getattr(o, q)
        if q.startswith('power_'):
            r = None if r is None else {a: np.array(getattr(r, a)) for a in ('sigma_8', 'z_vec', 'k_vec', 'eta_sat', 'dndlnm', 'halo_bias')}
        return (q, r)
    except Exception as e:
        return (q, e)


def read(o, g):
    if g == 'frac':
        return [attr(o, 'frac_1'), attr(o, 'frac_2')]
    if g == 'models':
        return [attr(o, 'power_2'), attr(o, 'power_1')]
    if g in ('gg', 'gm', 'mm'):
        return spec(o, [g], C)
    if g == 'ia':
        return spec(o, ['mi', 'ii'], C) + spec(o, ['gi'], C[::-1])
    if g == 'tot':
        return spec(o, S, ['tot'])
    if g == 'rev':
        return [x for m in S[::-1] for c in C[::-1] for x in spec(o, [m], [c])] + [attr(o, q) for q in ('frac_2', 'power_2', 'frac_1', 'power_1')]
    r = [attr(o, q) for q in ('frac_1', 'frac_2', 'power_1', 'power_2')] + spec(o, S, C)
    return r + spec(o, ['gg'], C) + spec(o, ['mm'], ['1h']) + spec(o, ['gm', 'gg'], ['tot'])     # asked again
