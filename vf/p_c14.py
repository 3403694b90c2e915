"""C14: the combined model of two populations (spec/Mixing.tla)."""
import copy, zlib
import numpy as np
from vf import bind_spectra as bs
from vf.expr import Eval, share, event, safely, compose
from vf.common import assert_repo_import

SEED = 1
S = ['mm', 'gg', 'gm', 'mi', 'ii', 'gi']


def observe(ent, variant):
    from onepower import Spectra
    from onepower.add import UpsampledSpectra
    c = ent['cfg']
    r = np.random.RandomState((zlib.crc32(repr(sorted(c.items())).encode()) + 7919 * variant + 104729 * SEED) % 2 ** 31)
    nb = int(r.choice([1, 2]))
    lo, zl = r.uniform(9., 10., nb), r.uniform(0., .05, nb)
    hs = dict(observables_file=None, obs_min=lo, obs_max=lo + 1., zmin=zl, zmax=zl + .5, nz=3, nobs=15, observable_h_unit='1/h^2')
    nz = int(r.choice([2, 3]))
    z1 = np.sort(np.round(np.linspace(.08, .4, nz) + r.uniform(-.03, .03, nz), 3))
    k1 = np.logspace(-2, 1, int(r.choice([4, 5])))
    kw = dict(z_vec=z1, k_vec=k1, lnk_min=-8., lnk_max=5., dlnk=.25, Mmin=11., Mmax=15., dlog10m=.2, transfer_model='EH', growth_model='GrowthFactor',
              hod_settings=hs, hod_settings_mm=dict(hs, obs_min=np.array([8.]), obs_max=np.array([12.]), zmin=np.array([0.]), zmax=np.array([.6])),
              align_params=dict(gamma_2h_amplitude=r.uniform(3, 6)), sigma_8=r.uniform(.7, .9), hmcode_ingredients='mead2020',
              nonlinear_mode='hmcode' if c['mode'] == 'hmcode' else None, response=c['mode'] == 'response')
    kw2 = None
    if c['pop2'] == 'T':
        kw2 = dict(hod_settings=dict(hs, obs_min=lo + .3, obs_max=lo + 1.4), align_params=dict(gamma_2h_amplitude=r.uniform(0, 3), gamma_1h_amplitude=.0005))
        if r.rand() < .5:
            kw2['norm_sat'] = r.uniform(.6, .9)
        if c['own2'] == 'T':
            kw2['z_vec'] = np.sort(np.round(np.linspace(.05, .45, 3) + r.uniform(-.02, .02, 3), 3))
            kw2['k_vec'] = np.logspace(-1.8, 1.2, 5)
    if c['grid'] == 'same':
        zo, ko = z1.copy(), k1.copy()
    elif c['grid'] == 'near':
        d = float(r.choice([3e-6, 1e-3, 4e-3]))
        zo, ko = z1 * (1 + d * r.uniform(-1, 1, nz)), k1 * (1 + d * r.uniform(-1, 1, k1.size) * (r.rand() < .7))
    elif c['grid'] == 'inside':
        zo = np.sort(r.uniform(z1[0], z1[-1], int(r.choice([1, 2, 4]))))
        ko = np.sort(10 ** r.uniform(np.log10(k1[0]), np.log10(k1[-1]), 6))
    else:
        zo = np.array([z1[0] * r.uniform(0, .8), *r.uniform(z1[0], z1[-1], 2), z1[-1] + r.uniform(.05, .3)])
        zo = np.sort(zo)
        ko = np.logspace(-3.2, 1.8, 7)
    fz = fr = None
    if c['frac'] != 'none':
        nf = int(r.choice([2, 4]))
        fz = np.sort(np.round(np.linspace(.02, .6, nf) + r.uniform(-.02, .02, nf), 3)) if r.rand() < .7 else np.linspace(z1[0] + .03, z1[-1] - .03, nf)
        fr = np.full(nf, r.choice([0., 1., .3])) if c['frac'] == 'const' else r.uniform(.1, .9, nf)
    if r.rand() < .3:                 # no order is asked of the output points or of the fractions
        zo, ko = r.permutation(zo), r.permutation(ko)
        if fz is not None:
            i = r.permutation(len(fz))
            fz, fr = fz[i], fr[i]
    ext = {'ext': 'extrapolate', 'v0.0': 0.0, 'v3.5': 3.5, 'p1.5,-2': (1.5, -2.)}[c['ext']]

    def make():
        a = dict(model=Spectra(**copy.deepcopy(kw))) if c['via'] == 'object' else dict(model_1_params=copy.deepcopy(kw))
        return UpsampledSpectra(z=zo.copy(), k=ko.copy(), fraction_z=None if fz is None else fz.copy(), fraction=None if fr is None else fr.copy(),
                                model_2_params=copy.deepcopy(kw2), extrapolate_option=ext, **a)
    u, err = safely(make)
    comps = [str(x) for x in r.permutation(['1h', '2h', 'tot'])]
    order = [str(x) for x in r.permutation(S)]
    got, e2 = {}, {}
    if not err:
        if r.rand() < .5:
            _, err = safely(lambda: u.results(order, comps))
            for s in S:
                e2[s] = err
        else:
            for s in order:
                _, e2[s] = safely(lambda: u.results([s], comps))
        err = ''
    m = {}

    def model(p):
        if p not in m:
            m[p] = Spectra(**copy.deepcopy(kw if p == '1' else dict(kw, **kw2)))
        return m[p]

    def leaf(n):
        if n == 'zout':
            return 'z', zo
        if n == 'lgkout':
            return 'k', np.log10(ko)
        if n == 'fz':
            return 'f', fz
        if n == 'frac':
            return 'f', fr
        p, q = n.split('.', 1)
        d = kw if p == '1' else dict(kw, **kw2)
        if q == 'z':
            return 's', d['z_vec']
        if q == 'lgk':
            return 'q', np.log10(d['k_vec'])
        s, part = q.split('.')
        a = np.asarray(getattr(getattr(model(p), 'power_spectrum_' + s), 'pk_' + part), float)
        return 'bsq', np.broadcast_to(a, (a.shape[0] if a.ndim == 3 else 1, d['z_vec'].size, d['k_vec'].size))
    ev = Eval('bszqkf', leaf)
    pool, ops = {}, []
    for q in sorted(ent['terms']):
        t = ent['terms'][q]
        if q.startswith('frac'):
            v, e = safely(lambda: getattr(u, q)) if not err else (None, err)
            out = 'z'
        else:
            s, part = q.split('.')
            # a model whose own spectra are not finite (coarse grids) says nothing about their combination
            if not all(np.isfinite(leaf(f'{p}.{q}')[1]).all() for p in ('1', '2')[:1 + (kw2 is not None)]):
                continue
            v, e = safely(lambda: getattr(getattr(u, 'power_spectrum_' + s), 'pk_' + part)) if not err and not e2[s] else (None, err or e2[s])
            out = 'bzk'
        if q == 'frac_2' and v is not None:
            v = 1. + np.asarray(v, float)         # compared on the scale of one
        ops.append(event(q, v, lambda: ev.value(share(t, pool), out) + (q == 'frac_2'), e, rtol=1e-7, atol_rel=1e-12))
    return ops


def run(chk):
    global SEED
    assert_repo_import()
    SEED = chk.seed
    th = chk.thorough
    def sub(c, v):
        return th or (zlib.crc32(repr(sorted(c.items())).encode()) + chk.seed) % 4 == 0
    compose(chk, 'MixCheck', 'Mix', observe, 3 if th else 1, sub=sub)
