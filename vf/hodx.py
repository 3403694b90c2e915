"""Comparison of the occupation classes with spec/Hod.tla."""
import copy, os
import numpy as np
from vf.expr import Eval, share, event, safely, compose

AX = 'btzMo'
DEFAULTS = dict(
    Cacciato=dict(log10_obs_norm_c=9.95, log10_m_ch=11.24, g1=3.18, g2=0.245, sigma_log10_O_c=0.157, norm_s=0.562, pivot=12.0,
                  alpha_s=-1.18, beta_s=2, b0=-1.17, b1=1.53, b2=-0.217),
    Simple=dict(log10_Mmin=12.0, log10_Msat=13.0, alpha=1.0), Zehavi=dict(log10_Mmin=12.0, log10_Msat=13.0, alpha=1.0),
    Zheng=dict(log10_Mmin=12.0, log10_M0=12.0, log10_M1=13.0, sigma=0.15, alpha=1.0),
    Zhai=dict(log10_Mmin=13.68, log10_Msat=14.87, log10_Mcut=12.32, sigma=0.82, alpha=0.41))
DIR = None


def rnd_params(c, r, nb):
    p = {}
    if c['model'] == 'Cacciato':
        p = dict(log10_obs_norm_c=r.uniform(9.7, 10.2), log10_m_ch=r.uniform(11., 11.5), g1=r.uniform(2.8, 3.5), g2=r.uniform(.2, .3),
                 sigma_log10_O_c=r.uniform(.12, .2), norm_s=r.uniform(.5, .65), pivot=r.uniform(11.8, 12.4), alpha_s=r.uniform(-1.3, -1.),
                 beta_s=r.choice([2, 1.7]), b0=r.uniform(-1.3, -1.), b1=r.uniform(1.4, 1.6), b2=r.uniform(-.25, -.18))
        if r.rand() < .3:
            p.update(log10_obs_norm_c=r.uniform(9., 11.2), log10_m_ch=r.uniform(10.5, 12.5), g1=r.uniform(1., 6.), g2=r.uniform(-.3, .8), sigma_log10_O_c=r.uniform(.05, .5),
                     norm_s=r.uniform(.2, 1.5), pivot=r.uniform(11., 14.), alpha_s=r.uniform(-1.8, .5), beta_s=r.uniform(.7, 3.), b0=r.uniform(-2., .3),
                     b1=r.uniform(-.5, 2.), b2=r.uniform(-.4, .3))
    else:
        n = 1 if c['share'] == 'T' else nb
        for q in DEFAULTS[c['model']]:
            lo, hi = dict(log10_Mmin=(11.7, 12.9), log10_Msat=(12.8, 13.8), log10_M0=(11.5, 12.4), log10_M1=(12.8, 13.5), log10_Mcut=(11.8, 12.6),
                          sigma=(.1, .7), alpha=(.6, 1.2))[q]
            v = r.uniform(lo, hi, n)
            if q == 'alpha' and r.rand() < .3:
                v = r.uniform(.1, 2., n)
            if q == 'sigma' and r.rand() < .5:
                v[r.randint(n)] = 0.
            p[q] = float(v[0]) if c['share'] == 'T' and r.rand() < .5 else list(map(float, v))
    # leave some parameters to their defaults
    for q in list(p):
        if r.rand() < .25:
            del p[q]
    if c['dc'] == 'T':
        p['A_cen'] = float(r.choice([-.4, .2, .5, -1., 1., r.uniform(-1, 1)]))
    if c['ds'] == 'T':
        p['A_sat'] = float(r.choice([-.3, .3, -.95, 1.4, r.uniform(-1, 1)]))
    return p


def rnd_settings(c, r, tag):
    nb = 1 if c['src'] == 'file' else int(r.choice([1, 2, 3]))
    lo = np.round(r.uniform(8.6, 10.4, nb), 3)
    zl = np.round(r.uniform(0.02, .12, nb), 3)
    s = dict(observables_file=None, obs_min=lo, obs_max=lo + np.round(r.uniform(.4, 1.3, nb), 3), zmin=zl,
             zmax=zl + np.round(r.uniform(.25, .5, nb), 3), nz=int(r.choice([2, 3, 5])), nobs=int(r.choice([20, 33])), observable_h_unit=c['unit'])
    if c['src'] == 'default':
        s, nb = None, 1
        grid = dict(z=np.linspace(0, .2, 15)[None], lo=np.full((1, 15), 8.), hi=np.full((1, 15), 12.))
        grid['O'] = np.array([[np.logspace(8., 12., 300)] * 15])
        return nb, s, grid
    if c['src'] == 'file':
        nz = int(r.choice([3, 5]))
        zs = np.sort(np.round(r.uniform(.02, .6, nz), 3)) + np.arange(nz) * .02
        omin = np.round(10 ** np.round(r.uniform(8.6, 9.6, nz), 3), -3)
        omax = omin * np.round(r.uniform(3, 20, nz), 2)
        path = os.path.join(DIR, f'obs_{tag}.txt')
        np.savetxt(path, np.array([zs, omin, omax]).T, fmt='%.18e')
        s['observables_file'] = path
        # ranges given as well must be ignored
        grid = dict(z=zs[None], lo=np.log10(omin)[None], hi=np.log10(omax)[None])
    else:
        grid = dict(z=np.array([np.linspace(a, b, s['nz']) for a, b in zip(s['zmin'], s['zmax'])]),
                    lo=np.repeat(lo[:, None], s['nz'], 1), hi=np.repeat(s['obs_max'][:, None], s['nz'], 1))
    grid['O'] = np.array([[np.logspace(a, b, s['nobs']) for a, b in zip(x, y)] for x, y in zip(grid['lo'], grid['hi'])])
    return nb, s, grid


def model_z(c, r, g):
    lo, hi = np.max(g['z'][:, 0]), np.min(g['z'][:, -1])
    if hi <= lo:
        lo, hi = np.min(g['z']), np.max(g['z'])
    z = np.sort(np.round(r.uniform(lo, hi, r.choice([2, 3, 4])), 4))
    if r.rand() < .4:
        z[0] = g['z'][0, 0]                     # exactly on an edge of a sample
    if r.rand() < .4:
        z[-1] = g['z'][0, -1]
    if c['out'] == 'T':
        z = np.concatenate([[max(0., np.min(g['z']) * r.uniform(.2, .8))], z, [np.max(g['z']) + r.uniform(.02, .2)]])
    elif r.rand() < .2:
        z = g['z'][r.randint(len(g['z']))].copy()      # the grid of one of the samples
    z = np.unique(np.round(z, 12)) if c['out'] == 'T' else np.unique(z)
    if z.size < 2:
        z = np.array([z[0], z[0] + .05])
    # two model redshifts closer than this make the linear interpolation of the mass function ill-conditioned
    keep = [0]
    for j in range(1, z.size):
        if z[j] - z[keep[-1]] > 5e-3:
            keep.append(j)
    z = z[keep]
    return z if z.size > 1 else np.array([z[0], z[0] + .05])


def _plain(v):
    return np.atleast_1d(np.asarray(v, float))


def observe(ent, variant):
    from vf.common import REPO
    import zlib
    import onepower.hod as H
    c = ent['cfg']
    r = np.random.RandomState((zlib.crc32(repr(sorted(c.items())).encode()) + 7919 * variant + 104729 * SEED) % 2 ** 31)
    nb, s, g = rnd_settings(c, r, f'{os.getpid()}_{ent["i"]}_{variant}')
    p = rnd_params(c, r, nb)
    z = model_z(c, r, g)
    full = dict(DEFAULTS[c['model']], **p)
    obsgrid = g
    o = sp = None
    if c['via'] == 'class':
        nm = int(r.choice([30, 41]))
        M = np.logspace(11., 15.2, nm)
        if c['model'] != 'Cacciato' and r.rand() < .3:
            # a mass exactly at the step
            M[nm // 3] = 10. ** float(_plain(full['log10_Mmin'])[0])
            M = np.sort(M)
        x = np.log10(M)[None] - 12
        dn = 10 ** (-2.5 - .9 * x - .1 * np.exp(x / 1.2) * (1 + z[:, None]))
        bias = .8 + .25 * np.exp(.9 * x) * (1 + .7 * z[:, None])
        h = float(np.round(r.uniform(.6, .8), 3))
        from astropy.cosmology import Flatw0waCDM
        cosmo = Flatw0waCDM(H0=100 * h, Om0=.3)
        o, err = safely(lambda: getattr(H, c['model'])(cosmo=cosmo, mass=M.copy(), dndlnm=dn.copy(), halo_bias=bias.copy(), z_vec=z.copy(),
                                                       hod_settings=copy.deepcopy(s), **copy.deepcopy(p)))
    else:
        from onepower import Spectra
        from onepower.hmi import HaloModelIngredients
        base = dict(z_vec=z, k_vec=np.logspace(-2, 0, 4), lnk_min=-7., lnk_max=4., dlnk=.25, Mmin=11., Mmax=15., dlog10m=.2, transfer_model='EH',
                    growth_model='GrowthFactor', h0=float(np.round(r.uniform(.62, .76), 3)), sigma_8=float(r.uniform(.75, .85)))
        i = HaloModelIngredients(**copy.deepcopy(base))
        M, dn, bias, h = i.mass, i.dndlnm, i.halo_bias, base['h0']
        os_ = copy.deepcopy(s)
        # the observable function has its own samples, possibly at a single redshift
        no = int(r.choice([1, 4]))
        if c['src'] == 'direct':
            os_.update(nobs=25, obs_min=s['obs_min'] - .3, obs_max=s['obs_max'] + .2, nz=no, zmin=s['zmin'] + .01, zmax=s['zmax'] - .02)
            zz = np.array([np.linspace(a, b, no) for a, b in zip(os_['zmin'], os_['zmax'])])
            obsgrid = dict(z=zz, O=np.array([[np.logspace(a, b, 25)] * no for a, b in zip(os_['obs_min'], os_['obs_max'])]))
        elif r.rand() < .7:
            zs = np.round(np.linspace(.1, .4, no), 3)
            omin, omax = np.linspace(1e9, 2e9, no), np.linspace(2e10, 3e10, no)
            path = os.path.join(DIR, f'obsfn_{os.getpid()}_{r.randint(10 ** 9)}.txt')
            np.savetxt(path, np.array([zs, omin, omax]).T, fmt='%.18e')
            os_.update(observables_file=path, nobs=25)
            obsgrid = dict(z=zs[None], O=np.array([[np.logspace(np.log10(a), np.log10(b), 25) for a, b in zip(omin, omax)]]))
        sp, err = safely(lambda: Spectra(**copy.deepcopy(base), hod_model=c['model'], hod_params=copy.deepcopy(p), hod_settings=copy.deepcopy(s),
                                         obs_settings=os_, compute_observable=True))

    def leaf_of(g):
        def leaf(n):
            if n == 'M':
                return 'M', M
            if n in ('dn', 'bias'):
                return 'zM', dn if n == 'dn' else bias
            if n == 'O':
                return 'bto', g['O']
            if n == 'zs':
                return 'bt', g['z']
            if n == 'z':
                return 'z', z
            if n == 'h':
                return '', h
            v = full[n]
            if n in ('log10_Mmin', 'log10_Msat', 'log10_M0', 'log10_M1', 'log10_Mcut', 'sigma', 'alpha'):
                return 'b', _plain(v)
            return '', float(v)
        return leaf
    E1, E2 = Eval(AX, leaf_of(g)), Eval(AX, leaf_of(obsgrid))
    pool = {}
    ops = []
    OBS = ('log_obs_func', 'log_obs_func_cen', 'log_obs_func_sat', 'obs_func_obs', 'obs_func_z')
    for q in sorted(ent['terms']):
        t = ent['terms'][q]

        def get():
            if o is not None:
                return getattr(o, q)
            if q in OBS or q in ('fstar', 'mass_avg'):
                return getattr(sp, q.replace('log_obs', 'obs'))
            return getattr(sp.hod, q)
        v, e = safely(get) if not err else (None, err)
        if e or t['op'] == 'none':
            ops.append(event(q, v, None, e))
            continue
        ev = E2 if q in OBS else E1
        out = 'bzM' if q in ('hod_cen', 'hod_sat', 'hod', 'stellar_fraction_cen', 'stellar_fraction_sat', 'stellar_fraction', 'fstar') else \
            'bt' if q == 'obs_func_z' else 'bto' if 'obs_func' in q else 'bz'
        if v is not None and q == 'obs_func_obs' and np.ndim(v) == 4:
            v = np.asarray(v)[:, :, 0, :]
        def pred(out=out, t=t, ev=ev):
            a = ev.value(share(t, pool), out)
            full_shape = {'b': nb, 'z': z.size, 'M': M.size, 't': ev.leaf('zs').shape[1], 'o': ev.leaf('O').shape[4]}
            return np.broadcast_to(a, [full_shape[x] for x in out])
        ops.append(event(q, v, pred, '', rtol=1e-7, atol_rel=1e-12))
    if c['src'] == 'file':
        os.remove(s['observables_file'])
    return ops


SEED = 1


def run(chk, want):
    global DIR, SEED
    from vf.common import assert_repo_import
    assert_repo_import()
    DIR, SEED = chk.work, chk.seed
    th = chk.thorough
    compose(chk, 'HodCheck', 'Hod', observe, (40 if want == 'C12' else 15) if th else (3 if want == 'C12' else 1), env=dict(WANT=want))
