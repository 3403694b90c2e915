"""C25: the non-linear bias correction as formed from the emulator's spectra (spec/BiasForm.tla)."""
import copy, zlib
import numpy as np
from scipy.interpolate import make_interp_spline
from vf import fakeemu
from vf.p_c04 import RANGE, value
from vf.expr import Eval, share, event, safely, compose
from vf.common import assert_repo_import

SEED = 1


def envelope(ev, e):
    """Quadratic spline through the local maxima along t, at the points of the third argument."""
    y, x, to = (ev.ev(a) for a in e['a'])
    i, j = ev.n['t'], ev.n[e['n'].split()[1]]
    y = np.moveaxis(y, i, -1)
    x, to = x.reshape(-1), to.reshape(-1)
    out = np.empty(y.shape[:-1] + (to.size,))
    for s in np.ndindex(*y.shape[:-1]):
        v = y[s]
        top = np.flatnonzero((v[1:-1] > v[:-2]) & (v[1:-1] > v[2:])) + 1
        out[s] = make_interp_spline(x[top], v[top], k=2)(to)
    # the axis t was moved to the end: put the new axis in its place
    out = np.moveaxis(out, -1, i)
    return out if j == i else np.swapaxes(out, i, j)


def observe(ent, variant):
    from onepower.bnl import NonLinearBias
    fakeemu.install()
    c = ent['cfg']
    r = np.random.RandomState((zlib.crc32(repr(sorted(c.items())).encode()) + 7919 * variant + 104729 * SEED) % 2 ** 31)
    lev = ['in'] * 6 if c['cosmo'] == 'in' else [str(r.choice(['below', 'in', 'above'])) for _ in range(6)]
    x = [value(r, i, lev[i]) for i in range(6)]
    h = r.uniform(.6, .8)
    z = np.sort(r.uniform(0, 1.2, int(r.choice([1, 2, 3]))))
    if r.rand() < .4:
        z[0] = 0.
    lo, hi = {'inside': (12.3, 14.), 'below': (9.5, 12.), 'above': (13.9, 16.), 'wide': (9., 16.)}[c['mass']]
    m = np.sort(10 ** r.uniform(lo, hi, int(r.randint(2, 7))))
    lo, hi = {'inside': (-2.9, 2.2), 'low': (-4.5, -2.), 'high': (1.5, 4.), 'wide': (-4., 3.)}[c['kk']]
    k = np.sort(10 ** r.uniform(lo, hi, int(r.randint(3, 9))))
    if c['kk'] == 'inside':
        k[0] = r.uniform(.02, .09)
        k[1] = 10 ** r.uniform(-.5, .8)
        k.sort()
    kw = dict(h0=h, omega_b=x[0] / h ** 2, omega_c=x[1] / h ** 2, omega_lambda=x[2] + .00064, n_s=x[4], w0=x[5], A_s=np.exp(x[3]) / 1e10, sigma_8=None,
              mass=m, k_vec=k, z_vec=z, z_dep=c['zdep'] == 'T')
    f = fakeemu.FakeEmu()
    f.c = np.array([np.clip(x[i], *RANGE[i]) for i in range(6)])
    o, err = safely(lambda: NonLinearBias(**copy.deepcopy(kw)))

    def leaf(n):
        return {'z': ('z', z), 'lgk': ('k', np.log10(k)), 'lgm': ('m', np.log10(m)), 'lgm2': ('n', np.log10(m)), 'wt': ('t', np.linspace(0, 1, 1000)),
                'wu': ('u', np.linspace(0, 1, 5)), 'Om': ('', 1. - f.c[2])}[n]
    ev = Eval('ztuvkmno', leaf, ops=dict(phh=lambda k, a, b, z: f.get_phh_mass(k, a, b, z), plin=lambda k, z: f.get_pklin_from_z(k, z)), via=dict(envelope=envelope))
    pool, ops = {}, []
    for q in sorted(ent['terms']):
        t = share(ent['terms'][q], pool)
        if q == 'bnl':
            v, e = safely(lambda: np.asarray(o.bnl, float)) if not err else (None, err)
            if v is not None:
                want = ((z.size if c['zdep'] == 'T' else 1), k.size, m.size, m.size)
                if v.shape != want:
                    v = np.zeros(want + (1,))
            ops.append(event(q, v, lambda: ev.value(t, 'zkmn'), e, rtol=1e-6, atol_rel=1e-9))
        else:
            v, e = safely(lambda: o.minimum_halo_mass[q == 'kmax']) if not err else (None, err)
            ops.append(event(q, v, lambda: ev.value(t, ''), e, rtol=1e-9))
    return ops


def run(chk):
    global SEED
    fakeemu.install()
    assert_repo_import()
    SEED = chk.seed
    compose(chk, 'BiasFormCheck', 'Bf', observe, 8 if chk.thorough else 1)
    chk.assumptions.append('the emulator is a stand-in with the same interface; the real one is not evaluated')
