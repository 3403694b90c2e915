"""C18: alignment amplitudes and the satellite kernel (spec/Alignment.tla)."""
import os, shutil, tempfile, zlib
import numpy as np
from math import comb
from scipy.fft import fht, fhtoffset
from scipy.special import beta as beta_fn
from vf.expr import Eval, share, event, safely, compose
from vf.common import assert_repo_import

SEED = 1
DIR = None
ZG = dict(even=[8, 16, 24, 32], uneven=[6, 10, 22], two=[10, 30])
SIZES = [(5, 5), (12, 4), (13, 4), (11, 4), (16, 5), (7, 6), (9, 2)]
CAT = dict(dense=[(n * 7) % 45 for n in range(1, 61)], holes=[n % 13 if n % 2 == 0 else 21 + n % 16 for n in range(1, 31)],
           edges=[2, 4, 4, 5, 6, 8, 8, 10, 12, 12, 13, 14, 16, 18, 20, 20, 20, 22, 24, 24, 26, 27, 28, 28, 30, 31, 34, 36, 36, 40, 40, 41])


def f_ell(ell, b):
    """Angular multipole of sin^b for a wavevector in the equator: integral of sin^b(theta) cos(2 phi) P_ell(sin theta cos phi)."""
    c = np.polynomial.legendre.leg2poly([0] * ell + [1])
    r = 0.
    for m, a in enumerate(c):
        if m % 2 or m < 2:
            continue
        g = 2 * np.pi * comb(m, m // 2) / 2 ** m * (m / (m + 2))       # integral of cos(2x) cos^m(x)
        r += a * g * beta_fn(.5, (m + b) / 2 + 1)                      # integral of (1 - x^2)^((m+b)/2)
    return r


def hist(ev, e):
    head, *sl = [w.split() for w in e['n'].split('|')]
    what = head[3]
    lum = 10. ** ev.ev(e['a'][0]).ravel()
    out = np.zeros((len(sl), 10000))
    for i, idx in enumerate(sl):
        if idx:
            p, edges = np.histogram(lum[[int(x) for x in idx]], bins=10000, density=True)
            out[i] = p if what == 'p' else edges[:-1] + .5 * (edges[-1] - edges[0]) / 10000
    sh = [1] * len(ev.axes)
    sh[ev.n['z']], sh[ev.n['l']] = out.shape
    return out.reshape(sh)


def observe(ent, variant):
    from astropy.io import fits
    from onepower.ia import AlignmentAmplitudes, SatelliteAlignment
    c = ent['cfg']
    r = np.random.RandomState((zlib.crc32(repr(sorted(c.items())).encode()) + 7919 * variant + 104729 * SEED) % 2 ** 31)
    z = np.array(ZG[c['zg']]) / 64.
    d = tempfile.mkdtemp(dir=DIR)
    lum = {}
    # luminosities in other units; (10, .8) is left out: numpy cannot split the range of a single galaxy at L > 1e12 in 10000 bins
    l0, sl = [(10., .3), (10., .3), (4., .3), (4., .8), (0., .3), (2., .8)][r.randint(6)]
    cz = np.array(CAT[c['cat']]) / 64.
    for pop in ('cen', 'sat'):
        lum[pop] = l0 + r.normal(.2, sl, cz.size)
        fits.BinTableHDU.from_columns([fits.Column(name='z', format='D', array=cz),
                                       fits.Column(name='loglum', format='D', array=lum[pop])]).writeto(os.path.join(d, pop + '.fits'))
    P = dict(gamma_2h=r.uniform(2, 7), beta=r.uniform(.2, 1.2), beta_two=r.uniform(.1, 1.2), beta_sat=r.uniform(.2, 1.2),
             gamma_1h=r.uniform(.0005, .003) if c['amp'] == 'small' else r.uniform(.02, .3), lp_c=l0 + r.uniform(-.1, .4), lp_s=l0 + r.uniform(-.1, .4),
             slope=float(c['slope']) if c['slope'] != 'x' else float(r.choice([-1., -.5, .7, -1.37, -1.9, 1.])))
    for q in ('gamma_2h', 'gamma_1h', 'beta', 'beta_two', 'beta_sat'):
        if r.rand() < .3:
            P[q] = -P[q]
        if r.rand() < (.15 if 'beta' in q else .04):
            P[q] = 0.
    n, want = SIZES[c['size'] - 1]
    mass = np.logspace(r.uniform(10.5, 11.5), r.uniform(14.5, 15.5), n)
    con = 9 * (mass / 1e12) ** -.1 / (1 + z)[:, None] * (1 + .1 * r.rand(z.size, n))
    if variant % 2:          # neighbouring values coincide: no array may be used to find out which masses were kept
        con[:, -2] = con[:, -1]
    rv = .2 * (mass / 1e12) ** (1 / 3) * r.uniform(.9, 1.1)
    rs = rv / con * (1 + .1 * r.rand(z.size, n))
    if n < 6 or r.rand() < .3:
        rv[0] = .05          # below the core radius
    kw = dict(z_vec=z.copy(), central_ia_depends_on={'broken': 'luminosity'}.get(c['law_c'], c['law_c']), satellite_ia_depends_on=c['law_s'],
              gamma_2h_amplitude=P['gamma_2h'], beta_cen=P['beta'], beta_two=P['beta_two'] if c['law_c'] == 'broken' else None,
              gamma_1h_amplitude=P['gamma_1h'], gamma_1h_slope=P['slope'], beta_sat=P['beta_sat'], mpivot_cen=13.5, mpivot_sat=13.5,
              lpivot_cen=np.round(P['lp_c'], 12), lpivot_sat=P['lp_s'],
              z_loglum_file_centrals=os.path.join(d, 'cen.fits'), z_loglum_file_satellites=os.path.join(d, 'sat.fits'))
    P['lp_c'], P['lp_s'] = 10. ** np.round(P['lp_c'], 12), 10. ** P['lp_s']
    nh = int(r.choice([40, 80]))
    N = int(np.pi / (np.pi / nh))
    skw = dict(mass_in=mass.copy(), c_in=con.copy(), r_s_in=rs.copy(), rvir_in=rv.copy(), n_hankel=nh, nmass=want, nk=int(r.choice([5, 8])),
               ell_max=c['ell'], truncate=c['trunc'] == 'T', method=c['method'])
    cls = c['part'] == 'amp' and r.rand() < .5
    obj, err = safely(lambda: AlignmentAmplitudes(**kw) if cls else SatelliteAlignment(**skw, **kw))
    k = np.logspace(-3, 3, 100 if c['method'] == 'fftlog' else skw['nk'])
    kout = np.sort(10 ** r.uniform(-3.3, 3.2, 6))
    mout = np.sort(10 ** r.uniform(11, 15.5, 4))

    def leaf(q):
        if q in P:
            return '', P[q]
        if q in ('L.cen', 'L.sat'):
            return 'g', lum[q[2:]]
        return {'mass': ('M', mass), 'rvir': ('M', rv), 'rs': ('zM', rs), 'c': ('zM', con), 'k': ('k', k), 'kout': ('q', kout), 'mout': ('n', mout),
                'rnode': ('r', np.array([1.]))}[q]

    def prof_at(ev, e, radii):
        """Profile (z, m, r) at the given radii."""
        sub = Eval(ev.axes, lambda q: ('r', radii) if q == 'rnode' else leaf(q), ops=ev.ops, via=ev.via)
        a = sub.ev(e)
        a = np.broadcast_to(a, [x if ax in 'zmr' else 1 for ax, x in zip(ev.axes, a.shape)])
        zi, mi, ri = ev.n['z'], ev.n['m'], ev.n['r']
        return np.moveaxis(a, (zi, mi, ri), (-3, -2, -1)).reshape(a.shape[zi], a.shape[mi], a.shape[ri])

    def bessel(ev, e):
        meth, ell = e['n'].split()[3:]
        ell = int(ell)
        if meth == 'fftlog':
            mu, bias = ell + .5, -.5 * (ell // 2 + 2.)
            rr = np.logspace(-8, 8, 512)
            dl = np.log(rr[1] / rr[0])
            off = fhtoffset(dl, mu=mu, initial=-2 * np.log(10.), bias=bias)
            kk = np.exp(off) / rr[::-1]
            f = prof_at(ev, e['a'][0], rr) * rr ** 1.5 * np.sqrt(np.pi / 2)
            t = fht(f, dl, mu=mu, offset=off, bias=bias) / kk ** 1.5
            j = np.clip(np.searchsorted(kk, k) - 1, 0, kk.size - 2)
            w = (k - kk[j]) / (kk[j + 1] - kk[j])
            u = t[..., j] * (1 - w) + t[..., j + 1] * w
        else:
            # Ogata's quadrature with N nodes and step pi/N
            from hankel import HankelTransform
            ht = HankelTransform(ell + .5, nh, np.pi / nh)
            x = ht.x
            u = np.empty((1, 1, 1))
            cols = []
            for kv in k:
                f = prof_at(ev, e['a'][0], x / kv) * np.sqrt(x / kv * np.pi / 2)
                cols.append([[ht_sum(ht, lambda y, g=f[a_, b_]: g, kv) for b_ in range(f.shape[1])] for a_ in range(f.shape[0])])
            u = np.moveaxis(np.array(cols), 0, -1) / k ** .5
        sh = [1] * len(ev.axes)
        sh[ev.n['z']], sh[ev.n['m']], sh[ev.n['k']] = u.shape
        return u.reshape(sh)

    def ht_sum(ht, f, kv):
        return ht.transform(f, kv, ret_err=False)

    ev = Eval('zlMmkqngr', leaf, ops=dict(fell=lambda s, e, a: f_ell(int(e['n']), a[0].ravel()[0]) * np.ones((1,) * len(s.axes))),
              via=dict(bessel=bessel, hist=hist))
    pool, ops = {}, []
    order = list(r.permutation(sorted(ent['terms'])))
    for q in order:
        t = ent['terms'][q]
        out = {'alignment_gi': 'z', 'gamma_1h_amp': 'z', 'mass': 'm', 'rvir': 'm', 'r_s': 'zm', 'c': 'zm', 'wkm_f_ell': 'zmk',
               'upsampled': 'znq' if c['method'] == 'hankel' else 'zmq'}.get(q, 'zl')
        if err:
            v, e = None, err
        elif q == 'upsampled':
            v, e = safely(lambda: obj.upsampled_wkm(kout.copy(), mout.copy() if c['method'] == 'hankel' else obj.mass))
        else:
            v, e = safely(lambda: getattr(obj, q))
        # the angular multipoles of the common slopes are tabulated to a few digits in the code
        rtol = (5e-4 if c['slope'] in ('0', '-2') else 1e-6) if q in ('wkm_f_ell', 'upsampled') else 1e-8
        ops.append(event(q, v, lambda: ev.value(share(t, pool), out), e, rtol=rtol, atol_rel={5e-4: 1e-5, 1e-6: 1e-9, 1e-8: 1e-12}[rtol]))
    shutil.rmtree(d)
    return ops


def run(chk):
    global SEED, DIR
    assert_repo_import()
    SEED = chk.seed
    th = chk.thorough
    DIR = tempfile.mkdtemp(prefix='vf_c18_')
    try:
        def sub(c, v):
            return th or c['part'] == 'amp' or (zlib.crc32(repr(sorted(c.items())).encode()) + chk.seed) % 4 == 0
        compose(chk, 'AlignCheck', 'Al', observe, 4 if th else 2, sub=sub)
    finally:
        shutil.rmtree(DIR, ignore_errors=True)
