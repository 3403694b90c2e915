"""Replay of spec/Pointwise.tla: lists of galaxy samples (C15) or redshifts (C16)."""
import copy
import numpy as np
from vf import fakeemu
from vf.common import Interner, canon, judge, pool_map, MachineryError, assert_repo_import

K = np.logspace(-2, 1, 5)
INGR = ['scale_factor', 'power', 'nonlinear_power', 'nu', 'dndlnm', 'mean_density0', 'mean_density_z', 'rho_halo', 'halo_overdensity_mean',
        'halo_bias', 'neff', 'sigma8_z', 'fnu', 'conc_cen', 'conc_sat', 'u_dm', 'u_sat', 'r_s_cen', 'r_s_sat', 'rvir_cen', 'rvir_sat',
        'growth_factor']
PARTS = ('pk_1h', 'pk_2h', 'pk_tot', 'galaxy_linear_bias')
HODQ = ['hod_cen', 'hod_sat', 'hod', 'number_density_cen', 'number_density_sat', 'number_density', 'f_c', 'f_s', 'avg_halo_mass_cen',
        'avg_halo_mass_sat', 'avg_halo_mass', 'galaxy_linear_bias', 'galaxy_linear_bias_cen', 'galaxy_linear_bias_sat', 'stellar_fraction',
        'stellar_fraction_cen', 'stellar_fraction_sat']
BASE = dict(k_vec=K, lnk_min=-8., lnk_max=5., dlnk=.25, Mmin=11., Mmax=15., dlog10m=.25, transfer_model='EH', growth_model='GrowthFactor')
HM = dict(observables_file=None, obs_min=np.array([8.]), obs_max=np.array([12.]), zmin=np.array([0.]), zmax=np.array([1.5]), nz=3, nobs=20,
          observable_h_unit='1/h^2')


def beta(nz, nm):
    r = np.random.RandomState(3)
    b = r.uniform(-.05, .1, (1, K.size, nm, nm))
    return np.repeat(b + b.transpose(0, 1, 3, 2), nz, 0)


# ------------------------------------------------------------------ redshifts
ZPOOL = np.array([0.0, .13, .47, 2.6, 1.1, .13002, 4.7, .3])      # incl. two next to each other, and beyond the usual range
ZPROF = [
    dict(), dict(mdef_model='SOVirial'), dict(mdef_model='SOCritical', overdensity=180., halo_concentration_model_sat='Bullock01', eta_sat=.2),
    dict(hmcode_ingredients='mead2020'), dict(hmcode_ingredients='mead2020_feedback', nonlinear_mode='hmcode'),
    dict(hmcode_ingredients='mead2020', nonlinear_mode='hmcode', w0=-.9, wa=.2), dict(hmcode_ingredients='fit', dewiggle=True, norm_cen=1.2, eta_cen=.1),
    dict(nonlinear_mode='fortuna', response=True, halo_profile_model_sat='Hernquist'), dict(nonlinear_mode='bnl', mdef_model='SOVirial', norm_sat=.7),
    dict(hmf_model='SMT', bias_model='SMT01', halo_concentration_model_dm='Bullock01', dewiggle=True, m_nu=.3),
    dict(hmcode_ingredients='mead2020_feedback', response=True, log10T_AGN=7.5),
    dict(nonlinear_mode='bnl', beta_nl=None), dict(nonlinear_mode='bnl', beta_nl=None, hmcode_ingredients='mead2020', response=True),
]
KPL = K / (1 + (K / .02) ** 2.4)


def z_kwargs(prof, r):
    z = ZPOOL[np.array(r) - 1]
    kw = dict(BASE, z_vec=z)
    kw.update(copy.deepcopy(ZPROF[prof]))
    kw['hod_settings_mm'] = copy.deepcopy(HM)
    if prof % 3 == 1:                      # these may be given per redshift
        kw['norm_cen'], kw['eta_sat'] = 1 + .1 * z, .05 + .04 * z
        kw['norm_sat'], kw['eta_cen'] = 1.1 - .1 * z, .2 - .03 * z
    if prof % 4 == 3:
        kw['matter_power_lin'] = 1e3 * np.array([(1 - .3 * x) * KPL for x in z])
    if prof % 4 in (2, 3):
        kw['matter_power_nl'] = 2e3 * np.array([(1 - .3 * x) * KPL * (1 + 4 * K) for x in z])
    if kw.get('nonlinear_mode') == 'bnl' and 'beta_nl' not in kw:
        kw['beta_nl'] = beta(z.size, len(np.arange(kw['Mmin'], kw['Mmax'], kw['dlog10m'])))
    return kw


def z_read(o, r):
    out, glob = [], []
    n = len(r)
    for q in INGR:
        v = np.asarray(getattr(o, q))
        out.append((q, [v[j] for j in range(n)] if v.shape[:1] == (n,) else list(v)))
    for q in ('power_spectrum_mm', 'power_spectrum_lin'):
        s = getattr(o, q)
        for p in PARTS:
            v = getattr(s, p, None)
            if v is None:
                continue
            v = np.asarray(v, float)
            ax = 0 if v.ndim == 2 else 1
            if v.ndim < 2:
                glob.append((q + p, v))
            elif v.shape[ax] == 1 and n > 1:
                glob.append((q + p, v))
            else:
                out.append((q + p, [np.take(v, j, axis=ax).reshape(-1) for j in range(v.shape[ax])]))
    for q in ('mass', 'kh', 'omega_m'):
        glob.append((q, getattr(o, q)))
    return out, glob


# ------------------------------------------------------------------ samples
# samples that share some of their attributes with others: 2 only differs from 1 in its lower redshift, 3 in the observable and the
# occupation, 5 in the occupation alone; 4 has hardly any satellites; 6 differs from 1 by very little; 8 is very rare
SPOOL = [dict(obs_min=9., obs_max=10., zmin=0., zmax=.3, log10_Mmin=12., log10_Msat=13., log10_M0=11.9, log10_M1=13.1, log10_Mcut=12.1, sigma=.3, alpha=1.)]
SPOOL += [dict(SPOOL[0], zmin=.09),
          dict(SPOOL[0], obs_min=10., obs_max=11.2, log10_Mmin=12.4, log10_Msat=13.4, log10_M0=12.2, log10_M1=13.3, log10_Mcut=12.4, sigma=0., alpha=.8),
          dict(obs_min=9.5, obs_max=10.2, zmin=.05, zmax=.26, log10_Mmin=12.7, log10_Msat=16.6, log10_M0=13., log10_M1=16.6, log10_Mcut=14.5, sigma=.5, alpha=1.1),
          dict(SPOOL[0], log10_Mmin=11.8, log10_Msat=13.2, log10_M0=11.6, log10_M1=12.9, log10_Mcut=12.3, sigma=.2, alpha=.9),
          {k: v * (1 + 4e-6) for k, v in SPOOL[0].items()},
          dict(obs_min=8.8, obs_max=11.5, zmin=.12, zmax=.5, log10_Mmin=12.2, log10_Msat=12.9, log10_M0=12.1, log10_M1=13.2, log10_Mcut=11.9, sigma=.4, alpha=.7),
          dict(obs_min=12.2, obs_max=12.9, zmin=.08, zmax=.31, log10_Mmin=14.8, log10_Msat=15.5, log10_M0=14.6, log10_M1=15.6, log10_Mcut=14.9, sigma=.1, alpha=1.2)]
HODP = dict(Cacciato=[], Simple=['log10_Mmin', 'log10_Msat', 'alpha'], Zehavi=['log10_Mmin', 'log10_Msat', 'alpha'],
            Zheng=['log10_Mmin', 'log10_M0', 'log10_M1', 'sigma', 'alpha'], Zhai=['log10_Mmin', 'log10_Msat', 'log10_Mcut', 'sigma', 'alpha'])
AL = dict(beta_cen=.4, mpivot_cen=13.2, central_ia_depends_on='halo_mass', beta_sat=.3, mpivot_sat=13.5, satellite_ia_depends_on='halo_mass')
SPROF = [
    dict(hod_model='Cacciato'), dict(hod_model='Cacciato', pointmass=True, hod_params=dict(A_cen=.2, A_sat=-.1)),
    dict(hod_model='Zheng'), dict(hod_model='Zhai', nonlinear_mode='fortuna', t_eff=.3), dict(hod_model='Simple', hod_params=dict(A_cen=.3, A_sat=.2)),
    dict(hod_model='Zehavi', nonlinear_mode='hmcode', hmcode_ingredients='mead2020'),
    dict(hod_model='Cacciato', hmcode_ingredients='fit', response=True), dict(hod_model='Cacciato', nonlinear_mode='bnl', align_params=AL),
    dict(hod_model='Zheng', response=True, align_params=AL, poisson_model='power_law', poisson_params=dict(poisson=.9, pivot=12.5, slope=.1)),
    dict(hod_model='Cacciato', nonlinear_mode='hmcode', hmcode_ingredients='mead2020_feedback', align_params=AL),
    dict(hod_model='Zhai', nonlinear_mode='bnl', one_halo_ktrunc=None, two_halo_ktrunc_ia=None),
    dict(hod_model='Zheng', nonlinear_mode='bnl', beta_nl=None, align_params=AL),
]
ZS = np.array([.1, .25])


def s_kwargs(prof, r):
    pts = [SPOOL[j - 1] for j in r]
    kw = dict(BASE, z_vec=ZS, sigma_8=.8, compute_observable=True)
    kw.update(copy.deepcopy(SPROF[prof]))
    arr = lambda k: np.array([p[k] for p in pts])
    kw['hod_settings'] = dict(observables_file=None, nz=3, nobs=20, observable_h_unit='1/h^2' if prof % 2 == 0 else '1/h',
                              **{k: arr(k) for k in ('obs_min', 'obs_max', 'zmin', 'zmax')})
    kw['obs_settings'] = copy.deepcopy(kw['hod_settings'])
    kw['hod_settings_mm'] = copy.deepcopy(HM)
    kw['hod_params'] = dict(kw.get('hod_params', {}), **{k: [p[k] for p in pts] for k in HODP[kw['hod_model']]})
    if kw.get('nonlinear_mode') == 'bnl' and 'beta_nl' not in kw:
        kw['beta_nl'] = beta(2, len(np.arange(kw['Mmin'], kw['Mmax'], kw['dlog10m'])))
    return kw


def s_read(o, r):
    out, glob = [], []
    for q in HODQ:
        out.append((q, list(getattr(o.hod, q))))
    for q in ('fstar', 'mass_avg', 'obs_func', 'obs_func_cen', 'obs_func_sat'):
        v = getattr(o, q)
        if v is not None:
            out.append((q, list(v)))
    for s in ('gg', 'gm', 'gi', 'mi', 'ii'):
        x = getattr(o, 'power_spectrum_' + s)
        for p in PARTS:
            v = getattr(x, p, None)
            if v is not None:
                out.append((s + p, list(v)))
    x = o.power_spectrum_mm
    glob += [('mm' + p, getattr(x, p, None)) for p in PARTS] + [('dndlnm', o.dndlnm), ('fstar_mm', o.fstar_mm), ('u_sat', o.u_sat)]
    return out, glob


KIND = None


def one(job):
    from onepower import Spectra
    prof, plan = job
    kwf, rd = (z_kwargs, z_read) if KIND == 'z' else (s_kwargs, s_read)
    it = Interner(1e-8, 1e-12)
    ops, o = [], None
    for op, r in plan['ops']:
        e = dict(op=op, r=r, err='', obs=[], glob=[])
        try:
            kw = kwf(prof, r)
            if op == 'new':
                o = Spectra(**kw)
            else:
                ch = ('z_vec', 'matter_power_lin', 'matter_power_nl', 'beta_nl', 'norm_cen', 'norm_sat', 'eta_cen', 'eta_sat') if KIND == 'z' else ('hod_settings', 'hod_params', 'obs_settings')
                o.update(**{k: kw[k] for k in ch if k in kw})
            out, glob = rd(o, r)
            e['obs'] = [[q, [it.id(q, canon(np.asarray(x))) for x in v]] for q, v in out]
            e['glob'] = [[q, it.id('G' + q, canon(v))] for q, v in glob]
        except Exception as ex:
            e['err'] = f'{type(ex).__name__}: {str(ex)[:80]}'
        ops.append(e)
        if e['err']:
            break
    return dict(prof=prof, ops=ops)


def run(chk, kind):
    global KIND
    KIND = kind
    assert_repo_import()
    fakeemu.install()
    th = chk.thorough
    n, full, chains, maxlen = (8, 3, 12, 5) if th else (8, 2, 3, 4)
    const = 'CONSTANTS Points = {' + ','.join(str(j) for j in range(1, n + 1)) + f'}} MaxLen = {max(full, maxlen)}\n'
    profs = ZPROF if kind == 'z' else SPROF
    jobs = []
    r = chk.tlc('PointwiseGen', 'SPECIFICATION GSpec\nINVARIANTS TypeOK Emit\nCHECK_DEADLOCK FALSE\n' + const,
                env=dict(FULL=full, NCHAIN=chains * len(profs)), args=['-seed', str(chk.seed + 5)], workers=1)
    plans = {}
    for p in r.printed('PLAN'):
        plans.setdefault((p['id'][1], p['id'][0]), p)
    fulls = [p for (k, _), p in sorted(plans.items()) if k == 'full']
    ch = [p for (k, _), p in sorted(plans.items()) if k == 'chain']
    if not fulls or len(ch) < chains * len(profs):
        raise MachineryError('plans missing')
    for i in range(len(profs)):
        jobs += [(i, p) for p in fulls] + [(i, ch[i * chains + j]) for j in range(chains)]
    traces = pool_map(one, jobs)
    judge(chk, 'PointwiseTrace', traces, [dict(profile=str(profs[i]), **p) for i, p in jobs], cfg=const)
    chk.cov['requests'] = sum(len(t['ops']) for t in traces)
    chk.cov['profiles'] = len(profs)
    for i, p in jobs[::max(1, len(jobs) // 3)]:
        chk.sample(dict(profile=str(profs[i]), **p))
