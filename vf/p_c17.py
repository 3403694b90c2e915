"""C17: which parameter influences which result (spec/Influence.tla)."""
import copy
import numpy as np
from vf import fakeemu, hm
from vf.common import assert_repo_import, pool_map, judge, MachineryError

ATTR = dict(dn='dndlnm', bias='halo_bias', udm='u_dm', usat='u_sat', rho='mean_density0', D='growth_factor', s8z='sigma8_z', neff='neff',
            fstar='fstar', fstar_mm='fstar_mm', Mavg='mass_avg', Agi='alignment_gi', wkm='wkm_sat')
HODA = dict(Nc='hod_cen', Ns='hod_sat', nc='number_density_cen', ns='number_density_sat', fc='f_c', fs='f_s')
DIRECT = ["dn", "bias", "udm", "usat", "rho", "D", "s8z", "neff", "Nc", "Ns", "nc", "ns", "fc", "fs", "fstar", "fstar_mm", "Mavg", "Agi", "wkm"]


def point(c, seed, idx):
    n = hm.numbers(seed, idx)
    n['k'] = n['kw']['k_vec'] = np.logspace(-1.7, .1, 12)
    r = np.random.RandomState(idx)
    n['plin'] = 1000 * np.outer(1 / (1 + n['z']), n['k'] / (1 + (n['k'] / .02) ** 2.4) * (1 + .05 * np.sin(n['k'] * 100)))
    n['pnl'] = n['plin'] * (1 + 5 * n['k'])
    n['zhod'] = 'Zheng'
    n['zparams'] = dict(log10_Mmin=n['zparams']['log10_Mmin'], log10_M1=13.1, sigma=.3, A_cen=.2, A_sat=.1)
    n['cparams'].pop('log10_obs_norm_c', None)
    n['cparams'] = dict(n['cparams'], A_cen=.2, A_sat=.1, sigma_log10_O_c=.17, b0=-1.1)
    n['kw'].update(z_vec=n['z'] + .05, dlog10m=.25, wa=.1, mdef_model=c['mdef'], overdensity=200., delta_c=1.686, hmf_model='Tinker10', bias_model='Tinker10', t_eff=.3,
                   halo_profile_model_dm='NFW', halo_profile_model_sat='NFW', halo_concentration_model_dm='Duffy08', halo_concentration_model_sat='Duffy08')
    n['z'] = n['kw']['z_vec']
    n['kw']['m_nu'] = n['kw']['m_nu'] or .06
    s = n['hod_settings']
    s['zmin'], s['zmax'] = np.zeros(n['nb']), np.full(n['nb'], n['z'].max() + .15)
    s['observable_h_unit'] = '1/h'
    s['nobs'] = 15
    n['hod_settings_mm']['nobs'] = 15
    n['hod_settings_mm']['zmax'] = np.array([n['z'].max() + .25])
    n['kw']['eta_cen'], n['kw']['eta_sat'] = .12, .15
    return n


def base_kwargs(c, n):
    kw = hm.build_kwargs(c, n, **({} if c['bsup'] == 'T' else dict(beta=None)))
    kw['align_params'].setdefault('gamma_1h_slope', -2.)
    return kw


ALT = dict(mdef_model={'SOMean': 'SOVirial', 'SOVirial': 'SOMean'}, hmf_model='SMT', bias_model='SMT01', halo_profile_model_dm='Hernquist',
           halo_profile_model_sat='Hernquist', halo_concentration_model_dm='Bullock01', halo_concentration_model_sat='Bullock01',
           delta_c=1.75, overdensity=260., log10T_AGN=None, t_eff=.55)


def change(p, sw, c, kw, n):
    """The keyword arguments of one update call that changes parameter p."""
    hodp = kw['hod_params']
    cac = c['hod'] == 'Cacciato'
    if sw:
        return {'pointmass': lambda: dict(pointmass=not kw['pointmass']), 'dewiggle': lambda: dict(dewiggle=not kw['dewiggle']),
                'response': lambda: dict(response=not kw['response']),
                'poisson_model': lambda: dict(poisson_model='power_law', poisson_params=dict(n['pois']['power_law'])) if c['pois'] == 'constant' else
                dict(poisson_model='constant', poisson_params=dict(poisson=kw['poisson_params']['poisson'])),
                't1': lambda: dict(one_halo_ktrunc=None if c['t1'] == 'T' else n['kw']['one_halo_ktrunc']),
                't1i': lambda: dict(one_halo_ktrunc_ia=None if c['t1i'] == 'T' else n['kw']['one_halo_ktrunc_ia']),
                't2i': lambda: dict(two_halo_ktrunc_ia=None if c['t2i'] == 'T' else n['kw']['two_halo_ktrunc_ia'])}[p]()
    if p == 'log10T_AGN':
        return dict(log10T_AGN=kw[p] + .15)
    if p == 'mdef_model':
        return dict(mdef_model=ALT[p][kw['mdef_model']])
    if p in ALT:
        return {p: ALT[p]}
    if p in ('poisson', 'pivot', 'slope'):
        return dict(poisson_params={p: kw['poisson_params'][p] + (.2 if p != 'slope' else .07)})
    if p in ('hod_cen_par', 'hod_sat_par'):
        q = ('sigma_log10_O_c' if cac else 'sigma') if p == 'hod_cen_par' else ('b0' if cac else 'log10_M1')
        return dict(hod_params={q: hodp[q] + .03})
    if p in ('A_cen', 'A_sat'):
        return dict(hod_params={p: hodp[p] + .1})
    if p == 'obs_min':
        return dict(hod_settings=dict(copy.deepcopy(kw['hod_settings']), obs_min=kw['hod_settings']['obs_min'] - .2))
    if p == 'observable_h_unit':
        return dict(hod_settings=dict(copy.deepcopy(kw['hod_settings']), observable_h_unit='1/h^2'))
    if p == 'mm_obs_min':
        return dict(hod_settings_mm=dict(copy.deepcopy(kw['hod_settings_mm']), obs_min=kw['hod_settings_mm']['obs_min'] + .4))
    if p in ('gamma_2h_amplitude', 'gamma_1h_amplitude', 'gamma_1h_slope', 'beta_cen', 'beta_sat'):
        return dict(align_params={p: kw['align_params'][p] * 1.1})
    if p in ('mpivot_cen', 'mpivot_sat'):
        return dict(align_params={p: kw['align_params'][p] + .2})
    if p in ('matter_power_lin', 'matter_power_nl'):
        return {p: kw[p] * (1.05 + .1 * n['k'])}
    if p == 'beta_nl':
        return dict(beta_nl=kw[p] * 1.3)
    if p in ('w0', 'wa'):
        return {p: kw[p] + .07}
    return {p: kw[p] * 1.04}


def read(o):
    out = {}
    for q in DIRECT:
        out[q] = np.array(getattr(o.hod, HODA[q]) if q in HODA else getattr(o, ATTR[q]), float)
    for s in ('mm', 'gg', 'gm', 'mi', 'ii', 'gi'):
        r = getattr(o, 'power_spectrum_' + s)
        for p, a in hm.PART.items():
            x = getattr(r, a, None)
            out[f'{s}.{p}'] = np.zeros(1) if x is None else np.array(x, float)
    return out


def verdict(a, b):
    if a.shape != b.shape:
        a, b = np.broadcast_arrays(a, b) if a.ndim == b.ndim else (a, np.full(a.shape, np.nan))
    with np.errstate(all='ignore'):
        d = np.abs(a - b)
        d = np.where(d == 0, 0, d / np.maximum(np.abs(a), np.abs(b)))
    m = np.nanmax(d) if d.size and np.isfinite(d).any() else (0. if np.array_equal(np.isnan(a), np.isnan(b)) else 1.)
    return 'n' if m < 1e-10 else 'y' if m > 1e-7 else '?'


CFGS, SEED = None, 1


def one(j):
    from onepower import Spectra
    ent = CFGS[j]
    c = ent['cfg']
    n = point(c, SEED, j)
    kw = base_kwargs(c, n)
    ops = []
    try:
        o = Spectra(**copy.deepcopy(kw))
        ref = read(o)
    except Exception as ex:
        return dict(i=ent['i'], v=ent['v'], cfg=c, ops=[dict(p='base', sw=0, err=f'{type(ex).__name__}: {str(ex)[:80]}', ch=[])])
    for p, sw in [(p, 0) for p in ent['params']] + [(p, 1) for p in ent['switches']]:
        e = dict(p=p, sw=sw, err='', ch=[])
        try:
            ch = change(p, sw, c, kw, n)
            x = copy.deepcopy(kw)
            for k, val in ch.items():
                if isinstance(val, dict) and k != 'hod_settings' and k != 'hod_settings_mm' and not (sw and k == 'poisson_params'):
                    x[k].update(val)
                else:
                    x[k] = val
            got = read(Spectra(**x))
            e['ch'] = [[q, verdict(ref[q], got[q])] for q in sorted(ref)]
        except Exception as ex:
            e['err'] = f'{type(ex).__name__}: {str(ex)[:80]}'
        ops.append(e)
    return dict(i=ent['i'], v=ent['v'], cfg=c, ops=ops)


def run(chk):
    global CFGS, SEED
    assert_repo_import()
    fakeemu.install()
    SEED = chk.seed
    env = dict(SEED=chk.seed % 1000, NVAR=4 if chk.thorough else 1)
    r = chk.tlc('InfluenceCheck', 'INIT GInit\nNEXT GNext\nINVARIANTS MustIsMay Separation Export\nCHECK_DEADLOCK FALSE\n', env=env)
    CFGS = r.printed('CFG')
    if not CFGS:
        raise MachineryError('no configurations')
    if not chk.thorough:
        CFGS = [x for x in CFGS if (x['i'] + chk.seed) % 2 == 0]
    traces = pool_map(one, range(len(CFGS)))
    judge(chk, 'InfluenceCheck', traces, [dict(cfg=x['cfg'], seed=chk.seed) for x in CFGS], env=env)
    chk.cov['configurations'] = len(CFGS)
    chk.cov['changes'] = sum(len(t['ops']) for t in traces)
    chk.cov['undetermined'] = sum(1 for t in traces for e in t['ops'] for x in e['ch'] if x[1] == '?')
    for x in CFGS[:3]:
        chk.sample(x['cfg'])
