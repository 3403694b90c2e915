"""C05: objects, clones and caller inputs do not influence each other (spec/Isolation.tla)."""
import copy, hashlib
import numpy as np
from vf import bind_spectra as bs, bind_align, bind_bnl, fakeemu
from vf.common import assert_repo_import, pool_map, judge, MachineryError, canon

DIR = None
S = ['mm', 'gg', 'gm', 'mi', 'ii', 'gi']


def digest(x):
    """Exact content of a value."""
    h = hashlib.sha1()

    def go(c):
        if isinstance(c, np.ndarray):
            h.update(str(c.dtype).encode() + str(c.shape).encode() + np.ascontiguousarray(c).tobytes())
        elif isinstance(c, list):
            h.update(b'[')
            for y in c:
                go(y)
            h.update(b']')
        else:
            h.update(repr(c).encode())
    go(canon(x))
    return h.hexdigest()


def pool(i, r):
    """Caller-owned inputs, variant i."""
    hs = dict(observables_file=None, obs_min=np.array([9., 10.]) - .1 * i, obs_max=np.array([10., 11.]), zmin=np.array([0., .05]),
              zmax=np.array([.3, .4]), nz=3, nobs=20, observable_h_unit='1/h^2')
    hs2 = dict(hs, obs_min=np.array([8.8, 9.7]), obs_max=np.array([10.4, 11.2]))
    mm = dict(hs, obs_min=np.array([8.]), obs_max=np.array([12.]), zmin=np.array([0.]), zmax=np.array([.3]))
    p = dict(hod_settings=hs, hod_settings2=hs2, hod_settings_mm=mm, obs_settings=dict(mm, nobs=15), hod_params=dict(A_cen=.1 * i, g1=3.),
             hod_params2=dict(A_sat=.2), align_params=dict(gamma_2h_amplitude=4. + i, beta_cen=.5, beta_sat=.3, mpivot_cen=13.2, mpivot_sat=13.4,
             central_ia_depends_on='halo_mass', satellite_ia_depends_on='halo_mass'), align_params2=dict(gamma_1h_amplitude=.002),
             poisson_params=dict(poisson=.8), poisson_params2=dict(poisson=1.2), growth_params=dict(dlna=.01 * i),
             k_vec=bs.K.copy(), z_vec=bs.Z.copy(), matter_power_lin=bs.PL * (1 + .1 * i), matter_power_nl=bs.PL * (1 + 4 * bs.K),
             beta_nl=bs._bnl(i), z_out=np.array([.1, .15, .3]), k_out=np.logspace(-1.8, .8, 5), fraction=np.array([.3, .6, .7]), fraction_z=np.array([0., .2, .4]))
    p['zheng'] = dict(log10_Mmin=np.array([11.9, 12.1]) + .1 * i, log10_M0=np.array([11.6, 11.8]), log10_M1=np.array([12.9, 13.2]), sigma=np.array([0., .3]),
                      alpha=np.array([.9, 1.]), A_cen=.1)
    p['norm'], p['eta'] = np.array([1., 1.2]), np.array([.1, 0.])
    p['model_1'] = dict(bs_kwargs(p))
    p['model_2'] = dict(hod_settings=hs2, align_params=dict(gamma_2h_amplitude=3.), sigma_8=.85)
    p['model_2b'] = dict(hod_settings=dict(hs), norm_sat=.7)
    H = bind_align.HALO['b' if i == 1 else 'a']
    p.update({k: v.copy() for k, v in H.items()}, az=bind_align.Z.copy(), mass=np.logspace(11.5, 15, 5))
    m = np.logspace(11, 15, 9)
    p.update(hmass=m, dndlnm=np.outer([1., .8], 1e-2 * (m / 1e12) ** -.9), halo_bias=np.outer([1., 1.1], .7 + (m / 1e13) ** .4))
    return p


def bs_kwargs(p, mode=0):
    kw = dict(k_vec=p['k_vec'], z_vec=p['z_vec'], lnk_min=-8., lnk_max=5., dlnk=.25, Mmin=11., Mmax=15., dlog10m=.5, transfer_model='EH',
              growth_model='GrowthFactor', growth_params=p['growth_params'], hod_settings=p['hod_settings'], hod_settings_mm=p['hod_settings_mm'],
              obs_settings=p['obs_settings'], hod_params=p['hod_params'], align_params=p['align_params'], poisson_params=p['poisson_params'],
              compute_observable=True)
    if mode == 1:
        kw.update(response=True, matter_power_nl=p['matter_power_nl'], matter_power_lin=p['matter_power_lin'])
    elif mode == 2:
        kw.update(nonlinear_mode='bnl', beta_nl=p['beta_nl'])
    elif mode == 3:
        kw.update(hmcode_ingredients='mead2020_feedback', nonlinear_mode='hmcode', response=True, mdef_model='SOVirial')
    elif mode == 4:
        kw.update(nonlinear_mode='bnl', mdef_model='SOCritical')
    elif mode == 5:
        kw.update(hod_model='Zheng', hod_params=p['zheng'], norm_cen=p['norm'], norm_sat=p['norm'], eta_cen=p['eta'])
    return kw


def new(k, p, base, r):
    if k == 'S':
        from onepower import Spectra
        return Spectra(**bs_kwargs(p, int(r.randint(6))))
    if k in 'UV':
        from onepower.add import UpsampledSpectra
        two = r.rand() < .8
        kw = dict(z=p['z_out'], k=p['k_out'], fraction_z=p['fraction_z'], fraction=p['fraction'], model_2_params=p['model_2'] if two else None)
        if two and r.rand() < .2:
            kw['model_2_params'] = {}      # a second population like the first, but an object of its own
        if r.rand() < .5:              # output on the grids of the model itself
            kw.update(z=p['z_vec'], k=p['k_vec'])
        return UpsampledSpectra(model=base, model_1_params=p['model_1'], **kw)
    if k == 'A':
        from onepower.ia import SatelliteAlignment
        return SatelliteAlignment(z_vec=p['az'], mass_in=p['mass_in'], c_in=p['c_in'], r_s_in=p['r_s_in'], rvir_in=p['rvir_in'], nmass=4, nk=6,
                                  n_hankel=40, ell_max=4, method=str(r.choice(['hankel', 'fftlog'])))
    if k == 'B':
        from onepower.bnl import NonLinearBias
        return NonLinearBias(mass=p['mass'], z_vec=p['z_vec'], k_vec=p['k_vec'], z_dep=bool(r.rand() < .5), omega_lambda=.7, n_s=.96)
    from onepower import hod
    from astropy.cosmology import FlatLambdaCDM
    m = str(r.choice(['Cacciato', 'Zheng', 'Zhai', 'Simple', 'Zehavi']))
    kw = dict(p['hod_params']) if m == 'Cacciato' else dict(p['zheng']) if m == 'Zheng' else dict(A_cen=.1)
    return getattr(hod, m)(cosmo=FlatLambdaCDM(H0=70, Om0=.3), mass=p['hmass'], dndlnm=p['dndlnm'], halo_bias=p['halo_bias'], z_vec=p['z_vec'],
                           hod_settings=p['hod_settings'], **kw)


def change(k, c, p, cur):
    """Keyword arguments of update c for kind k.  Every one is a real change of the object (value different from cur)."""
    t = 1 + .01 * cur
    if k == 'S':
        return [dict(sigma_8=.8 * t), dict(hod_settings=p['hod_settings2'], norm_sat=t), dict(align_params=p['align_params2'], eta_sat=.1 * t),
                dict(hod_params=p['hod_params2'], poisson_params=p['poisson_params2'], omega_c=.25 * t),
                dict(z_vec=bs.Z2.copy(), h0=.7 * t, matter_power_lin=p['matter_power_lin']), dict(mb=1e13 * t, one_halo_ktrunc=.1 * t, pointmass=True)][c - 1]
    if k in 'UV':
        return [dict(fraction=p['fraction'] * .9 * t / (1 + t)), dict(z=p['z_out'] * t), dict(_model_2_params=dict(p['model_2b'], eta_sat=.1 * t)),
                dict(_model_2_params=dict(sigma_8=.8 * t)), dict(k=p['k_out'] * t), dict(extrapolate_option=0. + t, fraction_z=p['fraction_z'])][c - 1]
    if k == 'A':
        return [dict(gamma_1h_amplitude=.0015 * t), dict(method='hankel', beta_cen=.4 * t), dict(gamma_2h_amplitude=4. * t), dict(gamma_1h_slope=-1.5 * t),
                dict(rvir_in=p['rvir_in'], gamma_1h_amplitude=.002 * t), dict(truncate=True, beta_sat=.3 * t)][c - 1]
    return [dict(sigma_8=.8 * t), dict(A_s=2e-9 * t), dict(omega_c=.24 * t), dict(mass=p['mass'] * t), dict(n_s=.95 * t), dict(z_dep=True, w0=-.95 * t)][c - 1]


GR = {
    'S': [['power_spectrum_' + s for s in S] + ['mass', 'dndlnm', 'u_dm'],
          ['power_spectrum_mm', 'power_spectrum_lin', 'power', 'nonlinear_power', 'peff', 'halo_bias', 'mdef_params'],
          ['power_spectrum_ii', 'power_spectrum_gg', 'hod_cen', 'hod_nc', 'hod_f_c', 'obs_func', 'fstar', 'poisson_func', 'conc_sat'],
          ['power_spectrum_gi', 'power_spectrum_gm', 'alignment_amplitude_2h', 'mass_avg', 'u_sat', 'power_spectrum_mm', 'cosmo_model']],
    'A': [['alignment_gi', 'wkm_f_ell', 'mass'], ['wkm'], ['up'], ['compute_uell_gamma_r_hankel', 'c', 'r_s', 'gamma_1h_amp']],
    'B': [['bnl'], ['emu'], ['bnl', 'emu'], ['minimum_halo_mass', 'bnl']],
    'H': [['hod_cen', 'hod_sat', 'hod'], ['number_density', 'f_c', 'f_s'], ['stellar_fraction', 'galaxy_linear_bias'], ['avg_halo_mass_cen', 'number_density_cen']],
}


def read(k, o, g):
    out = []
    if k in 'UV':
        m = [S, ['gg', 'mm'], ['ii', 'gi', 'mi'], ['gm']][g - 1]
        o.results(m, ['1h', '2h', 'tot'])
        for s in m:
            out.append(('u_' + s, getattr(o, 'power_spectrum_' + s)))
        return out + [('frac', o.frac_1)]
    for q in GR[k][g - 1]:
        if q.startswith('hod_') and k == 'S':
            r = getattr(o.hod, {'hod_cen': 'hod_cen', 'hod_nc': 'number_density_cen', 'hod_f_c': 'f_c'}[q])
        elif q == 'emu':
            r = np.array(o.emulator.c)
        elif q == 'up':
            r = o.upsampled_wkm(bind_align.KOUT, o.mass)
        else:
            r = getattr(o, q)
        out.append((q, r))
    return out


def parts(x):
    """The arrays contained in a handed-out value (by reference)."""
    if isinstance(x, np.ndarray):
        return [x]
    if hasattr(x, 'pk_tot'):
        return [a for a in (x.pk_1h, x.pk_2h, x.pk_tot, getattr(x, 'galaxy_linear_bias', None)) if isinstance(a, np.ndarray)]
    if isinstance(x, (tuple, list)):
        return [a for y in x for a in parts(y)]
    if isinstance(x, dict):
        return [x]
    return []


def params(k, o):
    if k == 'H':
        return digest([o.hod_settings if hasattr(o, 'hod_settings') else None, o.params if hasattr(o, 'params') else None])
    pv = o.parameter_values
    pv = {n: v for n, v in pv.items() if n not in ('model', 'emulator')}
    return digest(pv)


def one(job):
    j, plan, seed = job
    fakeemu.install()
    r = np.random.RandomState(seed * 7 + j)
    P = {i: pool(i, r) for i in (1, 2)}
    names = [f'{n}#{i}' for i in (1, 2) for n in P[i]]
    ids = {}

    def num(d):
        return ids.setdefault(d, len(ids) + 1)

    def inputs():
        return [num(digest(P[i][n])) for i in (1, 2) for n in P[i]]
    objs, kinds, pools, nup = {}, {}, {}, 0
    hand, hn = [], []
    ins0 = inputs()
    ops = []
    dead = False
    for op in plan['ops']:
        e = dict(op=op, err='', obs=[], what='')
        try:
            if op[0] == 'new':
                objs[op[1]] = new(op[2], P[op[4]], objs.get(op[3]), r)
                kinds[op[1]], pools[op[1]] = op[2], op[4]
            elif op[0] == 'clone':
                objs[op[2]] = objs[op[1]].clone()
                kinds[op[2]], pools[op[2]] = 'V' if kinds[op[1]] == 'U' else kinds[op[1]], pools[op[1]]
            elif op[0] == 'update':
                nup += 1
                objs[op[1]].update(**change(kinds[op[1]], op[2], P[pools[op[1]]], nup))
            elif op[0] == 'component':
                nup += 1
                c = objs[op[1]].power_2
                if c is not None:
                    c.update(**change('S', op[2], P[pools[op[1]]], nup))
            else:
                got = read(kinds[op[1]], objs[op[1]], op[2])
                e['obs'] = [[q, num(digest(v))] for q, v in got]
                for q, v in got:
                    for a in parts(v):
                        if len(hand) < 80:
                            hand.append(a)
                            hn.append(q)
        except Exception as ex:
            e['err'] = f'{type(ex).__name__}: {str(ex)[:100]}'
            dead = True
        e['pars'] = [num(params(kinds[o], objs[o])) for o in sorted(objs)]
        e['ins'] = inputs()
        e['hand'] = [num(digest(a)) for a in hand]
        ops.append(e)
        if dead:
            break
    return dict(ops=ops, ins=ins0, names=names, hnames=hn)


def run(chk):
    fakeemu.install()
    assert_repo_import()
    depth = 22 if chk.thorough else 14
    num = 800 if chk.thorough else 180
    cst = 'CONSTANTS MaxObj = 5\n MaxVer = 40\n'
    r = chk.tlc('IsolationGen', 'SPECIFICATION Spec\nINVARIANTS VersionsShared Emit\nPROPERTY OnlySubject\nCHECK_DEADLOCK FALSE\n' + cst,
                env=dict(DEPTH=depth), args=['-simulate', f'num={num}', '-depth', str(depth + 3), '-seed', str(chk.seed * 31 + 5)], workers=1)
    plans = r.printed('PLAN')
    if not plans:
        raise MachineryError('no plans')
    traces = pool_map(one, [(j, p, chk.seed) for j, p in enumerate(plans)])
    judge(chk, 'IsolationTrace', traces, plans, cfg=cst)
    for p in plans[:2]:
        chk.sample(p)
