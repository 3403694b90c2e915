"""C22: halo ingredients are those of the library with the selected models and cosmology (spec/Ingredients.tla)."""
import copy, json, zlib
import numpy as np
from scipy.integrate import solve_ivp
from vf.expr import Eval, share, event, safely, compose
from vf.common import assert_repo_import

SEED = 1
AX = 'yzkhM'
OUT = dict(mass='M', power='zh', nonlinear_power='zh', kh='h', fnu='z', omega_m='', nfw_cen='zkM', nfw_sat='zkM', u_dm='zkM', u_sat='zkM')
OUT.update({q: 'zM' for q in ('nu', 'dndlnm', 'halo_bias', 'conc_cen', 'conc_sat', 'r_s_cen', 'r_s_sat', 'rvir_cen', 'rvir_sat')})


def cosmology(p):
    from astropy.cosmology import Flatw0waCDM
    from astropy import units as u
    return Flatw0waCDM(H0=100. * p['h0'], Om0=p['omega_c'] + p['omega_b'], Ob0=p['omega_b'], Neff=p['Neff'], m_nu=[0., 0., p['m_nu']] * u.eV,
                       Tcmb0=p['tcmb'], w0=p['w0'], wa=p['wa'])


def growth(p, Om, z):
    """Linear growth and accumulated growth of a flat universe of matter and dark energy (no radiation), normalised to a early on."""
    de = lambda a: a ** (-3 * (1 + p['w0'] + p['wa'])) * np.exp(-3 * p['wa'] * (1 - a))
    w = lambda a: p['w0'] + p['wa'] * (1 - a)
    H2 = lambda a: Om * a ** -3 + (1 - Om) * de(a)
    AH = lambda a: -.5 * (Om * a ** -3 + (1 + 3 * w(a)) * (1 - Om) * de(a))

    def f(x, y):                      # in ln a: d, d' = dd/dlna, G
        a = np.exp(x)
        d, v, G = y
        return [v, -(1 + AH(a) / H2(a)) * v + 1.5 * Om * a ** -3 / H2(a) * d, d]
    a0 = 1e-4
    s = solve_ivp(f, (np.log(a0), 0.), [a0, a0, a0], rtol=1e-9, atol=1e-14, dense_output=True)
    y = s.sol(np.log(1 / (1 + z)))
    return y[0], y[2]


def observe(ent, variant):
    import halomod.concentration as cc
    from halomod.concentration import interp_concentration, make_colossus_cm
    from halomod.halo_model import DMHaloModel
    from onepower.hmi import HaloModelIngredients
    from onepower.pk import Spectra
    c = ent['cfg']
    r = np.random.RandomState((zlib.crc32(repr(sorted(c.items())).encode()) + 7919 * variant + 104729 * SEED) % 2 ** 31)
    u = lambda a, b: float(r.uniform(a, b))
    nz = int(r.choice([1, 2, 3]))
    z = np.sort(np.round(r.uniform(0., 1.5 if r.rand() < .7 else 6., nz), 3))
    if r.rand() < .3:
        z[0] = 0.
    if r.rand() < .3:
        z = z[::-1].copy()
    kt, zt = np.logspace(-4, 3, 80), np.linspace(0, 7, 140)
    tr = str(r.choice(['EH', 'EH_NoBAO', 'BBKS', 'FromArray']))
    gr = str(r.choice(['GrowthFactor', 'FromArray', 'Carroll1992', 'GenMFGrowth'][:3]))
    perz = lambda a, b: r.uniform(a, b, nz) if r.rand() < .3 else u(a, b)
    p = dict(h0=u(.62, .76), omega_c=u(.2, .3), omega_b=u(.04, .055), Neff=u(3.01, 3.3), m_nu=u(.02, .3), tcmb=u(2.6, 2.8), w0=u(-1.2, -.8), wa=u(-.4, .4),
             sigma_8=u(.7, .9), n_s=u(.92, 1.), log10T_AGN=u(7.3, 8.3) if r.rand() < .6 else u(6.6, 9.), lnk_min=u(-10, -8.5), lnk_max=u(5., 7.), dlnk=u(.08, .15), Mmin=u(10.5, 11.5), Mmax=u(14.6, 15.4),
             dlog10m=u(.3, .6), transfer_model=tr, growth_model=gr, transfer_params=dict(k=kt, T=1 / (1 + (kt / u(.04, .06)) ** 1.8)) if tr == 'FromArray' else {},
             growth_params=dict(z=zt, d=1 / (1 + zt) ** u(.85, 1.)) if gr == 'FromArray' else {}, overdensity=u(150, 400), delta_c=u(1.6, 1.75),
             norm_cen=perz(.7, 1.3), norm_sat=perz(.7, 1.3), eta_cen=perz(-.2, .3), eta_sat=perz(-.2, .3), k_vec=np.logspace(u(-3, -2), u(.5, 1.5), int(r.choice([3, 4]))),
             hmf_model=str(r.choice(['Tinker10', 'Tinker08', 'SMT', 'PS', 'Jenkins', 'Warren'])), bias_model=str(r.choice(['Tinker10', 'Tinker05', 'SMT01', 'ST99', 'Mo96'])),
             prof_cen=str(r.choice(['NFW', 'Hernquist'])), prof_sat=str(r.choice(['NFW', 'Hernquist'])),
             cm_cen=str(r.choice(['Duffy08', 'Bullock01', 'Ludlow16Empirical', 'diemer19', 'duffy08'])), cm_sat=str(r.choice(['Duffy08', 'Bullock01', 'Ludlow16Empirical', 'klypin11', 'duffy08'])))
    if r.rand() < .4:                 # values at which a code would have a shortcut
        for k, v in dict(m_nu=0., w0=-1., wa=0., n_s=1., norm_cen=1., norm_sat=1., eta_cen=0., eta_sat=0., Neff=3.046, overdensity=200.).items():
            if r.rand() < .4:
                p[k] = v
    user = {k: copy.deepcopy(v) for k, v in p.items() if not k.startswith(('prof_', 'cm_'))}
    user.update(z_vec=z.copy(), mdef_model=c['mdef'], hmcode_ingredients=None if c['ingr'] == 'None' else c['ingr'], halo_profile_model_dm=p['prof_cen'],
                halo_profile_model_sat=p['prof_sat'], halo_concentration_model_dm=p['cm_cen'], halo_concentration_model_sat=p['cm_sat'])
    if r.rand() < .3:                 # leave some to their documented defaults
        dflt = dict(w0=-1., wa=0., tcmb=2.7255, Neff=3.044, norm_cen=1., norm_sat=1., eta_cen=0., eta_sat=0., overdensity=200., delta_c=1.686, hmf_model='Tinker10',
                    bias_model='Tinker10', cm_cen='Duffy08', cm_sat='Duffy08', prof_cen='NFW', prof_sat='NFW', log10T_AGN=7.8)
        names = dict(cm_cen='halo_concentration_model_dm', cm_sat='halo_concentration_model_sat', prof_cen='halo_profile_model_dm', prof_sat='halo_profile_model_sat')
        for k, v in dflt.items():
            if r.rand() < .5:
                p[k] = v
                user.pop(names.get(k, k), None)
    cls = Spectra if c['cls'] == 'spectra' else HaloModelIngredients
    if r.rand() < .4:                 # arrive at these parameters by an update
        start = dict(z_vec=np.array([.3]), transfer_model='EH', growth_model='GrowthFactor', dlog10m=.5, Mmin=11., Mmax=15., dlnk=.2, k_vec=np.logspace(-1, 1, 3),
                     hmcode_ingredients=str(r.choice(['mead2020', 'fit'])), mdef_model='SOCritical')

        def build():
            o = cls(**start)
            o.dndlnm, o.u_sat
            o.update(**{**{k: copy.deepcopy(v) for k, v in user.items()}})
            return o
        obj, err = safely(build)
    else:
        obj, err = safely(lambda: cls(**copy.deepcopy(user)))
    cosmo = cosmology(p)
    g = G = np.ones(nz)
    mg = mG = None
    if not err:
        (g, e1), (G, e2) = safely(lambda: np.array(obj.get_mead_growth, float)), safely(lambda: np.array(obj.get_mead_accumulated_growth, float))
        err = e1 or e2
        if err:
            g = G = np.ones(nz)
    mg, mG = growth(p, cosmo.Om0 + cosmo.Onu0, z)
    full = lambda v: np.broadcast_to(np.asarray(v, float), (nz,))
    zl = {'z': z, 'Om(z)': np.array(cosmo.Om(z), float), 'Onu(z)': np.array(cosmo.Onu(z), float), 'g': g, 'G': G, 'mead_g': mg, 'mead_G': mG}
    memo = {}

    def leaf(q):
        if q in zl:
            return 'z', zl[q]
        if q in ('norm_cen', 'norm_sat', 'eta_cen', 'eta_sat'):
            return 'z', full(p[q])
        if q == 'k_vec':
            return 'k', p[q]
        if q in ('Om0', 'Onu0'):
            return '', float(getattr(cosmo, q))
        return '', p[q]

    def model(iz, s):
        key = (iz, json.dumps({k: (v if isinstance(v, (str, float)) else id(v)) for k, v in s.items()}, sort_keys=True))
        if key not in memo:
            cm = s['concentration']
            kw = dict(z=s['z'], **{k: s[k] for k in ('lnk_min', 'lnk_max', 'dlnk', 'Mmin', 'Mmax', 'dlog10m', 'sigma_8', 'transfer_model', 'growth_model', 'hmf_model', 'bias_model',
                                                     'delta_c', 'mdef_model')},
                      n=s['n_s'], transfer_params=dict(s['transfer_params']), growth_params=dict(s['growth_params']), cosmo_model=cosmology(s),
                      halo_profile_model=s['profile'], halo_profile_params=dict(cosmo=cosmology(s), **({'eta_bloat': s['eta']} if 'eta' in s else {})),
                      halo_concentration_model=interp_concentration(getattr(cc, cm) if hasattr(cc, cm) else make_colossus_cm(cm)),
                      halo_concentration_params=dict(norm=s['norm'], **({'K': s['K']} if 'K' in s else {})), disable_mass_conversion=s['convert_mass'] == 'no',
                      mdef_params={'overdensity': s['overdensity']} if 'overdensity' in s else {})
            memo[key] = DMHaloModel(**kw)
        return memo[key]

    def lib(ev, e):
        attr = e['n'].split()[3]
        axes = e['n'].split()[1]
        rows = []
        for iz in range(nz):
            s = {}
            for x in e['a']:
                src = x['a'][0]
                if src['op'] == 'text':
                    s[x['n']] = src['n']
                elif src['op'] == 'leaf' and leaf(src['n'])[0] == '':
                    s[x['n']] = leaf(src['n'])[1]
                elif x['n'] == 'k_vec':
                    s['k_vec'] = p['k_vec']
                else:
                    v = np.moveaxis(ev.ev(src), ev.n['z'], 0).reshape(-1)
                    s[x['n']] = float(v[iz] if v.size > 1 else v[0])
            k = s.pop('k_vec', None)
            m = model(iz, s)
            v = (m.halo_profile.u(k, m.m) if attr == 'u' else m.halo_profile._rs_from_m(m.m) if attr == 'r_s' else
                 m.halo_profile.halo_mass_to_radius(m.m) if attr == 'rvir' else m.growth.growth_factor(s['z']) if attr == 'growth_factor' else getattr(m, attr))
            v = np.asarray(v, float)
            rows.append(v.reshape(()) if v.size == 1 and axes == 'z' else v)
        a = np.array(rows) if 'z' in axes else np.array(rows[0])
        out = axes if 'z' in axes else axes
        sh = [1] * len(AX)
        order = sorted(range(len(out)), key=lambda j: ev.n[out[j]])
        a = a.transpose(order)
        for j, o in enumerate(order):
            sh[ev.n[out[o]]] = a.shape[j]
        return a.reshape(sh)
    ev = Eval(AX, leaf, via={'lib': lib})
    pool = {}
    evs = []
    order = sorted(ent['terms'])
    r.shuffle(order)
    for q in order:
        t = share(ent['terms'][q], pool)
        v, er = (None, err) if err else safely(lambda: np.array(getattr(obj, q), float))
        out = OUT.get(q, 'z')
        if q == 'fnu':
            evs.append(event(q, v, lambda: ev.value(t, ''), er))
        else:
            tol = 4e-3 if q.startswith('get_mead') else 1e-7
            evs.append(event(q, v, lambda: ev.value(t, out), er, rtol=tol))
        if v is not None and q != 'omega_m':
            n = dict(z=nz, k=len(p['k_vec'])).get(out[:1])
            if n and v.shape[:1] != (n,):
                evs[-1]['obs'], evs[-1]['what'] = 2, f'shape {v.shape}'
    return evs


def run(chk):
    global SEED
    assert_repo_import()
    import warnings
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    SEED = chk.seed
    compose(chk, 'IngredientsCheck', 'Ing', observe, 60 if chk.thorough else 14)
    chk.assumptions += ['halo library (hmf, halomod, colossus) and astropy are taken as given', 'growth ODE solved to 4e-3']
