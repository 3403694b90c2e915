"""Evaluation of the expression trees of spec/HaloModel.tla with leaves taken from the public ingredients of the real
code, and comparison with the spectra of the real code."""
import copy, json
import numpy as np
from scipy.integrate import simpson, trapezoid
from scipy.interpolate import interp1d
from scipy.ndimage import gaussian_filter1d

AX = ('b', 'z', 'k', 'M', 'N')
NAX = {a: i for i, a in enumerate(AX)}
MODELS = ['Zheng', 'Zhai', 'Simple', 'Zehavi']


# ------------------------------------------------------------------ concrete inputs
def numbers(seed, idx):
    """A random concrete point: cosmology, grids, samples and parameters."""
    r = np.random.RandomState((seed * 7919 + idx * 104729) % (2 ** 31))
    nz, nk, nb = r.choice([2, 3]), r.choice([5, 6, 7]), r.choice([1, 2, 3])
    z = np.sort(np.round(r.uniform(0.0, 0.6, nz), 3))
    while np.min(np.diff(z)) < .04:
        z = np.sort(np.round(r.uniform(0.0, 0.6, nz), 3))
    k = np.logspace(r.uniform(-2.6, -2.0), r.uniform(.5, 1.3), nk)
    if (seed + idx) % 3 == 0:
        # fine enough for the smoothing in wavenumber to matter
        k = np.logspace(r.uniform(-2.2, -1.9), r.uniform(.2, .6), 20)
    n = dict(seed=seed, idx=idx, z=z, k=k, nb=int(nb))
    n['kw'] = dict(
        z_vec=z, k_vec=k, lnk_min=-8., lnk_max=5., dlnk=.25, Mmin=r.choice([10.5, 11.]), Mmax=r.choice([15., 15.2]),
        dlog10m=r.choice([.2, .25]), transfer_model='EH', growth_model='GrowthFactor',
        h0=r.uniform(.62, .78), omega_c=r.uniform(.2, .3), omega_b=r.uniform(.04, .06), n_s=r.uniform(.9, 1.),
        sigma_8=r.uniform(.7, .9), w0=r.choice([-1., -.9]), wa=r.choice([0., .2]), m_nu=r.choice([0.06, .2]),
        log10T_AGN=r.uniform(7.5, 8.1),
        norm_cen=r.uniform(.8, 1.2), norm_sat=r.uniform(.6, 1.2), eta_cen=r.uniform(0., .2), eta_sat=r.uniform(0., .2),
        mb=10 ** r.uniform(13., 14.2), one_halo_ktrunc=r.uniform(.05, .3), two_halo_ktrunc=r.uniform(1., 3.),
        one_halo_ktrunc_ia=r.uniform(2., 5.), two_halo_ktrunc_ia=r.uniform(3., 8.), t_eff=r.choice([0., .25, .6]))
    q = np.random.RandomState((seed * 6007 + idx * 15485863) % (2 ** 31))
    if q.rand() < .4:
        # values at which a code would have a shortcut
        for p, v in dict(m_nu=0., w0=-1., wa=0., n_s=1., norm_cen=1., norm_sat=1., eta_cen=0., eta_sat=0., t_eff=0.).items():
            if q.rand() < .4:
                n['kw'][p] = v
    if q.rand() < .4:
        # other mass functions and biases; with some the halos hold more than the mean density, and the rest is negative
        n['kw'].update(hmf_model=str(q.choice(['Tinker10', 'Tinker08', 'SMT', 'PS'])), bias_model=str(q.choice(['Seljak04', 'SMT01', 'Mo96', 'Tinker05'])))
        if q.rand() < .5:
            n['z'] = z = z + .6
            n['kw'].update(z_vec=z, sigma_8=q.uniform(.75, 1.1))
            n['up'] = .6
    elif q.rand() < .3:
        # so early that the stars of the feedback model outweigh the baryons
        n['z'] = z = z + 2.3
        n['kw'].update(z_vec=z, sigma_8=q.uniform(.9, 1.1))
        n['up'] = 2.3
    if q.rand() < .3:
        n['kw'].update(t_eff=q.choice([1., 1.4, -.2]), eta_cen=q.uniform(-.3, .3), eta_sat=q.uniform(-.3, .3), log10T_AGN=q.uniform(7., 8.6))
    lo = np.sort(r.uniform(8.8, 10.2, nb))
    zl = r.uniform(0., .1, nb)
    zl = zl + n.get('up', 0.)
    n['hod_settings'] = dict(observables_file=None, obs_min=lo, obs_max=lo + r.uniform(.5, 1.2, nb), zmin=zl,
                             zmax=zl + r.uniform(.3, .7, nb), nz=int(r.choice([3, 4])), nobs=20,
                             observable_h_unit=str(r.choice(['1/h', '1/h^2'])))
    n['hod_settings_mm'] = dict(observables_file=None, obs_min=np.array([r.uniform(7.5, 8.5)]), obs_max=np.array([12.]),
                                zmin=np.array([0.]), zmax=np.array([.7 + n.get('up', 0.)]), nz=3, nobs=20, observable_h_unit='1/h^2')
    n['zhod'] = str(r.choice(MODELS))
    n['zparams'] = dict(log10_Mmin=list(r.uniform(11.6, 12.6, nb)))
    n['cparams'] = dict(A_cen=r.uniform(0., .3), A_sat=r.uniform(0., .3), log10_m_ch=r.uniform(11., 11.4))
    n['pois'] = dict(constant=dict(poisson=r.uniform(.6, 1.4)),
                     power_law=dict(poisson=r.uniform(.6, 1.4), pivot=r.uniform(11.5, 13.), slope=r.uniform(-.2, .3)))
    n['align'] = dict(gamma_2h_amplitude=r.uniform(3., 6.), gamma_1h_amplitude=r.uniform(.0008, .002),
                      gamma_1h_slope=float(r.choice([-2., -1.5])))
    n['beta_cen'], n['beta_sat'] = r.uniform(.2, .7), r.uniform(.2, .7)
    n['mp_cen'], n['mp_sat'] = r.uniform(13., 13.8), r.uniform(13., 13.8)
    pl = r.uniform(800, 1500) * np.outer(1 / (1 + z), k / (1 + (k / .02) ** 2.4))
    n['plin'], n['pnl'] = pl, pl * (1 + r.uniform(3, 7) * k)
    n['rbeta'] = int(r.randint(1 << 30))
    # the whole range of signs and sizes
    if q.rand() < .5:
        n['cparams'].update(A_cen=q.choice([-1., 1., q.uniform(-1, 1)]), A_sat=q.choice([-.95, 1., q.uniform(-1, 1)]))
    if q.rand() < .3:
        n['cparams'].update(log10_obs_norm_c=q.uniform(10.3, 11.3))         # more stars than baryons in some halos
    if q.rand() < .5:
        n['align'].update(gamma_2h_amplitude=-n['align']['gamma_2h_amplitude'])
    if q.rand() < .5:
        n['align'].update(gamma_1h_amplitude=-n['align']['gamma_1h_amplitude'])
    if q.rand() < .5:
        n['beta_cen'], n['beta_sat'] = q.uniform(-1, 1), q.uniform(-1, 1)
    n['abeta'] = q.choice([1., 20.])
    if q.rand() < .35:
        # wavenumbers beyond the table of the linear power on one side or on both: continued along the last two points
        side = q.choice(['lo', 'hi', 'both'])
        if side != 'hi':
            n['kw']['lnk_min'] = float(np.log(k[0]) + q.uniform(.1, .5))
        if side != 'lo':
            n['kw']['lnk_max'] = float(np.log(k[-1]) - q.uniform(.1, .5))
    return n


def beta_of(n, nm):
    r = np.random.RandomState(n['rbeta'])
    b = n['abeta'] * r.uniform(-.05, .15, (len(n['z']), len(n['k']), nm, nm))
    return b + b.transpose(0, 1, 3, 2)


def nmass(kw):
    return len(np.arange(kw['Mmin'], kw['Mmax'], kw['dlog10m']))


def nn(x):
    return None if x == 'None' else x


def build_kwargs(c, n, beta='own'):
    """Constructor arguments of the real model for configuration c (spec/HaloModelCheck) at the concrete point n."""
    kw = copy.deepcopy(n['kw'])
    kw.update(nonlinear_mode=nn(c['nl']), hmcode_ingredients=nn(c['ing']), response=c['resp'] == 'T', pointmass=c['pm'] == 'T',
              dewiggle=c['dw'] == 'T')
    for f, p in (('t1', 'one_halo_ktrunc'), ('t2', 'two_halo_ktrunc'), ('t1i', 'one_halo_ktrunc_ia'), ('t2i', 'two_halo_ktrunc_ia')):
        if c[f] == 'F':
            kw[p] = None
    al = dict(n['align'])
    al.update(beta_cen=n['beta_cen'] if c['bc'] == 'T' else None, beta_sat=n['beta_sat'] if c['bs'] == 'T' else None)
    # with no mass scaling the amplitude has to be the constant law
    al.update(mpivot_cen=n['mp_cen'], mpivot_sat=n['mp_sat'],
              central_ia_depends_on='halo_mass' if c['bc'] == 'T' else 'constant',
              satellite_ia_depends_on='halo_mass' if c['bs'] == 'T' else 'constant')
    kw.update(align_params=al, poisson_model=c['pois'], poisson_params=dict(n['pois'][c['pois']]))
    kw.update(hod_settings=copy.deepcopy(n['hod_settings']), hod_settings_mm=copy.deepcopy(n['hod_settings_mm']),
              hod_model='Cacciato' if c['hod'] == 'Cacciato' else n['zhod'],
              hod_params=dict(n['cparams'] if c['hod'] == 'Cacciato' else n['zparams']))
    if c['plin'] == 'T':
        kw['matter_power_lin'] = n['plin'].copy()
    if c['pnl'] == 'T':
        kw['matter_power_nl'] = n['pnl'].copy()
    if c['nl'] == 'bnl':
        kw['beta_nl'] = beta_of(n, nmass(kw)) if isinstance(beta, str) else beta
    return kw


# ------------------------------------------------------------------ leaves
class Leaves:
    """Leaves computed from the public ingredients of a separate object with the same parameters, and from separately
    built occupation and alignment objects."""

    def __init__(self, c, n, kw):
        from onepower import Spectra
        import onepower.hod as hodmod
        self.c, self.n, self.kw = c, n, kw
        ikw = {k: v for k, v in kw.items() if k not in ('nonlinear_mode', 'dewiggle', 'response', 'pointmass', 'beta_nl',
               'matter_power_lin', 'matter_power_nl', 'mb', 'one_halo_ktrunc', 'two_halo_ktrunc', 'one_halo_ktrunc_ia',
               'two_halo_ktrunc_ia', 't_eff', 'align_params', 'poisson_model', 'poisson_params', 'hod_settings',
               'hod_settings_mm', 'hod_model', 'hod_params')}
        from onepower.hmi import HaloModelIngredients
        self.i = HaloModelIngredients(**copy.deepcopy(ikw))
        self.H = getattr(hodmod, kw['hod_model'])
        self.hodmod = hodmod
        self.memo = {}

    def hod(self, settings='hod_settings'):
        if settings not in self.memo:
            i = self.i
            H = self.H if settings == 'hod_settings' else self.hodmod.Cacciato
            par = self.kw['hod_params'] if H is self.H else self.n['cparams']
            self.memo[settings] = H(cosmo=i.cosmo_model, mass=i.mass, dndlnm=i.dndlnm, halo_bias=i.halo_bias, z_vec=self.n['z'],
                                    hod_settings=copy.deepcopy(self.kw[settings]), **copy.deepcopy(par))
        return self.memo[settings]

    def align(self):
        if 'al' not in self.memo:
            from onepower.ia import SatelliteAlignment
            i = self.i
            self.memo['al'] = SatelliteAlignment(z_vec=self.n['z'], mass_in=i.mass, c_in=i.conc_cen, r_s_in=i.r_s_cen,
                                                 rvir_in=i.rvir_cen[0], method='fftlog', **copy.deepcopy(self.kw['align_params']))
        return self.memo['al']

    def __call__(self, name):
        if name not in self.memo:
            axes, v = self.get(name)
            a = np.asarray(v, float)
            want = [x for x in axes]
            if a.ndim != len(want):
                raise ValueError(f'leaf {name}: shape {a.shape} for axes {axes}')
            shape = [1] * 5
            for ax, s in zip(want, a.shape):
                shape[NAX[ax]] = s
            self.memo[name] = a.reshape(shape)
        return self.memo[name]

    def get(self, name):
        i, n, kw = self.i, self.n, self.kw
        if name == 'k':
            return 'k', n['k']
        if name == 'z':
            return 'z', n['z']
        if name in ('plin0', 'pnl0'):
            given = kw.get('matter_power_lin' if name == 'plin0' else 'matter_power_nl')
            if given is not None:
                return 'zk', n['plin' if name == 'plin0' else 'pnl']
            tab = i.power if name == 'plin0' else i.nonlinear_power
            return 'zk', np.array([interp1d(i.kh, tab[j], fill_value='extrapolate', bounds_error=False)(n['k'])
                                   for j in range(len(n['z']))])
        if name == 'nowiggle':
            from hmf.density_field.transfer_models import EH_NoBAO
            return 'k', n['k'] ** kw['n_s'] * np.exp(EH_NoBAO(i.cosmo_model).lnt(np.log(n['k']))) ** 2
        if name == 'M':
            return 'M', i.mass
        if name == 'm0':
            return '', i.mass[0]
        if name in ('dn', 'bias'):
            return 'zM', i.dndlnm if name == 'dn' else i.halo_bias
        if name in ('udm', 'usat'):
            return 'zkM', i.u_dm if name == 'udm' else i.u_sat
        if name in ('rho', 'D', 's8z', 'neff'):
            return 'z', {'rho': i.mean_density0, 'D': i.growth_factor, 's8z': i.sigma8_z, 'neff': i.neff}[name]
        if name == 'Oc':
            return '', kw['omega_c']
        if name == 'Ob':
            return '', kw['omega_b']
        if name == 'theta':
            return '', kw['log10T_AGN'] - 7.8
        if name == 'mb':
            return '', kw['mb']
        if name == 'beta':
            return 'zkMN', kw['beta_nl']
        if name in ('Nc', 'Ns', 'fstar'):
            return 'bzM', {'Nc': 'hod_cen', 'Ns': 'hod_sat', 'fstar': 'stellar_fraction'}[name] and \
                getattr(self.hod(), {'Nc': 'hod_cen', 'Ns': 'hod_sat', 'fstar': 'stellar_fraction'}[name])
        if name == 'fstar_mm':
            if self.c['hod'] != 'Cacciato':
                return 'zM', np.zeros((len(n['z']), i.mass.size))
            return 'zM', self.hod('hod_settings_mm').stellar_fraction[0]
        if name in ('nc', 'ns', 'fc', 'fs'):
            return 'bz', getattr(self.hod(), {'nc': 'number_density_cen', 'ns': 'number_density_sat', 'fc': 'f_c', 'fs': 'f_s'}[name])
        if name == 'Mavg':
            return 'bz', self.hod().avg_halo_mass_cen / self.hod().number_density
        if name in ('p', 'ppivot', 'pslope'):
            return '', kw['poisson_params'][{'p': 'poisson', 'ppivot': 'pivot', 'pslope': 'slope'}[name]]
        if name in ('k1', 'k1ia', 'k2ia'):
            return '', kw[{'k1': 'one_halo_ktrunc', 'k1ia': 'one_halo_ktrunc_ia', 'k2ia': 'two_halo_ktrunc_ia'}[name]]
        if name == 't_eff':
            return '', kw['t_eff']
        if name == 'Agi':
            return 'z', self.align().alignment_gi
        if name == 'wkm':
            return 'zkM', self.align().upsampled_wkm(n['k'], i.mass).transpose(0, 2, 1)
        if name in ('bcen', 'bsat'):
            return '', n['beta_cen' if name == 'bcen' else 'beta_sat']
        if name in ('mpcen', 'mpsat'):
            return '', 10.0 ** n['mp_cen' if name == 'mpcen' else 'mp_sat']
        raise KeyError(name)


class Ev:
    def __init__(self, leaves):
        self.l = leaves
        self.memo = {}

    def ev(self, e):
        key = id(e)
        if key not in self.memo:
            self.memo[key] = (self._ev(e), e)
        return self.memo[key][0]

    def _ev(self, e):
        op = e['op']
        if op == 'leaf':
            return self.l(e['n'])
        if op == 'num':
            return np.full((1,) * 5, float(e['n']))
        if op == 'zero':
            return np.zeros((1,) * 5)
        a = [self.ev(x) for x in e['a']]
        with np.errstate(all='ignore'):
            if op == 'mul':
                r = a[0]
                for x in a[1:]:
                    r = r * x
                return r
            if op == 'add':
                r = a[0]
                for x in a[1:]:
                    r = r + x
                return r
            if op == 'sub':
                return a[0] - a[1]
            if op == 'div':
                return a[0] / a[1]
            if op == 'pow':
                return a[0] ** a[1]
            if op == 'exp':
                return np.exp(a[0])
            if op == 'sqrt':
                return np.sqrt(a[0])
            if op in ('simpson', 'trapz'):
                ax = NAX[e['n']]
                m = self.l('M').ravel()
                y = np.broadcast_to(a[0], [m.size if j == ax else s for j, s in enumerate(a[0].shape)])
                f = simpson if op == 'simpson' else trapezoid
                return np.expand_dims(f(y, x=m, axis=ax), ax)
            if op == 'at0':
                return np.take(a[0], [0], axis=NAX[e['n']])
            if op == 'rename':
                return np.swapaxes(a[0], NAX['M'], NAX['N'])
            if op == 'simpsonlnk':
                k = self.l('k').ravel()
                return np.expand_dims(simpson(a[0], dx=np.log(k[1] / k[0]), axis=2), 2)
            if op == 'gaussk':
                k = self.l('k').ravel()
                return gaussian_filter1d(a[0], float(e['n']) / np.log(k[1] / k[0]), axis=2)
        raise ValueError(op)

    def spectrum(self, e):
        r = self.ev(e)
        if r.shape[3] != 1 or r.shape[4] != 1:
            raise ValueError('mass axis left')
        return r[:, :, :, 0, 0]


PART = {'oneh': 'pk_1h', 'twoh': 'pk_2h', 'tot': 'pk_tot', 'bias': 'galaxy_linear_bias'}


def share(e, pool):
    """Hash-consing, so that equal subexpressions are evaluated once."""
    e['a'] = [share(x, pool) for x in e['a']]
    k = (e['op'], e['n'], tuple(id(x) for x in e['a']))
    return pool.setdefault(k, e)


def agrees(obs, pred, rtol=1e-7):
    """Elementwise agreement of an observed array with the predicted one (broadcast over the leading axes)."""
    if obs is None:
        return False, 'missing'
    obs = np.asarray(obs, float)
    try:
        p = np.broadcast_to(pred, obs.shape)
    except ValueError:
        return False, f'shape {obs.shape} instead of {pred.shape}'
    if np.broadcast_shapes(obs.shape, pred.shape) != obs.shape:
        return False, f'shape {obs.shape} instead of {pred.shape}'
    na, nb_ = ~np.isfinite(obs), ~np.isfinite(p)
    if not np.array_equal(na, nb_):
        return False, 'finiteness'
    with np.errstate(all='ignore'):
        sc = np.max(np.abs(p[~nb_])) if (~nb_).any() else 0.
        bad = (np.abs(obs - p) > rtol * np.abs(p) + 1e-13 * sc) & ~na
    if bad.any():
        j = tuple(int(x) for x in np.argwhere(bad)[0])
        return False, f'at {j}: {obs[j]:.10g} instead of {p[j]:.10g}'
    return True, ''


# ------------------------------------------------------------------ the comparison
_CFGS = None
_WANT = None
INV = 'INVARIANTS WellFormed TotalIsSum ResponseScales Separated Signs NoDamping Export'


def _one(job):
    from onepower import Spectra
    j, seed = job
    ent = _CFGS[j]
    c = ent['cfg']
    n = numbers(seed, j)
    out = []
    kw = build_kwargs(c, n)
    pool = {}
    lv = Leaves(c, n, kw)
    ev = Ev(lv)
    try:
        o = Spectra(**copy.deepcopy(kw))
        err0 = ''
    except Exception as e:
        err0 = f'{type(e).__name__}: {str(e)[:80]}'
    for s in sorted(ent['terms']):
        if not err0:
            try:
                r = getattr(o, 'power_spectrum_' + s)
                err = ''
            except Exception as e:
                r, err = None, f'{type(e).__name__}: {str(e)[:80]}'
        else:
            r, err = None, err0
        for p in ('oneh', 'twoh', 'tot', 'bias'):
            e = ent['terms'][s][p]
            obs = getattr(r, PART[p], None)
            d = dict(i=ent['i'], v=ent['v'], cfg=c, s=s, part=p, err=err, obs=0, pred=1, what='')
            if not err:
                if obs is None:
                    d['obs'] = 0
                elif e['op'] == 'none':
                    d['obs'] = 1
                else:
                    ok, what = agrees(obs, ev.spectrum(share(e, pool)))
                    d['obs'], d['what'] = (1, '') if ok else (2, what)
            out.append(d)
    return out


def compose(chk, want, nvar):
    global _CFGS
    import os
    from vf.common import pool_map, MachineryError
    env = dict(SEED=chk.seed % 1000, NVAR=nvar, WANT=want)
    base = 'CHECK_DEADLOCK FALSE\n'
    r = chk.tlc('HaloModelCheck', f'SPECIFICATION Spec\n{INV}\n' + base, env=env)
    _CFGS = r.printed('CFG')
    if not _CFGS:
        raise MachineryError('no configurations exported')
    res = pool_map(_one, [(j, chk.seed) for j in range(len(_CFGS))], chunksize=2)
    events = [e for x in res for e in x]
    path = os.path.join(chk.work, 'events.json')
    with open(path, 'w') as f:
        json.dump(events, f)
    r = chk.tlc('HaloModelTrace', 'SPECIFICATION TSpec\nINVARIANT Report\n' + base, env=dict(env, TRACE=path), workers=1)
    vd = r.printed('VERDICT')
    if len(vd) != 1 or vd[0]['n'] != len(events) or vd[0]['missing']:
        raise MachineryError(f'trace not consumed: {[(x["n"], x["missing"]) for x in vd]} of {len(events)}')
    for pos, clause, what in vd[0]['bad']:
        e = events[pos - 1]
        if clause == 'machinery':
            raise MachineryError(str(e))
        chk.violation(f'{clause}:{what}', f'{clause} {what} {e["what"]}{e["err"]} in {e["cfg"]}', e)
    chk.cov['configurations'] = len(_CFGS)
    chk.cov['comparisons'] = len(events)
    chk.cov['traces_validated_against_impl'] += len(_CFGS)
    for x in (0, len(_CFGS) // 2, len(_CFGS) - 1):
        chk.sample(_CFGS[x]['cfg'])
    return events
