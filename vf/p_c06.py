"""C06: unsupported settings are rejected, supported ones accepted, objects recover (spec/Options.tla)."""
import copy, os
import numpy as np
from vf import bind_align, bind_spectra as bs, fakeemu
from vf.common import assert_repo_import, pool_map, judge, MachineryError, canon, close

Z, K = np.array([.1, .2]), bs.K
HALO = bind_align.halo(13, 0)
BAD = dict(nl=['HMCODE', 'halofit', 'bnl2', '', 'none', 'hmcode2020'], ing=['mead2016', 'Mead2020', 'feedback', '', 'mead2020-feedback'],
           hod=['Leauthaud', 'cacciato', 'HODX'], pois=['linear', 'Constant', 'powerlaw'], claw=['mass', 'Luminosity', 'halo', ''],
           slaw=['lum', 'Constant', 'halomass', ''], method=['fft', 'Hankel', 'ogata'])
AN = dict(claw='central_ia_depends_on', slaw='satellite_ia_depends_on', two='beta_two', mpc='mpivot_cen', mps='mpivot_sat', lpc='lpivot_cen',
          lps='lpivot_sat', fc='z_loglum_file_centrals', fs='z_loglum_file_satellites')


def amp(p, x, r):
    if p in ('claw', 'slaw'):
        return str(r.choice(BAD[p])) if x == 'bad' else x
    if p in ('fc', 'fs'):
        return {'given': os.path.join(bind_align.DIR, ('cen' if p == 'fc' else 'sat') + '_x.fits'), 'None': None,
                'missing': os.path.join(bind_align.DIR, 'no_such_file.fits')}[x]
    return None if x == 'None' else 0. if x == 'zero' else dict(two=.7, mpc=13.2, mps=13.4, lpc=10., lps=9.9)[p]


def shape(base, x):
    return {'None': None, 'ok': base.copy(), 'badk': base[:, :-1].copy(), 'badz': np.vstack([base, base[:1]]), 'bad1': base[:1].copy(), 'bad3': base[None].copy(), 'badt': base.T.copy()}[x]


def kwargs(kind, assign, r):
    """A list of keyword dictionaries, to be given to consecutive updates (the first ones clear dictionaries)."""
    kw, pre = {}, {}
    for p, x in assign:
        if kind == 'S':
            if p in AN:
                kw.setdefault('align_params', {})[AN[p]] = amp(p, x, r)
            elif p == 'nl':
                kw['nonlinear_mode'] = str(r.choice(BAD['nl'])) if x == 'bad' else None if x == 'None' else x
            elif p == 'ing':
                kw['hmcode_ingredients'] = str(r.choice(BAD['ing'])) if x == 'bad' else None if x == 'None' else x
            elif p == 'resp':
                kw['response'] = x == 'T'
            elif p == 'hod':
                kw['hod_model'] = str(r.choice(BAD['hod'])) if x == 'bad' else x
            elif p == 'pois':
                pre['poisson_params'] = {}
                kw['poisson_model'] = str(r.choice(BAD['pois'])) if x == 'bad' else 'constant' if x == 'constant' else 'power_law'
                d = dict(poisson=.9)
                if x in ('power_law', 'no_slope', 'flat'):
                    d['pivot'] = 12.
                if x in ('power_law', 'no_pivot'):
                    d['slope'] = .1
                if x == 'flat':
                    d['slope'] = 0.
                kw['poisson_params'] = d
            elif p == 'plin':
                kw['matter_power_lin'] = shape(bs.PL, x)
            elif p == 'pnl':
                kw['matter_power_nl'] = shape(bs.PL * (1 + 5 * K), x)
            elif p == 'sig':
                kw['sigma_8'] = .8 if x == 'a' else .83
        elif kind == 'A':
            if p in AN:
                kw[AN[p]] = amp(p, x, r)
            elif p == 'method':
                kw['method'] = str(r.choice(BAD['method'])) if x == 'bad' else x
            elif p == 'ell':
                kw['ell_max'] = 4 if x == 'ok' else int(r.choice([12, 14]))
            elif p == 'nm':
                kw['nmass'] = 4 if x == 'ok' else 20
            elif p == 'sig':
                kw['gamma_1h_amplitude'] = .0015 if x == 'a' else .002
        else:
            if p == 'amp':
                kw.update(A_s=2e-9 if x == 'A_s' else None, sigma_8=.8 if x == 'sigma8' else None)
            else:
                kw['omega_c'] = .24 if x == 'a' else .25
    return pre, kw


def new(kind, assign, r):
    pre, kw = kwargs(kind, assign, r)
    if kind == 'S':
        from onepower import Spectra
        hs = dict(observables_file=None, obs_min=np.array([9.5]), obs_max=np.array([10.5]), zmin=np.array([0.]), zmax=np.array([.4]), nz=3, nobs=20,
                  observable_h_unit='1/h^2')
        base = dict(k_vec=K, z_vec=Z, lnk_min=-8., lnk_max=5., dlnk=.25, Mmin=11., Mmax=15., dlog10m=.25, transfer_model='EH',
                    growth_model='GrowthFactor', hod_settings=hs, hod_settings_mm=dict(hs, obs_min=np.array([8.]), obs_max=np.array([12.])))
        return Spectra(**copy.deepcopy(base), **kw)
    if kind == 'A':
        from onepower.ia import SatelliteAlignment
        return SatelliteAlignment(z_vec=bind_align.Z, nk=6, n_hankel=40, **{k: v.copy() for k, v in HALO.items()}, **kw)
    from onepower.bnl import NonLinearBias
    return NonLinearBias(mass=np.logspace(12, 15, 4), z_vec=Z, k_vec=K, omega_lambda=.7, n_s=.96, **kw)


def use(kind, o):
    """Ask for every result: name -> value or exception."""
    out = {}
    todo = {'S': [(s, (lambda s=s: getattr(o, 'power_spectrum_' + s))) for s in ('mm', 'gg', 'gm', 'mi', 'ii', 'gi')],
            'A': [('amp', lambda: [o.alignment_gi, o.gamma_1h_amp]), ('kernel', lambda: [o.wkm_f_ell, o.upsampled_wkm(bind_align.KOUT, o.mass)])],
            'B': [('bnl', lambda: o.bnl)]}[kind]
    for n, f in todo:
        try:
            out[n] = canon(f())
        except Exception as e:
            out[n] = e
    return out


def finite(c):
    if isinstance(c, np.ndarray):
        return bool(np.all(np.isfinite(c))) if c.dtype.kind in 'fc' else True
    return all(finite(x) for x in c) if isinstance(c, list) else True


def one(job):
    j, plan, seed = job
    fakeemu.install()
    r = np.random.RandomState(seed * 31 + j)
    kind = plan['kind']
    o, val = None, {}
    ops = []
    for op in plan['ops']:
        assign = op[2] if op[0] == 'create' else op[1]
        if not isinstance(assign, list):
            assign = []
        e = dict(op=op[0], c=assign, set=False, failed=[], finite=True, same=True, what='')
        val.update({p: x for p, x in assign})
        full = sorted(val.items())
        try:
            if op[0] == 'create':
                o = new(kind, assign, r)
            else:
                pre, kw = kwargs(kind, assign, r)
                if pre:
                    o.update(**pre)
                o.update(**kw)
        except Exception as ex:
            e['set'], e['what'] = True, f'{type(ex).__name__}: {str(ex)[:60]}'
        if o is not None and not e['set']:
            got = use(kind, o)
            e['failed'] = [n for n, v in got.items() if isinstance(v, Exception)]
            if e['failed']:
                e['what'] = f"{type(got[e['failed'][0]]).__name__}: {str(got[e['failed'][0]])[:60]}"
            e['finite'] = all(finite(v) for v in got.values() if not isinstance(v, Exception))
            if not e['failed'] and op[0] != 'create':
                try:
                    ref = use(kind, new(kind, full, r))
                    e['same'] = all(not isinstance(ref[n], Exception) and close(got[n], ref[n], 1e-8, 1e-12) for n in got)
                except Exception as ex:
                    e['same'] = False
        ops.append(e)
        if o is None:
            break
    return dict(kind=kind, ops=ops)


def run(chk):
    fakeemu.install()
    assert_repo_import()
    bind_align.catalogues(chk.work)
    plans = []
    for mode, inv in (('step', 'RecoveredOk OkIsSupported'), ('combo', 'OkIsSupported')):
        r = chk.tlc('OptionsGen', f'SPECIFICATION Spec\nINVARIANTS {inv} Emit\nCHECK_DEADLOCK FALSE\n',
                    env=dict(MODE=mode, SEED=chk.seed, NSIM=1600 if chk.thorough else 150), args=['-seed', str(chk.seed + 11)], workers=1)
        p = r.printed('PLAN')
        if not p:
            raise MachineryError('no plans ' + mode)
        chk.cov['behaviours_' + mode] = len(p)
        plans += p
    traces = pool_map(one, [(j, p, chk.seed) for j, p in enumerate(plans)], chunksize=4)
    judge(chk, 'OptionsTrace', traces, plans, inv='OkIsSupported')
    for p in plans[:2]:
        chk.sample(p)
