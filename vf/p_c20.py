"""C20: pipeline options reach the model, results reach their places (spec/Interface.tla)."""
import copy, json, zlib
import numpy as np
from scipy.interpolate import interp1d
from vf import pipe
from vf.common import assert_repo_import, judge, pool_map, Interner, canon, MachineryError

DIR = None
MOD = None


def interp(x, y, q, axis, log=False):
    if log:
        return np.exp(interp1d(np.log(x), np.log(y), axis=axis, fill_value='extrapolate')(np.log(q)))
    return interp1d(x, y, axis=axis, fill_value='extrapolate', bounds_error=False)(q)


class Ref:
    """The model a run must have used, built from the specification's table of sources."""

    def __init__(self, plan, o, inp):
        self.c, self.o, self.inp = plan['cfg'], o, inp
        self.sources, self.align_sample = plan['src'], plan['sample']
        self.models = {}
        g = lambda n, d: o.get(n, d)
        lo, hi = g('log_mass_min', 9.), g('log_mass_max', 16.)
        self.z = np.linspace(o['zmin_hmf'], o['zmax_hmf'], o['nz_hmf'])
        kl = inp['matter_power_lin', 'k_h']
        self.k = np.logspace(np.log10(kl[0]), np.log10(kl[-1]), o['nk'])
        self.dm = (hi - lo) / o['nmass']
        self.lo, self.hi = lo, hi

    def power(self, sec):
        i = self.inp
        pz = interp(i[sec, 'z'], i[sec, 'p_k'], self.z, 0)
        return interp(i[sec, 'k_h'], pz, self.k, 1, log=True)

    def calc(self, n):
        i, C = self.inp, pipe.COSMO
        if n == 'plin':
            return self.power('matter_power_lin')
        if n == 'pnl':
            return self.power('matter_power_nl')
        if n == 'kvec':
            return self.k
        if n == 'zvec':
            return self.z
        if n == 'dlog10m':
            return self.dm
        if n == 'bnl':
            from onepower.bnl import NonLinearBias
            return NonLinearBias(mass=10 ** np.arange(self.lo, self.hi, self.dm), z_vec=self.z, k_vec=self.k, h0=i[C, 'h0'], A_s=i[C, 'a_s'],
                                 omega_b=i[C, 'omega_b'], omega_c=i[C, 'omega_c'], omega_lambda=1. - i[C, 'omega_m'], n_s=i[C, 'n_s'], w0=i[C, 'w'],
                                 z_dep=False).bnl
        raise MachineryError(n)

    def text(self, d):
        if d in ('True', 'False'):
            return d == 'True'
        if d == 'None':
            return None
        try:
            return float(d)
        except ValueError:
            return d

    def one(self, s):
        k, sec, n, d = s['k'], s['s'], s['n'], s['d']
        o = {a.lower(): b for a, b in self.o.items()}
        i = self.inp
        if k in ('opt', 'optnone'):
            v = o.get(n.lower(), self.text(d))
            return None if k == 'optnone' and v == 'None' else v
        if k in ('val', 'valdef', 'valnone', 'pow10'):
            key = (sec.lower(), n.lower())
            if k == 'val' and key not in i:
                raise MachineryError(f'no value {key}')
            v = i.get(key, None if k in ('val', 'valnone') else self.text(d))
            return 10. ** v if k == 'pow10' else v
        if k == 'bins':
            nb = int(d)
            return np.array([i[sec.lower(), (n if nb == 1 else f'{n}_{b + 1}').lower()] for b in range(nb)])
        if k == 'const':
            return self.text(d)
        if k == 'none':
            return None
        if k == 'sample':
            return pipe.sample_settings(self.o, n)
        if k == 'envelope':
            return pipe.envelope(pipe.sample_settings(self.o, n))
        return self.calc(n)

    def kwargs(self):
        kw = {}
        for s in self.sources:
            p = s['p']
            if p == 'transfer':
                kw.update(transfer_model='FromArray', transfer_params={'k': self.inp['matter_power_transfer_func', 'k_h'], 'T': self.inp['matter_power_transfer_func', 't_k']})
            elif p == 'growth':
                kw.update(growth_model='FromArray', growth_params={'z': self.inp['growth_parameters', 'z'], 'd': self.inp['growth_parameters', 'd_z']})
            elif '.' in p:
                a, b = p.split('.')
                kw.setdefault(a, {})[b] = self.one(s)
            else:
                kw[p] = self.one(s)
        if 'align_params' in kw:
            kw['align_params'].update(nmass=5, n_hankel=350, nk=10, ell_max=6)
        return kw

    def model(self, tag):
        from onepower.pk import Spectra
        if tag not in self.models:
            kw = self.kwargs()
            if tag != 'gal':
                kw['hod_settings'] = pipe.sample_settings(self.o, self.align_sample if tag == 'ia' else 'ia_2')
            self.models[tag] = Spectra(**copy.deepcopy(kw))
        return self.models[tag]

    def value(self, q, b):
        tag = 'gal'
        if q.endswith('@ia'):
            q, tag = q[:-3], 'ia'
        w = q.split('.')
        if q == 'z_out':
            return self.inp['matter_power_lin', 'z']
        if q == 'k_out':
            return self.inp['matter_power_lin', 'k_h']
        if w[0] in ('pk', 'bias'):
            if w[1] in ('ii', 'gi', 'mi'):
                tag = 'ia'
            m = self.model(tag)
            ps = getattr(m, f'power_spectrum_{w[1]}')
            if w[0] == 'bias':
                return ps.galaxy_linear_bias[b - 1]
            p = getattr(ps, f'pk_{w[2]}')[max(b, 1) - 1]
            if tag == 'ia' and self.c['split'] == 'T':     # the second population has no weight, but an undefined one is not hidden
                p = p + 0. * getattr(getattr(self.model('ia2'), f'power_spectrum_{w[1]}'), f'pk_{w[2]}')[max(b, 1) - 1]
            p = interp(self.z, p, self.inp['matter_power_lin', 'z'], 0)
            return interp(np.log10(self.k), p, np.log10(self.inp['matter_power_lin', 'k_h']), 1)
        m = self.model(tag)
        if q == 'rho_crit':
            return m.mean_density0 / self.inp[pipe.COSMO, 'omega_m']
        if q == 'nbins':
            return int(m.hod.hod_cen.shape[0])
        if q == 'obs_text':
            return 'obs_func * obs * ln(10)'
        if q == 'obs_z':
            return m.obs_func_z[b - 1]
        if w[0] == 'obs_val':
            return m.obs_func_obs[b - 1, 0]
        if w[0].startswith('obs_func'):
            v = getattr(m, w[0])[b - 1]
            return v[0] if w[-1] == 'all' else v
        if w[-1] == '0':
            return getattr(m, w[0])[0]
        v = m
        for a in w:
            v = getattr(v, a)
        return v[b - 1] if b else v


def observe(job):
    i, plan, seed = job
    r = np.random.RandomState((zlib.crc32(json.dumps(plan['cfg'], sort_keys=True).encode()) + 7919 * i + 104729 * seed) % 2 ** 31)
    c = plan['cfg']
    o = pipe.make_config(c, r, DIR)
    b = pipe.make_block(c, r, zmax=o['zmax_hmf'])
    opts = pipe.make_options(o)
    inp, opt0 = pipe.snapshot(b), pipe.snapshot(opts)
    ops = []
    ev = lambda s, n, obs, pred, err='': ops.append(dict(s=s, n=n, obs=obs, pred=pred, err=err))
    try:
        cfg = MOD.setup(opts)
        rc = MOD.execute(b, cfg)
    except Exception as e:
        ev('', 'run', 0, 0, f'{type(e).__name__}: {str(e)[:150]}')
        return dict(cfg=c, ops=ops)
    I = Interner(rtol=1e-7, atol_rel=1e-12)
    if rc not in (0, None):
        ev('', 'return', 0, 0, f'status {rc}')
    ref = Ref(plan, o, inp)
    want = {(x['s'], x['n']): x for x in plan['out']}
    for k, x in sorted(want.items()):
        pred = ref.value(x['q'], x['b'])
        if isinstance(pred, np.ndarray):
            pred = np.array(pred, float)
        p = I.id(str(k), pred)
        got = b.d.get(k)
        if k in inp and k in b.d and canon(inp[k])[0] == 'arr' and np.shape(inp[k]) == np.shape(got) and np.array_equal(inp[k], got) and not np.array_equal(np.asarray(pred), np.asarray(got)):
            got = None                  # the input is still there
        ev(k[0], k[1], 0 if got is None else I.id(str(k), got), p)
    for k, v in b.d.items():
        if k not in want and (k not in inp or not (type(v) == type(inp[k]) and np.array_equal(v, inp[k]))):
            ev(k[0], k[1], 1, 0)
    for k in inp:
        if k not in b.d:
            ev(k[0], k[1], 0, 0)
    for k, v in opts.d.items():
        if k not in opt0 or not np.array_equal(v, opt0[k]):
            ev('module_options', k[1], 1, 0)
    return dict(cfg=c, ops=ops)


def run(chk):
    global DIR, MOD
    assert_repo_import()
    import warnings
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    DIR = chk.work
    MOD = pipe.module()
    n = 6000 if chk.thorough else 900
    r = chk.tlc('InterfaceGen', 'SPECIFICATION Spec\nINVARIANTS SourcesAndOutputs Emit\nCHECK_DEADLOCK FALSE\n', workers=1,
                args=['-simulate', f'num={n}', '-depth', '60', '-seed', str(chk.seed)])
    plans = r.printed('PLAN')
    if len(plans) < n // 4:
        raise MachineryError(f'{len(plans)} configurations from {n} behaviours')
    traces = pool_map(observe, [(i, p, chk.seed) for i, p in enumerate(plans)], chunksize=4)
    judge(chk, 'InterfaceTrace', traces, [p['cfg'] for p in plans])
    for t in traces[:3]:
        chk.sample(dict(cfg=t['cfg'], places=len(t['ops'])))
    chk.cov['places'] = sum(len(t['ops']) for t in traces)
    chk.assumptions += ['the data block is a stand-in with the documented semantics of the real one (case-insensitive names, typed access, grids)',
                        'the emulator behind the non-linear bias is a stand-in', 'the model object itself is decided by the other properties']
