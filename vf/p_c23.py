"""C23: projection, cosmology correction and angle conversion (spec/RealSpace.tla)."""
import json, os, zlib
import numpy as np
from vf import pipe
from vf.expr import Eval, share, lin
from vf.common import judge, pool_map, MachineryError, jsonable

MODS = None
SUF = ['red', 'blue_2', 'c']
ZS = .6
PER_RAD = dict(rad=1., radian=1., radians=1., deg=180 / np.pi, arcmin=10800 / np.pi, arcsec=648000 / np.pi)


def insec(c, m, i):
    return spec_in(c, m) + (f'_{SUF[i]}' if c[m]['suf'] else '')


def spec_in(c, m):
    n = c[m]['in']
    return dict(W='galaxy_power', D='matter_galaxy_power')[m] if n in ('def', '') else n


class World:
    """Options of the modules and contents of the two blocks for one plan."""

    def __init__(self, plan, r):
        c = self.c = plan['cfg']
        u = lambda a, b: float(r.uniform(a, b))
        self.opt, self.t = {}, {}
        mixed = r.rand() < .4             # spectra of either sign: extrapolated moderately, for the rounding errors of the transform
        for m in 'WD':
            x = c[m]
            o = dict(corr_type=dict(W='wp', D='ds')[m], sample=x['sample'])
            for a, b in dict(input_section_name='in', output_section_name='out').items():
                if x[b] != 'def':
                    o[a] = x[b]
            if x['suf']:
                o['suffixes'] = SUF[0] if x['n'] == 1 and r.rand() < .5 else np.array(SUF[:x['n']])
            og = x['alg'] == 'ogata'
            t = dict(n=250 if og else 8192, kmin=1e-4, kmax=5e6, rmin=.1, rmax=1000.)
            if og or r.rand() < .8:
                t['n'] = o['n_transform'] = int(r.randint(20, 40)) if og else int(r.randint(40, 300))
            if mixed or r.rand() < .6:
                t['kmin'] = o['k_min_extrapolate'] = u(1e-4, 1e-3)
                t['kmax'] = o['k_max_extrapolate'] = 10 ** (u(2, 3) if mixed else u(3, 5))
            if r.rand() < .6:
                t['rmin'] = o['rp_min'] = u(.05, .5)
                t['rmax'] = o['rp_max'] = u(30., 300.)
            self.opt[m], self.t[m] = o, t
        for m in 'WD':
            z = np.round(r.uniform(.05, .5, c['C' + m]['nz']), 3)
            if r.rand() < .3:
                z[r.randint(z.size)] = float(r.choice([1e-4, 3e-3, .02, .58]))
            self.opt['C' + m] = dict(section_name=(dict(W='wp', D='ds')[m] if c[m]['out'] in ('def', '') else c[m]['out']),
                                     z=float(z[0]) if len(z) == 1 and r.rand() < .5 else z)
        self.z = {m: np.atleast_1d(self.opt['C' + m]['z']) for m in 'WD'}
        cos = [dict(hubble=u(60, 80), omega_b=u(.04, .06), omega_m=u(.2, .4), mnu=u(0., .3), w=u(-1.2, -.8), wa=u(-.3, .3)) for _ in range(2)]
        if r.rand() < .5:
            cos[0]['tcmb'] = u(2.5, 2.9)
        self.fid = dict(cls='LambdaCDM', kw=dict(H0=70., Om0=.3, Ode0=.7))
        if c['fid'] == 'same':
            cos[1] = dict(cos[0])
            x = cos[0]
            self.fid = dict(cls='Flatw0waCDM', kw=dict(H0=x['hubble'], Om0=x['omega_m'], Ob0=x['omega_b'], m_nu=[0., 0., x['mnu']], Tcmb0=x.get('tcmb', 2.7255),
                                                       w0=x['w'], wa=x['wa']))
        elif c['fid'] == 'given':
            k = r.randint(3)
            self.fid = dict(cls=['FlatLambdaCDM', 'Flatw0waCDM', 'LambdaCDM'][k], kw=dict(H0=u(60, 80), Om0=u(.2, .4)))
            self.fid['kw'].update([{}, dict(w0=u(-1.1, -.9), Tcmb0=2.7), dict(Ode0=u(.5, .8))][k])
        if c['fid'] != 'default':
            for m in ('CW', 'CD'):
                self.opt[m].update(cosmo_kwargs=repr(self.fid['kw']), astropy_cosmology_class=self.fid['cls'])
        for t in 'TU':
            self.opt[t] = dict(output_units=c[t]['u'], section_name=c[t]['sec'])
        self.blocks, self.angle, self.cos = [], [], cos
        DataBlock, _ = pipe.blocks()
        for b in range(2):
            d = {(pipe.COSMO, k): v for k, v in cos[b].items()}
            rho = u(7e10, 9e10)
            d['density', 'mean_density0'] = rho if r.rand() < .5 else np.full(r.randint(1, 5), rho)
            for m in 'WD':
                n = c[m]['n']
                zo = np.sort(r.choice(np.round(np.linspace(.02, .9, 80), 3), r.randint(4, 9), replace=False))
                d[c[m]['sample'], 'z'] = zo
                d[c[m]['sample'], 'nbin'] = n + (int(r.randint(0, 2)) if c[m]['suf'] else 0)
                for i in range(n + 1):
                    d[c[m]['sample'], f'bin_{i + 1}'] = kernel(r, zo)
                for s in sorted({insec(c, m, i) for i in range(n)} | {spec_in(c, m)}):
                    k = np.logspace(u(-3.5, -2), u(1, 2), r.randint(12, 40))
                    z = np.sort(r.choice(np.round(np.linspace(0., 1., 101), 3), r.randint(2, 8), replace=False))
                    p = u(500, 2e4) * (k / .02) / (1 + (k / u(.01, .05)) ** u(2.2, 2.8)) * (1 + .3 * np.sin(np.outer(1 + z, 3 * np.log(k)) + u(0, 6)))
                    sign = r.randint(4) if mixed else r.randint(2) * 3
                    p = -p if sign == 0 else p - np.median(p) * u(.1, 1.) if sign == 1 else p
                    if sign == 2:
                        p[r.randint(z.size)] *= -1        # signs differ between redshifts
                    if mixed and r.rand() < .35:          # no power at all at some wavenumbers
                        p[:, r.randint(k.size)] = 0.
                    d[s, 'k_h'], d[s, 'z'], d[s, 'p_k'] = k, z, p
            blk = DataBlock(d)
            ang = {}
            for j, s in enumerate(('shear_xi', 'galaxy_xi')):
                ang[s] = np.sort(r.uniform(1e-4, .05, r.randint(1, 9)))
                blk[s, 'theta'] = ang[s] * PER_RAD[plan['u0'][b][j]]
                blk.put_metadata(s, 'theta', 'unit', plan['u0'][b][j])
                blk[s, 'bin_1_1'] = r.rand(ang[s].size)
            self.blocks.append(blk)
            self.angle.append(ang)
        self.start = [b.d.copy() for b in self.blocks]


def kernel(r, z):
    """Redshift distributions: arbitrary, peaked with long tails, zero in places, of small normalisation."""
    j = r.randint(5)
    if j == 0:
        return np.exp(-.5 * ((z - r.uniform(.1, .8)) / r.uniform(.05, .12)) ** 2)
    w = r.uniform(.1, 4., z.size)
    if j == 1:
        w[r.randint(z.size)] = 0.
    return w * 1e-4 if j == 2 else w


def snapshot(b):
    s = {f'{k[0]}|{k[1]}': (v.copy() if isinstance(v, np.ndarray) else v) for k, v in b.d.items()}
    s.update({f'{k[0]}|{k[1]} {k[2]}': v for k, v in b.meta.items()})
    return s


def same(x, y):
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        return isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape and np.array_equal(x, y)
    return type(x) == type(y) and x == y


def fft_grid(t, mu):
    from scipy.fft import fhtoffset
    k = np.logspace(np.log10(t['kmin']), np.log10(t['kmax']), t['n'])
    off = fhtoffset(np.log(k[1] / k[0]), mu, initial=0., bias=0.)
    return k, off, np.exp(off) / k[::-1]


def fftlog(a, dln, mu, off):
    """Discrete Hankel transform of a logarithmic sequence (Hamilton 2000), unbiased: it is its own inverse."""
    from scipy.special import loggamma
    y = np.pi * np.arange(a.size // 2 + 1) / (a.size * dln)
    u = np.exp(2j * ((np.log(2.) - off) * y + loggamma((mu + 1) / 2 + 1j * y).imag))
    return np.fft.irfft(np.fft.rfft(a) * u, a.size)[::-1]


class Leaves:
    def __init__(self, w, b, rp):
        self.w, self.b, self.rp = w, b, rp
        self.d = w.start[b]
        self.memo = {}

    def cosmo(self, which):
        if which not in self.memo:
            import astropy.cosmology as A
            x = self.w.cos[self.b]
            self.memo[which] = A.Flatw0waCDM(H0=x['hubble'], Om0=x['omega_m'], Ob0=x['omega_b'], m_nu=[0., 0., x['mnu']], Tcmb0=x.get('tcmb', 2.7255), w0=x['w'],
                                             wa=x['wa']) if which == 'run' else getattr(A, self.w.fid['cls'])(**self.w.fid['kw'])
        return self.memo[which]

    def __call__(self, name):
        n, *a = name.split('|')
        if n == 'pi':
            return '', np.pi
        if n == 'rho':
            return '', float(np.ravel(self.d['density', 'mean_density0'])[0])
        if n in ('p', 'k', 'z'):
            return dict(p='zk', k='k', z='z')[n], self.d[a[0], dict(p='p_k', k='k_h', z='z')[n]]
        if n == 'nzz':
            return 'o', self.d[a[0], 'z']
        if n.startswith('nz_'):
            return 'o', self.d[a[0], 'bin_' + n[3:]]
        if n == 'rp':
            return 'r', self.rp[a[0]]
        if n == 'angle':
            return 't', self.w.angle[self.b][a[0]]
        q, which = n.split('_')
        C = self.cosmo(which)
        if q == 'h':
            return '', C.h
        if q == 'ds':
            return '', C.angular_diameter_distance(ZS).value
        z = self.w.z[a[0]][int(a[1]) - 1]
        if q == 'chi':
            return '', C.comoving_distance(z).value
        if q == 'e':
            return '', C.efunc(z)
        if q == 'dl':
            return '', C.angular_diameter_distance(z).value
        if q == 'dls':
            return '', C.angular_diameter_distance_z1z2(z, ZS).value
        raise MachineryError(name)


def evaluator(w, b, rp):
    def project(ev, e):
        *_, alg, m = e['n'].split()
        p, k = ev.ev(e['a'][0]), ev.ev(e['a'][1])
        ik, iz = ev.n['k'], ev.n['z']
        p = p.reshape(p.shape[iz], p.shape[ik]) if ik > iz else p.reshape(p.shape[ik], p.shape[iz]).T
        k = k.ravel()
        mu = 0 if m == 'W' else 2
        t = w.t[m]
        if alg == 'fftlog':
            kk, off, r = fft_grid(t, mu)
            out = []
            for y in p:
                s = 1. if (y > 0).all() else -1. if (y < 0).all() else 0.
                f = lin(np.log(k), y if s == 0 else np.log(s * y), np.log(kk), 'ext')
                f = f if s == 0 else s * np.exp(f)
                x = fftlog(kk * f, np.log(kk[1] / kk[0]), mu, off) / (2 * np.pi) / r
                out.append(x[(r > t['rmin']) & (r < t['rmax'])])
        else:
            from hankel import HankelTransform
            h = HankelTransform(mu, 20, np.pi / 20)
            out = [[h.transform(lambda x: lin(k, y, np.asarray(x) / s, 'ext') * x)[0] / (2 * np.pi * s ** 2) for s in rp[m]] for y in p]
        out = np.array(out)
        sh = [1] * len(ev.axes)
        ir = ev.n['r']
        sh[iz], sh[ir] = out.shape
        return (out if iz < ir else out.T).reshape(sh)
    return Eval('zkrot', Leaves(w, b, rp), via=dict(fftlog=project, ogata=project))


def num(obs, pred, weight=None):
    """Agreement of two arrays, absolute errors being measured on the scale of the weighted values."""
    try:
        obs = np.asarray(obs, float)
    except (TypeError, ValueError):
        return False, 'not a number'
    if obs.shape != pred.shape:
        return False, f'shape {obs.shape} instead of {pred.shape}'
    if not np.isfinite(obs).all() == np.isfinite(pred).all():
        return False, 'finiteness'
    w = np.ones_like(pred) if weight is None else weight
    bad = np.abs(obs - pred) * w > 1e-6 * np.abs(pred) * w + 1e-9 * np.max(np.abs(pred) * w)
    if bad.any():
        j = np.argwhere(bad)[0][0]
        return False, f'{obs[j]:.9g} instead of {pred[j]:.9g} at {j}'
    return True, ''


def observe(job):
    i, plan, exprs, seed = job
    import warnings
    warnings.simplefilter('ignore')
    r = np.random.RandomState((zlib.crc32(json.dumps(plan, sort_keys=True).encode()) + 104729 * seed) % 2 ** 31)
    w = World(plan, r)
    c = w.c
    file = dict(CW='correct', CD='correct', T='convert', U='convert', W=c['W']['alg'], D=c['D']['alg'])
    mods = {}
    err0 = {}
    for m in ('W', 'D', 'CW', 'CD', 'T', 'U'):
        try:
            mods[m] = MODS[file[m]].setup(pipe.make_options(w.opt[m]))
        except Exception as x:
            err0[m] = f'{type(x).__name__}: {str(x)[:100]}'
    rp = [{}, {}]
    ops = []
    for l, op in enumerate(plan['ops'], 1):
        b, m = op['b'] - 1, op['op']
        before = snapshot(w.blocks[b])
        e = dict(b=op['b'], op=m, err=err0.get(m, ''), same='', obs=[], what='')
        if not e['err']:
            try:
                MODS[file[m]].execute(w.blocks[b], mods[m])
            except Exception as x:
                e['err'] = f'{type(x).__name__}: {str(x)[:100]}'
        after = snapshot(w.blocks[b])
        ex = exprs.get(f'{i + 1}/{l}')
        put = set(ex['put']) if ex else set()
        diff = sorted(p for p in set(before) | set(after) if p not in put and not same(before.get(p), after.get(p)))
        if diff and not (ex is None and not e['err']):
            e['same'] = diff[0]
        ops.append(e)
        if e['err'] or ex is None:
            continue
        if m in 'WD':
            s = next(p for p in put if p.endswith('|rp')).lower()
            got = after.get(s)
            t = w.t[m]
            if c[m]['alg'] == 'fftlog':
                g = fft_grid(t, 0 if m == 'W' else 2)[2]
                rp[b][m] = g[(g > t['rmin']) & (g < t['rmax'])]
            else:
                ok = isinstance(got, np.ndarray) and got.size and (got > t['rmin']).all() and (got < t['rmax']).all()
                rp[b][m] = got if ok else np.array([np.nan])
        for p in sorted(put):
            x, o = ex['put'][p], after.get(p.lower())
            if o is None:
                v, what = 'missing', ''
            elif x['op'] == 'word':
                v, what = ('ok', '') if str(o) == x['n'] else ('bad', f'{o!r} instead of {x["n"]}')
            else:
                ev = evaluator(w, b, rp[b])
                val = lambda y: np.ravel(ev.ev(share(y, {})))
                if x['op'] == 'each':
                    res = [num(o, val(y)) for y in x['a']]
                    v, what = next((('bad', z[1]) for z in res if not z[0]), ('ok', ''))
                    if v == 'bad' and len(x['a']) > 1 and p in ex['k'] and m in ('CW', 'CD') and num(o, val(ex['k'][p]))[0]:
                        v = 'known'
                else:
                    wt = rp[b].get(m[-1]) if m not in 'TU' else None
                    ok, what = num(o, val(x), wt)
                    v = 'ok' if ok else 'bad'
            e['obs'].append(dict(p=p, v=v))
            if v != 'ok':
                e['what'] += f' {p}: {what};'
        w_ = [o['v'] for o in e['obs'] if o['v'] != 'ok']
        if w_ and set(w_) == {'known'}:
            e['key'] = 'rp-shared'
    return dict(cfg=c, u0=plan['u0'], ops=ops)


REJECT = [('fftlog', dict(corr_type='xi', sample='s')), ('ogata', dict(corr_type='', sample='s')), ('convert', dict(output_units='radians', section_name='a')),
          ('convert', dict(output_units='Arcmin', section_name='a'))]


def run(chk):
    global MODS
    P = 'cosmosis_modules/pk_to_real/'
    os.environ.setdefault('MPLBACKEND', 'Agg')
    MODS = dict(fftlog=pipe.load(P + 'pk_to_real.py', 'vf_pk_to_real'), ogata=pipe.load(P + 'pk_to_real_ogata.py', 'vf_ogata'),
                correct=pipe.load(P + 'correct_cosmo_real.py', 'vf_correct'), convert=pipe.load('cosmosis_modules/convert_theta/convert_theta.py', 'vf_convert'))
    np.seterr(all='ignore')
    inv = 'INVARIANTS OwnOnly SameNothing Compound Angle'
    n = 5 if chk.thorough else 3
    chk.tlc('RealSpaceGen', f'SPECIFICATION Spec\nCONSTANTS MaxLen = {n} Few = TRUE\n{inv}\nPROPERTY Frame\nCHECK_DEADLOCK FALSE\n')
    num_ = 1200 if chk.thorough else 220
    r = chk.tlc('RealSpaceGen', f'SPECIFICATION RSpec\nCONSTANTS MaxLen = 9 Few = FALSE\n{inv} Emit\nCHECK_DEADLOCK FALSE\n',
                args=('-simulate', f'num={num_}', '-depth', '11', '-seed', str(7000 + chk.seed)), workers=1)
    plans = r.printed('PLAN')
    if len(plans) < num_ // 2:
        raise MachineryError('too few plans')
    path = os.path.join(chk.work, 'plans.json')
    with open(path, 'w') as f:
        json.dump(plans, f)
    x = chk.tlc('RealSpaceTrace', 'SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n', env=dict(TRACE=path, EXPORT='yes'))
    exprs = {f"{e['t']}/{e['l']}": e for e in x.printed('EXPR')}
    want = {f'{i + 1}/{l}' for i, p in enumerate(plans) for l, op in enumerate(p['ops'], 1) if op['ok']}
    if set(exprs) != want:
        raise MachineryError('expressions missing')
    traces = pool_map(observe, [(i, p, {k: v for k, v in exprs.items() if k.startswith(f'{i + 1}/')}, chk.seed) for i, p in enumerate(plans)], chunksize=4)
    judge(chk, 'RealSpaceTrace', traces, plans, env=dict(EXPORT='no'))
    for m, o in REJECT:
        try:
            MODS[m].setup(pipe.make_options(o))
            chk.violation('accepted:setup', f'{m} accepts {o}', o)
        except ValueError:
            pass
        except Exception as ex:
            chk.violation('rejected:setup', f'{m} with {o} raises {type(ex).__name__} instead of ValueError', o)
    chk.cov['executions'] = sum(len(p['ops']) for p in plans)
    chk.cov['places_compared'] = sum(len(e['obs']) for t in traces for e in t['ops'])
    chk.cov['configurations'] = len({json.dumps(p['cfg'], sort_keys=True) for p in plans})
    for p in plans[:3]:
        chk.sample(dict(cfg=p['cfg'], ops=[f"{o['op']}@{o['b']}" for o in p['ops']]))
    chk.assumptions += ['data block is a stand-in with copying semantics', 'distances and expansion rates are those of astropy; the Hankel transform is written out (library hankel for the quadrature variant)']
