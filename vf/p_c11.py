"""C11: the non-linear bias term, against spec/NonLinTerm.tla and the bnl configurations of spec/HaloModel.tla."""
import copy, json, os
import numpy as np
from vf import hm, fakeemu
from vf.common import assert_repo_import, pool_map, MachineryError, Interner, canon, judge

S = ('mm', 'gg', 'gm', 'mi', 'ii', 'gi')
P3 = ('oneh', 'twoh', 'tot')


def read(o):
    r = {}
    for s in S:
        x = getattr(o, 'power_spectrum_' + s)
        for p in P3:
            r[s, p] = np.array(getattr(x, hm.PART[p]))
    return r


def one(job):
    from onepower import Spectra
    from onepower.bnl import NonLinearBias
    j, plan, seed = job
    fakeemu.install()
    n = hm.numbers(seed, j)
    r = np.random.RandomState(seed * 1000 + j)
    f = lambda: 'T' if r.rand() < .5 else 'F'
    ing = ['None', 'mead2020', 'mead2020_feedback', 'fit'][j % 4]
    c = dict(nl='bnl', ing=ing, resp='F', pm=f(), dw=f(), t1=f(), t2='T', t1i=f(), t2i='T', bc=f(), bs=f(), pois='constant',
             hod='Cacciato' if r.rand() < .7 else 'Zheng', plin=f(), pnl='F')
    kw = hm.build_kwargs(c, n)
    # make the second correction independent of redshift now and then (one entry only)
    B1 = kw['beta_nl']
    B2 = hm.beta_of({**n, 'rbeta': n['rbeta'] // 2}, B1.shape[-1])
    cosm = {'a': {}, 'b': dict(sigma_8=kw['sigma_8'] * 1.05, omega_c=kw['omega_c'] * .97, omega_b=kw['omega_b'] * 1.02,
                               n_s=kw['n_s'] + .01, h0=kw['h0'] * 1.01, w0=kw['w0'] - .05)}
    used = sorted({plan['start'][1]} | {o[1] for o in plan['ops'] if o[0] == 'cosmo'})
    it = Interner(1e-7, 1e-11)
    tab = []
    emu_used = plan['start'][0] == 'emu' or any(o[0] == 'compute' for o in plan['ops'])

    def put(sym, v):
        tab.append([sym, it.id(sym[1] + (sym[2] if sym[0] != 'one' else 'oneh'), canon(v))])
    for q in used:
        kq = {**kw, **cosm[q]}
        und = {**kq, 'nonlinear_mode': None, 'beta_nl': None, 'two_halo_ktrunc': None, 'two_halo_ktrunc_ia': None}
        U = read(Spectra(**copy.deepcopy(und)))
        D1 = read(Spectra(**copy.deepcopy({**kq, 'beta_nl': B1})))
        D2 = read(Spectra(**copy.deepcopy({**kq, 'beta_nl': B2})))
        for s in S:
            put(['one', s, q], U[s, 'oneh'])
            for p in ('twoh', 'tot'):
                for a in range(-1, 3):
                    for b in range(-1, 3):
                        put(['aff', s, p, q, a, b], U[s, p] + a * (D1[s, p] - U[s, p]) + b * (D2[s, p] - U[s, p]))
        if emu_used:
            i = hm.Leaves(c, n, kq).i
            nb = NonLinearBias(mass=i.mass, z_vec=n['z'], k_vec=n['k'], h0=kq['h0'], sigma_8=kq['sigma_8'], omega_b=kq['omega_b'],
                               omega_c=kq['omega_c'], omega_lambda=1. - kq['omega_b'] - kq['omega_c'], n_s=kq['n_s'], w0=kq['w0'])
            X = read(Spectra(**copy.deepcopy({**kq, 'beta_nl': np.array(nb.bnl)})))
            for s in S:
                for p in ('twoh', 'tot'):
                    put(['emu', s, p, q], X[s, p])
    kq = {**kw, **cosm[plan['start'][1]]}
    kq['beta_nl'] = 0 * B1 if plan['start'][0] == 'sup' else None
    o = Spectra(**copy.deepcopy(kq))
    ops = []
    for op in plan['ops']:
        e = dict(op=op, err='', obs={p: 0 for p in P3})
        try:
            if op[0] == 'supply':
                o.update(beta_nl=op[1] * B1 + op[2] * B2)
            elif op[0] == 'compute':
                o.update(beta_nl=None)
            elif op[0] == 'cosmo':
                o.update(**{p: kw[p] if op[1] == 'a' else cosm['b'][p] for p in cosm['b']})
            else:
                x = getattr(o, 'power_spectrum_' + op[1])
                for p in P3:
                    v = getattr(x, hm.PART[p])
                    e['obs'][p] = -2 if v is None else it.id(op[1] + p, canon(np.asarray(v, float)))
        except Exception as ex:
            e['err'] = f'{type(ex).__name__}: {str(ex)[:80]}'
        ops.append(e)
    return dict(start=plan['start'], tab=tab, ops=ops)


def run(chk):
    fakeemu.install()
    assert_repo_import()
    hm.compose(chk, 'bnl', 30 if chk.thorough else 3)
    num = 400 if chk.thorough else 48
    depth = 12
    r = chk.tlc('NonLinTermGen', 'SPECIFICATION Spec\nINVARIANTS ZeroIsUndamped OneHaloFree Emit\nCHECK_DEADLOCK FALSE\n',
                env=dict(DEPTH=depth), args=['-simulate', f'num={num}', '-depth', str(depth + 3), '-seed', str(chk.seed * 17 + 3)], workers=1)
    plans = r.printed('PLAN')
    if not plans:
        raise MachineryError('no plans')
    traces = pool_map(one, [(j, p, chk.seed) for j, p in enumerate(plans)])
    judge(chk, 'NonLinTermTrace', traces, plans, inv='ZeroIsUndamped OneHaloFree')
    for p in plans[:2]:
        chk.sample(p)
