"""C04: emulator inputs of the non-linear bias, its symmetry and shape, and its history independence."""
import copy
import numpy as np
from vf import bind_bnl, fakeemu, session
from vf.common import assert_repo_import, judge, pool_map, MachineryError

RANGE = [(.0211375, .0233625), (.10782, .13178), (.54752, .82128), (2.4752, 3.7128), (.916275, 1.012725), (-1.2, -.8)]


def value(r, i, lev):
    lo, hi = RANGE[i]
    w = hi - lo
    return {'below': lo - w * r.uniform(.001, .4), 'lo': lo, 'in': lo + w * r.uniform(.02, .98), 'hi': hi, 'above': hi + w * r.uniform(.001, .4)}[lev]


def one(job):
    from onepower.bnl import NonLinearBias
    j, plans, seed = job
    fakeemu.install()
    r = np.random.RandomState(seed * 977 + j)
    o = None
    ops = []
    for n, p in enumerate(plans):
        lev = [p['lev'][i] for i in range(6)]
        x = [value(r, i, lev[i]) for i in range(6)]
        h = r.uniform(.6, .8)
        kw = dict(h0=h, omega_b=x[0] / h ** 2, omega_c=x[1] / h ** 2, omega_lambda=x[2] + .00064, n_s=x[4], w0=x[5])
        # sigma8 for which the requested amplitude is the right one, in the cosmology the emulator will see
        f = fakeemu.FakeEmu()
        f.c = np.array([np.clip(x[i], *RANGE[i]) for i in range(6)])
        f.c[3] = x[3]
        s8 = float(f.get_sigma8())
        if p['amp'] == 'A_s':
            kw.update(A_s=np.exp(x[3]) / 1e10, sigma_8=None)
        elif p['amp'] == 'both':
            kw.update(A_s=np.exp(x[3]) / 1e10, sigma_8=s8 * r.uniform(.8, 1.2))
        else:
            kw.update(A_s=None, sigma_8=s8)
        full = n % 20 == 7
        zdep = bool(r.rand() < .5)
        nz = int(r.choice([1, 2, 3]))
        z = np.sort(r.uniform(0, 1, nz))
        m, k = np.sort(10 ** r.uniform(11.2, 15.3, int(r.randint(3, 6)))), np.sort(10 ** r.uniform(-2.2, 1.3, int(r.randint(2, 5))))
        kw.update(mass=m, z_vec=z, k_vec=k, z_dep=zdep)
        e = dict(amp=p['amp'], lev=lev, err='', got=[[] for _ in range(6)], sigma=False, sym=True, shape=True, perz=True, what='')
        try:
            if o is None or r.rand() < .3:
                o = NonLinearBias(**copy.deepcopy(kw))
            else:
                o.update(**copy.deepcopy(kw))
            c = np.array(o.emulator.c)
            for i in range(6):
                for name, v in (('same', x[i]), ('lo', RANGE[i][0]), ('hi', RANGE[i][1])):
                    if abs(c[i] - v) <= 1e-9 * max(1, abs(v)):
                        e['got'][i].append(name)
            e['sigma'] = bool(abs(o.emulator.get_sigma8() - s8) < 1e-9)
            e['what'] = f'request {[float("%.6g" % a) for a in x]} emulator {[float("%.6g" % a) for a in c]}'
            if full:
                b = np.asarray(o.bnl)
                e['shape'] = b.shape == ((nz if zdep else 1), k.size, m.size, m.size)
                if e['shape']:
                    e['sym'] = bool(np.array_equal(b, b.transpose(0, 1, 3, 2)) or
                                    np.allclose(b, b.transpose(0, 1, 3, 2), rtol=1e-9, atol=1e-12 * np.abs(b).max()))
                    if zdep:
                        one_ = NonLinearBias(**copy.deepcopy({**kw, 'z_vec': z[-1:]}))
                        e['perz'] = bool(np.allclose(b[-1], one_.bnl[0], rtol=1e-9, atol=1e-13))
                    else:
                        # no dependence on the redshifts
                        one_ = NonLinearBias(**copy.deepcopy({**kw, 'z_vec': z[-1:] + .3}))
                        e['perz'] = bool(np.allclose(b, one_.bnl, rtol=1e-9, atol=1e-13))
                    e['what'] += f' asymmetry {float(np.abs(b - b.transpose(0, 1, 3, 2)).max()):.3g}'
        except Exception as ex:
            e['err'] = f'{type(ex).__name__}: {str(ex)[:80]}'
            o = None
        ops.append(e)
    return dict(ops=ops)


def run(chk):
    fakeemu.install()
    assert_repo_import()
    r = chk.tlc('NonLinBiasGen', 'SPECIFICATION Spec\nINVARIANTS InRangeUntouched OutsideClamped Emit\nCHECK_DEADLOCK FALSE\n',
                env=dict(FULL=int(chk.thorough)))
    plans = r.printed('PLAN')
    if len(plans) < 2000:
        raise MachineryError(f'{len(plans)} requests generated')
    rs = np.random.RandomState(chk.seed)
    plans = [plans[i] for i in rs.permutation(len(plans))]
    n = 60
    chunks = [plans[i:i + n] for i in range(0, len(plans), n)]
    traces = pool_map(one, [(j, c, chk.seed) for j, c in enumerate(chunks)])
    judge(chk, 'NonLinBiasTrace', traces, chunks, inv='InRangeUntouched OutsideClamped')
    chk.cov['requests'] = len(plans)
    if chk.thorough:
        jobs = [dict(mode='walk', chunk=8), dict(mode='order'), dict(mode='pair', npair=25)] + [dict(mode='sim', num=200, depth=24, salt=s) for s in (3, 5)]
    else:
        jobs = [dict(mode='walk', chunk=8), dict(mode='order'), dict(mode='pair', npair=1), dict(mode='sim', num=12, depth=14)]
    session.run_session(chk, 'BnlSessionGen', 'BnlSessionTrace', 'N', bind_bnl, jobs)
    chk.assumptions.append('the emulator is a stand-in with the same interface; the real one is not evaluated')
