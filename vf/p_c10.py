"""C10: the response option, against spec/Response.tla."""
import copy, json, os
import numpy as np
from vf import fakeemu, hm
from vf.common import assert_repo_import, pool_map, MachineryError, Interner, canon

PARTS = ('oneh', 'twoh', 'tot', 'bias')
INV = 'INVARIANTS MatterExact BiasUnchanged SameRatio OffIsPlain Emit\nCHECK_DEADLOCK FALSE\n'


def cfg_of(mode, j):
    r = np.random.RandomState(j)
    f = lambda: 'T' if r.rand() < .5 else 'F'
    return dict(nl=mode[0], ing=mode[1], resp='F', pm=f(), dw=f(), t1=f(), t2=f(), t1i=f(), t2i=f(), bc=f(), bs=f(),
                pois='constant', hod='Cacciato' if r.rand() < .7 else 'Zheng', plin=f(), pnl='F')


def one(job):
    from onepower import Spectra
    j, plan, seed = job
    n = hm.numbers(seed, j)
    c = cfg_of(plan['mode'], seed * 1000 + j)
    kw = hm.build_kwargs(c, n, **(dict(beta=None) if j % 3 == 0 else {}))      # the correction supplied, or by the emulator
    it = Interner(1e-9, 1e-13)
    P = {'x': n['pnl'], 'y': n['pnl'] * (1.3 + .2 * n['k'])}
    P['none'] = hm.Leaves(c, n, kw)('pnl0')[0, :, :, 0, 0]
    ones = np.ones((1,) + P['x'].shape)
    tab = [[['none'], 0]]

    def put(sym, val):
        tab.append([sym, it.id('v', canon(np.asarray(val, float)))])
    put(['zero'], 0 * ones)
    # the references: option off, one per supplied power (only the effective-power mode depends on it)
    H = {}
    used = [plan['start'][1]] + [w for w in ('x', 'y') if w in plan['ops'] and w != plan['start'][1]]
    for w in used:
        put(['P', w], P[w] * ones)
        if not H or c['nl'] == 'fortuna':
            ref = Spectra(**copy.deepcopy({**kw, 'matter_power_nl': None if w == 'none' else P[w].copy()}))
            for s in ('mm', 'gg', 'gm', 'mi', 'ii', 'gi'):
                r = getattr(ref, 'power_spectrum_' + s)
                for p in PARTS:
                    H[s, p] = np.array(getattr(r, hm.PART[p])) if getattr(r, hm.PART[p]) is not None else None
        for (s, p), v in H.items():
            if v is not None:
                put(['H', s, p, w], v)
                if p != 'bias' and s != 'mm':
                    put(['HR', s, p, w], v * (P[w] / H['mm', 'tot']))
    resp, w = plan['start']
    o = Spectra(**copy.deepcopy({**kw, 'response': bool(resp), 'matter_power_nl': None if w == 'none' else P[w].copy()}))
    ops = []
    for op in plan['ops']:
        e = dict(op=op, err='', obs={p: 0 for p in PARTS})
        try:
            if op == 'toggle':
                resp = not resp
                o.update(response=resp)
            elif op in ('x', 'y'):
                o.update(matter_power_nl=P[op].copy())
            else:
                r = getattr(o, 'power_spectrum_' + op)
                for p in PARTS:
                    v = getattr(r, hm.PART[p])
                    e['obs'][p] = 0 if v is None else it.id('v', canon(np.asarray(v, float)))
        except Exception as ex:
            e['err'] = f'{type(ex).__name__}: {str(ex)[:80]}'
        ops.append(e)
    return dict(start=[bool(plan['start'][0]), plan['start'][1]], tab=tab, ops=ops, mode=plan['mode'])


def run(chk):
    assert_repo_import()
    fakeemu.install()
    depth, share = (5, 900) if chk.thorough else (4, 700)
    r = chk.tlc('ResponseGen', 'SPECIFICATION Spec\n' + INV, env=dict(DEPTH=depth, SHARE=share, SEED=chk.seed % 1000))
    plans = r.printed('PLAN')
    if not plans:
        raise MachineryError('no plans')
    traces = pool_map(one, [(j, p, chk.seed) for j, p in enumerate(plans)], chunksize=4)
    path = os.path.join(chk.work, 'tr.json')
    json.dump(traces, open(path, 'w'))
    r = chk.tlc('ResponseTrace', 'SPECIFICATION TSpec\nINVARIANTS Report MatterExact BiasUnchanged SameRatio OffIsPlain\nCHECK_DEADLOCK FALSE\n',
                env=dict(TRACE=path))
    vd = r.printed('VERDICT')
    if len({v['t'] for v in vd}) != len(traces) or any(v['n'] != len(traces[v['t'] - 1]['ops']) for v in vd):
        raise MachineryError('traces not consumed')
    for v in vd:
        for pos, clause, what in v['bad']:
            t = traces[v['t'] - 1]
            chk.violation(f'{clause}:{what}', f'{clause} {what} {t["ops"][pos - 1]["err"]} at step {pos} of {plans[v["t"] - 1]}', plans[v['t'] - 1])
    chk.cov['traces_validated_against_impl'] += len(traces)
    chk.cov['behaviours'] = len(plans)
    chk.cov['modes_covered'] = len({tuple(p['mode']) for p in plans})
    for p in plans[:3]:
        chk.sample(p)
