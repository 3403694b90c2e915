"""Histories of pipeline executions (spec/Pipeline.tla)."""
import copy, json, os, zlib
import numpy as np
from vf import pipe, p_c20
from vf.common import assert_repo_import, judge, pool_map, Interner, MachineryError

MOD = None
DIR = None


def points(cfgs, r, bnl, zmax):
    """The six points; values of the sections every configuration reads."""
    c = dict(cfgs[0], vals='given', decor='given')
    base = pipe.make_block(c, r, zmax=zmax)
    same = (base.d['matter_power_lin', 'k_h'].size, base.d['matter_power_lin', 'z'].size)
    other = pipe.make_block(c, r, grid=same if bnl and r.rand() < .5 else None, zmax=zmax)
    one = copy.deepcopy(base)
    if bnl:
        key = [(pipe.COSMO, n) for n in ('a_s', 'h0', 'omega_b', 'omega_c', 'n_s', 'w')][r.randint(6) if r.rand() < .6 else 0]
        one.d[key] = other.d[key]
    elif r.rand() < .2:
        sec = str(r.choice(['matter_power_lin', 'matter_power_nl', 'matter_power_transfer_func', 'growth_parameters']))
        for k in other.d:
            if k[0] == sec:
                one.d[k] = other.d[k]
    elif r.rand() < .3:                  # some inner elements of one table, with the same ends and the same sum
        keys = sorted(k for k, v in base.d.items() if isinstance(v, np.ndarray) and k[1] not in ('k_h', 'z'))
        key = keys[r.randint(len(keys))] if r.rand() < .5 else (str(r.choice(['matter_power_lin', 'matter_power_nl'])), 'p_k')
        x = one.d[key] = np.array(one.d[key])
        x = x.reshape(-1, x.shape[-1])
        n = x.shape[1]
        d = .05 * np.abs(x[:, n // 3]).min()
        x[:, n // 3] += d
        x[:, n // 3 - 2] -= d
    else:
        keys = sorted(k for k, v in base.d.items() if not isinstance(v, np.ndarray) and not k[1][-2:] in ('_3', '_4'))
        key = keys[r.randint(len(keys))]
        if key in other.d:
            one.d[key] = other.d[key]
        else:
            del one.d[key]
    less = copy.deepcopy(other if r.rand() < .5 else base)
    opt = sorted(k for k in less.d if k[0] in ('profile_parameters', 'my_profile') or k[1] in ('tcmb', 'm_b', 'linear_fraction_fortuna', 'a_cen', 'a_sat'))
    for k in opt:
        if r.rand() < .6:
            del less.d[k]
    missing = copy.deepcopy(other)
    sec = r.randint(4)
    for k in sorted(missing.d):
        if sec == 0 and k == ('pk_parameters', 'poisson') or sec == 1 and k[1].startswith(('log10_m_ch', 'sigma', 'alpha')) or \
                sec == 2 and k[1] == 'gamma_2h_amplitude' or sec == 3 and k == (pipe.COSMO, 'wa'):
            del missing.d[k]
    near = copy.deepcopy(base)
    d = float(r.choice([3e-6, 1e-3]))
    secs = sorted({k[0] for k in near.d})
    some = secs if r.rand() < .5 else [s for s in secs if r.rand() < .4] + [pipe.COSMO]
    for k, v in near.d.items():
        if k[0] in some and k[1] not in ('k_h', 'z') and (isinstance(v, float) or isinstance(v, np.ndarray) and v.dtype.kind == 'f'):
            near.d[k] = v * (1 + d)
    return dict(base=base, other=other, one=one, less=less, missing=missing, near=near)


def execute(cfg, b):
    """Everything in the block afterwards, or the exception."""
    b = copy.deepcopy(b)
    try:
        rc = MOD.execute(b, cfg)
    except Exception as e:
        return ['exc', type(e).__name__]
    return ['ok', repr(rc)] + [[s, n, np.array(v, float) if not isinstance(v, str) else v] for (s, n), v in sorted(b.d.items())]


def observe(job):
    i, plan, cfgs, seed, bnl = job
    r = np.random.RandomState((zlib.crc32(json.dumps(plan, sort_keys=True).encode()) + 104729 * seed) % 2 ** 31)
    opts = []
    for j, pc in enumerate(cfgs):
        o = pipe.make_config(pc['cfg'], r, DIR)
        o['update_bnl'] = int(plan['interval'][j])
        opts.append(o)
    pts = points([p['cfg'] for p in cfgs], r, bnl, max(o['zmax_hmf'] for o in opts))
    I = Interner(rtol=1e-7 if bnl else 1e-8)
    ref = {}
    fresh = {}
    for op in plan['ops']:
        k = op['key']
        if op['a'] != 'exec' or k in ref:
            continue
        cf, p, src = k.split('|')
        cf = int(cf) - 1
        if bnl:
            m = p_c20.Ref(cfgs[cf], opts[cf], pipe.snapshot(pts[p]))
            m0 = p_c20.Ref(cfgs[cf], opts[cf], pipe.snapshot(pts[src]))
            m.calc = lambda n, m0=m0, f=m.calc: m0.calc('bnl') if n == 'bnl' else f(n)
            ref[k] = I.id(f'{cf}', ['ok'] + [[x['s'], x['n'], np.array(m.value(x['q'], x['b']), float)] for x in picked(cfgs[cf])])
        else:
            key = (cf, p)
            if key not in fresh:
                try:
                    fresh[key] = execute(MOD.setup(pipe.make_options(opts[cf])), pts[p])
                except Exception as e:
                    fresh[key] = ['exc', type(e).__name__]
            ref[k] = I.id(f'{cf}', fresh[key])
    shared = [pipe.make_options(o) for o in opts]
    mods, ops = {}, []
    for op in plan['ops']:
        e = dict(a=op['a'], m=op['m'], c=op['c'], p=op['p'], obs=0)
        if op['a'] == 'setup':
            try:
                mods[op['m']] = MOD.setup(shared[op['c'] - 1])
                e['obs'] = 1
            except Exception as x:
                e['err'] = f'{type(x).__name__}: {str(x)[:120]}'
                mods[op['m']] = None
        else:
            out = execute(mods[op['m']], pts[op['p']])
            if bnl and out[0] == 'ok':
                d = {(s, n): v for s, n, v in out[2:]}
                out = ['ok'] + [[x['s'], x['n'], d.get((x['s'], x['n']), 'absent')] for x in picked(cfgs[op['c'] - 1])]
            e['obs'] = I.id(f"{op['c'] - 1}", out)
            if out[0] == 'exc':
                e['what'] = out[1]
        ops.append(e)
    return dict(interval=plan['interval'], ref=ref, ops=ops)


def picked(plan):
    return sorted((x for x in plan['out'] if x['q'].startswith('pk.')), key=lambda x: (x['s'], x['n']))


def run(chk, bnl):
    global MOD, DIR
    assert_repo_import()
    import warnings
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    p_c20.DIR = DIR = chk.work
    p_c20.MOD = MOD = pipe.module()
    const = lambda n, v='': f'CONSTANTS MaxLen = {n} Bnl = {"TRUE" if bnl else "FALSE"} Variant = "{v}"\n'
    inv = 'INVARIANTS Schedule NoHistory\nPROPERTY Apart\nCHECK_DEADLOCK FALSE\n'
    chk.tlc('PipelineGen', 'SPECIFICATION Spec\n' + const(5 if chk.thorough else 4) + inv, timeout=800)
    if bnl:
        for v in ('late', 'shared', 'once'):
            x = chk.tlc('PipelineGen', 'SPECIFICATION Spec\n' + const(6, v) + inv, expect_fail=True, timeout=800)
            if x.ok or not x.violated and 'is violated' not in x.out:
                raise MachineryError(f'faulty schedule {v} not rejected')
    n = 400 if chk.thorough else (80 if bnl else 110)
    ln = 14 if bnl else 11
    plans = chk.tlc('PipelineGen', 'SPECIFICATION RSpec\n' + const(ln) + 'INVARIANTS Schedule NoHistory Emit\nCHECK_DEADLOCK FALSE\n', workers=1,
                    args=['-simulate', f'num={n}', '-depth', str(ln + 2), '-seed', str(chk.seed)]).printed('PLAN')
    nl = 150 if chk.thorough else (24 if bnl else 60)
    l2 = 26 if bnl else 12
    plans += chk.tlc('PipelineGen', 'SPECIFICATION LSpec\n' + const(l2) + 'INVARIANTS Schedule NoHistory Emit\nCHECK_DEADLOCK FALSE\n', workers=1,
                     args=['-simulate', f'num={nl}', '-depth', str(l2 + 2), '-seed', str(chk.seed)]).printed('PLAN')
    r = chk.tlc('InterfaceGen', 'SPECIFICATION Spec\nINVARIANTS SourcesAndOutputs Emit\nCHECK_DEADLOCK FALSE\n', workers=1,
                args=['-simulate', f'num={max(600, n * (40 if bnl else 8))}', '-depth', '60', '-seed', str(chk.seed + 17)])
    cat = [p for p in r.printed('PLAN') if any(p['cfg']['p_' + s] == 'T' for s in ('mm', 'gg', 'gm', 'gi', 'mi', 'ii'))
           and (p['cfg']['mode'] == 'bnl') == bnl and (not bnl or picked(p))]
    rnd = np.random.RandomState(chk.seed)
    if len(cat) < 20 or len(plans) < n + nl:
        raise MachineryError('too few configurations or behaviours')
    jobs = []
    for i, p in enumerate(plans):
        jobs.append((i, p, [cat[j] for j in rnd.choice(len(cat), 3, replace=False)], chk.seed, bnl))
    traces = pool_map(observe, jobs)
    judge(chk, 'PipelineTrace', traces, [dict(ops=[(o['a'], o['m'], o['c'], o['p']) for o in j[1]['ops']], interval=j[1]['interval'],
                                              cfgs=[x['cfg'] for x in j[2]]) for j in jobs])
    chk.cov['executions'] = sum(len(t['ops']) for t in traces)
    chk.sample(dict(interval=traces[0]['interval'], ops=traces[0]['ops'][:8]))
    chk.assumptions += ['the data block is a stand-in with the documented semantics of the real one', 'the emulator behind the non-linear bias is a stand-in']
