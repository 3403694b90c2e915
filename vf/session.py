"""Replays behaviours of spec/Session.tla on real objects, records them and has TLC judge the recording.

A binder module provides create(assign), kwargs_of(assign, clear), read(obj, group) for one class.
"""
import copy, json, os, threading
import numpy as np
from vf.common import Interner, MachineryError, canon, pool_map

CFG = '''CONSTANTS
 Obj = {objs}
 Base <- {b}Base
 Alts <- {b}Alts
 ValidVal <- Evaluable
 DictKeys <- {b}DictKeys
 POrder <- {b}POrder
 Joints <- {b}Joints
 Profiles <- {b}Profiles
 Groups <- {b}Groups
CHECK_DEADLOCK FALSE
'''


def cfg(prefix, objs, *lines):
    return '\n'.join(lines) + '\n' + CFG.format(b=prefix, objs='{' + ','.join(map(str, objs)) + '}')


def generate(chk, module, prefix, jobs):
    """jobs: list of dicts(mode, npair, depth, chunk, num); returns the plans of all of them."""
    res = [None] * len(jobs)

    def one(i, j):
        env = dict(MODE=j['mode'], SEED=chk.seed % 1000, NPAIR=j.get('npair', 1), DEPTH=j.get('depth', 12),
                   CHUNK=j.get('chunk', 30))
        inv = ['SPECIFICATION Spec', 'INVARIANTS TypeOK AlwaysValid Scripted Emit']
        args = []
        if j['mode'] == 'sim':
            args = ['-simulate', f'num={j["num"]}', '-depth', str(j['depth'] + 3), '-seed', str(1000 * chk.seed + j.get('salt', 7))]
        try:
            r = chk.tlc(module, cfg(prefix, j.get('objs', (1, 2)), *inv), env=env, args=args,
                        workers=1 if j['mode'] == 'sim' else 4, name=j['mode'])
            res[i] = r.printed('PLAN')
        except Exception as e:
            res[i] = e

    ths = [threading.Thread(target=one, args=(i, j)) for i, j in enumerate(jobs)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    out = []
    for j, r in zip(jobs, res):
        if isinstance(r, Exception):
            raise r
        if not r:
            raise MachineryError(f'no behaviours generated for {j}')
        seen = set()
        for p in r:
            k = json.dumps(p, sort_keys=True)
            if k not in seen:
                seen.add(k)
                p['mode'] = j['mode']
                out.append(p)
    return out


def moved(val, base, dictkeys, a):
    v = dict(val)
    for d in a['clear']:
        for k in dictkeys[d]:
            v[k] = '-'
    for p, x in a['set']:
        v[p] = x
    return v


def do_update(binder, obj, a):
    clear = list(a['clear'])
    sets = a['set']
    rebuilt = {d for d in clear if any(p.startswith(d + '.') for p, _ in sets)}
    if rebuilt:
        obj.update(**{d: {} for d in clear})
        clear = []
    obj.update(**binder.kwargs_of(sets, clear))


def merge(d, a):
    r = dict(d)
    for c in a['clear']:
        for k in list(r):
            if k.startswith(c + '.'):
                r[k] = '-'
        # keys of the base valuation are not in clearable dictionaries
    for p, x in a['set']:
        r[p] = x
    return r


def valuations(plan):
    """The deviations from the base valuation at which the plan reads, as keys."""
    dev, out = {}, []
    for op in plan['ops']:
        if op['op'] == 'create':
            dev[op['o']] = {p: x for p, x in op['a']}
        elif op['op'] == 'goto':
            dev[op['o']] = merge(dev[op['o']], op['a'])
        elif op['op'] == 'clone':
            dev[op['a']] = dict(dev[op['o']])
        elif op['op'] == 'read':
            out.append(json.dumps(sorted(dev[op['o']].items())))
    return out


def reference(key):
    """Everything a newly created object with this valuation answers.  Run in a process that has done nothing else."""
    d = [tuple(a) for a in json.loads(key)]
    may = getattr(_B, 'MAY_RAISE', ())
    try:
        got = _B.read(_B.create(d), 'all')
        exc = next((f'{q}: {type(r).__name__}: {str(r)[:80]}' for q, r in got if isinstance(r, BaseException) and q not in may), '')
        return key, (True, '', exc, [(q, canon(r)) for q, r in got])
    except Exception as ex:
        return key, (False, f'{type(ex).__name__}: {str(ex)[:80]}', '', [])


def replay(binder, plan, refs, interner=None):
    """Execute one plan; returns its recorded events (with reference objects for each new valuation)."""
    it = interner or Interner(1e-8, 1e-13)
    objs, dev = {}, {}
    events = []
    nref = [100]
    refd = set()
    exc = ['']

    def record(e):
        e['exc'] = exc[0] if e['op'] == 'read' else ''      # a quantity that could not be read
        events.append(e)

    may = getattr(binder, 'MAY_RAISE', ())

    def obs(o, g):
        got = binder.read(o, g)
        exc[0] = next((f'{q}: {type(r).__name__}: {str(r)[:80]}' for q, r in got if isinstance(r, BaseException) and q not in may), '')
        return [[q, it.id(q, canon(r))] for q, r in got]

    for op in plan['ops']:
        e = dict(op)
        e['ok'], e['err'] = True, ''
        e['obs'] = []
        try:
            if op['op'] == 'create':
                objs[op['o']] = binder.create(op['a'])
                dev[op['o']] = {p: x for p, x in op['a']}
            elif op['op'] == 'goto':
                do_update(binder, objs[op['o']], op['a'])
                dev[op['o']] = merge(dev[op['o']], op['a'])
            elif op['op'] == 'clone':
                objs[op['a']] = objs[op['o']].clone()
                dev[op['a']] = dict(dev[op['o']])
            elif op['op'] == 'read':
                e['obs'] = obs(objs[op['o']], op['a'])
        except Exception as ex:
            e['ok'], e['err'] = False, f'{type(ex).__name__}: {str(ex)[:80]}'
            record(e)
            break
        record(e)
        if op['op'] == 'read':
            # a newly created object with the same valuation, read completely: fixes F at this valuation
            d = {p: x for p, x in dev[op['o']].items()}
            key = json.dumps(sorted(d.items()))
            if key not in refd:
                refd.add(key)
                nref[0] += 1
                n = nref[0]
                ok, err, exc[0], got = refs[key]
                record(dict(op='create', o=n, a=sorted(map(list, d.items())), ok=ok, err=err, obs=[]))
                if ok:
                    record(dict(op='read', o=n, a='all', ok=True, err='', obs=[[q, it.id(q, c)] for q, c in got]))
    return events


def validate(chk, module, prefix, traces, tag='trace', key=None):
    """TLC judges the recorded traces; violations are registered on chk."""
    path = os.path.join(chk.work, f'{tag}.json')
    with open(path, 'w') as f:
        json.dump([{'ops': t} for t in traces], f)
    nmax = max(max([e['o'] for e in t] + [2]) for t in traces)
    objs = sorted({1, 2, 3} | set(range(101, max(102, nmax + 1))))
    r = chk.tlc(module, cfg(prefix, objs, 'SPECIFICATION TSpec', 'INVARIANT Report'), env=dict(TRACE=path), name=tag)
    vd = r.printed('VERDICT')
    if len({v['t'] for v in vd}) != len(traces):
        raise MachineryError(f'{len(vd)} verdicts for {len(traces)} traces')
    for v in sorted(vd, key=lambda v: v['t']):
        t = traces[v['t'] - 1]
        if v['n'] != len(t):
            raise MachineryError('trace not consumed')
        for pos, clause, what in v['bad'][:3]:
            if clause == 'machinery':
                raise MachineryError(f'operation {what} at {pos} not allowed by the specification: {t[pos - 1]}')
            hist = [{k: e[k] for k in ('op', 'o', 'a', 'err')} for e in t[:pos]]
            chk.violation(f'{clause}:{what}', f'{clause} {what} at event {pos}: '
                          + ' ; '.join(f"{h['op']}({h['o']},{h['a']})" for h in hist[-4:])[:400], hist,
                          key=key)
    chk.cov['traces_validated_against_impl'] += len(traces)
    return vd


def run_session(chk, genmod, tracemod, prefix, binder, jobs, extra_plans=()):
    plans = generate(chk, genmod, prefix, jobs) + list(extra_plans)
    plans.sort(key=lambda p: -len(p['ops']))
    global _B, _REFS
    _B = binder
    keys = sorted({k for p in plans for k in valuations(p)})
    # each reference is computed in a process of its own, forked from one in which no model object ever existed, so that
    # state kept outside the objects (modules, classes, default arguments) cannot agree with itself
    _REFS = dict(pool_map(reference, keys, fresh=True))
    chk.cov['reference_processes'] = len(keys)
    traces = pool_map(_replay_one, plans)
    n = sum(1 for t in traces for e in t if e['op'] == 'read')
    validate(chk, tracemod, prefix, traces)
    chk.cov['behaviours_by_mode'] = {m: sum(1 for p in plans if p['mode'] == m) for m in {p['mode'] for p in plans}}
    chk.cov['reads_compared'] = n
    chk.cov['values_compared'] = sum(len(e['obs']) for t in traces for e in t)
    for p in plans[-3:]:
        chk.sample(p)
    return traces


_B = None
_REFS = {}


def _replay_one(plan):
    return replay(_B, plan, _REFS)
