"""Evaluation of the expression trees of spec/Expr.tla over named axes, and the comparison driver for spec/Compose.tla."""
import numpy as np
from scipy.integrate import simpson, trapezoid
from scipy.special import erf


def share(e, pool):
    """Hash-consing, so that equal subexpressions are evaluated once."""
    e['a'] = [share(x, pool) for x in e['a']]
    k = (e['op'], e['n'], tuple(id(x) for x in e['a']))
    return pool.setdefault(k, e)


def lin(x0, y, x1, mode):
    """Linear interpolation along the last axis of y (written out: no library involved)."""
    n = len(x0)
    if np.any(np.diff(x0) < 0):                 # the points may come in any order
        i = np.argsort(x0)
        x0, y = x0[i], y[..., i]
    j = np.clip(np.searchsorted(x0, x1, side='right') - 1, 0, n - 2)
    w = (x1 - x0[j]) / (x0[j + 1] - x0[j])
    r = y[..., j] * (1 - w) + y[..., j + 1] * w
    out = (x1 < x0[0]) | (x1 > x0[-1])
    if mode == 'zero':
        r = np.where(out, 0., r)
    elif mode[0] == 'v':
        r = np.where(out, float(mode[1:]), r)
    elif mode[0] == 'p':
        a, b = map(float, mode[1:].split(','))
        r = np.where(x1 < x0[0], a, np.where(x1 > x0[-1], b, r))
    elif mode == 'nearest':
        j = np.argmin(np.abs(x1[:, None] - x0[None, :]), axis=1)
        r = y[..., j]
    elif mode == 'const':
        r = np.where(x1 < x0[0], y[..., :1], np.where(x1 > x0[-1], y[..., -1:], r))
    return r


class Eval:
    """axes: string of axis letters; leaf(name) -> (axes string, array)."""

    def __init__(self, axes, leaf, ops=None, via=None):
        self.axes = axes
        self.n = {a: i for i, a in enumerate(axes)}
        self.leaf_fn = leaf
        self.ops, self.via = ops or {}, via or {}
        self.memo, self.leaves = {}, {}

    def leaf(self, name):
        if name not in self.leaves:
            ax, v = self.leaf_fn(name)
            a = np.asarray(v, float)
            if a.ndim != len(ax):
                raise ValueError(f'leaf {name}: shape {a.shape} for axes {ax}')
            order = sorted(range(len(ax)), key=lambda j: self.n[ax[j]])
            a = a.transpose(order)
            shape = [1] * len(self.axes)
            for j, o in enumerate(order):
                shape[self.n[ax[o]]] = a.shape[j]
            self.leaves[name] = a.reshape(shape)
        return self.leaves[name]

    def ev(self, e):
        k = id(e)
        if k not in self.memo:
            self.memo[k] = (self._ev(e), e)
        return self.memo[k][0]

    def _along(self, f, ax, *arrs):
        """Apply f to 1-d slices along ax (last) of all arrays broadcast over the other axes."""
        i = self.n[ax]
        return i

    def _ev(self, e):
        op = e['op']
        D = len(self.axes)
        if op == 'leaf':
            return self.leaf(e['n'])
        if op == 'num':
            return np.full((1,) * D, float(e['n']))
        if op == 'zero':
            return np.zeros((1,) * D)
        if op == 'via':
            return self.via[e['n'].split()[2]](self, e)
        a = [self.ev(x) for x in e['a']]
        with np.errstate(all='ignore'):
            if op == 'mul':
                r = a[0]
                for x in a[1:]:
                    r = r * x
                return r
            if op == 'add':
                r = a[0]
                for x in a[1:]:
                    r = r + x
                return r
            if op == 'sub':
                return a[0] - a[1]
            if op == 'div':
                return a[0] / a[1]
            if op == 'pow':
                return a[0] ** a[1]
            if op == 'exp':
                return np.exp(a[0])
            if op == 'sqrt':
                return np.sqrt(a[0])
            if op == 'log10':
                return np.log10(a[0])
            if op == 'erf':
                return erf(a[0])
            if op == 'step':
                return (a[0] >= 0).astype(float)
            if op == 'gt':
                return (a[0] > a[1]).astype(float)
            if op == 'min':
                return np.minimum(a[0], a[1])
            if op == 'max':
                return np.maximum(a[0], a[1])
            if op == 'abs':
                return np.abs(a[0])
            if op == 'ln':
                return np.log(a[0])
            if op == 'take':
                old, new, *idx = e['n'].split()
                r = np.take(a[0], [int(x) for x in idx], axis=self.n[old])
                return r if old == new else np.swapaxes(r, self.n[old], self.n[new])
            if op == 'if0':
                return np.where(a[0] == 0, a[1], a[2])
            if op in ('simpson', 'trapz'):
                ax = self.n[e['n']]
                sh = np.broadcast_shapes(a[0].shape, a[1].shape)
                y, x = np.broadcast_to(a[0], sh), np.broadcast_to(a[1], sh)
                f = simpson if op == 'simpson' else trapezoid
                return np.expand_dims(f(y, x=x, axis=ax), ax)
            if op == 'interp':
                mode, old, new = e['n'].split()
                i, j = self.n[old], self.n[new]
                y, x0, x1 = a
                # common shape of the axes that are neither old nor new; along new only x1 varies
                rest = [1 if d in (i, j) else max(y.shape[d], x0.shape[d], x1.shape[d]) for d in range(D)]
                ys = [y.shape[i] if d == i else r for d, r in enumerate(rest)]
                ys[i] = x0.shape[i]
                x1s = [x1.shape[j] if d == j else r for d, r in enumerate(rest)]
                y, x0 = np.broadcast_to(y, ys), np.broadcast_to(x0, ys)
                x1 = np.broadcast_to(x1, x1s)
                y2 = np.moveaxis(y, i, -1)
                x02 = np.moveaxis(x0, i, -1)
                x12 = np.moveaxis(x1, j, -1)
                flat = [v.reshape(-1, v.shape[-1]) for v in (x02, y2, x12)]
                out = np.array([lin(p, q, s, mode) for p, q, s in zip(*flat)])
                # moveaxis removed a length-one axis position i resp. j: restore
                lead = np.moveaxis(np.empty([r for r in rest]), j, -1).shape[:-1]
                out = out.reshape(*lead, x12.shape[-1])
                return np.moveaxis(out, -1, j)
            if op == 'rename':
                old, new = e['n'].split()
                return np.swapaxes(a[0], self.n[old], self.n[new])
            if op == 'sum':
                return np.sum(a[0], axis=self.n[e['n']], keepdims=True)
            if op == 'fn':
                return self.ops[e['n']](*np.broadcast_arrays(*a))
            if op == 'at0':
                return np.take(a[0], [0], axis=self.n[e['n']])
            if op in self.ops:
                return self.ops[op](self, e, a)
        raise ValueError(op)

    def value(self, e, out):
        """Value of e as an array over the axes `out` (broadcast axes keep length one)."""
        r = self.ev(e)
        drop = [d for d in range(len(self.axes)) if self.axes[d] not in out]
        if any(r.shape[d] != 1 for d in drop):
            raise ValueError('axis left')
        r = r.reshape([s for d, s in enumerate(r.shape) if d not in drop])
        kept = [x for x in self.axes if x in out]
        return r.transpose([kept.index(x) for x in out])


def agrees(obs, pred, rtol=1e-7, atol_rel=1e-13):
    """Elementwise agreement of an observed array with the predicted one (which may broadcast over leading axes)."""
    if obs is None:
        return False, 'missing'
    try:
        obs = np.asarray(obs, float)
        p = np.broadcast_to(pred, obs.shape)
    except (ValueError, TypeError) as e:
        return False, f'shape {np.shape(obs)} instead of {np.shape(pred)}'
    na, nb_ = ~np.isfinite(obs), ~np.isfinite(p)
    if not np.array_equal(na, nb_):
        return False, 'finiteness'
    with np.errstate(all='ignore'):
        sc = np.max(np.abs(p[~nb_])) if (~nb_).any() else 0.
        bad = (np.abs(obs - p) > rtol * np.abs(p) + atol_rel * sc) & ~na
    if bad.any():
        j = tuple(int(x) for x in np.argwhere(bad)[0])
        return False, f'at {j}: {obs[j]:.10g} instead of {p[j]:.10g}'
    return True, ''


CONST = '''CONSTANTS
 CfgSeq <- {p}CfgSeq
 QSeq <- {p}QSeq
 Term <- {p}Term
 LeafAx <- {p}LeafAx
 OutAx <- {p}OutAx
 Sound <- {p}Sound
'''
_CFGS = _FN = None


def _call(job):
    return _FN(_CFGS[job[0]], job[1])


def compose(chk, module, prefix, fn, nvar, env=None, inv='WellFormed AllSound', sub=None):
    """Export the configurations of `module`, let fn(entry, variant) evaluate and observe (list of events), have TLC judge."""
    global _CFGS, _FN
    from vf.common import pool_map, judge, MachineryError
    cfg = CONST.format(p=prefix)
    r = chk.tlc(module, f'INIT GInitX\nNEXT GNextX\nINVARIANTS {inv} Export\nCHECK_DEADLOCK FALSE\n' + cfg, env=env)
    _CFGS, _FN = r.printed('CFG'), fn
    if not _CFGS:
        raise MachineryError('no configurations exported by ' + module)
    jobs = [(j, v) for j in range(len(_CFGS)) for v in range(nvar)]
    if sub:
        jobs = [x for x in jobs if sub(_CFGS[x[0]]['cfg'], x[1])]
    res = pool_map(_call, jobs, chunksize=max(1, min(8, len(jobs) // 32)))
    traces, plans = [], []
    for (j, v), ev in zip(jobs, res):
        traces.append(dict(i=_CFGS[j]['i'], cfg=_CFGS[j]['cfg'], v=v, ops=ev))
        plans.append(dict(cfg=_CFGS[j]['cfg'], variant=v, seed=chk.seed))
    judge(chk, module, traces, plans, env=env, cfg=cfg)
    chk.cov['configurations'] = chk.cov.get('configurations', 0) + len(_CFGS)
    chk.cov['comparisons'] = chk.cov.get('comparisons', 0) + sum(len(t['ops']) for t in traces)
    for x in (0, len(jobs) // 2, len(jobs) - 1):
        chk.sample(plans[x])
    return traces


def event(q, obs, pred=None, err='', rtol=1e-7, atol_rel=1e-13):
    """One comparison; pred is a function giving the predicted value (not called if there is nothing to compare)."""
    d = dict(q=q, obs=0, pred=1, err=err, what='')
    if not err and obs is not None:
        if pred is None:
            d['obs'] = 2
        else:
            ok, what = agrees(obs, pred(), rtol, atol_rel)
            d['obs'], d['what'] = (1, '') if ok else (2, what)
    return d


def safely(f):
    try:
        return f(), ''
    except Exception as ex:
        return None, f'{type(ex).__name__}: {str(ex)[:80]}'
