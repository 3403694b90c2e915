"""Shared machinery: TLC runs, recording of values, evidence and verdicts."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
import numpy as np

HOME = os.environ.get('VF_HOME', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VF_REPO', '/repo')
SPEC = os.path.join(HOME, 'spec')
NPROC = max(1, min(8, os.cpu_count() or 1))


class MachineryError(Exception):
    """The check could not decide (never reported as a violation)."""


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f'vf_{pid}_')
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.violations = []
        self.assumptions = []
        self.level = 'model_checking'
        self.findings = load_findings(pid)
        self.seen_findings = set()

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, args=(), timeout=600, workers=None, name=None, expect_fail=False, dfs=False):
        """Run TLC on spec/<module>.tla with the cfg text; returns the parsed outcome."""
        d = tempfile.mkdtemp(dir=self.work, prefix=(name or module) + '_')
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, 'run.cfg'), 'w') as f:
            f.write(cfg)
        w = workers or NPROC
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx6g', '-Djava.io.tmpdir=' + d,
               '-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar',
               'tlc2.TLC', '-workers', str(w), '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE',
               '-config', 'run.cfg', *args, module + '.tla']
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f'TLC timed out on {module}')
        out = p.stdout
        r = TlcResult(out, p.returncode, d)
        if not r.ok and not expect_fail:
            tail = '\n'.join(x for x in out.splitlines() if not re.match(r'(Parsing|Semantic|Linting)', x))[-4000:]
            raise MachineryError(f'TLC failed on {module} (exit {p.returncode}):\n{tail}\n{p.stderr[-1000:]}')
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated
        return r

    # ---------------------------------------------------------------- verdicts
    def violation(self, clause, what, replay=None, key=None):
        """Record a violation; `key` identifies it for the known-findings file."""
        key = key or clause
        for f in self.findings:
            if f['key'] == key:
                if key not in self.seen_findings:
                    self.seen_findings.add(key)
                    print(f'KNOWN-FINDING: property={self.pid} {f["what"]}', flush=True)
                return
        self.violations.append({'clause': clause, 'what': what, 'replay': replay})

    def sample(self, s):
        if len(self.cov['samples']) < 6:
            self.cov['samples'].append(s)

    def finish(self):
        ev = os.environ.get('VF_EVID') or os.path.join(HOME, 'evidence')
        os.makedirs(ev, exist_ok=True)
        wall = round(time.time() - self.t0, 2)
        if not self.cov['samples']:
            self.cov['samples'] = ['(none recorded)']
        doc = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
               'coverage': self.cov, 'assumptions': self.assumptions, 'wall_s': wall,
               'violations': len(self.violations)}
        with open(os.path.join(ev, f'{self.pid}.json'), 'w') as f:
            json.dump(doc, f, indent=1, default=jsonable)
        if not self.violations:
            print(f'OK property={self.pid} tier={self.tier} wall={wall}s states={self.cov["states"]} '
                  f'traces={self.cov["traces_validated_against_impl"]}')
            return 0
        rp = os.path.join(ev, f'replay_{self.pid}.json')
        with open(rp, 'w') as f:
            json.dump(self.violations[:50], f, indent=1, default=jsonable)
        seen = set()
        for v in self.violations:
            if v['clause'] not in seen and len(seen) < 8:
                seen.add(v['clause'])
                print(f'  {v["clause"]}: {v["what"]}')
        print(f'VIOLATION property={self.pid} replay={rp}')
        return 1

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


class TlcResult:
    def __init__(self, out, rc, d):
        self.out, self.rc, self.dir = out, rc, d
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        m2 = re.findall(r'states checked(?:: )?\s*([\d,]+)', out)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        if not m:
            s = re.findall(r'Progress: ([\d,]+) states checked|The number of states generated: ([\d,]+)', out)
            if s:
                n = max(int((a or b).replace(',', '')) for a, b in s)
                self.generated = self.distinct = n
        self.ok = rc == 0
        self.violated = re.findall(r'Invariant (\S+) is violated', out) + re.findall(r'Action property (\S+) is violated', out)
        self.postfail = 'is violated' in out and 'post condition' in out.lower()

    def printed(self, tag):
        """JSON payloads printed by the spec as PrintT(tag \\o ToJson(..)) or PrintT(<<tag, ToJson(..)>>)."""
        res = []
        for line in self.out.splitlines():
            line = line.strip()
            if line.startswith('"' + tag):
                s = json.loads(line)
                res.append(json.loads(s[len(tag):]))
        return res

    def load(self, name='out.json'):
        with open(os.path.join(self.dir, name)) as f:
            return json.load(f)


def jsonable(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (set, tuple)):
        return list(x)
    return repr(x)


def load_findings(pid):
    path = os.path.join(HOME, 'known_findings.txt')
    res = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                res.append({'key': m.group(2), 'what': m.group(3)})
    return res


# -------------------------------------------------------------------- values
def canon(r):
    """Canonical list form of an observed value: arrays, scalars, None, text, nested."""
    if r is None:
        return ['none']
    if isinstance(r, BaseException):
        return ['exc', type(r).__name__]
    if hasattr(r, 'pk_tot') and hasattr(r, 'pk_1h'):
        return ['ps'] + [canon(getattr(r, a, None)) for a in ('pk_1h', 'pk_2h', 'pk_tot', 'galaxy_linear_bias')]
    if isinstance(r, (bool, np.bool_)):
        return ['bool', bool(r)]
    if isinstance(r, str):
        return ['str', r]
    if isinstance(r, dict):
        return ['dict'] + [[str(k), canon(v)] for k, v in sorted(r.items(), key=lambda t: str(t[0]))]
    if hasattr(r, 'unit') and hasattr(r, 'value'):
        return ['q', str(r.unit), canon(r.value)]
    if isinstance(r, (int, float, np.integer, np.floating, complex)):
        return ['arr', np.array(r)]
    if isinstance(r, np.ndarray) and r.dtype != object:
        return ['arr', np.array(r)]
    if isinstance(r, (list, tuple)) or isinstance(r, np.ndarray):
        return ['list'] + [canon(x) for x in r]
    if hasattr(r, 'H0') and hasattr(r, 'Om0'):
        return ['cosmo'] + [canon(np.array(getattr(r, a), dtype=float)) for a in ('Om0', 'Ob0', 'w0', 'wa', 'Neff', 'h')] + \
            [canon(float(r.Tcmb0.value)), canon(np.array(r.m_nu.value))]
    if isinstance(r, type):
        return ['type', r.__name__]
    return ['obj', type(r).__name__]


def close(a, b, rtol=1e-8, atol_rel=1e-12):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return False
        if a.dtype.kind in 'US' or b.dtype.kind in 'US':
            return bool(np.array_equal(a, b))
        na, nb = np.isnan(a), np.isnan(b)
        if not np.array_equal(na, nb):
            return False
        fb = b[np.isfinite(b)]
        scale = float(np.max(np.abs(fb))) if fb.size else 0.0
        with np.errstate(all='ignore'):
            ok = (a == b) | (np.abs(a - b) <= rtol * np.abs(b) + atol_rel * scale) | (na & nb)
        return bool(np.all(ok))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y, rtol, atol_rel) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


class Interner:
    """Gives equal (within tolerance) values equal small integers."""

    def __init__(self, rtol=1e-8, atol_rel=1e-12):
        self.tab = {}
        self.rtol, self.atol = rtol, atol_rel

    def id(self, kind, value):
        c = value if isinstance(value, list) and value and isinstance(value[0], str) else canon(value)
        reps = self.tab.setdefault(kind, [])
        for i, r in enumerate(reps):
            if close(c, r, self.rtol, self.atol):
                return i + 1
        reps.append(c)
        return len(reps)


def relerr(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return float('inf')
    with np.errstate(all='ignore'):
        d = np.abs(a - b) / np.where(b == 0, 1, np.abs(b))
    d = d[np.isfinite(d)]
    return float(d.max()) if d.size else 0.0


def speed_up_libraries():
    """Memoise astropy's unit composition (a third of the cost of building a cosmology); pure, third-party."""
    from astropy.units import core
    if getattr(core.UnitBase, '_vf_memo', False):
        return
    orig = core.UnitBase.to_system
    memo = {}

    def to_system(self, system):
        key = (repr(self), getattr(self, 'scale', None), system.__name__)
        if key not in memo:
            memo[key] = orig(self, system)
        return list(memo[key])
    core.UnitBase.to_system = to_system
    core.UnitBase._vf_memo = True


def assert_repo_import():
    speed_up_libraries()
    import onepower
    p = os.path.realpath(onepower.__file__)
    if not p.startswith(os.path.realpath(REPO) + os.sep):
        raise MachineryError(f'onepower imported from {p}, not from {REPO}')


def pool_map(fn, jobs, nproc=None, chunksize=1, fresh=False):
    import multiprocessing as mp
    jobs = list(jobs)
    if not jobs:
        return []
    ctx = mp.get_context('fork')
    with ctx.Pool(min(nproc or NPROC, len(jobs)), maxtasksperchild=1 if fresh else None) as P:
        return P.map(fn, jobs, chunksize=chunksize)


def judge(chk, module, traces, plans=None, inv='', env=None, name=None, cfg='', workers=None):
    """Have TLC judge recorded traces: the trace module prints one VERDICT [t, n, bad] per trace."""
    path = os.path.join(chk.work, f'{name or module}.json')
    with open(path, 'w') as f:
        json.dump(traces, f, default=jsonable)
    r = chk.tlc(module, f'SPECIFICATION TSpec\nINVARIANTS Report {inv}\nCHECK_DEADLOCK FALSE\n{cfg}', env=dict(env or {}, TRACE=path),
                workers=workers)
    vd = r.printed('VERDICT')
    if len({v['t'] for v in vd}) != len(traces) or any(v['n'] != len(traces[v['t'] - 1]['ops']) for v in vd):
        raise MachineryError(f'{module}: {len(vd)} verdicts for {len(traces)} traces, or traces not consumed')
    for v in sorted(vd, key=lambda v: v['t']):
        t = traces[v['t'] - 1]
        p = plans[v['t'] - 1] if plans else t.get('id', v['t'])
        for b in v['bad'][:4]:
            pos, clause, what = b[:3]
            e = t['ops'][pos - 1]
            if clause == 'machinery':
                raise MachineryError(f'{module}: event {e} not known to the specification')
            extra = str(e.get('err') or '') + ' ' + str(e.get('what') or '')
            chk.violation(f'{clause}:{what}', f'{clause} {what} {extra} at step {pos} of {str(p)[:300]}', p, key=e.get('key') or t.get('key'))
    chk.cov['traces_validated_against_impl'] += len(traces)
    return vd
