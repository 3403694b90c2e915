"""Planting of bugs.  make(): write seeded/<id>/ from a textual edit; verify: build, tests and demo in a scratch copy.
usage: python3 tools/seed.py verify ID...   (each in its own copy under /tmp, removed afterwards)
       python3 tools/seed.py catch ID PROP... (run the checks against a scratch copy with the patch)"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')
DEMO_SH = '''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONPATH="$PWD/src"
exec python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def scratch():
    d = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
    sh(f'cp -a /repo {d}/repo')
    return d, os.path.join(d, 'repo')


def make(id, prop, edits, demo, needs, breaks):
    """edits: list of (file, old, new); each old must occur exactly once."""
    d, r = scratch()
    try:
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', cwd=r).stdout
        assert diff
        o = os.path.join(SEED, id)
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, 'patch.diff'), 'w').write(diff)
        open(os.path.join(o, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(o, 'demo.sh'), 0o755)
        open(os.path.join(o, 'demo.py'), 'w').write(demo)
        if 'pipe_helper' in demo:
            shutil.copytree(os.path.join(HERE, 'tools', 'demo_helper'), o, dirs_exist_ok=True, ignore=shutil.ignore_patterns('__pycache__'))
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(o, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(d)


def verify(id):
    d, r = scratch()
    try:
        p = os.path.join(SEED, id)
        a = sh(f'bash {p}/demo.sh', cwd=r)
        g = sh(f'git apply {p}/patch.diff', cwd=r)
        assert g.returncode == 0, g.stderr
        b = sh(f'bash {p}/demo.sh', cwd=r)
        t = sh('. /opt/vp/env.sh; export PYTHONPATH=$PWD/src; python -m pytest -q --no-cov -p no:cacheprovider -n 8 --timeout=600 tests 2>&1 | tail -15', cwd=r, executable='/bin/bash')
        ok = a.returncode == 0 and b.returncode != 0 and ' failed' not in t.stdout and ' error' not in t.stdout
        print(id, 'OK' if ok else 'BAD', 'demo clean', a.returncode, 'demo patched', b.returncode, t.stdout.strip().splitlines()[-1:])
        if not ok:
            print(a.stdout[-800:], a.stderr[-1500:], '---', b.stdout[-500:], b.stderr[-500:], t.stdout[-2500:])
        return ok
    finally:
        shutil.rmtree(d)


def catch(id, props):
    d, r = scratch()
    try:
        g = sh(f'git apply {SEED}/{id}/patch.diff', cwd=r)
        assert g.returncode == 0, g.stderr
        for q in props:
            x = sh(f'VF_REPO={r} VF_EVID={d} bash {HERE}/check.sh {q}', cwd=HERE)
            print(id, q, 'exit', x.returncode, '|', ' / '.join(l.strip()[:160] for l in x.stdout.splitlines()[-4:]), x.stderr[-600:] if x.returncode not in (0, 1) else '', flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == 'verify':
        for i in sys.argv[2:]:
            verify(i)
    elif sys.argv[1] == 'catch':
        props = sys.argv[3:] or [json.load(open(f'{SEED}/{sys.argv[2]}/meta.json'))['property']]
        catch(sys.argv[2], props)
    elif sys.argv[1] == 'catchall':
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
        for i in ids:
            catch(i, [json.load(open(f'{SEED}/{i}/meta.json'))['property']])
