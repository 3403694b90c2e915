"""The caching scheme (spec/CacheProtocol.tla): checked exhaustively with negative controls, and replayed on a real class.

The real class has the parameters and quantities of spec/CacheCheck.tla and the base class of onepower's own models.
"""
import threading
from vf.common import MachineryError

CFG = 'SPECIFICATION Spec\nINVARIANTS Refines NoInternalError IndexComplete\nCHECK_DEADLOCK FALSE\n'


def toy():
    from hmf._internals._cache import cached_quantity, parameter
    from onepower import Spectra, UpsampledSpectra
    base = [c for c in Spectra.__mro__ if c in UpsampledSpectra.__mro__][0]      # what the models have in common

    def par(name, kind):
        def f(self, val):
            return val
        f.__name__ = name
        return parameter(kind)(f)

    class Toy(base):
        mode, opt = par('mode', 'switch'), par('opt', 'switch')
        a, b, c = par('a', 'param'), par('b', 'param'), par('c', 'param')

        def __init__(self):
            super().__init__()
            for p in ('mode', 'opt', 'a', 'b', 'c'):
                setattr(self, p, 0)

        def _got(self, q, *names):
            out = []
            for n in names:
                x = getattr(self, n)
                out.append(x if isinstance(x, list) else [x])
            return [q, out]

        @cached_quantity
        def lin(self):
            return self._got('lin', 'a')

        @cached_quantity
        def term(self):
            return self._got('term', 'mode', 'lin', 'c' if self.mode else 'b')

        @cached_quantity
        def spec(self):
            return self._got('spec', 'term', 'opt', 'lin', 'c') if self.opt else self._got('spec', 'opt', 'term')

        @cached_quantity
        def ratio(self):
            r = self._got('ratio', 'spec', 'lin')
            if self.c == 1 and self.mode == 1:
                raise ValueError('rejected')
            return r
    return Toy


def model(chk):
    """The model checking part; meant to run in threads beside the replay."""
    res = {}

    def one(m, n):
        try:
            res[m] = chk.tlc('CacheCheck', CFG, env=dict(MODE=m, MAXSET=n), workers=2, name='cache_' + m, expect_fail=m != 'good')
        except Exception as e:
            res[m] = e
    ths = [threading.Thread(target=one, args=(m, 2 if chk.thorough or m != 'good' else 1)) for m in ('good', 'noswitch', 'nopurge', 'direct')]
    [t.start() for t in ths]

    def finish():
        [t.join() for t in ths]
        for m, r in res.items():
            if isinstance(r, Exception):
                raise r
            if m != 'good' and ('is violated' not in r.out):
                raise MachineryError(f'negative control {m} of the caching scheme was not detected')
    return finish


def replay(chk, num, depth):
    r = chk.tlc('CacheGen', 'SPECIFICATION GSpec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n', env=dict(MODE='good', MAXSET=2, DEPTH=depth),
                args=['-simulate', f'num={num}', '-depth', str(depth + 2), '-seed', str(1000 * chk.seed + 71)], workers=1, name='cachegen')
    plans = r.printed('PLAN')
    if len(plans) < num * 0.9:
        raise MachineryError('too few behaviours of the caching scheme')
    T = toy()
    reads = 0
    for p in plans:
        o, done = T(), []
        for e in p:
            done.append(e)
            if e['op'] == 'update':
                # a later assignment of the same parameter in one call wins, as in a Python dict
                o.update(**{a: v for a, v in e['set']})
            else:
                reads += 1
                try:
                    got = getattr(o, e['q'])
                except ValueError:
                    got = []
                except Exception as x:
                    got = repr(x)
                if got != e['want']:
                    chk.violation('cache', f'{e["q"]} after a history of {len(done)} operations: {got} instead of {e["want"]}', replay=done)
                    return reads
    return reads
