"""C01: Spectra is history free."""
from vf import bind_spectra, cache, session
from vf.common import assert_repo_import


def run(chk):
    assert_repo_import()
    cache.model(chk)()
    if chk.thorough:
        jobs = [dict(mode='walk', chunk=12), dict(mode='order'), dict(mode='pair', npair=20)] + \
               [dict(mode='sim', num=150, depth=24, salt=s) for s in (3, 5, 9)]
    else:
        jobs = [dict(mode='walk', chunk=15), dict(mode='order'), dict(mode='pair', npair=1), dict(mode='sim', num=12, depth=14)]
    session.run_session(chk, 'SpectraGen', 'SpectraTrace', 'S', bind_spectra, jobs)
    chk.cov['cache_reads_replayed'] = cache.replay(chk, *((2000, 40) if chk.thorough else (150, 24)))
