"""C03: the alignment calculators are history free."""
from vf import bind_align, session
from vf.common import assert_repo_import


def run(chk):
    assert_repo_import()
    bind_align.catalogues(chk.work)
    if chk.thorough:
        jobs = [dict(mode='walk', chunk=8), dict(mode='order'), dict(mode='pair', npair=25)] + [dict(mode='sim', num=300, depth=24, salt=s) for s in (3, 5)]
    else:
        jobs = [dict(mode='walk', chunk=8), dict(mode='order'), dict(mode='pair', npair=2), dict(mode='sim', num=16, depth=16)]
    session.run_session(chk, 'AlignGen', 'AlignTrace', 'A', bind_align, jobs)
