"""C02: UpsampledSpectra is history free."""
from vf import bind_upsampled, session
from vf.common import assert_repo_import


def run(chk):
    assert_repo_import()
    if chk.thorough:
        jobs = [dict(mode='walk', chunk=8), dict(mode='order'), dict(mode='pair', npair=20)] + [dict(mode='sim', num=150, depth=20, salt=s) for s in (3, 5)]
    else:
        jobs = [dict(mode='walk', chunk=8), dict(mode='order'), dict(mode='pair', npair=1), dict(mode='sim', num=12, depth=14)]
    session.run_session(chk, 'UpsampledGen', 'UpsampledTrace', 'U', bind_upsampled, jobs)
