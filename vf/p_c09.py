"""C09: composition of the spectra (ia), against spec/HaloModel.tla."""
from vf import hm
from vf.common import assert_repo_import


def run(chk):
    assert_repo_import()
    hm.compose(chk, 'ia', 40 if chk.thorough else 4)
