"""C08: composition of the spectra (g), against spec/HaloModel.tla."""
from vf import hm
from vf.common import assert_repo_import


def run(chk):
    assert_repo_import()
    hm.compose(chk, 'g', 40 if chk.thorough else 4)
