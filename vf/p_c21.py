"""C21: the refresh schedule of the non-linear bias (spec/Pipeline.tla)."""
from vf import pipeline


def run(chk):
    pipeline.run(chk, True)
