"""C19: pipeline results do not depend on earlier points (spec/Pipeline.tla)."""
from vf import pipeline


def run(chk):
    pipeline.run(chk, False)
