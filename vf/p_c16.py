from vf import pointwise


def run(chk):
    pointwise.run(chk, 'z')
