from vf import hodx


def run(chk):
    hodx.run(chk, 'C13')
