"""Concrete values for spec/BnlTable.tla and the quantities of NonLinearBias (with the stand-in emulator)."""
import copy
import numpy as np
from vf import fakeemu
from vf.bind_spectra import inner, near

V = dict(
    mass=dict(b=np.logspace(11.5, 15, 5), a=np.logspace(12.2, 14.6, 4)), z_vec=dict(b=np.array([.1, .3]), a=np.array([0., .5, .7])),
    k_vec=dict(b=np.logspace(-2, 1, 5), a=np.logspace(-1.5, .5, 4)), h0=dict(b=.7, a=.69), sigma_8=dict(b=.8, a=.77, h=1.9, **{'None': None}),
    A_s={'None': None, 'x': 2e-9, 'y': 2.4e-9, 'h': 9e-9}, omega_b=dict(b=.0455, a=.0465, l=.03, h=.06),
    omega_c=dict(b=.24, a=.25, l=.15, h=.35), omega_lambda=dict(b=.7, a=.68, l=.4, h=.9), n_s=dict(b=.96, a=.94, l=.8, h=1.1),
    w0=dict(b=-1., a=-.95, l=-1.5, h=-.5), z_dep=dict(F=False, T=True))


for _p in V:
    if 'b' in V[_p]:
        V[_p]['n'] = near(V[_p]['b'])
for _p in ('mass', 'z_vec', 'k_vec'):
    V[_p]['i'] = inner(V[_p]['b'])
V['omega_b'].update(j=.0465, jh=.0455 * .7**2 / .69**2)
V['omega_c'].update(j=.2855 - .0465, jh=.24 * .7**2 / .69**2)


def kwargs_of(assign, clear=()):
    return {p: copy.deepcopy(V[p][x]) for p, x in assign}


def create(assign):
    from onepower.bnl import NonLinearBias
    fakeemu.install()
    kw = {p: copy.deepcopy(t.get('b')) for p, t in V.items() if p not in ('A_s', 'z_dep')}
    kw.update(kwargs_of(assign))
    return NonLinearBias(**kw)


GROUPS = dict(emu=['emu', 'sig', 'ombh2', 'omch2', 'minimum_halo_mass'], bnl=['bnl'])
GROUPS['all'] = GROUPS['emu'] + ['rvir', 'bnl', 'bnl']
GROUPS['rev'] = GROUPS['all'][::-1]


def read(o, g):
    out = []
    for q in GROUPS[g]:
        try:
            if q == 'emu':
                r = np.array(o.emulator.c)
            elif q == 'sig':
                r = o.emulator.get_sigma8()
            elif q == 'rvir':
                r = o.rvir(np.array([1e12, 1e14]))
            else:
                r = getattr(o, q)
        except Exception as e:
            r = e
        out.append((q, r))
    return out
