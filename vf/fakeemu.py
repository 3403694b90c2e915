"""A stand-in for the Dark Emulator back end: smooth, deterministic, sensitive to every input, and recording the
cosmologies it is given.  Installed at dark_emulator.darkemu.base_class, below the code under test."""
import numpy as np

CALLS = []


class _Cosmo:
    def __init__(self, emu):
        self.emu = emu

    def get_Omega0(self):
        return 1.0 - self.emu.c[2]


class FakeEmu:
    def __init__(self, *a, **k):
        self.c = None
        self.cosmo = _Cosmo(self)
        self.log = []

    def set_cosmology(self, cparam):
        self.c = np.array(cparam, float).reshape(-1)
        self.log.append(self.c.copy())
        CALLS.append(self.c.copy())

    def get_sigma8(self):
        b, c, de, lnA, ns, w = self.c
        return .8 * np.sqrt(np.exp(lnA - np.log(21.))) * (1 + 2 * (c - .12) - 3 * (b - .022)) * (1 + .2 * (ns - .96)) * (1 - .1 * (w + 1)) * (1 + .3 * (de - .7))

    def get_pklin_from_z(self, k, z):
        return self.get_sigma8() ** 2 * 2e4 * k / .02 / (1 + (k / .02) ** 2.4) / (1 + z) ** 2

    def get_phh_mass(self, k, M1, M2, z):
        b1, b2 = (.6 + .3 * np.log10(M / 1e11) for M in (M1, M2))
        osc = 1 + .3 * np.sin(9 * np.log(k) + self.c[1] * 30 + self.c[4] * 5) ** 2 * (1 + .1 * z)
        nl = 1 + .2 * self.get_sigma8() * np.log10(M1 * M2 / 1e22) * np.exp(-(np.log(k / .4)) ** 2)
        return b1 * b2 * self.get_pklin_from_z(k, z) * osc * nl + 50. / (1 + .1 * np.log10(M1 * M2))


def install():
    import dark_emulator.darkemu as d
    d.base_class = FakeEmu
    import dark_emulator
    dark_emulator.darkemu.base_class = FakeEmu
