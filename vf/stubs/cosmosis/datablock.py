"""Stand-in data block: case-insensitive (section, name) -> value with the accessors the pipeline modules use."""
import numpy as np

option_section = 'module_options'


class _Names:
    def __getattr__(self, n):
        return n


names = _Names()


class BlockError(ValueError):
    pass


class DataBlock:
    def __init__(self, d=None):
        self.d, self.meta = {}, {}
        for (s, n), v in (d or {}).items():
            self[s, n] = v

    @staticmethod
    def _k(s, n):
        return str(s).lower(), str(n).lower()

    def has_value(self, s, n):
        return self._k(s, n) in self.d

    def has_section(self, s):
        return any(k[0] == str(s).lower() for k in self.d)

    def sections(self):
        return sorted({k[0] for k in self.d})

    def keys(self, section=None):
        return [k for k in self.d if section is None or k[0] == section.lower()]

    def get(self, s, n):
        try:
            v = self.d[self._k(s, n)]
            return v.copy() if isinstance(v, np.ndarray) else v
        except KeyError:
            raise BlockError(f'{s} {n} not found')

    def __getitem__(self, k):
        return self.get(*k)

    def __setitem__(self, k, v):
        if isinstance(v, (list, tuple)):
            v = np.array(v)
        self.d[self._k(*k)] = v.copy() if isinstance(v, np.ndarray) else v

    def __contains__(self, k):
        return self.has_value(*k)

    def _typed(self, s, n, default, conv):
        if not self.has_value(s, n):
            if default is None:
                raise BlockError(f'{s} {n} not found')
            return default
        v = self.get(s, n)
        if isinstance(v, str) and conv is not str:
            raise BlockError(f'{s} {n} has the wrong type')
        return conv(v)

    def get_double(self, s, n, default=None):
        return self._typed(s, n, default, float)

    def get_int(self, s, n, default=None):
        return self._typed(s, n, default, int)

    def get_bool(self, s, n, default=None):
        return self._typed(s, n, default, bool)

    def get_string(self, s, n, default=None):
        return self._typed(s, n, default, str)

    def get_double_array_1d(self, s, n, default=None):
        return self._typed(s, n, default, lambda v: np.array(v, float))

    get_double_array_nd = get_double_array_1d

    def _put(self, s, n, v):
        self[s, n] = v

    put = put_int = put_double = put_string = put_bool = replace = replace_double = replace_int = replace_string = _put

    def put_double_array_1d(self, s, n, v):
        v = np.array(v, float)
        if v.ndim != 1:
            raise BlockError(f'{s} {n}: not one-dimensional')
        self[s, n] = v

    def put_double_array_nd(self, s, n, v):
        self[s, n] = np.array(v, float)

    replace_double_array_1d = put_double_array_1d
    replace_double_array_nd = put_double_array_nd

    def put_grid(self, s, nx, x, ny, y, nz, z):
        x, y, z = (np.array(v, float) for v in (x, y, z))
        if z.shape != (x.size, y.size):
            raise BlockError(f'{s} {nz}: shape {z.shape} on a grid of {x.size} by {y.size}')
        for n, v in ((nx, x), (ny, y)):
            self[s, n] = v
        self[s, nz] = z
        self.meta[self._k(s, nz) + ('axes',)] = f'{nx} {ny}'.lower()

    replace_grid = put_grid

    def get_grid(self, s, nx, ny, nz):
        return self[s, nx], self[s, ny], self[s, nz]

    def put_metadata(self, s, n, k, v):
        self.meta[self._k(s, n) + (k,)] = v

    replace_metadata = put_metadata

    def get_metadata(self, s, n, k):
        try:
            return self.meta[self._k(s, n) + (k,)]
        except KeyError:
            raise BlockError(f'no metadata {k} of {s} {n}')
