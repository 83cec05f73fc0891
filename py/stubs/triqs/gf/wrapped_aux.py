"""Stand-in for the compiled module of the same name: the functions take what the converters of the compiled module take."""
import numbers as _numbers

import numpy as _np


def _matrix_gf(g):
    if type(g.mesh).__name__ not in ('MeshImFreq', 'MeshReFreq') or g.target_rank != 2 or g.data.dtype != _np.complex128:
        raise TypeError('Cpp2py converter: Python to C++: no overload of the function matches the call')


def _add(g, y, sign):
    _matrix_gf(g)
    n, m = g.target_shape
    if isinstance(y, _numbers.Number):
        k = _np.arange(min(n, m))
        g.data[:, k, k] += sign * complex(y)
        return
    y = _np.asarray(y)
    if y.ndim != 2 or y.dtype == object:
        raise TypeError('Cpp2py converter: Python to C++: no overload of the function matches the call')
    if y.shape != (n, m):
        raise RuntimeError('shapes')
    g.data[:] += sign * y


def _iadd_g_matrix_scalar(g, y):
    _add(g, y, 1)


def _isub_g_matrix_scalar(g, y):
    _add(g, y, -1)


def _gf_invert_data_in_place(a):
    if not isinstance(a, _np.ndarray) or a.dtype != _np.complex128 or a.ndim != 3:
        raise TypeError('Cpp2py converter: Python to C++: no overload of the function matches the call')
    if a.shape[1] != a.shape[2]:
        raise RuntimeError('not square')
    a[...] = _np.linalg.inv(a)


def set_from_gf_data_mul_LR(a, l, b, r):
    for ty in (_np.float64, _np.complex128):
        if a.dtype == ty and b.dtype == ty and all(_np.can_cast(x.dtype, ty) for x in (l, r)) and a.ndim == b.ndim == 3:
            break
    else:
        raise TypeError('Cpp2py converter: Python to C++: no overload of the function matches the call')
    if a.shape[0] != b.shape[0]:
        raise RuntimeError('lengths')
    for n in range(a.shape[0]):
        a[n] = l @ b[n] @ r


def _make_gf_from_real_gf(g):
    m = type(g.mesh)(g.mesh.beta, g.mesh.statistic, len(g.mesh))
    d = g.data
    neg = d[::-1] if g.mesh.statistic == 'Fermion' else d[:0:-1]
    return type(g)(mesh=m, data=_np.concatenate([neg.conj(), d]))


class _proxy:
    """keeps a copy of the mesh and a view of the data, as the view of the compiled module"""

    def __init__(self, g):
        if g.data.dtype != (_np.float64 if type(self).__name__.endswith('_R') else _np.complex128):
            raise TypeError('Cpp2py converter')
        self.m, self.d = g.mesh.copy(), g.data

    def _lin(self, x, lo, hi):
        n = len(self.m)
        if not lo <= x <= hi:
            raise RuntimeError('outside of the mesh')
        s = (x - lo) / (hi - lo) * (n - 1)
        k = min(int(s), n - 2)
        w = s - k
        return self.d[k] * (1 - w) + self.d[k + 1] * w


class _imfreq(_proxy):
    def __call__(self, x):
        if not isinstance(x, int):
            if type(x).__name__ != 'MatsubaraFreq' or x.beta != self.m.beta or x.statistic != self.m.statistic:
                raise TypeError('no overload')
            x = x.n
        return self.d[self.m.to_data_index(x)].copy()


class _imtime(_proxy):
    def __call__(self, x):
        return self._lin(x, 0, self.m.beta)


class _refreq(_proxy):
    def __call__(self, x):
        return self._lin(x, self.m.w_min, self.m.w_max)


class _brzone(_proxy):
    def __call__(self, x):
        if all(isinstance(q, int) for q in x):
            return self.d[self.m.to_data_index([q % n for q, n in zip(x, self.m.dims)])].copy()
        raise TypeError('no overload')


for _r in range(5):
    for _n, _b in (('ImFreq', _imfreq), ('ImTime', _imtime), ('ReFreq', _refreq), ('BrZone', _brzone)):
        globals()['CallProxy%s_%d' % (_n, _r)] = type('CallProxy%s_%d' % (_n, _r), (_b,), {})
    globals()['CallProxyImTime_%d_R' % _r] = type('CallProxyImTime_%d_R' % _r, (_imtime,), {})
