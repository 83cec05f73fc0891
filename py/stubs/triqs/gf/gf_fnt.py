"""Stand-in for the compiled module of the same name: simple numerics with the documented signatures, and a log of the calls."""
import numpy as _np

_calls = []


def _freq(m):
    return _np.array([complex(x.value) for x in m])


def density(g, *a, **k):
    """linear in the data; the compiled function is decided elsewhere"""
    n = type(g.mesh).__name__
    if n not in ('MeshImFreq', 'MeshReFreq', 'MeshLegendre', 'MeshDLR') or g.target_rank not in (0, 2):
        raise TypeError('density: no overload')
    _calls.append(('density', g, a, k))
    r = g.data.sum(axis=0) * (k.get('beta', a[0] if a and not isinstance(a[0], _np.ndarray) else 1.) or 1.)
    return complex(r) if g.target_rank == 0 else r


def is_gf_hermitian(g, tolerance=1e-12):
    d = g.data
    if type(g.mesh).__name__ == 'MeshImFreq':
        d = d[::-1]
    return bool(abs(g.data - (d if g.target_rank == 0 else d.swapaxes(1, 2)).conj()).max() <= tolerance)


def is_gf_real_in_tau(g, tolerance=1e-12):
    return bool(abs(g.data - g.data[::-1].conj()).max() <= tolerance)


def _tail(g, known):
    w = _freq(g.mesh)
    s = abs(w) > .7 * abs(w).max()
    order = 6
    A = _np.array([(w[s] / abs(w).max()) ** -k for k in range(order)]).T
    d = g.data[s].reshape(s.sum(), -1)
    c, *_ = _np.linalg.lstsq(A, d, rcond=None)
    err = abs(A @ c - d).max()
    c = c * (abs(w).max() ** _np.arange(order))[:, None]
    return c.reshape((order,) + g.target_shape), err


def fit_tail(g, known_moments=None):
    return _tail(g, known_moments)


def fit_hermitian_tail(g, known_moments=None):
    return _tail(g, known_moments)


def fit_tail_on_window(g, *a):
    return _tail(g, None)


def fit_hermitian_tail_on_window(g, *a):
    return _tail(g, None)


def replace_by_tail(g, tail, n_min):
    raise NotImplementedError


def replace_by_tail_in_fit_window(g, tail):
    raise NotImplementedError


def _transform(kind, gout, gin, a):
    """a linear map which depends on the meshes and on the arguments"""
    if type(gin).__name__ not in ('Gf', 'GfImFreq', 'GfImTime', 'GfLegendre', 'GfReFreq', 'GfReTime') or gin.target_shape != gout.target_shape:
        raise TypeError('%s: no overload' % kind)
    _calls.append((kind, gout, gin, a))
    n, m = gout.data.shape[0], gin.data.shape[0]
    M = _np.exp(1j * _np.outer(_np.arange(n), .3 + _np.arange(m))) / m
    r = _np.tensordot(M, gin.data, axes=([1], [0]))
    gout.data[:] = r + (a[0].sum() if a else 0)


def set_from_fourier(gout, gin, *a):
    _transform('fourier', gout, gin, a)


def set_from_legendre(gout, gin):
    _transform('from_legendre', gout, gin, ())


def set_from_imfreq(gout, gin):
    _transform('from_imfreq', gout, gin, ())


def set_from_imtime(gout, gin):
    _transform('from_imtime', gout, gin, ())


def set_from_pade(gout, gin, n_points=100, freq_offset=0.):
    _transform('pade', gout, gin, ())


def rebinning_tau(g, new_n_tau):
    raise NotImplementedError


def enforce_discontinuity(g, disc):
    raise NotImplementedError
