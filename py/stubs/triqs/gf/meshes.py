"""Stand-in for the compiled module of the same name: the meshes with their points, hashes and comparisons."""
import math as _math

import numpy as _np

from .matsubara_freq import MatsubaraFreq as _MatsubaraFreq
from .mesh_point import MeshPoint as _MeshPoint, MeshValueGenerator as _MeshValueGenerator


class _Mesh:
    _with_values = True

    def _set(self, **p):
        self._p = p

    def _key(self):
        return (type(self).__name__,) + tuple((k, tuple(_np.asarray(v).ravel().tolist()) if isinstance(v, _np.ndarray) else v) for k, v in sorted(self._p.items()))

    @property
    def mesh_hash(self):
        return hash(self._key()) & 0xffffffffffffffff

    def __eq__(self, o):
        return self._key() == o._key() if type(o) is type(self) else NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def copy(self):
        r = type(self).__new__(type(self))
        r._p = dict(self._p)
        return r

    def copy_from(self, o):
        if type(o) is not type(self):
            raise TypeError('copy_from: %s' % type(o).__name__)
        self._p = dict(o._p)

    def __getstate__(self):
        return self._p

    def __setstate__(self, p):
        self._p = p

    def __len__(self):
        return self._len()

    def to_data_index(self, i):
        return i - self._first()

    def to_index(self, d):
        return d + self._first()

    def _first(self):
        return 0

    def __getitem__(self, d):
        return self(self.to_index(d))

    def __call__(self, i):
        a = (i, self.to_data_index(i), self.mesh_hash)
        return _MeshPoint(*a, self.to_value(i)) if self._with_values else _MeshPoint(*a)

    def __iter__(self):
        return (self[d] for d in range(len(self)))

    def values(self):
        return _MeshValueGenerator(self)

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, self._p)


def _args(a, k, *alternatives):
    """the parameters, given by position or by any of the alternative lists of names"""
    for names, defaults in alternatives:
        q = dict(zip(names, a))
        if set(q) & set(k) or len(a) > len(names) or not set(k) <= set(names):
            continue
        q.update(k)
        if all(n in q or n in defaults for n in names):
            return [q.get(n, defaults.get(n)) for n in names]
    raise TypeError('no matching constructor for %s %s' % (a, k))


def _stat(s):
    if s not in ('Fermion', 'Boson'):
        raise TypeError('statistic %r' % (s,))
    return s


class _beta_stat(_Mesh):
    @property
    def beta(self):
        return self._p['beta']

    @property
    def statistic(self):
        return self._p['stat']


class MeshImFreq(_beta_stat):
    def __init__(self, *a, **k):
        d = {'n_iw': 1025}
        beta, s, n = _args(a, k, (('beta', 'S', 'n_iw'), d), (('beta', 'S', 'n_max'), {}), (('beta', 'statistic', 'n_iw'), {}))
        self._set(beta=float(beta), stat=_stat(s), n=int(n), pos=False)

    def _len(self):
        p = self._p
        return p['n'] if p['pos'] else 2 * p['n'] - (p['stat'] == 'Boson')

    def _first(self):
        p = self._p
        return 0 if p['pos'] else (-p['n'] + (p['stat'] == 'Boson'))

    def first_index(self):
        return self._first()

    def last_index(self):
        return self._p['n'] - 1

    def positive_only(self):
        return self._p['pos']

    def set_tail_fit_parameters(self, tail_fraction, n_tail_max=30, expansion_order=None):
        pass

    def to_value(self, i):
        return _MatsubaraFreq(i, self.beta, self.statistic)


class _dlr(_beta_stat):
    def __init__(self, *a, **k):
        beta, s, w, e = _args(a, k, (('beta', 'statistic', 'w_max', 'eps'), {}))
        self._set(beta=float(beta), stat=_stat(s), w_max=float(w), eps=float(e))

    @property
    def w_max(self):
        return self._p['w_max']

    @property
    def eps(self):
        return self._p['eps']

    def _len(self):
        return 7


class MeshDLR(_dlr):
    def to_value(self, i):
        return (i - 3) * self.w_max / 3


class MeshDLRImFreq(_dlr):
    def to_value(self, i):
        n = (-40, -7, -2, 0, 1, 6, 41)[i]
        return _MatsubaraFreq(n, self.beta, self.statistic)


class MeshDLRImTime(_dlr):
    def to_value(self, i):
        return self.beta * (.01, .05, .2, .5, .7, .96, .99)[i]


class MeshImTime(_beta_stat):
    def __init__(self, *a, **k):
        beta, s, n = _args(a, k, (('beta', 'S', 'n_tau'), {}), (('beta', 'S', 'n_max'), {}), (('beta', 'statistic', 'n_tau'), {}))
        self._set(beta=float(beta), stat=_stat(s), n=int(n))

    def _len(self):
        return self._p['n']

    def to_value(self, i):
        return self.beta * i / (self._p['n'] - 1) if i < self._p['n'] - 1 else self.beta


class MeshLegendre(_beta_stat):
    _with_values = False

    def __init__(self, *a, **k):
        beta, s, n = _args(a, k, (('beta', 'S', 'max_n'), {}), (('beta', 'S', 'n_max'), {}), (('beta', 'statistic', 'max_n'), {}))
        self._set(beta=float(beta), stat=_stat(s), n=int(n))

    def _len(self):
        return self._p['n']


class _linear(_Mesh):
    def __init__(self, *a, **k):
        x, n = self._x, 'n_' + self._x
        try:
            lo, hi, m = _args(a, k, ((x + '_min', x + '_max', n), {}), ((x + '_min', x + '_max', 'n_max'), {}))
        except TypeError:
            (lo, hi), m = _args(a, k, (('window', n), {}))
        self._set(lo=float(lo), hi=float(hi), n=int(m))

    def _len(self):
        return self._p['n']

    def to_value(self, i):
        lo, hi, n = self._p['lo'], self._p['hi'], self._p['n']
        w = i / (n - 1) if n > 1 else 0.
        return lo * (1 - w) + hi * w

    @property
    def delta(self):
        return (self._p['hi'] - self._p['lo']) / (self._p['n'] - 1)


class MeshReFreq(_linear):
    _x = 'w'
    w_min = property(lambda s: s._p['lo'])
    w_max = property(lambda s: s._p['hi'])


class MeshReTime(_linear):
    _x = 't'
    t_min = property(lambda s: s._p['lo'])
    t_max = property(lambda s: s._p['hi'])


class _grid(_Mesh):
    def _len(self):
        return int(_np.prod(self._p['dims']))

    @property
    def dims(self):
        return list(self._p['dims'])

    def to_data_index(self, i):
        a, b, c = self._p['dims']
        i = [int(x) for x in i]
        if not (len(i) == 3 and 0 <= i[0] < a and 0 <= i[1] < b and 0 <= i[2] < c):
            raise RuntimeError('index %s' % (i,))
        return (i[0] * b + i[1]) * c + i[2]

    def to_index(self, d):
        a, b, c = self._p['dims']
        return [d // (b * c), (d // c) % b, d % c]


class MeshBrZone(_grid):
    """(bz, n_k) or (bz, dims); bz a matrix of reciprocal vectors as rows or an object with units"""

    def __init__(self, *a, **k):
        try:
            bz, n = _args(a, k, (('bz', 'n_k'), {}))
        except TypeError:
            bz, n = _args(a, k, (('bz', 'dims'), {}))
        u = _np.array(getattr(bz, 'units', bz), dtype=float)
        nd = getattr(bz, 'ndim', 3)
        dims = tuple(int(n) if j < nd else 1 for j in range(3)) if _np.ndim(n) == 0 else tuple(int(x) for x in n)
        self._set(units=u, dims=dims)

    def to_value(self, i):
        return (_np.array(i) / self._p['dims']) @ self._p['units']


class MeshCycLat(_grid):
    def __init__(self, *a, **k):
        try:
            bl, n = _args(a, k, (('lattice', 'L'), {}))
        except TypeError:
            bl, n = _args(a, k, (('lattice', 'dims'), {}))
        u = _np.array(getattr(bl, 'units', bl), dtype=float)
        self._set(units=u, dims=(int(n),) * 3 if _np.ndim(n) == 0 else tuple(int(x) for x in n))

    def to_value(self, i):
        return _np.array(i) @ self._p['units']


def make_adjoint_mesh(m, n=-1):
    if isinstance(m, MeshImFreq):
        return MeshImTime(m.beta, m.statistic, n if n > 0 else 6 * m._p['n'] + 1)
    return MeshImFreq(m.beta, m.statistic, n if n > 0 else (len(m) - 1) // 6)
