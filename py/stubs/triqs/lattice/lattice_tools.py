"""Stand-in for the compiled module of the same name."""
import numpy as np

calls = []


def _three(x):
    r = np.zeros(3)
    x = np.asarray(x, dtype=float)
    r[:len(x)] = x
    return r


class BravaisLattice:
    def __init__(self, units=((1, 0, 0), (0, 1, 0), (0, 0, 1)), orbital_positions=((0, 0, 0),), atom_orb_name=None):
        u = np.array(units, dtype=float)
        self.ndim = u.shape[0]
        if u.shape != (self.ndim, self.ndim) or not 1 <= self.ndim <= 3:
            raise RuntimeError('units')
        self.units = np.eye(3)
        self.units[:self.ndim, :self.ndim] = u
        self._pos = [_three(p) for p in orbital_positions]
        self._names = [str(s) for s in (atom_orb_name if atom_orb_name is not None else [''] * len(self._pos))]
        if len(self._names) != len(self._pos):
            raise RuntimeError('number of names and positions')

    @property
    def n_orbitals(self):
        return len(self._names)

    @property
    def orbital_positions(self):
        return [p.copy() for p in self._pos]

    @property
    def orbital_names(self):
        return list(self._names)

    def lattice_to_real_coordinates(self, x):
        return self.units[:self.ndim].T @ _three(x)[:self.ndim]

    def __eq__(self, o):
        return self.ndim == o.ndim and np.array_equal(self.units, o.units) and np.array_equal(self._pos, o._pos) and self._names == o._names


class BrillouinZone:
    def __init__(self, bl):
        self.lattice, self.ndim = bl, bl.ndim
        d = bl.ndim
        self.units = np.eye(3)
        self.units[:d, :d] = 2 * np.pi * np.linalg.inv(bl.units[:d, :d]).T

    def __eq__(self, o):
        return self.lattice == o.lattice


class TightBinding:
    def __init__(self, bl, hoppings, mats=None):
        if mats is None:
            if not isinstance(hoppings, dict):
                raise TypeError('hoppings must be a mapping type (dict)')
            hoppings, mats = list(hoppings), list(hoppings.values())
        self.lattice = bl
        self.displ_vec = [np.array(d, dtype=int) for d in hoppings]
        self.overlap_mat_vec = [np.array(m, dtype=complex) for m in mats]
        n = bl.n_orbitals
        D = {}
        for d, m in zip(self.displ_vec, self.overlap_mat_vec):
            if d.shape != (bl.ndim,) or m.shape != (n, n):
                raise RuntimeError('shape of a hopping %s %s' % (d, m.shape))
            D[tuple(d.tolist())] = m
        for d, m in D.items():
            o = D.get(tuple(-q for q in d))
            if o is None or abs(m - o.conj().T).max(initial=0) > 1e-12:
                raise RuntimeError('not hermitian')

    def lattice_to_real_coordinates(self, x):
        return self.lattice.lattice_to_real_coordinates(x)

    def fourier(self, K):
        K = np.asarray(K, dtype=float)
        if K.ndim == 2:
            return np.array([self.fourier(k) for k in K])
        d = self.lattice.ndim
        return sum((m * np.exp(2j * np.pi * (K[:d] @ v)) for v, m in zip(self.displ_vec, self.overlap_mat_vec)), np.zeros((self.lattice.n_orbitals,) * 2, dtype=complex))

    def dispersion(self, K):
        return np.linalg.eigvalsh(self.fourier(K))

    def __eq__(self, o):
        return self.lattice == o.lattice and np.array_equal(self.displ_vec, o.displ_vec) and np.array_equal(self.overlap_mat_vec, o.overlap_mat_vec)


def dos(tb, n_kpts, n_eps):
    calls.append(('dos', tb, n_kpts, n_eps))
    n = tb.lattice.n_orbitals
    return np.arange(n_eps) * .25, np.arange(n_eps * n).reshape(n_eps, n) * .5


def dos_patch(tb, triangles, n_eps, n_div):
    calls.append(('dos_patch', tb, np.array(triangles), n_eps, n_div))
    return np.arange(n_eps) * .25, np.arange(n_eps) * .5
