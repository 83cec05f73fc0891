"""Interaction tensors, Hamiltonians and observables of the Python layer against quadrature on the sphere, coupled angular momenta and matrices in Fock space."""
import math, os, sys
from functools import lru_cache
from itertools import product
import numpy as np
import scipy.linalg as la
import scipy.sparse as sp
import vmon
from vmon import group

vmon.stage(stubs=['triqs'], extra={'triqs/__init__.py': '', 'triqs/utility/__init__.py': ''})
from triqs.operators import *
from triqs.operators.util import *
from triqs.operators.util import hamiltonians, U_matrix as UM


# ---------------------------------------------------------------- angular momenta and harmonics, from scratch
def ladder(j2):
    """J+, Jz for 2j in the basis m = -j..j"""
    j = j2 / 2
    m = np.arange(-j, j + .1)
    p = np.zeros((len(m),) * 2)
    for k in range(len(m) - 1):
        p[k + 1, k] = math.sqrt(j * (j + 1) - m[k] * (m[k] + 1))
    return p, np.diag(m)


@lru_cache(None)
def coupled(j1, j2):
    """<j1 m1 j2 m2|j m> by stepping down from the highest states with the usual phases"""
    p1, _ = ladder(2 * j1)
    p2, _ = ladder(2 * j2)
    d1, d2 = 2 * j1 + 1, 2 * j2 + 1
    low = np.kron(p1, np.eye(d2)).T + np.kron(np.eye(d1), p2).T
    M = np.add.outer(np.arange(-j1, j1 + 1), np.arange(-j2, j2 + 1)).ravel()
    out = {}
    for J in range(j1 + j2, abs(j1 - j2) - 1, -1):
        # the state of weight J orthogonal to those of larger J
        idx = np.flatnonzero(M == J)
        A = np.array([out[(J2, J)][idx] for J2 in range(J + 1, j1 + j2 + 1)]).reshape(-1, len(idx))
        v = la.null_space(A)[:, 0] if len(A) else np.ones(1)
        # <j1 j1 j2 J-j1|J J> is positive
        q = np.flatnonzero(idx == (2 * j1) * d2 + (J - j1 + j2))[0]
        v = v * np.sign(v[q])
        full = np.zeros(d1 * d2)
        full[idx] = v
        out[(J, J)] = full
        for m in range(J, -J, -1):
            full = low @ full / math.sqrt(J * (J + 1) - m * (m - 1))
            out[(J, m - 1)] = full
    return out


def cg(j1, m1, j2, m2, J, M):
    if abs(m1) > j1 or abs(m2) > j2 or abs(M) > J or m1 + m2 != M or J > j1 + j2 or J < abs(j1 - j2):
        return 0.
    return coupled(j1, j2)[(J, M)][(m1 + j1) * (2 * j2 + 1) + m2 + j2]


def legendre_pm(l, m, x):
    """associated Legendre function without the phase (-1)^m, m >= 0"""
    pmm = np.ones_like(x)
    for k in range(m):
        pmm = pmm * (2 * k + 1) * np.sqrt(1 - x * x)
    if l == m:
        return pmm
    a, b = pmm, x * (2 * m + 1) * pmm
    for q in range(m + 2, l + 1):
        a, b = b, ((2 * q - 1) * x * b - (q + m - 1) * a) / (q - m)
    return b


def Y(l, m, x, phi):
    a = abs(m)
    f = math.sqrt((2 * l + 1) / 4 / math.pi * math.factorial(l - a) / math.factorial(l + a)) * legendre_pm(l, a, x) * np.exp(1j * m * phi)
    return f * ((-1) ** m if m > 0 else 1)


@lru_cache(None)
def sphere():
    x, w = np.polynomial.legendre.leggauss(14)
    phi = np.arange(27) * 2 * math.pi / 27
    X, P = np.meshgrid(x, phi, indexing='ij')
    W = np.outer(w, np.full(27, 2 * math.pi / 27))
    return X, P, W


@lru_cache(None)
def slater_alpha(l, k):
    """alpha(m1 m2 m3 m4) from the expansion of 1/r12 by integration over the sphere"""
    X, P, W = sphere()
    Yl = [Y(l, m, X, P) for m in range(-l, l + 1)]
    n = 2 * l + 1
    g = np.zeros((2 * k + 1, n, n), dtype=complex)
    for q in range(-k, k + 1):
        Yk = Y(k, q, X, P)
        for a in range(n):
            for b in range(n):
                g[q + k, a, b] = (W * Yl[a].conj() * Yk * Yl[b]).sum()
    # Y_kq(1) Y*_kq(2): the second matrix element is that of the conjugate
    h = np.conj(np.transpose(g, (0, 2, 1)))
    t = 4 * math.pi / (2 * k + 1) * np.einsum('qac,qbd->abcd', g, h)
    assert abs(t.imag).max() < 1e-12
    return t.real


def unitary(c, n, real=False):
    a = c.array(n, n, cplx=not real) * 2
    return la.qr(a)[0]


def rotation(c, l):
    p, z = ladder(2 * l)
    x, y = (p + p.T) / 2, (p - p.T) / 2j
    v = np.array([c.r(-3, 3) for _ in range(3)])
    return la.expm(-1j * (v[0] * x + v[1] * y + v[2] * z))


# ---------------------------------------------------------------- matrices in Fock space
@lru_cache(None)
def jw(nm):
    """annihilation operators of nm modes"""
    z, a = sp.diags([1., -1.]), sp.csr_matrix(np.array([[0., 1.], [0., 0.]]))
    out = []
    for k in range(nm):
        m = sp.identity(1)
        for q in range(nm):
            m = sp.kron(m, z if q < k else a if q == k else sp.identity(2), format='csr')
        out.append(sp.csr_matrix(m))
    return out


def matrix(op, modes):
    """modes: index tuple -> number"""
    A = jw(len(modes))
    N = 2 ** len(modes)
    M = sp.csr_matrix((N, N), dtype=complex)
    for mono, v in op:
        t = sp.identity(N, format='csr') * v
        for dag, ind in mono:
            a = A[modes[tuple(ind)]]
            t = t @ (a.T if dag else a)
        M = M + t
    return M


def diff(a, b):
    d = abs(sp.csr_matrix(a) - sp.csr_matrix(b))
    return d.max() if d.nnz else 0.


def com(a, b):
    return diff(a @ b, b @ a)


def structure(c, spins, n_orb):
    """keyword arguments for the naming of the operators, and the number of the mode (spin, orbital) for an index"""
    k = c.i(0, 2)
    if k == 0:
        kw, name = dict(off_diag=True), (lambda s, o: (s, o))
    elif k == 1:
        kw, name = dict(off_diag=False), (lambda s, o: ('%s_%d' % (s, o), 0))
    else:
        free = c.shuffle([('b%d' % q, r) for q in range(len(spins)) for r in range(n_orb)])
        mp = {so: free[q] for q, so in enumerate(product(spins, range(n_orb)))}
        kw, name = dict(map_operator_structure=mp), (lambda s, o: mp[(s, o)])
        if c.chance(.3):
            kw['off_diag'] = c.pick([None, True, False])
    modes = {name(s, o): q for q, (s, o) in enumerate(product(spins, range(n_orb)))}
    return kw, modes, k


def spin_names(c):
    return c.pick([['up', 'down'], ['down', 'up'], ['u', 'd'], ['a_0', 'a'], ['spin up', 'ß']])


# ---------------------------------------------------------------- tensors
def three_j(c):
    j1, j2 = c.i(0, 6), c.i(0, 6)
    j3 = c.i(max(0, abs(j1 - j2) - 1), j1 + j2 + 1) if c.chance(.8) else c.i(0, 8)
    m1, m2 = c.i(-j1, j1), c.i(-j2, j2)
    m3 = m1 + m2 if c.chance(.9) else c.i(-j3 - 1, j3 + 1)
    c.trace(j1, m1, j2, m2, j3, m3)
    ref = cg(j1, m1, j2, m2, j3, m3)
    c.close(clebsch_gordan((j1, m1), (j2, m2), (j3, m3)), ref, 1e-9, 'Clebsch-Gordan coefficient')
    c.close(three_j_symbol((j1, m1), (j2, m2), (j3, -m3)), (-1) ** (j1 - j2 + m3) / math.sqrt(2 * j3 + 1) * ref, 1e-9, '3j symbol')
    c.nontrivial(j1, j2, j3, m1, m2, m3)


def angular(c):
    l = c.i(0, 4)
    k = c.i(0, 2 * l) if c.chance(.9) else c.i(0, 2 * l + 2)
    m = [c.i(-l, l) for _ in range(4)]
    if c.chance(.8):
        m[3] = m[0] + m[1] - m[2]
    c.trace(l, k, m)
    if abs(m[3]) > l:
        m[3] = max(-l, min(l, m[3]))
    ref = slater_alpha(l, k)[tuple(q + l for q in m)]
    c.close(angular_matrix_element(l, k, *m), ref, 1e-9, 'angular matrix element')
    c.nontrivial(l, k, tuple(m))


def tensor_ref(l, F):
    return sum(f * slater_alpha(l, 2 * q) for q, f in enumerate(F))


def transform_ref(U, T):
    n = T.shape[0]
    out = np.zeros((n,) * 4, dtype=complex)
    # one index at a time
    V = np.tensordot(T.conj(), U, (1, 0))
    V = np.moveaxis(np.tensordot(T.conj(), V, (1, 1)), 0, 1)
    V = np.moveaxis(np.tensordot(T, V, (1, 2)), 0, 2)
    V = np.moveaxis(np.tensordot(T, V, (1, 3)), 0, 3)
    return V


def slater(c):
    l = c.i(0, 4) if c.chance(.3) else c.i(1, 3)
    n = 2 * l + 1
    F = [c.r(0, 8)] + [c.r(0, 8) / (k + 1) for k in range(l)]
    byUJ = l in (1, 2, 3) and c.chance(.5)
    Uint, J = c.r(-2, 8), c.r(-.5, 1.5)
    basis = c.pick(['spherical', 'cubic', 'other', 'other']) if l <= 3 else c.pick(['spherical', 'other'])
    T = None
    if basis == 'other':
        T = unitary(c, n) if c.chance(.7) else unitary(c, n)[:c.i(1, n), :]
        if c.chance(.2):
            T = c.array(n, n, cplx=True)
    c.trace('l', l, 'U,J' if byUJ else F, basis, None if T is None else T.shape)
    if byUJ:
        U = U_matrix_slater(l, U_int=Uint, J_hund=J, basis=basis, T=T)
        F = U_J_to_radial_integrals(l, Uint, J)
        u, j = radial_integrals_to_U_J(l, F)
        c.check(abs(u - Uint) < 1e-12 and abs(j - J) < 1e-12, 'U and J of the radial integrals', u, j)
        u, j = radial_integrals_to_U_J(l, list(F))
        c.check(abs(u - Uint) < 1e-12 and abs(j - J) < 1e-12, 'U and J of the radial integrals (list)')
    else:
        U = U_matrix_slater(l, radial_integrals=c.pick([F, np.array(F), tuple(F)]), basis=basis, T=T)
    ref = tensor_ref(l, F)
    c.eq(len(F), l + 1, 'number of radial integrals')
    if basis == 'cubic':
        T = spherical_to_cubic(l)
    if T is not None:
        ref = transform_ref(ref, T)
    c.close(U, ref, 1e-9, 'tensor')
    if basis == 'cubic':
        c.check(abs(np.imag(U)).max() < 1e-10, 'real orbitals, complex interaction')
        c.close(U, np.transpose(U, (2, 1, 0, 3)), 1e-9, 'symmetry of real orbitals')
    c.close(U, np.conj(np.transpose(U, (2, 3, 0, 1))), 1e-9, 'hermitian')
    c.close(U, np.transpose(U, (1, 0, 3, 2)), 1e-9, 'exchange of the particles')
    if byUJ and (T is None or la.norm(T @ T.conj().T - np.eye(len(T))) < 1e-9) and U.shape[0] == n:
        d = np.einsum('abab->ab', U)
        x = np.einsum('abba->ab', U)
        c.close(d.sum() / n ** 2, Uint, 1e-9, 'U as the mean')
        c.close(((d - x).sum()) / (n * (n - 1)), Uint - J, 1e-9, 'U - J as the mean')
    c.nontrivial(l, basis, tuple(F))


def covariance(c):
    l = c.i(0, 3)
    n = 2 * l + 1
    F = [c.r(0, 8) for k in range(l + 1)]
    U = U_matrix_slater(l, radial_integrals=F)
    D = rotation(c, l)
    c.trace('l', l)
    c.close(transform_U_matrix(U, D), U, 1e-9, 'rotated')
    c.close(transform_U_matrix(U, D.T), U, 1e-9, 'rotated back')
    A, B = unitary(c, n), c.array(c.i(1, n), n, cplx=True)
    c.close(transform_U_matrix(transform_U_matrix(U, A), B), transform_U_matrix(U, B @ A), 1e-8, 'two transformations')
    V = c.array(n, n, n, n, cplx=c.chance(.5))
    c.close(transform_U_matrix(V, A), transform_ref(V, A), 1e-9, 'any tensor')
    # density-density form is positive for positive radial integrals
    M = np.transpose(U, (0, 2, 3, 1)).reshape(n * n, n * n)
    c.check(la.eigvalsh((M + M.conj().T) / 2)[0] > -1e-8, 'repulsion')
    c.nontrivial(l, tuple(F))


POLY = {'s': lambda x, y, z: 0 * x + 1, 'x': lambda x, y, z: x, 'y': lambda x, y, z: y, 'z': lambda x, y, z: z,
        'xy': lambda x, y, z: x * y, 'yz': lambda x, y, z: y * z, 'xz': lambda x, y, z: x * z, 'z^2': lambda x, y, z: 3 * z * z - 1, 'x^2-y^2': lambda x, y, z: x * x - y * y,
        'x(x^2-3y^2)': lambda x, y, z: x * (x * x - 3 * y * y), 'z(x^2-y^2)': lambda x, y, z: z * (x * x - y * y), 'xz^2': lambda x, y, z: x * (5 * z * z - 1),
        'z^3': lambda x, y, z: z * (5 * z * z - 3), 'yz^2': lambda x, y, z: y * (5 * z * z - 1), 'xyz': lambda x, y, z: x * y * z, 'y(3x^2-y^2)': lambda x, y, z: y * (3 * x * x - y * y)}
ORDER = {('triqs', 1): 'x y z', ('wannier90', 1): 'z x y', ('triqs', 2): 'xy yz z^2 xz x^2-y^2', ('wien2k', 2): 'z^2 x^2-y^2 xy yz xz', ('wannier90', 2): 'z^2 xz yz x^2-y^2 xy',
         ('triqs', 3): 'x(x^2-3y^2) z(x^2-y^2) xz^2 z^3 yz^2 xyz y(3x^2-y^2)'}
ORDER[('wien2k', 1)] = ORDER[('triqs', 1)]


def cubic(c):
    conv = c.pick(['triqs', 'vasp', 'wien2k', 'wannier90', 'qe'])
    l = c.i(0, 4)
    c.trace(conv, l)
    if l == 4 or (l == 3 and conv in ('wien2k', 'wannier90', 'qe')):
        c.throws(lambda: spherical_to_cubic(l, conv), 'not implemented', of=ValueError)
        return
    if c.chance(.05):
        c.throws(lambda: spherical_to_cubic(l, 'nothing'), 'unknown convention', of=ValueError)
        c.throws(lambda: t2g_submatrix(np.zeros((5, 5)), 'nothing'), 'unknown convention', of=ValueError)
        c.throws(lambda: eg_submatrix(np.zeros((5, 5)), 'nothing'), 'unknown convention', of=ValueError)
    T = spherical_to_cubic(l, conv) if conv != 'triqs' or c.chance(.5) else spherical_to_cubic(l)
    if l > 0:
        c.close(T @ T.conj().T, np.eye(2 * l + 1), 1e-12, 'unitary')
    base = {'vasp': 'triqs', 'qe': 'wannier90'}.get(conv, conv)
    if l > 0:
        names = ORDER[(base, l)].split()
        if base == 'triqs':
            c.eq(list(cubic_names(l)), names, 'names')
            c.eq(list(cubic_names(' pdf'[l])), names, 'names')
        X, P, W = sphere()
        s = np.sqrt(1 - X * X)
        for q, nm in enumerate(names):
            f = sum(T[q, m + l] * Y(l, m, X, P) * ((-1) ** m if base == 'wien2k' and l == 2 and m > 0 else 1) for m in range(-l, l + 1))
            g = POLY[nm](s * np.cos(P), s * np.sin(P), X)
            g = g / math.sqrt((W * g * g).sum())
            ov = (W * f * g).sum()
            c.check(abs(abs(ov) - 1) < 1e-10, 'orbital', nm, 'of', conv, 'is not what its name says, overlap', abs(ov))
            if base != 'wien2k':
                c.check(abs(ov.imag) < 1e-10, 'orbital', nm, 'of', conv, 'is not real')
    # the sub spaces of the d shell
    if l == 2:
        F = [c.r(1, 6), c.r(0, 6), c.r(0, 4)]
        U = U_matrix_slater(2, F, basis='other', T=T)
        t2g, eg = t2g_submatrix(U, conv), eg_submatrix(U, conv)
        names = ORDER[(base, 2)].split()
        it, ie = [k for k, q in enumerate(names) if q in ('xy', 'yz', 'xz')], [k for k, q in enumerate(names) if q in ('z^2', 'x^2-y^2')]
        c.eq([names[k] for k in it] if base == 'triqs' else sorted(names[k] for k in it), list(cubic_names('t2g')) if base == 'triqs' else ['xy', 'xz', 'yz'], 'order of t2g')
        c.close(t2g, U[np.ix_(it, it, it, it)], 0, 't2g part')
        c.close(eg, U[np.ix_(ie, ie, ie, ie)], 0, 'eg part')
        a, b = reduce_4index_to_2index(U)
        c.close(t2g_submatrix(a, conv), reduce_4index_to_2index(t2g)[0], 1e-12, 't2g part of the same-spin matrix')
        c.close(eg_submatrix(b, conv), reduce_4index_to_2index(eg)[1], 1e-12, 'eg part of the opposite-spin matrix')
        # both have Kanamori form
        for V in (t2g, eg):
            u, up, j = V[0, 0, 0, 0].real, V[0, 1, 0, 1].real, V[0, 1, 1, 0].real
            c.close(up, u - 2 * j, 1e-9, 'U - 2J')
            if base != 'wien2k':
                c.close(V, U_matrix_kanamori(len(V), u, j, full_Uijkl=True), 1e-9, 'Kanamori form of the part')
            c.close(np.array(reduce_4index_to_2index(V)), np.array(U_matrix_kanamori(len(V), u, j)), 1e-9, 'Kanamori matrices of the part')
    c.nontrivial(conv, l, c.index)


def kanamori(c):
    n = c.i(1, 6)
    u, j = c.r(-2, 8), c.r(-1, 2)
    up = c.r(-2, 6) if c.chance(.5) else None
    jc = c.r(-1, 2) if c.chance(.5) else None
    c.trace(n, u, j, up, jc)
    if jc is not None and c.chance(.3):
        c.throws(lambda: U_matrix_kanamori(n, u, j, Jc_hund=jc), 'Jc without the tensor', of=ValueError)
    kw = {} if up is None else {'Up_int': up}
    A, B = U_matrix_kanamori(n, u, j, **kw)
    V = U_matrix_kanamori(n, u, j, full_Uijkl=True, **kw, **({} if jc is None else {'Jc_hund': jc}))
    up = u - 2 * j if up is None else up
    jc = j if jc is None else jc
    c.eq(V.shape, (n,) * 4, 'shape')
    for a, b, p, q in product(range(n), repeat=4):
        ref = u if a == b == p == q else up if (a, b) == (p, q) else j if (a, b) == (q, p) else jc if a == b and p == q else 0
        c.check(V[a, b, p, q] == ref, 'element', a, b, p, q, V[a, b, p, q], ref)
    for a, b in product(range(n), repeat=2):
        c.check(A[a, b] == (0 if a == b else up - j) and B[a, b] == (u if a == b else up), 'matrices', a, b)
    ra, rb = reduce_4index_to_2index(V)
    c.close(ra, A, 1e-12, 'reduced, same spin')
    c.close(rb, B, 1e-12, 'reduced, opposite spin')
    # any tensor
    W = c.array(n, n, n, n, cplx=c.chance(.5))
    ra, rb = reduce_4index_to_2index(W)
    for a, b in product(range(n), repeat=2):
        c.check(abs(ra[a, b] - (W[a, b, a, b] - W[a, b, b, a]).real) < 1e-14 and rb[a, b] == W[a, b, a, b].real, 'reduction', a, b)
    # sub arrays
    d = c.i(1, 4)
    X = c.array(*[c.i(1, 4) for _ in range(d)])
    idx = [tuple(c.i(0, s - 1) for _ in range(c.i(1, 3))) for s in X.shape]
    c.close(UM.subarray(X, idx), X[np.ix_(*idx)], 0, 'sub array')
    c.nontrivial(n, u, j)


# ---------------------------------------------------------------- Hamiltonians
def direct(n, U4, A, nm):
    """1/2 sum U_ijkl c+_is c+_jt c_lt c_ks"""
    N = 2 ** nm
    H = sp.csr_matrix((N, N), dtype=complex)
    ns = nm // n
    for s, t in product(range(ns), repeat=2):
        for i, j, k, l in zip(*np.nonzero(abs(U4) > 1e-14)):
            H = H + .5 * U4[i, j, k, l] * (A[s * n + i].T @ A[t * n + j].T @ A[t * n + l] @ A[s * n + k])
    return H


def dump_terms(path):
    out, section = [], ''
    for line in open(path):
        w = line.rstrip('\n').split('\t')
        if len(w) == 1:
            section = w[0]
        else:
            out.append((section, [eval(q) for q in w[:-1]], complex(w[-1].replace('(', '').replace(')', ''))))
    return out


def h_slater(c):
    l = c.pick([0, 1, 1, 1, 1, 2]) if vmon.TIER == 'quick' else c.pick([0, 1, 1, 2])
    n = 2 * l + 1
    spins = spin_names(c)
    F = [c.r(0, 8) for _ in range(l + 1)]
    basis = c.pick(['spherical', 'cubic', 'other'])
    T = unitary(c, n) if basis == 'other' else None
    U = U_matrix_slater(l, F, basis=basis, T=T)
    anyU = c.chance(.3) and l < 2
    if anyU:
        n = c.i(1, 3)
        V = c.array(n, n, n, n, cplx=c.chance(.5))
        V = V + V.conj().transpose(2, 3, 0, 1)
        U = V + V.transpose(1, 0, 3, 2)
        basis = 'any'
    kw, modes, how = structure(c, spins, n)
    c.trace('l', l, basis, 'n', n, spins, kw)
    cx = bool(abs(np.imag(U)).max() > 1e-10)
    if cx:
        c.throws(lambda: h_int_slater(spins, n, U, **kw), 'complex interaction taken as real', of=RuntimeError)
    dump = os.path.join(os.getcwd(), 'dump') if c.chance(.4) and l < 2 else None
    H = h_int_slater(spins, n, U, complex=cx or c.chance(.3), H_dump=dump, **kw)
    A = jw(2 * n)
    M = matrix(H, modes)
    R = direct(n, np.asarray(U), A, 2 * n)
    c.check(diff(M, R) < 1e-9, 'Hamiltonian differs from the sum by', diff(M, R))
    c.check(diff(M, M.conj().T) < 1e-9, 'not hermitian')
    if not anyU:
        opts = dict(kw, basis=basis, T=T)
        N, Sz, S2 = matrix(N_op(spins, n, **kw), modes), matrix(S_op('z', spins, n, **kw), modes), matrix(S2_op(spins, n, **kw), modes)
        L2, Lz, Lp = matrix(L2_op(spins, n, **opts), modes), matrix(L_op('z', spins, n, **opts), modes), matrix(L_op('+', spins, n, **opts), modes)
        for nm, q in (('N', N), ('Sz', Sz), ('S2', S2), ('Lz', Lz), ('L+', Lp), ('L2', L2)):
            c.check(com(M, q) < 1e-7, nm, 'is not conserved:', com(M, q))
    if dump:
        if how == 0:
            t = Operator()
            for sec, ind, v in dump_terms(dump):
                t = t + .5 * v * c_dag(*ind[0]) * c_dag(*ind[1]) * globals()['c'](*ind[2]) * globals()['c'](*ind[3])
            c.check(diff(matrix(t, modes), M) < 1e-9, 'the terms in the file are not those of the Hamiltonian')
        os.unlink(dump)
    c.nontrivial(l, basis, n, tuple(F), how)


def h_kanamori(c):
    n = c.i(1, 3)
    spins = spin_names(c)
    kw, modes, how = structure(c, spins, n)
    form = c.pick(['kanamori', 'up', 'matrices'])
    u, j = c.r(-2, 8), c.pick([0, c.r(-1, 2), c.r(-1, 2)])
    up = c.r(-1, 5)
    if form == 'matrices':
        A2, B2 = c.array(n, n), c.array(n, n)
        if c.chance(.5):
            A2 = A2 - np.diag(np.diag(A2))
        A2, B2 = (A2 + A2.T), (B2 + B2.T)
    else:
        A2, B2 = U_matrix_kanamori(n, u, j, **({} if form == 'kanamori' else {'Up_int': up}))
    c.trace('n', n, form, u, j, up, spins, kw)
    density = c.chance(.35)
    dump = os.path.join(os.getcwd(), 'dump') if c.chance(.4) else None
    arg = c.pick([n, n, n, list(range(n))])
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        H = h_int_density(spins, arg, A2, B2, H_dump=dump, **kw) if density else h_int_kanamori(spins, arg, A2, B2, j, H_dump=dump, **kw)
    a = jw(2 * n)
    nn = [x.T @ x for x in a]
    R = sp.csr_matrix((4 ** n, 4 ** n), dtype=complex)
    for s, t, p, q in product(range(2), range(2), range(n), range(n)):
        if (s, p) != (t, q):
            R = R + .5 * (A2 if s == t else B2)[p, q] * (nn[s * n + p] @ nn[t * n + q])
    if not density:
        for p, q in product(range(n), repeat=2):
            if p != q:
                R = R - j * (a[p].T @ a[n + p] @ a[n + q].T @ a[q])
                R = R + j * (a[p].T @ a[n + p].T @ a[n + q] @ a[q])
    M = matrix(H, modes)
    c.check(diff(M, R) < 1e-9, 'Hamiltonian differs from the sum by', diff(M, R))
    c.check(diff(M, M.conj().T) < 1e-9, 'not hermitian')
    N, Sz, S2 = matrix(N_op(spins, n, **kw), modes), matrix(S_op('z', spins, n, **kw), modes), matrix(S2_op(spins, n, **kw), modes)
    c.check(com(M, N) < 1e-9 and com(M, Sz) < 1e-9, 'N or Sz is not conserved')
    if not density and form != 'matrices':
        c.check(com(M, S2) < 1e-8, 'S2 is not conserved')
        Uf = U_matrix_kanamori(n, u, j, full_Uijkl=True, **({} if form == 'kanamori' else {'Up_int': up}))
        c.check(diff(matrix(h_int_slater(spins, n, Uf, **kw), modes), M) < 1e-9, 'differs from the Hamiltonian of the full tensor')
        if n == 3 and form == 'kanamori':
            L2 = matrix(L2_op(spins, 3, basis='cubic', **kw), modes)
            c.check(com(M, L2) < 1e-8, 'L2 is not conserved')
        for p in range(n):
            ps = (nn[p] - nn[n + p]) @ (nn[p] - nn[n + p])
            c.check(com(M, ps) < 1e-9, 'the single occupation of an orbital is not conserved')
    # the density part
    D = matrix(diagonal_part(H), modes)
    c.check(diff(D, sp.diags(M.diagonal())) < 1e-9, 'density part')
    if density:
        c.check(diff(D, M) < 1e-12, 'density part of a density-density interaction')
    if dump:
        if how == 0:
            t = Operator()
            cc = globals()['c']
            o = globals()['n']
            for sec, (x, y), v in dump_terms(dump):
                if sec.startswith('Density'):
                    t = t + .5 * v * o(*x) * o(*y)
                elif sec.startswith('Spin'):
                    t = t + .5 * v * c_dag(*x) * cc(y[0], x[1]) * c_dag(*y) * cc(x[0], y[1])
                else:
                    t = t + .5 * v * c_dag(*x) * c_dag(y[0], x[1]) * cc(*y) * cc(x[0], y[1])
            c.check(diff(matrix(t, modes), M) < 1e-9, 'the terms in the file are not those of the Hamiltonian')
        os.unlink(dump)
    c.nontrivial(n, form, u, j, density, how)


def observables(c):
    n = c.pick([1, 2, 3, 3, 4]) if vmon.TIER == 'quick' else c.i(1, 5)
    l = (n - 1) / 2
    spins = spin_names(c)
    kw, modes, how = structure(c, spins, n)
    basis = c.pick(['spherical', 'cubic', 'other']) if n % 2 else c.pick(['spherical', 'other'])
    T = unitary(c, n) if basis == 'other' else None
    o = dict(kw, basis=basis, T=T)
    c.trace('n', n, basis, spins, kw)
    if n % 2 == 0 and c.chance(.2):
        c.throws(lambda: L_op('z', spins, n, basis='cubic', **kw), 'cubic basis of an even number of orbitals', of=ValueError)
    if c.chance(.1):
        c.throws(lambda: L_op('z', spins, n, basis='other', **kw), 'other basis without the matrix', of=ValueError)
        c.throws(lambda: N_op(spins, n), 'no structure', of=ValueError)
    S = {k: matrix(S_op(k, spins, n, **kw), modes) for k in 'xyz+-'}
    L = {k: matrix(L_op(k, spins, n, **o), modes) for k in 'xyz+-'}
    N, S2, L2, LS = matrix(N_op(spins, n, **kw), modes), matrix(S2_op(spins, n, **kw), modes), matrix(L2_op(spins, n, **o), modes), matrix(LS_op(spins, n, **o), modes)
    a = jw(2 * n)
    c.check(diff(N, sum(x.T @ x for x in a)) < 1e-12, 'N')
    Sz = sum(.5 * (a[q].T @ a[q] - a[n + q].T @ a[n + q]) for q in range(n))
    c.check(diff(S['z'], Sz) < 1e-12, 'Sz')
    c.check(diff(S['+'], sum(a[q].T @ a[n + q] for q in range(n))) < 1e-12, 'S+')
    # one-particle matrices of L
    p, z = ladder(n - 1)
    TT = np.eye(n) if basis == 'spherical' else spherical_to_cubic(int(l)) if basis == 'cubic' else T
    if basis == 'cubic' and n == 1:
        TT = np.zeros((1, 1))
    for nm, m in (('+', p), ('z', z)):
        m = TT.conj() @ m @ TT.T
        R = sum(m[x, y] * (a[s * n + x].T @ a[s * n + y]) for s in range(2) for x in range(n) for y in range(n))
        c.check(diff(L[nm], R) < 1e-10, 'L', nm)
    for nm, V in (('S', S), ('L', L)):
        c.check(diff(V['+'], V['x'] + 1j * V['y']) < 1e-10 and diff(V['-'], V['x'] - 1j * V['y']) < 1e-10, nm, 'raising and lowering')
        c.check(diff(V['+'], V['-'].conj().T) < 1e-10, nm, '- is not the adjoint of +')
        for x, y, w in ('xyz', 'yzx', 'zxy'):
            c.check(diff(V[x], V[x].conj().T) < 1e-10, nm, x, 'not hermitian')
            c.check(diff(V[x] @ V[y] - V[y] @ V[x], 1j * V[w]) < 1e-8, nm, 'commutator of', x, y)
    c.check(diff(S2, sum(S[k] @ S[k] for k in 'xyz')) < 1e-9, 'S2')
    c.check(diff(L2, sum(L[k] @ L[k] for k in 'xyz')) < 1e-8, 'L2')
    c.check(diff(LS, sum(L[k] @ S[k] for k in 'xyz')) < 1e-8, 'LS')
    for x in 'xyz':
        for y in 'xyz':
            c.check(com(S[x], L[y]) < 1e-9, 'L and S do not commute')
        c.check(com(LS, S[x] + L[x]) < 1e-8, 'LS is not invariant')
    if not (basis == 'cubic' and n == 1):
        one = np.flatnonzero(abs(N.diagonal() - 1) < .1)
        for nm, V, v in (('S2', S2, .75), ('L2', L2, l * (l + 1))):
            V1 = V[one][:, one].toarray()
            c.close(V1, v * np.eye(2 * n), 1e-9, nm, 'of one particle')
    c.nontrivial(n, basis, how, spins[0], c.index)


def names(c):
    n = c.i(1, 8)
    spins = c.pick([spin_names(c), ['ud'], ['a', 'a_0', 'a_0_0'], ['', '_1', '1'], ['up', 'down', 'x']])
    off = c.chance(.5)
    c.trace(spins, n, off)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        st = set_operator_structure(spins, c.pick([n, [str(q) for q in range(n)]]), off)
    mk = get_mkind(off, None)
    ind = [mk(s, o) for s, o in product(spins, range(n))]
    c.eq(len(set(ind)), n * len(spins), 'different operators have different indices')
    all_ = [(b, k) for b, m in st for k in range(m)]
    c.eq(sorted(ind), sorted(all_), 'indices and structure')
    c.eq([b for b, m in st], spins if off else ['%s_%d' % (s, o) for s in spins for o in range(n)], 'order of the blocks')
    mp = {so: ('m%d' % c.i(0, 3), q) for q, so in enumerate(product(spins, range(n)))}
    mk = get_mkind(c.pick([None, True, False]), mp)
    c.check(all(mk(*so) == v for so, v in mp.items()), 'mapped names')
    c.throws(lambda: get_mkind(None, None), 'nothing given', of=ValueError)
    c.nontrivial(tuple(spins), n, off)


def polynomials(c):
    """density part and real part of any operator"""
    modes = {('a', 0): 0, ('a', 1): 1, ('b', 0): 2, ('b', 1): 3}
    keys = list(modes)
    H = Operator()
    cx = c.chance(.5)
    for _ in range(c.i(0, 6)):
        t = Operator(c.cplx() if cx else c.r(-1, 1))
        for _ in range(c.i(0, 6)):
            i = c.pick(keys)
            t = t * (globals()['c'](*i) if c.chance(.5) else c_dag(*i))
        H = H + t
    if c.chance(.5):
        for _ in range(c.i(1, 4)):
            t = Operator(c.cplx() if cx else c.r(-1, 1))
            for _ in range(c.i(0, 3)):
                t = t * globals()['n'](*c.pick(keys))
            H = H + t
    c.trace(H)
    M = matrix(H, modes)
    # the stand-in itself
    c.check(diff(matrix(dagger(H), modes), M.conj().T) < 1e-12, 'adjoint of the stand-in')
    c.check(diff(matrix(H * H, modes), M @ M) < 1e-10, 'product of the stand-in')
    D = matrix(diagonal_part(H), modes)
    c.check(diff(D, sp.diags(M.diagonal())) < 1e-12, 'density part')
    tol = c.pick([0, 1e-3, .5, 2])
    im = max([abs(complex(v).imag) for _, v in H], default=0)
    if im > tol:
        c.throws(lambda: hamiltonians.make_operator_real(H, tol), 'imaginary part above the tolerance', of=RuntimeError)
    else:
        r = hamiltonians.make_operator_real(H, tol)
        c.check(diff(matrix(r, modes), sum((complex(v).real * matrix([(m, 1.)], modes) for m, v in H), sp.csr_matrix((16, 16)))) < 1e-12, 'real part')
    c.nontrivial(repr(H)[:200])


group('three_j', 2000, 40000, three_j)
group('angular_matrix_element', 500, 8000, angular)
group('u_matrix_slater', 60, 900, slater)
group('covariance', 60, 900, covariance)
group('cubic_harmonics', 80, 800, cubic)
group('u_matrix_kanamori', 200, 3000, kanamori)
group('h_slater', 60, 600, h_slater)
group('h_kanamori', 300, 4000, h_kanamori)
group('observables', 100, 1200, observables)
group('operator_names', 300, 3000, names)
group('operator_parts', 400, 6000, polynomials)
vmon.finish()
