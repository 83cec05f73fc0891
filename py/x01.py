"""The extension modules, generated from the *_desc.py files of the tree under test, in an instrumented interpreter."""
import sys, os, pickle, math, itertools, cmath
import numpy as np
import vmon
from vmon import group
MOD = {'operators/operators': 'triqs_operators_operators', 'gf/meshes': 'triqs_gf_meshes', 'lattice/lattice_tools': 'triqs_lattice_lattice_tools', 'random_generator/random_generator': 'triqs_random_generator_random_generator',
       'stat/histograms': 'triqs_stat_histograms', 'gf/gf_fnt': 'triqs_gf_gf_fnt', 'gf/gf_factories': 'triqs_gf_gf_factories', 'gf/wrapped_aux': 'triqs_gf_wrapped_aux', 'atom_diag/atom_diag': 'triqs_atom_diag_atom_diag',
       'operators/util/extractors': 'triqs_operators_util_extractors'}
extra = {'triqs/%s.py' % k: 'import sys, vx_numpy, vx_%s\nsys.modules[__name__] = vx_%s\n' % (v, v) for k, v in MOD.items()}
extra['triqs/__init__.py'] = extra['h5/_h5py.py'] = ''
vmon.stage(stubs=['h5'], extra=extra)
with vmon.quiet():
    import warnings
    warnings.simplefilter('ignore')
    from triqs.gf import *
    from triqs.gf import gf_fnt, gf_factories, wrapped_aux, meshes as meshes_mod, MeshPoint, MatsubaraFreq, Idx
    from triqs.operators import Operator, c as C, c_dag as CD, n as N, dagger, is_op_hermitian
    from triqs.lattice import BravaisLattice, BrillouinZone, LatticePoint
    from triqs.lattice.lattice_tools import TightBinding, dos
    from triqs.stat import Histogram, pdf, cdf
    from triqs.random_generator import RandomGenerator, random_generator_names_list
    from triqs.operators.util import extractors as ex
    from triqs import atom_diag as ad

STATS = ('Fermion', 'Boson')


# ------------------------------------------------------------------ meshes
def lattice(c):
    d = c.i(1, 3)
    u = np.eye(d) + 0.3 * c.array(d, d)
    if c.chance(.4):
        return BravaisLattice(u)
    n = c.i(1, 3)
    pos = [c.array(3) for k in range(n)]
    return BravaisLattice(u, pos) if c.chance(.5) else BravaisLattice(u, pos, ['o%d' % k for k in range(n)])


class M:
    """a mesh, how to make it again, and its points (index, data index, value)"""

    def __init__(self, c, kind, beta=None, stat=None, N=None, lat=None):
        b = beta or round(c.r(.5, 30.), 3)
        s = stat or c.pick(STATS)
        self.kind, self.beta, self.stat = kind, b, s
        z = 1 if s == 'Fermion' else 0
        if kind == 'imfreq':
            n = N or c.i(1, 12)
            kws = [dict(beta=b, S=s, n_iw=n), dict(beta=b, S=s, n_max=n), dict(beta=b, statistic=s, n_iw=n)]
            self.cls, self.pos, self.kws = MeshImFreq, (b, s, n), kws
            ns = range(-n + (1 - z), n)
            self.pts = [(k, k + n - (1 - z), (2 * k + z) * math.pi / b * 1j) for k in ns]
            self.other = [(b + 1, s, n), (b, STATS[1 - STATS.index(s)], n), (b, s, n + 1)]
        elif kind == 'imtime':
            n = N or c.i(2, 20)
            kws = [dict(beta=b, S=s, n_tau=n), dict(beta=b, S=s, n_max=n), dict(beta=b, statistic=s, n_tau=n)]
            self.cls, self.pos, self.kws = MeshImTime, (b, s, n), kws
            self.pts = [(k, k, b * k / (n - 1)) for k in range(n)]
            self.other = [(b + 1, s, n), (b, STATS[1 - STATS.index(s)], n), (b, s, n + 1)]
        elif kind == 'legendre':
            n = N or c.i(1, 20)
            kws = [dict(beta=b, S=s, max_n=n), dict(beta=b, S=s, n_max=n), dict(beta=b, statistic=s, max_n=n)]
            self.cls, self.pos, self.kws = MeshLegendre, (b, s, n), kws
            self.pts = [(k, k, None) for k in range(n)]
            self.other = [(b + 1, s, n), (b, STATS[1 - STATS.index(s)], n), (b, s, n + 1)]
        elif kind in ('refreq', 'retime'):
            n = N or c.i(2, 20)
            lo = round(c.r(-5, 1), 2)
            hi = lo + round(c.r(.5, 6.), 2)
            x, y, m = ('w_min', 'w_max', 'n_w') if kind == 'refreq' else ('t_min', 't_max', 'n_t')
            self.cls = MeshReFreq if kind == 'refreq' else MeshReTime
            self.pos, self.kws = (lo, hi, n), [{x: lo, y: hi, m: n}, {x: lo, y: hi, 'n_max': n}, {'window': (lo, hi), m: n}]
            self.lo, self.hi = lo, hi
            self.pts = [(k, k, lo + (hi - lo) * k / (n - 1)) for k in range(n)]
            self.other = [(lo - 1, hi, n), (lo, hi + 1, n), (lo, hi, n + 1)]
        elif kind.startswith('dlr'):
            w, e = round(c.r(.5, 5.), 2), c.pick([1e-6, 1e-8, 1e-10])
            self.cls = {'dlr': MeshDLR, 'dlr_imtime': MeshDLRImTime, 'dlr_imfreq': MeshDLRImFreq}[kind]
            self.pos, self.kws, self.pts = (b, s, w, e), [dict(beta=b, statistic=s, w_max=w, eps=e)], None
            self.w, self.eps = w, e
            self.other = [(b + 1, s, w, e), (b, STATS[1 - STATS.index(s)], w, e), (b, s, w * 1.5, e)]
        else:
            self.bl = lat or lattice(c)
            d = [c.i(1, 4) if k < self.bl.ndim else 1 for k in range(3)] if not N else [N if k < self.bl.ndim else 1 for k in range(3)]
            same = d == [d[0] if k < self.bl.ndim else 1 for k in range(3)]
            self.d = d
            ijk = list(itertools.product(*[range(x) for x in d]))
            if kind == 'brzone':
                self.bz = BrillouinZone(self.bl)
                self.cls, self.pos, self.kws = MeshBrZone, (self.bz, d), [dict(bz=self.bz, dims=d)] + ([dict(bz=self.bz, n_k=d[0])] if same else [])
                self.pts = [(x, (x[0] * d[1] + x[1]) * d[2] + x[2], np.array([x[k] / d[k] for k in range(3)]) @ self.bz.units) for x in ijk]
                self.other = [(self.bz, [d[0] + 1] + d[1:])]
            else:
                self.cls, self.pos = MeshCycLat, (self.bl, d)
                self.kws = [dict(bl=self.bl, dims=d), dict(lattice=self.bl, dims=d)] + ([dict(lattice=self.bl, L=d[0]), dict(bl=self.bl, L=d[0])] if same else [])
                self.pts = [(x, (x[0] * d[1] + x[1]) * d[2] + x[2], np.array(x) @ self.bl.units) for x in ijk]
                self.other = [(self.bl, [d[0] + 1] + d[1:])]
        self.m = self.make(c)

    def make(self, c):
        k = c.i(0, 2 * len(self.kws)) - len(self.kws)
        return self.cls(**self.kws[k]) if k >= 0 and k < len(self.kws) else self.cls(*self.pos)


KINDS = ['imfreq', 'imtime', 'refreq', 'retime', 'legendre', 'dlr', 'dlr_imtime', 'dlr_imfreq', 'brzone', 'cyclat']


def num(v):
    return np.asarray(v.value if isinstance(v, LatticePoint) else complex(v) if isinstance(v, MatsubaraFreq) else v)


def t_meshes(c):
    kind = KINDS[c.index % len(KINDS)]
    q = M(c, kind)
    m = q.m
    c.trace('%s %s', kind, q.pos)
    pts = list(m)
    c.eq(len(pts), len(m), 'number of points')
    if q.pts is not None:
        c.eq(len(m), len(q.pts), 'size')
    for k, p in enumerate(pts):
        ix, di, v = q.pts[k] if q.pts is not None else (p.index, k, None)
        c.check(isinstance(p, MeshPoint), 'a mesh point')
        c.check(np.array_equal(p.index, ix), 'index %s', p.index)
        c.eq(p.data_index, di, 'data index')
        c.eq(p.mesh_hash, m.mesh_hash, 'hash')
        if v is not None:
            c.close(num(p.value), v, 1e-12, 'value')
        for p2 in (m[p.data_index], m(p.data_index if kind == 'dlr_imfreq' else p.index)):
            c.check(np.array_equal(p2.index, p.index) and p2.data_index == p.data_index and p2.mesh_hash == p.mesh_hash, 'the same point')
            if kind != 'legendre':
                c.check(np.array_equal(num(p2.value), num(p.value)), 'the same value')
        if kind == 'dlr_imfreq':                       # its points carry the Matsubara number, the mesh counts from zero
            ix = di
        c.eq(m.to_data_index(ix), di, 'to_data_index')
        c.check(np.array_equal(m.to_index(di), ix), 'to_index')
        if kind != 'legendre':
            c.check(np.array_equal(num(m.to_value(ix)), num(p.value)), 'to_value')
    if kind != 'legendre':
        vs = [num(x) for x in m.values()]
        c.check(len(vs) == len(m) and all(np.array_equal(a, num(p.value)) for a, p in zip(vs, pts)), 'values')
    if kind in ('imfreq', 'imtime', 'legendre') or kind.startswith('dlr'):
        c.check(m.beta == q.beta and m.statistic == q.stat, 'parameters')
    if kind.startswith('dlr'):
        c.check(m.w_max == q.w and m.eps == q.eps, 'parameters')
        c.check(len(M(c, 'dlr', q.beta).m) > 0)
    if kind in ('refreq', 'retime'):
        a, b = (m.w_min, m.w_max) if kind == 'refreq' else (m.t_min, m.t_max)
        c.close([a, b, m.delta], [q.lo, q.hi, (q.hi - q.lo) / (len(m) - 1)], 1e-12, 'limits')
    if kind == 'imfreq':
        c.eq((m.first_index(), m.last_index(), m.positive_only()), (q.pts[0][0], q.pts[-1][0], False), 'first and last index')
    if kind in ('brzone', 'cyclat'):
        c.check(list(m.dims) == q.d, 'dims')
        c.check((m.bz == q.bz) if kind == 'brzone' else (m.lattice == q.bl), 'the lattice')
        ref = np.array([q.bz.units[k] / q.d[k] for k in range(3)]) if kind == 'brzone' else np.asarray(q.bl.units)
        c.close(m.units, ref, 1e-12, 'units')
        if kind == 'brzone':
            p = c.pick(pts)
            c.check(np.array_equal(m.closest_index(num(p.value)), p.index), 'closest index')
    m2 = q.make(c)
    c.check(m2 == m and not (m2 != m) and m2.mesh_hash == m.mesh_hash, 'equal')
    o = q.cls(*c.pick(q.other))
    c.check(not (o == m) and o != m, 'different meshes are equal: %s', o)
    c.check(not (m == 3) and m != 'x', 'equal to something else')
    h = m.mesh_hash
    cp = m.copy()
    c.check(cp == m and cp.mesh_hash == h, 'copy')
    o.copy_from(m)
    c.check(o == m and o.mesh_hash == h and len(list(o)) == len(pts) and list(o)[-1].mesh_hash == h, 'copy_from')
    c.check(m.mesh_hash == h and m == m2, 'the mesh changed')
    r = pickle.loads(pickle.dumps(m))
    c.check(type(r) is type(m) and r == m and r.mesh_hash == h, 'pickle')
    c.check(str(m) == str(m2) == repr(m) and len(str(m)) > 5, 'repr')
    k = c.i(0, 3)                                      # wrong arguments
    if kind in ('imfreq', 'imtime', 'legendre'):
        bad = [('x', q.stat, 3), (q.beta, 'Anyon', 3), (q.beta, q.stat, 'n'), (q.beta, q.stat, 3, 4, 5)][k]
        c.throws(lambda: q.cls(*bad), 'wrong arguments', of=TypeError)
        c.throws(lambda: q.cls(beta=q.beta, statistic=q.stat, nonsense=3), 'wrong keyword', of=TypeError)
    if kind in ('brzone', 'cyclat'):
        c.throws(lambda: q.cls(*[(3, 4), ('x', [1, 1, 1]), (q.pos[0], [1, 1]), (q.pos[0], [1., 1.5, 2])][k]), 'wrong arguments', of=TypeError)
    c.throws(lambda: q.m.copy_from(3), 'copy_from', of=TypeError)
    c.nontrivial('meshes %s %s' % (kind, q.pos))


# ------------------------------------------------------------------ Green functions
def poles(c, shape, beta, stat, wmax=2.):
    """energies and weights; stat 'Boson': without zero energy"""
    n = c.i(1, 3)
    e = np.array([c.r(-wmax, wmax) for k in range(n)])
    if stat == 'Boson':
        e = np.where(abs(e) < .3, .5, e)
    return e, c.array(n, *shape, cplx=True)


def iw(q):
    return np.array([p[2] for p in q.pts])


def G_iw(z, e, R):
    return np.tensordot(1 / (z[:, None] - e), R, 1)


def G_tau(t, e, R, beta, stat):
    x = np.where(e > 0, -e * t[:, None], e * (beta - t[:, None]))          # e^{-te} / (1 +- e^{-beta e})
    s = 1 if stat == 'Fermion' else -1
    f = np.exp(x) / (1 + s * np.exp(-beta * abs(e))) * np.where(e > 0, 1, s)
    return -np.tensordot(f, R, 1)


def mk(q, shape, cplx=True, c=None, name=''):
    m = q.m if isinstance(q, M) else q
    d = c.array(*([len(x) for x in m.components] if isinstance(m, MeshProduct) else [len(m)]), *shape, cplx=cplx)
    return Gf(mesh=m, data=d, name=name)


def strided(c, d):
    """the same numbers with other strides"""
    k = c.i(0, 3)
    if k == 0:
        return d
    if k == 1:
        return np.asfortranarray(d)
    big = np.zeros([2 * x + 1 for x in d.shape], d.dtype)
    v = big[tuple(slice(1, 2 * x, 2) for x in d.shape)] if k == 2 else big[tuple(slice(2 * x - 1, 0 if x > 0 else None, -2) for x in d.shape)]
    v[...] = d
    return v


def shape_of(c, square=True):
    k = c.i(0, 3)
    return () if k == 0 else (c.i(1, 3),) * 2 if square else (c.i(1, 3), c.i(1, 3))


def t_call(c):
    kind = c.pick(['imfreq', 'imtime', 'refreq', 'retime', 'dlr', 'brzone', 'cyclat'])
    q = M(c, kind)
    g = mk(q, shape_of(c, False), c=c)
    g = Gf(mesh=g.mesh, data=strided(c, g.data))
    ref = g.data.copy()
    c.trace('%s %s %s %s', kind, q.pos, g.data.shape, g.data.strides)
    view = g
    if g.target_rank == 2 and c.chance(.3):
        view = g[0:1, 0:c.i(1, g.target_shape[1])]
        ref = ref[:, 0:1, 0:view.target_shape[1]]
    if c.chance(.5):                                   # the function is called with the values of the moment
        k = c.i(0, len(g.mesh) - 1)
        g.data[k] *= 2
        ref[k] *= 2

    def at(x, r, *what):
        y = view(x)
        c.check(np.shape(y) == r.shape, 'shape %s of %s', np.shape(y), what)
        c.close(y, r, 1e-10, *what)
    pts = list(g.mesh)
    k = c.i(0, len(pts) - 1)
    p = pts[k]
    if kind in ('imfreq', 'imtime', 'refreq', 'retime', 'brzone', 'cyclat'):
        at(p, ref[k], 'at a mesh point %s', k)
        at(Idx(p.index) if kind not in ('brzone', 'cyclat') else Idx(*[int(x) for x in p.index]), ref[k], 'at an index')
    if kind == 'imfreq':
        at(int(p.index), ref[k], 'at a number')
        at(MatsubaraFreq(int(p.index), q.beta, q.stat), ref[k], 'at a frequency')
        c.throws(lambda: view(.5), 'a real number', of=TypeError)
    elif kind == 'imtime':
        x = c.r(0, 1) * q.beta
        n = len(pts)
        j = min(int(x / q.beta * (n - 1)), n - 2)
        w = x / q.beta * (n - 1) - j
        at(x, ref[j] * (1 - w) + ref[j + 1] * w, 'at %s', x)
    elif kind in ('refreq', 'retime'):
        x = q.lo + c.r(0, 1) * (q.hi - q.lo)
        n = len(pts)
        t = (x - q.lo) / (q.hi - q.lo) * (n - 1)
        j = min(int(t), n - 2)
        at(x, ref[j] * (1 - t + j) + ref[j + 1] * (t - j), 'at %s', x)
    elif kind == 'dlr':
        t = c.r(.01, .99) * q.beta
        w = np.array([complex(x.value).real for x in pts])         # the energies of the basis
        x = t / q.beta
        f = np.where(w > 0, np.exp(-w * x) / (1 + np.exp(-abs(w))), np.exp(w * (1 - x)) / (1 + np.exp(-abs(w))))
        at(t, -np.tensordot(f, ref, 1), 'sum over the basis')
        n = c.i(-5, 5)
        z = 1j * np.pi * (2 * n + (q.stat == 'Fermion')) / q.beta
        if q.stat == 'Fermion':
            at(MatsubaraFreq(n, q.beta, q.stat), np.tensordot(1 / (z - w / q.beta), ref, 1), 'frequency')
        else:
            at(MatsubaraFreq(n, q.beta, q.stat), np.tensordot(np.tanh(w / 2) / (z - w / q.beta), ref, 1), 'frequency')
    elif kind == 'brzone':
        s = [c.i(-2, 2) if x > 1 else 0 for x in q.d]
        at([float(x) for x in num(p.value) + np.array(s) @ q.bz.units], ref[k], 'at a vector')
    else:
        s = [c.i(-2, 2) if x > 1 else 0 for x in q.d]
        at([int(a) + b * e for a, b, e in zip(p.index, s, q.d)], ref[k], 'at an index, periodic')
        at(LatticePoint([int(a) + b * e for a, b, e in zip(p.index, s, q.d)], q.bl), ref[k], 'at a point, periodic')
    c.throws(lambda: view('x'), 'a string', of=TypeError)
    c.nontrivial('call %s %s %s' % (kind, q.pos, g.data.shape))


def t_call_product(c):
    a, b = c.pick([('brzone', 'imfreq'), ('cyclat', 'imtime')])
    bl = lattice(c)
    A, B = M(c, a, lat=bl), M(c, b)
    m = MeshProduct(A.m, B.m)
    g = mk(m, shape_of(c, False), c=c)
    g = Gf(mesh=m, data=strided(c, g.data))
    ref = g.data.copy()
    pa, pb = c.pick(list(A.m)), c.pick(list(B.m))
    i, j = pa.data_index, pb.data_index
    ia = [int(x) for x in pa.index]
    args = [pb, Idx(pb.index)] + ([int(pb.index), MatsubaraFreq(int(pb.index), B.beta, B.stat)] if b == 'imfreq' else [float(pb.value)])
    firsts = [pa, Idx(*ia), ia] + ([LatticePoint(ia, A.bl)] if a == 'cyclat' else [[float(x) for x in num(pa.value)]])
    x, y = c.pick(firsts), c.pick(args)
    c.trace('%s %s %s %s: %s %s', A.pos, B.pos, g.data.shape, g.data.strides, x, y)
    c.close(g(x, y), ref[i, j], 1e-10, 'value')
    r = g(x, all)
    c.check(isinstance(r, Gf) and r.mesh == B.m and r.target_shape == g.target_shape, 'partial evaluation')
    c.close(r.data, ref[i], 1e-10, 'partial evaluation, second variable')
    r2 = g(all, y)
    c.check(isinstance(r2, Gf) and r2.mesh == A.m, 'partial evaluation')
    c.close(r2.data, ref[:, j], 1e-10, 'partial evaluation, first variable')
    r.data[...] = 7
    r2.data[...] = 7
    c.check(np.array_equal(g.data, ref), 'the result of an evaluation is a copy')
    c.throws(lambda: g(x), 'number of arguments', of=TypeError)
    c.throws(lambda: g(y, x), 'order of the arguments', of=TypeError)
    g2 = pickle.loads(pickle.dumps(g))
    c.check(g2.mesh == g.mesh and np.array_equal(g2.data, ref), 'pickle')
    c.nontrivial('prod %s %s' % (A.pos, B.pos))


def refused(c, f, gs, *what, of=TypeError):
    """a call which does not fit raises TypeError and leaves the data alone"""
    before = [g.data.copy() for g in gs]
    c.throws(f, *what, of=of)
    c.check(all(np.array_equal(g.data, b) for g, b in zip(gs, before)), 'the data changed')


def t_inplace(c):
    """functions which write into the numpy data of their arguments"""
    kind = c.pick(['imfreq', 'refreq'])
    q = M(c, kind)
    n = c.i(1, 3)
    big = mk(q, (n + 1, n + 1), c=c)
    big = Gf(mesh=big.mesh, data=strided(c, big.data))
    o = c.i(0, 1)
    g = big[o:o + n, o:o + n]
    ref = big.data.copy()
    sub = ref[:, o:o + n, o:o + n]
    c.trace('%s %s %s', kind, q.pos, g.data.strides)
    for k in range(c.i(1, 4)):
        w = c.i(0, 6)
        if w < 4:
            s = 1 if w % 2 else -1
            y = c.array(n, n, cplx=c.chance(.5)) if w < 2 else c.pick([2, .5, 1j, 1 - 2j])
            (wrapped_aux._iadd_g_matrix_scalar if s > 0 else wrapped_aux._isub_g_matrix_scalar)(g, y)
            sub += s * (y if w < 2 else y * np.eye(n))
        elif w == 4:
            with np.errstate(all='ignore'):
                if np.linalg.cond(sub).max() > 1e6:
                    continue
            wrapped_aux._gf_invert_data_in_place(g.data)
            sub[...] = np.linalg.inv(sub)
        elif w == 5:
            h = mk(q, (n + 1, n), c=c)
            L, R = c.array(n, n + 1, cplx=True), c.array(n, n, cplx=True)
            g.from_L_G_R(L, h, R)
            sub[...] = L @ h.data @ R
        else:
            g << c.pick([1, 2.5]) * g + 1j
            c.check(True)
            sub[...] = g.data
    c.close(big.data, ref, 1e-8, 'the data of the whole function')
    f = c.i(0, 9)
    if f > 5:
        a, b = n + c.i(0, 2), n + c.i(0, 2)
        if a == b == n:
            a = n + 1
        y, h = c.array(a, b, cplx=c.chance(.5)), mk(q, (n, n + 1), c=c)
        q2 = M(c, kind, N=len(q.m) + 2)
        far = mk(q2, (n, n), c=c)
        near = mk(M(c, kind, N=2 if kind == 'refreq' else 1), (n, n), c=c)
        e = np.eye(n)

        def iadd(g, y):
            g += y

        def isub(g, y):
            g -= y
        refused(c, lambda: iadd(g, y), [big], 'a matrix of another shape added', of=RuntimeError)
        refused(c, lambda: isub(g, y), [big], 'a matrix of another shape subtracted', of=RuntimeError)
        refused(c, lambda: g.from_L_G_R(e, c.pick([x for x in (far, near) if len(x.mesh) != len(g.mesh)]), e), [big], 'another mesh', of=AssertionError)
        refused(c, lambda: h.invert(), [h], 'not a square matrix', of=RuntimeError)
        refused(c, lambda: iadd(h, 1.), [h], 'a number added to a rectangular matrix', of=RuntimeError)
        refused(c, lambda: isub(h, 1.), [h], 'a number subtracted from a rectangular matrix', of=RuntimeError)
    elif f == 0:
        refused(c, lambda: wrapped_aux._iadd_g_matrix_scalar(g, 'x'), [big], 'a string')
    elif f == 1:
        refused(c, lambda: wrapped_aux._iadd_g_matrix_scalar(mk(q, (), c=c), 1.), [big], 'a scalar function')
    elif f == 2:
        r = Gf(mesh=q.m, data=g.data.real.copy())
        refused(c, lambda: wrapped_aux._iadd_g_matrix_scalar(r, 1.), [r], 'a real function')
    elif f == 3:
        refused(c, lambda: wrapped_aux._gf_invert_data_in_place(g.data.real), [big], 'real data')
    elif f == 4:
        refused(c, lambda: wrapped_aux._gf_invert_data_in_place(g.data[0]), [big], 'one matrix')
    else:
        q2 = M(c, 'imtime')
        r = mk(q2, (n, n), c=c)
        refused(c, lambda: wrapped_aux._iadd_g_matrix_scalar(r, 1.), [r], 'another mesh')
    c.nontrivial('inplace %s %s %s' % (kind, q.pos, ref.shape))


def adj(d):
    return d.conj() if d.ndim == 1 else d.conj().swapaxes(-1, -2)


def block_of(c, gs):
    names = ['b%d' % k for k in range(len(gs))]
    c.shuffle(names)
    return BlockGf(name_list=names, block_list=gs)


def block2_of(gs, n):
    return Block2Gf(['p%d' % k for k in range(len(gs) // n)], ['q%d' % k for k in range(n)], [gs[k:k + n] for k in range(0, len(gs), n)])


def flat(B):
    return [B] if isinstance(B, Gf) else [g for _, g in B]


def same_structure(c, a, b):
    c.check(type(a) is type(b), 'type of the result')
    if isinstance(a, BlockGf):
        c.eq(list(a.indices), list(b.indices), 'names of the blocks')
    elif isinstance(a, Block2Gf):
        c.eq((list(a.indices1), list(a.indices2)), (list(b.indices1), list(b.indices2)), 'names of the blocks')


def container(c, mk1):
    k = c.i(0, 3)
    if k < 2:
        return mk1()
    gs = [mk1() for _ in range(c.i(1, 3) * (2 if k == 3 else 1))]
    return block_of(c, gs) if k == 2 else block2_of(gs, 2)


def t_symmetrise(c):
    kind = c.pick(['imfreq', 'imtime'])
    q = M(c, kind)
    shape = shape_of(c)

    def mk1():
        g = mk(q, shape, c=c)
        return Gf(mesh=q.m, data=strided(c, g.data))
    B = container(c, mk1)
    if isinstance(B, Block2Gf) and kind == 'imtime':   # not among the overloads built here
        B = block_of(c, flat(B))
    ref = [g.data.copy() for g in flat(B)]
    c.trace('%s %s %s %s', kind, q.pos, shape, type(B).__name__)
    which = c.i(0, 1) if kind == 'imfreq' else 0
    f, chk = [(gf_factories.make_hermitian, gf_fnt.is_gf_hermitian), (gf_factories.make_real_in_tau, gf_fnt.is_gf_real_in_tau)][which]
    r = f(B)
    same_structure(c, r, B)
    for g, h, d in zip(flat(B), flat(r), ref):
        c.check(np.array_equal(g.data, d), 'the argument changed')
        c.check(h.mesh == q.m and not np.shares_memory(h.data, g.data), 'the result is new')
        m = d[::-1] if kind == 'imfreq' else d
        c.close(h.data, (d + (m.conj() if which else adj(m))) / 2, 1e-12, f.__name__)
    if which == 0 or kind == 'imfreq':
        c.eq(chk(r), True, 'is hermitian' if not which else 'is real')
        c.eq(chk(r, tolerance=1e-9), True)
        bad = any(not np.allclose(d, (d[::-1] if kind == 'imfreq' else d).conj() if which else adj(d[::-1] if kind == 'imfreq' else d), atol=1e-9) for d in ref)
        c.eq(chk(B), not bad, 'check of the original')
        c.eq(chk(B, 1e6), True, 'large tolerance')
    if isinstance(B, Gf):
        q2 = M(c, 'refreq')
        g = mk(q2, shape, c=c)
        refused(c, lambda: f(g), [g], 'another mesh')
    r2 = B.copy()
    if isinstance(B, Gf):
        r2.data[...] = 0
        c.check(np.array_equal(B.data, ref[0]), 'copy')
        p = pickle.loads(pickle.dumps(B))
        c.check(p.mesh == B.mesh and np.array_equal(p.data, B.data) and p.name == B.name, 'pickle')
    else:
        p = pickle.loads(pickle.dumps(B))
        same_structure(c, p, B)
        c.check(all(np.array_equal(x.data, y.data) and x.mesh == y.mesh for x, y in zip(flat(p), flat(B))), 'pickle')
    c.nontrivial('sym %s %s %s %s' % (kind, q.pos, shape, which))


def t_fourier(c):
    """all directions between imaginary time and frequency, with poles"""
    beta = c.r(2., 8.)
    stat = c.pick(STATS)
    shape = shape_of(c, False)
    n_iw, n_tau = 160, 1501
    q, t = M(c, 'imfreq', beta, stat, n_iw), M(c, 'imtime', beta, stat, n_tau)
    z, tau = iw(q), np.array([p[2] for p in t.pts])
    ps = []

    def both():
        e, R = poles(c, shape, beta, stat)
        ps.append((e, R))
        return G_iw(z, e, R), G_tau(tau, e, R, beta, stat)
    kindc = c.i(0, 2)
    n = 1 if kindc == 0 else 2
    data = [both() for _ in range(n)]
    wrap = lambda gs: gs[0] if kindc == 0 else BlockGf(name_list=['up', 'dn'], block_list=gs)
    giw = wrap([Gf(mesh=q.m, data=strided(c, d[0])) for d in data])
    gtau = wrap([Gf(mesh=t.m, data=strided(c, d[1])) for d in data])
    w = c.i(0, 7)
    c.trace('beta=%s %s %s %s way %s', beta, stat, shape, type(giw).__name__, w)
    tol_iw, tol_tau = 3e-4, 3e-4
    moments = [np.array([np.zeros(shape), R.sum(0), np.tensordot(e, R, 1)]).astype(complex) for e, R in ps]
    if w == 0:
        r, ref, mesh, tol = gf_factories.make_gf_from_fourier(giw, n_tau), 1, t.m, tol_tau
    elif w == 1:
        r, ref, mesh, tol = gf_factories.make_gf_from_fourier(gtau, n_iw), 0, q.m, tol_iw
    elif w == 2:
        out = wrap([Gf(mesh=t.m, data=strided(c, np.zeros_like(d[1]))) for d in data])
        keep = [g.data for g in flat(out)]
        for g, o in zip(flat(giw), flat(out)) if c.chance(.5) else [(giw, out)]:
            o.set_from_fourier(g) if isinstance(o, Gf) and c.chance(.5) else gf_fnt.set_from_fourier(o, g)
        c.check(all(g.data is k for g, k in zip(flat(out), keep)), 'the data were replaced')
        r, ref, mesh, tol = out, 1, t.m, tol_tau
    elif w == 3:
        out = wrap([Gf(mesh=q.m, data=strided(c, np.zeros_like(d[0]))) for d in data])
        gf_fnt.set_from_fourier(out, gtau)
        r, ref, mesh, tol = out, 0, q.m, tol_iw
    elif w == 4 and kindc == 0:
        out = Gf(mesh=t.m, data=np.zeros_like(data[0][1]))
        gf_fnt.set_from_fourier(out, giw, moments[0])
        r, ref, mesh, tol = out, 1, t.m, tol_tau
    elif w == 5:
        r, ref, mesh, tol = gf_factories.make_gf_from_fourier(giw, t.m, moments[0] if kindc == 0 else moments), 1, t.m, tol_tau
    elif w == 6:
        r, ref, mesh, tol = gf_factories.make_gf_from_fourier(gtau, q.m, moments[0] if kindc == 0 else moments), 0, q.m, tol_iw
    else:
        out = wrap([Gf(mesh=q.m, data=np.zeros_like(d[0])) for d in data])
        for g, o in zip(flat(gtau), flat(out)):
            o << Fourier(g)
        r, ref, mesh, tol = out, 0, q.m, tol_iw
    same_structure(c, r, giw)
    for g, d in zip(flat(r), data):
        c.check(g.mesh == mesh and g.target_shape == shape, 'mesh and shape')
        c.close(g.data, d[ref], tol * (1 + abs(d[ref]).max()), 'values')
    for g, d in zip(flat(giw), data):
        c.check(np.array_equal(g.data, d[0]), 'the argument changed')
    for g, d in zip(flat(gtau), data):
        c.check(np.array_equal(g.data, d[1]), 'the argument changed')
    if kindc == 0:
        refused(c, lambda: gf_fnt.set_from_fourier(giw, giw), [giw], 'same kind of mesh')
        refused(c, lambda: gf_fnt.set_from_fourier(giw, giw.data), [giw], 'an array')
    c.nontrivial('fourier %s %s %s %s' % (beta, stat, shape, w))


def t_fourier_real(c):
    kind = c.pick(['refreq', 'retime'])
    n = c.i(4, 30)
    q = M(c, 'refreq' if kind == 'refreq' else 'retime', N=n)
    g = mk(q, shape_of(c, False), c=c)
    sh = c.chance(.5)
    c.trace('%s %s %s', kind, q.pos, sh)
    r = gf_factories.make_gf_from_fourier(g, sh) if c.chance(.7) else gf_factories.make_gf_from_fourier(g, shift_half_bin=sh) if False else gf_factories.make_gf_from_fourier(g, sh)
    c.check(isinstance(r.mesh, MeshReTime if kind == 'refreq' else MeshReFreq), 'adjoint mesh')
    x, y = np.array([p.value for p in g.mesh]), np.array([p.value for p in r.mesh])
    d = (x[-1] - x[0]) / (n - 1)
    s = -1 if kind == 'refreq' else 1
    ph = np.exp(1j * s * np.outer(y, x)) * d / (2 * math.pi if kind == 'refreq' else 1)
    if len(y) == n:
        ref = np.tensordot(ph, g.data, 1)
        c.check(r.data.shape == ref.shape, 'shape')
    m2 = meshes_mod.make_adjoint_mesh(g.mesh, sh)
    c.check(m2 == r.mesh, 'make_adjoint_mesh')
    c.nontrivial('fr %s %s' % (kind, q.pos))


def t_fourier_lattice(c):
    bl = lattice(c)
    kind = c.pick(['brzone', 'cyclat'])
    q = M(c, kind, lat=bl)
    shape = shape_of(c, False)
    B = container(c, lambda: Gf(mesh=q.m, data=strided(c, mk(q, shape, c=c).data)))
    if isinstance(B, Block2Gf):
        B = flat(B)[0]
    ref = [g.data.copy() for g in flat(B)]
    r = gf_factories.make_gf_from_fourier(B)
    same_structure(c, r, B)
    d = q.d
    idx = np.array(list(itertools.product(*[range(x) for x in d])))
    ph = np.exp(2j * np.pi * (idx @ np.diag(1 / np.array(d, float)) @ idx.T))
    c.trace('%s %s %s', kind, d, shape)
    for g, h, o in zip(flat(r), flat(B), ref):
        want = np.tensordot(ph, o, 1) if kind == 'cyclat' else np.tensordot(ph.conj(), o, 1) / len(idx)
        c.close(g.data, want, 1e-9, 'values')
        c.check(isinstance(g.mesh, MeshCycLat if kind == 'brzone' else MeshBrZone) and list(g.mesh.dims) == d, 'mesh')
        c.check(np.array_equal(h.data, o), 'the argument changed')
    back = B.copy()
    for g in flat(back):
        g.data[...] = 0
    gf_fnt.set_from_fourier(back, r)
    for g, o in zip(flat(back), ref):
        c.close(g.data, o, 1e-9, 'there and back')
    c.check(flat(r)[0].mesh == meshes_mod.make_adjoint_mesh(q.m), 'make_adjoint_mesh')
    c.nontrivial('fl %s %s %s' % (kind, d, shape))


def t_density(c):
    beta = c.r(1., 10.)
    shape = shape_of(c)
    e, R = poles(c, shape, beta, 'Fermion')
    R = (R + R.conj().swapaxes(1, 2)) / 2 if shape else R.real + 0j        # a hermitian spectral function
    occ = np.tensordot(1 / (1 + np.exp(beta * e)), R, 1)
    k = c.i(0, 4)
    c.trace('beta=%s e=%s %s way %s', beta, e, shape, k)
    mom = np.array([np.zeros(shape), R.sum(0), np.tensordot(e, R, 1), np.tensordot(e**2, R, 1)]).astype(complex)
    if k < 2:
        q = M(c, 'imfreq', beta, 'Fermion', 300)
        g = Gf(mesh=q.m, data=strided(c, G_iw(iw(q), e, R)))
        r = g.density(mom) if k else g.density()
        tol = 2e-4
    elif k == 2:
        m = MeshDLRImTime(beta, 'Fermion', 4., 1e-12)
        t = np.array([p.value for p in m])
        g = gf_factories.make_gf_dlr(Gf(mesh=m, data=strided(c, G_tau(t, e, R, beta, 'Fermion'))))
        r, tol = g.density(), 1e-7
    elif k == 3:
        m = MeshImTime(beta, 'Fermion', 2001)
        t = np.array([p.value for p in m])
        g = Gf(mesh=MeshLegendre(beta, 'Fermion', 40), target_shape=shape)
        gf_fnt.set_from_imtime(g, Gf(mesh=m, data=G_tau(t, e, R, beta, 'Fermion')))
        r, tol = g.density(), 2e-2
    else:
        m = MeshReFreq(-8, 8, 801)
        x = np.array([p.value for p in m])
        g = Gf(mesh=m, data=strided(c, np.tensordot(1 / (x[:, None] - e + .05j), R, 1)))
        S = 1j * (g.data - (g.data.conj().swapaxes(1, 2) if shape else g.data.conj())) / (2 * np.pi) * m.delta

        def f(b):
            return np.tensordot(1 / (1 + np.exp(b * x)), S, 1)
        r = g.density(beta)
        c.check(np.shape(r) == shape, 'shape')
        c.close(r, f(beta), 1e-9 * (1 + abs(R).sum()), 'density')
        c.check(np.array_equal(r, g.density(beta=beta)), 'keyword')
        lim = 3 * m.delta * abs(S).max() / m.delta
        c.check(abs(g.density() - f(700.)).max() < lim, 'density at zero temperature')
        return c.nontrivial('density %s %s' % (beta, k))
    c.check(np.shape(r) == shape, 'shape %s', np.shape(r))
    # which of <c+_i c_j>, <c+_j c_i> is returned: the known finding of G05
    r = np.asarray(r)
    c.check(min(abs(r - occ).max(), abs(r - occ.T).max()) < tol * (1 + abs(R).sum()), 'density %s, expected %s', r, occ)
    if k < 2:
        c.close(g.total_density(), np.trace(occ) if shape else occ, tol * (1 + abs(R).sum()), 'total density')
    c.nontrivial('density %s %s' % (beta, k))


def t_legendre(c):
    beta = c.r(1., 10.)
    shape = shape_of(c, False)
    stat = 'Fermion'
    e, R = poles(c, shape, beta, stat, 3.)
    n_l = 60
    P = np.polynomial.legendre
    x, w = P.leggauss(200)
    gt = G_tau((x + 1) * beta / 2, e, R, beta, stat)
    ref = np.array([math.sqrt(2 * l + 1) * beta / 2 * np.tensordot(w * P.legval(x, [0] * l + [1]), gt, 1) for l in range(n_l)])
    gl = Gf(mesh=MeshLegendre(beta, stat, n_l), data=strided(c, ref.astype(complex)))
    q, t = M(c, 'imfreq', beta, stat, 40), M(c, 'imtime', beta, stat, 101)
    c.trace('beta=%s e=%s %s', beta, e, shape)
    tau = np.array([p[2] for p in t.pts])
    k = c.i(0, 3)
    if k == 0:
        g = Gf(mesh=q.m, data=strided(c, np.zeros((80,) + shape, complex)))
        g.set_from_legendre(gl) if c.chance(.5) else g << LegendreToMatsubara(gl)
        c.close(g.data, G_iw(iw(q), e, R), 1e-6 * (1 + abs(R).sum()), 'frequencies')
    elif k == 1:
        g = Gf(mesh=t.m, data=strided(c, np.zeros((101,) + shape, complex)))
        gf_fnt.set_from_legendre(g, gl)
        c.close(g.data, G_tau(tau, e, R, beta, stat), 1e-5 * (1 + abs(R).sum()), 'times')
    elif k == 2:
        t2 = M(c, 'imtime', beta, stat, 4001)
        g = Gf(mesh=t2.m, data=G_tau(np.array([p[2] for p in t2.pts]), e, R, beta, stat))
        o = Gf(mesh=MeshLegendre(beta, stat, 10), data=strided(c, np.zeros((10,) + shape, complex)))
        gf_fnt.set_from_imtime(o, g)
        c.close(o.data, ref[:10], 1e-3 * (1 + abs(R).sum()), 'from times')
    elif len(shape) == 2:
        disc = c.array(*shape)
        rest = gl.data.copy()
        tl = np.array([-2 * math.sqrt(2 * l + 1) / beta if l % 2 == 0 else 0. for l in range(n_l)])
        gl.enforce_discontinuity(disc)
        c.close(np.tensordot(tl, gl.data, 1), disc, 1e-9, 'discontinuity')
        c.close((gl.data - rest)[1::2], 0 * rest[1::2], 1e-12, 'odd coefficients')
    c.check(k == 3 or np.array_equal(gl.data, ref.astype(complex)), 'the argument changed')
    c.nontrivial('legendre %s %s' % (beta, k))


def t_dlr(c):
    beta = c.r(1., 10.)
    stat = c.pick(STATS) if c.chance(.3) else 'Fermion'
    shape = shape_of(c, False)
    wmax, eps = 4., 1e-11
    ps, lat = [], None
    prod = c.chance(.3)
    lat = M(c, c.pick(['brzone', 'cyclat'])) if prod else None
    kb = c.chance(.3)
    full = ((len(lat.m),) if prod else ()) + shape

    mt, mw, mc = (cls(beta, stat, wmax, eps) for cls in (MeshDLRImTime, MeshDLRImFreq, MeshDLR))
    c.eq((len(mt), len(mw)), (len(mc),) * 2, 'sizes')
    tau, z = np.array([p.value for p in mt]), np.array([complex(p.value) for p in mw])
    c.check(meshes_mod.make_adjoint_mesh(mt) == mw and meshes_mod.make_adjoint_mesh(mw) == mt, 'adjoint')

    def gf(m, d):                                      # d: energies or times first
        if prod:
            return Gf(mesh=MeshProduct(lat.m, m), data=strided(c, np.ascontiguousarray(np.moveaxis(d, 0, 1))))
        return Gf(mesh=m, data=strided(c, d))

    def val(g):
        return np.moveaxis(g.data, 1, 0) if prod else g.data

    def mesh_of(g):
        return g.mesh[1] if prod else g.mesh
    for _ in range(2 if kb else 1):
        ps.append(poles(c, full, beta, stat, 2.))
    wrap = lambda gs: BlockGf(name_list=['x', 'a'], block_list=gs) if kb else gs[0]
    st = wrap([gf(mt, G_tau(tau, e, R, beta, stat)) for e, R in ps])
    sw = wrap([gf(mw, G_iw(z, e, R)) for e, R in ps])
    c.trace('beta=%s %s %s %s %s', beta, stat, shape, prod and lat.pos, kb)
    scale = 1 + max(abs(R).sum() for e, R in ps)
    a, b = gf_factories.make_gf_dlr(st), gf_factories.make_gf_dlr(sw)
    for x in (a, b):
        same_structure(c, x, st)
        for g in flat(x):
            c.check(mesh_of(g) == mc and g.target_shape == shape, 'mesh and shape')
    n_tau, n_iw = c.i(2, 30), c.i(1, 20)
    q = M(c, 'imfreq', beta, stat, n_iw)
    T = np.linspace(0, beta, n_tau)
    bos = 1e3 if stat == 'Boson' else 1
    for x in (a, b):
        for r, m, y in ((gf_factories.make_gf_dlr_imtime(x), mt, [G_tau(tau, e, R, beta, stat) for e, R in ps]), (gf_factories.make_gf_dlr_imfreq(x), mw, [G_iw(z, e, R) for e, R in ps]),
                        (gf_factories.make_gf_imtime(x, n_tau), MeshImTime(beta, stat, n_tau), [G_tau(T, e, R, beta, stat) for e, R in ps]),
                        (gf_factories.make_gf_imfreq(x, n_iw), q.m, [G_iw(iw(q), e, R) for e, R in ps])):
            same_structure(c, r, st)
            for g, d in zip(flat(r), y):
                c.check(mesh_of(g) == m, 'mesh')
                c.close(val(g), d, 1e-7 * scale * bos, 'values')
    if not prod:
        for g, (e, R) in zip(flat(a), ps):
            t = c.r(.01, .99) * beta
            n = c.i(-50, 50)
            c.close(g(t), G_tau(np.array([t]), e, R, beta, stat)[0], 1e-7 * scale * bos, 'call with a time')
            zz = complex(MatsubaraFreq(n, beta, stat))
            c.close(g(MatsubaraFreq(n, beta, stat)), G_iw(np.array([zz]), e, R)[0], 1e-7 * scale * bos, 'call with a frequency')
        gl = wrap([Gf(mesh=MeshImTime(beta, stat, 101), data=G_tau(np.linspace(0, beta, 101), e, R, beta, stat)) for e, R in ps])
        f = gf_factories.fit_gf_dlr(gl, wmax, 1e-8)
        for g, (e, R) in zip(flat(f), ps):
            c.check(isinstance(g.mesh, MeshDLR) and g.mesh.w_max == wmax and g.mesh.eps == 1e-8, 'mesh of the fit')
            t = c.r(.05, .95) * beta
            c.close(g(t), G_tau(np.array([t]), e, R, beta, stat)[0], 1e-5 * scale * bos, 'fit')
        for x in flat(st):
            refused(c, lambda: gf_factories.make_gf_dlr_imtime(x), [x], 'not in the DLR basis')
    c.nontrivial('dlr %s %s %s %s' % (beta, stat, shape, prod))


def t_tail(c):
    beta = c.r(2., 10.)
    shape = shape_of(c, False)
    q = M(c, 'imfreq', beta, 'Fermion', c.i(150, 250))
    ps = [poles(c, shape, beta, 'Fermion', 1.5) for _ in range(2)]
    mom = [np.array([np.zeros(shape)] + [np.tensordot(e**k, R, 1) for k in range(6)]).astype(complex) for e, R in ps]
    gs = [Gf(mesh=q.m, data=strided(c, G_iw(iw(q), e, R))) for e, R in ps]
    c.trace('beta=%s %s', beta, shape)
    known = c.i(0, 3)
    scale = 1 + max(abs(R).sum() for e, R in ps)
    herm = c.chance(.3) and (len(shape) == 0 or shape[0] == shape[1])
    if herm:
        for k, (e, R) in enumerate(ps):
            H = (R + adj(R)) / 2
            gs[k] = Gf(mesh=q.m, data=G_iw(iw(q), e, H))
            mom[k] = np.array([np.zeros(shape)] + [np.tensordot(e**k2, H, 1) for k2 in range(6)]).astype(complex)
    f = gf_fnt.fit_hermitian_tail if herm else gf_fnt.fit_tail
    for k in range(2):
        t, err = f(gs[k], mom[k][:known]) if known else f(gs[k])
        c.check(t.shape[1:] == shape and len(t) > 3 and err < 1e-3 * scale, 'shape %s, error %s', t.shape, err)
        c.close(t[:3], mom[k][:3], 2e-3 * scale, 'moments')
        c.close(t[:known], mom[k][:known], 1e-12, 'known moments')
        if herm:
            c.close(t, np.array([adj(x) if x.ndim else x.conj() for x in t]), 1e-10, 'hermitian')
    B = block_of(c, gs)
    ts, err = f(B, [m[:2] for m in mom]) if known else f(B)
    c.check(isinstance(ts, list) and len(ts) == 2, 'one tail for each block')
    for k in range(2):
        c.close(ts[k][:3], mom[k][:3], 2e-3 * scale, 'moments of the blocks')
    if len(shape) == 2:
        n0 = c.i(20, 60)
        g = gs[0]
        g2 = Gf(mesh=g.mesh, data=strided(c, g.data + 1.))
        keep = g2.data
        g2.replace_by_tail(mom[0], n0)
        ns = np.array([p[0] for p in q.pts])
        z = iw(q)
        tailv = sum(np.multiply.outer(z**-float(k), mom[0][k]) for k in range(len(mom[0])))
        far = (ns >= n0) | (ns < -n0)
        c.check(g2.data is keep, 'the data were replaced')
        c.close(g2.data, np.where(far[:, None, None], tailv, g.data + 1.), 1e-10, 'replace_by_tail from %s', n0)
        refused(c, lambda: g.replace_by_tail(mom[0].real.copy(), n0), [g], 'real moments')
        t, err = g.fit_tail_on_window(n0, len(ns) // 2 - 1, mom[0][:2], 30, 4)
        c.close(t[:3], mom[0][:3], 2e-2 * scale, 'fit on a window')
    refused(c, lambda: gf_fnt.fit_tail(mk(M(c, 'imtime'), shape, c=c)), gs, 'another mesh')
    c.nontrivial('tail %s %s' % (beta, shape))


def t_pade(c):
    beta = c.r(5., 20.)
    e, R = poles(c, (), beta, 'Fermion', 1.)
    shape = c.pick([(), (1, 1), (2, 1)])
    q = M(c, 'imfreq', beta, 'Fermion', 30)
    W = c.array(*shape, cplx=True) if shape else np.array(1.)
    d = np.multiply.outer(G_iw(iw(q), e, R), W) if shape else G_iw(iw(q), e, R)
    g = Gf(mesh=q.m, data=strided(c, d))
    m = MeshReFreq(-2, 2, c.i(2, 9))
    o = Gf(mesh=m, data=strided(c, np.zeros((len(m),) + shape, complex)))
    off = .3
    k = c.i(0, 1)
    (o.set_from_pade(g, 20, off) if k else gf_fnt.set_from_pade(o, g, n_points=20, freq_offset=off))
    x = np.array([p.value for p in m]) + 1j * off
    ref = np.tensordot(1 / (x[:, None] - e), R, 1)
    ref = np.multiply.outer(ref, W) if shape else ref
    c.trace('beta=%s e=%s', beta, e)
    c.close(o.data, ref, 1e-3 * (1 + abs(ref).max()), 'continuation')
    c.nontrivial('pade %s' % beta)


def nest(kind, gs):
    """the function, the block function or the function with two block indices made of these"""
    if kind == 'gf':
        return gs[0]
    return BlockGf(name_list=['x', 'a', 'm'][:len(gs)], block_list=gs) if kind == 'block' else block2_of(gs, 2)


def t_lift(c):
    """transformations act on every component, block and data type alike"""
    beta, stat = c.r(1., 4.), c.pick(STATS)
    shape = c.pick([(), (c.i(1, 2), c.i(1, 2))])               # the ranks built (see DROP in bin/specs.py)
    cont = c.pick(['gf', 'gf', 'block'])
    op = c.pick(['fourier', 'fourier', 'fourier_n', 'fourier_m', 'set', 'set_m', 'legendre', 'dlr', 'dlr', 'dlr_prod', 'dlr_prod', 'pade', 'real_in_tau', 'rebin', 'hermitian'])
    real = False
    if op in ('set_m', 'legendre', 'pade', 'rebin'):
        cont = 'gf'
    if op == 'rebin':
        rank, shape = 2, (c.i(1, 2), c.i(1, 3))
    if op == 'dlr_prod':
        shape = c.pick([(), (c.i(1, 2), c.i(1, 2))])
        cont = c.pick(['gf', 'block'])
    if op in ('real_in_tau', 'hermitian'):
        cont = c.pick(['gf', 'block', 'block2'])
        if op == 'hermitian':
            n, m = c.i(1, 2), c.i(1, 2)
            shape = c.pick([(), (n, n)])
    rank = len(shape)
    nb = 1 if cont == 'gf' else c.i(1, 3) if cont == 'block' else 2 * c.i(1, 2)
    lat = M(c, c.pick(['brzone', 'cyclat']))
    n_iw, n_tau, n_r = c.i(20, 30), c.i(62, 80), c.i(4, 12)
    mk_ = {'imfreq': lambda: MeshImFreq(beta, stat, n_iw), 'imtime': lambda: MeshImTime(beta, stat, n_tau), 'refreq': lambda: MeshReFreq(-4., 4., n_r), 'retime': lambda: MeshReTime(-2., 2., n_r), 'legendre': lambda: MeshLegendre(beta, stat, 7),
           'brzone': lambda: lat.m if lat.kind == 'brzone' else meshes_mod.make_adjoint_mesh(lat.m), 'cyclat': lambda: lat.m if lat.kind == 'cyclat' else meshes_mod.make_adjoint_mesh(lat.m),
           'dlr': lambda: MeshDLR(beta, stat, 2., 1e-8), 'dlr_imtime': lambda: MeshDLRImTime(beta, stat, 2., 1e-8), 'dlr_imfreq': lambda: MeshDLRImFreq(beta, stat, 2., 1e-8)}

    def values(kind, sh):
        m = mk_[kind]()
        if kind in ('imfreq', 'dlr_imfreq', 'imtime', 'dlr_imtime'):
            e, R = poles(c, sh, beta, stat, 1.5)
            x = np.array([complex(p.value) for p in m])
            return m, G_iw(x, e, R) if 'freq' in kind else G_tau(x.real, e, R, beta, stat)
        return m, c.array(len(m), *sh, cplx=True)
    tol, mom, kin = 1e-9, None, None
    PAIR = {'imfreq': 'imtime', 'imtime': 'imfreq', 'refreq': 'retime', 'retime': 'refreq', 'brzone': 'cyclat', 'cyclat': 'brzone'}
    if op in ('fourier', 'set', 'fourier_n', 'fourier_m', 'set_m'):
        kin = c.pick(sorted(PAIR) if op in ('fourier', 'set') else ['imfreq', 'imtime', 'refreq', 'retime'])
        real = kin in ('imtime', 'retime') and op != 'set_m' and c.chance(.4)
        if op in ('fourier_m', 'set_m'):
            k = c.i(1, 4) if kin in ('imfreq', 'imtime') else c.i(2, 4)
            mom = lambda: np.concatenate([np.zeros((1,) + shape), c.array(k, *shape, cplx=True)]).astype(complex)
        tol = 1e-7 if kin == 'imfreq' else 1e-9
    elif op == 'legendre':
        kin = c.pick(['legendre', 'legendre', 'imfreq', 'imtime'])
    elif op in ('dlr', 'dlr_prod'):
        kin = c.pick(['dlr', 'dlr', 'dlr_imtime', 'dlr_imfreq', 'imtime'])
    elif op == 'pade':
        kin = 'imfreq'
    else:
        kin = c.pick(['imfreq', 'imtime']) if op == 'hermitian' else 'imfreq' if op == 'real_in_tau' else 'imtime'
    first = False                                             # (see DROP again)
    if op == 'dlr_prod' and kin == 'imtime' and lat.kind == 'brzone':
        kin = 'dlr'
    if op == 'hermitian' and cont == 'block2':
        kin = 'imfreq'
    datas, moms = [], []
    for _ in range(nb):
        m, d = values(kin, shape)
        if op == 'dlr_prod':
            d = np.multiply.outer(c.array(len(lat.m), cplx=True), d)          # lattice first
            d = d if not first else np.ascontiguousarray(np.moveaxis(d, 0, 1))
        datas.append(np.ascontiguousarray(d.real) if real else d)
        moms.append(mom() if mom else None)
    mesh = m if op != 'dlr_prod' else MeshProduct(m, lat.m) if first else MeshProduct(lat.m, m)
    target = {'fourier': lambda k: mk_[PAIR[k]](), 'legendre': lambda k: mk_[c.pick(['imfreq', 'imtime'])]() if k == 'legendre' else mk_['legendre'](), 'pade': lambda k: mk_['refreq']()}
    tgt = meshes_mod.make_adjoint_mesh(m) if kin in ('refreq', 'retime') and op in ('set', 'fourier_m', 'set_m') else target.get(op if op in target else 'fourier', lambda k: None)(kin) if op in ('set', 'fourier_m', 'set_m', 'legendre', 'pade') else None
    arg = c.i(62, 80) if op == 'fourier_n' and kin == 'imfreq' else c.i(5, 30) if kin in ('imfreq', 'imtime') else c.chance(.5)
    if op == 'fourier_n' and kin == 'imtime':
        arg = c.i(2, n_tau // 6)
    how = c.i(0, 2)
    npade = c.i(4, 8)
    if op == 'dlr_prod' and kin == 'dlr':
        arg = 1 if lat.kind == 'cyclat' else 2

    def f(B, mm, sh, cp, k):
        """the transformation of a container, given the moments"""
        out = lambda: nest(k, [Gf(mesh=tgt, target_shape=sh) for _ in flat(B)]) if k != 'block2' else block2_of([Gf(mesh=tgt, target_shape=sh) for _ in flat(B)], 2)
        if op == 'fourier':
            return gf_factories.make_gf_from_fourier(B)
        if op == 'fourier_n':
            return gf_factories.make_gf_from_fourier(B, arg)
        if op == 'fourier_m':
            return gf_factories.make_gf_from_fourier(B, tgt, mm[0] if k == 'gf' else mm if k == 'block' else [mm[j:j + 2] for j in range(0, len(mm), 2)])
        if op == 'rebin':
            return gf_fnt.rebinning_tau(B, arg)
        if op == 'hermitian':
            return gf_factories.make_hermitian(B)
        if op == 'real_in_tau':
            return gf_factories.make_real_in_tau(B)
        if op in ('dlr', 'dlr_prod'):
            F_ = gf_factories
            if kin == 'dlr':
                return [lambda: F_.make_gf_dlr_imtime(B), lambda: F_.make_gf_dlr_imfreq(B), lambda: F_.make_gf_imtime(B, 9) if arg % 2 else F_.make_gf_imfreq(B, 6)][how]()
            return F_.fit_gf_dlr(B, 2., 1e-6) if kin == 'imtime' else F_.make_gf_dlr(B)
        o = out()
        if op == 'set':
            gf_fnt.set_from_fourier(o, B)
        elif op == 'set_m':
            gf_fnt.set_from_fourier(o, B, mm[0])
        elif op == 'pade':
            gf_fnt.set_from_pade(o, B, npade, .2)
        elif kin == 'legendre':
            gf_fnt.set_from_legendre(o, B)
        else:
            (gf_fnt.set_from_imfreq if kin == 'imfreq' else gf_fnt.set_from_imtime)(o, B)
        return o
    B = nest(cont, [Gf(mesh=mesh, data=strided(c, d)) for d in datas])
    c.trace('%s %s %s of %s, target %s, %s, real %s, %s', op, cont, kin, nb, shape, arg, real, lat.kind)
    got = f(B, moms, shape, cont, cont)
    same_structure(c, got, B)
    pre = 2 if op == 'dlr_prod' else 1
    for b, (g, d, mo) in enumerate(zip(flat(got), datas, moms)):
        c.check(g.target_shape == shape, 'target shape %s', g.target_shape)
        if op in ('dlr_prod', 'rebin'):
            sel = [()] if op == 'dlr_prod' and not shape else [tuple(slice(c.i(0, n - 1), None) for n in shape)]
        elif op == 'hermitian':
            sel = [()]
        else:
            sel = list(np.ndindex(*shape))
        full = (slice(None),) * pre
        for s in sel:
            sub = np.ascontiguousarray(d[full + s]).astype(complex)
            if op == 'rebin' or op == 'dlr_prod' or op == 'hermitian':
                if op == 'dlr_prod':                          # the other axis one by one
                    j = c.i(0, len(lat.m) - 1)
                    one = Gf(mesh=m, data=np.ascontiguousarray(sub[:, j] if first else sub[j]))
                    ref = f(one, None, one.target_shape, 0, 'gf').data
                    have = g.data[full + s]
                    have = have[:, j] if first else have[j]
                elif op == 'hermitian':
                    w = sub[::-1] if kin == 'imfreq' else sub
                    ref = .5 * (sub + np.conj(w if rank == 0 else w.swapaxes(1, 2) if rank == 2 else w.transpose(0, 3, 4, 1, 2)))
                    have = g.data
                else:
                    x = Gf(mesh=mesh, data=sub)
                    ref, have = f(x, None, x.target_shape, 0, 'gf').data, g.data[full + s]
            else:
                one = Gf(mesh=mesh, data=sub)
                ref = f(one, [np.ascontiguousarray(mo[(slice(None),) + s])] if mo is not None else None, (), 0, 'gf').data
                have = g.data[full + s]
            c.close(have, ref, tol * (1 + abs(ref).max()), 'block %s, component %s', b, s)
        c.check(np.array_equal(flat(B)[b].data, d), 'the argument changed')
    c.nontrivial('lift %s %s %s %s %s %s' % (op, cont, kin, shape, real, how))


# ------------------------------------------------------------------ operators
FL = [('up', 0), ('dn', 'a'), (0, 1), ('x',)]
DIM = 1 << len(FL)


def jw(k):
    a = np.array([[0, 1], [0, 0]], complex)
    z = np.diag([1., -1])
    r = np.eye(1)
    for j in range(len(FL)):
        r = np.kron(r, z if j < k else a if j == k else np.eye(2))
    return r


A = [jw(k) for k in range(len(FL))]


def mat(op):
    """the matrix of an operator from its terms as seen by Python"""
    r = np.zeros((DIM, DIM), complex)
    for mon, co in op:
        m = np.eye(DIM)
        for dag, ind in mon:
            a = A[[list(f) for f in FL].index(list(ind))]
            m = m @ (a.T if dag else a)
        r += complex(co) * m
    return r


def leaf(c):
    k = c.i(0, len(FL) - 1)
    w = c.i(0, 2)
    a = A[k]
    return [(C, a), (CD, a.T), (N, a.T @ a)][w][0](*FL[k]), [(C, a), (CD, a.T), (N, a.T @ a)][w][1]


def scal(c):
    return c.pick([2, -1, .5, 1.25, 1j, 2 - 1j, 0.25 + 0j, np.float64(.75), np.complex128(1 + 1j), True, 1 / 3, 1e-9])


def tree(c, d):
    if d == 0:
        return leaf(c)
    w = c.i(0, 9)
    x, X = tree(c, d - 1)
    if w < 3:
        y, Y = tree(c, d - 1)
        return (x + y, X + Y) if w == 0 else (x - y, X - Y) if w == 1 else (x * y, X @ Y)
    s = scal(c)
    e = np.eye(DIM)
    return [(x + s, X + s * e), (s - x, s * e - X), (x * s, X * s), (s * x, X * s), (x / s, X / s), (-x, -X), (dagger(x), X.conj().T)][w - 3]


def real_tree(c):
    """an operator with real coefficients"""
    x, X = leaf(c)
    for k in range(c.i(1, 3)):
        y, Y = leaf(c)
        z, Z = leaf(c)
        s = c.pick([1., -.5, 2])
        x, X = x + s * y * z, X + s * Y @ Z
    return x, X


def t_operators(c):
    x, X = tree(c, c.i(1, 4))
    M_ = mat(x)
    scale = 1 + abs(X).max()
    c.trace('%s', x)
    c.close(M_, X, 1e-10 * scale, 'matrix of %s', x)
    for mon, co in x:
        c.check(isinstance(mon, list) and type(co) in (float, complex), 'types of the terms')
        cr = [FL.index(tuple(i)) for d, i in mon if d]
        an = [FL.index(tuple(i)) for d, i in mon if not d]
        c.check([d for d, i in mon] == [True] * len(cr) + [False] * len(an) and len(set(cr)) == len(cr) and len(set(an)) == len(an), 'normal order')
    c.close(mat(x.real), sum((complex(co).real * mat_of(mon) for mon, co in x), np.zeros((DIM, DIM))), 1e-10 * scale, 'real')
    c.close(mat(x.imag), sum((complex(co).imag * mat_of(mon) for mon, co in x), np.zeros((DIM, DIM))), 1e-10 * scale, 'imag')
    c.close(mat(dagger(x)), X.conj().T, 1e-10 * scale, 'dagger')
    h = x + dagger(x)
    c.eq(is_op_hermitian(h, tolerance=1e-10), True, 'hermitian')
    if abs(X - X.conj().T).max() > 1e-6:
        c.eq(is_op_hermitian(x, 1e-10), False, 'not hermitian')
    c.eq(x.is_zero(), len(list(x)) == 0, 'is_zero')
    c.check((x - x).is_zero() and x == x and x == x + 0 and not (x == x + 1) and not x == 3, 'equality')
    y, Y = leaf(c)
    keep = mat(x)
    for k in range(c.i(0, 3)):
        z = x
        w = c.i(0, 3)
        s = scal(c)
        if w == 0:
            x += y
            X = X + Y
        elif w == 1:
            x -= s
            X = X - s * np.eye(DIM)
        elif w == 2:
            x *= s
            X = X * s
        else:
            x /= s
            X = X / s
        c.check(z is not x and np.array_equal(mat(z), keep), 'an operation changed another object')
        keep = mat(x)
    c.close(mat(x), X, 1e-9 * (1 + abs(X).max()), 'in-place operations')
    if any(len(mon) for mon, co in x):                 # see the group 'pickle'
        p = pickle.loads(pickle.dumps(x))
        c.check(type(p) is Operator, 'pickle')
        c.close(mat(p), mat(x), 1e-5 * (1 + abs(X).max()), 'pickle of %s', x)
        z = sum((c.i(-9, 9) / 8 * N(*f) + (c.i(1, 9) + 1j * c.i(-9, 9)) * CD(*f) for f in FL[:c.i(1, 3)]), Operator())
        c.check(pickle.loads(pickle.dumps(z)) == z, 'pickle of %s', z)
    c.check((Operator()).is_zero() and abs(mat(Operator(2.5)) - 2.5 * np.eye(DIM)).max() < 1e-12 and Operator(2) == Operator(2.), 'constants')
    k = c.i(0, 7)
    bad = [lambda: x + 'a', lambda: x * None, lambda: x / x, lambda: 1 / x, lambda: Operator('x'), lambda: C([1]), lambda: C(1, 2, 3), lambda: C(1.5, 2)][k]
    c.throws(bad, 'wrong types', of=TypeError)
    c.check(np.array_equal(mat(x), keep), 'unchanged')
    c.nontrivial('op %s' % x)


def t_pickle(c):
    """the two cases in which the printed form is not enough"""
    if c.index == 0:
        p = pickle.loads(pickle.dumps(Operator(2.5)))
        c.check(type(p) is Operator and p == Operator(2.5), 'the pickle of a constant operator gives a %s', type(p).__name__)
    else:
        x = 1 / 3 * N('up', 0)
        c.check(pickle.loads(pickle.dumps(x)) == x, 'the pickle of an operator keeps six digits')
    c.nontrivial('pickle %s' % c.index)


def mat_of(mon):
    m = np.eye(DIM)
    for dag, ind in mon:
        a = A[FL.index(tuple(ind))]
        m = m @ (a.T if dag else a)
    return m


def t_extract(c):
    """dictionaries of coefficients and back"""
    nf = c.i(1, 3)
    F = [('up', 0), ('up', 1), ('dn', 0)][:nf]
    cp = c.chance(.5)
    co = (lambda: complex(c.r(-1, 1), c.r(-1, 1))) if cp else (lambda: c.r(-1, 1))
    h = {}
    for a in F:
        for b in F:
            if c.chance(.6):
                h[(a, b)] = co()
    H = sum((v * CD(*a) * C(*b) for (a, b), v in h.items()), Operator())
    d = ex.extract_h_dict(H)
    c.trace('%s', h)
    c.check(set(d) == set(h) and all(abs(d[k] - h[k]) < 1e-12 for k in d), 'quadratic terms %s', d)
    c.check(all(isinstance(k, tuple) and isinstance(k[0], tuple) for k in d), 'keys')
    st = [('up', min(2, nf))] + ([('dn', 1)] if nf == 3 else [])
    m = ex.dict_to_matrix(d, gf_struct=st)
    off = {'up': 0, 'dn': min(2, nf)}
    ref = np.zeros((nf, nf), complex)
    for (a, b), v in h.items():
        ref[off[a[0]] + a[1], off[b[0]] + b[1]] = v
    c.close(m, ref, 1e-12, 'matrix')
    c.check(np.iscomplexobj(m) == (any(isinstance(v, complex) for v in d.values())), 'type of the matrix')
    U = {}
    for i, a in enumerate(F):
        for b in F[i + 1:]:
            U[(a, b)] = c.r(-1, 1)
    H2 = sum((v * N(*a) * N(*b) for (a, b), v in U.items()), Operator())
    d2 = ex.extract_U_dict2(H2)
    c.check(all(abs(d2.get((a, b), 0) - v) < 1e-12 and abs(d2.get((b, a), 0) - v) < 1e-12 for (a, b), v in U.items()) and len(d2) == 2 * len(U), 'density-density %s', d2)
    d4 = ex.extract_U_dict4(H2)
    R = sum((.5 * v * CD(*i) * CD(*j) * C(*l) * C(*k) for (i, j, k, l), v in d4.items()), Operator())
    c.check(all(abs(x) < 1e-12 for _, x in R - H2), 'quartic terms')
    if len(U) and len(h):
        c.throws(lambda: ex.extract_h_dict(H + H2), 'other terms', of=RuntimeError)
        c.check(ex.extract_h_dict(H + H2, True) == d and ex.extract_h_dict(H + H2, ignore_irrelevant=True) == d, 'other terms ignored')
        c.check(all(abs(x) < 1e-12 for _, x in ex.quadratic_terms(H + H2) - H) and all(abs(x) < 1e-12 for _, x in ex.quartic_terms(H + H2) - H2), 'split')
    Hb = sum((v * CD(*a) * C(*b) for (a, b), v in h.items() if a[0] == b[0]), Operator())
    bm = ex.block_matrix_from_op(Hb, st)
    c.check(len(bm) == len(st), 'blocks')
    for (bl, n), x in zip(st, bm):
        c.close(np.array(x, complex), ref[off[bl]:off[bl] + n, off[bl]:off[bl] + n], 1e-12, 'block %s', bl)
    back = ex.op_from_block_matrix(bm, st)
    c.check(all(abs(x) < 1e-12 for _, x in back - Hb), 'there and back')
    c.nontrivial('ex %s' % sorted(h.items(), key=str))


def t_atom_diag(c):
    cp = c.chance(.4)
    fops = [list(f) for f in (('up', 0), ('dn', 'a'), (0, 1))[:c.i(1, 3)]]
    idx = [FL.index(tuple(f)) for f in fops]
    n = len(fops)
    order = list(range(n))
    c.shuffle(order)
    fops = [fops[k] for k in order]
    H = Operator()
    for a in fops:
        H = H + c.r(-1, 1) * N(*a)
        for b in fops:
            t = complex(c.r(-.5, .5), c.r(-.5, .5)) if cp else c.r(-.5, .5)
            if c.chance(.4):
                x = t * CD(*a) * C(*b)
                H = H + x + dagger(x)
            if a != b:
                H = H + c.r(-.5, .5) * N(*a) * N(*b)
    if H.is_zero():
        H = N(*fops[0])
    c.trace('%s fops=%s', H, fops)
    a = ad.AtomDiag(H, fops)
    isc = any(type(co) is complex and abs(co.imag) > 0 for _, co in H)
    c.check(type(a).__name__ == ('AtomDiagComplex' if isc else 'AtomDiagReal'), 'type')
    keep = [FL.index(tuple(f)) for f in fops]
    # matrix in the Fock space of these modes
    Z = [np.kron(np.kron(np.eye(2**k), np.array([[0, 1], [0, 0]])), np.eye(2**(n - 1 - k))) for k in range(n)]
    S = [np.kron(np.kron(np.eye(2**k), np.diag([1., -1])), np.eye(2**(n - 1 - k))) for k in range(n)]
    ops = []
    for k in range(n):
        m = Z[k]
        for j in range(k):
            m = S[j] @ m
        ops.append(m)

    def mm(op):
        r = np.zeros((2**n,) * 2, complex)
        for mon, co in op:
            x = np.eye(2**n)
            for d, i in mon:
                y = ops[fops.index(list(i))]
                x = x @ (y.T if d else y)
            r += complex(co) * x
        return r
    E = np.linalg.eigvalsh(mm(H))
    got = np.sort(np.concatenate([np.asarray(x) for x in a.energies])) + a.gs_energy
    c.close(got, E, 1e-8, 'energies')
    c.eq((a.full_hilbert_space_dim, sum(a.get_subspace_dims()), a.n_subspaces), (2**n, 2**n, len(a.energies)), 'dimensions')
    c.check([list(x) for x in a.fops] == fops, 'fops %s', a.fops)
    c.check(all(abs(x) < 1e-12 for _, x in a.h_atomic - H), 'h_atomic')
    beta = c.r(.5, 5)
    Zp = np.exp(-beta * (E - E[0])).sum()
    c.close(ad.partition_function(a, beta), Zp, 1e-8 * Zp, 'partition function')
    rho = ad.atomic_density_matrix(a, beta)
    c.eq([np.shape(x) for x in rho], [(d, d) for d in a.get_subspace_dims()], 'shapes')
    w, V = np.linalg.eigh(mm(H))
    ref = (V * np.exp(-beta * (w - w[0]))) @ V.conj().T / Zp
    o, O = (N(*fops[0]), mm(N(*fops[0]))) if c.chance(.5) else (CD(*fops[0]) * C(*fops[-1]), mm(CD(*fops[0]) * C(*fops[-1])))
    c.close(ad.trace_rho_op(rho, o, a), np.trace(ref @ O), 1e-8, 'expectation value')
    c.throws(lambda: ad.AtomDiag(H, 'x'), 'fops', of=TypeError)
    c.throws(lambda: ad.AtomDiag(H, [[1.5]]), 'fops', of=TypeError)
    g = ad.atomic_g_tau(a, beta, [('up', 1)], 11) if fops == [['up', 0]] else None
    if g is not None:
        c.check(list(g.indices) == ['up'] and g['up'].mesh == MeshImTime(beta, 'Fermion', 11), 'g_tau')
        e = float(np.real(mm(H)[1, 1]))
        c.close(g['up'].data[:, 0, 0], G_tau(np.linspace(0, beta, 11), np.array([e]), np.array([1.]), beta, 'Fermion'), 1e-8, 'g_tau')
    c.nontrivial('ad %s' % H)


def t_atom_diag_basis(c):
    """every constructor and every view of the eigenbasis, against matrices in the Fock space"""
    st = c.pick([[('up', 1)], [('up', 2)], [('up', 1), ('dn', 1)], [('up', 2), ('dn', 1)], [('dn', 2), ('up', 2)]])
    F = [[b, k] for b, d in st for k in range(d)]
    n, D = len(F), 2**len(F)
    c.shuffle(F)
    s = np.arange(D)
    a_ = []
    for k in range(n):
        m = np.zeros((D, D))
        for x in s:
            if x >> k & 1:
                m[x ^ 1 << k, x] = (-1)**bin(x & (1 << k) - 1).count('1')
        a_.append(m)
    at = {tuple(f): a_[k] for k, f in enumerate(F)}

    def mm(op):
        r = np.zeros((D, D), complex)
        for mon, co in op:
            x = np.eye(D)
            for d, i in mon:
                x = x @ (at[tuple(i)].T if d else at[tuple(i)])
            r += complex(co) * x
        return r
    cx = c.chance(.4)
    H = Operator()
    for f in F:
        H = H + c.r(-1, 1) * N(*f)
        for g in F:
            if f != g and c.chance(.5):
                H = H + c.r(-.5, 1) * N(*f) * N(*g)
            if f < g and f[0] == g[0] and c.chance(.7):
                x = (complex(c.r(-.5, .5), c.r(.1, .5)) if cx else c.r(-.5, .5)) * CD(*f) * C(*g)
                H = H + x + dagger(x)
    how = c.pick(['auto', 'auto', 'qn', 'range', 'hyb'])
    Nt = sum((N(*f) for f in F), Operator())
    qn = [sum((N(*f) for f in F if f[0] == b), Operator()) for b, d in st]
    lo, hi = 0, n
    if how == 'auto':
        a = ad.AtomDiag(H, F) if c.chance(.5) else ad.AtomDiag(h=H, fops=[tuple(f) for f in F])
    elif how == 'qn':
        a = ad.AtomDiag(H, F, qn) if c.chance(.5) else ad.AtomDiag(H, fops=F, qn_vector=qn)
    elif how == 'range':
        lo = c.i(0, n)
        hi = c.i(lo, n)
        a = ad.AtomDiag(H, F, lo, hi) if c.chance(.5) else ad.AtomDiag(H, F, n_min=lo, n_max=hi)
    else:
        f, g = F[0], F[-1]
        hy = CD(*f) * C(*g) + CD(*g) * C(*f) if f != g else N(*f)
        a = ad.AtomDiag(H, hy, F) if c.chance(.5) else ad.AtomDiag(h=H, hyb=hy, fops=F)
    isc = any(type(co) is complex and abs(co.imag) > 0 for _, co in H)
    c.check(type(a).__name__ == ('AtomDiagComplex' if isc else 'AtomDiagReal'), 'type')
    c.trace('%s %s fops=%s %s..%s', how, H, F, lo, hi)
    if c.chance(.2):
        del H
        H = a.h_atomic
    dims, fs, U, E = a.get_subspace_dims(), a.fock_states, a.unitary_matrices, a.energies
    ns = a.n_subspaces
    inside = [x for x in s if lo <= bin(x).count('1') <= hi]
    c.eq(sorted(int(x) for f in fs for x in f), inside, 'Fock states')
    c.eq((len(fs), len(U), len(E), len(dims), [len(f) for f in fs], [np.shape(u) for u in U], [len(e) for e in E], [a.get_subspace_dim(k) for k in range(ns)]), (ns, ns, ns, ns, list(dims), [(d, d) for d in dims], list(dims), list(dims)), 'sizes')
    off = np.concatenate([[0], np.cumsum(dims)])
    c.eq([[a.flatten_subspace_index(k, i) for i in range(dims[k])] for k in range(ns)], [list(range(off[k], off[k + 1])) for k in range(ns)], 'flat indices')
    c.eq([[a.get_eigenvalue(k, i) for i in range(dims[k])] for k in range(ns)], [list(e) for e in E], 'eigenvalues')
    V = np.zeros((D, len(inside)), complex)      # the eigenvectors as columns, in the order of the flat index
    for k in range(ns):
        for j, x in enumerate(fs[k]):
            V[int(x), off[k]:off[k + 1]] = U[k][j]
    Hm, flat_e = mm(H), np.concatenate([np.asarray(e) for e in E])
    c.close(V.conj().T @ V, np.eye(len(inside)), 1e-9, 'orthonormal states')
    c.close(Hm @ V, V * (flat_e + a.gs_energy), 1e-8, 'eigenstates')
    c.close(flat_e.min(), 0, 1e-12, 'the lowest energy')
    for k, f in enumerate(F):
        for dag, con, mat_ in ((0, a.c_connection, a.c_matrix), (1, a.cdag_connection, a.cdag_matrix)):
            full = V.conj().T @ (a_[k].T if dag else a_[k]) @ V
            for sp in range(ns):
                to = con(k, sp)
                col = full[:, off[sp]:off[sp + 1]].copy()
                if to >= 0:
                    c.close(mat_(k, sp), col[off[to]:off[to + 1]], 1e-9, 'matrix of %s%s on subspace %s', 'c_dag' if dag else 'c', f, sp)
                    col[off[to]:off[to + 1]] = 0
                c.close(abs(col).max(initial=0), 0, 1e-9, 'connection of %s%s on subspace %s', 'c_dag' if dag else 'c', f, sp)
    v0 = np.zeros(D)
    v0[0] = 1
    v1 = np.zeros(a.full_hilbert_space_dim, complex)     # the dimension of the space before truncation
    v1[:len(inside)] = V.conj().T @ v0
    c.close(a.vacuum_state, v1, 1e-9, 'vacuum')
    sp = [k for k in range(ns) if 0 in [int(x) for x in fs[k]]]
    c.eq(a.vacuum_subspace_index, sp[0] if sp else -1, 'subspace of the vacuum')
    if how == 'qn':
        for k in range(ns):
            c.close(a.quantum_numbers[k], [sum(int(fs[k][0]) >> F.index(f) & 1 for f in F if f[0] == b) for b, d in st], 1e-9, 'quantum numbers')
        c.check(len(set(tuple(np.round(q, 6)) for q in a.quantum_numbers)) == ns, 'one subspace for each set of quantum numbers')
    cnt = np.array([bin(x).count('1') for x in s])
    nv = [(abs(V[:, off[k]:off[k + 1]])**2 * cnt[:, None]).sum(0) for k in range(ns)]
    q1, q2 = ad.quantum_number_eigenvalues(Nt, a), ad.quantum_number_eigenvalues_checked(Nt, a)
    for k in range(ns):
        if abs(nv[k] - nv[k].round()).max() < 1e-9:
            c.close(q1[k], nv[k], 1e-9, 'particle numbers')
            c.close(q2[k], nv[k], 1e-9, 'particle numbers')
    if how != 'range':
        o = c.pick([C(*F[0]), CD(*F[-1]), N(*F[0]), c.r(-1, 1) * CD(*F[0])])
        x = V.conj().T @ c.array(D, cplx=isc)
        keep = x.copy()
        c.close(ad.act(o, x if isc else np.ascontiguousarray(x.real), a), V.conj().T @ mm(o) @ V @ (x if isc else x.real), 1e-8, 'action of %s', o)
        c.check(np.array_equal(x, keep), 'the state acted on changed')
        beta = c.r(.5, 5)
        w = np.exp(-beta * flat_e)
        Z = w.sum()
        rho = ad.atomic_density_matrix(a, beta)
        for k in range(ns):
            c.close(rho[k], np.diag(np.exp(-beta * np.asarray(E[k])) / Z), 1e-9, 'density matrix')
        exl = [(k, i) for k in range(ns) for i in range(dims[k]) if c.chance(.15)] if c.chance(.3) else []
        live = np.ones(D, bool)
        for k, i in exl:
            live[off[k] + i] = False
        P = {f: (V.conj().T @ at[f] @ V) * np.outer(live, live) for f in at}
        kw = [exl] if exl else []
        if len(st) == 1 or c.chance(.7):
            st2 = st
        else:
            st2 = st[1:]
        terms = {}
        for b, d in st2:
            terms[b] = [[[(flat_e[j] - flat_e[i], (w[i] + w[j]) / Z * P[b, k][i, j] * P[b, l][i, j].conj()) for i in range(D) for j in range(D) if abs(P[b, k][i, j] * P[b, l][i, j]) > 1e-14] for l in range(d)] for k in range(d)]

        def ref(fn, np_):
            return {b: np.array([[sum((r * fn(e) for e, r in t), np.zeros(np_)) for t in row] for row in T]).transpose(2, 0, 1) for b, T in terms.items()}
        kind = c.pick(['tau', 'iw', 'l', 'w'])
        m_ = c.i(2, 9)
        if kind == 'tau':
            g = ad.atomic_g_tau(a, beta, st2, m_, *kw)
            mesh, R = MeshImTime(beta, 'Fermion', m_), ref(lambda e: G_tau(np.linspace(0, beta, m_), np.array([e]), np.array([1.]), beta, 'Fermion'), m_)
        elif kind == 'iw':
            g = ad.atomic_g_iw(a, beta, st2, m_, *kw)
            mesh, z = MeshImFreq(beta, 'Fermion', m_), 1j * np.pi / beta * (2 * np.arange(-m_, m_) + 1)
            R = ref(lambda e: 1 / (z - e), 2 * m_)
        elif kind == 'w':
            eta = c.r(.05, .5)
            g = ad.atomic_g_w(a, beta, st2, (-3., 2.5), m_, eta, *kw) if c.chance(.5) else ad.atomic_g_w(a, beta, gf_struct=st2, energy_window=(-3., 2.5), n_w=m_, broadening=eta, excluded_states=exl)
            mesh, z = MeshReFreq(-3., 2.5, m_), np.linspace(-3, 2.5, m_) + 1j * eta
            R = ref(lambda e: 1 / (z - e), m_)
        else:
            g = ad.atomic_g_l(a, beta, st2, m_, *kw)
            mesh = MeshLegendre(beta, 'Fermion', m_)
            xs, ws = np.polynomial.legendre.leggauss(120)
            lp = np.array([math.sqrt(2 * l + 1) * beta / 2 * ws * np.polynomial.legendre.Legendre.basis(l)(xs) for l in range(m_)])
            R = ref(lambda e: lp @ G_tau(beta / 2 * (1 + xs), np.array([e]), np.array([1.]), beta, 'Fermion'), m_)
        c.check(list(g.indices) == [b for b, d in st2] and all(x.mesh == mesh and x.target_shape == (d, d) for (b, d), (_, x) in zip(st2, g)), 'structure of G')
        for b, x in g:
            c.close(x.data, R[b], 1e-7, 'G of kind %s, block %s, excluded %s', kind, b, exl)
    p = pickle.loads(pickle.dumps(a)) if hasattr(a, '__reduce_to_dict__') else None
    if p is not None:
        c.check(p.energies == a.energies and [list(f) for f in p.fock_states] == [list(f) for f in fs], 'pickle')
    c.nontrivial('adb %s %s' % (how, H))


# ------------------------------------------------------------------ others
def t_histogram(c):
    integer = c.chance(.4)
    if integer:
        a, b = c.i(-5, 3), 0
        b = a + c.i(1, 8)
        h, nb = Histogram(a, b), b - a + 1
    else:
        a = c.r(-3, 2)
        b, nb = a + c.r(.5, 4), c.i(2, 12)
        h = Histogram(a, b, nb) if c.chance(.5) else Histogram(a=a, b=b, n_bins=nb)
    c.trace('%s %s %s', a, b, nb)
    c.check(len(h) == nb and h.limits == (a, b), 'limits')
    step = (b - a) / (nb - 1)
    ref, lost, tot = np.zeros(nb), 0, 0
    for k in range(c.i(0, 60)):
        x = a + (b - a) * c.r(-.2, 1.2)
        t = (x - a) / step + .5
        if abs(t - round(t)) < 1e-9:
            continue
        g = h
        h <<= x
        if k % 2:
            h << x
            ref_n = 2
        else:
            ref_n = 1
        c.check(g is h, 'the object was replaced')
        if a <= x <= b:
            ref[int(t)] += ref_n
            tot += ref_n
        else:
            lost += ref_n
    c.check(np.array_equal(h.data, ref) and (h.n_data_pts, h.n_lost_pts) == (tot, lost), 'counts: %s, expected %s', h.data, ref)
    c.close([h.mesh_point(k) for k in range(nb)], [a + k * step for k in range(nb)], 1e-12, 'mesh points')
    d = h.data
    d[...] = 77
    c.check(np.array_equal(h.data, ref), 'the data are read only')
    s = h + h
    c.check(np.array_equal(s.data, 2 * ref) and s.n_data_pts == 2 * tot and np.array_equal(h.data, ref), 'sum')
    p = pickle.loads(pickle.dumps(h))
    c.check(p == h and np.array_equal(p.data, ref) and p.limits == h.limits and (p.n_data_pts, p.n_lost_pts) == (tot, lost), 'pickle')
    if tot:
        c.close(pdf(h).data, ref / tot, 1e-12, 'pdf')
        c.close(cdf(h).data, np.cumsum(ref) / tot, 1e-12, 'cdf')
        c.check(not (h == s), 'different histograms')
    c.check(np.array_equal(h.data, ref), 'unchanged')
    h.clear()
    c.check(not h.data.any() and h.n_data_pts == 0 and h.n_lost_pts == 0, 'clear')
    c.throws(lambda: Histogram('a', 1, 2), 'wrong arguments', of=TypeError)
    c.throws(lambda: h << 'x', 'a string', of=TypeError)
    c.nontrivial('hist %s %s %s' % (a, b, tot))


def t_random(c):
    names = random_generator_names_list()
    c.check('mt19937' in names and '' not in names and len(names) == len(set(names)), 'names %s', names)
    n = c.pick(names + [''])
    s = c.i(1, 2**31 - 1)
    r, q = RandomGenerator(n, s), RandomGenerator(name=n, seed=s)
    c.trace('%s %s', n, s)
    seq = []
    for k in range(60):
        if c.chance(.5):
            m = c.pick([1, 2, 3, 10, 2**20])
            x, y = r(m), q(N=m)
            c.check(isinstance(x, int) and 0 <= x < m, 'integer %s below %s', x, m)
        else:
            x, y = r(), q()
            c.check(isinstance(x, float) and 0 <= x < 1, 'number %s', x)
        seq.append(x)
        c.eq(x, y, 'the same seed gives the same numbers')
    o = RandomGenerator(n, s + 1 if s < 2**31 - 1 else 1)
    c.check([o() for k in range(5)] != [RandomGenerator(n, s)() for k in range(5)], 'another seed')
    if n == 'mt19937':
        g = np.random.MT19937()
        g._legacy_seeding(s & 0xffffffff)
    c.throws(lambda: RandomGenerator('nonsense', 1), 'unknown name', of=RuntimeError)
    c.throws(lambda: RandomGenerator(1, 'x'), 'wrong arguments', of=TypeError)
    c.nontrivial('rng %s %s' % (n, s))


def t_lattice(c):
    d = c.i(1, 3)
    u = np.eye(d) + .3 * c.array(d, d)
    no = c.i(1, 3)
    pos = [c.array(3) for k in range(no)]
    names = ['o%d' % k for k in range(no)]
    bl = BravaisLattice(u, pos, names) if c.chance(.5) else BravaisLattice(units=u, orbital_positions=pos, atom_orb_name=names)
    ref = np.array(bl.units)
    c.trace('%s %s', u.tolist(), no)
    c.close(ref[:d, :d], u, 1e-14, 'units')
    c.check(not ref[:d, d:].any() and abs(np.linalg.det(ref)) > .01 and np.allclose(ref[d:] @ ref[:d].T, 0), 'the remaining units')
    c.close(ref[d:] @ ref[d:].T, np.eye(3 - d), 1e-12, 'the remaining units')
    c.check(bl.ndim == d and bl.n_orbitals == no and list(bl.orbital_names) == names and np.allclose(bl.orbital_positions, pos), 'lattice')
    x = c.array(3)
    x[d:] = 0
    c.close(bl.lattice_to_real_coordinates(x), x @ ref, 1e-12, 'coordinates')
    with_p = pickle.loads(pickle.dumps(bl))
    c.check(with_p == bl and np.array_equal(with_p.units, bl.units) and not (with_p != bl), 'pickle')
    c.check(BravaisLattice(2 * u, pos, names) != bl and BravaisLattice(u, pos + [pos[0]], names + ['x']) != bl, 'different lattices')
    bz = BrillouinZone(bl)
    c.close(np.asarray(bz.units) @ ref.T, 2 * np.pi * np.eye(3), 1e-10, 'reciprocal vectors')
    c.check(bz.lattice == bl and bz.ndim == d and pickle.loads(pickle.dumps(bz)) == bz and BrillouinZone(bl_=bl) == bz, 'zone')
    uv = bz.units
    try:
        uv[...] = 0
    except ValueError:
        pass
    c.check(BrillouinZone(bl) == bz, 'the zone changed')
    hop = {}
    for k in range(c.i(1, 3)):
        x = tuple(c.i(-2, 2) for _ in range(d))
        y = tuple(-i for i in x)
        t = c.array(no, no, cplx=True)
        hop[x], hop[y] = (t, t.conj().T) if x != y else (t + t.conj().T,) * 2
    tb = TightBinding(bl, hop) if c.chance(.5) else TightBinding(bl, [np.array(r) for r in hop], list(hop.values()))
    c.check(tb.lattice == bl and [tuple(v) for v in tb.displ_vec] == list(hop) and all(np.array_equal(a, b) for a, b in zip(tb.overlap_mat_vec, hop.values())), 'hoppings')
    K = c.array(c.i(1, 5), d)
    H = np.array([sum(np.exp(2j * np.pi * np.dot(k, r)) * t for r, t in hop.items()) for k in K])
    c.close(tb.fourier(K), H, 1e-10, 'H(k), several')
    c.close(tb.fourier(K[0]), H[0], 1e-10, 'H(k)')
    hh = dict(hop)
    tbh = TightBinding(bl, hh)
    Hh = np.array([sum(np.exp(2j * np.pi * np.dot(k, r)) * t for r, t in hh.items()) for k in K])
    c.close(tbh.dispersion(K), np.linalg.eigvalsh(Hh), 1e-9, 'dispersion, several')
    c.close(tbh.dispersion(K[0]), np.linalg.eigvalsh(Hh[0]), 1e-9, 'dispersion')
    n = c.i(1, 3)
    m = MeshBrZone(bz, n_k=n)
    kk = [np.array([p.index[j] / n for j in range(d)]) for p in m]
    g = tb.fourier(m)
    c.check(isinstance(g, Gf) and g.mesh == m, 'a function on the mesh')
    c.close(g.data, [sum(np.exp(2j * np.pi * np.dot(k, r)) * t for r, t in hop.items()) for k in kk], 1e-10, 'H on the mesh')
    e = tbh.dispersion(m)
    c.close(e.data, [np.linalg.eigvalsh(sum(np.exp(2j * np.pi * np.dot(k, r)) * t for r, t in hh.items())) for k in kk], 1e-9, 'dispersion on the mesh')
    c.check(e.data.dtype == np.float64 and e.target_shape == (no,), 'real')
    p = LatticePoint([c.i(-3, 3) if k < d else 0 for k in range(3)], bl)
    c.close(p.value, np.array(p.index) @ ref, 1e-12, 'lattice point')
    f = c.i(0, 3)
    bad = [lambda: TightBinding(bl, 3), lambda: TightBinding(u, hop), lambda: BrillouinZone(3), lambda: BravaisLattice('x')][f]
    c.throws(bad, 'wrong arguments', of=TypeError)
    c.nontrivial('lat %s %s' % (u.tolist(), no))


def t_lifetime(c):
    """objects made from others outlive them"""
    q = M(c, c.pick(['brzone', 'cyclat']))
    ps = list(q.m)
    vals = [np.array(num(p.value)) for p in ps]
    u = q.m.units
    uc = np.array(u)
    g = mk(q, (2, 2), c=c)
    v = g[0:1, 0:1]
    ref = v.data.copy()
    call = v._c_proxy
    bl = BravaisLattice(np.eye(2))
    units, zone = bl.units, BrillouinZone(bl).units
    it = iter(MeshImFreq(10., 'Fermion', 3))
    k = ps[-1].data_index
    x = [int(i) for i in ps[-1].index]
    del q, g, bl
    junk = [np.zeros(1000) for _ in range(5)]
    c.check(np.array_equal(u, uc) and np.array_equal(units[:2, :2], np.eye(2)) and np.allclose(np.asarray(zone)[:2, :2], 2 * np.pi * np.eye(2)), 'views of units')
    c.check(all(np.allclose(num(p.value), w) for p, w in zip(ps, vals)), 'values of points')
    c.close(v(x), ref[k], 1e-12, 'the function of a view')
    c.check(len(list(it)) == 6, 'iterator')
    pts = [LatticePoint([1, 0, 0], BravaisLattice(np.eye(3)))]
    m = MeshCycLat(BravaisLattice(np.eye(3)), 2)
    h = Gf(mesh=m, target_shape=())
    h.data[...] = np.arange(8)
    c.close(h(pts[0]), 4, 1e-12, 'a point of another lattice object')
    c.nontrivial('life %s' % x)


def t_adjoint(c):
    """conjugate meshes"""
    k = KINDS[c.index % len(KINDS)]
    if k in ('legendre', 'dlr'):
        q = M(c, k)
        c.throws(lambda: meshes_mod.make_adjoint_mesh(q.m), 'no conjugate mesh', of=TypeError)
        return c.nontrivial('adj %s %s' % (k, q.pos))
    q = M(c, k, N=c.i(7, 30) if k in ('imtime', 'imfreq') else None)
    m = q.m
    F = meshes_mod.make_adjoint_mesh
    n = c.i(1, 9)
    if k == 'imtime':
        N_ = len(m)
        c.check(F(m) == MeshImFreq(q.beta, q.stat, (N_ - 1) // 6) and F(m, n) == MeshImFreq(q.beta, q.stat, n) == F(m, n_iw=n), 'frequencies')
    elif k == 'imfreq':
        c.check(F(m) == MeshImTime(q.beta, q.stat, 6 * q.pos[2] + 1) and F(m, n + 1) == MeshImTime(q.beta, q.stat, n + 1) == F(m, n_tau=n + 1), 'times')
    elif k in ('refreq', 'retime'):
        for sh in (False, True):
            r = F(m, sh) if c.chance(.5) else F(m, shift_half_bin=sh)
            L, d = len(m), (q.hi - q.lo) / (len(m) - 1)
            x = np.array([p.value for p in r])
            c.check(type(r) is {'refreq': MeshReTime, 'retime': MeshReFreq}[k] and len(r) == L, 'type and size')
            step = 2 * np.pi / (L * d)
            c.close(x, (np.arange(L) - (L - 1) / 2 + .5 * sh) * step, 1e-10 * step * L, 'points')
        c.check(F(m) == F(m, False), 'not shifted by default')
    elif k.startswith('dlr'):
        r = F(m)
        c.check(type(r) is {'dlr_imtime': MeshDLRImFreq, 'dlr_imfreq': MeshDLRImTime}[k] and r == type(r)(*q.pos) and F(r) == m, 'conjugate')
    else:
        r = F(m)
        c.check(type(r) is {'brzone': MeshCycLat, 'cyclat': MeshBrZone}[k] and list(r.dims) == q.d and F(r) == m, 'conjugate')
        c.check(r == (MeshCycLat(q.bl, q.d) if k == 'brzone' else MeshBrZone(BrillouinZone(q.bl), q.d)), 'lattice of the conjugate')
    c.nontrivial('adj %s %s' % (k, q.pos))


def t_small(c):
    """what is called with few or no arguments, and what is seldom called"""
    w = c.index % 8
    if w == 0:                                         # operators with other indices
        i, s, t = c.i(-5, 20), c.pick(['up', 'dn', '', 'é', '0']), c.pick(['a', 'b', '0'])
        for f, ind in ((lambda *a: a, []), (lambda *a: a, [s]), (lambda *a: a, [s, t]), (lambda *a: a, [s, i]), (lambda *a: a, [i, t]), (lambda *a: a, [i, -i])):
            for g, d in ((C, [False]), (CD, [True]), (N, [True, False])):
                (mon, co), = list(g(*ind))
                c.eq(([x for x, _ in mon], [list(y) for _, y in mon], co), (d, [ind] * len(d), 1.), 'term of one operator with indices %s', ind)
                c.check(all(type(a) is type(b) for _, y in mon for a, b in zip(y, ind)), 'types of the indices %s', mon)
        x, y = C(s, i), C(s, str(i))
        c.check(not x == y and (x - x).is_zero() and not (x - y).is_zero(), 'numbers are not strings')
        c.nontrivial('ops %s %s %s' % (i, s, t))
    elif w == 1:                                       # defaults
        h = Histogram()
        c.check(len(h) == 0 and h.n_data_pts == 0 and h.n_lost_pts == 0, 'default histogram')
        b = BravaisLattice()
        c.check(b.ndim == 3 and np.array_equal(b.units, np.eye(3)) and b == BravaisLattice(np.eye(b.ndim)) and b.n_orbitals == 1, 'default lattice')
        z = BrillouinZone(b)
        c.check(BravaisLattice(z) == b and BravaisLattice(bz=z) == b, 'lattice of a zone')
        m = MeshCycLat(c.i(1, 3), 2, 1)
        d = list(m.dims)
        c.check(d[1:] == [2, 1] and m == MeshCycLat(L1=d[0], L2=2, L3=1) and len(m) == 2 * d[0] and np.array_equal(m.units, np.eye(3)), 'mesh of the default lattice')
        e = MeshCycLat()
        c.check(len(e) == int(np.prod(e.dims)) == len(list(e)) and e == MeshCycLat() and e != MeshCycLat(2, 2, 1), 'default mesh %s', list(e.dims))
        q = RandomGenerator('', 5)
        c.check(0 <= q() < 1, 'generator')
        c.nontrivial('def %s' % d)
    elif w == 2:                                       # parameters of the fit of the tail belong to the mesh
        beta = 10.
        q = M(c, 'imfreq', beta, 'Fermion', 200)
        e, R = poles(c, (1, 1), beta, 'Fermion', 1.)
        g = Gf(mesh=q.m, data=G_iw(iw(q), e, R))
        o = c.i(3, 8)
        k = c.i(0, 2)
        g.mesh.set_tail_fit_parameters(c.r(.1, .4), 40, o) if k == 0 else g.mesh.set_tail_fit_parameters(tail_fraction=.3, n_tail_max=30, expansion_order=o) if k == 1 else g.mesh.set_tail_fit_parameters(.25, expansion_order=o)
        t, err = gf_fnt.fit_tail(g, np.zeros((1, 1, 1), complex))
        c.eq(len(t), o + 1, 'order of the expansion')
        c.close(t[:3, 0, 0], [0, R.sum(), (e * R[:, 0, 0]).sum()], 2e-2 * (1 + abs(R).sum()), 'moments')
        c.check(g.mesh == q.m, 'the mesh changed')
        x = g.copy()
        c.eq(len(gf_fnt.fit_tail(x, np.zeros((1, 1, 1), complex))[0]), o + 1, 'order of the expansion of a copy')
        c.nontrivial('tail %s' % o)
    elif w == 3:                                       # densities of states
        d = c.i(1, 2)
        n = c.i(1, 2)
        B = BravaisLattice(np.eye(d), [np.zeros(3)] * n) if n > 1 else BravaisLattice(np.eye(d))
        h = np.array([[c.r(-1, 1) for _ in range(n)] for _ in range(n)])
        h = h + h.T + 0j
        tx = c.r(.2, 1)
        hop = {(0,) * d: h}
        for j in range(d):
            for s_ in (1, -1):
                hop[tuple(s_ if l == j else 0 for l in range(d))] = -tx * np.eye(n) + 0j
        tb = TightBinding(B, hop)
        nk, ne = c.i(2, 8), c.i(3, 9)
        eps, rho = dos(tb, nk, ne)
        c.check(eps.shape == (ne,) and rho.shape == (ne, n) and (rho >= 0).all(), 'shape')
        c.close(rho.sum(0) * (eps[1] - eps[0]), np.ones(n), 1e-9, 'one state for each orbital')
        c.close((eps[:, None] * rho).sum() * (eps[1] - eps[0]) / n, np.trace(h).real / n - 2 * tx * d * sum(math.cos(2 * math.pi * ((2 * k + 1) / (2 * nk) - .5)) for k in range(nk)) / nk, eps[1] - eps[0], 'centre of the band')
        if d == 2 and n == 1:
            from triqs.lattice.lattice_tools import dos_patch
            T = c.array(3 * c.i(1, 2), 2)
            e2, r2 = dos_patch(tb, T, ne, 4)
            area = sum(abs((T[3 * j + 1] - T[3 * j])[0] * (T[3 * j + 2] - T[3 * j])[1] - (T[3 * j + 1] - T[3 * j])[1] * (T[3 * j + 2] - T[3 * j])[0]) / 2 for j in range(len(T) // 3))
            c.check(e2.shape == r2.shape == (ne,), 'shape')
            c.check((r2 >= 0).all() and abs(r2.sum() * (e2[-1] - e2[0]) / area / ne - 1) < 1.01 / (ne - 1), 'area of the patch')     # the energies are either the centres or the ends of the bins
        x = np.array([c.r(-2, 2) if j < d else 0. for j in range(3)])
        c.close(tb.lattice_to_real_coordinates(x), B.lattice_to_real_coordinates(x), 1e-14, 'coordinates')
        c.nontrivial('dos %s %s %s %s' % (d, n, nk, ne))
    elif w == 4:                                       # arrays of interactions
        st = c.pick([[('up', 1)], [('up', 2)], [('up', 1), ('dn', 2)], [('dn', 2), ('up', 1)]])
        fl = [(b, k) for b, n in st for k in range(n)]
        n, cx = len(fl), c.chance(.5)
        v = (lambda: complex(c.r(-1, 1), c.r(-1, 1))) if cx else (lambda: c.r(-1, 1))
        ref = np.zeros((n,) * 4, complex if cx else float)
        dct = {}
        for _ in range(c.i(1, 5)):
            ix = tuple(c.i(0, n - 1) for _ in range(4))
            ref[ix] = v()
            dct[tuple(fl[i] if c.chance(.5) else list(fl[i]) and fl[i] for i in ix)] = ref[ix].item()
        got = ex.dict_to_matrix(dct, st) if c.chance(.5) else ex.dict_to_matrix(d=dct, gf_struct=st)
        c.check(got.dtype == ref.dtype and np.array_equal(got, ref), 'four indices')
        d2, r2 = {}, np.zeros((n, n), complex if cx else float)
        for _ in range(c.i(1, 4)):
            i, j = c.i(0, n - 1), c.i(0, n - 1)
            r2[i, j] = v()
            d2[fl[i], fl[j]] = r2[i, j].item()
        got = ex.dict_to_matrix(d2, st)
        c.check(got.dtype == r2.dtype and np.array_equal(got, r2), 'two indices')
        c.throws(lambda: ex.dict_to_matrix({(('nn', 0), fl[0]): 1.}, st), 'an index which is not in the structure')
        c.nontrivial('d2m %s %s' % (st, sorted(dct)))
    elif w == 5:                                       # tails within the window of the fit
        beta = 8.
        q = M(c, 'imfreq', beta, 'Fermion', c.i(60, 120))
        shape = (2, 2)
        e, R = poles(c, shape, beta, 'Fermion', 1.)
        H = (R + adj(R)) / 2
        g = Gf(mesh=q.m, data=G_iw(iw(q), e, H))
        mom = np.array([np.zeros(shape)] + [np.tensordot(e**k, H, 1) for k in range(6)]).astype(complex)
        n = len(q.m) // 2
        n0, known = c.i(10, n // 2), c.i(1, 3)
        t, err = g.fit_hermitian_tail_on_window(n0, n - 1, mom[:known], 40, 5) if c.chance(.5) else gf_fnt.fit_hermitian_tail_on_window(g, n_min=n0, n_max=n - 1, known_moments=mom[:known], n_tail_max=40, expansion_order=5)
        sc = 1 + abs(R).sum()
        c.check(t.shape == (6,) + shape and err < 1e-2 * sc, 'shape and error')
        c.close(t[:3], mom[:3], 5e-2 * sc, 'moments')
        c.close(t, t.conj().swapaxes(1, 2), 1e-10, 'hermitian')
        x = Gf(mesh=q.m, data=strided(c, g.data + 1))
        x.mesh.set_tail_fit_parameters(.3, 30, 5)
        x.replace_by_tail_in_fit_window(mom)
        z = iw(q)
        tv = sum(np.multiply.outer(z**-float(k), mom[k]) for k in range(len(mom)))
        new, old = abs(x.data - tv).max((1, 2)) < 1e-12, abs(x.data - g.data - 1).max((1, 2)) < 1e-12
        c.check((new | old).all() and new[0] and new[-1] and not new[n] and (np.diff(new[n:].astype(int)) >= 0).all() and np.array_equal(new, new[::-1]), 'replaced frequencies')
        c.check(abs(new[n:].sum() - .3 * n) <= 1.5, 'the fraction replaced: %s of %s', new[n:].sum(), n)
        c.nontrivial('win %s %s' % (n, n0))
    elif w == 6:                                       # rebinning, discontinuity
        beta, no, nt = c.r(1, 9), c.i(1, 2), c.i(2, 40)
        m = MeshImTime(beta, c.pick(STATS), nt)
        d = c.array(nt, no, no, cplx=True)
        g = Gf(mesh=m, data=strided(c, d))
        n2 = c.i(2, nt)
        r = gf_fnt.rebinning_tau(g, n2) if c.chance(.5) else g.rebinning_tau(n2)
        c.check(r.mesh == MeshImTime(beta, m.statistic, n2), 'mesh')
        t0, t1 = np.linspace(0, beta, nt), np.linspace(0, beta, n2)
        near = [[l for l in range(nt) if abs(round(t0[l] / (beta / (n2 - 1))) - j) < .5] for j in range(n2)]
        for j in (0, n2 - 1):
            c.check(r.data.shape == (n2, no, no), 'shape')
        one = Gf(mesh=m, data=np.ones((nt, no, no), complex))
        full = gf_fnt.rebinning_tau(one, n2).data
        c.check((abs(full - 1).max() < 1e-12) or n2 > nt // 2, 'a constant stays constant')
        c.nontrivial('rebin %s %s' % (nt, n2))
    else:                                              # values of a real function
        n, b = c.i(2, 12), c.r(1, 9)
        m = MeshImTime(b, 'Fermion', n)
        sh = c.pick([(), (2, 2), (1, 2)])
        d = c.array(n, *sh)
        g = Gf(mesh=m, data=strided(c, d))
        t = c.r(0, 1) * b
        x = t / b * (n - 1)
        k = min(int(x), n - 2)
        v = g(t)
        c.close(v, d[k] * (k + 1 - x) + d[k + 1] * (x - k), 1e-10, 'interpolation')
        c.check(not np.any(np.imag(v)), 'a real function has real values, not %s', repr(v))
        p = c.i(0, n - 1)
        c.close(g(m[p]) if c.chance(.5) else g(Idx(p)), d[p], 1e-12, 'on the mesh')
        L, Rm = c.array(2, 2), c.array(2, 2)
        if sh == (2, 2):
            o = Gf(mesh=m, data=np.zeros((n, 2, 2)))
            o.from_L_G_R(L, g, Rm)
            c.close(o.data, L @ d @ Rm, 1e-10, 'L G R')
        c.nontrivial('real %s %s' % (n, sh))


group('meshes', 400, 20000, t_meshes)
group('call', 500, 30000, t_call)
group('call_product', 120, 6000, t_call_product)
group('inplace', 400, 20000, t_inplace)
group('symmetrise', 200, 10000, t_symmetrise)
group('fourier', 60, 2000, t_fourier)
group('fourier_real', 60, 3000, t_fourier_real)
group('fourier_lattice', 80, 4000, t_fourier_lattice)
group('density', 60, 2000, t_density)
group('legendre', 60, 2000, t_legendre)
group('dlr', 24, 600, t_dlr)
group('tail', 40, 1500, t_tail)
group('pade', 30, 1000, t_pade)
group('lift', 500, 20000, t_lift)
group('operators', 400, 20000, t_operators)
group('pickle', 2, 2, t_pickle)
group('extract', 150, 8000, t_extract)
group('atom_diag', 100, 4000, t_atom_diag)
group('atom_diag_basis', 120, 5000, t_atom_diag_basis)
group('histogram', 150, 8000, t_histogram)
group('random', 60, 3000, t_random)
group('lattice', 120, 6000, t_lattice)
group('adjoint', 100, 4000, t_adjoint)
group('small', 240, 10000, t_small)
group('lifetime', 60, 3000, t_lifetime)
calls = __import__('vx_numpy').calls()
vmon.count('calls into C++', sum(v for k, v in calls.items() if not k.endswith('raised')))
vmon.count('calls into C++ which raised', sum(v for k, v in calls.items() if k.endswith('raised')))
if os.environ.get('VX_CALLS'):
    open('%s.%s' % (os.environ['VX_CALLS'], os.getpid()), 'w').write(repr(calls))
vmon.finish()
