"""Programs of operations on Green functions, block functions and lazy expressions against numpy arrays, with every object in reach compared after every step."""
import io, math, os, pickle, sys, warnings
from contextlib import redirect_stdout
import numpy as np
import vmon
from vmon import group

for k in ('OMPI_COMM_WORLD_RANK', 'PMI_RANK', 'CRAY_MPICH_VERSION', 'TRIQS_FORCE_MPI_INIT'):
    os.environ.pop(k, None)
warnings.simplefilter('ignore')
vmon.stage(stubs=['triqs', 'h5'], extra={'triqs/__init__.py': ''})
with vmon.quiet():
    import triqs.utility.mpi
from triqs.gf import *
from triqs.gf import gf_fnt, lazy_expressions, descriptors
from triqs.gf.descriptor_base import Function, Const, Base
from triqs.gf.descriptors import OneFermionInTime
from triqs.gf.lazy_expressions import LazyExpr, eval_expr, eval_expr_with_context
from triqs.gf.matsubara_freq import MatsubaraFreq
from triqs.gf.tools import read_gf_from_txt, write_gf_to_txt, make_delta, discretize_bath, make_zero_tail, fit_legendre

TINY = 1e-11


# ------------------------------------------------------------------ meshes
def mesh_pair(c, kinds=None):
    """two different meshes of the same type and length, and the function which makes them"""
    k = c.pick(kinds or ['imfreq'] * 4 + ['refreq'] * 2 + ['imtime', 'retime', 'legendre', 'brzone', 'cyclat', 'dlr', 'dlrw', 'prod2', 'prod3'])
    b, s = c.pick([1., 10., 3.7]), c.pick(['Fermion', 'Fermion', 'Boson'])
    n = c.i(1, 5)
    if k == 'imfreq':
        return k, MeshImFreq(beta=b, S=s, n_iw=n), MeshImFreq(beta=b + 1, S=s, n_iw=n)
    if k == 'refreq':
        return k, MeshReFreq(window=(-1.5, 2.), n_w=n + 1), MeshReFreq(window=(-1.5, 2.5), n_w=n + 1)
    if k == 'imtime':
        return k, MeshImTime(beta=b, S=s, n_tau=n + 1), MeshImTime(beta=b * 2, S=s, n_tau=n + 1)
    if k == 'retime':
        return k, MeshReTime(window=(0., 2.), n_t=n + 1), MeshReTime(window=(0., 3.), n_t=n + 1)
    if k == 'legendre':
        return k, MeshLegendre(beta=b, S=s, max_n=n), MeshLegendre(beta=b + .5, S=s, max_n=n)
    if k == 'dlr':
        return k, MeshDLR(b, s, 3., 1e-8), MeshDLR(b, s, 4., 1e-8)
    if k == 'dlrw':
        return k, MeshDLRImFreq(b, s, 3., 1e-8), MeshDLRImFreq(b, s, 4., 1e-8)
    if k in ('brzone', 'cyclat'):
        d = [c.i(1, 3), c.i(1, 2), 1]
        T = MeshBrZone if k == 'brzone' else MeshCycLat
        return k, T(np.eye(3), d), T(2 * np.eye(3), d)
    m = [mesh_pair(c, ['imfreq', 'refreq', 'imtime', 'brzone', 'legendre']) for _ in range(2 if k == 'prod2' else 3)]
    j = c.i(0, len(m) - 1)
    return k, MeshProduct(*[x[1] for x in m]), MeshProduct(*[x[2] if q == j else x[1] for q, x in enumerate(m)])


def sizes(mesh):
    return tuple(len(x) for x in mesh.components) if isinstance(mesh, MeshProduct) else (len(mesh),)


def same_mesh(a, b):
    if isinstance(a, MeshProduct) or isinstance(b, MeshProduct):
        return isinstance(a, MeshProduct) and isinstance(b, MeshProduct) and len(a.components) == len(b.components) and all(same_mesh(x, y) for x, y in zip(a.components, b.components))
    return type(a) is type(b) and a == b


def freqs(mesh):
    return np.array([complex(x.value) for x in mesh])


def rnd(c, shape, real=False):
    if c.chance(.1):
        a = np.array([float(c.i(-2, 2)) for _ in range(int(np.prod(shape)))]).reshape(shape)
        return a if real else a + 0j
    return c.array(*shape, cplx=not real) if shape else np.array(c.r(-1, 1) if real else c.cplx())


def number(c, real=False):
    l = [lambda: c.i(-3, 3) or 1, lambda: c.r(-2, 2), lambda: np.float64(c.r(-2, 2)), lambda: np.int64(c.i(1, 4)), lambda: np.float32(.5)]
    if not real:
        l += [lambda: c.cplx(), lambda: np.complex128(c.cplx())]
    return c.pick(l)()


class slot:
    """an object, the array which it should show, and the mesh which it should have"""

    def __init__(self, g, m, mesh):
        self.g, self.m, self.mesh = g, m, mesh

    @property
    def ns(self):
        return len(sizes(self.mesh))

    @property
    def ts(self):
        return self.m.shape[self.ns:]


def look(c, slots, what):
    vmon.count('objects_compared', len(slots))
    for k, s in enumerate(slots):
        d = s.g.data
        if d.shape != s.m.shape or tuple(s.g.target_shape) != s.ts or s.g.target_rank != len(s.ts) or s.g.rank != s.ns:
            c.check(False, what, ': object', k, 'has shape', d.shape, tuple(s.g.target_shape), s.g.target_rank, 'expected', s.m.shape, s.ts)
        c.check(np.iscomplexobj(d) == np.iscomplexobj(s.m), what, ': object', k, 'has type', d.dtype, 'expected', s.m.dtype)
        if not same_mesh(s.g.mesh, s.mesh):
            c.check(False, what, ': object', k, 'has mesh', s.g.mesh, 'expected', s.mesh)
        e = abs(d - s.m)
        tol = TINY * max(1., abs(s.m).max())
        if not (e <= tol).all():
            c.check(False, what, ': object', k, 'differs by', e.max(), 'first at', [int(x) for x in np.argwhere(~(e <= tol))[0]])


def bmat(x, n):
    """a matrix in target space, for all mesh points"""
    return x


def mesh_of_product(l, r):
    if isinstance(l, MeshProduct):
        return MeshProduct(*[mesh_of_product(a, b) for a, b in zip(l.components, r.components)])
    if isinstance(l, MeshImTime):
        return MeshImTime(l.beta, 'Boson' if l.statistic == r.statistic else 'Fermion', len(l))
    return l.copy()


def mul(a, b, ra, rb):
    """product of the values, ranks of the targets ra, rb"""
    if ra == rb == 2:
        return np.einsum('...ij,...jk->...ik', a, b)
    if ra == rb == 0:
        return a * b
    return a * b[..., None, None] if ra == 2 else a[..., None, None] * b


def adds_scalars(s):
    """numbers and matrices can be added to these functions"""
    return isinstance(s.mesh, (MeshImFreq, MeshReFreq)) and len(s.ts) == 2 and np.iscomplexobj(s.m)


def ident(s, x):
    r = np.zeros(s.m.shape, complex)
    k = np.arange(min(s.ts))
    r[..., k, k] = x
    return r


def refused(c, f, slots, what):
    c.throws(f, what)
    look(c, slots, what + ' was refused')
    vmon.count('refusals')


def gf_program(c):
    kind, mesh, other = mesh_pair(c)
    t1 = c.pick([(2, 2), (2, 2), (1, 1), (3, 3), (2, 3), (), (), (2, 2, 2), (3,)])
    t2 = t1 if c.chance(.4) else c.pick([(2, 2), (3, 2), (), (1, 1), t1[::-1]])
    slots = []
    meshes = [mesh, other]
    shared = [mesh.copy(), other.copy()]    # meshes given to several objects

    def add(g, m, me):
        slots.append(slot(g, m, me))
        if len(slots) > 9:
            slots.pop(c.i(0, 4))
        return slots[-1]

    def new(me_k, ts):
        real = c.chance(.12) and kind not in ('imfreq', 'refreq')
        me = shared[me_k] if c.chance(.6) else meshes[me_k].copy()
        d = rnd(c, sizes(me) + ts, real)
        if c.chance(.2):
            g = Gf(mesh=me, target_shape=list(ts), is_real=real, name='n')
            c.check((g.data == 0).all(), 'a new function is zero')
            g.data[...] = d
        else:
            g = Gf(mesh=me, data=d.copy())
        add(g, d, meshes[me_k].copy())
    for k, ts in ((0, t1), (0, t1), (0, t2), (1, t1)):
        new(k, ts)
    sig = [kind, t1, t2]
    for step in range(c.i(4, 14)):
        op = c.pick(['add', 'add', 'scal', 'scal', 'mat', 'mul', 'mul', 'imul', 'slice', 'slice', 'mslice', 'copy', 'assign', 'assign', 'copy_from', 'unary', 'unary', 'inv', 'elem', 'elem', 'pickle', 'LGR', 'lazy', 'call', 'div', 'bad'])
        a = c.pick(slots)
        R = len(a.ts)
        big = abs(a.m).max() if a.m.size else 0
        if not big < 1e4:
            a.g.zero()
            # views of the same data are compared as well
            a.m[...] = 0
            look(c, slots, 'zero')
            continue
        cplx = np.iscomplexobj(a.m)
        c.trace(op, slots.index(a))
        sig.append(op)
        fits = [s for s in slots if s.m.shape == a.m.shape and same_mesh(s.mesh, a.mesh) and np.iscomplexobj(s.m) == cplx]
        b = c.pick(fits)
        if op == 'add':
            h = c.pick(['+', '-', '+=', '-='])
            c.trace(h, slots.index(b))
            if h == '+':
                add(a.g + b.g, a.m + b.m, a.mesh)
            elif h == '-':
                add(a.g - b.g, a.m - b.m, a.mesh)
            elif h == '+=':
                g = a.g
                g += b.g
                c.check(g is a.g, '+= gives another object')
                a.m += b.m.copy()
            else:
                g = a.g
                g -= b.g
                c.check(g is a.g, '-= gives another object')
                a.m -= b.m.copy()
        elif op == 'scal':
            x = number(c, real=not cplx)
            v = complex(x) if cplx else float(x)
            l = ['*', 'r*', '*=', '/', '/=', 'neg', '@'] + (['+', '-', 'r+', 'r-', '+=', '-='] if adds_scalars(a) or R == 0 else [])
            h = c.pick(l)
            c.trace(h, repr(x))
            one = ident(a, v) if R == 2 and h[-1] in '+-=' and h not in ('*=', '/=') else v
            g, m = a.g, a.m
            if h == '*':
                add(g * x, m * v, a.mesh)
            elif h == '@':
                add(g @ x, m * v, a.mesh)
            elif h == 'r*':
                add(x * g, m * v, a.mesh)
            elif h == '*=':
                g *= x
                m *= v
            elif h == '/':
                add(g / x, m / v, a.mesh)
            elif h == '/=':
                g /= x
                m /= v
            elif h == 'neg':
                add(-g, -m, a.mesh)
            elif h == '+':
                add(g + x, m + one, a.mesh)
            elif h == 'r+':
                add(x + g, m + one, a.mesh)
            elif h == '-':
                add(g - x, m - one, a.mesh)
            elif h == 'r-':
                add(x - g, one - m, a.mesh)
            elif h == '+=':
                g += x
                m += one
            else:
                g -= x
                m -= one
            c.check(g is a.g, h, 'gives another object')
        elif op == 'mat' and R == 2:
            n, p = a.ts
            real = c.chance(.4) or not cplx
            l = ['*', 'r*', '*=', '@', 'r@'] + (['+', '-', 'r+', 'r-', '+=', '-='] if adds_scalars(a) else [])
            h = c.pick(l)
            q = {'*': (p, p), '@': (p, p), '*=': (p, p), 'r*': (n, n), 'r@': (n, n)}.get(h, (n, p))
            M = rnd(c, q, real)
            M0 = M.copy()
            if c.chance(.2):
                M = np.asfortranarray(M)
            c.trace(h, q)
            g, m = a.g, a.m
            if h in '*@':
                add(g * M if h == '*' else g @ M, np.einsum('...ij,jk->...ik', m, M0), a.mesh)
            elif h in ('r*', 'r@'):
                add(M * g if h == 'r*' else M @ g, np.einsum('ij,...jk->...ik', M0, m), a.mesh)
            elif h == '*=':
                g *= M
                m[...] = np.einsum('...ij,jk->...ik', m, M0)
            elif h == '+':
                add(g + M, m + M0, a.mesh)
            elif h == 'r+':
                add(M + g, m + M0, a.mesh)
            elif h == '-':
                add(g - M, m - M0, a.mesh)
            elif h == 'r-':
                add(M - g, M0 - m, a.mesh)
            elif h == '+=':
                g += M
                m += M0
            else:
                g -= M
                m -= M0
            c.check(g is a.g, h, 'gives another object')
            c.close(M, M0, 0, 'the matrix was changed')
        elif op == 'mul' and R in (0, 2):
            l = [s for s in slots if same_mesh(s.mesh, a.mesh) and (len(s.ts) == 0 or (len(s.ts) == 2 and (R == 0 or s.ts[0] == a.ts[1])))]
            if l:
                b = c.pick(l)
                c.trace(slots.index(b))
                g = a.g * b.g if c.chance(.6) else a.g @ b.g
                add(g, mul(a.m, b.m, R, len(b.ts)) + 0j, mesh_of_product(a.mesh, b.mesh))
        elif op == 'imul' and R in (0, 2):
            l = [s for s in slots if same_mesh(s.mesh, a.mesh) and (len(s.ts) == 0 or (len(s.ts) == 2 and R == 2 and s.ts == (a.ts[1], a.ts[1]))) and (cplx or not np.iscomplexobj(s.m))]
            if l:
                b = c.pick(l)
                c.trace(slots.index(b), b.ts)
                r = mul(a.m, b.m, R, len(b.ts))
                g = a.g
                if c.chance(.6):
                    g *= b.g
                else:
                    g @= b.g
                c.check(g is a.g, '*= gives another object')
                a.m[...] = r
        elif op == 'slice' and R:
            if c.chance(.4):
                key = tuple(c.i(0, n - 1) for n in a.ts)
            else:
                key = tuple(c.pick([slice(None), slice(0, 1), slice(n - 1, None), slice(0, n), slice(None, None, -1)]) for n in a.ts)
            c.trace(key)
            how = c.pick(['get', 'get', 'set'])
            v = a.m[(slice(None),) * a.ns + key]
            if how == 'get':
                g = a.g[key if len(key) > 1 else key[0]]
                c.check(np.shares_memory(g.data, a.g.data), 'a slice is a view')
                if g is not a.g:    # g[:] is the function itself
                    add(g, v, a.mesh)
            else:
                l = [s for s in slots if s.m.shape == v.shape and same_mesh(s.mesh, a.mesh) and (cplx or not np.iscomplexobj(s.m))]
                if l:
                    s = c.pick(l)
                    c.trace('from', slots.index(s))
                    if not np.shares_memory(v, s.m):
                        if c.chance(.5):
                            a.g[key if len(key) > 1 else key[0]] = s.g
                        else:
                            a.g[key if len(key) > 1 else key[0]] << s.g
                        v[...] = s.m
        elif op == 'mslice' and a.ns > 1:
            keep = [c.chance(.5) for _ in range(a.ns)]
            if any(keep) and not all(keep):
                idx = [c.i(0, n - 1) for n in sizes(a.mesh)]
                comps = a.g.mesh.components
                key = tuple(slice(None) if kp else (comps[q][idx[q]] if c.chance(.6) else Idx(comps[q].to_index(idx[q]))) for q, kp in enumerate(keep))
                v = a.m[tuple(slice(None) if kp else idx[q] for q, kp in enumerate(keep))]
                rest = [m for m, kp in zip(a.mesh.components, keep) if kp]
                g = a.g[key]
                c.check(np.shares_memory(g.data, a.g.data), 'a slice of the mesh is a view')
                add(g, v, MeshProduct(*rest) if len(rest) > 1 else rest[0])
        elif op == 'copy':
            g = a.g.copy()
            c.check(not np.shares_memory(g.data, a.g.data), 'a copy shares its data')
            c.check(g.name == a.g.name, 'name of a copy')
            add(g, a.m.copy(), a.mesh)
        elif op == 'assign':
            if a is not b and np.shares_memory(a.m, b.m):
                continue
            c.trace(slots.index(b))
            if c.chance(.5):
                r = a.g << b.g
                c.check(r is a.g, '<< gives another object')
            else:
                a.g[:] = b.g
            a.m[...] = b.m
        elif op == 'copy_from':
            l = [s for s in slots if s.m.shape == a.m.shape and np.iscomplexobj(s.m) == cplx and type(s.mesh) is type(a.mesh) and not np.shares_memory(s.m, a.m)
                 and (not isinstance(a.mesh, MeshProduct) or [type(x) for x in a.mesh.components] == [type(x) for x in s.mesh.components])]
            if l:
                b = c.pick(l)
                c.trace(slots.index(b), 'another mesh' if not same_mesh(a.mesh, b.mesh) else '')
                a.g.copy_from(b.g)
                a.m[...] = b.m
                a.mesh = b.mesh
        elif op == 'unary':
            h = c.pick(['conj', 'transpose', 'real', 'imag', 'zero', 'conj fn', 'transpose fn'])
            c.trace(h)
            if h.startswith('conj'):
                add(a.g.conjugate() if h == 'conj' else conjugate(a.g), a.m.conj().copy(), a.mesh)
            elif h.startswith('transpose'):
                if R == 2 and a.ns == 1:
                    add(a.g.transpose() if h == 'transpose' else transpose(a.g), a.m.swapaxes(-1, -2).copy(), a.mesh)
            elif h == 'real':
                add(a.g.real, a.m.real, a.mesh)
            elif h == 'imag' and cplx:
                add(a.g.imag, a.m.imag, a.mesh)
            elif h == 'zero' and c.chance(.3):
                a.g.zero()
                a.m[...] = 0
        elif op == 'inv':
            if (R == 2 and a.ts[0] == a.ts[1] and cplx and (np.linalg.cond(a.m) < 1e3).all()) or (R == 0 and abs(a.m).min() > 1e-3):
                r = np.linalg.inv(a.m) if R == 2 else 1 / a.m
                h = c.pick(['inverse', 'invert', 'fn'])
                c.trace(h)
                if h == 'invert':
                    a.g.invert()
                    a.m[...] = r
                else:
                    add(a.g.inverse() if h == 'inverse' else inverse(a.g), r, a.mesh)
            elif R not in (0, 2) or (R == 2 and a.ts[0] != a.ts[1]):
                refused(c, lambda: a.g.inverse(), slots, 'inverse of a shape which has none')
        elif op == 'elem':
            idx = [c.i(0, n - 1) for n in sizes(a.mesh)]
            comps = a.g.mesh.components if a.ns > 1 else [a.g.mesh]
            key = tuple(m[k] if c.chance(.5) else Idx(m.to_index(k)) for m, k in zip(comps, idx))
            key = key if len(key) > 1 else key[0]
            v = a.m[tuple(idx)]
            c.close(a.g[key], v, TINY * max(1, big), 'element at', idx)
            if c.chance(.5):
                y = rnd(c, a.ts, not cplx)
                a.g[key] = y
                a.m[tuple(idx)] = y
        elif op == 'pickle':
            g = pickle.loads(pickle.dumps(a.g)) if c.chance(.7) else Gf.__factory_from_dict__(a.g.name, dict(a.g.copy().__reduce_to_dict__()))
            c.check(g.name == a.g.name, 'name of a stored copy')
            add(g, a.m.copy(), a.mesh)
        elif op == 'LGR' and R == 2 and a.ns == 1 and cplx:
            l = [s for s in slots if same_mesh(s.mesh, a.mesh) and len(s.ts) == 2 and np.iscomplexobj(s.m) and not np.shares_memory(s.m, a.m)]
            if l:
                b = c.pick(l)
                L, Rm = rnd(c, (a.ts[0], b.ts[0]), c.chance(.3)), rnd(c, (b.ts[1], a.ts[1]), c.chance(.3))
                if c.chance(.3):
                    L = np.asfortranarray(L)
                c.trace(slots.index(b))
                a.g.from_L_G_R(L, b.g, Rm)
                a.m[...] = np.einsum('ij,njk,kl->nil', L, b.m, Rm)
        elif op == 'lazy' and isinstance(a.mesh, (MeshImFreq, MeshReFreq)) and cplx and (R == 0 or (R == 2 and a.ts[0] == a.ts[1])):
            pool = [s for s in slots if s.m.shape == a.m.shape and same_mesh(s.mesh, a.mesh) and np.iscomplexobj(s.m)]
            e, v, txt = expression(c, a.mesh, a.ts, pool, c.i(0, 3))
            r = v()
            c.trace(txt)
            if np.isfinite(r).all() and abs(r).max() < 1e6:
                how = c.pick(['<<', '<<', '[:]', '+=', '-=', '*='])
                g = a.g
                if how == '<<':
                    g << e
                elif how == '[:]':
                    g[:] = e
                elif how == '+=':
                    r = a.m + r
                    g += e
                elif how == '-=':
                    r = a.m - r
                    g -= e
                else:
                    r = mul(a.m, r, R, R)
                    g *= e
                c.trace(how)
                c.check(g is a.g, how, 'with an expression gives another object')
                a.m[...] = r
        elif op == 'call':
            if isinstance(a.mesh, MeshImFreq) and cplx and R in (0, 2) and a.g._c_proxy:
                k = c.i(0, len(a.mesh) - 1)
                n = a.mesh.to_index(k)
                x = c.pick([n, a.g.mesh[k], Idx(n), MatsubaraFreq(n, a.mesh.beta, a.mesh.statistic)])
                c.close(a.g(x), a.m[k], TINY * max(1, big), 'call at', n)
            if isinstance(a.mesh, MeshImTime) and cplx and len(a.mesh) > 1 and a.g._c_proxy:
                x = c.r(0, a.mesh.beta)
                s = x / a.mesh.beta * (len(a.mesh) - 1)
                k = min(int(s), len(a.mesh) - 2)
                c.close(a.g(x), a.m[k] * (k + 1 - s) + a.m[k + 1] * (s - k), 1e-9 * max(1, big), 'call at', x)
        elif op == 'div':
            M = rnd(c, a.m.shape, not cplx) + 3
            if R == 0 or c.chance(.3):
                add(a.g / M, a.m / M, a.mesh)
        elif op == 'bad':
            l = [s for s in slots if s.m.shape == a.m.shape and type(s.mesh) is type(a.mesh) and not same_mesh(s.mesh, a.mesh)]
            w = [s for s in slots if same_mesh(s.mesh, a.mesh) and s.ts != a.ts]

            def inplace(f):
                def q():
                    g = a.g
                    f(g)
                return q
            import operator as o
            if l and c.chance(.5):
                b = c.pick(l)
                f = c.pick([lambda: a.g + b.g, lambda: a.g - b.g, lambda: a.g << b.g, lambda: o.iadd(a.g, b.g), lambda: o.isub(a.g, b.g)]
                           + ([lambda: o.imul(a.g, b.g), lambda: a.g * b.g] if R in (0, 2) and not any(isinstance(x, MeshImTime) for x in (a.mesh.components if a.ns > 1 else [a.mesh])) and (R == 0 or a.ts[0] == a.ts[1]) else []))
                refused(c, f, slots, 'an operation on different meshes')
            elif w:
                b = c.pick(w)
                fs = [lambda: a.g + b.g, lambda: a.g - b.g, lambda: a.g << b.g, lambda: a.g.copy_from(b.g), lambda: o.iadd(a.g, b.g), lambda: o.isub(a.g, b.g)]
                if R == 2 and len(b.ts) == 2 and a.ts[1] != b.ts[0]:
                    fs += [lambda: a.g * b.g, lambda: o.imul(a.g, b.g)] * 2
                c.trace('with', slots.index(b), a.ts, b.ts)
                refused(c, c.pick(fs), slots, 'an operation on different shapes')
            elif R == 2:
                n, p = a.ts
                M = rnd(c, (p + 1, p), not cplx)
                fs = [lambda: a.g * M, lambda: o.imul(a.g, M), lambda: rnd(c, (n, n + 1)) * a.g]
                if adds_scalars(a):
                    fs += [lambda: a.g + rnd(c, (n + 1, p)), lambda: o.iadd(a.g, rnd(c, (n, p + 1)))]
                if p > 1:
                    fs += [lambda: o.imul(a.g, rnd(c, (p, 1), not cplx))] * 2
                c.trace('matrix')
                refused(c, c.pick(fs), slots, 'a matrix of another shape')
            if c.chance(.2):
                mp = c.pick([other[0], MeshImFreq(beta=77., S='Fermion', n_iw=9)[0]])
                if a.ns == 1 and not isinstance(mp, tuple):
                    f = lambda: a.g[mp]
                    if mp.mesh_hash != a.g.mesh.mesh_hash:
                        refused(c, f, slots, 'a point of another mesh')
        look(c, slots, op)
    c.nontrivial(*sig)


# ------------------------------------------------------------------ lazy expressions
def expression(c, mesh, ts, pool, depth, first=True):
    """(lazy or eager object, function giving the array, text)"""
    w = freqs(mesh)
    R = len(ts)
    eye = np.eye(ts[0]) if R else np.array(1.)

    def over(f):
        return f.reshape((-1,) + (1,) * R) * eye
    if depth == 0:
        l = ['omega', 'omega', 'omega', 'semi', 'flat', 'const', 'function'] + (['gf', 'gf'] if pool else [])
        h = c.pick(l)
        if h == 'omega':
            return c.pick([iOmega_n, Omega]), (lambda: over(w)), 'w'
        if h == 'semi':
            D, mu = c.pick([1., 2.]), c.pick([0., .3])
            v = np.array([semicircle(z + mu, D, isinstance(mesh, MeshReFreq)) for z in w])
            return (SemiCircular(D, mu) if mu or c.chance(.5) else SemiCircular(D)), (lambda: over(v)), 'semi(%g,%g)' % (D, mu)
        if h == 'flat':
            D = c.pick([1.1, 2.2])
            v = np.array([flat(z, D, isinstance(mesh, MeshReFreq)) for z in w])
            return c.pick([Flat, Wilson])(D), (lambda: over(v)), 'flat(%g)' % D
        if h == 'const':
            x = c.pick([1, .5, 1j, c.cplx()])
            return Const(x), (lambda: over(np.full(len(w), x, complex))), 'Const'
        if h == 'function':
            x = c.cplx()
            M = rnd(c, ts)
            return Function(lambda z: (z * z + x) * M), (lambda: (w * w + x).reshape((-1,) + (1,) * R) * M), 'Function'
        s = c.pick(pool)
        return s.g, (lambda: s.m + 0), 'g'
    h = c.pick(['+', '-', '*', '+s', '-s', 's+', 's-', 's*', '*s', '/s', 'M+', 'M-', 'M*', '*M', 'inv', 'conj', 'tr'])
    if h in ('M+', 'M-', 'M*', '*M') and not R:
        h = '+s'
    e, v, t = expression(c, mesh, ts, pool, depth - 1)
    if h in ('+', '-', '*'):
        e2, v2, t2 = expression(c, mesh, ts, pool, c.i(0, depth - 1))
        if h == '+':
            return e + e2, (lambda: v() + v2()), '(%s + %s)' % (t, t2)
        if h == '-':
            return e - e2, (lambda: v() - v2()), '(%s - %s)' % (t, t2)
        return e * e2, (lambda: mul(v(), v2(), R, R)), '(%s * %s)' % (t, t2)
    x = number(c)
    z = complex(x)
    M = rnd(c, ts, c.chance(.3))
    if h == '+s':
        return e + x, (lambda: v() + z * eye), '(%s + %r)' % (t, x)
    if h == 's+':
        return x + e, (lambda: z * eye + v()), '(%r + %s)' % (x, t)
    if h == '-s':
        return e - x, (lambda: v() - z * eye), '(%s - %r)' % (t, x)
    if h == 's-':
        return x - e, (lambda: z * eye - v()), '(%r - %s)' % (x, t)
    if h == 's*':
        return x * e, (lambda: z * v()), '%r * %s' % (x, t)
    if h == '*s':
        return e * x, (lambda: z * v()), '%s * %r' % (t, x)
    if h == '/s':
        return e / x, (lambda: v() / z), '%s / %r' % (t, x)
    if h == 'M+':
        return M + e if c.chance(.5) else e + M, (lambda: v() + M), '(M + %s)' % t
    if h == 'M-':
        return M - e, (lambda: M - v()), '(M - %s)' % t
    if h == 'M*':
        return M * e, (lambda: np.einsum('ij,njk->nik', M, v())), 'M * %s' % t
    if h == '*M':
        return e * M, (lambda: np.einsum('nij,jk->nik', v(), M)), '%s * M' % t
    if h == 'conj':
        return conjugate(e), (lambda: v().conj()), 'conj(%s)' % t
    if h == 'tr':
        return (transpose(e), (lambda: v().swapaxes(-1, -2)), 'tr(%s)' % t) if R else (e, v, t)

    def inv():
        y = v()
        if not np.isfinite(y).all():
            return y * np.nan
        if R:
            if not (np.linalg.cond(y) < 1e3).all() or not (abs(np.linalg.det(y)) > 1e-6).all():
                return y * np.nan
            return np.linalg.inv(y)
        return 1 / y if abs(y).min() > 1e-3 else y * np.nan
    probe = inv()
    if not np.isfinite(probe).all():
        return e, v, t
    return inverse(e), (lambda: inv()), 'inverse(%s)' % t


def semicircle(z, D, real):
    if real:
        x = z.real
        return 2 / D**2 * (x - 1j * math.sqrt(D * D - x * x) if abs(x) < D else x - math.copysign(math.sqrt(x * x - D * D), x))
    y = abs(z.imag)
    # the branch which decays, through a product of two roots; the conjugate below the real axis
    u = complex(z.real, y)
    s = np.sqrt(u - D + 0j) * np.sqrt(u + D + 0j)
    r = 2 / D**2 * (u - s)
    return r if math.copysign(1, z.imag) > 0 else r.conjugate()


def flat(z, D, real):
    if real:
        x = z.real
        return (math.log(abs(x + D) / abs(x - D)) - (1j * math.pi if abs(x) < D else 0)) / (2 * D)
    return (np.log(z + D + 0j) - np.log(z - D + 0j)) / (2 * D)


# ------------------------------------------------------------------ block functions
class bslot:
    def __init__(self, g, keys, ms, mesh):
        self.g, self.keys, self.ms, self.mesh = g, list(keys), list(ms), mesh


NAMES = ['up', 'down', '0', '1', 'a-b', 'x y', 'G', 'eg', 't2g', 'ud']


def blook(c, slots, what):
    for k, s in enumerate(slots):
        vmon.count('blocks_compared', len(s.keys))
        keys = [n for n, _ in s.g]
        c.check(keys == s.keys and list(s.g.indices) == s.keys and len(s.g) == s.g.n_blocks == len(s.keys), what, ': object', k, 'has blocks', keys, 'expected', s.keys)
        for (n, g), m in zip(s.g, s.ms):
            c.check(s.g[n] is g, what, ': block', n, 'of object', k, 'depends on how it is looked up')
            if g.data.shape != m.shape or np.iscomplexobj(g.data) != np.iscomplexobj(m) or not same_mesh(g.mesh, s.mesh):
                c.check(False, what, ': block', n, 'of object', k, 'is', g.data.shape, g.data.dtype, g.mesh, 'expected', m.shape, m.dtype, s.mesh)
            e = abs(g.data - m)
            if not (e <= TINY * max(1., abs(m).max())).all():
                c.check(False, what, ': block', n, 'of object', k, 'differs by', e.max())
    c.check(True, what)


def brefused(c, f, slots, what, of=Exception):
    c.throws(f, what, of=of)
    blook(c, slots, what + ' was refused')
    vmon.count('block_refusals')


def block_program(c):
    import operator as o
    two = c.chance(.4)
    kind, mesh, other = mesh_pair(c, ['imfreq'] * 4 + ['refreq'] * 2 + ['imtime', 'legendre', 'brzone', 'prod2'])
    ns = len(sizes(mesh))
    freq = kind in ('imfreq', 'refreq')
    n1, n2 = c.i(1, 3 if two else 4), c.i(1, 3)
    names = list(NAMES)
    c.shuffle(names)
    k1, k2 = names[:n1], names[4:4 + n2]
    if two and c.chance(.4):
        k2 = k1[:]
        n2 = n1
    keys = [(a, b) for a in k1 for b in k2] if two else k1
    equal = c.chance(.5)
    t = c.pick([(2, 2), (1, 1), (), (2, 3)])
    shapes = [t if equal else c.pick([(2, 2), (1, 1), (), (3, 3), (2, 3)]) for _ in keys]
    if not equal and len(set(shapes)) == 1:
        equal = True
    c.trace(kind, keys, shapes)
    slots = []
    sq = all(len(x) == 0 or (len(x) == 2 and x[0] == x[1]) for x in shapes)

    def rows(l, m1=None, m2=None):
        m1, m2 = m1 or n1, m2 or n2
        return [list(l[q * m2:(q + 1) * m2]) for q in range(m1)]

    def make(ks, gs, copies, a=None, b=None, **kw):
        """the block function of these keys and blocks"""
        if two:
            a, b = a or k1, b or k2
            if c.chance(.4):
                d = dict(zip(ks, gs))
                return Block2Gf(a, b, lambda x, y: d[x, y], make_copies=copies, **kw)
            return Block2Gf(a if c.chance(.5) else tuple(a), b, rows(gs, len(a), len(b)), make_copies=copies, **kw)
        h = c.i(0, 2)
        if h == 0:
            l, q = list(gs), list(ks)
            r = BlockGf(name_list=q if c.chance(.7) else tuple(q), block_list=l, make_copies=copies, **kw)
            # the lists belong to the caller
            l.reverse(), q.reverse()
            return r
        if h == 1:
            return BlockGf(name_block_generator=zip(ks, gs) if c.chance(.5) else list(zip(ks, gs)), make_copies=copies, **kw)
        return BlockGf(name_list=list(ks), block_list=list(gs), **kw) if not copies else BlockGf(name_list=list(ks), block_list=list(gs), make_copies=True, **kw)

    def add(s):
        slots.append(s)
        if len(slots) > 6:
            slots.pop(c.i(0, 3))
        return s

    def new(me):
        ms = [rnd(c, sizes(me) + x) for x in shapes]
        gs = [Gf(mesh=me.copy() if c.chance(.5) else me, data=m.copy()) for m in ms]
        copies = c.chance(.4)
        name = c.pick(['G', 'S', ''])
        B = make(keys, gs, copies, name=name)
        for k, (g, (n, b)) in enumerate(zip(gs, B)):
            c.check((b is g) != copies, 'blocks of the constructor: copies', copies)
            want = ('%s_%s' % (name, (n,)) if not two else '%s_%s' % (name, n)) if name else str(n)
            c.check(b.name == (want if two else ('%s_%s' % (name, n) if name else n)), 'name of block', n, 'is', b.name)
        if copies:
            for g in gs:
                g.data[...] = 77
        add(bslot(B, keys, ms, me.copy()))
    new(mesh), new(mesh), new(other)
    if not two and c.chance(.4):
        st = [(k, len(x) and x[0]) for k, x in zip(keys, shapes)]
        if all(not x or x[0] == x[1] for x in shapes if len(x) in (0, 2)):
            B = BlockGf(mesh=mesh, gf_struct=st)
            add(bslot(B, keys, [np.zeros(sizes(mesh) + x, complex) for x in shapes], mesh.copy()))
    blook(c, slots, 'construction')
    sig = [kind, two, len(keys), tuple(shapes)]
    for step in range(c.i(3, 10)):
        op = c.pick(['add', 'add', 'scal', 'scal', 'mat', 'mul', 'list', 'assign', 'assign', 'block', 'block', 'lazy', 'copy', 'select', 'select', 'copy_from', 'unary', 'inv', 'pickle', 'map', 'info', 'bad', 'bad'])
        a = c.pick(slots)
        if max(abs(m).max() for m in a.ms) > 1e4:
            a.g.zero()
            for m in a.ms:
                m[...] = 0
            blook(c, slots, 'zero')
            continue
        cplx = all(np.iscomplexobj(m) for m in a.ms)
        ts = [m.shape[ns:] for m in a.ms]
        by = lambda s: dict(zip(s.keys, s.ms))
        fits = [s for s in slots if same_mesh(s.mesh, a.mesh) and set(a.keys) <= set(s.keys) and all(by(s)[k].shape == m.shape and np.iscomplexobj(by(s)[k]) == np.iscomplexobj(m) for k, m in zip(a.keys, a.ms))]
        b = c.pick(fits)
        bm = by(b)
        disjoint = not any(np.shares_memory(m, q) for m in a.ms for q in b.ms)
        c.trace(op, slots.index(a), slots.index(b))
        sig.append(op)
        g = a.g
        if op == 'add':
            h = c.pick(['+', '-', '+=', '-='])
            c.trace(h)
            if h in '+-':
                add(bslot(g + b.g if h == '+' else g - b.g, a.keys, [m + bm[k] if h == '+' else m - bm[k] for k, m in zip(a.keys, a.ms)], a.mesh))
            elif disjoint or a is b:
                if h == '+=':
                    g += b.g
                else:
                    g -= b.g
                for k, m in zip(a.keys, a.ms):
                    m += bm[k].copy() if h == '+=' else -bm[k]
                c.check(g is a.g, h, 'gives another object')
        elif op == 'scal':
            x = number(c, real=not cplx)
            v = complex(x) if cplx else float(x)
            scal = freq and cplx or all(q == () for q in ts)
            h = c.pick(['*', 'r*', '*=', '/', '/=', 'neg'] + (['+', '-', 'r+', 'r-', '+=', '-='] if scal and all(len(q) in (0, 2) for q in ts) else []))
            c.trace(h, repr(x))

            def one(m, q):
                if not q:
                    return v
                r = np.zeros(m.shape, complex)
                k = np.arange(min(q))
                r[..., k, k] = v
                return r
            ones = [one(m, q) for m, q in zip(a.ms, ts)]
            f = {'*': lambda: g * x, 'r*': lambda: x * g, '/': lambda: g / x, 'neg': lambda: -g, '+': lambda: g + x, 'r+': lambda: x + g, '-': lambda: g - x, 'r-': lambda: x - g,
                 '*=': lambda: o.imul(g, x), '/=': lambda: o.itruediv(g, x), '+=': lambda: o.iadd(g, x), '-=': lambda: o.isub(g, x)}[h]
            e = {'*': lambda m, u: m * v, '/': lambda m, u: m / v, 'neg': lambda m, u: -m, '+': lambda m, u: m + u, '-': lambda m, u: m - u, 'r-': lambda m, u: u - m}
            ref = e[{'r*': '*', 'r+': '+', '*=': '*', '/=': '/', '+=': '+', '-=': '-'}.get(h, h)]
            r = f()
            if h.endswith('='):
                c.check(r is g, h, 'gives another object')
                for m, u in zip(a.ms, ones):
                    m[...] = ref(m, u)
            else:
                add(bslot(r, a.keys, [ref(m, u) for m, u in zip(a.ms, ones)], a.mesh))
        elif op == 'mat' and cplx and len(set(ts)) == 1 and len(ts[0]) == 2 and ts[0][0] == ts[0][1]:
            n = ts[0][0]
            M = rnd(c, (n, n), c.chance(.4))
            h = c.pick(['*', 'r*', '*='] + (['+', '-', 'r+', 'r-', '+='] if freq else []))
            c.trace(h)
            if h == '*=':
                g *= M
                for m in a.ms:
                    m[...] = m @ M
            elif h == '+=':
                g += M
                for m in a.ms:
                    m += M
            else:
                r = {'*': lambda: g * M, 'r*': lambda: M * g, '+': lambda: g + M, 'r+': lambda: M + g, '-': lambda: g - M, 'r-': lambda: M - g}[h]()
                e = {'*': lambda m: m @ M, 'r*': lambda m: M @ m, '+': lambda m: m + M, 'r+': lambda m: m + M, '-': lambda m: m - M, 'r-': lambda m: M - m}[h]
                add(bslot(r, a.keys, [e(m) for m in a.ms], a.mesh))
        elif op == 'mul' and cplx and sq and kind != 'imtime' and all(len(q) in (0, 2) for q in ts) and all(len(q) == 0 or q[0] == q[1] for q in ts) and all(np.iscomplexobj(m) for m in b.ms):
            if kind == 'prod2' and any(isinstance(x, MeshImTime) for x in a.mesh.components):
                continue
            e = [mul(m, bm[k], len(q), len(q)) for k, m, q in zip(a.keys, a.ms, ts)]
            if c.chance(.5):
                add(bslot(g * b.g, a.keys, e, a.mesh))
            elif disjoint or a is b:
                g *= b.g
                for m, q in zip(a.ms, e):
                    m[...] = q
        elif op == 'list' and cplx:
            # one number or function for each block
            gs = c.chance(.5)
            l = [rnd(c, m.shape) for m in a.ms] if gs else [number(c) for _ in a.ms]
            arg = [Gf(mesh=a.mesh.copy(), data=x.copy()) for x in l] if gs else l
            h = c.pick(['+=', '-='] if gs else ['/='] + (['+=', '-='] if freq and all(len(q) in (0, 2) for q in ts) else []))
            m2 = len(set(k[1] for k in a.keys)) if two else 1
            if two:
                arg = rows(arg, len(a.keys) // m2, m2)
            if c.chance(.3):
                arg = tuple(arg)
            c.trace(h, gs)
            r = {'+=': o.iadd, '-=': o.isub, '/=': o.itruediv}[h](g, arg)
            c.check(r is g, h, 'with a list gives another object')
            for m, x, q in zip(a.ms, l, ts):
                if h == '/=':
                    m /= x
                else:
                    u = x
                    if not gs and q:
                        u = np.zeros(m.shape, complex)
                        k = np.arange(min(q))
                        u[..., k, k] = x
                    m += u if h == '+=' else -u
            brefused(c, lambda: o.iadd(g, list(arg) + [1]), slots, 'a list which is too long')
        elif op == 'assign':
            if a is b or disjoint:
                if c.chance(.5) or two:
                    r = g << b.g
                    c.check(r is g, '<< gives another object')
                else:
                    g[:] = b.g
                for k, m in zip(a.keys, a.ms):
                    m[...] = bm[k]
        elif op == 'block':
            k = c.i(0, len(a.keys) - 1)
            q = c.i(0, len(b.keys) - 1)
            if b.ms[q].shape == a.ms[k].shape and np.iscomplexobj(b.ms[q]) == np.iscomplexobj(a.ms[k]) and (not np.shares_memory(b.ms[q], a.ms[k]) or b.ms[q] is a.ms[k]):
                if c.chance(.5):
                    g[a.keys[k]] = b.g[b.keys[q]]
                else:
                    g[a.keys[k]] << b.g[b.keys[q]]
                a.ms[k][...] = b.ms[q]
            elif freq and cplx and (ts[k] == () or ts[k][0] == ts[k][1]):
                g[a.keys[k]] = 1.5
                a.ms[k][...] = 1.5 * (np.eye(ts[k][0]) if ts[k] else 1)
        elif op == 'lazy' and freq and cplx and all(q == () or len(q) == 2 and q[0] == q[1] for q in ts):
            y = c.cplx()
            w = freqs(a.mesh)
            e = c.pick([(iOmega_n * y + 1, lambda: w * y + 1), (inverse(Omega + y), lambda: 1 / (w + y)), (SemiCircular(2.), lambda: np.array([semicircle(z, 2., kind == 'refreq') for z in w])),
                        (2, lambda: w * 0 + 2), (Const(y), lambda: w * 0 + y)])
            if abs(w + y).min() > 1e-3 and not any(abs(abs(w.real) - 2) < 1e-9):
                h = c.pick(['<<', '<<', '+=', '-='])
                if h == '<<':
                    r = g << e[0]
                elif h == '+=':
                    r = o.iadd(g, e[0])
                else:
                    r = o.isub(g, e[0])
                c.check(r is g, h, 'with an expression gives another object')
                for m, q in zip(a.ms, ts):
                    u = e[1]().reshape((-1,) + (1,) * len(q)) * (np.eye(q[0]) if q else 1)
                    m[...] = u if h == '<<' else m + u if h == '+=' else m - u
                c.trace(h)
        elif op == 'copy':
            r = g.copy()
            c.check(not any(np.shares_memory(x.data, y.data) for _, x in r for _, y in g), 'a copy shares data')
            add(bslot(r, a.keys, [m.copy() for m in a.ms], a.mesh))
        elif op == 'select':
            view = c.chance(.6)
            if two:
                A, B = [list(dict.fromkeys(k[q] for k in a.keys)) for q in (0, 1)]
                s1, s2 = [x for x in A if c.chance(.6)] or A[:1], [x for x in B if c.chance(.6)] or B[:1]
                ks = [(x, y) for x in s1 for y in s2]
                p1, p2 = s1[:], s2[:]
                c.shuffle(p1), c.shuffle(p2)
                r = (g.view_selected_blocks if view else g.copy_selected_blocks)(p1 if c.chance(.5) else set(p1), p2)
            else:
                ks = [x for x in a.keys if c.chance(.6)] or a.keys[:1]
                p1 = ks[:]
                c.shuffle(p1)
                r = (g.view_selected_blocks if view else g.copy_selected_blocks)(c.pick([list, tuple, set])(p1))
            d = by(a)
            c.trace('view' if view else 'copy', ks)
            add(bslot(r, ks, [d[k] if view else d[k].copy() for k in ks], a.mesh))
            if not two:
                brefused(c, lambda: g.view_selected_blocks(['nowhere']), slots, 'a block which does not exist')
        elif op == 'copy_from':
            l = [s for s in slots if [m.shape for m in s.ms] == [m.shape for m in a.ms] and all(np.iscomplexobj(x) == np.iscomplexobj(y) for x, y in zip(s.ms, a.ms)) and not any(np.shares_memory(x, y) for x in s.ms for y in a.ms)
                 and (not two or [len(set(k[q] for k in s.keys)) for q in (0, 1)] == [len(set(k[q] for k in a.keys)) for q in (0, 1)])]
            # the mesh goes along, for all which share these blocks
            l = [s for s in l if same_mesh(s.mesh, a.mesh)]
            if l:
                s = c.pick(l)
                g.copy_from(s.g)
                for m, q in zip(a.ms, s.ms):
                    m[...] = q
        elif op == 'unary':
            h = c.pick(['conj', 'transpose', 'real', 'imag', 'zero'])
            c.trace(h)
            if h == 'conj' and not two:
                add(bslot(g.conjugate() if c.chance(.5) else conjugate(g), a.keys, [m.conj().copy() for m in a.ms], a.mesh))
            elif h == 'transpose' and not two and ns == 1 and all(len(q) == 2 for q in ts):
                add(bslot(g.transpose() if c.chance(.5) else transpose(g), a.keys, [m.swapaxes(-1, -2).copy() for m in a.ms], a.mesh))
            elif h == 'real':
                add(bslot(g.real, a.keys, [m.real for m in a.ms], a.mesh))
                c.check(slots[-1].g.name == ('Re ' + g.name if g.name else ''), 'name of the real part', slots[-1].g.name)
            elif h == 'imag' and cplx:
                add(bslot(g.imag, a.keys, [m.imag for m in a.ms], a.mesh))
                c.check(slots[-1].g.name == ('Im ' + g.name if g.name else ''), 'name of the imaginary part', slots[-1].g.name)
            elif h == 'zero' and c.chance(.3):
                g.zero()
                for m in a.ms:
                    m[...] = 0
        elif op == 'inv' and not two and cplx and all((q == () and abs(m).min() > 1e-3) or (len(q) == 2 and q[0] == q[1] and (np.linalg.cond(m) < 1e3).all()) for q, m in zip(ts, a.ms)):
            e = [np.linalg.inv(m) if q else 1 / m for m, q in zip(a.ms, ts)]
            if c.chance(.3):
                g.invert()
                for m, x in zip(a.ms, e):
                    m[...] = x
            else:
                add(bslot(g.inverse() if c.chance(.5) else inverse(g), a.keys, e, a.mesh))
        elif op == 'pickle':
            d = g.copy().__reduce_to_dict__()
            if c.chance(.4):
                q = list(d.items())
                c.shuffle(q)
                r = type(g).__factory_from_dict__('N', dict(q))    # a file keeps the groups in another order
                nm = 'N'
            else:
                r = pickle.loads(pickle.dumps(g))
                nm = g.name
            c.check(r.name == nm and type(r) is type(g), 'name of a stored copy', r.name, nm)
            add(bslot(r, a.keys, [m.copy() for m in a.ms], a.mesh))
        elif op == 'map':
            h = c.pick(['fn', 'values'])
            if h == 'fn':
                r = map_block(lambda x: x * 2 + x, g)
                c.check(type(r) is type(g), 'map_block gives a', type(r))
                add(bslot(r, a.keys, [m * 3 for m in a.ms], a.mesh))
            else:
                r = map_block(lambda x: x.data.sum(), g)
                if two:
                    r = [x for y in r for x in y]
                c.close(np.array(r), np.array([m.sum() for m in a.ms]), TINY * 1e4 * max(1, max(abs(m).sum() for m in a.ms)), 'map_block to values')
        elif op == 'info':
            if all(len(q) in (0, 2) for q in ts):
                c.eq(list(g.all_indices), [(k if two else (k,)) + i for k, q in zip(a.keys, ts) for i in np.ndindex(*q)], 'all_indices')
            if kind == 'imfreq' and not two:
                c.eq(g.beta, a.mesh.beta, 'beta')
                sums = [m.sum(0) for m in a.ms]
                d = g.density()
                c.check(list(d) == a.keys, 'blocks of the densities', list(d))
                for k, x in zip(a.keys, sums):
                    c.close(d[k], x, 1e-9, 'density of', k)
                if all(q == () or q[0] == q[1] for q in ts):
                    c.close(g.total_density(), sum(np.trace(x) if x.ndim else x for x in sums), 1e-9, 'total density')
            c.check(repr(g.n_blocks) in repr(g) and (two or all(repr(x) in repr(g) for _, x in g)), 'repr')
            if two:
                c.eq(list(g.indices1), list(dict.fromkeys(k[0] for k in a.keys)), 'indices1')
                c.eq(list(g.indices2), list(dict.fromkeys(k[1] for k in a.keys)), 'indices2')
        elif op == 'bad':
            bad_key = ('nowhere', a.keys[0][1]) if two else 'nowhere'
            brefused(c, lambda: g[bad_key], slots, 'a block which does not exist', IndexError)
            brefused(c, lambda: g.__setitem__(bad_key, 1), slots, 'assignment to a block which does not exist', IndexError)
            # another structure: one block with another shape, mesh or name, mostly not the first one
            j = c.pick([len(a.keys) - 1, len(a.keys) - 1, c.i(0, len(a.keys) - 1)])
            how = c.pick(['shape', 'mesh', 'name'])
            gs, ks = [], list(a.keys)
            for k, m in enumerate(a.ms):
                me = a.mesh.copy()
                d = rnd(c, m.shape)
                if k == j and how == 'shape':
                    d = rnd(c, m.shape[:ns] + c.pick([(4, 4), (3,)]))
                if k == j and how == 'mesh':
                    me = (other if same_mesh(mesh, me) else mesh).copy()
                gs.append(Gf(mesh=me, data=d))
            if two:
                A, B = [list(dict.fromkeys(k[q] for k in a.keys)) for q in (0, 1)]
                if how == 'name':
                    A[-1] = 'nowhere'
                    ks = [(x, y) for x in A for y in B]
                w = make(ks, gs, False, A, B)
            else:
                if how == 'name':
                    ks[j] = 'nowhere'
                w = make(ks, gs, False)
            fs = [lambda: g << w, lambda: o.iadd(g, w), lambda: o.isub(g, w), lambda: g + w, lambda: g - w]
            if how == 'mesh' and not any(isinstance(x, MeshImTime) for x in (mesh.components if ns > 1 else [mesh])) or how == 'name':
                fs += [lambda: o.imul(g, w)]
            if how == 'shape':
                fs += [lambda: g.copy_from(w)] * 2
            c.trace(how, j)
            brefused(c, c.pick(fs), slots, 'an operation with another structure (%s)' % how)
            # more or fewer blocks
            if not two:
                w = BlockGf(name_list=a.keys + ['more'], block_list=[Gf(mesh=a.mesh.copy(), data=m + 0j) for m in a.ms + a.ms[-1:]])
                brefused(c, lambda: g.copy_from(w), slots, 'copy_from with more blocks')
                brefused(c, lambda: w.copy_from(g), slots, 'copy_from with fewer blocks')
                brefused(c, lambda: w << g, slots, 'assignment of fewer blocks')
            brefused(c, lambda: g <= g if not two else g + 'text', slots, 'comparison')
        blook(c, slots, op)
    c.nontrivial(*sig)


def bad_blocks(c):
    """constructors refuse what has no meaning"""
    m = MeshImFreq(beta=1., S='Fermion', n_iw=c.i(1, 3))
    new = lambda *t: Gf(mesh=m, target_shape=list(t))
    c.throws(lambda: BlockGf(name_list=['a', 'a'], block_list=[new(1, 1), new(1, 1)]), 'equal names')
    c.throws(lambda: BlockGf(name_list=['a', 'b'], block_list=[new(1, 1)]), 'fewer blocks than names')
    c.throws(lambda: BlockGf(name_list=['__a'], block_list=[new(1, 1)]), 'a reserved name')
    c.throws(lambda: BlockGf(name_list=['block_names'], block_list=[new(1, 1)]), 'a reserved name')
    c.throws(lambda: BlockGf(name_list=[1], block_list=[new(1, 1)]), 'a name which is a number')
    c.throws(lambda: BlockGf(name_list=[], block_list=[]), 'no blocks')
    c.throws(lambda: BlockGf(name_list=['a']), 'names alone')
    c.throws(lambda: Block2Gf(['a'], ['b', 'b'], [[new(1, 1), new(1, 1)]]), 'equal names')
    c.throws(lambda: Block2Gf(['a'], ['b', 'c'], [[new(1, 1)]]), 'a row which is too short')
    c.throws(lambda: Block2Gf(['a', 'b'], ['c'], [[new(1, 1)]]), 'rows missing')
    c.throws(lambda: Block2Gf([], ['c'], []), 'no blocks')
    c.throws(lambda: Gf(mesh=m), 'neither shape nor data')
    c.throws(lambda: Gf(mesh=m, target_shape=[1], data=np.zeros((len(m), 1))), 'both shape and data')
    c.throws(lambda: Gf(mesh=m, target_shape=[0, 1]), 'an empty shape')
    c.throws(lambda: Gf(mesh=m, data=np.zeros((len(m) + 1, 1))), 'data of another size')
    c.throws(lambda: Gf(mesh='x', target_shape=[1]), 'not a mesh')
    c.throws(lambda: map_block(lambda x: x, new(1, 1)), 'map_block of a function')
    st = [('a', c.i(1, 3)), ('b', c.i(1, 3))]
    with redirect_stdout(io.StringIO()):
        c.eq(fix_gf_struct_type(dict(st)), st, 'structure given as a dict')
        c.eq(fix_gf_struct_type([(k, list(range(n))) for k, n in st]), st, 'structure given with lists of indices')
    c.check(fix_gf_struct_type(st) is st, 'a good structure is kept')
    r = c.i(1, 3)
    B = BlockGf(mesh=m, gf_struct=st, target_rank=r)
    c.eq([(k, g.target_shape) for k, g in B], [(k, (n,) * r) for k, n in st], 'structure with a rank')
    B = BlockGf(block_list=[new(1, 1), new(2, 2)])
    c.eq(list(B.indices), ['0', '1'], 'default names')
    c.nontrivial(len(m), st, r)


# ------------------------------------------------------------------ lazy expressions on their own
class term(lazy_expressions.LazyExprTerminal):
    def __init__(self, n):
        self.n = n

    def __str__(self):
        return self.n
    __repr__ = __str__


def lazy_alone(c):
    env = {'abcdeg'[k]: c.i(-9, 9) + .5 for k in range(6)}
    fn = {'f': lambda x: 2 * x + 1, 'h': lambda x, y: x - 3 * y}
    lf = {k: lazy_expressions.lazy_function(k, v) for k, v in fn.items()}
    terms = {k: term(k) for k in env}
    look = lambda t: env[t.n] if isinstance(t, term) else t

    def tree(d):
        """(expression, value, all the terminals in order)"""
        h = c.pick(['t', 'n'] if d == 0 else ['+', '-', '*', '/', '+', '-', '*', '-', 'f', 'h', 't', 'n'])
        if h == 't':
            k = c.pick('abcdeg')
            return terms[k], env[k]
        if h == 'n':
            x = c.i(1, 9)
            return LazyExpr(x), x
        if h == 'f':
            e, v = tree(d - 1)
            return lf['f'](e), fn['f'](v)
        if h == 'h':
            (e, v), (e2, v2) = tree(d - 1), tree(d - 1)
            return lf['h'](e, e2), fn['h'](v, v2)
        (e, v), (e2, v2) = tree(d - 1), tree(d - 1)
        if isinstance(e, term) and isinstance(e2, term) and c.chance(.2):
            e2 = v2 = c.i(1, 5)
        if c.chance(.1):
            e = v = c.i(1, 7)
            if not isinstance(e2, (LazyExpr, term)):
                e2, v2 = terms['a'], env['a']
        if h == '/' and v2 == 0:
            h = '+'
        return {'+': lambda: (e + e2, v + v2), '-': lambda: (e - e2, v - v2), '*': lambda: (e * e2, v * v2), '/': lambda: (e / e2, v / v2)}[h]()
    e, v = tree(c.i(1, 5))
    e = LazyExpr(e)
    tol = 1e-9 * max(1., abs(v))
    if not abs(v) < 1e12:
        return
    ev = lambda x: eval_expr_with_context(look, x)
    c.close(ev(e), v, tol, 'value')
    s = str(e)
    c.trace(s)
    c.check(s == repr(e), 'str and repr')
    try:
        w = eval(s, dict(env, **fn))
    except Exception as x:
        c.check(False, 'the printed expression', s, 'cannot be read:', repr(x))
        return
    # cancellation makes the two orders of evaluation differ by roundings of larger numbers
    c.close(w, v, max(tol, 1e-6), 'value of the printed expression', s)
    # copies are independent
    k = e.copy()
    c.close(ev(k), v, tol, 'value of a copy')
    c.check(str(k) == s, 'text of a copy')
    big = e * 2 + k
    x = c.i(1, 5)
    h = c.pick(['+=', '-=', '*=', '/='])
    old = e
    if h == '+=':
        e += x
        r = v + x
    elif h == '-=':
        e -= x
        r = v - x
    elif h == '*=':
        e *= x
        r = v * x
    else:
        e /= x
        r = v / x
    c.check(e is old, h, 'gives another object')
    c.close(ev(e), r, 5 * tol, 'value after', h)
    c.close(ev(k), v, tol, 'value of the copy after', h)
    c.close(ev(big), 3 * v, 5 * tol, 'value of another expression after', h)
    t = terms['a']
    t += 1
    c.close(ev(t), env['a'] + 1, 1e-12, 'in-place sum of a terminal')
    c.check(str(terms['a']) == 'a', 'terminal is unchanged')
    # transformations
    m = lazy_expressions.transform(k, lambda tag, ch: (tag, ch), lambda y: 3 * env[y.n] if isinstance(y, term) else y)
    env2 = {q: 3 * y for q, y in env.items()}
    try:
        ref = eval_expr_with_context(lambda y: env2[y.n] if isinstance(y, term) else y, k)
    except ZeroDivisionError:
        return
    c.close(eval_expr_with_context(lambda y: y, m), ref, 1e-9 * max(1., abs(ref)), 'transformed terminals')
    neg = lazy_expressions.transform(k, lambda tag, ch: ({'+': '-', '-': '+'}.get(tag, tag), ch))
    back = lazy_expressions.transform(neg, lambda tag, ch: ({'+': '-', '-': '+'}.get(tag, tag), ch))
    c.check(str(back) == s and str(k) == s, 'transformation there and back')
    c.check((k.get_terminal() is not None) == k.is_terminal(), 'is_terminal')
    c.throws(lambda: LazyExpr(), 'an empty expression')
    c.throws(lambda: eval_expr(k), 'a purely abstract expression', of=ValueError)
    c.check(eval_expr(env) is env, 'eval_expr of something else')
    vmon.count('expressions')
    c.nontrivial(s)


def eval_context(c):
    kind, mesh, other = mesh_pair(c, ['imfreq', 'refreq'])
    ts = c.pick([(2, 2), (1, 1), (), (3, 3)])
    g = slot(Gf(mesh=mesh.copy(), data=rnd(c, sizes(mesh) + ts)), None, mesh)
    g.m = g.g.data.copy()
    h = slot(Gf(mesh=mesh.copy(), data=rnd(c, sizes(mesh) + ts)), None, mesh)
    h.m = h.g.data.copy()
    e, v, txt = expression(c, mesh, ts, [g, h], c.i(0, 3))
    r = v()
    if not np.isfinite(r).all() or abs(r).max() > 1e8:
        return
    # the context comes from a terminal
    big = LazyExpr(g.g) * 1 + e - LazyExpr(g.g)
    x = eval_expr(big)
    c.check(isinstance(x, Gf), 'eval_expr gives', type(x))
    c.close(x.data, r, TINY * 100 * max(1, abs(r).max()), 'eval_expr of', txt)
    c.check(abs(g.g.data - g.m).max() == 0 and abs(h.g.data - h.m).max() == 0, 'operands are unchanged')
    o = Gf(mesh=other.copy(), target_shape=list(ts))
    c.throws(lambda: eval_expr(LazyExpr(g.g) * 1 + LazyExpr(o)), 'terminals on different meshes', of=ValueError)
    c.nontrivial(kind, ts, txt)


# ------------------------------------------------------------------ initializers
TIMES = ('imfreq', 'refreq', 'dlrw', 'imtime', 'retime')


def descriptors_all(c):
    kind, mesh, _ = mesh_pair(c, ['imfreq', 'refreq', 'dlrw', 'imfreq', 'refreq', 'imtime', 'legendre', 'retime', 'brzone', 'dlr'])
    ts = c.pick([(), (1, 1), (2, 2), (3, 3)])
    R = len(ts)
    eye = np.eye(ts[0]) if R else np.array(1.)
    over = lambda f: np.asarray(f).reshape((-1,) + (1,) * R) * eye
    d0 = rnd(c, sizes(mesh) + ts)
    g = Gf(mesh=mesh.copy(), data=d0.copy())
    h = c.pick(['omega', 'semi', 'flat', 'const', 'constM', 'scalar', 'scalarM', 'function', 'fermion', 'fourier', 'legendre', 'matsubara'])
    freq = kind in ('imfreq', 'refreq', 'dlrw')
    w = freqs(mesh) if kind in TIMES else np.zeros(len(mesh))
    D, mu, y = c.pick([.5, 1., 2.2]), c.pick([0., .3, -.7]), c.cplx()
    M = rnd(c, ts)
    if h in ('fourier', 'legendre', 'matsubara'):
        name = {'fourier': 'fourier', 'legendre': 'from_legendre', 'matsubara': 'from_imfreq'}[h]
        src = Gf(mesh=MeshImTime(beta=2., S='Fermion', n_tau=c.i(2, 6)), target_shape=list(ts))
        src.data[...] = rnd(c, src.data.shape)
        args = (rnd(c, (2,)),) if h == 'fourier' and c.chance(.5) else ()
        cls = {'fourier': Fourier, 'legendre': LegendreToMatsubara, 'matsubara': MatsubaraToLegendre}[h]
        keep = src.data.copy()
        want = g.copy()
        gf_fnt._transform(name, want, src, args)
        block = c.chance(.5)
        if not block:
            dsc = cls(src, *args)
            n = len(gf_fnt._calls)
            for rep in range(2):
                g.data[...] = 9
                r = g << dsc
                c.close(g.data, want.data, TINY * 10, h, 'assigned, time', rep)
            c.check(len(gf_fnt._calls) == n + 2 and gf_fnt._calls[-1][0] == name, h, 'transforms exactly once')
        else:
            k = c.i(1, 3)
            names = ['b%d' % q for q in range(k)]
            S = BlockGf(name_list=names, block_list=[src * (q + 1) for q in range(k)])
            B = BlockGf(name_list=names, block_list=[g.copy() for q in range(k)])
            dsc = cls(S, *args)
            for rep in range(2):
                for _, b in B:
                    b.data[...] = 9
                r = B << dsc
                for q, (_, b) in enumerate(B):
                    t = g.copy()
                    gf_fnt._transform(name, t, src * (q + 1), args)
                    c.close(b.data, t.data, TINY * 10, h, 'of block', q, 'time', rep)
            more = BlockGf(name_list=names + ['z'], block_list=[g.copy() for q in range(k + 1)])
            c.throws(lambda: more << dsc, 'a descriptor with fewer blocks')
            c.check(all((b.data == d0).all() for _, b in more), 'refused, but the function changed')
        del gf_fnt._calls[:]
        c.check((src.data == keep).all(), 'the source is unchanged')
        c.nontrivial(kind, h, ts, block, len(args))
        return
    with redirect_stdout(io.StringIO()):
        e = {'omega': lambda: c.pick([iOmega_n, Omega]), 'semi': lambda: SemiCircular(D, mu), 'flat': lambda: Flat(D), 'const': lambda: Const(y), 'constM': lambda: Const(M) if R else Const(y),
             'scalar': lambda: c.pick([y, y.real, np.float64(y.real), c.i(1, 3), np.complex128(y)]), 'scalarM': lambda: M if R else y, 'function': lambda: Function((lambda z: (z * z + 1) * M) if kind in TIMES else (lambda z: M)), 'fermion': lambda: OneFermionInTime(y.real)}[h]()
        c.trace(h, kind, D, mu)
        ok = freq if h not in ('function', 'fermion') else (kind == 'imtime' if h == 'fermion' else True)
        if not ok:
            c.throws(lambda: g << e, h, 'on the mesh', kind)
            c.check((g.data == d0).all(), h, 'refused, but the function changed')
            vmon.count('refusals')
            c.nontrivial(kind, h, ts)
            return
        real = kind == 'refreq'
        if h == 'flat' and real and min(abs(abs(w.real) - D)) < 1e-9:
            return
        ref = {'omega': lambda: over(w), 'semi': lambda: over([semicircle(z + mu, D, real) for z in w]), 'flat': lambda: over([flat(z, D, real) for z in w]), 'const': lambda: over(np.full(len(w), y)),
               'constM': lambda: np.broadcast_to(M if R else y, d0.shape), 'scalar': lambda: over(np.full(len(w), complex(e))), 'scalarM': lambda: np.broadcast_to(M if R else y, d0.shape),
               'function': lambda: (w * w + 1 if kind in TIMES else np.ones(len(mesh))).reshape((-1,) + (1,) * R) * M,
               'fermion': lambda: over([-np.exp(-y.real * t.real) / (1 + np.exp(-y.real * mesh.beta)) for t in w])}[h]()
        r = g << e if c.chance(.6) else g.__setitem__(slice(None), e) or g
    c.check(r is g, 'assignment gives another object')
    c.close(g.data, ref, 1e-10 * max(1, abs(ref).max()), h, 'on', kind)
    if h in ('semi', 'flat', 'omega'):
        c.check(isinstance(str(e), str) and (h == 'omega' or repr(D) in str(e)), 'text of', h)
    # the physics: decays as 1/w with the norm one, has negative spectral function
    if h in ('semi', 'flat') and kind in ('imfreq', 'dlrw') and R:
        x = np.sign(w.imag) * g.data[:, 0, 0].imag
        c.check((x[w.imag != 0] < 0).all(), 'sign of the imaginary part')
    if h in ('semi', 'flat') and real:
        x = g.data.reshape(len(w), -1)[:, 0].imag
        c.check((x <= 0).all() and (x[abs(w.real + (mu if h == 'semi' else 0)) > D] == 0).all(), 'spectral function')
    c.nontrivial(kind, h, ts)


# ------------------------------------------------------------------ tools
def tools(c):
    h = c.pick(['dyson', 'dyson', 'delta', 'make_delta', 'make_delta', 'txt', 'zero_tail', 'legendre', 'numbers', 'density', 'compat', 'compat', 'xview', 'xview', 'mesh'])
    c.trace(h)
    if h == 'dyson':
        kind, mesh, _ = mesh_pair(c, ['imfreq', 'refreq'])
        ts = c.pick([(), (1, 1), (2, 2), (3, 3)])
        two = c.chance(.4)
        R = len(ts)
        inv = lambda a: np.linalg.inv(a) if R else 1 / a
        n = c.i(1, 3) if two else 1
        off = 3 * np.eye(ts[0]) if R else 3
        g0 = [rnd(c, sizes(mesh) + ts) + off for _ in range(n)]
        s = [rnd(c, sizes(mesh) + ts) * .1 for _ in range(n)]
        if not all((np.linalg.cond(x) < 1e3).all() if R else abs(x).min() > 1e-2 for x in g0) or not all((np.linalg.cond(inv(x) - q) < 1e3).all() if R else abs(inv(x) - q).min() > 1e-2 for x, q in zip(g0, s)):
            return
        gg = [inv(inv(x) - q) for x, q in zip(g0, s)]
        mk = lambda l: Gf(mesh=mesh.copy(), data=l[0].copy()) if not two else BlockGf(name_list=['b%d' % q for q in range(n)], block_list=[Gf(mesh=mesh.copy(), data=x.copy()) for x in l])
        d = {'G0_iw': g0, 'G_iw': gg, 'Sigma_iw': s}
        k = c.pick(list(d))
        a = {q: mk(x) for q, x in d.items() if q != k}
        r = dyson(**a)
        arr = lambda r: [r.data] if not two else [x.data for _, x in r]
        c.close(np.array(arr(r)), np.array(d[k]), 1e-8, 'dyson for', k)
        for q, x in a.items():
            c.check(all((u == v).all() for u, v in zip(arr(x), d[q])), 'operand', q, 'of dyson changed')
        c.throws(lambda: dyson(G0_iw=1, G_iw=1, Sigma_iw=1), 'three functions', of=ValueError)
        c.throws(lambda: dyson(G0_iw=1), 'one function', of=ValueError)
        c.throws(lambda: dyson(G0_iw=1, G=1), 'a wrong name', of=ValueError)
        c.nontrivial(h, k, ts, two, kind)
    elif h == 'delta':
        m = MeshImFreq(beta=10., S='Fermion', n_iw=c.i(40, 90))
        ts = c.pick([(1, 1), (2, 2), ()])
        R = len(ts)
        n = ts[0] if R else 1
        V = c.array(n, 2, cplx=R > 0)
        eps = np.array([c.r(-1, 1), c.r(-1, 1)])
        e0 = c.array(n, n)
        e0 = e0 + e0.T
        w = freqs(m)
        D = np.einsum('aj,wj,bj->wab', V, 1 / (w[:, None] - eps), V.conj())
        G0 = np.linalg.inv(w[:, None, None] * np.eye(n) - e0 - D)
        g = Gf(mesh=m, data=G0 if R else G0[:, 0, 0].copy())
        k = g.copy()
        blk = c.chance(.3)
        with redirect_stdout(io.StringIO()):
            r = delta(BlockGf(name_list=['a'], block_list=[g]))['a'] if blk else delta(g)
        c.close(r.data, D if R else D[:, 0, 0], 3e-3, 'hybridisation')
        c.check((g.data == k.data).all(), 'operand of delta changed')
        c.throws(lambda: delta(g * (1 + 1j)), 'a function which is not Hermitian')
        c.throws(lambda: delta(Gf(mesh=MeshReFreq(window=(0, 1), n_w=3), target_shape=[1, 1])), 'delta on the real axis')
        c.nontrivial(h, ts, blk, len(m))
    elif h == 'make_delta':
        nb, no = c.i(1, 4), c.i(1, 3)
        b = c.pick([1., 10., 100.])
        m = c.pick([lambda: MeshImFreq(beta=b, S='Fermion', n_iw=c.i(1, 6)), lambda: MeshImTime(beta=b, S='Fermion', n_tau=c.i(2, 9))])()
        cnt = c.i(1, 3)
        V = [c.array(no, nb, cplx=c.chance(.6)) for _ in range(cnt)]
        E = [np.array([c.r(-9, 9) for _ in range(nb)]) for _ in range(cnt)]
        w = freqs(m)

        def ref(V, E):
            if isinstance(m, MeshImFreq):
                f = 1 / (w[:, None] - E)
            else:
                t = w.real[:, None]
                f = -np.where(E > 0, np.exp(-t * np.maximum(E, 0)) / (1 + np.exp(-b * abs(E))), np.exp((b - t) * np.minimum(E, 0)) / (1 + np.exp(-b * abs(E))))
            return np.einsum('aj,wj,bj->wab', V, f, V.conj())
        e = lambda x: c.pick([lambda: x, lambda: x.tolist(), lambda: tuple(x.tolist())])()
        if cnt == 1 and c.chance(.7):
            r = make_delta(V[0], e(E[0]), m)
            c.close(r.data, ref(V[0], E[0]), 1e-10 * 9, 'hybridisation of a bath')
        else:
            nm = ['x%d' % q for q in range(cnt)] if c.chance(.5) else None
            r = make_delta(V, [e(x) for x in E], m, nm)
            c.eq(list(r.indices), nm or [str(q) for q in range(cnt)], 'names')
            for (k, x), v, q in zip(r, V, E):
                c.close(x.data, ref(v, q), 1e-10 * 9, 'hybridisation of block', k)
        c.throws(lambda: make_delta(V[0], [1.] * (nb + 1), m), 'energies which do not fit')
        c.nontrivial(h, nb, no, b, cnt, len(m))
    elif h == 'txt':
        import tempfile
        n, p = c.i(1, 3), c.i(2, 6)
        m = MeshReFreq(window=(c.r(-3, 0), c.r(.1, 3)), n_w=p)
        g = Gf(mesh=m, data=rnd(c, (p, n, n)), name='g')
        d = tempfile.mkdtemp()
        old = os.getcwd()
        os.chdir(d)
        try:
            write_gf_to_txt(g)
            r = read_gf_from_txt([['g_%d_%d.dat' % (i, j) for j in range(n)] for i in range(n)], 'b')
            c.close(r.data, g.data, 1e-14, 'written and read')
            c.check(abs(freqs(r.mesh) - freqs(m)).max() < 1e-14 and r.name == 'b', 'mesh and name')
            im = MeshImFreq(beta=3., S=c.pick(['Fermion', 'Boson']), n_iw=c.i(1, 3))
            g = Gf(mesh=im, data=rnd(c, (len(im), n, n)), name='m')
            write_gf_to_txt(g)
            q = np.loadtxt('m_0_%d.dat' % (n - 1), ndmin=2)
            c.close(q[:, 0] + q[:, 1] * 1j + q[:, 2] * 1e3, freqs(im).imag + g.data[:, 0, n - 1].real * 1j + g.data[:, 0, n - 1].imag * 1e3, 1e-10, 'columns')
            c.throws(lambda: write_gf_to_txt(Gf(mesh=MeshImTime(beta=1., S='Fermion', n_tau=3), target_shape=[1, 1])), 'times', of=ValueError)
        finally:
            os.chdir(old)
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))
            os.rmdir(d)
        c.nontrivial(h, n, p)
    elif h == 'zero_tail':
        kind, m, _ = mesh_pair(c, ['imfreq', 'refreq', 'imtime', 'retime', 'legendre'])
        ts = c.pick([(), (2, 2), (3,), (2, 1, 2)])
        g = Gf(mesh=m, target_shape=list(ts))
        k = c.i(0, 12)
        if kind == 'legendre':
            c.throws(lambda: make_zero_tail(g), 'tail of a legendre function')
        else:
            t = make_zero_tail(g, k)
            c.check(t.shape == (max(1, k),) + ts and (t == 0).all() and t.dtype == complex, 'tail', t.shape)
            t = make_zero_tail(BlockGf(name_list=['a', 'b'], block_list=[g, g.copy()]), k)
            c.check(len(t) == 2 and t[1].shape == (max(1, k),) + ts, 'tails of blocks')
        c.nontrivial(h, kind, ts, k)
    elif h == 'legendre':
        b, n = c.pick([1., 10.]), c.i(1, 3)
        order = c.i(1, 6)
        m = MeshImTime(beta=b, S='Fermion', n_tau=c.i(8, 40))
        co = rnd(c, (order, n, n))
        co = co + co.swapaxes(1, 2).conj()
        x = 2 * freqs(m).real / b - 1
        P = np.polynomial.legendre.legvander(x, order - 1)
        sc = np.sqrt(2 * np.arange(order) + 1) / b
        g = Gf(mesh=m, data=np.einsum('tl,l,lab->tab', P, sc, co))
        a = rnd(c, (n, n))
        if c.chance(.5):
            g.data[...] += a - a.T.conj()    # only the Hermitian part is fitted
        blk = c.chance(.3)
        r = fit_legendre(BlockGf(name_list=['a'], block_list=[g]), order)['a'] if blk else fit_legendre(g, order)
        c.close(r.data, co, 1e-8, 'coefficients')
        c.check(isinstance(r.mesh, MeshLegendre) and r.mesh.beta == b and r.mesh.statistic == 'Fermion', 'mesh')
        c.nontrivial(h, b, n, order, len(m))
    elif h == 'numbers':
        x = c.cplx() + 2
        c.close(inverse(x), 1 / x, 1e-14, 'inverse of a number')
        c.throws(lambda: conjugate(3), 'conjugate of a number') if not hasattr(3, 'conjugate') else c.eq(conjugate(x), x.conjugate(), 'conjugate of a number')
        c.nontrivial(h, x)
    elif h == 'density':
        m = MeshImFreq(beta=3., S='Fermion', n_iw=c.i(1, 4))
        ts = c.pick([(), (1, 1), (3, 3)])
        g = Gf(mesh=m, data=rnd(c, (len(m),) + ts))
        d = g.density()
        c.close(d, g.data.sum(0), 1e-10, 'density')
        c.close(g.total_density(), np.trace(g.data.sum(0)) if ts else g.data.sum(), 1e-10, 'total density')
        k = rnd(c, (3,))
        del gf_fnt._calls[:]
        g.density(k)
        g.total_density(k)
        c.check(len(gf_fnt._calls) == 2 and all(q[2][0] is k for q in gf_fnt._calls), 'arguments reach the function')
        del gf_fnt._calls[:]
        c.nontrivial(h, ts, len(m))
    elif h == 'compat':
        n, b, st = c.i(1, 5), c.pick([1., 10, 3.5]), c.pick(['Fermion', 'Boson'])
        kind = c.pick(['imfreq', 'imtime', 'legendre', 'refreq', 'retime'])
        win = (c.r(-2, 0), c.r(.1, 2))
        p = n + 1
        cls, mk = {'imfreq': (GfImFreq, lambda: MeshImFreq(beta=b, S=st, n_iw=p)), 'imtime': (GfImTime, lambda: MeshImTime(beta=b, S=st, n_tau=p)), 'legendre': (GfLegendre, lambda: MeshLegendre(beta=b, S=st, max_n=p)),
                   'refreq': (GfReFreq, lambda: MeshReFreq(window=win, n_w=p)), 'retime': (GfReTime, lambda: MeshReTime(window=win, n_t=p))}[kind]
        m = mk()
        kw = dict(name='q')
        how = c.pick(['mesh', 'numbers'])
        kw.update(dict(mesh=m) if how == 'mesh' else dict(n_points=p, **(dict(beta=b, statistic=st) if kind in ('imfreq', 'imtime', 'legendre') else dict(window=win))))
        sh = c.pick(['shape', 'indices', 'indices2', 'data'])
        data = rnd(c, (len(m), n, n))
        kw.update({'shape': dict(target_shape=[n, n]), 'indices': dict(indices=list(range(n)) if c.chance(.5) else ['o%d' % q for q in range(n)]), 'indices2': dict(indices=[list(range(n)), list(range(n))]), 'data': dict(data=data)}[sh])
        real = sh != 'data' and c.chance(.3)
        if real:
            kw['is_real'] = True
            data = data.real
        g = cls(**kw)
        c.check(np.iscomplexobj(g.data) != real, 'type of an old function')
        c.check(same_mesh(g.mesh, m) and g.data.shape == (len(m), n, n) and g.name == 'q' and isinstance(g, Gf), 'old constructor', kind, g.mesh, g.data.shape)
        if sh == 'data':
            c.check((g.data == data).all(), 'data')
        else:
            c.check((g.data == 0).all(), 'zero')
            g.data[...] = data
        r = g * 2 + g.copy()
        c.close(r.data, 3 * data, 1e-12, 'arithmetic of an old function')
        x = Gf(mesh=m, target_shape=[n, n], is_real=real)
        x << g
        c.check((x.data == data).all(), 'assignment of an old function')
        x = pickle.loads(pickle.dumps(g))
        c.check((x.data == data).all() and x.name == 'q', 'stored old function')
        wrong = MeshReFreq(window=(0., 1.), n_w=2) if kind != 'refreq' else MeshReTime(window=(0., 1.), n_t=2)
        c.throws(lambda: cls(mesh=wrong, target_shape=[1, 1]), 'mesh of another kind')
        c.throws(lambda: cls(target_shape=[1, 1]), 'no mesh')
        c.nontrivial(h, kind, how, sh, n)
    elif h == 'xview':
        kind, m, _ = mesh_pair(c, ['imfreq', 'refreq', 'imtime', 'retime', 'dlrw'])
        ts = c.pick([(), (1, 1), (2, 2), (1, 1), (2,)])
        g = Gf(mesh=m, data=rnd(c, (len(m),) + ts))
        w = freqs(m)
        x = w.imag if kind in ('imfreq', 'dlrw') else w.real
        if kind == 'dlrw' and not (np.diff(x) > 0).all():
            return
        q = sorted([c.r(x.min() - 1, x.max() + 1), c.r(x.min() - 1, x.max() + 1)])
        if c.chance(.3):
            q = sorted([c.pick(x.tolist()), c.pick(x.tolist())])
        win = c.chance(.7)
        fl = c.chance(.5)
        X, Y = g.x_data_view(x_window=tuple(q) if win else None, flatten_y=fl)
        s = (x >= q[0]) & (x <= q[1]) if win else np.ones(len(x), bool)
        c.check(X.shape == x[s].shape and np.asarray(X).dtype.kind in 'fi', 'points', X.shape, X.dtype)
        c.close(X, x[s], 1e-13, 'points')
        ref = g.data[s]
        if fl and ts == (1, 1):
            ref = ref[:, 0, 0]
        c.check(Y.shape == ref.shape and (Y == ref).all(), 'values in a window', Y.shape)
        c.nontrivial(h, kind, ts, win, fl)
    else:
        k, m, o = mesh_pair(c, ['prod2', 'prod3'])
        c.check(m == m.copy() and not m == o and not m == m.components[0] and not m == None, 'comparison of product meshes')    # noqa
        c.eq(len(m), int(np.prod(sizes(m))), 'size')
        c.eq(len(list(m)), len(m), 'points')
        x = m.copy()
        x.copy_from(o)
        c.check(x == o and not x == m, 'copy_from of product meshes')
        y = pickle.loads(pickle.dumps(m))
        c.check(y == m and y.rank == len(m.components), 'stored mesh')
        idx = [c.i(0, n - 1) for n in sizes(m)]
        c.eq(list(m.to_data_index([q.to_index(i) for q, i in zip(m.components, idx)])), idx, 'indices')
        c.nontrivial(h, k, idx)


def bath(c):
    """functions of a bath which can be represented exactly"""
    b = 10.
    im = c.chance(.5)
    m = MeshImFreq(beta=b, S='Fermion', n_iw=c.i(20, 40)) if im else MeshImTime(beta=b, S='Fermion', n_tau=c.i(40, 60))
    no = c.pick([1, 1, 2])
    scalar = no == 1 and c.chance(.4)
    cx = c.chance(.4)
    nb = no * c.i(1, 2)
    V, E = c.array(no, nb), np.array(sorted(c.r(-2, 2) for _ in range(nb)))
    d = make_delta(V, E, m)
    d = d[0, 0].copy() if scalar else d
    h = c.pick(['none', 'float', 'array', 'complex'] if cx else ['none', 'float', 'array'])
    noise = h != 'none' and c.chance(.5)    # the guess needs a positive first moment
    if noise:
        d.data[...] += rnd(c, d.data.shape) * .01
        if im:
            d = make_real_in_tau(d)
            d.data[...] = .5 * (d.data + (d.data if scalar else d.data.swapaxes(1, 2)))
    keep = d.copy()
    V0 = {'none': None, 'float': .4, 'array': np.array(V) + .1 * c.array(no, nb, cplx=cx), 'complex': .3 + .2j}[h]
    e0 = c.pick([1.5, [float(x) + .1 for x in E], np.array(E) - .1])
    e1 = np.linspace(-e0, e0, nb) if isinstance(e0, float) else np.array(e0)
    c.trace(type(m).__name__, no, nb, 'scalar' if scalar else '', 'complex' if cx else '', h, e0, noise)
    with redirect_stdout(io.StringIO()):
        Vo, eo, do = discretize_bath(d, nb, eps0=e0, V0=V0, cmplx=cx, maxiter=40, tol=1e-10)
    c.check((d.data == keep.data).all(), 'the function to fit changed')
    c.check(Vo.shape == (no, nb) and eo.shape == (nb,) and (np.diff(eo) >= 0).all(), 'shapes and order', Vo.shape, eo)
    c.check(np.iscomplexobj(Vo) == cx, 'type of the hoppings')
    r = make_delta(Vo, eo, m)
    r = r[0, 0] if scalar else r
    c.close(do.data, r.data, 1e-12, 'the function returned is that of the bath returned')
    her = .5 * (d.data + ((d.data[::-1] if im else d.data) if scalar else (d.data[::-1] if im else d.data).swapaxes(1, 2)).conj())
    norm = lambda q: np.linalg.norm((q if not scalar else q) - her) / np.sqrt(len(m))
    if V0 is not None:
        s = make_delta(V0 if isinstance(V0, np.ndarray) else V0 * np.ones((no, nb)), e1, m)
        s = s[0, 0] if scalar else s
        c.check(norm(do.data) <= norm(s.data) * (1 + 1e-9), 'the fit is worse than the guess', norm(do.data), norm(s.data))
    if c.chance(.4):    # block by block, with the guesses of each block
        B = BlockGf(name_list=['dn', 'up'], block_list=[d, 1.2 * d])
        L, W = c.chance(.5), V0 is not None and c.chance(.5)
        e2 = [e0, e1 + .05] if L else 1.5 if isinstance(e0, float) else np.array(e0)
        v2 = [V0, .35] if W else V0
        with redirect_stdout(io.StringIO()):
            got = discretize_bath(B, nb, eps0=e2, V0=v2, cmplx=cx, maxiter=3, tol=1e-10)
            want = [discretize_bath(g, nb, eps0=e2[j] if L else e2, V0=v2[j] if W else v2, cmplx=cx, maxiter=3, tol=1e-10) for j, (n, g) in enumerate(B)]
        c.check(len(got) == 3 and isinstance(got[2], BlockGf) and list(got[2].indices) == ['dn', 'up'], 'names of the blocks of a bath')
        for j, (n, g) in enumerate(got[2]):
            c.check((got[0][j] == want[j][0]).all() and (got[1][j] == want[j][1]).all() and (g.data == want[j][2].data).all(), 'bath of block', n)
    c.throws(lambda: discretize_bath(d, nb, V0=np.zeros((no + 1, nb))), 'hoppings of another shape')
    c.throws(lambda: discretize_bath(d, nb, method='none', V0=.1), 'a method which does not exist')
    vmon.count('baths')
    c.nontrivial(type(m).__name__, no, nb, scalar, cx, h, noise)


group('block_program', 6000, 150000, block_program)
group('bad_blocks', 20, 60, bad_blocks)
group('lazy_alone', 4000, 100000, lazy_alone)
group('eval_context', 1500, 20000, eval_context)
group('descriptors', 4000, 60000, descriptors_all)
group('tools', 5000, 80000, tools)
group('bath', 60, 600, bath)
group('gf_program', 15000, 400000, gf_program)
vmon.finish()
