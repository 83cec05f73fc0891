"""Frequencies, mesh points and product meshes of the Python layer compute as the numbers they stand for."""
import cmath, itertools, math, operator, pickle
import numpy as np
import vmon
from vmon import group

vmon.stage(stubs=['triqs', 'h5'], extra={'triqs/__init__.py': ''})
from triqs.gf.matsubara_freq import MatsubaraFreq
from triqs.gf.mesh_point import MeshPoint, MeshValueGenerator
from triqs.gf.mesh_product import MeshProduct
from triqs.gf.meshes import MeshImFreq, MeshImTime, MeshReFreq, MeshLegendre, MeshReTime, MeshDLRImFreq
from triqs.gf import Gf

STAT = ['Fermion', 'Boson']
BETA = [1.0, 10.0, 0.1, 3.7, 40, 7]


def odd(s):
    return s == 'Fermion'


def ref(m, beta):
    """i pi m / beta"""
    return complex(0.0, math.pi * m / beta)


def number(c):
    k = c.i(0, 7)
    x = c.r(-3, 3)
    z = c.cplx()
    v = [c.i(-5, 5), x, z, np.float64(x), np.complex128(z), np.int64(c.i(-4, 4)), 0, 1.0][k]
    return v, complex(v)


def close(c, got, want, *what):
    c.close(complex(got), want, 1e-12 * (1 + abs(want)), *what)


# ---------------------------------------------------------------- frequencies
def program(c):
    """random expressions of frequencies of one temperature and numbers; the algebra is done with 2n+1 and 2n as integers"""
    beta = c.pick(BETA)
    big = c.chance(.1)
    pool = []                                     # (object, 2n + odd, statistic) for frequencies, (value, complex) otherwise
    for _ in range(c.i(2, 4)):
        n = c.i(-10**9, 10**9) if big else c.i(-12, 12)
        s = c.pick(STAT)
        pool.append((MatsubaraFreq(n, beta, s) if c.chance(.8) or s == 'Boson' else MatsubaraFreq(n, beta), 2 * n + odd(s)))
    c.trace('beta', beta, [str(x[0]) for x in pool])
    for step in range(c.i(2, 8)):
        f, m = c.pick(pool)
        op = c.i(0, 5)
        if op == 0:
            g, k = c.pick(pool)
            r, want = f + g, m + k
        elif op == 1:
            g, k = c.pick(pool)
            r, want = f - g, m - k
        elif op == 2:
            r, want = -f, -m
        else:
            x, z = number(c)
            w = ref(m, beta)
            q = c.i(0, 8)
            names = ['f+x', 'x+f', 'f-x', 'x-f', 'f*x', 'x*f', 'f/x', 'x/f', 'f**k']
            c.trace(names[q], type(x).__name__, x)
            if q in (6,) and z == 0 or q == 7 and m == 0:
                continue
            got = [lambda: f + x, lambda: x + f, lambda: f - x, lambda: x - f, lambda: f * x, lambda: x * f, lambda: f / x, lambda: x / f, lambda: f ** 2][q]()
            exp = [lambda: w + z, lambda: z + w, lambda: w - z, lambda: z - w, lambda: w * z, lambda: z * w, lambda: w / z, lambda: z / w, lambda: w * w][q]()
            c.check(not isinstance(got, MatsubaraFreq), 'a frequency combined with a number is a number')
            close(c, got, exp, names[q], x)
            continue
        c.trace('->', want)
        c.check(isinstance(r, MatsubaraFreq), 'sum of frequencies is', type(r).__name__)
        c.eq(2 * r.n + odd(r.statistic), want, 'index of the result')
        c.check(r.statistic in STAT and r.is_fermion == odd(r.statistic) and r.beta == beta and int(r.n) == r.n, 'statistic of the result', r)
        pool.append((r, want))
        vmon.count('frequency operations')
    for f, m in pool:
        w = ref(m, beta)
        close(c, f, w, 'complex')
        close(c, f.value, w, 'value')
        close(c, f.imag, w.imag, 'imag')
        c.eq(f.real, 0, 'real')
        close(c, abs(f), abs(w), 'abs')
        c.eq(2 * f.n + odd(f.statistic), m, 'an operand was changed')
        s = str(f)
        c.check(str(f.n) in s and f.statistic in s and str(f.beta) in s, 'text', s)
        g = pickle.loads(pickle.dumps(f))
        c.check((g.n, g.beta, g.statistic) == (f.n, f.beta, f.statistic), 'pickled')
        # e^{i w beta} is -1 or 1
        if not big:
            c.close(cmath.exp(complex(f) * beta), -1 if odd(f.statistic) else 1, 1e-10, 'phase after one period')
    c.nontrivial(beta, [m for _, m in pool])


def refuse(c):
    b1, b2 = c.shuffle(list(BETA))[:2]
    f, g = MatsubaraFreq(c.i(-5, 5), b1, c.pick(STAT)), MatsubaraFreq(c.i(-5, 5), b2, c.pick(STAT))
    c.trace(f, g)
    op = c.pick([operator.add, operator.sub])
    c.throws(lambda: op(f, g), 'frequencies of different temperatures', op.__name__)
    c.nontrivial(str(f), str(g), op.__name__)


def arrays(c):
    """with numpy arrays: element by element"""
    beta, n, s = c.pick(BETA), c.i(-9, 9), c.pick(STAT)
    f, w = MatsubaraFreq(n, beta, s), ref(2 * n + odd(s), beta)
    a = c.array(*c.pick([(2,), (2, 2), (3, 1), ()]), cplx=c.chance(.5), lo=.5, hi=2)
    c.trace(f, a.shape)
    for name, got, want in (('f*a', f * a, w * a), ('f+a', f + a, w + a), ('f-a', f - a, w - a), ('f/a', f / a, w / a)):
        c.check(np.shape(got) == a.shape, name, 'shape')
        c.close(np.asarray(got), want, 1e-12 * (1 + abs(w)), name)
    for name, got, want in (('a*f', a * f, w * a), ('a+f', a + f, w + a), ('a-f', a - f, a - w)):
        c.check(np.shape(got) == a.shape, name, 'shape')
        c.close(np.asarray(got, complex), want, 1e-12 * (1 + abs(w)), name)
    c.close(complex(np.exp(complex(f))), cmath.exp(w), 1e-12, 'exp')
    c.nontrivial(str(f), a.shape, a.dtype.kind)


# ---------------------------------------------------------------- mesh points
def value(c):
    k = c.i(0, 5)
    if k == 0:
        return c.r(-3, 3)
    if k == 1:
        return c.cplx()
    if k == 2:
        return MatsubaraFreq(c.i(-6, 6), c.pick([1.0, 10.0]), c.pick(STAT))
    if k == 3:
        return c.array(c.i(1, 3))
    if k == 4:
        return c.i(-5, 5)
    return np.float64(c.r(-3, 3))


def num(v):
    if isinstance(v, MeshPoint):
        v = v.value
    return np.asarray(complex(v) if isinstance(v, MatsubaraFreq) else v)


OPS = [('+', operator.add), ('-', operator.sub), ('*', operator.mul), ('/', operator.truediv)]


def points(c):
    v = value(c)
    idx, didx, h = c.i(-9, 9), c.i(0, 20), c.i(0, 10**18)
    how = c.i(0, 2)
    wt = c.r()
    p = MeshPoint(idx, didx, h, v) if how == 0 else MeshPoint(idx, didx, h, v, wt) if how == 1 else MeshPoint(index=idx, data_index=didx, mesh_hash=h, value=v, weight=wt)
    c.trace('value', type(v).__name__, v)
    c.check(p.index == idx and p.data_index == didx and p.mesh_hash == h and p.value is v and p.weight == (wt if how else None), 'attributes')
    for _ in range(c.i(2, 6)):
        x = value(c)
        if isinstance(x, MatsubaraFreq) and isinstance(v, MatsubaraFreq) and x.beta != v.beta:
            x = MatsubaraFreq(x.n, v.beta, x.statistic)
        if isinstance(x, np.ndarray) and isinstance(v, np.ndarray):
            x = c.array(*v.shape)
        elif isinstance(x, np.ndarray) and not isinstance(v, np.ndarray):
            x = c.r(.5, 2)
        if isinstance(x, MatsubaraFreq) and isinstance(v, np.ndarray):
            x = c.cplx()
        q = MeshPoint(0, 0, h, x) if c.chance(.5) else x
        name, op = c.pick(OPS)
        swap = c.chance(.5)
        if swap and isinstance(q, (np.generic, np.ndarray)) and isinstance(v, np.ndarray):
            q = MeshPoint(0, 0, h, x)           # numpy takes the operation over and returns an array of objects
        a, b = (q, p) if swap else (p, q)
        if op is operator.truediv and np.any(num(b) == 0):
            continue
        c.trace('point %s' % name if not swap else '%s point' % name, type(q).__name__, x)
        want = op(num(a), num(b))
        got = op(a, b)
        c.check(not isinstance(got, MeshPoint), 'the result is a number')
        if isinstance(v, MatsubaraFreq) and isinstance(x, MatsubaraFreq) and q is not x and name in '+-':
            c.check(isinstance(got, MatsubaraFreq), 'sum of two frequencies of a mesh is a frequency')
        c.close(num(got), want, 1e-12 * (1 + np.abs(want).max()), 'point', name)
        vmon.count('point operations')
    c.close(num(-p), -num(v), 0, 'minus')
    if not isinstance(v, np.ndarray):
        z = complex(num(v))
        c.close(complex(p), z, 0, 'complex')
        c.close(complex(p.real, p.imag), z, 0, 'real and imaginary part')
        if not isinstance(v, (complex, MatsubaraFreq)):
            c.eq(float(p), float(v), 'float')
            c.eq(int(p), int(v), 'int')
        else:
            c.throws(lambda: float(p), 'float of a complex point', of=TypeError)
    else:
        k = c.i(0, len(v) - 1)
        c.eq(p[k], v[k], 'component')
        c.close(np.asarray(p[:]), v, 0, 'slice')
    f = MeshPoint(0, 0, 0, lambda a, b=2: a + b)
    c.check(f(1) == 3 and f(1, b=5) == 6, 'call')
    c.check(str(idx) in str(p) and str(didx) in str(p), 'text')
    c.nontrivial(type(v).__name__, str(v))


# ---------------------------------------------------------------- product meshes
def mesh(c, positive=False):
    b, s, n = c.pick([1.0, 10.0, 3.0]), c.pick(STAT), c.i(2, 4)
    return [lambda: MeshImFreq(b, s, n), lambda: MeshImTime(b, s, n + 1), lambda: MeshReFreq(-1 - c.r(), 1 + c.r(), n + 1), lambda: MeshLegendre(b, s, n),
            lambda: MeshReTime(0.0, b, n + 1), lambda: MeshDLRImFreq(b, s, 5.0, 1e-8)][c.i(0, 5)]()


def product(c):
    r = c.pick([1, 2, 2, 2, 3, 3, 4])
    if r > 3:
        ms = [MeshReFreq(-1, 1, 2) for _ in range(c.i(4, 12))] if c.chance(.5) else [mesh(c) for _ in range(3)]
        ms = [MeshReFreq(-1 - .1 * k, 1, 2) if len(ms) > 3 else m for k, m in enumerate(ms)]
    else:
        ms = [mesh(c) for _ in range(r)]
    r = len(ms)
    P = MeshProduct(*ms)
    c.trace(P)
    shape = tuple(len(m) for m in ms)
    c.eq(P.rank, r, 'rank')
    c.eq(tuple(P.size_of_components()), shape, 'sizes')
    c.eq(len(P), int(np.prod(shape)), 'number of points')
    c.check(len(P.components) == r and all(a is b for a, b in zip(P.components, ms)) and all(P[k] is ms[k] for k in range(r)) and P[-1] is ms[-1], 'components')
    pts = list(itertools.islice(P, 4000))
    want = list(itertools.islice(itertools.product(*[list(range(n)) for n in shape]), 4000))
    c.eq(len(pts), min(len(P), 4000), 'points of the iteration')
    for p, w in list(zip(pts, want))[::max(1, len(pts) // 50)]:
        c.eq(tuple(x.data_index for x in p), w, 'order of the points')
        c.eq(tuple(P.to_data_index([x.index for x in p])), w, 'data index')
        c.check(all(x.mesh_hash == m.mesh_hash for x, m in zip(p, ms)), 'points of their own meshes')
        vmon.count('product points')
    # equality
    Q = MeshProduct(*[m.copy() for m in ms])
    c.check(P == Q and not P != Q and P == P, 'equal products')
    k = c.i(0, r - 1)
    other = mesh(c)
    while other == ms[k]:
        other = mesh(c)
    D = MeshProduct(*[other if q == k else m for q, m in enumerate(ms)])
    c.check(P != D and not P == D, 'products with another component', k)
    if r > 1:
        c.check(P != MeshProduct(*ms[:-1]) and MeshProduct(*ms[:-1]) != P, 'products of other length')
        if any(not m == ms[0] for m in ms):
            R = MeshProduct(*ms[::-1])
            c.eq(P == R, all(a == b for a, b in zip(ms, ms[::-1])), 'order of the components')
    c.check(P != ms[0] and not P == 3, 'other types')
    # copies
    C = P.copy()
    c.check(C == P and C is not P and all(a is not b for a, b in zip(C.components, ms)), 'copy is deep')
    if D.components[k].__class__ is ms[k].__class__:
        C.copy_from(D)
        c.check(C == D and P == Q, 'copy_from')
    c.throws(lambda: C.copy_from(MeshProduct(*ms, ms[0])), 'copy_from of other rank')
    # serialisation
    S = pickle.loads(pickle.dumps(P))
    c.check(S == P and type(S) is MeshProduct, 'pickled')
    d = P.__reduce_to_dict__()
    ks = c.shuffle(list(d))
    c.check(len(d) == r and MeshProduct.__factory_from_dict__('x', {q: d[q] for q in ks}) == P, 'rebuilt from the dictionary in any order')
    c.check(all(str(m) in str(P) for m in ms) and all(repr(m) in repr(P) for m in ms), 'text')
    # points of the product select the data of a function
    if r <= 3 and len(P) < 400:
        g = Gf(mesh=P, target_shape=())
        g.data[...] = c.array(*shape) + 1j * c.array(*shape)
        for p in pts[::max(1, len(pts) // 7)]:
            c.eq(complex(g[p]), complex(g.data[tuple(x.data_index for x in p)]), 'value at the point')
    c.nontrivial(str(P))


def values(c):
    m = mesh(c)
    while isinstance(m, MeshLegendre):
        m = mesh(c)
    g = m.values() if c.chance(.5) else MeshValueGenerator(m)
    a, b = list(g), list(g)
    c.check(len(a) == len(m) and len(b) == len(m), 'number of values, twice')
    for x, y, p in zip(a, b, m):
        c.check(complex(x) == complex(y) == complex(p.value), 'value of the point', p.index)
    c.nontrivial(repr(m))


group('frequencies', 4000, 60000, program)
group('temperatures', 400, 3000, refuse)
group('arrays', 1500, 20000, arrays)
group('points', 4000, 60000, points)
group('products', 1200, 20000, product)
group('values', 300, 3000, values)
vmon.finish()
