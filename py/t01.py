"""The comparison of archives and of Green functions in Python: every difference is reported, and nothing else."""
import contextlib, io, os, pickle, re, subprocess, sys, warnings
import numpy as np
import vmon
from vmon import group

warnings.simplefilter('ignore')
H5 = '''
import pickle
class HDFArchiveGroup:
    def __init__(self, d): self.d = d
    def keys(self): return sorted(self.d)
    def __getitem__(self, k):
        x = self.d[k]
        return HDFArchiveGroup(x[1]) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and x[0] == 'group' else x
class HDFArchive(HDFArchiveGroup):
    def __init__(self, f, mode='a'):
        assert mode == 'r', 'the archives are only read'
        with open(f, 'rb') as q: super().__init__(pickle.load(q))
'''
top = vmon.stage(stubs=['triqs', 'h5'], extra={'triqs/__init__.py': '', 'h5/__init__.py': H5})
from triqs.gf import BlockGf, Block2Gf, Gf, MeshImFreq, MeshImTime, MeshReFreq, MeshProduct
from triqs.operators import Operator, c as op_c, c_dag
from triqs.utility import h5diff as H
from triqs.utility.comparison_tests import assert_arrays_are_close, assert_array_close_to_scalar, assert_gfs_are_close, assert_block_gfs_are_close, assert_block2_gfs_are_close


# ---------------------------------------------------------------- random contents of archives, and changes of them
def mesh(c):
    b, s, n = c.pick([1.0, 10.0, 4.0]), c.pick(['Fermion', 'Boson']), c.i(2, 4)
    return c.pick([lambda: MeshImFreq(b, s, n), lambda: MeshImTime(b, s, n + 1), lambda: MeshReFreq(-b, 2.0, n + 2)])()


def func(c, m=None):
    m = m or (mesh(c) if c.chance(.8) else MeshProduct(mesh(c), mesh(c)))
    shape = c.pick([(), (1, 1), (2, 2), (2, 1)])
    n = tuple(len(x) for x in m.components) if isinstance(m, MeshProduct) else (len(m),)
    return Gf(mesh=m, data=c.array(*n, *shape, cplx=True))


def block(c):
    return BlockGf(name_list=['b%d' % k for k in range(c.i(1, 3))], block_list=None) if 0 else (lambda n: BlockGf(name_list=['b%d' % k for k in range(n)], block_list=[func(c) for _ in range(n)]))(c.i(1, 3))


def block2(c):
    n1, n2 = c.i(1, 2), c.i(1, 3)
    return Block2Gf(['a%d' % k for k in range(n1)], ['b%d' % k for k in range(n2)], [[func(c) for _ in range(n2)] for _ in range(n1)])


def array(c):
    k = c.i(0, 5)
    s = tuple(c.i(0 if c.chance(.1) else 1, 3) for _ in range(c.i(1, 3)))
    if k == 0:
        return c.array(*s)
    if k == 1:
        return c.array(*s, cplx=True)
    if k == 2:
        return np.array([c.i(-5, 5) for _ in range(int(np.prod(s)))], int).reshape(s)
    if k == 3:
        return np.array([c.chance(.5) for _ in range(int(np.prod(s)))], bool).reshape(s)
    if k == 4:
        return np.array(['s%d' % c.i(0, 9) for _ in range(c.i(1, 3))])
    return c.array(c.i(1, 4), 1)


def operator(c):
    r = Operator(c.i(0, 2))
    for _ in range(c.i(0, 3)):
        r = r + c.r(.5, 2) * c_dag('u', c.i(0, 2)) * op_c('u', c.i(0, 2))
    return r


def leaf(c):
    return c.pick([lambda: c.i(-100, 100), lambda: c.r(-2, 2), lambda: c.cplx(), lambda: c.chance(.5), lambda: np.bool_(c.chance(.5)), lambda: 'text%d' % c.i(0, 99), lambda: array(c), lambda: array(c), lambda: func(c), lambda: func(c), lambda: block(c), lambda: block2(c), lambda: operator(c)])()


def tree(c, depth, prefix=''):
    """(contents, list of paths of leaves)"""
    d, paths = {}, []
    for k in c.shuffle(['a', 'bb', 'c1', 'd', 'x%d' % c.i(0, 9)])[:c.i(1, 4)]:
        p = prefix + '/' + k
        q = c.i(0, 9)
        if depth and q < 2:
            sub, ps = tree(c, depth - 1, p)
            d[k] = ('group', sub)
            paths += ps
        elif depth and q == 2:
            d[k], ps = tree(c, 0, p)
            paths += ps
        elif q == 3:
            d[k] = c.pick([list, tuple])(leaf(c) for _ in range(c.i(0, 3)))
            if isinstance(d[k], tuple) and len(d[k]) == 2 and isinstance(d[k][0], str) and d[k][0] == 'group':
                d[k] = list(d[k])
            paths.append(p)
        else:
            d[k] = leaf(c)
            paths.append(p)
    return d, paths


def clone(x):
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(clone(v) for v in x)
    if isinstance(x, (Gf, BlockGf, Block2Gf)):
        return x.copy()
    return x.copy() if isinstance(x, (np.ndarray,)) else x


def number(c, a, d):
    """change one number of an array"""
    if a.size == 0:
        return None
    a = a.copy()
    k = c.i(0, a.size - 1)
    f = a.reshape(-1)
    if a.dtype.kind == 'b':
        f[k] = not f[k]
    elif a.dtype.kind in 'US':
        f[k] = f[k][:-1] + ('x' if f[k][-1] != 'x' else 'y')
    elif a.dtype.kind == 'i':
        f[k] += c.pick([1, -1, 7])
    elif c.chance(.2):
        f[k] = np.nan
    else:
        f[k] += d * (1j if a.dtype.kind == 'c' and c.chance(.5) else 1)
    return a


def changed(c, x, prec):
    """a copy of x which differs from it, or None"""
    d = prec * c.pick([2, 10, 1e3]) * c.pick([1, -1])
    if isinstance(x, (bool, np.bool_)):
        return type(x)(not x) if c.chance(.8) else int(x)
    if isinstance(x, int):
        return x + c.pick([1, -1, 5]) if c.chance(.8) else float(x)
    if isinstance(x, (float, complex)):
        return x + d if c.chance(.8) else str(x)
    if isinstance(x, str):
        return x + c.pick([' ', 'x']) if c.chance(.6) else x.upper()
    if isinstance(x, np.ndarray):
        if c.chance(.3):        # other shape, with the same numbers where possible
            if x.size and c.chance(.5):
                return np.broadcast_to(x, (2,) + x.shape).copy() if c.chance(.5) else x[None]
            return np.zeros(tuple(n + 1 for n in x.shape), x.dtype)
        return number(c, x, d)
    if isinstance(x, (list, tuple)):
        y = list(clone(x))
        if not y or c.chance(.3):
            y.append(1)
        elif c.chance(.3):
            y.pop()
        else:
            k = c.i(0, len(y) - 1)
            z = changed(c, y[k], prec)
            if z is None:
                return None
            y[k] = z
        if isinstance(x, tuple) and len(y) == 2 and isinstance(y[0], str) and y[0] == 'group':
            return None
        return type(x)(y)
    if isinstance(x, Gf):
        q = c.i(0, 5)
        if q == 0 and not isinstance(x.mesh, MeshProduct):
            m = MeshReFreq(-1.5, 2.0, len(x.mesh))
            return Gf(mesh=m, data=x.data.copy())
        if q == 1 and x.target_rank == 2:
            s = tuple(n + (n == 1 or c.chance(.5)) for n in x.target_shape)
            if s != tuple(x.target_shape):
                return Gf(mesh=x.mesh.copy(), data=np.ones(x.data.shape[:-2] + s) * (x.data if x.data.shape[-2:] == (1, 1) else 0))
        return Gf(mesh=x.mesh.copy(), data=number(c, x.data, d))
    if isinstance(x, BlockGf):
        names, gs = list(x.indices), [g.copy() for _, g in x]
        q = c.i(0, 3)
        if q == 0:
            names[c.i(0, len(names) - 1)] += 'x'
        elif q == 1:
            names.append('more')
            gs.append(gs[0].copy())
        elif q == 2 and len(gs) > 1:
            gs.pop()
            names.pop()
        else:
            k = c.i(0, len(gs) - 1)
            gs[k] = changed(c, gs[k], prec)
        return BlockGf(name_list=names, block_list=gs)
    if isinstance(x, Block2Gf):
        i1, i2 = list(x.indices1), list(x.indices2)
        gs = [[x[a, b].copy() for b in i2] for a in i1]
        if c.chance(.3):
            z = c.pick([i1, i2])
            z[c.i(0, len(z) - 1)] += 'x'
        else:
            a, b = c.i(0, len(i1) - 1), c.i(0, len(i2) - 1)
            gs[a][b] = changed(c, gs[a][b], prec)
        return Block2Gf(i1, i2, gs)
    if isinstance(x, Operator):
        return x + c.pick([1, .5, 1e-3]) * c.pick([c_dag('u', 0) * op_c('u', 1), Operator(1), op_c('d', 0)])
    raise NotImplementedError(type(x))


def slightly(c, x, prec):
    """a copy which differs by less than the precision"""
    d = prec * c.r(-.9, .9) * .7
    if isinstance(x, np.ndarray) and x.dtype.kind in 'fc':
        return x + d * c.array(*x.shape)
    if isinstance(x, Gf):
        return Gf(mesh=x.mesh.copy(), data=x.data + d * c.array(*x.data.shape, cplx=True))
    if isinstance(x, BlockGf):
        return BlockGf(name_list=list(x.indices), block_list=[slightly(c, g, prec) for _, g in x])
    if isinstance(x, Block2Gf):
        return Block2Gf(list(x.indices1), list(x.indices2), [[slightly(c, x[a, b], prec) for b in x.indices2] for a in x.indices1])
    return clone(x)


def walk(d, path):
    ks = path[1:].split('/')
    for k in ks[:-1]:
        d = d[k]
        if isinstance(d, tuple):
            d = d[1]
    return d, ks[-1]


def put(f, d):
    with open(f, 'wb') as q:
        pickle.dump(d, q)
    return f


def run(f1, f2, *a):
    """(failed, text of the reports)"""
    e = io.StringIO()
    with contextlib.redirect_stderr(e), contextlib.redirect_stdout(io.StringIO()):
        try:
            H.h5diff(f1, f2, *a)
            return False, e.getvalue()
        except RuntimeError as x:
            if str(x) != 'FAILED':
                raise
            return True, e.getvalue()


def mutate(c, a, paths, prec):
    """changed copy of an archive with the paths of the reports to expect"""
    b, want = clone(a), set()
    for p in c.shuffle(list(paths))[:c.pick([0, 0, 1, 1, 2, 3])]:
        d, k = walk(b, p)
        if c.chance(.25):
            if c.chance(.5):
                del d[k]
            else:
                d[k + 'new'] = 1
            q = p.rsplit('/', 1)[0]
            want.add(('keys', q))
            continue
        x = changed(c, d[k], prec)
        if x is None:
            continue
        d[k] = x
        want.add(('leaf', p))
    lost = set(p for p in paths if not has(b, p))
    return b, {w for w in want if w[0] == 'keys' or w[1] not in lost}


def has(d, p):
    try:
        e, k = walk(d, p)
        return k in e
    except KeyError:
        return False


def reports(txt):
    r = set()
    for l in txt.split('\n'):
        m = re.match(r"Comparison of key '(.*)'  has failed", l)
        if m:
            r.add(('leaf', m.group(1)))
        m = re.match(r"Two archive groups '(.*)' with different keys", l)
        if m:
            r.add(('keys', m.group(1)))
    return r


def archives(c):
    prec = c.pick([1e-6, 1e-6, 1e-8, 1e-3, 1e-4])
    a, paths = tree(c, 2)
    fa = put('a.h5', a)
    b, want = mutate(c, a, paths, prec)
    fb = put('b.h5', b)
    args = () if prec == 1e-6 and c.chance(.5) else (prec,)
    c.trace('precision', args, 'paths', [(p, type(walk(a, p)[0][walk(a, p)[1]]).__name__) for p in paths], 'changes', sorted(want))
    for x, y in ((fa, fb), (fb, fa)):
        failed, txt = run(x, y, *args)
        c.eq(failed, bool(want), 'archives which %s' % ('differ' if want else 'agree') + ': ' + txt[:300])
        c.eq(reports(txt), want, 'reported differences')
    vmon.count('differences reported', len(want))
    # a later comparison in the same process
    failed, txt = run(fa, put('c.h5', clone(a)), *args)
    c.check(not failed, 'equal archives, compared after others', txt[:300])
    # differences below the precision
    s = clone(a)
    for p in paths:
        d, k = walk(s, p)
        d[k] = slightly(c, d[k], prec)
    failed, txt = run(fa, put('s.h5', s), *args)
    c.check(not failed, 'differences below the precision', txt[:300])
    c.nontrivial(repr(sorted(want)), paths, prec)


def script(c):
    """the command line: status 0 exactly if there is no difference"""
    a, paths = tree(c, 1)
    prec = c.pick([1e-8, 1e-8, 1e-4])
    b, want = mutate(c, a, paths, prec)
    put('a.h5', a), put('b.h5', b)
    opt = [] if prec == 1e-8 else c.pick([['-p', str(prec)], ['--precision', str(prec)]])
    opt += c.pick([[], [], ['-v']])
    c.trace(opt, sorted(want))
    r = subprocess.run([sys.executable, os.path.join(top, 'triqs', 'utility', 'h5diff.py'), 'a.h5', 'b.h5'] + opt, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=top, PYTHONDONTWRITEBYTECODE='1'))
    c.eq(r.returncode != 0, bool(want), 'status of the command', r.stderr[-300:])
    c.eq(reports(r.stderr), want, 'reported differences')
    c.nontrivial(repr(sorted(want)), paths)


# ---------------------------------------------------------------- assertions
def close(c):
    prec = c.pick([1e-6, 1e-9, 1e-3])
    x = c.pick([lambda: c.array(c.i(1, 4), c.i(1, 3), cplx=c.chance(.5)), lambda: func(c), lambda: block(c), lambda: block2(c)])()
    f = assert_arrays_are_close if isinstance(x, np.ndarray) else assert_gfs_are_close if isinstance(x, Gf) else assert_block_gfs_are_close if isinstance(x, BlockGf) else assert_block2_gfs_are_close
    args = () if prec == 1e-6 else (prec,)
    c.trace(type(x).__name__, prec)
    f(x, x, *args)
    f(x, clone(x), *args)
    f(x, slightly(c, x, prec), *args)
    f(slightly(c, x, prec), x, *args)
    y = changed(c, x, prec)
    if isinstance(x, np.ndarray) and y.shape != x.shape:
        y = number(c, x, 5 * prec)
    c.throws(lambda: f(x, y, *args), 'a difference', of=AssertionError)
    c.throws(lambda: f(y, x, *args), 'a difference, exchanged', of=AssertionError)
    n = c.i(1, 4)
    s = c.cplx()
    d = np.eye(n) * s
    assert_array_close_to_scalar(d, s, *args)
    c.throws(lambda: assert_array_close_to_scalar(number(c, d, 5 * prec), s, *args), 'not a multiple of the identity', of=AssertionError)
    c.nontrivial(type(x).__name__, prec, c.index)


group('archives', 1200, 20000, archives)
group('script', 24, 200, script)
group('close', 1500, 20000, close)
vmon.finish()
