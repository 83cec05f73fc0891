"""Densities of states, Hilbert transforms and sums over k of the Python layer against explicit sums."""
import math, os, pickle, sys, warnings
import numpy as np
import vmon
from vmon import group

NP = int(os.environ.get('VERIF_MPI', '0'))
if not NP:
    for k in ('OMPI_COMM_WORLD_RANK', 'PMI_RANK', 'CRAY_MPICH_VERSION', 'TRIQS_FORCE_MPI_INIT'):
        os.environ.pop(k, None)
warnings.simplefilter('ignore')
vmon.stage(stubs=['triqs', 'h5'], extra={'triqs/__init__.py': ''})
with vmon.quiet():
    import triqs.utility.mpi as mpi
from triqs.gf import Gf, BlockGf, MeshImFreq, MeshReFreq
from triqs.dos import DOS, DOSFromFunction, dos_from_file, HilbertTransform
from triqs.sumk import SumkDiscreteFromLattice
from triqs.sumk.sumk_discrete import SumkDiscrete
from triqs.lattice.tight_binding import TBLattice
from triqs.lattice.super_lattice import TBSuperLattice
from triqs.lattice.bz_patch import BZPatch
import h5

if NP:
    vmon.check_size = mpi.size
    assert mpi.size == NP, 'started with %d processes, the module sees %d' % (NP, mpi.size)
    vmon.count('processes_seen', mpi.size)

    def abort():
        sys.stderr.flush()
        mpi.world.Abort(1)
    vmon.on_failure = abort


# ------------------------------------------------------------------ densities of states
def table(c, positive=True, n=None):
    n = n or c.pick([2, 3, 4, 7, 30, 101])
    lo, w = c.r(-5, 5), c.pick([.01, 1, 8])
    if c.chance(.5):
        eps = np.linspace(lo, lo + w, n)
    else:
        steps = c.array(n - 1, lo=.05, hi=1)
        eps = lo + w * np.concatenate([[0], np.cumsum(steps)]) / steps.sum()
    rho = c.array(n, lo=0 if positive else -1, hi=1)
    if c.chance(.3):
        rho[c.i(0, n - 1)] = 0
    if c.chance(.4):
        rho[0] = rho[-1] = 0
    return eps, rho


def mus(c, eps):
    n, w = len(eps), eps[-1] - eps[0]
    l = [c.r(eps[0] - w, eps[-1] + w) for _ in range(4)] + [eps[c.i(0, n - 1)] for _ in range(3)] + [eps[0], eps[-1], eps[0] - 1e-9 * w, eps[-1] + 1e-9 * w, eps[0] - 100 * w, eps[-1] + 100 * w]
    k = c.i(0, n - 2)
    return l + [eps[k] + x * (eps[k + 1] - eps[k]) for x in (1e-9, .5, 1 - 1e-9)]


def dos_density(c):
    pos = c.chance(.7)
    eps, rho = table(c, pos)
    c.trace('eps', eps.tolist()[:8], 'n', len(eps), 'rho', rho.tolist()[:8])
    give = c.pick([lambda x: x, lambda x: x.tolist(), lambda x: tuple(x.tolist())])
    d = DOS(give(eps), give(rho), 'x')
    cum = np.concatenate([[0], np.cumsum((rho[1:] + rho[:-1]) / 2 * np.diff(eps))])
    scale = max(1e-30, np.sum((abs(rho[1:]) + abs(rho[:-1])) / 2 * np.diff(eps)))
    if c.chance(.3):
        c.close(d.density(), d.density(0), 1e-13 * scale, 'density at the default chemical potential')
    last = None
    for mu in sorted(mus(c, eps)):
        if mu <= eps[0]:
            ref, slack = 0., 0.
        elif mu >= eps[-1]:
            ref, slack = cum[-1], 0.
        else:
            k = int(np.searchsorted(eps, mu, side='right')) - 1
            h, t = eps[k + 1] - eps[k], mu - eps[k]
            ref = cum[k] + t * rho[k] + t * t / h * (rho[k + 1] - rho[k]) / 2
            slack = abs(t * (rho[k + 1] - rho[k]) / 2 * (1 - t / h))   # the last cell may be averaged
        got = d.density(mu)
        c.close(got, ref, slack + 1e-9 * scale, 'density(%r), inside %d' % (float(mu), eps[0] < mu < eps[-1]))
        if pos and last is not None:
            c.check(got >= last - 1e-9 * scale, 'density falls from', last, 'to', got, 'at', mu)
        last = got
    c.close(d.eps, eps, 0, 'eps changed')
    c.close(d.rho, rho, 0, 'rho changed')
    c.nontrivial(len(eps), eps, rho)


def fn1(e):
    return math.exp(-e * e) / 3


def fn2(e):
    return math.sqrt((e - 1) * (3 - e)) if 1 <= e <= 3 else math.nan


def fn3(e):
    return [1 / (1 + e * e)][0]


def dos_store(c):
    eps, rho = table(c)
    d = DOS(eps, rho, c.pick(['', 'a', 'band 1']))
    c.trace('n', len(eps))
    copies = [pickle.loads(pickle.dumps(d)), d.copy()]
    D = d.__reduce_to_dict__()
    copies.append(DOS.__factory_from_dict__(d.name, dict(D)))
    for q in copies:
        c.check(type(q) is DOS and q.name == d.name, 'name', q.name)
        c.close(q.eps, eps, 0, 'eps')
        c.close(q.rho, rho, 0, 'rho')
    for q in copies[:2]:
        q.eps[0], q.rho[-1] = 99, 77
    eps0, rho0 = eps.copy(), rho.copy()
    eps[0], rho[0] = 5e5, 5e5
    c.close(d.eps, eps0, 0, 'eps after changes of a copy or of the arguments')
    c.close(d.rho, rho0, 0, 'rho after changes of a copy or of the arguments')
    for a, b in (([1, 2, 3], [1, 2]), (np.eye(2), [1, 2]), ([1, 2], np.eye(2)), (3., [1.]), ([1, 2], 7.)):
        c.throws(lambda: DOS(a, b), 'tables which do not fit')
    f, lo, hi = c.pick([(fn1, -3, 3), (fn2, 1., 3.), (fn3, -1, 2)])
    n = c.pick([2, 5, 100, 33])
    g = DOSFromFunction(f, lo, hi, n, 'nm') if n != 100 else DOSFromFunction(f, lo, hi, name='nm')
    for q in (g, pickle.loads(pickle.dumps(g))):
        c.check(type(q) is DOSFromFunction and q.name == 'nm' and len(q.eps) == len(q.rho) == n, 'from a function', type(q), q.name, len(q.eps))
        x = np.linspace(lo, hi, n)
        c.close(q.eps, x, 1e-12, 'mesh of the function')
        c.close(q.rho[1:-1], [f(e) for e in x[1:-1]], 1e-12, 'values of the function')
    c.throws(lambda: DOSFromFunction(3., 0, 1), 'not callable')
    c.nontrivial(n, eps0, rho0)


def dos_file(c):
    n, m = c.pick([1, 2, 5, 40]), c.i(1, 5)
    a = c.array(n, m + 1)
    fmt = c.pick(['%.17g', '%.18e', '%25.17e'])
    sep = c.pick([' ', '\t', '    '])
    name = 'dos_%d.dat' % c.i(0, 3)
    with open(name, 'w') as f:
        f.write(c.pick(['', '\n', '  \n\n']))
        for r in a:
            f.write(c.pick(['', '  ']) + sep.join(fmt % x for x in r) + c.pick(['\n', ' \n']))
            if c.chance(.1):
                f.write('\n')
    c.trace('rows', n, 'columns', m + 1)
    l = dos_from_file(name, 'nm')
    c.check(len(l) == m, 'orbitals', len(l), m)
    for k, d in enumerate(l):
        c.close(d.eps, a[:, 0], 0, 'eps')
        c.close(d.rho, a[:, k + 1], 0, 'orbital', k)
        c.eq(d.name, 'nm', 'name')
    for k in range(1, m + 1):
        d = dos_from_file(name, 'nm', k)
        c.check(isinstance(d, DOS) and d.name == 'nm', 'single orbital', type(d))
        c.close(d.eps, a[:, 0], 0, 'eps')
        c.close(d.rho, a[:, k], 0, 'single orbital', k)
    c.throws(lambda: dos_from_file(name, 'nm', m + 1), 'orbital beyond the last')
    with open(name, 'a') as f:
        f.write('1.5\n')
    c.throws(lambda: dos_from_file(name), 'a row is short')
    with open(name, 'w') as f:
        f.write(c.pick(['', '\n\n']))
    c.throws(lambda: dos_from_file(name), 'empty file')
    os.remove(name)
    c.nontrivial(a.tolist())


# ------------------------------------------------------------------ Hilbert transform
def freqs(mesh):
    return np.array([complex(x.value) for x in mesh])


def random_mesh(c, real=False):
    if real and c.chance(.3):
        return MeshReFreq(window=(-c.r(1, 4), c.r(1, 4)), n_w=c.i(2, 9))
    return MeshImFreq(beta=c.pick([1., 10., 40.]), S=c.pick(['Fermion', 'Fermion', 'Boson']), n_iw=c.i(1, 8))


def rand_gf(c, mesh, n, name='S'):
    return Gf(mesh=mesh, data=c.array(len(mesh), n, n, cplx=True) * .5, name=name)


def hermitian(c, n, s=1.):
    a = c.array(n, n, cplx=True) * s
    return a + a.conj().T


def weights(eps, rho, half):
    w = np.array(rho, dtype=float)
    d = np.diff(eps)
    w[1:-1] *= (d[1:] + d[:-1]) / 2
    w[0] *= d[0] * (.5 if half else 1)
    w[-1] *= d[-1] * (.5 if half else 1)
    return w / w.sum()


def ht_ref(eps, rho, half, w, mu, eta, field, hat, sig, n):
    r = np.zeros((len(w), n, n), complex)
    ws = weights(eps, rho, half)
    for k, e in enumerate(eps):
        for j, z in enumerate(w):
            r[j] += ws[k] * np.linalg.inv((z + mu + 1j * eta) * np.eye(n) - hat(e) - field[j] - sig(e)[j])
    return r


def ht_compare(c, got, eps, rho, *a):
    """the end points may carry the weight of a half or of a whole cell"""
    refs = [ht_ref(eps, rho, half, *a) for half in (True, False)]
    c.check(got.shape == refs[0].shape, 'shape', got.shape)
    e = [abs(got - r).max() for r in refs]
    s = max(abs(r).max() for r in refs)
    c.check(min(e) <= 1e-9 * max(1, s), 'Hilbert transform off by', e, 'of', s)


def gen_ht(c, n, mesh):
    w = freqs(mesh)
    mu, eta = c.pick([0, c.r(-2, 2), 1]), c.pick([0, c.r(.05, .6)])
    if isinstance(mesh, MeshReFreq) or mesh.statistic == 'Boson':
        eta = c.r(.3, .8)
    S0 = rand_gf(c, mesh, n)
    S1 = rand_gf(c, mesh, n)
    # keep the resolvents regular: the anti-hermitian part of the inverse has the sign of the frequency plus eta
    kind = c.pick(['gf', 'function', 'function'])
    herm = lambda d: (d + d.conj().swapaxes(1, 2)) / 2
    S0.data[:], S1.data[:] = herm(S0.data), herm(S1.data)
    if mesh.__class__ is MeshImFreq and eta:
        eta = abs(eta) + abs(w.imag).max() if c.chance(.5) else 0 if mesh.statistic == 'Fermion' else eta
    if kind == 'gf':
        Sigma, sig = S0, (lambda e: S0.data)
    else:
        sig = lambda e: S0.data + np.sin(e) * S1.data

        def Sigma(e):
            g = S0.copy()
            g.data[:] = sig(e)
            return g
        if c.chance(.3):
            given = Sigma
            Sigma = lambda eps: given(eps)
    kf = c.pick(['none', 'none', 'array', 'gf'])
    if kf == 'array':
        F = hermitian(c, n, .3)
        field, fd = F.copy(), np.broadcast_to(F, (len(w), n, n))
    elif kf == 'gf':
        field = rand_gf(c, mesh, n)
        field.data[:] = herm(field.data)
        fd = field.data.copy()
    else:
        field, fd = None, np.zeros((len(w), n, n))
    if c.chance(.5):
        A, B = hermitian(c, n, .5), hermitian(c, n, .5)
        hat, hat_arg = (lambda e: e * A + B), (lambda eps: np.array([e * A + B for e in eps]))
    else:
        hat, hat_arg = (lambda e: e * np.eye(n)), None
    return w, mu, eta, Sigma, sig, field, fd, hat, hat_arg, kind, kf, S0


def hilbert(c):
    n = c.i(1, 3)
    mesh = random_mesh(c, real=True)
    eps, rho = table(c, n=c.pick([2, 3, 5, 12, 40]))
    rho = rho + .05
    if c.chance(.2):
        rho[0] = rho[-1] = 0
        if len(eps) == 2:
            rho[:] = 1
    w, mu, eta, Sigma, sig, field, fd, hat, hat_arg, kind, kf, S0 = gen_ht(c, n, mesh)
    c.trace('n', n, 'points', len(eps), type(mesh).__name__, len(mesh), 'Sigma', kind, 'field', kf, 'mu', mu, 'eta', eta, 'hat', hat_arg is not None)
    d = DOS(eps, rho)
    H = HilbertTransform(d)
    if c.chance(.3):
        H = pickle.loads(pickle.dumps(H))
    kw = {}
    if mu or c.chance(.5):
        kw['mu'] = mu
    if eta or c.chance(.5):
        kw['eta'] = eta
    if field is not None:
        kw['field'] = field
    if hat_arg:
        kw['epsilon_hat'] = hat_arg
    result = None
    if c.chance(.5):
        result = kw['result'] = rand_gf(c, mesh, n, 'R')
    before = S0.data.copy()
    ref_args = (w, mu, eta, fd, hat, sig, n)
    for turn in range(c.pick([1, 1, 2])):
        G = H(Sigma, **kw) if c.chance(.5) else H(Sigma=Sigma, **kw)
        if result is not None:
            c.check(G is result or np.array_equal(G.data, result.data), 'the result given is not used')
        c.check(isinstance(G, Gf) and G.mesh == mesh, 'mesh of the result')
        ht_compare(c, G.data, eps, rho, *ref_args)
    c.close(S0.data, before, 0, 'the self energy was changed')
    if kf == 'array':
        c.close(field, fd[0], 0, 'the field was changed')
    if kf == 'gf':
        c.close(field.data, fd, 0, 'the field was changed')
    c.close(d.rho, rho, 0, 'the density of states was changed')
    if n > 1 and c.chance(.2):
        c.throws(lambda: H(Gf(mesh=mesh, target_shape=(n, n - 1))), 'a self energy which is not square')
        c.throws(lambda: H(S0, result=Gf(mesh=mesh, target_shape=(n - 1, n - 1))), 'a result of another shape')
    if c.chance(.2):
        c.throws(lambda: H(S0, n_points_integral=10), 'refinement of a table')
        c.throws(lambda: HilbertTransform(3.), 'not a density of states')
    c.nontrivial(n, len(eps), len(mesh), kind, kf, eps, mu)


def gauss(e):
    return math.exp(-e * e)


def box(e):
    return .5


def semi(e):
    return math.sqrt(max(0, 1 - e * e))


def refine(c):
    f, lo, hi = c.pick([(gauss, -4, 4), (gauss, -3, 5), (box, -1, 1), (semi, -1, 1)])
    n0 = c.pick([5, 10, 21, 40])
    n = c.i(1, 2)
    beta = c.pick([2., 5.])
    mesh = MeshImFreq(beta=beta, S='Fermion', n_iw=c.i(1, 4))
    w = freqs(mesh)
    S0 = rand_gf(c, mesh, n)
    S0.data[:] = (S0.data + S0.data.conj().swapaxes(1, 2)) / 2
    mu = c.r(-1, 1)
    d = DOSFromFunction(f, lo, hi, n0, 'nm')
    H = HilbertTransform(d)
    H2 = HilbertTransform(d) if c.chance(.4) else None
    hat = lambda e: e * np.eye(n)
    args = (w, mu, 0, np.zeros((len(w), n, n)), hat, lambda e: S0.data, n)
    c.trace(f.__name__, 'n0', n0, 'n', n, 'two transforms', H2 is not None)
    fine_e = np.linspace(lo, hi, 1500)
    fine = ht_ref(fine_e, np.array([f(e) for e in fine_e]), True, *args)

    def grid(m):
        e = np.linspace(lo, hi, m)
        return e, np.array([f(x) for x in e])
    c.trace('plain')
    ht_compare(c, H(S0, mu).data, *grid(n0), *args)
    for turn in range(c.i(1, 4)):
        K = H2 if H2 and c.chance(.5) else H
        how = c.pick(['points', 'converge', 'both', 'plain'])
        c.trace(how)
        kw = {}
        if how in ('points', 'both'):
            m = kw['n_points_integral'] = c.pick([4, 17, 60, 100])
        if how in ('converge', 'both'):
            tol = kw['test_convergence'] = c.pick([1e-2, 1e-3, 3e-4])
        if c.chance(.3):
            kw['result'] = rand_gf(c, mesh, n, 'R')
        G = K(S0, mu, **kw)
        if 'result' in kw:
            c.close(kw['result'].data, G.data, 0, 'the result given')
        if how == 'plain':
            ht_compare(c, G.data, *grid(n0), *args)
        elif how == 'points':
            ht_compare(c, G.data, *grid(m), *args)
        else:
            # halving the step changes the result by less than tol, so what is left is at most of that order (first order quadratures double it)
            c.close(G.data, fine, 6 * tol * abs(fine).max(), 'refined transform against a fine grid')
            vmon.count('refined')
    c.nontrivial(f.__name__, n0, n, mu)


# ------------------------------------------------------------------ sums over k
def resolvents(w, mu, field, hk, wk, sig):
    """field: block -> array over frequencies; sig(k, eps) -> block -> array over frequencies"""
    r = None
    for k, (h, x) in enumerate(zip(hk, wk)):
        s = sig(k)
        q = {b: x * np.linalg.inv((w[:, None, None] + mu) * np.eye(h.shape[0]) - h - field[b] - s[b]) for b in s}
        r = q if r is None else {b: r[b] + q[b] for b in q}
    return r


def sum_case(c, SK, hopping, points, wk, dim):
    """one call of the sum, any kind of arguments"""
    no = hopping.shape[1]
    names = c.pick([['up', 'dn'], ['b'], ['0', '1', 'x']])
    mesh = MeshImFreq(beta=c.pick([1., 10.]), S='Fermion', n_iw=c.i(1, 6))
    w = freqs(mesh)
    m = no
    hat_arg, hat = None, lambda h: h
    if c.chance(.3):
        m = c.i(1, 3)
        U = c.array(m, no, cplx=True)
        hat_arg = hat = lambda h: U @ h @ U.conj().T
    herm = lambda d: (d + d.conj().swapaxes(1, 2)) / 2
    make = lambda: BlockGf(name_list=list(names), block_list=[Gf(mesh=mesh, data=herm(c.array(len(mesh), m, m, cplx=True))) for _ in names])
    S0 = make()
    s0 = {b: g.data.copy() for b, g in S0}
    kind = c.pick(['gf', 'k', 'k_eps'])

    def of_k(k):
        S = S0.copy()
        for b, g in S:
            g.data[:] += .3 * np.cos(2 * np.pi * k[0]) * np.eye(m)
        return S

    def of_k_eps(k, eps):
        S = of_k(k)
        for b, g in S:
            g.data[:] += .1 * np.trace(eps).real * np.eye(m)
        return S
    Sigma = {'gf': S0, 'k': of_k, 'k_eps': of_k_eps}[kind]

    def sig(k):
        r = {b: d.copy() for b, d in s0.items()}
        for b in r:
            if kind != 'gf':
                r[b] += .3 * np.cos(2 * np.pi * points[k][0]) * np.eye(m)
            if kind == 'k_eps':
                r[b] += .1 * np.trace(hopping[k]).real * np.eye(m)
        return r
    kf = c.pick(['none', 'none', 'block', 'array', 'list', 'number'])
    if kf == 'block':
        field = make()
        fd = {b: g.data.copy() for b, g in field}
    elif kf == 'array':
        field = hermitian(c, m, .4)
        fd = {b: field.copy() for b in names}
    elif kf == 'list':
        field = [hermitian(c, m, .4) for _ in names]
        fd = {b: f.copy() for b, f in zip(names, field)}
    elif kf == 'number':
        field = c.r(-1, 1)
        fd = {b: field * np.eye(m) for b in names}
    else:
        field, fd = None, {b: np.zeros((m, m)) for b in names}
    mu = c.pick([0, c.r(-1, 1)])
    c.trace('sum over', len(wk), 'orbitals', no, 'matrices', m, 'blocks', names, 'Sigma', kind, 'field', kf, 'mu', mu)
    kw = {}
    if mu or c.chance(.3):
        kw['mu'] = mu
    if field is not None:
        kw['field'] = field
    if hat_arg:
        kw['epsilon_hat'] = hat_arg
    if c.chance(.5):
        kw['result'] = make()
    G = SK(Sigma, **kw) if c.chance(.5) else SK(Sigma=Sigma, **kw)
    if 'result' in kw:
        c.check(G is kw['result'], 'the result given is returned')
    ref = resolvents(w, mu, fd, [hat(h) for h in hopping], wk, sig)
    c.check(list(G.indices) == names, 'blocks', list(G.indices))
    for b, g in G:
        c.check(g.mesh == mesh, 'mesh')
        c.close(g.data, ref[b], 1e-9 * max(1, abs(ref[b]).max()), 'k sum, block', b)
    for b, g in S0:
        c.close(g.data, s0[b], 0, 'the self energy was changed')
    if kf == 'block':
        for b, g in field:
            c.close(g.data, fd[b], 0, 'the field was changed')
    vmon.count('k_sums')
    if c.chance(.15):
        bad = BlockGf(name_list=['a'], block_list=[Gf(mesh=mesh, target_shape=(m + 1, m + 1))])
        c.throws(lambda: SK(bad, **{k: v for k, v in kw.items() if k == 'epsilon_hat'}), 'a self energy of another size')
    return kind, kf, mu


def sumk_by_hand(c):
    dim, no, nk = c.i(1, 3), c.i(1, 3), c.pick([1, 2, 3, 7, 20])
    SK = SumkDiscrete(dim, ['o%d' % k for k in range(no)])
    SK.resize_arrays(nk)
    c.check(SK.n_kpts() == nk and SK.hopping.shape == (nk, no, no) and SK.bz_points.shape == (nk, dim) and SK.bz_weights.shape == (nk,), 'arrays')
    c.close(SK.bz_weights.sum(), 1, 1e-12, 'default weights')
    wk = SK.bz_weights.copy()
    if c.chance(.7):
        wk = c.array(nk, lo=.1, hi=1)
        wk /= wk.sum()
        SK.bz_weights[:] = wk
    h = np.array([hermitian(c, no) for _ in range(nk)])
    pts = c.array(nk, dim, lo=-.5, hi=.5)
    SK.hopping[:] = h
    SK.bz_points[:] = pts
    for _ in range(c.i(1, 2)):
        d = sum_case(c, SK, h, pts, wk, dim)
    c.nontrivial(dim, no, nk, d, h.ravel()[:4])


def hoppings(c, ndim, norb):
    m = hermitian(c, norb)
    D = {(0,) * ndim: m}
    for _ in range(c.i(0, 3)):
        d = tuple(c.i(-2, 2) for _ in range(ndim))
        if d in D or not any(d):
            continue
        m = c.array(norb, norb, cplx=True)
        D[d], D[tuple(-q for q in d)] = m, m.conj().T.copy()
    return D


def lattice(c, ndim=None):
    ndim = ndim or c.i(1, 3)
    norb = c.i(1, 3)
    D = hoppings(c, ndim, norb)
    pos = [tuple(c.r(0, 1) if k < ndim else 0. for k in range(3)) for _ in range(norb)]
    return TBLattice(units=np.eye(ndim) + .3 * c.array(ndim, ndim), hoppings=D, orbital_positions=pos, orbital_names=['o%d' % k for k in range(norb)]), D, ndim, norb


def bloch(D, k):
    return sum(m * np.exp(2j * np.pi * np.dot(k, d)) for d, m in D.items())


def full_grid(c, SK, n, ndim, Q):
    """the points are those of a regular mesh of n^d points, each once, up to a common shift"""
    p = np.array(SK.bz_points)
    c.check(p.shape == (n**ndim, ndim), 'number of points', p.shape, n, ndim)
    q = (p - p[0]) * n
    c.check(abs(q - np.rint(q)).max() < 1e-9, 'not a regular mesh')
    s = {tuple(int(x) % n for x in r) for r in np.rint(q)}
    c.eq(len(s), n**ndim, 'distinct points')
    # inversion symmetric without a shift
    if Q is None:
        m = {tuple(np.rint(np.mod(r, 1) * 2 * n).astype(int) % (2 * n)) for r in p}
        c.check(m == {tuple(np.rint(np.mod(-r, 1) * 2 * n).astype(int) % (2 * n)) for r in p}, 'the mesh is not symmetric')
    c.close(SK.bz_weights, np.full(n**ndim, n**-float(ndim)), 1e-12, 'weights')


def sumk_lattice(c):
    sup = c.chance(.2)
    TB, D, ndim, norb = lattice(c, 2 if sup else None)
    if sup:
        L = TBSuperLattice(TB, [(2, 0), (0, 1)] if c.chance(.5) else [(1, 1), (-1, 1)])
    else:
        L = TB
    n = c.i(1, {1: 12, 2: 6, 3: 4}[ndim])
    how = c.pick(['plain', 'plain', 'again', 'shift', 'pickle'])
    c.trace('dim', ndim, 'orbitals', norb, 'super', sup, 'n', n, how)
    SK = SumkDiscreteFromLattice(lattice=L, n_points=n) if n != 8 or c.chance(.5) else SumkDiscreteFromLattice(L)
    Q = None
    if how == 'again':
        n = c.i(1, 4)
        SK.Recompute_Grid(n)
    if how == 'shift':
        base = np.array(SK.bz_points)
        Q = c.array(ndim)
        SK.Recompute_Grid(n, Q=c.pick([lambda x: x, lambda x: x.tolist(), lambda x: tuple(x)])(Q))
        c.close(SK.bz_points, base + Q, 1e-12, 'shifted points')
    if how == 'pickle':
        SK = pickle.loads(pickle.dumps(SK))
    full_grid(c, SK, n, ndim, Q)
    c.eq(SK.n_kpts(), n**ndim, 'number of points')
    p = np.array(SK.bz_points)
    no = norb * (2 if sup else 1)
    c.eq(SK.hopping.shape, (len(p), no, no), 'hoppings')
    if sup:
        LD = L.hoppings
        h = np.array([bloch({k: np.asarray(v) for k, v in LD.items()}, k) for k in p])
    else:
        h = np.array([bloch(D, k) for k in p])
    c.close(SK.hopping, h, 1e-10, 'hoppings')
    d = sum_case(c, SK, h, p, np.full(len(p), 1. / len(p)), ndim)
    c.nontrivial(ndim, norb, n, how, d)


def patch_sum(c):
    TB, D, ndim, norb = lattice(c, 2)
    while True:
        k = c.i(3, 6)
        ang = sorted(c.r(0, 2 * math.pi) for _ in range(k))
        poly = [(.4 * math.cos(a), .4 * math.sin(a)) for a in ang]
        area = abs(sum(poly[i][0] * poly[(i + 1) % k][1] - poly[(i + 1) % k][0] * poly[i][1] for i in range(k))) / 2
        if area > .02 and min(abs(ang[i] - ang[i - 1]) for i in range(1, k)) > .05 and ang[-1] - ang[0] < 2 * math.pi - .05:
            break
    P = BZPatch('p', [poly])
    n = c.i(1, 5)
    c.trace('corners', k, 'n', n, 'orbitals', norb)
    SK = SumkDiscreteFromLattice(lattice=TB, patch=P, n_points=n)
    if c.chance(.3):
        SK = pickle.loads(pickle.dumps(SK))
    if c.chance(.3):
        n = c.i(1, 4)
        SK.Recompute_Grid(n)
    p, wk = np.array(SK.bz_points), np.array(SK.bz_weights)
    ntri = k - 2
    c.eq(p.shape, (n * n * ntri, 2), 'number of points')
    c.close(wk.sum(), 1, 1e-12, 'weights add up to one')
    c.check((wk >= 0).all(), 'negative weight')
    # centroids of small triangles: linear functions are summed exactly
    cen = np.zeros(2)
    for i in range(k):
        (x0, y0), (x1, y1) = poly[i], poly[(i + 1) % k]
        cr = x0 * y1 - x1 * y0
        cen += np.array([(x0 + x1) * cr, (y0 + y1) * cr])
    s = sum(poly[i][0] * poly[(i + 1) % k][1] - poly[(i + 1) % k][0] * poly[i][1] for i in range(k)) / 2
    cen /= 6 * s
    c.close(wk @ p, cen, 1e-9, 'centre of the patch')
    c.eq(len({tuple(np.rint(x * 1e9)) for x in p}), len(p), 'distinct points')
    h = np.array([bloch(D, k) for k in p])
    c.close(SK.hopping, h, 1e-10, 'hoppings')
    d = sum_case(c, SK, h, p, wk, 2)
    c.nontrivial(k, n, norb, d, poly)


if not NP:
    group('dos_density', 400, 8000, dos_density)
    group('dos_store', 120, 1500, dos_store)
    group('dos_file', 100, 1200, dos_file)
group('hilbert', 160, 3000, hilbert)
group('refine', 25, 400, refine)
group('sumk_by_hand', 120, 2500, sumk_by_hand)
group('sumk_lattice', 100, 2000, sumk_lattice)
group('patch_sum', 60, 1000, patch_sum)
vmon.finish()
