"""Superlattices, k-paths, readers of Wannier90 and PythTB models, patches and lattice points of the Python layer."""
import math, os, pickle, sys, warnings
from itertools import product
import numpy as np
import vmon
from vmon import group

GFS = '''
class Gf: pass
class MeshBrZone:
    def __init__(self, *a): self.args = a
class MeshCycLat:
    def __init__(self, *a): self.args = a
class MeshPoint:
    def __init__(self, v): self.value = v
'''
SYMPY = 'sympy' in sys.argv
if SYMPY:
    sys.argv.remove('sympy')
vmon.stage(stubs=['triqs', 'h5'], extra={'triqs/__init__.py': '', 'triqs/utility/__init__.py': '', 'triqs/gf/__init__.py': GFS, 'triqs/dos/__init__.py': 'from .dos import *\nfrom .dos import DOS\n'})
from triqs.lattice import lattice_tools
from triqs.lattice.tight_binding import TBLattice, dos as py_dos, dos_patch as py_dos_patch
from triqs.lattice.super_lattice import TBSuperLattice
from triqs.lattice import utils
from triqs.gf import MeshPoint
from triqs.lattice.point import LatticePoint
from triqs.lattice.bz_patch import BZPatch

warnings.simplefilter('ignore')


def hoppings(c, ndim, norb, kind='complex', far=2, n=None):
    D = {}
    if c.chance(.8):
        m = c.array(norb, norb, cplx=kind == 'complex')
        D[(0,) * ndim] = m + m.conj().T
    for _ in range(c.i(0, 4) if n is None else n):
        d = tuple(c.i(-far, far) for _ in range(ndim))
        if d in D or not any(d):
            continue
        m = c.array(norb, norb, cplx=kind == 'complex')
        D[d], D[tuple(-q for q in d)] = m, m.conj().T.copy()
    if not D:
        D[(0,) * ndim] = np.eye(norb)
    keys = c.shuffle(list(D))
    return {k: D[k] for k in keys}


def lattice(c, ndim=None, maxorb=3):
    ndim = ndim or c.i(1, 3)
    norb = c.i(1, maxorb)
    units = np.eye(ndim) + .4 * c.array(ndim, ndim)
    D = hoppings(c, ndim, norb)
    pos = [tuple(c.r(0, 1) if k < ndim else 0. for k in range(3)) for _ in range(norb)]
    names = c.pick([['%d' % k for k in range(norb)], ['s', 'px', 'py'][:norb], ['o_%d' % k for k in range(norb)]])
    return TBLattice(units=units, hoppings=D, orbital_positions=pos, orbital_names=names), D, units, pos, names


def blochsum(D, k):
    return sum(m * np.exp(2j * np.pi * np.dot(k, d)) for d, m in D.items())


def intmat(c, nd, maxdet):
    while True:
        m = [[c.i(-2, 2) if c.chance(.5) else (c.i(1, 3) if q == r else 0) for q in range(nd)] for r in range(nd)]
        d = int(round(np.linalg.det(np.array(m))))
        if 1 <= abs(d) <= maxdet:
            return m, abs(d)


def super_(c):
    tb, D, units, pos, names = lattice(c)
    nd, norb = tb.ndim, tb.n_orbitals
    S, det = intmat(c, nd, 6)
    M = np.array(S).T
    arg = c.pick([S, np.array(S), [tuple(q) for q in S]])
    explicit, sites = None, None
    remove = c.chance(.25)
    # representatives of the lattice modulo the superlattice, in the unit cell
    inv = np.linalg.inv(M)
    R = range(-12, 13) if nd < 3 else range(-9, 10)
    cell = [v for v in product(*(R,) * nd) if all(-1e-9 <= q < 1 - 1e-9 for q in inv @ np.array(v))]
    assert len(cell) == det, (S, cell)
    how = c.pick(['auto', 'auto', 'lists', 'tuples', 'array', 'outside'])
    if how != 'auto':
        sites = c.shuffle(list(cell))
        if how == 'outside':
            sites = [tuple((np.array(v) + M @ np.array([c.i(-1, 1) for _ in range(nd)])).tolist()) for v in sites]
        explicit = {'lists': [list(v) for v in sites], 'tuples': [tuple(v) for v in sites], 'array': np.array(sites), 'outside': [list(v) for v in sites]}[how]
    c.trace('ndim', nd, 'orbitals', norb, 'units', S, how, explicit, 'remove', remove, 'hoppings', list(D))
    kw = {} if not remove and c.chance(.5) else {'remove_internal_hoppings': remove}
    SL = TBSuperLattice(tb, arg, **({} if explicit is None else {'cluster_sites': explicit}), **kw)
    got = [tuple(int(q) for q in v) for v in SL.cluster_sites()]
    c.eq(len(got), det, 'number of sites')
    if how == 'auto':
        c.eq(sorted(got), sorted(cell), 'sites of the cluster')
    else:
        c.eq(got, [tuple(v) for v in sites], 'sites of the cluster')
    site = [np.array(v) for v in got]
    c.eq((SL.ndim, SL.n_orbitals, SL.Ncluster_sites, SL.Norb), (nd, norb * det, det, norb * det), 'sizes')
    # coordinates
    for _ in range(6):
        x = [c.i(-9, 9) for _ in range(nd)]
        Rx, al = SL.change_coordinates_L_to_SL(c.pick([x, np.array(x), tuple(x)]))
        c.check(len(Rx) == nd and 0 <= al < det and (M @ np.array(Rx) + site[al] == np.array(x)).all(), 'coordinates of', x, Rx, al)
        c.check((np.asarray(SL.change_coordinates_SL_to_L(Rx, al)) == np.array(x)).all(), 'back to the lattice', x)
        Ry, be = [c.i(-4, 4) for _ in range(nd)], c.i(0, det - 1)
        q = SL.change_coordinates_L_to_SL(SL.change_coordinates_SL_to_L(Ry, be))
        c.check(tuple(q[0]) == tuple(Ry) and q[1] == be, 'back to the superlattice', Ry, be, q)
    packed = [SL.pack_index_site_orbital(s, o) for s in range(det) for o in range(norb)]
    c.eq(sorted(packed), list(range(det * norb)), 'packed indices')
    for s in range(det):
        for o in range(norb):
            c.eq(tuple(SL.unpack_index_site_orbital(SL.pack_index_site_orbital(s, o))), (s, o), 'unpacked index')
    pk = SL.pack_index_site_orbital
    # hoppings, each exactly once
    H = SL.hoppings
    seen = 0
    for Rk, m in H.items():
        for s, t in product(range(det), repeat=2):
            d = tuple((M @ np.array(Rk) + site[t] - site[s]).tolist())
            ref = D.get(d, np.zeros((norb, norb)))
            if remove and not any(Rk):
                ref = 0 * ref
            got_ = np.array([[m[pk(s, a), pk(t, b)] for b in range(norb)] for a in range(norb)])
            c.check((got_ == ref).all(), 'hopping from site', s, 'to', t, 'of cell', Rk)
            seen += d in D
    c.eq(seen, det * len(D), 'number of hoppings carried over')
    c.close(SL.units, np.array(S) @ units, 1e-13, 'units')
    p = SL.orbital_positions
    for s in range(det):
        for o in range(norb):
            ref = np.array(pos[o])
            ref[:nd] += site[s] @ units
            c.close(p[pk(s, o)], ref, 1e-12, 'position of an orbital')
    c.check(len(set(SL.orbital_names)) == det * norb, 'names of the orbitals', SL.orbital_names)
    repr(SL)
    if not remove:
        # spectrum: K of the superlattice against all k of the lattice which fold to it
        k = np.array([c.r(-1, 1) for _ in range(nd)])
        K = np.array(S) @ k
        shifts, n_inv = [], np.linalg.inv(np.array(S))
        for m in product(*(R,) * nd):
            q = n_inv @ np.array(m)
            if all(-1e-9 <= z < 1 - 1e-9 for z in q):
                shifts.append(q)
        c.eq(len(shifts), det, 'number of folded points')
        ref = np.sort(np.concatenate([np.linalg.eigvalsh(blochsum(D, k + q)) for q in shifts]))
        c.close(np.linalg.eigvalsh(blochsum(H, K)), ref, 1e-9, 'folded spectrum')
        c.close(np.linalg.eigvalsh(SL.fourier(K)), ref, 1e-9, 'folded spectrum')
        if det * 2 <= 8 and c.chance(.3):
            # a superlattice of the superlattice
            S2, det2 = intmat(c, nd, 2)
            SS = TBSuperLattice(SL, S2)
            one = TBSuperLattice(tb, np.array(S2) @ np.array(S))
            K2 = np.array(S2) @ np.array(S) @ k
            c.close(np.linalg.eigvalsh(SS.fourier(K2)), np.linalg.eigvalsh(one.fourier(K2)), 1e-9, 'superlattice of a superlattice')
            vmon.count('nested')
    # other functions on the lattice
    F = {d: (c.array(norb, norb) if c.chance(.5) else np.array([[c.i(-3, 3) for _ in range(norb)] for _ in range(norb)]) if c.chance(.5) else c.array(norb, norb, cplx=True)) for d in D}
    folded = SL.fold(F)
    tot = sum(np.asarray(m).sum() for m in folded.values())
    c.check(abs(tot - det * sum(m.sum() for m in F.values())) < 1e-10, 'sum of a folded function')
    z = SL.fold(F, create_zero=lambda: np.zeros((det * norb,) * 2, dtype=complex))
    c.check(set(z) == set(folded) and all(np.abs(z[q] - folded[q]).max() < 1e-14 for q in z), 'folded with given zeros')
    # as it is sent to other processes
    P = pickle.loads(pickle.dumps(SL))
    c.check(P == SL and list(map(tuple, P.cluster_sites())) == list(map(tuple, SL.cluster_sites())) and repr(P).split('units:')[1] == repr(SL).split('units:')[1], 'pickled')
    c.nontrivial(nd, norb, repr(S), how, remove, len(D))


def super_illegal(c):
    tb, D, units, pos, names = lattice(c)
    nd = tb.ndim
    k = c.i(0, 3)
    c.trace(k, nd)
    if k == 0:
        c.throws(lambda: TBSuperLattice(tb.tb, np.eye(nd, dtype=int)), 'not a lattice')
    elif k == 1:
        c.throws(lambda: TBSuperLattice(tb, np.eye(nd + 1, dtype=int)), 'dimensions')
    elif k == 2 and nd > 1:
        v = [c.i(-2, 2) for _ in range(nd)]
        c.throws(lambda: TBSuperLattice(tb, [v, v] + np.eye(nd, dtype=int).tolist()[2:]), 'dependent vectors')
    else:
        S, det = intmat(c, nd, 5)
        c.throws(lambda: TBSuperLattice(tb, S, cluster_sites=[[q] + [0] * (nd - 1) for q in range(det + 1)]), 'number of sites')
    c.nontrivial(k, nd, repr(D.keys()))


def tblattice(c):
    tb, D, units, pos, names = lattice(c)
    nd, n = tb.ndim, tb.n_orbitals
    c.trace(nd, n)
    c.check(set(tb.hoppings) == set(D) and all((tb.hoppings[d] == D[d]).all() for d in D), 'hoppings')
    c.check(np.array_equal(tb.units, units) and np.allclose(tb.orbital_positions, pos) and tb.orbital_names == names, 'lattice')
    k = [c.r(-1, 1) for _ in range(nd)]
    c.close(tb.fourier(k), blochsum(D, k), 1e-12, 'Fourier')
    c.close(tb.dispersion(k), np.linalg.eigvalsh(blochsum(D, k)), 1e-12, 'dispersion')
    nk = c.i(1, 9)
    m, r = tb.get_kmesh(nk), tb.get_rmesh((nk,) * 3)
    c.check(m.args == (tb.bz, nk) and r.args == (tb.bl, (nk,) * 3), 'meshes')
    dct = tb.__reduce_to_dict__()
    t2 = TBLattice.__factory_from_dict__('TBLattice', dct)
    c.check(t2 == tb, 'written and read')
    c.check(not (tb == 3), 'compared with something else')
    other = TBLattice(units, hoppings=hoppings(c, nd, n, n=3), orbital_positions=pos, orbital_names=names)
    c.check(other == tb if set(other.hoppings) == set(D) and all((other.hoppings[d] == D[d]).all() for d in D) else not (other == tb), 'compared')
    old = TBLattice(units, hopping=D, orbital_positions=pos)
    c.check(set(old.hoppings) == set(D) and old.orbital_names == [''] * n, 'old keyword')
    x = [c.r(-2, 2) for _ in range(nd)]
    c.close(tb.lattice_to_real_coordinates(x)[:nd], np.array(x) @ units, 1e-12, 'real coordinates')
    # densities of states: one for each band
    lattice_tools.calls.clear()
    ne = c.i(2, 5)
    ds = py_dos(tb.tb, nk, ne, 'name')
    c.check(lattice_tools.calls == [('dos', tb.tb, nk, ne)], 'arguments of dos')
    eps, arr = lattice_tools.dos(tb.tb, nk, ne)
    c.check(len(ds) == n and all(np.array_equal(d.eps, eps) and np.array_equal(d.rho, arr[:, q]) and d.name == 'name' for q, d in enumerate(ds)), 'densities of states of the bands')
    c.nontrivial(nd, n, repr(list(D)))


def points(c):
    nd = c.i(1, 3)
    units = np.eye(nd) + .4 * c.array(nd, nd)
    bl = lattice_tools.BravaisLattice(units)
    a, b = [c.i(-4, 4) for _ in range(nd)], [c.i(-4, 4) for _ in range(nd)]
    A, B = (LatticePoint(c.pick([v, np.array(v)]), bl) for v in (a, b))
    ra, rb = (bl.lattice_to_real_coordinates(v) for v in (a, b))
    s = c.r(-2, 2)
    v = c.array(3)
    c.trace(nd, a, b)
    c.check(isinstance(A + B, LatticePoint) and list((A + B).index) == [x + y for x, y in zip(a, b)], 'sum of points')
    c.check(isinstance(A - B, LatticePoint) and list((A - B).index) == [x - y for x, y in zip(a, b)], 'difference of points')
    c.eq(list((-A).index), [-x for x in a], 'negative')
    for got, ref, nm in ((A.value, ra, 'value'), ((A + B).value, ra + rb, 'sum'), ((A - B).value, ra - rb, 'difference'), (A + v, ra + v, 'plus vector'), (A - v, ra - v, 'minus vector'), (A.__radd__(v), ra + v, 'vector plus'),
                         (A.__rsub__(v), v - ra, 'vector minus'), (A * s, ra * s, 'times'), (s * A, s * ra, 'times'), (A / s, ra / s, 'by'), (A + MeshPoint(rb), ra + rb, 'plus mesh point'), (A.__array__(), ra, 'array')):
        c.close(got, ref, 1e-12, nm)
    c.check(len(A) == nd and A[0] == A.value[0], 'element')
    c.check(list(A.index) == a and list(B.index) == b, 'operands changed')
    c.nontrivial(nd, tuple(a), tuple(b))


def patch(c):
    # convex polygons, corners in order
    polys, area = [], []
    for _ in range(c.i(1, 3)):
        n = c.i(3, 7)
        ang = sorted(c.r(0, 2 * math.pi) for _ in range(n))
        o, ab = c.array(2), (c.r(.2, 1), c.r(.2, 1))
        p = [(o[0] + ab[0] * math.cos(t), o[1] + ab[1] * math.sin(t)) for t in ang]
        if c.chance(.3):
            p = p[::-1]
        polys.append(p)
        area.append(.5 * abs(sum(p[q][0] * p[(q + 1) % n][1] - p[q][1] * p[(q + 1) % n][0] for q in range(n))))
    c.trace(polys)
    P = BZPatch('patch', polys)
    c.close(P.weight, sum(area), 1e-12, 'weight')
    c.close(sum(P._weights), sum(area), 1e-12, 'weights of the triangles')
    lattice_tools.calls.clear()
    tb = object()
    d = P.dos(tb, 5, 3)
    c.eq(len(lattice_tools.calls), 1, 'calls')
    nm, t, tri, ne, nv = lattice_tools.calls[0]
    c.check(nm == 'dos_patch' and t is tb and (ne, nv) == (5, 3) and tri.shape == (3 * sum(len(p) - 2 for p in polys), 2), 'arguments')
    k = 0
    for p, ar in zip(polys, area):
        s = 0
        for q in range(len(p) - 2):
            a, b, e = tri[k:k + 3]
            c.check(all(any(np.array_equal(z, np.array(y)) for y in p) for z in (a, b, e)), 'corner of a triangle')
            s += .5 * abs((b[0] - a[0]) * (e[1] - a[1]) - (b[1] - a[1]) * (e[0] - a[0]))
            k += 3
        c.close(s, ar, 1e-12, 'triangles cover the polygon')
    c.check(d.name == 'patch' and len(d.eps) == 5, 'density of states')
    c.nontrivial(repr(polys))


def path(c):
    ns, num = c.i(1, 5), c.pick([2, 3, 7, 101])
    bz = lattice_tools.BrillouinZone(lattice_tools.BravaisLattice(np.eye(3) + .4 * c.array(3, 3))) if c.chance(.6) else None
    cell = np.eye(3) if bz is None else bz.units
    seg, last = [], None
    for _ in range(ns):
        a = last if last is not None and c.chance(.7) else [c.pick([0, .5, 1, c.r(-1, 1)]) for _ in range(3)]
        b = [c.pick([0, .5, 1, 1 / 3, c.r(-1, 1)]) for _ in range(3)]
        seg.append((a, b))
        last = b
    if c.chance(.2):
        seg = [([int(round(x)) for x in a], [int(round(x)) for x in b]) for a, b in seg]
    rel = c.chance(.6)
    arg = c.pick([seg, [(np.array(a), np.array(b)) for a, b in seg], np.array(seg)])
    c.trace(ns, num, bz is not None, rel, seg)
    k, dist, ticks = utils.k_space_path(arg, num=num, bz=bz, **({} if rel and c.chance(.5) else {'relative_coordinates': rel}))
    c.eq((k.shape, dist.shape, ticks.shape), ((ns * num, 3), (ns * num,), (ns + 1,)), 'shapes')
    cur = 0.
    c.close(ticks[0], 0, 0, 'first tick')
    for s, (a, b) in enumerate(seg):
        a, b = np.array(a, dtype=float), np.array(b, dtype=float)
        for q in range(num):
            p = a + (b - a) * q / (num - 1)
            c.close(k[s * num + q], p if rel else p @ cell, 1e-12, 'point of the path')
            c.close(dist[s * num + q], cur + np.linalg.norm((p - a) @ cell), 1e-11, 'distance')
        cur += np.linalg.norm((b - a) @ cell)
        c.close(ticks[s + 1], cur, 1e-11, 'tick')
    c.nontrivial(ns, num, rel, repr(seg)[:200])


def wannier(c):
    nw, far = c.i(1, 4), c.i(0, 2)
    Rs = [v for v in product(range(-far, far + 1), repeat=3) if c.chance(.35)]
    Rs = list({v for w in Rs + [(0, 0, 0)] for v in (w, tuple(-q for q in w))})
    if c.chance(.2):
        Rs = [(0, 0, 0)]
    Rs = sorted(Rs) if c.chance(.7) else c.shuffle(sorted(Rs))
    n = len(Rs)
    deg, H = {}, {}
    for v in Rs:
        o = tuple(-q for q in v)
        if o in H:
            deg[v], H[v] = deg[o], H[o].conj().T
        else:
            deg[v] = c.pick([1, 1, 2, 4, 12])
            m = np.round(c.array(nw, nw, cplx=c.chance(.8), lo=-3, hi=3), 6)
            if not any(v):
                m = np.round((m + m.conj().T) / 2, 6)
            H[v] = m
    c.trace(nw, n, 'points', [deg[v] for v in Rs])
    d = os.path.join(os.getcwd(), 'w%d/' % vmon.SHARD)
    os.makedirs(d, exist_ok=True)
    txt = ' written on 20Jan2021 at 12:15:32 \n%12d\n%12d\n' % (nw, n)
    for k in range(0, n, 15):
        txt += ''.join('%5d' % deg[v] for v in Rs[k:k + 15]) + '\n'
    for v in Rs:
        for j in range(nw):
            for i in range(nw):
                txt += '%5d%5d%5d%5d%5d%12.6f%12.6f\n' % (v + (i + 1, j + 1, H[v][i, j].real, H[v][i, j].imag))
    open(d + 'seed_hr.dat', 'w').write(txt)
    A = np.round(np.eye(3) * 3 + c.array(3, 3), 6)
    unit = c.pick(['(Ang)', '(Ang)', '(Bohr)'])
    wout = ''.join(' %s\n' % c.pick(['+----+', '|  WANNIER90  |', '', 'Number 1.0 2.0']) for _ in range(c.i(0, 30)))
    wout += '                              Lattice Vectors %s\n' % unit
    for k in range(3):
        wout += '                    a_%d %11.6f%11.6f%11.6f\n' % ((k + 1,) + tuple(A[k]))
    wout += ' \n                   Unit Cell Volume:      59.24 (Ang^3)\n\n                        Reciprocal-Space Vectors (Ang^-1)\n                    b_1     1.6 0 0\n'
    open(d + 'seed.wout', 'w').write(wout)
    hop, num = utils.parse_hopping_from_wannier90_hr_dat(d + 'seed_hr.dat')
    c.eq(num, nw, 'number of Wannier functions')
    c.eq(sorted(tuple(int(q) for q in v) for v in hop), sorted(Rs), 'lattice vectors of the hoppings')
    for v in Rs:
        c.close(hop[v], H[v] / deg[v], 1e-12, 'hopping', v)
    scale = 1 if unit == '(Ang)' else .529177210903
    vec = utils.parse_lattice_vectors_from_wannier90_wout(d + 'seed.wout')
    c.close(np.array(vec), A * scale, 1e-6 if scale != 1 else 1e-12, 'lattice vectors')
    spin = c.chance(.4)
    ns = nw * (2 if spin else 1)
    loc = None
    if c.chance(.5):
        loc = c.array(ns, ns, cplx=True)
        loc = loc + loc.conj().T
    T = utils.TB_from_wannier90('seed', d, extend_to_spin=spin, add_local=loc) if c.chance(.5) else utils.TB_from_wannier90(seed='seed', path=d, extend_to_spin=spin, add_local=loc)
    c.check(isinstance(T, TBLattice) and T.n_orbitals == ns and len(set(T.orbital_names)) == ns, 'lattice')
    c.close(T.units, A * scale, 1e-6, 'units')
    c.eq(sorted(T.hoppings), sorted(Rs), 'lattice vectors of the hoppings')
    for v in Rs:
        ref = H[v] / deg[v]
        if spin:
            ref = np.block([[ref, 0 * ref], [0 * ref, ref]])
        if loc is not None and not any(v):
            ref = ref + loc
        c.close(T.hoppings[v], ref, 1e-12, 'hopping', v)
    # broken files
    k = c.i(0, 3)
    bad = txt.rstrip('\n').split('\n')
    if k == 0:
        bad = bad[:-1]
    elif k == 1:
        bad = bad[:3] + bad[4:]
    elif k == 2:
        bad[2] = '%12d' % (n + 1)
    else:
        bad = None
        open(d + 'bad.wout', 'w').write(wout.replace('Lattice Vectors ' + unit, c.pick(['Vectors ' + unit, 'Lattice Vectors (miles)'])))
        c.throws(lambda: utils.parse_lattice_vectors_from_wannier90_wout(d + 'bad.wout'), 'no lattice vectors in the file')
    if bad is not None:
        open(d + 'bad_hr.dat', 'w').write('\n'.join(bad) + '\n')
        c.throws(lambda: utils.parse_hopping_from_wannier90_hr_dat(d + 'bad_hr.dat'), 'broken file', k)
    vmon.count('files')
    c.nontrivial(nw, repr(Rs), unit, spin)


class ptb_model:
    """the parts of a PythTB model which are read"""
    def __init__(self, lat, orb, onsite, hop):
        self._lat, self._orb, self._site_energies, self._hoppings = np.array(lat, dtype=float), np.array(orb, dtype=float), np.array(onsite), hop

    def get_num_orbitals(self):
        return len(self._orb)

    def get_lat(self):
        return self._lat.copy()

    def get_orb(self):
        return self._orb.copy()


def pythtb(c):
    n = c.i(1, 4)
    on = c.array(n)
    hop = []
    for _ in range(c.i(0, 8)):
        R = [c.i(-1, 1) for _ in range(3)]
        i, j = c.i(0, n - 1), c.i(0, n - 1)
        if not any(R) and i == j:
            continue
        hop.append([c.cplx() if c.chance(.6) else c.r(-1, 1), i, j, c.pick([np.array(R), R])])
    lat = np.eye(3) + .3 * c.array(3, 3)
    T = utils.TB_from_pythTB(ptb_model(lat, c.array(n, 3), on, hop))
    c.trace(n, [(i, j, list(R)) for _, i, j, R in hop])
    k = c.array(3)
    H = np.diag(on).astype(complex)
    for t, i, j, R in hop:
        a = t * np.exp(2j * math.pi * np.dot(k, R))
        H[i, j] += a
        H[j, i] += np.conj(a)
    c.close(blochsum(T.hoppings, k), H, 1e-12, 'Hamiltonian at k')
    c.close(T.units, lat, 1e-14, 'units')
    c.check(T.n_orbitals == n and len(set(T.orbital_names)) == n, 'orbitals')
    c.nontrivial(n, repr(hop)[:300])


def to_sympy(c):
    import sympy as sp
    nd, n = c.i(2, 3), c.i(1, 2)
    far = c.i(1, 2)
    D = hoppings(c, nd, n, c.pick(['real', 'complex']), far, c.i(1, 2))
    units = np.round(np.eye(nd) + .4 * c.array(nd, nd), 3)
    T = TBLattice(units, hoppings=D, orbital_positions=[(0, 0, 0)] * n)
    prec = c.pick([3, 6])
    num = c.chance(.5)
    c.trace(nd, n, num, prec, list(D))
    H = utils.TB_to_sympy(T, analytical=not num, precision=prec)
    c.eq(H.shape, (n, n), 'shape')
    k = c.array(nd)
    val = {}
    if num:
        for s, v in zip('xyz', list(k) + [.3]):
            val[sp.Symbol('k' + s, real=True)] = v
        f = units @ k
    else:
        f = k
        for q, v in enumerate(list(k) + [.3]):
            val[sp.Symbol('a%dk' % (q + 1), real=True)] = v
    ref = sum(np.around(m, prec) * np.exp(-1j * np.dot(f, d)) for d, m in D.items())
    got = np.array([[complex(sp.sympify(H[i, j]).subs(val)) for j in range(n)] for i in range(n)])
    c.close(got, ref, 1e-9, 'Hamiltonian at k')
    c.throws(lambda: utils.TB_to_sympy(TBLattice([[1.]], hoppings={(0,): np.eye(1)}, orbital_positions=[(0, 0, 0)])), 'one dimension', of=ValueError)
    c.nontrivial(nd, n, num, prec, repr(list(D)))


if SYMPY:
    group('to_sympy', 40, 300, to_sympy)
else:
    group('superlattice', 1600, 20000, super_)
    group('superlattice_illegal', 80, 400, super_illegal)
    group('tight_binding_lattice', 200, 3000, tblattice)
    group('lattice_points', 200, 3000, points)
    group('patches', 200, 3000, patch)
    group('k_space_path', 150, 2000, path)
    group('wannier90', 150, 3000, wannier)
    group('pythtb', 200, 4000, pythtb)
vmon.finish()
