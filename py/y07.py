"""What is handed to the plotter, and least-squares fits, against the stored data and the normal equations."""
import re, math, os, sys, types, warnings
from itertools import product
import numpy as np
import vmon
from vmon import group

for k in ('OMPI_COMM_WORLD_RANK', 'PMI_RANK', 'CRAY_MPICH_VERSION', 'TRIQS_FORCE_MPI_INIT'):
    os.environ.pop(k, None)
warnings.simplefilter('ignore')
STAT = 'from . import histogram\n'
vmon.stage(stubs=['triqs', 'h5'], extra={'triqs/__init__.py': '', 'triqs/stat/__init__.py': STAT})

# ---------------------------------------------------------------- a recorder in the place of matplotlib
calls = []


class rec:
    def __init__(self, who):
        self.who = who

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: calls.append((self.who, name, a, k))


mpl, plt = types.ModuleType('matplotlib'), types.ModuleType('matplotlib.pyplot')


class Axes(rec):
    def __init__(self):
        rec.__init__(self, 'axes')


mpl.axes = types.SimpleNamespace(Axes=Axes)
mpl.pyplot, mpl.rc = plt, lambda *a, **k: None
LIM = [-2., 3.]


def record(name):
    def f(*a, **k):
        if name == 'xlim' and not a and not k:
            return tuple(LIM)
        if name == 'plot' and getattr(rec, 'refuse', None):
            raise TypeError(rec.refuse)
        calls.append(('plt', name, a, k))
    return f


TEX = {'omega', 'tau', 'nu', 'epsilon', 'ell', 'infty', 'mathrm', 'beta', 'pi', 'rho', 'Sigma'}
for n in ('plot', 'bar', 'contourf', 'xlabel', 'ylabel', 'legend', 'title', 'xticks', 'xlim', 'figure', 'subplot', 'subplots', 'semilogx'):
    setattr(plt, n, record(n))
plt.gcf = lambda: types.SimpleNamespace(number=7)
sys.modules['matplotlib'], sys.modules['matplotlib.pyplot'] = mpl, plt

with vmon.quiet():
    import triqs.utility.mpi
from triqs.gf import *
from triqs.gf import Gf, BlockGf, Block2Gf
from triqs.plot.protocol import clip_array, plot_protocol_apply, plot_function_table
from triqs.plot.mpl_interface import oplot, oploti, oplotr
from triqs.dos import DOS
from triqs.fit import Fit, linear, quadratic
from triqs.stat import histogram


# ------------------------------------------------------------------ meshes, functions and options
def mesh(c):
    """a mesh, its abscissas, and the name of the variable in the labels"""
    k = c.pick(['imfreq', 'imfreq', 'imtime', 'refreq', 'retime', 'legendre', 'dlr_imfreq', 'dlr_imtime'])
    b, s, n = c.pick([1., 10., 3.7]), c.pick(['Fermion', 'Boson']), c.i(2, 9)
    if k == 'imfreq':
        m = MeshImFreq(b, s, n)
        x = [math.pi / b * (2 * q + (s == 'Fermion')) for q in (range(-n, n) if s == 'Fermion' else range(-n + 1, n))]
    elif k == 'imtime':
        m, x = MeshImTime(b, s, n), [b * q / (n - 1) for q in range(n)]
    elif k in ('refreq', 'retime'):
        lo, w = c.r(-5, 5), c.r(.5, 9)
        m, x = (MeshReFreq if k == 'refreq' else MeshReTime)(lo, lo + w, n), [lo + w * q / (n - 1) for q in range(n)]
    elif k == 'legendre':
        m, x = MeshLegendre(b, s, n), range(n)
    else:
        m = (MeshDLRImFreq if k == 'dlr_imfreq' else MeshDLRImTime)(b, s, 2., 1e-6)
        x = [v.imag if k == 'dlr_imfreq' else float(v) for v in m.values()]
    var = {'imfreq': r'i\omega_n', 'dlr_imfreq': r'i\omega_n', 'imtime': r'\tau', 'dlr_imtime': r'\tau', 'refreq': r'\omega', 'retime': 't', 'legendre': 'l_n'}[k]
    c.trace(k, b, s, 'points', len(x))
    x = np.array(list(x), float)
    if k != 'legendre':
        y = np.array([complex(v).imag if k.endswith('imfreq') else float(v) for v in m.values()])
        assert np.allclose(x, y)
        x = y  # the same up to rounding; windows may end exactly on a point
    return k, m, x, var


def function(c, m, L, name='G', shape=None, real=None):
    shape = shape if shape is not None else c.pick([(), (1, 1), (2, 2), (2, 3), (1, 3), (2, 1, 3), (4,)])
    real = c.chance(.3) if real is None else real
    d = c.array(L, *shape, cplx=not real)
    return Gf(mesh=m, data=d, name=name), d


def window(c, x):
    """a window, with ends on points or between them, or without any point"""
    if c.chance(.3):
        return None
    e = [c.pick(list(x)) if c.chance(.6) else c.r(x.min() - 1, x.max() + 1) for _ in range(2)]
    return (min(e), max(e))


def inside(x, w):
    return np.ones(len(x), bool) if w is None else (x >= w[0]) & (x <= w[1])


def options(c):
    o = {}
    for k, v in (('color', 'red'), ('linewidth', 3), ('alpha', .5), ('marker', '+')):
        if c.chance(.25):
            o[k] = v
    return o


PARTS = {'': lambda z: [('Re ', z.real), ('Im ', z.imag)], 'R': lambda z: [('Re ', z.real)], 'I': lambda z: [('Im ', z.imag)], 'S': lambda z: [('', -z.imag / math.pi)]}


def expected(d, name, mode):
    """label -> values, for every component and part"""
    out = {}
    for ind in product(*map(range, d.shape[1:])):
        z = d[(slice(None),) + ind]
        for p, v in ([('', z)] if d.dtype == float else PARTS[mode](z)):
            out['%s%s %s' % (p, name, '_'.join(map(str, ind)))] = v
    return out


def judge(c, curves, want, x, sel, opts, what):
    c.eq(sorted(q['label'] for q in curves), sorted(want), what + ': labels')
    for q in curves:
        c.close(np.asarray(q['xdata'], float), x[sel], 1e-12 * (1 + np.abs(x).max()), what, 'abscissas of', q['label'])
        c.check(not np.iscomplexobj(q['ydata']), what, 'complex ordinates')
        c.close(np.asarray(q['ydata']), want[q['label']][sel], 1e-14 * (1 + np.abs(want[q['label']]).max()), what, 'ordinates of', q['label'])
        for k, v in opts.items():
            c.check(k in q and q[k] == v, what, 'option', k, 'lost')
        c.check(not ({'x_window', 'mode', 'name', 'n_points'} & set(q)), what, 'options of the object handed to matplotlib', sorted(q))
    vmon.count('curves', len(curves))


# ------------------------------------------------------------------ Green functions
def curves(c):
    k, m, x, var = mesh(c)
    nm = c.pick(['G', '', r'$\Sigma$', 'a_b'])
    g, d = function(c, m, len(x), nm)
    keep = d.copy()
    w, o = window(c, x), options(c)
    mode = c.pick(['', '', 'R', 'I'] + (['S'] if k == 'refreq' else []))
    arg = dict(o)
    if w is not None:
        arg['x_window'] = w
    if mode or c.chance(.2):
        arg['mode'] = mode
    name = nm
    if c.chance(.4):
        arg['name'] = name = c.pick(['H', 'x y', ''])
    c.trace('target', g.target_shape, 'real' if d.dtype == float else 'complex', 'options', arg)
    if k.startswith('dlr') and 'marker' not in o:
        o['marker'] = 'x'
    r = plot_protocol_apply(g, arg, None)
    judge(c, r, expected(d, name, mode), x, inside(x, w), o, 'curves')
    for q in r:
        c.check(var in q['ylabel'] and (name in q['ylabel'] if name else True), 'label of the ordinate', q['ylabel'])
        c.check(q['xlabel'].count('$') == 2, 'label of the abscissa', q['xlabel'])
        c.check(set(re.findall(r'\\([A-Za-z]+)', q['xlabel'] + q['ylabel'])) <= TEX, 'not TeX', q['xlabel'], q['ylabel'])
        if k.startswith('dlr'):
            c.eq(q.get('linestyle'), 'None', 'nodes of a DLR mesh joined by lines')
    c.check(np.array_equal(g.data, keep) and g.name == nm, 'the function was changed by plotting')
    # the same through views: a slice of the target, real and imaginary part
    if len(g.target_shape) == 2 and c.chance(.5):
        i, j = (c.i(0, q - 1) for q in g.target_shape)
        judge(c, plot_protocol_apply(g[i, j], dict(name='s'), None), expected(d[:, i, j], 's', ''), x, inside(x, None), {}, 'element')
        judge(c, plot_protocol_apply(g.imag, dict(name='i'), None), expected(d.imag.copy(), 'i', ''), x, inside(x, None), {}, 'imaginary part')
    # meaningless modes are refused
    if d.dtype != float:
        if k != 'refreq':
            c.throws(lambda: plot_protocol_apply(g, {'mode': 'S'}, None), 'spectral function of', k, of=ValueError)
        c.throws(lambda: plot_protocol_apply(g, {'mode': 'Q'}, None), 'mode Q', of=ValueError)
    c.nontrivial(k, g.target_shape, w, mode, sorted(o))


def blocks(c):
    k, m, x, var = mesh(c)
    names = c.pick([['up', 'down'], ['a'], ['0', '1', '2'], ['z', 'y', 'x']])
    two = c.chance(.3)
    shape = c.pick([None, (), (2, 2)])
    if two:
        n2 = c.pick([['p', 'q'], ['u']])
        gs = {(a, b): function(c, m, len(x), '', shape or (1, 1)) for a in names for b in n2}
        G = Block2Gf(names, n2, [[gs[a, b][0] for b in n2] for a in names], name='B')
    else:
        gs = {a: function(c, m, len(x), '', shape or c.pick([(1, 1), (2, 2)])) for a in names}
        G = BlockGf(name_list=names, block_list=[gs[a][0] for a in names], name='B')
    w, o = window(c, x), options(c)
    mode = c.pick(['', 'R', 'I'])
    arg = dict(o, mode=mode)
    if w is not None:
        arg['x_window'] = w
    if k.startswith('dlr') and 'marker' not in o:
        o['marker'] = 'x'
    c.trace('blocks', list(gs), 'options', arg)
    r = plot_protocol_apply(G, arg, None)
    want = {}
    for n, (g, d) in gs.items():
        for q, v in expected(d, g.name, mode).items():
            c.check(q not in want, 'blocks of the same name', q)
            want[q] = v
    judge(c, r, want, x, inside(x, w), o, 'blocks')
    c.check(len({q['ylabel'] for q in r}) == 1 and 'B' in r[0]['ylabel'], 'labels of the ordinate', {q['ylabel'] for q in r})
    c.eq(G.name, 'B', 'name after plotting')
    c.nontrivial(k, two, names, w, mode)


def view(c):
    k, m, x, var = mesh(c)
    if k == 'legendre':
        k, m, x, var = 'refreq', MeshReFreq(0., 1., 5), np.linspace(0, 1, 5), ''
    g, d = function(c, m, len(x))
    w, fl = window(c, x), c.chance(.5)
    c.trace('window', w, 'flatten', fl, g.target_shape)
    X, Y = g.x_data_view(w, fl)
    s = inside(x, w)
    c.close(np.asarray(X, float), x[s], 1e-12 * (1 + np.abs(x).max()), 'abscissas')
    ref = d[s]
    if fl and ref.shape[1:] == (1, 1):
        ref = ref[:, 0, 0]
    c.close(Y, ref, 0, 'data')
    c.check(not Y.size or np.shares_memory(Y, g.data), 'the data are not a view')
    c.nontrivial(k, w, fl, g.target_shape)


def clip(c):
    n = c.i(0, 12)
    x = np.sort(np.array([c.i(-5, 5) if c.chance(.5) else c.r(-5, 5) for _ in range(n)], float))
    lo, hi = sorted(c.pick(list(x)) if n and c.chance(.5) else c.r(-7, 7) for _ in range(2))
    c.trace(x.tolist(), lo, hi)
    a = x if c.chance(.5) else x.tolist()
    s = clip_array(a, lo, hi)
    c.eq(list(a[s]), [v for v in x.tolist() if lo <= v <= hi], 'points of the window')
    if lo < hi:
        c.throws(lambda: clip_array(a, hi, lo), 'reversed window')
    c.nontrivial(n, lo, hi)


# ------------------------------------------------------------------ other objects
class Reg:
    pass


def others(c):
    kind = c.pick(['function', 'points', 'registered', 'dos', 'histogram', 'fit', 'nothing'])
    o = options(c)
    cplx = c.chance(.4)
    c.trace(kind, o, 'complex' if cplx else 'real')
    if kind in ('function', 'fit'):
        a, b = c.r(-2, 2), c.r(-2, 2)
        if kind == 'function':
            f = (lambda x: complex(a * x, b * x * x)) if cplx else (lambda x: a * x + b)
        else:
            X = np.linspace(0, 1, 9)
            f = Fit(X, a * X + b, linear)
        lims = sorted([c.r(-3, 3), c.r(-3, 3)])
        w = tuple(sorted([c.r(-3, 3), c.r(-3, 3)])) if c.chance(.5) else None
        arg = dict(o)
        if w:
            arg['x_window'] = w
        n = c.i(2, 30) if c.chance(.5) else None
        if n:
            arg['n_points'] = n
        arg['name'] = 'f'
        r = plot_protocol_apply(f, arg, lambda: tuple(lims))
        lo, hi = w or lims
        for q in r:
            x = np.asarray(q['xdata'], float)
            c.check(abs(len(x) - (n or 100)) <= 1, len(x), 'points instead of', n or 100)
            c.close(x[0], lo, 1e-12, 'first abscissa')
            c.check(x[-1] <= hi + 1e-9 and x[-1] >= hi - 1.01 * (hi - lo) / (n or 100) - 1e-9, 'last abscissa', x[-1], 'of', lo, hi)
            c.check(np.allclose(np.diff(x), np.diff(x).mean()) if len(x) > 1 else True, 'uneven abscissas')
            y = np.array([f(t) for t in x])
            part = y.real if q['label'].startswith('Re') or not np.iscomplexobj(y) else y.imag
            c.close(np.asarray(q['ydata']), part, 1e-13, 'ordinates')
        c.eq(sorted(q['label'] for q in r), ['Im f', 'Re f'] if kind == 'function' and cplx else ['f'], 'labels')
    elif kind == 'points':
        n = c.i(1, 7)
        x, y = c.array(n), c.array(n, cplx=cplx)
        src = list(zip(x, y)) if c.chance(.5) else (p for p in zip(x, y))
        if c.chance(.3):
            src = np.array([x, y]).T
            cplx, x = cplx, src[:, 0]
        r = plot_protocol_apply(src, dict(o, name='p'), None)
        c.eq(sorted(q['label'] for q in r), ['Im p', 'Re p'] if cplx else ['p'], 'labels')
        for q in r:
            c.close(np.asarray(q['xdata']), x, 0, 'abscissas')
            c.close(np.asarray(q['ydata']), y.real if 'Im' not in q['label'] else y.imag, 0, 'ordinates')
    elif kind == 'registered':
        plot_function_table[Reg] = lambda ob, opt: [dict(opt, xdata=[1], ydata=[2], label='reg')]
        r = plot_protocol_apply(Reg(), dict(o), None)
        c.eq(len(r), 1, 'curves')
    elif kind == 'dos':
        e = np.sort(c.array(6))
        y = c.array(6)
        D = DOS(e, y, 'D')
        name = 'D'
        arg = dict(o)
        if c.chance(.5):
            arg['name'] = name = 'E'
        r = plot_protocol_apply(D, arg, None)
        c.eq([q['label'] for q in r], [name], 'label')
        c.check(name in r[0]['ylabel'] and 'name' not in r[0], 'label of the ordinate')
        c.close(r[0]['xdata'], e, 0, 'energies')
        c.close(r[0]['ydata'], y, 0, 'density')
    elif kind == 'histogram':
        n, lo = c.i(2, 9), c.r(-3, 3)
        hi = lo + c.r(.1, 5)

        class H:
            limits, data = (lo, hi), np.array([float(c.i(0, 9)) for _ in range(n)])

            def __len__(self):
                return n
            _plot_ = histogram.plot
        bar = c.chance(.5)
        arg = dict(o, type='bar') if bar else dict(o)
        wd = (hi - lo) / (n - 1)
        if bar and c.chance(.5):
            arg['width'] = wd = c.r(.01, 1)
        r = plot_protocol_apply(H(), arg, None)
        c.eq(r[0]['plot_function'], 'bar' if bar else 'plot', 'kind of plot')
        c.close(r[0]['ydata'], H.data, 0, 'counts')
        # the bins are centred on the mesh points; matplotlib is given centres for lines and the left ends for bars
        c.close(r[0]['xdata'], np.linspace(lo, hi, n) - (wd / 2 if bar else 0), 1e-12 * 10, 'positions')
        if bar:
            c.close(r[0]['width'], wd, 1e-12, 'width')
    else:
        c.throws(lambda: plot_protocol_apply(c.pick([3., None, 'abc', [1, 2]]), {}, None), 'object without any curve')
        r = []
    for q in r:
        for k, v in o.items():
            c.check(k in q and q[k] == v, 'option', k, 'lost for', kind)
    vmon.count('curves', len(r))
    c.nontrivial(kind, cplx, sorted(o), len(r) and len(r[0]['xdata']))


def interface(c):
    """oplot: every curve reaches matplotlib once, with the options, and nothing else does"""
    k, m, x, var = mesh(c)
    if k.startswith('dlr'):
        k, m, x, var = 'refreq', MeshReFreq(0., 1., 5), np.linspace(0, 1, 5), r'\omega'
    g, d = function(c, m, len(x), 'G')
    w, o = window(c, x), options(c)
    arg = dict(o)
    if w is not None:
        arg['x_window'] = w
    how = c.pick(['oplot', 'axes', 'oploti', 'oplotr'])
    deco = {}
    if c.chance(.3):
        deco['title'] = 'T%d' % c.i(0, 9)
    if c.chance(.3):
        deco['xticks'] = ([0, 1], ['a', 'b'])
    if c.chance(.3):
        deco['legend'] = c.chance(.3)
    arg.update(deco)
    fmt = c.pick([(), ('-o',)])
    keep = dict(arg)
    c.trace(how, fmt, arg)
    del calls[:]
    if how == 'axes':
        Axes().oplot(g, *fmt, **arg)
    elif how == 'oplot':
        if c.chance(.3):
            arg['num'] = 4
        oplot(g, *fmt, **arg)
    else:
        (oploti if how == 'oploti' else oplotr)(g, *fmt, **arg)
    arg.pop('num', None)
    c.eq(arg, keep, 'options of the caller')
    want = expected(d, 'G', {'oploti': 'I', 'oplotr': 'R'}.get(how, ''))
    top = 'axes' if how == 'axes' else 'plt'
    pl = [q for q in calls if q[:2] == (top, 'plot')]
    c.eq(sorted(q[3].get('label') for q in pl), sorted(want), 'curves plotted')
    s = inside(x, w)
    for _, _, a, kw in pl:
        c.eq(tuple(a[2:]), fmt, 'format')
        c.close(np.asarray(a[0], float), x[s], 1e-12 * (1 + np.abs(x).max()), 'abscissas')
        c.close(np.asarray(a[1]), want[kw['label']][s], 1e-14 * 10, 'ordinates')
        c.eq({q: v for q, v in kw.items() if q != 'label'}, o, 'options handed to matplotlib')
    names = [q[1] for q in calls]
    pre = 'set_' if how == 'axes' else ''
    c.check(pre + 'xlabel' in names and pre + 'ylabel' in names, 'no labels', names)
    c.eq('legend' in names, deco.get('legend', True), 'legend')
    c.eq({q[2] for q in calls if q[1] == pre + 'title'}, {(deco['title'],)} if 'title' in deco else set(), 'title')
    c.eq([list(q[2]) for q in calls if q[1] == pre + 'xticks'][:1], [list(deco['xticks'])] if 'xticks' in deco else [], 'ticks')
    vmon.count('curves', len(pl))
    # options which are not understood are refused
    if c.chance(.3):
        rec.refuse = c.pick(['There is no line property "colour"', 'unexpected'])
        try:
            c.throws(lambda: oplot(g, colour='x'), 'an unknown option', of=RuntimeError if 'line' in rec.refuse else TypeError)
        finally:
            rec.refuse = None
    c.nontrivial(how, k, g.target_shape, w, fmt)


# ------------------------------------------------------------------ fits
def fits(c):
    kind = c.pick(['linear', 'quadratic', 'own', 'one', 'many', 'complex', 'complex2'])
    n = c.i(8, 40)
    x = np.sort(c.array(n, lo=-3, hi=3)) if c.chance(.5) else np.linspace(c.r(-3, 0), c.r(1, 4), n)
    noise = c.pick([0, 0, 1e-3, .3])
    c.trace(kind, n, 'points, noise', noise)
    one = lambda X, a, b: 1 / (a * X * 1j + b), r'${1}/(%f x + %f)$', (1, 1)
    if kind == 'linear':
        F, basis = linear, [x, x**0]
    elif kind == 'quadratic':
        F, basis = quadratic, [x * x, x, x**0]
    elif kind == 'own':
        F, basis = (lambda X, a, b: a * np.sin(X) + b * X, '%f sin + %f x', (1, 1)), [np.sin(x), x]
    elif kind == 'many':
        F, basis = (lambda X, a, b, d, e: a + b * X + d * np.cos(2 * X) + e * np.exp(-X * X), '%f %f %f %f', (1, 1, 1, 1)), [x**0, x, np.cos(2 * x), np.exp(-x * x)]
    elif kind == 'complex':
        F, basis = (lambda X, a, b, d: a * np.exp(1j * X) + 1j * b * X + d, '%f %f %f', (1, 1, 1)), [np.exp(1j * x), 1j * x, x**0 + 0j]
    elif kind == 'complex2':
        F, basis = (lambda X, a, b: a * X + 1j * b / (X + 5), '%f %f', (1, 1)), [x + 0j, 1j / (x + 5)]
    else:
        F, basis = one, None
    if kind in ('complex', 'complex2'):
        B = np.array(basis).T
        p = c.array(len(basis), lo=-3, hi=3)
        y = B @ p + noise * (c.array(n) + 1j * c.array(n))
        both = lambda a: np.concatenate([a.real, a.imag])
        ref = np.linalg.lstsq(both(B), both(y), rcond=None)[0]
        tol = 1e-3 if noise else 1e-5
    elif basis is not None:
        B = np.array(basis).T
        if np.linalg.cond(B) > 1e3:
            return
        p = c.array(len(basis), lo=-3, hi=3)
        y = B @ p + noise * c.array(n)
        ref = np.linalg.lstsq(B, y, rcond=None)[0]
        tol = 1e-3 if noise else 1e-5
    else:
        p = np.array([c.r(.5, 2), c.r(.5, 2)])
        y = one[0](x, *p)
        ref, tol = p, 1e-4
    p0 = None
    if c.chance(.6):
        p0 = [v + c.r(-.3, .3) for v in ref]
        p0 = c.pick([list, tuple, np.array])(p0)
    kx, ky = x.copy(), y.copy()
    fit = Fit(x, y, F, p0)
    c.check(np.array_equal(x, kx) and np.array_equal(y, ky), 'the data were changed')
    c.eq(len(fit.param), len(ref), 'number of parameters')
    # the sum of the squares is minimal: compared with the exact minimum, and with the exact parameters
    chi = lambda q: float((np.abs(F[0](x, *q) - y)**2).sum())
    c.check(chi(fit.param) <= chi(ref) * (1 + 1e-6) + 1e-10, 'not the minimum:', chi(fit.param), 'above', chi(ref))
    c.close(np.asarray(fit.param), np.asarray(ref), tol * (1 + np.abs(ref).max()) * 10, 'parameters')
    z = c.array(3)
    c.close(fit(z), F[0](z, *fit.param), 0, 'the fit as a function')
    c.close(fit(.5), F[0](.5, *fit.param), 0, 'the fit as a function')
    c.check(all(('%f' % abs(v)) in str(fit) for v in fit.param), 'printed as', str(fit), 'with', fit.param)
    c.throws(lambda: Fit(x[:-1], y, F), 'arrays of different lengths')
    c.throws(lambda: Fit(x[:len(ref)], y[:len(ref)], F), 'as many parameters as points')
    c.throws(lambda: Fit(x, y, (F[0], F[1], F[2] + (1,))), 'wrong number of initial values')
    vmon.count('fits')
    c.nontrivial(kind, n, noise, type(p0).__name__)


def fit_window(c):
    """the documented way: data of a Green function in a window"""
    n, b = c.i(20, 60), c.r(5, 50)
    e = c.r(.3, 1.5)
    m = MeshImFreq(b, 'Fermion', n)
    w = np.array([math.pi / b * (2 * q + 1) for q in range(-n, n)])
    g = Gf(mesh=m, data=(1 / (1j * w + e)).reshape(-1, 1, 1).copy())
    hi = w[-1] * c.r(.5, 1.2)
    X, Y = g.x_data_view(x_window=(0, hi), flatten_y=True)
    s = (w >= 0) & (w <= hi)
    B = np.array([w[s], w[s]**0]).T
    if s.sum() < 3:
        return
    f = Fit(X, Y.imag, linear)
    ref = np.linalg.lstsq(B, (1 / (1j * w[s] + e)).imag, rcond=None)[0]
    c.close(np.asarray(f.param), ref, 1e-3 * (1 + np.abs(ref).max()), 'parameters of the window')
    o = Fit(X, Y, (lambda X, a, b: 1 / (a * X * 1j + b), r'${1}/(%f x + %f)$', (1, 1)))
    c.close(np.asarray(o.param), np.array([1, e]), 1e-4, 'level')
    vmon.count('fits', 2)
    c.nontrivial(n, b, e)


group('curves', 1500, 40000, curves)
group('blocks', 500, 12000, blocks)
group('view', 600, 12000, view)
group('clip', 1000, 20000, clip)
group('others', 1200, 30000, others)
group('interface', 500, 12000, interface)
group('fits', 800, 20000, fits)
group('fit_window', 100, 2000, fit_window)
vmon.finish()
