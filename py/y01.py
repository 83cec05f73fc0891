# Y01: root finders of the Python layer
import vmon, math
from vmon import group
vmon.stage()
with vmon.quiet():
    from triqs.utility.dichotomy import dichotomy
    from triqs.utility.bound_and_bisect import bound_and_bisect, determine_bounds
import numpy as np


class watched:
    """a monotonic function, every call recorded"""
    def __init__(self, f):
        self.f, self.calls = f, []

    def __call__(self, x):
        y = self.f(x)
        self.calls.append((x, y))
        return y


def function(c, rising=None):
    """kind, function, its range"""
    k = c.pick(['linear', 'cubic', 'tanh', 'atan', 'exp', 'steps', 'plateau', 'fermi', 'sqrt', 'kink'])
    s = (1 if c.chance(0.6) else -1) if rising is None else (1 if rising else -1)
    a, b, x0 = c.r(0.1, 5), c.r(-3, 3), c.r(-3, 3)
    w = 10 ** c.r(-2, 1)
    f = {'linear': lambda x: a * (x - x0), 'cubic': lambda x: a * (x - x0)**3, 'tanh': lambda x: a * math.tanh((x - x0) / w), 'atan': lambda x: a * math.atan((x - x0) / w),
         'exp': lambda x: a * math.exp(min((x - x0) / max(w, 0.5), 500)), 'steps': lambda x: a * math.floor((x - x0) / w), 'plateau': lambda x: a * (min(x - x0, 0) + max(x - x0 - w, 0)),
         'fermi': lambda x: 2 / (1 + math.exp(max(min(-(x - x0) / w, 700), -700))), 'sqrt': lambda x: a * math.copysign(math.sqrt(abs(x - x0)), x - x0),
         'kink': lambda x: a * (x - x0) * (100 if x > x0 else 0.01)}[k]
    c.trace(k, 'sign', s, 'a', a, 'b', b, 'x0', x0, 'w', w)
    return k, watched(lambda x: s * f(x) + b), s, (f, a, b, x0, w)


def dich(c):
    k, F, s, par = function(c)
    x0, dx = c.r(-5, 5), c.pick([1e-2, 0.1, 0.5, 1, 3]) * c.pick([1, -1])
    prec = 10 ** c.r(-9, -1)
    loops = c.pick([0, 1, 2, 5, 20, 100, 1000])
    target = F.f(c.r(-6, 6)) if c.chance(0.7) else c.r(-8, 8)
    if c.chance(0.1):
        target = F.f(x0)  # already there
    c.trace('x', x0, 'y', target, 'precision', prec, 'dx', dx, 'loops', loops)
    with vmon.quiet():
        if c.chance(0.5):
            res = dichotomy(F, x0, target, prec, dx, max_loops=loops, x_name='mu', y_name='N', verbosity=c.i(0, 3))
        else:
            res = dichotomy(F, x0, target, prec, dx, loops)
    c.check(isinstance(res, tuple) and len(res) == 2, 'returns', res)
    x, y = res
    n = len(F.calls)
    c.check(n <= loops + 2, n, 'evaluations with', loops, 'loops')
    if x is None or y is None:
        c.check(x is None and y is None, 'half a failure', res)
        vmon.count('reported_failures')
        c.check(n >= loops, 'failure after', n, 'evaluations only, with', loops, 'loops')
        # a failure is not reported for a solution which was found: the last value it had is not good enough
        c.check(not (abs(F.f(x0) - target) < prec), 'failure although the starting point is a solution')
        # continuous rising functions, with enough steps to bracket and to converge linearly
        reach = abs(dx) * loops
        if s > 0 and k == 'linear' and loops >= 1000:
            xs = par[3] + (target - par[2]) / par[1]
            c.check(abs(xs - x0) > abs(dx) * (loops - 3), 'failure for a straight line with root', xs, 'from', x0)
    else:
        c.check(y == F.f(x), 'y is not the value at x:', y, 'is not', F.f(x))
        c.check(abs(y - target) <= prec, 'not converged: |', y, '-', target, '| >', prec)
        c.check(any(x == q for q, _ in F.calls), 'the function was never called at the solution')
        vmon.count('solutions')
    vmon.count('evaluations', n)
    c.nontrivial(k, s, x0, target, loops)


def dich_hits(c):
    """smooth rising functions within reach: a solution must be found"""
    k = c.pick(['linear', 'fermi', 'tanh', 'atan'])
    a, x0, w = c.r(0.5, 3), c.r(-3, 3), c.r(0.5, 3)
    f = {'linear': lambda x: a * (x - x0), 'fermi': lambda x: 2 / (1 + math.exp(max(min(-(x - x0) / w, 700), -700))), 'tanh': lambda x: a * math.tanh((x - x0) / w), 'atan': lambda x: a * math.atan((x - x0) / w)}[k]
    F = watched(f)
    xs = x0 + w * c.r(-1.5, 1.5)
    start = xs + c.r(-4, 4)
    dx = c.pick([0.05, 0.3, 1, 2])
    prec = 10 ** c.r(-8, -2)
    c.trace(k, a, x0, w, 'root', xs, 'start', start, 'dx', dx, 'precision', prec)
    with vmon.quiet():
        x, y = dichotomy(F, start, f(xs), prec, dx, x_name='x', y_name='y', verbosity=0)
    c.check(x is not None, 'no solution found after', len(F.calls), 'evaluations')
    c.check(y == f(x) and abs(y - f(xs)) <= prec, 'not converged')
    lo, hi = min(q for q, _ in F.calls), max(q for q, _ in F.calls)
    c.check(min(start, xs) - dx - 1e-9 <= lo and hi <= max(start, xs) + dx + 1e-9, 'searches beyond the bracket:', lo, hi)
    vmon.count('solutions')
    vmon.count('evaluations', len(F.calls))
    c.nontrivial(k, xs, start, dx)


def bisect(c):
    k, F, s, par = function(c)
    x0, dx = c.r(-5, 5), c.pick([1e-2, 0.1, 0.5, 1, 3]) * c.pick([1, 1, -1])
    xtol = 10 ** c.r(-9, -1)
    it = c.pick([5, 30, 100, 1000])
    target = F.f(c.r(-6, 6)) if c.chance(0.7) else c.r(-8, 8)
    if c.chance(0.1):
        target = F.f(x0)
    c.trace('x', x0, 'y', target, 'xtol', xtol, 'dx', dx, 'maxiter', it)
    try:
        with vmon.quiet():
            x, y = bound_and_bisect(F, x0, target, dx, xtol, 'x', 'y', it, c.i(0, 1))
    except (ValueError, RuntimeError) as e:
        vmon.count('reported_failures')
        c.check(len(F.calls) <= 3 * it + 20, len(F.calls), 'evaluations with', it, 'iterations')
        # enough steps to find the bounds of a straight line, and to halve them
        if k == 'linear' and it >= 1000:
            xs = par[3] + s * (target - par[2]) / par[1]
            c.check(abs(xs - x0) > abs(dx) * (it - 3), 'failure for a straight line with root', xs, 'from', x0, e)
        c.nontrivial(k, s, x0, target, 'failed')
        return
    c.check(y == F.f(x), 'y is not the value at x:', y, 'is not', F.f(x))
    c.check(len(F.calls) <= 3 * it + 20, len(F.calls), 'evaluations with', it, 'iterations')
    # the function crosses the target within the tolerance of x
    t = 1.001 * xtol + 1e-14 * abs(x)
    l, r = s * (F.f(x - t) - target), s * (F.f(x + t) - target)
    c.check(l <= 1e-12 and r >= -1e-12, 'the function does not cross', target, 'within', t, 'of', x, ':', F.f(x - t), F.f(x + t))
    vmon.count('solutions')
    vmon.count('evaluations', len(F.calls))
    c.nontrivial(k, s, x0, target)


def bounds(c):
    k, F, s, par = function(c)
    x0, dx, it = c.r(-5, 5), c.pick([0.01, 0.1, 0.7, 2, -0.5]), c.pick([3, 20, 500])
    c.trace('x', x0, 'dx', dx, 'maxiter', it)
    try:
        a, b = determine_bounds(F, x0, dx, it)
    except ValueError:
        vmon.count('reported_failures')
        # which is right: no value of the other sign on the whole search range (or the start is flat)
        flat = F.f(x0 + dx) == F.f(x0)
        ys = [F.f(x0 + q * dx) for q in range(-it + 1, it)]
        c.check(flat or not (min(ys) < 0 < max(ys)), 'bounds not found although there are:', min(ys), max(ys))
        c.nontrivial(k, s, x0, dx, 'failed')
        return
    c.check(F.f(a) < 0 < F.f(b), 'not bounds:', F.f(a), F.f(b))
    c.check(abs(a - x0) <= abs(dx) * (it + 1) * 1.0000001 and abs(b - x0) <= abs(dx) * (it + 1) * 1.0000001, 'bounds out of the search range')
    # the closest ones on the grid of the search
    if a != x0:
        c.check(not F.f(a + math.copysign(dx, x0 - a)) < -1e-9 * (1 + abs(F.f(a))), 'the lower bound is not the closest one')
    if b != x0:
        c.check(not F.f(b + math.copysign(dx, x0 - b)) > 1e-9 * (1 + abs(F.f(b))), 'the upper bound is not the closest one')
    vmon.count('solutions')
    c.nontrivial(k, s, x0, dx)


def defaults(c):
    """only the arguments that have no default, in any mixture: the documented defaults y = 0, dx = 1, xtol = 1e-3, 1000 loops"""
    k = c.pick(['linear', 'tanh', 'atan'])
    s, a, b, x0, w = c.pick([1, -1]), c.r(0.5, 3), c.r(-0.3, 0.3), c.r(-3, 3), c.r(0.5, 3)
    f = {'linear': lambda x: a * (x - x0), 'tanh': lambda x: a * math.tanh((x - x0) / w), 'atan': lambda x: a * math.atan((x - x0) / w)}[k]
    F = watched(lambda x: s * f(x) + b)
    start = x0 + c.r(-6, 6)
    kw = {n: v for n, v in (('y', c.r(-0.2, 0.2)), ('dx', c.r(0.1, 2)), ('xtol', 10 ** c.r(-8, -1)), ('maxiter', 500), ('x_name', 'mu'), ('y_name', 'N'), ('verbosity', c.i(0, 2))) if c.chance(0.3)}
    c.trace(k, s, a, b, x0, w, start, kw)
    with vmon.quiet():
        x, y = bound_and_bisect(F, start, **kw)
    c.check(y == F.f(x), 'y is not the value at x')
    t, target = 1.001 * kw.get('xtol', 1e-3) + 1e-14 * abs(x), kw.get('y', 0.)
    l, r = s * (F.f(x - t) - target), s * (F.f(x + t) - target)
    c.check(l <= 1e-12 and r >= -1e-12, 'the function does not cross', target, 'within', t, 'of', x)
    # the bounds were looked for in steps of dx
    dx = kw.get('dx', 1.)
    q = (np.array([p for p, _ in F.calls[:3]]) - start) / dx
    c.check(np.abs(q - np.round(q)).max() < 1e-9, 'first steps', q, 'in units of dx')
    vmon.count('solutions')
    c.nontrivial(k, s, start, sorted(kw))


group('dichotomy', 3000, 60000, dich)
group('dichotomy_converges', 1500, 30000, dich_hits)
group('bound_and_bisect', 3000, 60000, bisect)
group('determine_bounds', 1500, 30000, bounds)
group('defaults', 800, 20000, defaults)
vmon.finish()
