"""Stand-in for the compiled module of the same name: polynomials of fermion operators as sorted monomials with coefficients."""
import numbers
import numpy as np


def _key(o):
    # creation operators first by rising index, then annihilation operators by falling index
    dag, ind = o
    return (0, ind) if dag else (1, ind)


def _rank(ind):
    return tuple((1, i) if isinstance(i, str) else (0, i) for i in ind)


def _after(a, b):
    """is a to stand to the right of b in the canonical order"""
    if a[0] != b[0]:
        return not a[0]
    return _rank(a[1]) > _rank(b[1]) if a[0] else _rank(a[1]) < _rank(b[1])


def _normal(mono, coeff, out):
    todo = [(tuple(mono), coeff)]
    while todo:
        m, v = todo.pop()
        for k in range(len(m) - 1):
            a, b = m[k], m[k + 1]
            if a == b:
                break
            if _after(a, b):
                todo.append((m[:k] + (b, a) + m[k + 2:], -v))
                if a[0] != b[0] and a[1] == b[1]:
                    todo.append((m[:k] + m[k + 2:], v))
                break
        else:
            out[m] = out.get(m, 0) + v


class Operator:
    __array_ufunc__ = None
    threshold = 1e-15

    def __init__(self, x=None):
        self.m = {}
        if isinstance(x, Operator):
            self.m = dict(x.m)
        elif x is not None and x != 0:
            self.m = {(): _num(x)}

    @staticmethod
    def _of(d):
        r = Operator()
        r.m = {k: v for k, v in d.items() if abs(v) >= Operator.threshold}
        return r

    def __iter__(self):
        for k in sorted(self.m, key=lambda q: (len(q), [(not d, _rank(i)) for d, i in q])):
            yield [(d, list(i)) for d, i in k], self.m[k]

    def __add__(self, o):
        o = o if isinstance(o, Operator) else Operator(_num(o))
        d = dict(self.m)
        for k, v in o.m.items():
            d[k] = d.get(k, 0) + v
        return Operator._of(d)

    __radd__ = __add__

    def __neg__(self):
        return Operator._of({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        if isinstance(o, Operator):
            d = {}
            for a, v in self.m.items():
                for b, w in o.m.items():
                    _normal(a + b, v * w, d)
            return Operator._of(d)
        o = _num(o)
        return Operator._of({k: v * o for k, v in self.m.items()})

    def __rmul__(self, o):
        return self * _num(o)

    def __truediv__(self, o):
        return self * (1 / _num(o))

    def is_zero(self):
        return not self.m

    @property
    def real(self):
        return Operator._of({k: complex(v).real for k, v in self.m.items()})

    @property
    def imag(self):
        return Operator._of({k: complex(v).imag for k, v in self.m.items()})

    def __repr__(self):
        return ' + '.join('%s*%s' % (v, ' '.join(('c_dag' if d else 'c') + repr(i) for d, i in k)) for k, v in self.m.items()) or '0'


def _num(x):
    if not isinstance(x, (numbers.Number, np.number, np.bool_)):
        raise TypeError('not a number: %r' % (x,))
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        return x
    return float(x)


def c(*i):
    return Operator._of({((False, i),): 1.0})


def c_dag(*i):
    return Operator._of({((True, i),): 1.0})


def n(*i):
    return Operator._of({((True, i), (False, i)): 1.0})


def dagger(o):
    d = {}
    for k, v in o.m.items():
        _normal(tuple((not a, i) for a, i in reversed(k)), complex(v).conjugate() if isinstance(v, complex) else v, d)
    return Operator._of(d)
