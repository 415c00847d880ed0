"""Vocabulary for writing what is required: arithmetic on terms, series, trapezoidal averages."""
from fractions import Fraction
from .values import *
from . import term as T
from .values import mk_sum, mk_over, fresh_bound
from .interp import Interp
from .equal import probe_index


def N(x):
    if isinstance(x, (DD,)):
        return x
    return num(Fraction(x))


def _op(f, swap=False):
    def g(a, b):
        a, b = N(a), N(b)
        return f(b, a) if swap else f(a, b)

    return g


DD.__add__ = _op(add)
DD.__radd__ = _op(add, True)
DD.__sub__ = _op(sub)
DD.__rsub__ = _op(sub, True)
DD.__mul__ = _op(mul)
DD.__rmul__ = _op(mul, True)
DD.__truediv__ = _op(div)
DD.__rtruediv__ = _op(div, True)
DD.__neg__ = lambda a: neg(a)
HALF = N(Fraction(1, 2))


def at(v, *path):
    """v.a.b.c"""
    for k in path:
        if isinstance(v, DD):
            v = unbox(v)
        if isinstance(v, Struct):
            v = v.fields[k]
        elif isinstance(v, Tup):
            v = v.items[int(k)]
        elif isinstance(v, DD):
            ls = leaves(v)
            f = lambda l: l.fields[k]
            r = f(ls[-1][1])
            for g, l in reversed(ls[:-1]):
                r = vite(g, f(l), r)
            v = r
        else:
            raise KeyError("%s of %r" % (k, type(v)))
    return v


def series(n, f):
    b = fresh_bound("s")
    T.NONNEG.add(b.id)
    return Comp(n, b, f(num_atom(b)))


def sum_over(n, f):
    b = fresh_bound("s")
    T.NONNEG.add(b.id)
    return mk_sum(n, b, f(num_atom(b)))


def max_over(n, f):
    b = fresh_bound("s")
    T.NONNEG.add(b.id)
    return mk_over("maxover", n, b, f(num_atom(b)))


def min_over(n, f):
    b = fresh_bound("s")
    T.NONNEG.add(b.id)
    return mk_over("minover", n, b, f(num_atom(b)))


def trapz(xs, f):
    """trapezoidal integral of f(i) over the abscissae xs"""
    n = xs.length()
    return sum_over(n - 1, lambda i: (xs.elem(i + 1) - xs.elem(i)) * (f(i + 1) + f(i)) * HALF)


def last(xs):
    return xs.elem(xs.length() - 1)


def struct_like(adt, **f):
    return Struct(adt, f)
