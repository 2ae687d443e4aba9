"""Operators the specifications are written with.  The same specification text is evaluated on
plain python values (concrete runs, replay) and on symbolic values (proof obligations)."""
import math
import sys


def _core():
    return sys.modules.get('dv.core')


def _sv(*xs):
    c = _core()
    if c is None:
        return False
    for x in xs:
        if isinstance(x, c.SV):
            return True
        if type(x).__module__.startswith('z3'):
            return True
    return False


def And(*xs):
    xs = [x() if callable(x) and not _sv(x) else x for x in xs] if _sv(*xs) else xs
    if _sv(*[x for x in xs]):
        c = _core()
        return c.mkb(c.b_and(*[c.boolof(x) for x in xs]))
    for x in xs:
        if callable(x):
            x = x()
            if _sv(x):
                c = _core()
                return c.mkb(c.b_and(*[c.boolof(y() if callable(y) and not _sv(y) else y) for y in xs]))
        if not x:
            return False
    return True


def Or(*xs):
    if _sv(*xs):
        c = _core()
        return c.mkb(c.b_or(*[c.boolof(x) for x in xs]))
    return any(xs)


def Not(x):
    if _sv(x):
        c = _core()
        return c.mkb(c.b_not(x))
    return not x


def If(c, a, b):
    """a and b may be thunks (evaluated lazily in concrete runs)"""
    if _sv(c):
        k = _core()
        return k.ite(k.boolof(c), a() if callable(a) and not _sv(a) else a, b() if callable(b) and not _sv(b) else b)
    x = a if c else b
    return x() if callable(x) and not _sv(x) else x


def null(x):
    if _sv(x):
        k = _core()
        return k.mkb(k.isnull(x))
    return x is None or (isinstance(x, float) and math.isnan(x))


def Min(a, b):
    if _sv(a, b):
        return _core().smin(a, b)
    return min(a, b)


def Max(a, b):
    if _sv(a, b):
        return _core().smax(a, b)
    return max(a, b)


def Abs(a):
    if _sv(a):
        return _core().num_abs(a)
    return abs(a)


def fmin(a, b):
    """smaller of two numbers, a missing one does not count"""
    return If(null(a), b, lambda: If(null(b), a, lambda: Min(a, b)))


def isin(x, xs):
    if _sv(x):
        return Or(*[x == y for y in xs])
    return x in xs
