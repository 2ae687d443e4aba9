"""Core of the deductive verifier: symbolic scalars, relations, path exploration and the
proof obligations' back end (z3, quantifier free after engine-side instantiation).

Everything here is about *values*.  Tables (unbounded multisets of rows) are in table.py.
"""
import math
import types
import time
import itertools
import z3

z3.set_param('smt.random_seed', 1)


class Unsupported(Exception):
    """The code left the fragment the verifier understands.  Never an alarm."""


class Infeasible(BaseException):
    pass


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def zb(x):
    """python bool / BoolRef -> BoolRef"""
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, z3.BoolRef):
        return x
    raise Unsupported('boolean expected, got %r' % (x,))


def is_t(x):
    return x is True or (isinstance(x, z3.BoolRef) and z3.is_true(x))


def is_f(x):
    return x is False or (isinstance(x, z3.BoolRef) and z3.is_false(x))


def b_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, SBool):
            x = x.e
        if is_f(x):
            return False
        if is_t(x):
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, SBool):
            x = x.e
        if is_t(x):
            return True
        if is_f(x):
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def b_not(x):
    if isinstance(x, SBool):
        x = x.e
    if is_t(x):
        return False
    if is_f(x):
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def b_ite(c, a, b):
    if is_t(c):
        return a
    if is_f(c):
        return b
    if (is_t(a) and is_t(b)) or (is_f(a) and is_f(b)):
        return a
    return z3.If(zb(c), zb(a), zb(b))


# --------------------------------------------------------------------------- literals
class Lits:
    def __init__(self):
        self.code = {}
        self.name = {}

    def get(self, s):
        if s not in self.code:
            n = len(self.code) + 1
            self.code[s] = n
            self.name[n] = s
        return z3.IntVal(self.code[s])

    def back(self, n):
        return self.name.get(n, '<str%d>' % n)


LITS = Lits()


def lit(s):
    return LITS.get(s)


# --------------------------------------------------------------------------- values
class SV:
    __slots__ = ()
    __hash__ = object.__hash__


class SBool(SV):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = zb(e)

    def __bool__(self):
        return E.decide(self.e)

    def __and__(self, o):
        return mkb(b_and(self.e, boolof(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkb(b_or(self.e, boolof(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkb(b_not(self.e))

    def __eq__(self, o):
        return mkb(self.e == zb(boolof(o)))

    def __ne__(self, o):
        return mkb(self.e != zb(boolof(o)))

    def __hash__(self):
        return id(self)

    def subst(self, m):
        return SBool(z3.substitute(self.e, *m))

    def __repr__(self):
        return 'SBool(%s)' % self.e


def mkb(x):
    if is_t(x):
        return True
    if is_f(x):
        return False
    return SBool(x)


def boolof(o):
    if isinstance(o, SBool):
        return o.e
    if isinstance(o, bool):
        return o
    if isinstance(o, z3.BoolRef):
        return o
    try:
        import numpy as _np
        if isinstance(o, _np.bool_):
            return bool(o)
    except ImportError:
        pass
    if isinstance(o, SNum):
        return b_or(o.nan, o.e != 0)
    if isinstance(o, (int, float)):
        return bool(o)
    raise Unsupported('boolean of %r' % (o,))


class SNum(SV):
    """real or integer number, with nan and infinity flags (python False when impossible)"""
    __slots__ = ('e', 'nan', 'pinf', 'ninf')

    def __init__(self, e, nan=False, pinf=False, ninf=False):
        self.e = e
        self.nan = False if is_f(nan) else nan
        self.pinf = False if is_f(pinf) else pinf
        self.ninf = False if is_f(ninf) else ninf

    kind = 'num'

    @property
    def is_int(self):
        return z3.is_int(self.e)

    def subst(self, m):
        s = lambda x: x if isinstance(x, bool) else z3.substitute(x, *m)
        return SNum(z3.substitute(self.e, *m), s(self.nan), s(self.pinf), s(self.ninf))

    def hasinf(self):
        return not (self.pinf is False and self.ninf is False)

    # arithmetic
    def __add__(self, o):
        return num_add(self, o)

    def __radd__(self, o):
        return num_add(o, self)

    def __sub__(self, o):
        return num_add(self, num_neg(o))

    def __rsub__(self, o):
        return num_add(o, num_neg(self))

    def __mul__(self, o):
        return num_mul(self, o)

    def __rmul__(self, o):
        return num_mul(o, self)

    def __truediv__(self, o):
        return num_div(self, o)

    def __rtruediv__(self, o):
        return num_div(o, self)

    def __pow__(self, o):
        return num_pow(self, o)

    def __neg__(self):
        return num_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return num_abs(self)

    def __lt__(self, o):
        return num_cmp(self, o, 'lt')

    def __le__(self, o):
        return num_cmp(self, o, 'le')

    def __gt__(self, o):
        return num_cmp(o, self, 'lt')

    def __ge__(self, o):
        return num_cmp(o, self, 'le')

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return invert(eq(self, o))

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return E.decide(zb(b_or(self.nan, self.e != 0)))

    def __round__(self, n=None):
        return num_round(self, n)

    def round(self, n=0):
        return num_round(self, n)

    def abs(self):
        return num_abs(self)

    def __float__(self):
        raise Unsupported('float() of a symbolic number outside instrumented code')

    def __format__(self, spec):
        return '<num>'

    def __repr__(self):
        return 'SNum(%s)' % self.e


class SStr(SV):
    __slots__ = ('e', 'null', 'dom')

    def __init__(self, e, null=False, dom=None):
        self.e = e
        self.null = False if is_f(null) else null
        self.dom = dom

    kind = 'str'

    def subst(self, m):
        return SStr(z3.substitute(self.e, *m),
                    self.null if isinstance(self.null, bool) else z3.substitute(self.null, *m), self.dom)

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return invert(eq(self, o))

    def __hash__(self):
        return hash(self.concretise())

    def concretise(self):
        """decide (by forking) which literal this is; needs a finite domain"""
        if z3.is_int_value(self.e) and self.null is False:
            return LITS.back(self.e.as_long())
        if self.null is not False:
            if E.decide(zb(self.null)):
                return None
        if self.dom is None:
            # a string outside every finite domain
            raise Unsupported('hash of an unbounded symbolic string')
        for s in self.dom:
            if E.decide(self.e == lit(s)):
                return s
        raise Infeasible()

    def _lift(self, f):
        if self.dom is None:
            raise Unsupported('string operation on unbounded symbolic string')
        out = None
        for s in reversed(self.dom):
            v = f(s)
            out = v if out is None else ite(mkb(self.e == lit(s)), v, out)
        return out

    def upper(self):
        r = self._lift(lambda s: s.upper())
        return r if isinstance(r, str) else SStr(r.e, self.null, tuple(sorted({s.upper() for s in self.dom})))

    def find(self, sub):
        r = self._lift(lambda s: s.find(sub))
        return lift(r)

    def replace(self, a, b):
        r = self._lift(lambda s: s.replace(a, b))
        return r if isinstance(r, str) else SStr(r.e, self.null, tuple(sorted({s.replace(a, b) for s in self.dom})))

    def __lt__(self, o):
        return mkb(E.strlt(self, o))

    def __gt__(self, o):
        return mkb(E.strlt(o, self))

    def __format__(self, spec):
        return '<str>'

    def __repr__(self):
        return 'SStr(%s)' % self.e


class SNull(SV):
    """a value known to be missing, of undetermined kind (None / NaN in an object column)"""
    __slots__ = ()
    kind = 'null'

    def subst(self, m):
        return self

    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True

    def __hash__(self):
        return hash(None)

    def __repr__(self):
        return 'SNull'


NULL = SNull()


class SRef(SV):
    """opaque reference values: solver variables, loss functions, ..."""
    __slots__ = ('tag', 'e')

    def __init__(self, tag, e):
        self.tag = tag
        self.e = e

    kind = 'ref'

    def subst(self, m):
        return SRef(self.tag, z3.substitute(self.e, *m))

    def __call__(self, x):
        if self.tag != 'fn':
            raise Unsupported('call of %s' % self.tag)
        x = lift(x)
        f = z3.Function('apply_fn', FnSort, z3.RealSort(), z3.RealSort())
        return SNum(f(self.e, toreal(x.e)), x.nan)

    def __mul__(self, o):
        return num_mul(o, self)

    __rmul__ = __mul__

    def __repr__(self):
        return 'SRef(%s,%s)' % (self.tag, self.e)


class WRef(SV):
    """a cell that holds a function, or something that is none"""
    __slots__ = ('e', 'none')
    kind = 'wref'

    def __init__(self, e, none):
        self.e, self.none = e, none

    def subst(self, m):
        return WRef(z3.substitute(self.e, *m), z3.substitute(self.none, *m))


class STerm(SV):
    """number times solver variable"""
    __slots__ = ('coef', 'var')
    kind = 'term'

    def __init__(self, coef, var):
        self.coef, self.var = coef, var

    def subst(self, m):
        return STerm(subst_val(lift(self.coef), m), self.var.subst(m))


FnSort = z3.DeclareSort('Fn')


class SFn(SV):
    """a python function of one number stored in a table, as its value at a symbolic argument.  The function is evaluated when
    it is stored (a variable it closes over and that changes later is not followed)"""
    __slots__ = ('p', 'body')
    kind = 'fn'

    def __init__(self, p, body):
        self.p, self.body = p, body

    @staticmethod
    def of(f):
        p = E.fresh('arg', z3.RealSort())
        return SFn(p, lift(f(SNum(p))))

    def subst(self, m):
        return SFn(self.p, subst_val(self.body, m))

    def __call__(self, x):
        x = asnum(x)
        r = subst_val(self.body, [(self.p, toreal(x.e))])
        return r

    def __repr__(self):
        return 'SFn'


def toreal(e):
    return z3.ToReal(e) if z3.is_int(e) else e


def num_const(x):
    if isinstance(x, bool):
        return SNum(z3.IntVal(int(x)))
    if isinstance(x, int):
        return SNum(z3.IntVal(x))
    if isinstance(x, float):
        if math.isnan(x):
            return SNum(z3.RealVal(0), nan=True)
        if math.isinf(x):
            return SNum(z3.RealVal(0), pinf=x > 0, ninf=x < 0)
        return SNum(realval(x))
    raise Unsupported('number constant %r' % (x,))


def realval(x):
    from fractions import Fraction
    # literals in the source denote their decimal value (mathematical reals)
    return z3.RealVal(str(Fraction(repr(x))))


def lift(x):
    if isinstance(x, SV):
        return x
    if x is None:
        return NULL
    if isinstance(x, str):
        return SStr(lit(x), dom=(x,))
    if isinstance(x, bool):
        return SBool(x)
    if isinstance(x, (int, float)):
        return num_const(x)
    if isinstance(x, types.FunctionType):
        return SFn.of(x)
    if isinstance(x, z3.ArithRef):
        return SNum(x)
    if isinstance(x, z3.BoolRef):
        return SBool(x)
    if hasattr(x, 'item'):
        return lift(x.item())
    raise Unsupported('cannot lift %r' % (type(x),))


def isnum(x):
    return isinstance(x, SNum)


def asnum(x):
    x = lift(x)
    if isinstance(x, SNum):
        return x
    if isinstance(x, SNull):
        return SNum(z3.RealVal(0), nan=True)
    if isinstance(x, SBool):
        return SNum(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
    raise Unsupported('number expected, got %r' % (x,))


def num_add(a, b):
    if hasattr(a, '_series_op') or hasattr(b, '_series_op'):
        return NotImplemented
    a, b = asnum(a), asnum(b)
    x, y = a.e, b.e
    if z3.is_int(x) != z3.is_int(y):
        x, y = toreal(x), toreal(y)
    nan = b_or(a.nan, b.nan, b_and(a.pinf, b.ninf), b_and(a.ninf, b.pinf))
    return SNum(x + y, nan, b_or(a.pinf, b.pinf), b_or(a.ninf, b.ninf))


def num_neg(a):
    if hasattr(a, '_series_op'):
        return -a
    a = asnum(a)
    return SNum(-a.e, a.nan, a.ninf, a.pinf)


def num_mul(a, b):
    if hasattr(a, '_series_op') or hasattr(b, '_series_op'):
        return NotImplemented
    if isinstance(b, SRef) or isinstance(a, SRef):
        return E.linmul(a, b)
    a, b = asnum(a), asnum(b)
    x, y = a.e, b.e
    if z3.is_int(x) != z3.is_int(y):
        x, y = toreal(x), toreal(y)
    pi = ni = False
    nan = b_or(a.nan, b.nan)
    if a.hasinf() or b.hasinf():
        apos = b_or(a.pinf, b_and(b_not(b_or(a.pinf, a.ninf)), a.e > 0))
        aneg = b_or(a.ninf, b_and(b_not(b_or(a.pinf, a.ninf)), a.e < 0))
        bpos = b_or(b.pinf, b_and(b_not(b_or(b.pinf, b.ninf)), b.e > 0))
        bneg = b_or(b.ninf, b_and(b_not(b_or(b.pinf, b.ninf)), b.e < 0))
        anyinf = b_or(a.pinf, a.ninf, b.pinf, b.ninf)
        pi = b_and(anyinf, b_or(b_and(apos, bpos), b_and(aneg, bneg)))
        ni = b_and(anyinf, b_or(b_and(apos, bneg), b_and(aneg, bpos)))
        nan = b_or(nan, b_and(anyinf, b_not(b_or(pi, ni))))
    return SNum(x * y, nan, pi, ni)


def num_div(a, b):
    if hasattr(a, '_series_op') or hasattr(b, '_series_op'):
        return NotImplemented
    a, b = asnum(a), asnum(b)
    nan = b_or(a.nan, b.nan)
    if b.hasinf():
        raise Unsupported('division by infinity')
    q = toreal(a.e) / toreal(b.e)
    if not a.hasinf() and z3.is_rational_value(toreal(z3.simplify(b.e))) is False:
        # IEEE: x/0 is an infinity or nan; the value q is irrelevant then
        E.note_division(b)
        zero = b.e == 0
        if is_f(z3.simplify(zero)):
            return SNum(q, nan)
        if E.div_zero_mode == 'total':
            return SNum(q, nan)
        return SNum(q, b_or(nan, b_and(zero, a.e == 0)), b_and(zero, a.e > 0), b_and(zero, a.e < 0))
    if a.hasinf():
        pos = b.e > 0
        return SNum(q, nan, b_or(b_and(a.pinf, pos), b_and(a.ninf, b_not(pos))),
                    b_or(b_and(a.ninf, pos), b_and(a.pinf, b_not(pos))))
    return SNum(q, nan)


def num_pow(a, n):
    a = asnum(a)
    if a.hasinf():
        raise Unsupported('power of infinity')
    if isinstance(n, (int, float)) and n == 2:
        return SNum(a.e * a.e, a.nan)
    if isinstance(n, (int, float)) and n == 3:
        return SNum(a.e * a.e * a.e, a.nan)
    if isinstance(n, float) and n == 0.5:
        f = z3.Function('sqrt_', z3.RealSort(), z3.RealSort())
        return SNum(f(toreal(a.e)), a.nan)
    raise Unsupported('power %r' % (n,))


def num_abs(a):
    a = asnum(a)
    return SNum(z3.If(a.e >= 0, a.e, -a.e), a.nan, b_or(a.pinf, a.ninf), False)


def num_round(a, n):
    a = asnum(a)
    f = z3.Function('round_%s' % (n,), z3.RealSort(), z3.RealSort())
    return SNum(f(toreal(a.e)), a.nan, a.pinf, a.ninf)


def num_cmp(a, b, op):
    if hasattr(a, '_series_op') or hasattr(b, '_series_op'):
        return NotImplemented
    a, b = asnum(a), asnum(b)
    x, y = a.e, b.e
    if z3.is_int(x) != z3.is_int(y):
        x, y = toreal(x), toreal(y)
    base = (x < y) if op == 'lt' else (x <= y)
    if a.hasinf() or b.hasinf():
        fin = b_and(b_not(b_or(a.pinf, a.ninf, b.pinf, b.ninf)), base)
        if op == 'lt':
            r = b_or(fin, b_and(a.ninf, b_not(b.ninf)), b_and(b.pinf, b_not(a.pinf)))
        else:
            r = b_or(fin, a.ninf, b.pinf)
    else:
        r = z3.simplify(base)
    return mkb(b_and(r, b_not(a.nan), b_not(b.nan)))


def eq(a, b):
    """python/pandas == on scalars (missing values are unequal to everything)"""
    if hasattr(a, '_series_op') or hasattr(b, '_series_op'):
        return NotImplemented
    if not isinstance(a, SV) and not isinstance(b, SV):
        return a == b
    a, b = lift(a), lift(b)
    if isinstance(a, SNull) or isinstance(b, SNull):
        return False
    if isinstance(a, SStr) and isinstance(b, SStr):
        if a.dom is not None and b.dom is not None and not set(a.dom) & set(b.dom):
            return False
        return mkb(b_and(z3.simplify(a.e == b.e), b_not(a.null), b_not(b.null)))
    if isinstance(a, SBool) and isinstance(b, SNum):
        a = asnum(a)
    if isinstance(b, SBool) and isinstance(a, SNum):
        b = asnum(b)
    if isinstance(a, SNum) and isinstance(b, SNum):
        x, y = a.e, b.e
        if z3.is_int(x) != z3.is_int(y):
            x, y = toreal(x), toreal(y)
        base = z3.simplify(x == y)
        if a.hasinf() or b.hasinf():
            fin = b_and(b_not(b_or(a.pinf, a.ninf, b.pinf, b.ninf)), base)
            base = b_or(fin, b_and(a.pinf, b.pinf), b_and(a.ninf, b.ninf))
        return mkb(b_and(base, b_not(a.nan), b_not(b.nan)))
    if isinstance(a, SBool) and isinstance(b, SBool):
        return mkb(a.e == b.e)
    if isinstance(a, SRef) and isinstance(b, SRef) and a.tag == b.tag:
        return mkb(a.e == b.e)
    return False


def same(a, b):
    """identity of values: like eq, but missing == missing (merge keys, specification equality)"""
    a, b = lift(a), lift(b)
    na, nb = isnull(a), isnull(b)
    e = eq(a, b)
    return mkb(b_or(boolof(e), b_and(na, nb)))


def isnull(a):
    a = lift(a)
    if isinstance(a, SNull):
        return True
    if isinstance(a, SNum):
        return a.nan
    if isinstance(a, SStr):
        return a.null
    return False


def invert(x):
    if x is NotImplemented:
        return x
    return mkb(b_not(boolof(x)))


def ite(c, a, b):
    """value-level if-then-else; c is a python bool, BoolRef or SBool"""
    if isinstance(c, SBool):
        c = c.e
    if is_t(c):
        return a
    if is_f(c):
        return b
    if a is b:
        return a
    if not isinstance(a, SV) and not isinstance(b, SV) and type(a) == type(b) and a == b:
        return a
    x, y = lift(a), lift(b)
    if isinstance(x, SNull) and isinstance(y, SNull):
        return NULL
    if isinstance(x, SBool) and isinstance(y, SBool):
        return mkb(b_ite(c, x.e, y.e))
    if isinstance(x, SBool):
        x = asnum(x)
    if isinstance(y, SBool):
        y = asnum(y)
    if isinstance(x, SStr) or isinstance(y, SStr):
        if isinstance(x, SNull):
            return SStr(y.e, b_ite(c, True, y.null), y.dom)
        if isinstance(y, SNull):
            return SStr(x.e, b_ite(c, x.null, True), x.dom)
        if isinstance(x, SNum) and is_t(x.nan):
            return SStr(y.e, b_ite(c, True, y.null), y.dom)
        if isinstance(y, SNum) and is_t(y.nan):
            return SStr(x.e, b_ite(c, x.null, True), x.dom)
        if not (isinstance(x, SStr) and isinstance(y, SStr)):
            raise Unsupported('mixed column kinds')
        dom = None
        if x.dom is not None and y.dom is not None:
            dom = tuple(sorted(set(x.dom) | set(y.dom)))
        return SStr(z3.If(c, x.e, y.e), b_ite(c, x.null, y.null), dom)
    if isinstance(x, SFn) and isinstance(y, SFn):
        return SFn(x.p, ite(c, x.body, y(SNum(x.p))))
    if isinstance(x, (SRef, SFn)) or isinstance(y, (SRef, SFn)):
        if isinstance(x, SRef) and isinstance(y, SRef) and x.tag == y.tag:
            return SRef(x.tag, z3.If(c, x.e, y.e))
        if isinstance(x, SNull):
            return y
        if isinstance(y, SNull):
            return x
        raise Unsupported('mixed reference kinds')
    x, y = asnum(x), asnum(y)
    p, q = x.e, y.e
    if z3.is_int(p) != z3.is_int(q):
        p, q = toreal(p), toreal(q)
    return SNum(z3.If(c, p, q), b_ite(c, x.nan, y.nan), b_ite(c, x.pinf, y.pinf), b_ite(c, x.ninf, y.ninf))


def smax(a, b):
    """python max(a, b): b if b > a else a"""
    if not isinstance(a, SV) and not isinstance(b, SV):
        return max(a, b)
    return ite(num_cmp(a, b, 'lt'), b, a)


def smin(a, b):
    if not isinstance(a, SV) and not isinstance(b, SV):
        return min(a, b)
    return ite(num_cmp(b, a, 'lt'), b, a)


def subst_val(v, m):
    if not m or not isinstance(v, SV):
        return v
    return v.subst(m)


def val_exprs(v):
    """z3 terms of a value"""
    if isinstance(v, SNum):
        return [x for x in (v.e, v.nan, v.pinf, v.ninf) if not isinstance(x, bool)]
    if isinstance(v, SStr):
        return [x for x in (v.e, v.null) if not isinstance(x, bool)]
    if isinstance(v, (SBool, SRef)):
        return [v.e]
    if isinstance(v, SFn):
        return val_exprs(v.body)
    return []


def key_expr(v):
    """z3 term used as key of a value (string code / number); plus its null flag"""
    v = lift(v)
    if isinstance(v, (SNum, SStr)):
        return v.e
    if isinstance(v, SBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, SRef):
        return v.e
    if isinstance(v, SNull):
        return z3.IntVal(0)
    raise Unsupported('key of %r' % (v,))


# --------------------------------------------------------------------------- relations
class Col:
    def __init__(self, kind, dtype=None, nullable=False, dom=None, wild=False):
        self.kind = kind          # num int str fn
        self.wild = wild          # cells may be nan, inf, -inf (num); not callable (fn)
        self.dtype = dtype or {'num': 'float64', 'int': 'int64', 'str': 'object', 'fn': 'object'}[kind]
        self.nullable = nullable
        self.dom = tuple(dom) if dom is not None else None


def F(nullable=False):
    return Col('num', nullable=nullable)


def I():
    return Col('int')


def S(dom=None, nullable=False):
    return Col('str', dom=dom, nullable=nullable)


def FN():
    return Col('fn')


SORT = {'num': z3.RealSort, 'int': z3.IntSort, 'str': z3.IntSort}


class Relation:
    """An arbitrary finite table: rows are elements of an uninterpreted sort with in(r);
    columns are functions of the row; keys are unique column tuples, each with a lookup
    function L(key values) -> row, axiom: in(r) -> L(key(r)) = r."""

    def __init__(self, name, cols, keys=(), inv=None, nonempty=False):
        self.name = name
        self.cols = cols
        self.sort = z3.DeclareSort('Row_' + name)
        self.inf = z3.Function('in_' + name, self.sort, z3.BoolSort())
        self.f = {}
        self.nf = {}
        self.wf = {}
        for c, d in cols.items():
            if d.kind == 'fn':
                self.f[c] = z3.Function('%s.%s' % (name, c), self.sort, FnSort)
            else:
                self.f[c] = z3.Function('%s.%s' % (name, c), self.sort, SORT[d.kind]())
            if d.nullable:
                self.nf[c] = z3.Function('%s.%s?' % (name, c), self.sort, z3.BoolSort())
            if d.wild:
                self.wf[c] = z3.Function('%s.%s kind' % (name, c), self.sort, z3.IntSort())
        self.keys = [tuple(k) for k in keys]
        self.lk = {}
        for k in self.keys:
            self.lk[k] = z3.Function('L_%s(%s)' % (name, ','.join(k)), *[self.f[c].range() for c in k], self.sort)
        self.inv = inv
        E.relations[self.sort.name()] = self
        self.nonempty = nonempty
        if nonempty:
            w = z3.Const('some_' + name, self.sort)
            self.witness = w
            E.assume(self.inf(w))

    def row(self, t):
        return Row(self, t)

    def val(self, t, c):
        d = self.cols[c]
        null = self.nf[c](t) if d.nullable else False
        if d.kind in ('num', 'int'):
            if d.wild:
                k = self.wf[c](t)
                return SNum(self.f[c](t), k == 1, k == 2, k == 3)
            return SNum(self.f[c](t), null)
        if d.kind == 'fn' and d.wild:
            return WRef(self.f[c](t), self.wf[c](t) == 1)
        if d.kind == 'fn':
            return SRef('fn', self.f[c](t))
        return SStr(self.f[c](t), null, d.dom)

    def lookup(self, key, vals):
        return self.lk[tuple(key)](*[key_expr(v) if isinstance(v, SV) or isinstance(v, (str, int, float)) else v
                                     for v in vals])

    def has(self, key, vals):
        """SBool: a row with these key values exists"""
        t = self.lookup(key, vals)
        conds = [self.inf(t)]
        for c, v in zip(key, vals):
            conds.append(boolof(eq(self.val(t, c), v)))
        return mkb(b_and(*conds))

    def get(self, key, vals):
        return Row(self, self.lookup(key, vals))

    def hascol(self, c):
        return c in self.cols

    def axioms(self, t):
        """(key and domain axioms, invariant) of a row term; the terms of the former need no axioms of their own"""
        out, new = [], []
        r = self.inf(t)
        for k, L in self.lk.items():
            nn = [b_not(self.nf[c](t)) for c in k if c in self.nf]
            out.append(z3.Implies(zb(b_and(r, *nn)), L(*[self.f[c](t) for c in k]) == t))
        for c, d in self.cols.items():
            if d.dom is not None:
                body = z3.Or(*[self.f[c](t) == (lit(s) if isinstance(s, str) else s) for s in d.dom])
                if d.nullable:
                    body = z3.Or(self.nf[c](t), body)
                out.append(z3.Implies(r, body))
        if self.inv is not None:
            x = self.inv(Row(self, t))
            if x is not None:
                new.append(z3.Implies(r, zb(boolof(x))))
        return out, new


class Row:
    """row term: attribute / item access gives symbolic values"""

    def __init__(self, rel, t):
        object.__setattr__(self, 'rel', rel)
        object.__setattr__(self, 't', t)

    def __getattr__(self, c):
        return self.rel.val(self.t, c)

    def __getitem__(self, c):
        return self.rel.val(self.t, c)

    def isin(self):
        return mkb(self.rel.inf(self.t))

    def opt(self, c, default):
        return self.rel.val(self.t, c) if c in self.rel.cols else default

    def hascol(self, c):
        return c in self.rel.cols


# --------------------------------------------------------------------------- engine
class Fact:
    """universal fact: forall binders. formula(binders)"""
    __slots__ = ('binders', 'formula')

    def __init__(self, binders, formula):
        self.binders = list(binders)
        self.formula = formula


class Scope:
    def __init__(self, prefix, kind):
        self.prefix = prefix
        self.trace = []
        self.kind = kind
        self.cond = []


class Obligation:
    def __init__(self, name, status, detail='', secs=0.0, goal=None):
        self.backend = 'z3'
        self.model = None
        self.name = name
        self.status = status
        self.detail = detail
        self.secs = secs
        self.goal = goal


class Engine:
    def __init__(self):
        self.timeout_ms = 20000
        self.stats = dict(queries=0, solver_s=0.0, obligations=0)
        self.div_zero_mode = 'total'
        self.obligations = []
        self.assumptions = set()
        self.dump = None
        self.nodes = {}
        self.satcache = {}
        self.reset()

    def reset(self):
        self.counter = itertools.count()
        self.relations = {}
        self.triggers = {}
        self.pc = []
        self.facts = []
        self.scopes = []
        self.prefix = []
        self.trace = []
        self.sums = {}
        self.effects = []
        self._cache = {}
        self.hyp_stack = []
        self.strlt_used = False
        self.posfuns = {}
        self.repfuns = {}
        self.sumterms = {}
        self.ctx_stack = []
        self.loop_stack = []
        self.group_stack = []
        self.allcache = {}
        self.memo = {}
        self.kept = []

    def fresh(self, base, sort):
        return z3.Const('%s!%d' % (base, next(self.counter)), sort)

    def fresh_fun(self, base, *sorts):
        return z3.Function('%s!%d' % (base, next(self.counter)), *sorts)

    def note_division(self, b):
        self.assumptions.add('division treated as a total function on reals (value at a zero divisor unspecified, the '
                             'same in code and contract)')

    def strlt(self, a, b):
        a, b = lift(a), lift(b)
        f = z3.Function('strlt', z3.IntSort(), z3.IntSort(), z3.BoolSort())
        return f(a.e, b.e)

    def str_to_float(self, s):
        if hasattr(s, 'num'):
            return s.num
        raise Unsupported('float of a string')

    def str_to_int(self, s):
        raise Unsupported('int of a string')

    def to_numeric(self, v):
        if isinstance(lift(v), SNum):
            return v
        raise Unsupported('to_numeric of a string')

    def linmul(self, a, b):
        if isinstance(a, SRef):
            a, b = b, a
        if not isinstance(b, SRef) or b.tag != 'var' or isinstance(a, (SRef, STerm)):
            raise Unsupported('product with a solver variable')
        return STerm(asnum(a), b)

    def assume(self, f):
        f = zb(boolof(f)) if not isinstance(f, z3.BoolRef) else f
        self.pc.append(f)

    def trigger(self, decl, fn):
        self.triggers[decl.get_id()] = (decl, fn)

    # ---- decisions
    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        sc = self.scopes[-1] if self.scopes else None
        trace = sc.trace if sc else self.trace
        prefix = sc.prefix if sc else self.prefix
        i = len(trace)
        if i < len(prefix):
            d = prefix[i]
            trace.append((d, False))
            self.pc.append(c if d else z3.Not(c))
            if sc:
                sc.cond.append(c if d else z3.Not(c))
            return d
        st = self.sat([c])
        if st == 'unsat':
            trace.append((False, False))
            self.pc.append(z3.Not(c))
            if sc:
                sc.cond.append(z3.Not(c))
            return False
        st2 = self.sat([z3.Not(c)])
        if st2 == 'unsat':
            trace.append((True, False))
            self.pc.append(c)
            if sc:
                sc.cond.append(c)
            return True
        trace.append((True, True))
        self.pc.append(c)
        if sc:
            sc.cond.append(c)
        return True

    sat_rounds = 1
    pair_limit = 400
    truncated = False
    hist = {}

    def run_path(self, fn, prefix):
        """run fn along the decisions of prefix; -> (kind, value, prefixes of the paths that branch off)"""
        self.reset()
        self.prefix = prefix
        try:
            v = fn()
            kind = 'return'
        except Infeasible:
            kind, v = 'infeasible', None
        except KeyboardInterrupt:
            raise
        except ContractEnd as ex:
            kind, v = 'end', ex
        except Unsupported as ex:
            kind, v = 'unsupported', ex
        except Exception as ex:
            kind, v = 'raise', ex
            if self.check(list(self.pc), 10000, rounds=3)[0] == 'unsat':
                kind = 'infeasible'
        tr = self.trace
        new = [[t[0] for t in tr[:i]] + [not tr[i][0]] for i in range(len(prefix), len(tr)) if tr[i][1]]
        return kind, v, new

    def explore(self, fn, limit=600):
        """run fn on every feasible path; returns list of (kind, value)"""
        todo = [[]]
        out = []
        while todo:
            kind, v, new = self.run_path(fn, todo.pop())
            todo.extend(new)
            if kind != 'infeasible':
                out.append((kind, v))
            if len(out) > limit:
                raise Unsupported('too many paths')
        return out

    def local_paths(self, body, extra=()):
        """enumerate the paths of body() under extra guards; -> [(cond list, kind, value)]"""
        todo = [[]]
        out = []
        n = 0
        while todo:
            prefix = todo.pop()
            sc = Scope(prefix, 'local')
            npc, nf = len(self.pc), len(self.facts)
            self.pc.extend([g for g in extra if not is_t(g)])
            self.scopes.append(sc)
            try:
                try:
                    v = body()
                    kind = 'return'
                except Infeasible:
                    kind, v = 'infeasible', None
                except (Unsupported, ContractEnd):
                    raise
                except Exception as ex:
                    kind, v = 'raise', ex
            finally:
                self.scopes.pop()
                del self.pc[npc:]
                del self.facts[nf:]
            for i in range(len(prefix), len(sc.trace)):
                if sc.trace[i][1]:
                    todo.append([t[0] for t in sc.trace[:i]] + [not sc.trace[i][0]])
            if kind != 'infeasible':
                out.append((list(sc.cond), kind, v))
            n += 1
            if n > 400:
                raise Unsupported('too many local paths')
        return out

    # ---- solving
    def node(self, t):
        """(expr, child ids, is a row term, trigger candidate, depth) of a term, cached"""
        i = t.get_id()
        n = self.nodes.get(i)
        if n is not None:
            return n
        # iterative post-order
        st = [(t, False)]
        nodes = self.nodes
        while st:
            x, ready = st.pop()
            xi = x.get_id()
            if xi in nodes:
                continue
            if not z3.is_app(x):
                nodes[xi] = (x, (), None, None, 0, 1)
                continue
            ch = x.children()
            if not ready:
                miss = [c for c in ch if c.get_id() not in nodes]
                if miss:
                    st.append((x, True))
                    st.extend((c, False) for c in miss)
                    continue
            kids = tuple(c.get_id() for c in ch)
            srt = x.sort()
            row = srt.name() if srt.kind() == z3.Z3_UNINTERPRETED_SORT else None
            d = x.decl()
            trig = d.get_id() if d.kind() == z3.Z3_OP_UNINTERPRETED else None
            dep = 1 + max([nodes[k][4] for k in kids]) if kids else 0
            size = 1 + sum(nodes[k][5] for k in kids)
            nodes[xi] = (x, kids, row, trig, dep, min(size, 100000))
        return nodes[i]

    def instantiate(self, fs, rounds=4):
        fs = list(fs)
        seen = set()
        by_sort = {}
        done_facts = set()
        out = list(fs)
        frontier = list(fs)
        nodes = self.nodes
        memo = self.memo
        for rd in range(rounds):
            rows, apps = [], []
            for f in frontier:
                self.node(f)
                st = [f.get_id()]
                while st:
                    i = st.pop()
                    if i in seen:
                        continue
                    seen.add(i)
                    n = nodes[i]
                    if n[2] is not None:
                        rows.append(n)
                    if n[3] is not None and n[3] in self.triggers:
                        apps.append(n)
                    st.extend(n[1])
            new, axs = [], []
            for n in rows:
                t = n[0]
                if rd and (n[4] > 6 or n[5] > 200):
                    continue
                by_sort.setdefault(n[2], []).append(t)
                rel = self.relations.get(n[2])
                if rel is not None:
                    k = ('r', t.get_id())
                    if k not in memo:
                        memo[k] = rel.axioms(t)
                    axs.extend(memo[k][0])
                    new.extend(memo[k][1])
            for n in apps:
                t = n[0]
                if rd and (n[4] > 9 or n[5] > 200):
                    continue
                k = ('t', t.get_id())
                if k not in memo:
                    decl, fn = self.triggers[n[3]]
                    memo[k] = fn(*t.children())
                new.extend(memo[k])
            for fi, fact in enumerate(self.facts):
                pools = [by_sort.get(b.sort().name(), []) for b in fact.binders]
                n = 1
                for p_ in pools:
                    n *= len(p_)
                if n > self.pair_limit:
                    k = int(self.pair_limit ** (1.0 / len(pools)))
                    pools = [p_[:k] for p_ in pools]
                    self.truncated = True
                for combo in itertools.product(*pools):
                    k = (fi,) + tuple(c.get_id() for c in combo)
                    if k in done_facts:
                        continue
                    done_facts.add(k)
                    mk = ('f', id(fact)) + k[1:]
                    if mk not in memo:
                        memo[mk] = z3.substitute(fact.formula, *zip(fact.binders, combo))
                        self.kept.append(fact)
                    new.append(memo[mk])
            new = [f for f in new if not z3.is_true(f)]
            out.extend(axs)
            out.extend(new)
            frontier = new
            if not new:
                break
        return out

    def sat(self, extra):
        """'sat' | 'unsat' | 'unknown' of pc + extra"""
        fs = list(self.pc) + list(extra)
        # executions are deterministic up to a sequence of decisions, so a repeated prefix repeats its answers
        key = (tuple(d for d, _ in self.trace), tuple(tuple(d for d, _ in sc.trace) for sc in self.scopes),
               len(self.facts), tuple(f.get_id() for f in fs))
        hit = self.satcache.get(key)
        if hit is not None:
            return hit[0]
        # feasibility only prunes: a path wrongly kept is explored in vain, so a weaker instantiation is enough
        st, _ = self.check(fs, 3000, rounds=self.sat_rounds)
        self.satcache[key] = (st, fs)
        return st

    def check(self, fs, timeout=None, rounds=4):
        t0 = time.time()
        fs = self.instantiate(fs, rounds)
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout_ms)
        for f in fs:
            s.add(f)
        if self.dump is not None:
            self.dump(s)
        r = str(s.check())
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        m = s.model() if r == 'sat' else None
        return r, m

    def valid(self, goal, hyps=(), stages=(1, 2, 4)):
        """True / False / None(unknown)"""
        goal = zb(boolof(goal)) if not isinstance(goal, z3.BoolRef) else goal
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True, None
        fs = list(self.pc) + [zb(boolof(h)) for h in hyps] + [z3.Not(goal)]
        for rounds in stages:
            self.truncated = False
            self.pair_limit = 400 if rounds < 4 else 4000
            st, m = self.check(fs, None if rounds == 4 else 4000, rounds=rounds)
            self.pair_limit = 400
            self.hist[rounds] = self.hist.get(rounds, 0) + (st == 'unsat')
            if st == 'unsat':
                break
        if st == 'unsat':
            return True, None
        if st == 'sat' and not self.truncated:
            return False, m
        return None, None

    def prove(self, name, goal, hyps=()):
        """a proof obligation"""
        t0 = time.time()
        v, m = self.valid(goal, hyps)
        st = {True: 'proved', False: 'refuted', None: 'unknown'}[v]
        det = ''
        if m is not None:
            det = model_text(m)
        ob = Obligation(name, st, det, time.time() - t0)
        self.obligations.append(ob)
        self.stats['obligations'] += 1
        return v is True

    def record(self, name, status, detail=''):
        self.obligations.append(Obligation(name, status, detail))
        self.stats['obligations'] += 1


class ContractEnd(BaseException):
    """raised by contract stubs to stop execution where the obligation ends"""


def model_text(m, limit=60):
    out = []
    for d in m.decls()[:limit]:
        try:
            out.append('%s = %s' % (d.name(), str(m[d]).replace('\n', ' ')[:200]))
        except Exception:
            pass
    return '; '.join(out)[:6000]


E = Engine()
