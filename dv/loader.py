"""Loads the real nempy modules from /repo's working tree for symbolic execution.

The source text is executed unmodified: what differs from a normal import is (a) the modules pandas, numpy, mip, ... resolve
to the symbolic tables and contract stubs of this package and (b) the builtins below are shadowed by versions that also
accept symbolic values (len, max, min, abs, list, set, zip, dict, all, any, isinstance, type, callable, ...)."""
import ast
import builtins as B
import os
import sys
import types
import math
import z3
from . import core, table
from .core import E, SV, SNum, SStr, SBool, SNull, SRef, NULL, Unsupported, Infeasible, b_and, b_or, b_not, mkb, boolof
from .table import DF, Series, Vec, Arr, SymList, SymSet, SymMap, SymLen, RowView

SRC = os.environ.get('NEMPY_SRC', '/repo/src')


# ------------------------------------------------------------------ shadowed builtins
def s_len(x):
    if hasattr(x, 'symlen'):
        return x.symlen()
    return B.len(x)


def s_max(*a, **k):
    if B.len(a) == 1:
        x = a[0]
        if isinstance(x, Vec):
            x = SymList(x)
        if isinstance(x, SymList):
            return x._max(True)
        a = B.list(x)
    if B.any(isinstance(x, SV) for x in a) and not k:
        r = a[0]
        for y in a[1:]:
            r = core.smax(r, y)
        return r
    return B.max(a, **k)


def s_min(*a, **k):
    if B.len(a) == 1:
        x = a[0]
        if isinstance(x, Vec):
            x = SymList(x)
        if isinstance(x, SymList):
            return x._max(False)
        a = B.list(x)
    if B.any(isinstance(x, SV) for x in a) and not k:
        r = a[0]
        for y in a[1:]:
            r = core.smin(r, y)
        return r
    return B.min(a, **k)


def s_all(x):
    if isinstance(x, Vec):
        return x.all()
    return B.all(x)


def s_any(x):
    if isinstance(x, Vec):
        return x.any()
    return B.any(x)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (B.list, SymList))


class s_list(B.list, metaclass=_ListMeta):
    def __new__(cls, *a):
        if a:
            x = a[0]
            if isinstance(x, Vec):
                return SymList(x)
            if isinstance(x, table.IndexView):
                return SymList(x.values)
            if isinstance(x, SymList) and type(x) is SymList:
                return x
            if isinstance(x, (table.SymZip, table.SymSeq)):
                return x
            if isinstance(x, SymSet):
                return SymList(x.vec, True)
        return B.list(*a)


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (B.set, SymSet))


class s_set(B.set, metaclass=_SetMeta):
    def __new__(cls, *a):
        if a:
            x = a[0]
            if isinstance(x, Vec):
                return SymSet(x)
            if isinstance(x, SymList):
                return SymSet(x.vec)
        return B.set(*a)


class _DictMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (B.dict, SymMap))


class s_dict(B.dict, metaclass=_DictMeta):
    def __new__(cls, *a, **k):
        if a and isinstance(a[0], table.SymZip):
            return table.dict_of_zip(a[0])
        return B.dict(*a, **k)


def s_zip(*a, **k):
    if B.any(isinstance(x, (Vec, SymList, table.RangeArr)) for x in a):
        return table.SymZip(a)
    return B.zip(*a, **k)


def s_isinstance(x, t):
    ts = t if B.isinstance(t, tuple) else (t,)
    flat = []
    for q in ts:
        flat.extend(q if B.isinstance(q, tuple) else (q,))
    if B.isinstance(x, SNum):
        return float in flat or (int in flat and x.is_int) or s_float in flat or (s_int in flat and x.is_int)
    if B.isinstance(x, SStr):
        if str not in flat and s_str not in flat:
            return False
        return True if x.null is False else not E.decide(core.zb(x.null))
    if B.isinstance(x, SBool):
        return bool in flat or int in flat or s_int in flat
    if B.isinstance(x, SNull):
        return type(None) in flat
    if B.isinstance(x, DictBase):
        return dict in flat or s_dict in flat
    m = {s_str: str, s_int: int, s_float: float, s_list: B.list, s_dict: B.dict, s_set: B.set}
    return B.isinstance(x, tuple(m.get(q, q) for q in flat))


class DictBase:
    pass


class _Type(type):
    def __call__(cls, *a):
        if B.len(a) != 1:
            return B.type(*a)
        x = a[0]
        if B.isinstance(x, SStr):
            if x.null is not False and E.decide(core.zb(x.null)):
                return type(None)
            return s_str
        if B.isinstance(x, SNum):
            return s_int if x.is_int else s_float
        if B.isinstance(x, SBool):
            return bool
        if B.isinstance(x, SNull):
            return type(None)
        t = B.type(x)
        return {str: s_str, int: s_int, float: s_float}.get(t, t)


class s_type(metaclass=_Type):
    pass


class _StrMeta(type):
    def __eq__(cls, o):
        return o is cls or o is str

    def __ne__(cls, o):
        return not (o is cls or o is str)

    def __hash__(cls):
        return hash(str)

    def __instancecheck__(cls, x):
        return B.isinstance(x, (str, SStr))


class s_str(str, metaclass=_StrMeta):
    def __new__(cls, *a, **k):
        if a:
            x = a[0]
            if B.isinstance(x, SNum):
                return table.name_of(x)
            if B.isinstance(x, SStr):
                return x
            if B.isinstance(x, SV):
                raise Unsupported('str of %r' % (x,))
        return str(*a, **k)


class _FloatMeta(type):
    def __eq__(cls, o):
        return o is cls or o is float

    def __ne__(cls, o):
        return not (o is cls or o is float)

    def __hash__(cls):
        return hash(float)

    def __instancecheck__(cls, x):
        return B.isinstance(x, (float,))


class s_float(float, metaclass=_FloatMeta):
    def __new__(cls, *a):
        if a and B.isinstance(a[0], SNum):
            x = a[0]
            return SNum(core.toreal(x.e), x.nan, x.pinf, x.ninf)
        if a and B.isinstance(a[0], SStr):
            return E.str_to_float(a[0])
        if a and B.isinstance(a[0], SV):
            raise Unsupported('float of %r' % (a[0],))
        return float(*a)


class _IntMeta(type):
    def __eq__(cls, o):
        return o is cls or o is int

    def __ne__(cls, o):
        return not (o is cls or o is int)

    def __hash__(cls):
        return hash(int)

    def __instancecheck__(cls, x):
        return B.isinstance(x, int)


class s_int(int, metaclass=_IntMeta):
    def __new__(cls, *a):
        if a and B.isinstance(a[0], SNum):
            x = a[0]
            if x.is_int:
                return x
            # truncation towards zero
            return SNum(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)), x.nan)
        if a and B.isinstance(a[0], SStr):
            return E.str_to_int(a[0])
        if a and B.isinstance(a[0], SV):
            raise Unsupported('int of %r' % (a[0],))
        return int(*a)


def s_enumerate(x, start=0):
    if hasattr(x, 'symenumerate'):
        return x.symenumerate(start)
    return B.enumerate(x, start)


def s_callable(x):
    if B.isinstance(x, core.WRef):
        return not E.decide(core.zb(x.none))
    if B.isinstance(x, SRef):
        return x.tag == 'fn'
    if B.isinstance(x, SV):
        return False
    return B.callable(x)


def s_sum(x, start=0):
    if B.isinstance(x, Vec):
        return x.sum()
    r = start
    for y in x:
        r = r + y
    return r


def s_abs(x):
    return B.abs(x)


def s_sorted(x, **k):
    if B.isinstance(x, (Vec, SymList)):
        return x if isinstance(x, SymList) else SymList(x)
    return B.sorted(x, **k)


def s_range(*a):
    if B.any(B.isinstance(x, SV) or hasattr(x, 'segs') for x in a):
        return table.SymRange(a)
    return B.range(*a)


def s_getattr(x, name, *d):
    return B.getattr(x, name, *d)


def s_print(*a, **k):
    return None


SHADOW = dict(len=s_len, max=s_max, min=s_min, all=s_all, any=s_any, list=s_list, set=s_set, dict=s_dict, zip=s_zip,
              isinstance=s_isinstance, type=s_type, str=s_str, float=s_float, int=s_int, callable=s_callable, sum=s_sum,
              sorted=s_sorted, range=s_range, print=s_print, enumerate=s_enumerate)


# ------------------------------------------------------------------ module shims
def make_numpy():
    m = types.ModuleType('numpy')

    class float64:
        dtname = 'float64'

        def __new__(cls, x=0.0):
            if isinstance(x, Vec):
                return x.astype('float64').values if isinstance(x, Series) else x.astype('float64')
            return s_float(x)

    class int64:
        dtname = 'int64'

        def __new__(cls, x=0):
            return s_int(x)
    m.float64, m.int64 = float64, int64
    m.inf = math.inf
    m.nan = m.NaN = math.nan

    def where(c, *ab):
        if not ab:
            raise Unsupported('np.where with one argument')
        return table._where(c, *ab)
    m.where = where

    def array(x, *a, **k):
        if isinstance(x, Series):
            return x.values
        if isinstance(x, SymList):
            return Arr(x.vec.segs, x.vec.pid)
        if isinstance(x, Vec):
            return x
        return table.np_array(x)
    m.array = m.asarray = array

    def elementwise2(f):
        def g(a, b, *_):
            if isinstance(a, Vec):
                return a._zip(b, f)
            if isinstance(b, Vec):
                return b._zip(a, lambda x, y: f(y, x))
            return f(a, b)
        return g

    def elementwise1(f):
        def g(a, *_):
            if isinstance(a, Vec):
                return a.like([f(s.val) for s in a.segs])
            if isinstance(a, DF):
                return a.derive([s.clone({c: f(s.vals[c]) for c in a._cols}) for s in a.segs], pid=a.pid)
            return f(a)
        return g
    m.fmin = elementwise2(table.nanmin)
    m.fmax = elementwise2(table.nanmax)

    def strict(f):
        def g(a, b):
            return core.ite(b_or(core.isnull(a), core.isnull(b)), math.nan, f(a, b))
        return g
    m.minimum = elementwise2(strict(core.smin))
    m.maximum = elementwise2(strict(core.smax))
    m.abs = m.absolute = elementwise1(core.num_abs)
    m.isnan = elementwise1(lambda v: mkb(core.isnull(v)))
    m.isinf = elementwise1(lambda v: mkb(b_or(core.asnum(v).pinf, core.asnum(v).ninf)))
    m.isfinite = elementwise1(lambda v: mkb(b_not(b_or(core.asnum(v).nan, core.asnum(v).pinf, core.asnum(v).ninf))))
    m.logical_and = elementwise2(lambda a, b: mkb(b_and(boolof(a), boolof(b))))
    m.logical_or = elementwise2(lambda a, b: mkb(b_or(boolof(a), boolof(b))))
    m.logical_not = elementwise1(lambda a: mkb(b_not(boolof(a))))

    def select(conds, vals, default=0):
        out = default
        for c, v in reversed(B.list(B.zip(conds, vals))):
            out = table._where(c, v, out)
        return out
    m.select = select

    def __getattr__(n):
        raise Unsupported('numpy.%s' % n)
    m.__getattr__ = __getattr__
    return m


def make_pandas():
    m = types.ModuleType('pandas')
    m.DataFrame = DF
    m.Series = Series
    m.merge = table.merge
    m.concat = table.concat
    m.melt = table.melt
    m.set_option = lambda *a, **k: None
    m.NA = NULL

    def isna(x):
        if isinstance(x, (Vec, DF)):
            return x.isna()
        return mkb(core.isnull(x))
    m.isna = m.isnull = isna

    def notna(x):
        if isinstance(x, (Vec, DF)):
            return x.notna()
        return mkb(b_not(core.isnull(x)))
    m.notna = m.notnull = notna

    def to_numeric(x, *a, **k):
        if isinstance(x, Series):
            return x.like([E.to_numeric(s.val) for s in x.segs])
        raise Unsupported('to_numeric')
    m.to_numeric = to_numeric

    def __getattr__(n):
        raise Unsupported('pandas.%s' % n)
    m.__getattr__ = __getattr__
    return m


def make_mip():
    from . import ghostmip
    return ghostmip.module()


class Loader:
    def __init__(self, overrides=None):
        self.mods = {}
        self.shims = {'numpy': make_numpy(), 'pandas': make_pandas()}
        self.overrides = overrides or {}
        self.files = []
        bd = dict(B.__dict__)
        bd.update(SHADOW)
        bd['__import__'] = self.imp
        self.builtins = bd

    def shim(self, name):
        if name == 'mip' and name not in self.shims:
            self.shims['mip'] = make_mip()
        return self.shims.get(name)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__name__'].rsplit('.', level)[0]
            name = pkg + ('.' + name if name else '')
        top = name.split('.')[0]
        if self.shim(top) is not None:
            return self.shims[top]
        if top == 'nempy':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self._path(name + '.' + f):
                        setattr(m, f, self.load(name + '.' + f))
                return m
            return self.load('nempy')
        if top in ('xmltodict', 'requests'):
            if top not in self.shims:
                mm = types.ModuleType(top)

                def g(n, top=top):
                    raise Unsupported('%s.%s' % (top, n))
                mm.__getattr__ = g
                self.shims[top] = mm
            return self.shims[top]
        return B.__import__(name, globals, locals, fromlist, level)

    def _path(self, name):
        p = os.path.join(SRC, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.overrides:
            self.mods[name] = self.overrides[name]
            return self.mods[name]
        path = self._path(name)
        if path is None:
            raise ImportError(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        src = open(path).read() if os.path.exists(path) else ''
        self.files.append(path)
        exec(compiled(path, src), m.__dict__)
        if '.' in name:
            par = self.load(name.rsplit('.', 1)[0])
            setattr(par, name.rsplit('.', 1)[1], m)
        return m


CODE = {}           # (path, text) -> code, within one run of the check


def compiled(path, src):
    if (path, src) not in CODE:
        tree = ast.parse(src, path)
        tree = Rewrite(path).visit(tree)
        ast.fix_missing_locations(tree)
        CODE[path, src] = compile(tree, path, 'exec')
    return CODE[path, src]


def precompile():
    """compile the current text of every module once, before processes are forked"""
    for d, _, fs in os.walk(os.path.join(SRC, 'nempy')):
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                try:
                    compiled(p, open(p).read())
                except SyntaxError:
                    pass


class Rewrite(ast.NodeTransformer):
    """Mechanical rewriting applied on every run: an empty dict display becomes table.Dict() (so that symbolic keys can be
    used) and a comprehension with one generator becomes a call of table.listcomp (which runs it as usual on plain
    sequences).  Everything else is untouched.  For statements are recorded with whether their iterations are
    independent."""

    def __init__(self, path):
        self.path = path

    def visit_Dict(self, n):
        self.generic_visit(n)
        if not n.keys:
            return ast.copy_location(ast.Call(func=ast.Name(id='__newdict__', ctx=ast.Load()), args=[], keywords=[]), n)
        return n

    def _comp(self, n):
        self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].is_async:
            return n
        g = n.generators[0]

        def fn(body):
            if isinstance(g.target, ast.Name):
                return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=g.target.id)], kwonlyargs=[],
                                                     kw_defaults=[], defaults=[]), body=body)
            names = [e.id for e in g.target.elts]
            inner = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in names], kwonlyargs=[],
                                                  kw_defaults=[], defaults=[]), body=body)
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='__t')], kwonlyargs=[], kw_defaults=[],
                                                 defaults=[]),
                              body=ast.Call(func=inner, args=[ast.Starred(value=ast.Name(id='__t', ctx=ast.Load()),
                                                                          ctx=ast.Load())], keywords=[]))
        if not isinstance(g.target, ast.Name) and not (isinstance(g.target, (ast.Tuple, ast.List)) and
                                                       all(isinstance(e, ast.Name) for e in g.target.elts)):
            return n
        return ast.copy_location(ast.Call(func=ast.Name(id='__listcomp__', ctx=ast.Load()),
                                          args=[g.iter, fn(n.elt), ast.List(elts=[fn(c) for c in g.ifs], ctx=ast.Load())],
                                          keywords=[]), n)

    visit_ListComp = visit_GeneratorExp = _comp

    def visit_For(self, n):
        why = carried(n)
        names = {x.id for b in [n.target] + n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        table.LOOPVARS[(self.path, n.lineno)] = table.LOOPVARS[(self.path, n.iter.lineno)] = names
        table.LOOPS[(self.path, n.lineno)] = why
        if n.iter.lineno != n.lineno:
            table.LOOPS[(self.path, n.iter.lineno)] = why
        self.generic_visit(n)
        return n


def carried(loop):
    """None when every iteration only reads names it assigned itself or names not assigned in the loop"""
    stored = {x.id for b in loop.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    stored |= {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
    done = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}

    def reads(e, done):
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in stored and x.id not in done:
                return x.id
        return None

    def block(stmts, done):
        for s in stmts:
            if isinstance(s, ast.AugAssign):
                if isinstance(s.target, ast.Name):
                    return 'accumulates in %s' % s.target.id, done
                r = reads(s.value, done) or reads(s.target, done)
                if r:
                    return 'carries %s' % r, done
                if isinstance(s.target, ast.Subscript):
                    return 'accumulates in a container', done
            elif isinstance(s, ast.Assign):
                r = reads(s.value, done)
                if r:
                    return 'carries %s' % r, done
                for t in s.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            done = done | {x.id}
            elif isinstance(s, ast.If):
                r = reads(s.test, done)
                if r:
                    return 'carries %s' % r, done
                w1, d1 = block(s.body, done)
                w2, d2 = block(s.orelse, done)
                if w1 or w2:
                    return w1 or w2, done
                if not ends(s.body):
                    done = (d1 & d2) if not ends(s.orelse) else d1
                else:
                    done = d2
            elif isinstance(s, ast.Expr):
                r = reads(s.value, done)
                if r:
                    return 'carries %s' % r, done
                for x in ast.walk(s.value):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                            x.func.attr in ('append', 'extend', 'add', 'pop', 'remove', 'insert', 'update', 'clear'):
                        return 'mutates a container', done
            elif isinstance(s, (ast.Raise, ast.Pass, ast.Continue)):
                pass
            else:
                return 'contains %s' % type(s).__name__, done
        return None, done

    def ends(stmts):
        return bool(stmts) and isinstance(stmts[-1], (ast.Raise, ast.Return, ast.Continue))
    if loop.orelse:
        return 'has an else part'
    return block(loop.body, done)[0]


SHADOW['__newdict__'] = lambda: table.Dict()
SHADOW['__listcomp__'] = table.listcomp


# ------------------------------------------------------------------ functions of /repo executed under contract
_EXEC = set()


def _start(code, off):
    if code.co_filename.startswith(SRC) and not code.co_qualname.startswith('<'):
        _EXEC.add('%s:%s' % (os.path.relpath(code.co_filename, SRC), code.co_qualname.replace('.<locals>', '')))
    return sys.monitoring.DISABLE


def watch():
    try:
        sys.monitoring.use_tool_id(3, 'dv')
        sys.monitoring.register_callback(3, sys.monitoring.events.PY_START, _start)
        sys.monitoring.set_events(3, sys.monitoring.events.PY_START)
    except Exception:
        pass


def executed():
    return sorted(x for x in _EXEC if '<lambda>' not in x and '<module>' not in x)


watch()
