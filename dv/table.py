"""Symbolic tables: the pandas / numpy operations the verified code uses, as operations on unbounded bags of rows.

A table is a list of segments.  A segment (binders b, guard G(b), values v(b)) stands for one row per tuple of
binders that satisfies the guard.  Binders range over the rows of arbitrary input relations (core.Relation).
Row order is not represented: positions are an arbitrary injective numbering (so what is proved holds for every
order), and operations whose result depends on the order choose an arbitrary representative."""
import itertools
import math
import sys
import z3
from .core import *          # noqa
from . import core
from .core import E, SV, SNum, SStr, SBool, SNull, SRef, NULL, Unsupported, Infeasible

NAN = float('nan')


class Lab:
    """identity of a base segment of an index"""
    __slots__ = ('index', 'j', 'binders', 'guard', 'src')

    def __init__(self, index, j, binders, guard, src=None):
        self.index, self.j, self.binders, self.guard, self.src = index, j, binders, guard, src


class Index:
    def __init__(self, kind):
        self.kind = kind              # range | user | concat | other
        self.labs = []
        self.funs = None

    @property
    def unique(self):
        return self.kind == 'range'

    def add(self, binders, guard, src=None):
        lab = Lab(self, len(self.labs), tuple(binders), list(guard), src)
        self.labs.append(lab)
        return lab

    def build(self):
        n = next(E.counter)
        self.uid = n
        self.N = z3.Int('len!%d' % n)
        seg = z3.Function('segno!%d' % n, z3.IntSort(), z3.IntSort())
        self.funs = []
        for lab in self.labs:
            sorts = [b.sort() for b in lab.binders]
            if sorts:
                pos = z3.Function('pos!%d_%d' % (n, lab.j), *sorts, z3.IntSort())
            else:
                pos = z3.Function('pos!%d_%d' % (n, lab.j), z3.IntSort())
            invs = [z3.Function('inv!%d_%d_%d' % (n, lab.j, i), z3.IntSort(), s) for i, s in enumerate(sorts)]
            self.funs.append((pos, invs))
            E.posfuns[pos.get_id()] = (self, lab.j, invs, pos)

            def trig(*args, lab=lab, pos=pos, invs=invs):
                t = pos(*args)
                g = [z3.substitute(zb(x), *zip(lab.binders, args)) if args else zb(x) for x in lab.guard]
                conc = [inv(t) == a for inv, a in zip(invs, args)] + [seg(t) == lab.j, t >= 0, t < self.N]
                return [z3.Implies(z3.And(*g) if g else TRUE, z3.And(*conc))]
            E.trigger(pos, trig)
            if not sorts:
                E.assume(z3.Implies(z3.And(*[zb(x) for x in lab.guard]) if lab.guard else TRUE,
                                    z3.And(pos() >= 0, pos() < self.N, seg(pos()) == lab.j)))

    def label(self, lab, binders):
        if self.kind == 'range':
            if self.funs is None:
                self.build()
            return SNum(self.funs[lab.j][0](*binders))
        if self.kind == 'concat':
            return lab.src[0].label(lab.src[1], binders)
        if self.kind == 'user':
            f = z3.Function('label!%d_%d' % (id(self) % 10 ** 8, lab.j), *[b.sort() for b in lab.binders], z3.IntSort())
            return SNum(f(*binders)) if lab.binders else SNum(z3.Int('label!%d_%d' % (id(self) % 10 ** 8, lab.j)))
        raise Unsupported('labels of index')


def range_index(segs):
    """fresh 0..n-1 index over the segments (assigns labs)"""
    ix = Index('range')
    for s in segs:
        s.lab = ix.add(s.binders, s.guard)
    return ix


class Seg:
    __slots__ = ('binders', 'guard', 'vals', 'lab', 'tag')

    def __init__(self, binders, guard, vals, lab=None, tag=None):
        self.binders = tuple(binders)
        self.guard = [g for g in guard if not is_t(g)]
        self.vals = vals
        self.lab = lab
        self.tag = tag

    def clone(self, vals=None, guard=None):
        return Seg(self.binders, self.guard if guard is None else guard, dict(self.vals) if vals is None else vals,
                   self.lab, self.tag)

    def renamed(self):
        """alpha renaming with fresh binders -> (seg, substitution)"""
        m = [(b, E.fresh(b.decl().name().split('!')[0], b.sort())) for b in self.binders]
        return self.at([x[1] for x in m]), m

    def at(self, terms):
        """the segment's guard and values at given terms (no binders renamed apart)"""
        m = list(zip(self.binders, terms))
        if not m:
            return self.clone()
        new = [t for t in terms]
        return Seg(tuple(t for t in new if is_binder(t)), [subst_b(g, m) for g in self.guard],
                   {c: subst_val(v, m) for c, v in self.vals.items()}, self.lab, self.tag)

    def dead(self):
        return any(is_f(g) for g in self.guard)


def is_binder(t):
    return z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED


def subst_b(g, m):
    return g if isinstance(g, bool) or not m else z3.substitute(g, *m)


def mentions(e, consts):
    ids = {c.get_id() for c in consts}
    st, seen = [e], set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.get_id() in ids:
            return True
        st.extend(t.children())
    return False


def conjuncts(gs):
    out = []
    for g in gs:
        if isinstance(g, bool):
            if not g:
                out.append(FALSE)
            continue
        if z3.is_and(g):
            out.extend(conjuncts(g.children()))
        else:
            out.append(g)
    return out


# --------------------------------------------------------------------------- pinning
def _subst(e, m):
    return z3.substitute(e, *m) if m else e


def split_offset(e):
    """e as (pos application, rest) with e = pos + rest, or None"""
    e = z3.simplify(e) if not z3.is_const(e) else e
    terms = []
    if z3.is_add(e):
        terms = list(e.children())
    else:
        terms = [e]
    for i, t in enumerate(terms):
        if z3.is_app(t) and t.decl().get_id() in E.posfuns:
            rest = [x for k, x in enumerate(terms) if k != i]
            r = z3.IntVal(0)
            for x in rest:
                r = r + x
            return t, r
    return None


def derive_pairs(pairs, unknown, guard):
    """consequences of the equations: positions are injective, a representative has the key of its group, a row looked up by
    key (and present, by the guard) has that key"""
    out = list(pairs)
    present = None
    i = 0
    while i < len(out) and len(out) < 200:
        a, b = out[i]
        i += 1
        if mentions(b, unknown) or not mentions(a, unknown):
            continue
        new = []
        so = split_offset(a) if z3.is_int(a) else None
        if so is not None:
            app, rest = so
            if not mentions(rest, unknown):
                invs = E.posfuns[app.decl().get_id()][2]
                for x, inv in zip(app.children(), invs):
                    if mentions(x, unknown) and not any(x.eq(u) for u in unknown):
                        new.append((x, inv(z3.simplify(b - rest))))
        elif z3.is_app(a) and a.decl().get_id() in E.repfuns:
            f, bd, keys = E.repfuns[a.decl().get_id()]
            if bd is not None:
                for k, e in zip(a.children(), keys):
                    new.append((k, z3.substitute(e, (bd, b))))
        elif z3.is_app(a) and a.num_args() and a.sort().name() in E.relations:
            rel = E.relations[a.sort().name()]
            for k, L in rel.lk.items():
                if a.decl().eq(L):
                    if present is None:
                        present = {g.children()[0].get_id() for g in conjuncts(guard)
                                   if z3.is_app(g) and g.num_args() == 1 and g.decl().name().startswith('in_')}
                    if a.get_id() in present:
                        for c, x in zip(k, a.children()):
                            new.append((x, rel.f[c](b)))
        for n in new:
            if not any(n[0].eq(x) and n[1].eq(y) for x, y in out):
                out.append(n)
    return out


def pin(binders, guard, eqs, enum=True):
    """Terms the binders must take in any row satisfying the guard and the equations (expr over binders = target value).

    Returns a list of (substitution, extra conditions): the rows satisfying guard and equations are exactly the
    candidates that satisfy them (pairwise different); or None when some binder is not determined."""
    unknown = list(binders)
    if not unknown:
        return [([], [])]
    pairs = []
    for a, b in eqs:
        la, lb = lift(a), lift(b)
        if isinstance(la, SNull) or isinstance(lb, SNull) or isinstance(la, SBool) or isinstance(lb, SBool):
            continue
        ea, eb = key_expr(la), key_expr(lb)
        if ea.sort() != eb.sort():
            if z3.is_arith(ea) and z3.is_arith(eb):
                if z3.is_int(ea) and not z3.is_int(eb):
                    continue
                ea, eb = toreal(ea), toreal(eb)
            else:
                continue
        pairs.append((ea, eb))
    for g in conjuncts(guard):
        if z3.is_eq(g):
            a, b = g.children()
            if a.sort().kind() != z3.Z3_BOOL_SORT:
                pairs.append((a, b))
                pairs.append((b, a))
    pairs = derive_pairs(pairs, unknown, guard)
    res = []

    def solve(unknown, m, extra, budget):
        if not unknown:
            res.append((m, extra))
            return True
        ps = [(_subst(a, m), _subst(b, m)) for a, b in pairs]
        usable = [(a, b) for a, b in ps if not mentions(b, unknown)]

        def find(e):
            for a, b in usable:
                if a.eq(e):
                    return b
            return None
        # direct, position and representative equations first
        for b in unknown:
            t = find(b)
            if t is not None:
                return solve([x for x in unknown if not x.eq(b)], m + [(b, t)], extra, budget)
        for a, tgt in usable:
            so = split_offset(a) if z3.is_int(a) else None
            if so is not None:
                app, rest = so
                ix, j, invs, pos = E.posfuns[app.decl().get_id()]
                args = app.children()
                un = [x for x in args if any(x.eq(u) for u in unknown)]
                if un and not mentions(rest, unknown):
                    v = z3.simplify(tgt - rest)
                    sub = [(x, inv(v)) for x, inv in zip(args, invs) if any(x.eq(u) for u in unknown)]
                    rem = [u for u in unknown if not any(u.eq(x) for x, _ in sub)]
                    return solve(rem, m + sub, extra, budget)
        for a, b in ps:
            # representative: rep(keys) = b
            if z3.is_app(a) and a.decl().get_id() in E.repfuns and any(b.eq(u) for u in unknown):
                ks = []
                for k in a.children():
                    t = k if not mentions(k, unknown) else find(k)
                    if t is None:
                        break
                    ks.append(t)
                else:
                    return solve([x for x in unknown if not x.eq(b)], m + [(b, a.decl()(*ks))], extra, budget)
        best = None
        for b in unknown:
            rel = E.relations.get(b.sort().name())
            if rel is None:
                continue
            for k in rel.keys:
                tg, miss = [], []
                for c in k:
                    t = find(rel.f[c](b))
                    if t is None:
                        if c in rel.nf or rel.cols[c].dom is None or len(rel.cols[c].dom) > budget or not enum:
                            tg = None
                            break
                        miss.append(c)
                    tg.append(t)
                if tg is None:
                    continue
                if best is None or len(miss) < len(best[3]):
                    best = (b, k, tg, miss, rel)
        if best is None:
            return False
        b, k, tg, miss, rel = best
        rest = [x for x in unknown if not x.eq(b)]
        if not miss:
            return solve(rest, m + [(b, rel.lk[k](*tg))], extra, budget)
        for combo in itertools.product(*[rel.cols[c].dom for c in miss]):
            d = dict(zip(miss, combo))
            args = [t if t is not None else dom_const(d[c]) for c, t in zip(k, tg)]
            row = rel.lk[k](*args)
            ex = [rel.f[c](row) == dom_const(d[c]) for c in miss]
            if not solve(rest, m + [(b, row)], extra + ex, budget):
                return False
        return True
    n0 = len(res)
    if not solve(unknown, [], [], 12):
        return None
    return res


def dom_const(x):
    return lit(x) if isinstance(x, str) else z3.IntVal(x)


def eq_conds(eqs, m):
    """equations as conditions, with the substitution applied to their left side"""
    out = []
    for a, b in eqs:
        out.append(boolof(core.same(subst_val(lift(a), m), b)))
    return out


# --------------------------------------------------------------------------- quantified decisions
def all_rows(segs, pred):
    """decide whether pred holds for every row (segs: list of (binders, guard, predicate))"""
    items = []
    for b, g, p in segs:
        p = boolof(p)
        if is_t(p) or any(is_f(x) for x in g):
            continue
        items.append((b, g, p))
    if not items:
        return True
    key = tuple((tuple(x.get_id() for x in b), tuple(zb(x).get_id() for x in g), zb(p).get_id()) for b, g, p in items)
    hit = E.allcache.get(key)
    if hit is not None:
        return hit[0]
    v = _all_rows(items)
    if not E.scopes:
        E.allcache[key] = (v, items)
    return v


def _all_rows(items):
    # cheap attempt: provable for all rows
    for b, g, p in items:
        st = E.sat([zb(x) for x in g] + [zb(b_not(p))])
        if st != 'unsat':
            break
    else:
        return True
    q = E.fresh('all', z3.BoolSort())
    if E.decide(q):
        for b, g, p in items:
            f = z3.Implies(z3.And(*[zb(x) for x in g]) if g else TRUE, zb(p))
            if b:
                E.facts.append(core.Fact(b, f))
            else:
                E.assume(f)
        if E.sat([]) == 'unsat':
            raise Infeasible()
        return True
    wits = []
    for b, g, p in items:
        m = [(x, E.fresh('w', x.sort())) for x in b]
        wits.append(z3.And(*[zb(subst_b(x, m)) for x in g], zb(subst_b(b_not(p), m))))
    E.assume(z3.Or(*wits))
    if E.sat([]) == 'unsat':
        raise Infeasible()
    return False


def exists(rseg_list, lbinders, lguard, mk_eqs):
    """formula: some row of the given segments satisfies the equations mk_eqs(seg) (list of (expr, target))"""
    alts = []
    for R in rseg_list:
        R2, _ = R.renamed()
        eqs = mk_eqs(R2)
        if eqs is None:
            continue
        if any(is_f(boolof(core.same(a, b))) for a, b in eqs):
            continue
        cands = pin(R2.binders, R2.guard, eqs)
        if cands is not None:
            for m, extra in cands:
                alts.append(b_and(*[subst_b(g, m) for g in R2.guard], *eq_conds(eqs, m), *extra))
            continue
        # undetermined: existential with a witness function
        lb = [b for b in lbinders]
        P = E.fresh_fun('ex', *[b.sort() for b in lb], z3.BoolSort()) if lb else None
        p = P(*lb) if lb else E.fresh('ex', z3.BoolSort())
        body = b_and(*R2.guard, *eq_conds(eqs, []))
        ws = [(b, (E.fresh_fun('wit', *[x.sort() for x in lb], b.sort())(*lb) if lb else E.fresh('wit', b.sort())))
              for b in R2.binders]
        skol = subst_b(body, ws)
        if lb:
            def trig(*args, lb=lb, skol=skol, P=P):
                return [z3.Implies(P(*args), z3.substitute(zb(skol), *zip(lb, args)))]
            E.trigger(P, trig)
            E.facts.append(core.Fact(list(lb) + list(R2.binders), z3.Implies(zb(body), p)))
        else:
            E.assume(z3.Implies(p, zb(skol)))
            E.facts.append(core.Fact(list(R2.binders), z3.Implies(zb(body), p)))
        alts.append(p)
    return b_or(*alts)


# --------------------------------------------------------------------------- series
class SSeg:
    __slots__ = ('binders', 'guard', 'val', 'lab')

    def __init__(self, binders, guard, val, lab=None):
        self.binders, self.guard, self.val, self.lab = tuple(binders), guard, val, lab

    def renamed(self):
        m = [(b, E.fresh(b.decl().name().split('!')[0], b.sort())) for b in self.binders]
        return SSeg([x[1] for x in m], [subst_b(g, m) for g in self.guard], subst_val(lift(self.val), m), self.lab), m


def vmap(f, *vals):
    return f(*vals)


def rtruth(v):
    """right operand of & and | beside a boolean column: pandas reads a float as (not NaN and not zero)"""
    v = lift(v)
    if isinstance(v, SNum) and not (v.is_int and v.nan is False):
        return mkb(b_and(b_not(core.isnull(v)), b_not(boolof(core.eq(v, 0.0)))))
    return truth(v)


def truth(v):
    if isinstance(v, (bool, SBool)):
        return v
    v = lift(v)
    if isinstance(v, SBool):
        return v
    raise Unsupported('boolean column expected')


class Vec:
    """common part of Series and arrays: one value per row of a row set (pid)"""
    _series_op = True

    def __init__(self, segs, pid):
        self.segs = segs
        self.pid = pid

    def like(self, vals):
        raise NotImplementedError

    def _zip(self, o, f):
        if isinstance(o, Vec):
            o = self._aligned(o)
            return self.like([f(a.val, b.val) for a, b in zip(self.segs, o.segs)])
        if isinstance(o, (list, dict, tuple, set)):
            raise Unsupported('operation of a column with a %s' % type(o).__name__)
        return self.like([f(a.val, o) for a in self.segs])

    def _aligned(self, o):
        if o.pid is not self.pid:
            raise Unsupported('operation on columns of different row sets')
        if isinstance(self, Series) and isinstance(o, Series) and o.index is not self.index:
            raise Unsupported('operation on columns with different indexes')
        return o

    def __add__(self, o):
        return self._zip(o, lambda a, b: core.num_add(a, b))

    def __radd__(self, o):
        return self._zip(o, lambda a, b: core.num_add(b, a))

    def __sub__(self, o):
        return self._zip(o, lambda a, b: core.num_add(a, core.num_neg(b)))

    def __rsub__(self, o):
        return self._zip(o, lambda a, b: core.num_add(b, core.num_neg(a)))

    def __mul__(self, o):
        return self._zip(o, lambda a, b: core.num_mul(a, b))

    def __rmul__(self, o):
        return self._zip(o, lambda a, b: core.num_mul(b, a))

    def __truediv__(self, o):
        return self._zip(o, lambda a, b: core.num_div(a, b))

    def __rtruediv__(self, o):
        return self._zip(o, lambda a, b: core.num_div(b, a))

    def __pow__(self, o):
        return self._zip(o, lambda a, b: core.num_pow(a, b))

    def __neg__(self):
        return self.like([core.num_neg(s.val) for s in self.segs])

    def __lt__(self, o):
        return self._zip(o, lambda a, b: cmp_(a, b, 'lt'))

    def __le__(self, o):
        return self._zip(o, lambda a, b: cmp_(a, b, 'le'))

    def __gt__(self, o):
        return self._zip(o, lambda a, b: cmp_(b, a, 'lt'))

    def __ge__(self, o):
        return self._zip(o, lambda a, b: cmp_(b, a, 'le'))

    def __eq__(self, o):
        return self._zip(o, lambda a, b: core.eq(a, b))

    def __ne__(self, o):
        return self._zip(o, lambda a, b: core.invert(core.eq(a, b)))

    def __and__(self, o):
        return self._zip(o, lambda a, b: mkb(b_and(boolof(truth(a)), boolof(rtruth(b)))))

    __rand__ = __and__

    def __or__(self, o):
        return self._zip(o, lambda a, b: mkb(b_or(boolof(truth(a)), boolof(rtruth(b)))))

    __ror__ = __or__

    def __invert__(self):
        return self.like([mkb(b_not(boolof(truth(s.val)))) for s in self.segs])

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise ValueError('The truth value of a Series is ambiguous.')

    def abs(self):
        return self.like([core.num_abs(s.val) for s in self.segs])

    def __abs__(self):
        return self.abs()

    def round(self, n=0):
        return self.like([core.num_round(s.val, n) for s in self.segs])

    def isna(self):
        return self.like([mkb(core.isnull(s.val)) for s in self.segs])

    isnull = isna

    def notna(self):
        return self.like([mkb(b_not(core.isnull(s.val))) for s in self.segs])

    notnull = notna

    def copy(self, deep=True):
        return self.like([s.val for s in self.segs])

    def all(self, *a, **k):
        return all_rows([(s.binders, s.guard, truth(s.val)) for s in self.segs], None)

    def any(self, *a, **k):
        return not all_rows([(s.binders, s.guard, mkb(b_not(boolof(truth(s.val))))) for s in self.segs], None)

    @property
    def empty(self):
        return all_rows([(s.binders, s.guard, False) for s in self.segs], None)

    def isin(self, xs):
        if isinstance(xs, SymList):
            xs = xs.vec
        if isinstance(xs, Vec):
            out = []
            for s in self.segs:
                f = exists(xs.segs, s.binders, s.guard, lambda R, s=s: [(R.val, s.val)])
                out.append(mkb(f))
            return self.like(out)
        if isinstance(xs, SymSet):
            raise Unsupported('isin of symbolic set')
        xs = list(xs)
        out = []
        for s in self.segs:
            out.append(mkb(b_or(*[boolof(core.eq(s.val, x)) for x in xs])))
        return self.like(out)

    def tolist(self):
        return SymList(self)

    def to_list(self):
        return SymList(self)

    def unique(self):
        return SymList(self, distinct=True)

    def nunique(self):
        if not all_rows([(s.binders, s.guard, mkb(b_not(core.isnull(s.val)))) for s in self.segs], None):
            raise Unsupported('nunique with missing values')
        return SymLen(self.segs, SymList(self, distinct=True), distinct=True)

    def drop_duplicates(self, *a, **k):
        raise Unsupported('Series.drop_duplicates')

    def _bound(self, up):
        if self.empty:
            return None
        ints = all(isinstance(lift(s.val), SNum) and lift(s.val).is_int for s in self.segs)
        m = SNum(E.fresh('max' if up else 'min', z3.IntSort() if ints else z3.RealSort()))
        wit = []
        if any(core.asnum(s.val).hasinf() for s in self.segs):
            k = E.fresh('minf', z3.IntSort())
            m.pinf, m.ninf = k == 2, k == 3
        for s in self.segs:
            v = core.asnum(s.val)
            nn = b_not(v.nan)
            cond = core.num_cmp(v, m, 'le') if up else core.num_cmp(m, v, 'le')
            f = z3.Implies(zb(b_and(*s.guard, nn)), zb(boolof(cond)))
            if s.binders:
                E.facts.append(core.Fact(s.binders, f))
            else:
                E.assume(f)
            w = [(b, E.fresh('w', b.sort())) for b in s.binders]
            wit.append(subst_b(b_and(*s.guard, nn, boolof(core.eq(v, m))), w))
        nans = [core.asnum(s.val).nan for s in self.segs]
        if all(is_f(n) for n in nans):
            E.assume(zb(b_or(*wit)))
            return m
        allnan = E.fresh('allnan', z3.BoolSort())
        E.assume(z3.Or(allnan, zb(b_or(*wit))))
        for s in self.segs:
            f = z3.Implies(zb(b_and(allnan, *s.guard)), zb(core.asnum(s.val).nan))
            if s.binders:
                E.facts.append(core.Fact(s.binders, f))
            else:
                E.assume(f)
        m.nan = allnan
        return m

    def max(self, *a, **k):
        m = self._bound(True)
        return NAN if m is None else m

    def min(self, *a, **k):
        m = self._bound(False)
        return NAN if m is None else m

    def sum(self, *a, **k):
        return total([(s.binders, s.guard, s.val) for s in self.segs])

    def __len__(self):
        raise Unsupported('len of a symbolic column')

    def symlen(self):
        return SymLen(self.segs, self)


def cmp_(a, b, op):
    la, lb = lift(a), lift(b)
    if isinstance(la, SStr) and isinstance(lb, SStr):
        return mkb(E.strlt(la, lb)) if op == 'lt' else mkb(b_or(E.strlt(la, lb), la.e == lb.e))
    return core.num_cmp(la, lb, op)


class Series(Vec):
    def __init__(self, segs, pid, index, name=None, dtype=None):
        super().__init__(segs, pid)
        self.index_ = index
        self.name = name
        self._dtype = dtype

    @property
    def index(self):
        return self.index_

    def like(self, vals):
        return Series([SSeg(s.binders, s.guard, v, s.lab) for s, v in zip(self.segs, vals)], self.pid, self.index_, self.name)

    @property
    def dtype(self):
        return dtype_of([s.val for s in self.segs], self._dtype)

    @property
    def values(self):
        return Arr([SSeg(s.binders, s.guard, s.val, s.lab) for s in self.segs], self.pid)

    def to_numpy(self, *a, **k):
        return self.values

    def astype(self, t):
        vals = []
        for s in self.segs:
            v = lift(s.val)
            if t in (str, 'str'):
                if not isinstance(v, SStr):
                    raise Unsupported('astype(str)')
                vals.append(s.val)
            elif t in (float, 'float64') or getattr(t, 'dtname', None) == 'float64':
                v = core.asnum(v)
                vals.append(SNum(toreal(v.e), v.nan, v.pinf, v.ninf))
            elif t in (int, 'int64') or getattr(t, 'dtname', None) == 'int64':
                v = core.asnum(v)
                if not v.is_int:
                    raise Unsupported('astype(int)')
                vals.append(v)
            else:
                raise Unsupported('astype(%r)' % (t,))
        return self.like(vals)

    def fillna(self, x):
        if isinstance(x, Vec):
            x = self._aligned(x)
            return self.like([core.ite(core.isnull(s.val), y.val, s.val) for s, y in zip(self.segs, x.segs)])
        return self.like([core.ite(core.isnull(s.val), x, s.val) for s in self.segs])

    @property
    def str(self):
        return StrAccess(self)

    def apply(self, f, *a, **k):
        return self.like(row_apply([(s.binders, s.guard, s.val) for s in self.segs], lambda v: f(v)))

    def map(self, f):
        if isinstance(f, SymMap):
            return self.like([f.get(s.val) for s in self.segs])
        if isinstance(f, dict):
            out = []
            for s in self.segs:
                v = NAN
                for k, x in f.items():
                    v = core.ite(core.eq(s.val, k), x, v)
                out.append(v)
            return self.like(out)
        return self.apply(f)

    def replace(self, d, *a):
        if not isinstance(d, dict):
            raise Unsupported('replace')
        out = []
        for s in self.segs:
            v = s.val
            for k, x in reversed(list(d.items())):
                v = core.ite(core.eq(s.val, k), x, v)
            out.append(v)
        return self.like(out)

    def between(self, lo, hi):
        return (self >= lo) & (self <= hi)

    def clip(self, lower=None, upper=None):
        r = self
        if lower is not None:
            r = r._zip(lower, lambda a, b: core.ite(cmp_(a, b, 'lt'), b, a))
        if upper is not None:
            r = r._zip(upper, lambda a, b: core.ite(cmp_(b, a, 'lt'), b, a))
        return r

    def where(self, cond, other=NAN):
        return _where(cond, self, other, series=self)

    def mask(self, cond, other=NAN):
        return _where(~cond, self, other, series=self)

    def to_frame(self, name=None):
        n = name or self.name
        return DF([Seg(s.binders, s.guard, {n: s.val}, s.lab) for s in self.segs], [n], self.index_, self.pid)

    def reset_index(self, drop=False, **k):
        if not drop:
            raise Unsupported('Series.reset_index without drop')
        segs = [SSeg(s.binders, s.guard, s.val) for s in self.segs]
        ix = Index('range')
        for s in segs:
            s.lab = ix.add(s.binders, s.guard)
        return Series(segs, self.pid, ix, self.name)

    def __iter__(self):
        return iterate([(s.binders, s.guard, s.val) for s in self.segs])

    def __getitem__(self, k):
        if isinstance(k, Series):
            k = self._aligned(k)
            segs = [SSeg(s.binders, s.guard + [boolof(truth(q.val))], s.val, s.lab) for s, q in zip(self.segs, k.segs)]
            segs = [s for s in segs if not any(is_f(g) for g in s.guard)]
            return Series(segs, object(), self.index_, self.name)
        return self._by_label(k)

    labelled = None

    def _by_label(self, k):
        if self.labelled is None or not isinstance(k, SV):
            raise Unsupported('Series label lookup')
        fin, rest = candidates([Seg(s.binders, s.guard, {'k': l, 'v': s.val}) for s, l in zip(self.segs, self.labelled)],
                               lambda R: [(R.vals['k'], k)])
        if rest or any(E.sat([zb(a[0]), zb(b[0])]) != 'unsat' for i, a in enumerate(fin) for b in fin[:i]):
            raise Unsupported('label that may occur more than once')
        for g, R in reversed(fin):
            if is_t(g) or E.decide(zb(g)):
                return R.vals['v']
        raise KeyError(k)

    def value_counts(self, *a, **k):
        d = DF([Seg(s.binders, s.guard, {'v': s.val}, s.lab) for s in self.segs], ['v'], self.index_, self.pid)
        d = d[d['v'].notna()]
        base = d.segs
        u = d.drop_duplicates('v')
        segs = []
        for s in u.segs:
            n = total_where(base, [('v', s.vals['v'])], lambda R: SNum(z3.IntVal(1)))
            segs.append(SSeg(s.binders, s.guard, n, s.lab))
        r = CountSeries(segs, object(), None, None)
        r.labels = [s.vals['v'] for s in u.segs]
        return r

    def sort_values(self, *a, **k):
        return Series([SSeg(s.binders, s.guard, s.val, s.lab) for s in self.segs], object(), self.index_, self.name)


class CountSeries(Series):
    """value_counts: labelled by the values"""
    labels = None

    def like(self, vals):
        r = CountSeries([SSeg(s.binders, s.guard, v, s.lab) for s, v in zip(self.segs, vals)], self.pid, self.index_, self.name)
        r.labels = self.labels
        return r

    @property
    def index(self):
        return LabelVec([SSeg(s.binders, s.guard, v, s.lab) for s, v in zip(self.segs, self.labels)], self.pid)

    def _aligned(self, o):
        if o.pid is not self.pid:
            raise Unsupported('different row sets')
        return o

    def __getitem__(self, k):
        if isinstance(k, Series):
            segs, labs = [], []
            for s, q, lb in zip(self.segs, k.segs, self.labels):
                g = boolof(truth(q.val))
                if is_f(g):
                    continue
                segs.append(SSeg(s.binders, s.guard + [g], s.val, s.lab))
                labs.append(lb)
            r = CountSeries(segs, object(), self.index_, self.name)
            r.labels = labs
            return r
        raise Unsupported('label lookup')


class Arr(Vec):
    """positional array"""

    def like(self, vals):
        return Arr([SSeg(s.binders, s.guard, v, s.lab) for s, v in zip(self.segs, vals)], self.pid)

    @property
    def dtype(self):
        return dtype_of([s.val for s in self.segs], None)

    def __getitem__(self, k):
        if isinstance(k, GroupRows):
            return k.select(self)
        raise Unsupported('array element')

    def tolist(self):
        return SymList(self)

    def __contains__(self, x):
        # numpy: any element == x
        return not all_rows([(s.binders, s.guard, mkb(b_not(boolof(core.eq(s.val, x))))) for s in self.segs], None)

    def __iter__(self):
        return iterate([(s.binders, s.guard, s.val) for s in self.segs])


class LabelVec(Arr):
    def tolist(self):
        return SymList(self)


class StrAccess:
    """series.str on columns with a finite domain; nulls stay null"""

    def __init__(self, s):
        self.s = s

    def _do(self, f):
        def one(v):
            v = lift(v)
            if isinstance(v, SNull) or isinstance(v, SNum) and is_t(core.isnull(v)):
                return v
            if not isinstance(v, core.SStr):
                raise AttributeError('Can only use .str accessor with string values!')
            if v.dom is None and z3.is_int_value(v.e):
                r = lift(f(core.LITS.back(v.e.as_long())))
            else:
                r = lift(v._lift(f))
                if isinstance(r, core.SStr):
                    r = core.SStr(r.e, False, tuple(sorted({f(x) for x in v.dom})))
            if v.null is not False:
                r = core.ite(v.null, core.NULL if isinstance(r, core.SStr) else NAN, r)
            return r
        return self.s.like([one(x.val) for x in self.s.segs])

    def upper(self):
        return self._do(str.upper)

    def lower(self):
        return self._do(str.lower)

    def strip(self):
        return self._do(str.strip)

    def find(self, sub):
        return self._do(lambda x: x.find(sub))

    def startswith(self, sub):
        return self._do(lambda x: x.startswith(sub))

    def endswith(self, sub):
        return self._do(lambda x: x.endswith(sub))

    def contains(self, sub, regex=True, **k):
        import re
        if k:
            raise Unsupported('str.contains')
        return self._do(lambda x: bool(re.search(sub, x)) if regex else sub in x)

    def replace(self, a, b, regex=False):
        if regex:
            raise Unsupported('str.replace')
        return self._do(lambda x: x.replace(a, b))

    def len(self):
        return self._do(len)


class SymList:
    """list(series), series.tolist(), series.unique()"""

    def __init__(self, vec, distinct=False):
        self.vec = vec
        self.distinct = distinct

    def __iter__(self):
        return iter(self.vec)

    def __contains__(self, x):
        f = exists(self.vec.segs, [], [], lambda R: [(R.val, x)])
        return E.decide(zb(f)) if not isinstance(f, bool) else f

    def symlen(self):
        if self.distinct:
            return SymLen(self.vec.segs, self, distinct=True)
        return SymLen(self.vec.segs, self)

    def tolist(self):
        return self

    def __add__(self, o):
        if isinstance(o, list) and not o:
            return self
        if isinstance(o, SymList):
            segs = [SSeg(x.binders, x.guard, x.val) for x in list(self.vec.segs) + list(o.vec.segs)]
            return SymList(Arr(segs, object()))
        raise Unsupported('list concatenation')

    def __radd__(self, o):
        if isinstance(o, list) and not o:
            return self
        raise Unsupported('list concatenation')

    def _max(self, up):
        m = self.vec._bound(up)
        if m is None:
            raise ValueError('max() iterable argument is empty')
        return m


class SymSet(SymList):
    def __init__(self, vec):
        super().__init__(vec, True)


class SymMap:
    """a mapping given by a function (total on the keys it is used with)"""

    def __init__(self, fn):
        self.fn = fn

    def get(self, k):
        return self.fn(k)

    def __getitem__(self, k):
        return self.fn(k)


class SymLen:
    """number of rows"""

    def __init__(self, segs, src, distinct=False, mult=1):
        self.segs, self.src, self.distinct, self.mult = segs, src, distinct, mult

    def _zero(self):
        return all_rows([(s.binders, s.guard, False) for s in self.segs], None)

    def __gt__(self, o):
        if o == 0 and not isinstance(o, SymLen):
            return not self._zero()
        if isinstance(o, SymLen) and o.mult == self.mult == 1:
            # rows, and the same rows without duplicates
            d = getattr(o.src, 'dedup_of', None)
            if d is not None and d[0] is pid_of(self.src):
                return not no_dups(d[1], d[2])
        return self._havoc()

    def __eq__(self, o):
        if isinstance(o, SymLen):
            if o.mult == self.mult == 1:
                r = len_lemma(self, o)
                if r is not None:
                    return r
            r = pairs_lemma(self, o)
            return self._havoc() if r is None else r
        if o == 0:
            return self._zero()
        return self._havoc()

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r

    def __lt__(self, o):
        if o == 1 and not isinstance(o, SymLen):
            return self._zero()
        if isinstance(o, SymLen):
            return o.__gt__(self)
        return self._havoc()

    def __ge__(self, o):
        return not self.__lt__(o)

    def __le__(self, o):
        return not self.__gt__(o)

    def __mul__(self, k):
        return SymLen(self.segs, self.src, self.distinct, self.mult * k)

    __rmul__ = __mul__

    def _havoc(self):
        raise Unsupported('comparison of numbers of rows')

    __hash__ = None


def len_lemma(a, b):
    """len(rows) == len(rows without duplicates): decides that no two rows share the key"""
    da, db = getattr(a.src, 'dedup_of', None), getattr(b.src, 'dedup_of', None)
    for x, y in ((a, b), (b, a)):
        d = getattr(y.src, 'dedup_of', None)
        if d is not None and d[0] is pid_of(x.src):
            base_segs, cols = d[1], d[2]
            return no_dups(base_segs, cols)
    if pid_of(a.src) is not None and pid_of(a.src) is pid_of(b.src):
        return True
    return None


def pairs_lemma(a, b):
    """len(rows) == 2 * number of distinct values, where no value has more than two rows: every row has a partner"""
    for x, y in ((a, b), (b, a)):
        if x.mult == 1 and not x.distinct and y.mult == 2 and y.distinct and isinstance(y.src, SymList) and \
                pid_of(x.src) is not None and pid_of(x.src) is y.src.vec.pid:
            break
    else:
        return None
    segs = [Seg(s.binders, s.guard, {'v': s.val}) for s in y.src.vec.segs]
    if any(not s.binders for s in segs):
        return None

    def distinct(s, t):
        if [b.sort().name() for b in s.binders] != [b.sort().name() for b in t.binders]:
            return True
        return b_not(b_and(*[p == q for p, q in zip(s.binders, t.binders)]))
    import itertools
    for ss in itertools.combinations_with_replacement(segs, 3):
        r = [s.renamed()[0] for s in ss]
        h = [zb(g) for s in r for g in s.guard]
        h += [zb(boolof(core.same(r[0].vals['v'], s.vals['v']))) for s in r[1:]]
        h += [zb(distinct(p, q) if u is w else True)
              for (p, u), (q, w) in itertools.combinations(list(zip(r, ss)), 2)]
        if E.sat(h) != 'unsat':
            return None
    items = []
    for s in segs:
        others = []
        for t in segs:
            t2, _ = t.renamed()
            others.append(Seg(t2.binders, t2.guard + ([zb(distinct(t2, s))] if t is s else []), t2.vals))
        items.append((s.binders, s.guard, mkb(exists(others, s.binders, s.guard, lambda R, s=s: [(R.vals['v'], s.vals['v'])]))))
    return all_rows(items, None)


def pid_of(x):
    if isinstance(x, SymList):
        return x.vec.pid if not x.distinct else None
    return getattr(x, 'pid', None)


def no_dups(segs, cols):
    """decide: no two rows agree on cols; facts / witnesses added accordingly"""
    pairs = []
    for i, a in enumerate(segs):
        for j, b in enumerate(segs):
            if j < i:
                continue
            b2, m = b.renamed()
            conds = [boolof(core.same(a.vals[c], b2.vals[c])) for c in cols]
            if any(is_f(c) for c in conds):
                continue
            diff = True
            if i == j:
                if not a.binders:
                    continue
                diff = b_not(b_and(*[x == y for x, y in zip(a.binders, b2.binders)]))
            pairs.append((a.binders + b2.binders, a.guard + b2.guard + conds, diff))
    open_ = []
    for bs, g, diff in pairs:
        if E.sat([zb(x) for x in g] + [zb(diff)]) != 'unsat':
            open_.append((bs, g, diff))
    if not open_:
        return True
    q = E.fresh('nodup', z3.BoolSort())
    if E.decide(q):
        for bs, g, diff in open_:
            E.facts.append(core.Fact(bs, z3.Implies(zb(b_and(*g)), zb(b_not(diff)))))
        if E.sat([]) == 'unsat':
            raise Infeasible()
        return True
    ws = []
    for bs, g, diff in open_:
        m = [(b, E.fresh('w', b.sort())) for b in bs]
        ws.append(subst_b(b_and(*g, diff), m))
    E.assume(zb(b_or(*ws)))
    if E.sat([]) == 'unsat':
        raise Infeasible()
    return False


# --------------------------------------------------------------------------- rows, apply, iteration
class RowView:
    """a row inside DataFrame.apply(axis=1)"""

    def __init__(self, vals):
        self._v = vals

    def __getitem__(self, c):
        if isinstance(c, list):
            return RowView({k: self._v[k] for k in c})
        return self._v[c]

    def __getattr__(self, c):
        if c.startswith('__'):
            raise AttributeError(c)
        try:
            return self._v[c]
        except KeyError:
            raise AttributeError(c)

    def to_dict(self):
        return dict(self._v)

    def get(self, c, d=None):
        return self._v.get(c, d)

    def keys(self):
        return self._v.keys()

    @property
    def index(self):
        return list(self._v)


def row_apply(items, f):
    """apply f to the generic row of every segment; forks inside f become conditional values"""
    out = []
    raised = []
    for b, g, v in items:
        if any(is_f(x) for x in g):
            out.append(NAN)
            continue
        E.ctx_stack.append((b, g))
        try:
            paths = E.local_paths(lambda v=v: f(v), extra=[zb(x) for x in g])
        finally:
            E.ctx_stack.pop()
        val = None
        first = True
        for cond, kind, r in paths:
            if kind == 'raise':
                raised.append((b, g, b_not(b_and(*cond)), r))
                continue
            if isinstance(r, (Series, DF, RowView)):
                raise Unsupported('apply returning a table')
            r = NAN if r is None else r
            if isinstance(r, core.types.FunctionType):
                r = core.lift(r)
            if first:
                val, first = r, False
            else:
                val = core.ite(b_and(*cond), r, val)
        out.append(NAN if first else val)
    if raised:
        for b, g, p, ex in raised:
            if not all_rows([(b, g, p)], None):
                raise ex
    return out


LOOPVARS = {}       # (file, line) -> names the loop assigns (filled by the loader)
LOOPS = {}          # (file, line) -> None (iterations independent) or the reason why not (filled by the loader)


def iterate(items):
    """generic iteration of a symbolic sequence: one representative element per segment.  Sound for loops whose
    iterations are independent; the loader checks the loop statement"""
    f = sys._getframe(1)
    while f is not None and f.f_code.co_filename == __file__:
        f = f.f_back
    why = LOOPS.get((f.f_code.co_filename, f.f_lineno), 'not a for statement') if f is not None else '?'
    if why is not None:
        raise Unsupported('iteration over a symbolic sequence: %s (%s:%d)' % (why, f.f_code.co_filename, f.f_lineno))
    return _iterate(items)


LOOP_ITEMS = []     # the sequences iterated over


def _iterate(items):
    items = list(items)
    LOOP_ITEMS.append(items)
    for b, g, v in items:
        if any(is_f(x) for x in g):
            continue
        m = [(x, E.fresh('it', x.sort())) for x in b]
        gs = [subst_b(x, m) for x in g]
        E.loop_stack.append((tuple(x[1] for x in m), gs))
        n = len(E.pc)
        for x in gs:
            if not is_t(x):
                E.pc.append(zb(x))
        try:
            yield subst_val(v, m) if isinstance(v, SV) else (tuple(subst_val(x, m) for x in v) if isinstance(v, tuple) else v)
        finally:
            E.loop_stack.pop()
            del E.pc[n:n + len([x for x in gs if not is_t(x)])]


# --------------------------------------------------------------------------- aggregation
class SumTerm:
    """meta data of an uninterpreted sum: value = sum over items (binders, guard, value)"""

    def __init__(self, items, params):
        self.items = items          # [(binders, guard, value)]
        self.params = params        # free binders of the context the sum depends on


def total(items, params=()):
    """sum of the values of all rows (finite set): an opaque number with its definition kept"""
    items = [(b, g, v) for b, g, v in items if not any(is_f(x) for x in g)]
    fin = [i for i in items if not i[0]]
    rest = [i for i in items if i[0]]
    s = 0.0
    for b, g, v in fin:
        s = s + core.ite(b_and(*g), v, 0.0) if not (isinstance(s, float) and s == 0.0) else core.ite(b_and(*g), v, 0.0)
    if not rest:
        return s
    if len(rest) and all(is_zero(v) for _, _, v in rest):
        return s
    params = list(params)
    if params:
        f = E.fresh_fun('sum', *[p.sort() for p in params], z3.RealSort())
        t = f(*params)
    else:
        t = E.fresh('sum', z3.RealSort())
    E.sumterms[t.decl().name()] = SumTerm(rest, params)
    r = SNum(t)
    return r if isinstance(s, float) and s == 0.0 else s + r


def is_zero(v):
    v = lift(v)
    return isinstance(v, SNum) and v.nan is False and not v.hasinf() and z3.is_true(z3.simplify(v.e == 0))


def candidates(segs, eqs_of):
    """rows of segs with given key values: (finite candidates [(guard, seg at terms)], unresolved segs with conditions)"""
    fin, rest = [], []
    for R in segs:
        R2, _ = R.renamed()
        eqs = eqs_of(R2)
        if any(is_f(boolof(core.same(a, b))) for a, b in eqs):
            continue
        c = pin(R2.binders, R2.guard, eqs)
        if c is None:
            rest.append((R2, eq_conds(eqs, [])))
            continue
        for m, extra in c:
            g = b_and(*[subst_b(x, m) for x in R2.guard], *eq_conds(eqs, m), *extra)
            if is_f(g):
                continue
            fin.append((g, Seg((), [], {k: subst_val(v, m) for k, v in R2.vals.items()}, R2.lab, R2.tag)))
    return fin, rest


def total_where(segs, keyvals, valfn, params=()):
    """sum of valfn over the rows with the given key values; NaN values skipped"""
    fin, rest = candidates(segs, lambda R: [(R.vals[c], v) for c, v in keyvals])
    s = None
    for g, R in fin:
        v = valfn(R)
        v = core.ite(core.isnull(v), 0.0, v) if core.isnull(v) is not False else v
        x = core.ite(g, v, 0 if isinstance(v, SNum) and v.is_int else 0.0)
        s = x if s is None else s + x
    if rest:
        t = total([(R.binders, R.guard + conds, valfn(R)) for R, conds in rest], params)
        s = t if s is None else s + t
    return 0.0 if s is None else s


# --------------------------------------------------------------------------- dtype
class DType:
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        n = getattr(o, 'dtname', None) or (o.n if isinstance(o, DType) else o)
        if o is object:
            n = 'object'
        if o is float:
            n = 'float64'
        if o is int:
            n = 'int64'
        return n == self.n

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return self.n


def dtype_of(vals, known=None):
    if known is not None:
        return DType(known)
    kinds = set()
    for v in vals:
        v = lift(v)
        if isinstance(v, SNum):
            kinds.add('int64' if v.is_int and v.nan is False and not v.hasinf() else 'float64')
        elif isinstance(v, SBool):
            kinds.add('bool')
        else:
            kinds.add('object')
    if not kinds:
        return DType('object')
    if len(kinds) == 1:
        return DType(kinds.pop())
    if kinds == {'int64', 'float64'}:
        return DType('float64')
    return DType('object')


# --------------------------------------------------------------------------- frames
class Columns(list):
    @property
    def values(self):
        return list(self)

    def tolist(self):
        return list(self)

    def to_list(self):
        return list(self)

    def difference(self, o):
        return [c for c in self if c not in list(o)]

    def __eq__(self, o):
        raise Unsupported('comparison of columns')

    __hash__ = None


class IndexView:
    def __init__(self, df):
        self.df = df

    @property
    def values(self):
        d = self.df
        if d.idxcols and len(d.idxcols) == 1:
            return Arr([SSeg(s.binders, s.guard, s.vals['#' + d.idxcols[0]], s.lab) for s in d.segs], d.pid)
        return Arr([SSeg(s.binders, s.guard, d.index_.label(s.lab, s.binders), s.lab) for s in d.segs], d.pid)

    def symlen(self):
        return SymLen(self.df.segs, self.df)

    def tolist(self):
        return SymList(self.values)

    def __iter__(self):
        return iter(self.values)


def broadcast(df, v):
    """values of an assigned object, one per segment"""
    if isinstance(v, Arr):
        if v.pid is not df.pid:
            raise Unsupported('array of another row set assigned')
        return [s.val for s in v.segs]
    if isinstance(v, Series):
        if v.pid is df.pid and v.index is df.index_:
            return [s.val for s in v.segs]
        if v.index is df.index_ and df.index_.unique:
            by = {}
            for s in v.segs:
                by.setdefault(id(s.lab), []).append(s)
            out = []
            for s in df.segs:
                c = by.get(id(s.lab), [])
                if len(c) == 0:
                    out.append(NAN)
                elif len(c) == 1:
                    have = {g.get_id() for g in s.guard if not isinstance(g, bool)}
                    extra = [g for g in c[0].guard if not isinstance(g, bool) and g.get_id() not in have]
                    val = c[0].val
                    if extra:
                        val = core.ite(b_and(*extra), val, NAN)
                    out.append(val)
                else:
                    raise Unsupported('ambiguous alignment')
            return out
        raise Unsupported('column of a different table assigned (index alignment)')
    if isinstance(v, (SymList,)):
        return broadcast(df, Arr(v.vec.segs, v.vec.pid))
    if isinstance(v, (list, tuple)):
        if len(df.segs) == len(v) and all(not s.binders for s in df.segs):
            return list(v)
        raise Unsupported('list assigned to a symbolic table')
    if isinstance(v, (dict, DF)):
        raise Unsupported('assignment of %s' % type(v).__name__)
    return [v for _ in df.segs]


GHOST = set()       # columns whose values stay with the rows (as ghost state) when the code drops them


class DF:
    idxcols = None
    dedup_of = None
    sorted_by = None
    group_of = None

    def __init__(self, segs=None, cols=None, index=None, pid=None, dtypes=None):
        if isinstance(segs, dict) or segs is None or (isinstance(segs, list) and segs and not isinstance(segs[0], Seg)):
            segs, cols, index, pid = self._literal(segs, cols)
        self.segs = [s for s in segs if not s.dead()]
        self._cols = list(cols)
        self.index_ = index
        self.pid = pid if pid is not None else object()
        self.dtypes_ = dict(dtypes or {})
        self.dedup_of = None
        self.user = False

    @staticmethod
    def _literal(data, cols):
        if data is None:
            return [], list(cols or []), Index('range'), object()
        if isinstance(data, list):
            if not all(isinstance(x, dict) for x in data):
                raise Unsupported('DataFrame literal')
            names = []
            for x in data:
                for k in x:
                    if k not in names:
                        names.append(k)
            data = {k: [x.get(k, NAN) for x in data] for k in names}
        if any(isinstance(v, (Vec, SymList)) for v in data.values()):
            vs = {k: (v.vec if isinstance(v, SymList) else v) for k, v in data.items()}
            vecs = [v for v in vs.values() if isinstance(v, Vec)]
            p = vecs[0].pid
            if any(v.pid is not p for v in vecs):
                raise Unsupported('DataFrame of unrelated columns')
            segs = []
            for i, s in enumerate(vecs[0].segs):
                segs.append(Seg(s.binders, s.guard, {k: (v.segs[i].val if isinstance(v, Vec) else v) for k, v in vs.items()}))
            ix = range_index(segs)
            return segs, list(data), ix, object()
        n = None
        for v in data.values():
            if isinstance(v, (list, tuple)):
                n = len(v)
        if n is None and data:
            raise Unsupported('DataFrame literal')
        segs = []
        for i in range(n or 0):
            segs.append(Seg((), [], {k: (v[i] if isinstance(v, (list, tuple)) else v) for k, v in data.items()}))
        ix = range_index(segs)
        return segs, list(data), ix, object()

    # ---- basic
    def derive(self, segs, cols=None, index=None, pid=None):
        d = DF(segs, self._cols if cols is None else cols, self.index_ if index is None else index, pid)
        d.dtypes_ = {c: t for c, t in self.dtypes_.items() if c in d._cols}
        return d

    @property
    def columns(self):
        return Columns(self._cols)

    @columns.setter
    def columns(self, names):
        names = list(names)
        if len(names) != len(self._cols):
            raise ValueError('Length mismatch')
        m = dict(zip(self._cols, names))
        if len(set(names)) != len(names):
            raise Unsupported('duplicate column names')
        for s in self.segs:
            s.vals = {m[c]: v for c, v in s.vals.items() if c in m}
        self.dtypes_ = {m[c]: t for c, t in self.dtypes_.items()}
        self._cols = names
        self.group_of = None

    @property
    def index(self):
        return IndexView(self)

    @index.setter
    def index(self, v):
        raise Unsupported('index assignment')

    @property
    def empty(self):
        if not self._cols:
            return True
        return all_rows([(s.binders, s.guard, False) for s in self.segs], None)

    def symlen(self):
        return SymLen(self.segs, self)

    def __len__(self):
        raise Unsupported('len of a symbolic table')

    @property
    def shape(self):
        return (self.symlen(), len(self._cols))

    def __iter__(self):
        return iter(list(self._cols))

    def __contains__(self, c):
        return c in self._cols

    def __bool__(self):
        raise ValueError('The truth value of a DataFrame is ambiguous.')

    def copy(self, deep=True):
        d = self.derive([s.clone() for s in self.segs], pid=self.pid)
        d.dedup_of = self.dedup_of
        d.sorted_by = self.sorted_by
        return d

    def col(self, c):
        if c not in self._cols:
            raise KeyError(c)
        r = Series([SSeg(s.binders, s.guard, s.vals[c], s.lab) for s in self.segs], self.pid, self.index_, c,
                   self.dtypes_.get(c))
        if self.idxcols and len(self.idxcols) == 1:
            r.labelled = [s.vals['#' + self.idxcols[0]] for s in self.segs]
        return r

    def __getattr__(self, c):
        if c.startswith('_') or c in ('segs', 'dtypes_', 'pid', 'index_'):
            raise AttributeError(c)
        if c in self.__dict__.get('_cols', ()):
            return self.col(c)
        raise Unsupported('DataFrame.%s' % c)

    def __getitem__(self, k):
        if isinstance(k, Series):
            return self.filter_rows(k)
        if isinstance(k, Arr):
            if k.pid is not self.pid:
                raise Unsupported('mask of another row set')
            return self.filter_rows(Series(k.segs, self.pid, self.index_))
        if isinstance(k, DF):
            # frame mask: values where the mask is false become missing
            if k.pid is not self.pid:
                raise Unsupported('frame mask')
            segs = []
            for s, q in zip(self.segs, k.segs):
                segs.append(s.clone({c: core.ite(boolof(truth(q.vals[c])), s.vals[c], NAN) for c in self._cols}))
            return self.derive(segs, pid=self.pid)
        if isinstance(k, (list, Columns)):
            for c in k:
                if c not in self._cols:
                    raise KeyError('%s not in index' % (c,))
            drop = [c for c in GHOST if c in self._cols and c not in k]
            return self.derive([s.clone(dict({c: s.vals[c] for c in k}, **{'~' + c: s.vals[c] for c in drop}))
                                for s in self.segs], list(k), pid=self.pid)
        return self.col(k)

    def filter_rows(self, k):
        if not (k.pid is self.pid):
            if k.index is self.index_ and self.index_.unique:
                vals = broadcast(self, k)
            else:
                raise Unsupported('mask of another row set')
        else:
            vals = [s.val for s in k.segs]
        segs = []
        for s, q in zip(self.segs, vals):
            g = boolof(truth(q))
            if is_f(g):
                continue
            segs.append(s.clone(guard=s.guard + [g]))
        d = self.derive(segs, pid=object())
        d.sorted_by = self.sorted_by
        return d

    def __setitem__(self, c, v):
        if isinstance(c, (list, Columns)):
            if isinstance(v, DF):
                if v.pid is not self.pid:
                    raise Unsupported('assignment of another row set')
                for a, b in zip(c, v._cols):
                    self[a] = v[b]
                return
            for a in c:
                self[a] = v
            return
        if isinstance(c, Vec):
            raise Unsupported('mask assignment')
        if isinstance(v, DF):
            if len(v._cols) != 1:
                raise ValueError('Columns must be same length as key')
            v = v[v._cols[0]]
        vals = broadcast(self, v)
        if self.group_of is not None and c in self.group_of[1]:
            self.group_of = None
        if self.sorted_by is not None and c in self.sorted_by[0]:
            self.sorted_by = None
        for s, x in zip(self.segs, vals):
            s.vals[c] = x
        if c not in self._cols:
            self._cols.append(c)
        self.dtypes_.pop(c, None)

    def assign(self, **kw):
        d = self.copy()
        for k, v in kw.items():
            d[k] = v(d) if callable(v) else v
        return d

    def insert(self, loc, c, v):
        self[c] = v
        self._cols.remove(c)
        self._cols.insert(loc, c)

    def pop(self, c):
        s = self[c]
        self._cols.remove(c)
        for g in self.segs:
            g.vals.pop(c)
        return s

    def __delitem__(self, c):
        self.pop(c)

    @property
    def loc(self):
        return Loc(self)

    @property
    def iloc(self):
        return ILoc(self)

    def head(self, n=5):
        return self.iloc[:n]

    def tail(self, n=5):
        raise Unsupported('tail')

    def nsmallest(self, n, columns, keep='first'):
        return self.sort_values(columns).iloc[:n]

    @property
    def dtypes(self):
        return {c: self[c].dtype for c in self._cols}

    def _inplace(self, d, inplace):
        if inplace:
            self.segs, self._cols, self.index_, self.pid, self.dtypes_ = d.segs, d._cols, d.index_, d.pid, d.dtypes_
            self.group_of = None
            self.sorted_by = d.sorted_by
            return None
        return d

    def rename(self, mapper=None, columns=None, axis=None, inplace=False, **k):
        m = columns if columns is not None else mapper
        if callable(m):
            m = {c: m(c) for c in self._cols}
        if mapper is not None and axis not in (1, 'columns'):
            raise Unsupported('rename of rows')
        new = [m.get(c, c) for c in self._cols]
        if len(set(new)) != len(new):
            raise Unsupported('duplicate column names')
        mm = dict(zip(self._cols, new))
        d = self.derive([s.clone({mm[c]: v for c, v in s.vals.items() if c in mm}) for s in self.segs], new, pid=self.pid)
        d.dtypes_ = {mm[c]: t for c, t in self.dtypes_.items()}
        return self._inplace(d, inplace)

    def drop(self, labels=None, axis=0, columns=None, inplace=False, errors='raise', **k):
        if columns is None:
            if axis not in (1, 'columns'):
                raise Unsupported('drop of rows')
            columns = labels
        if isinstance(columns, str):
            columns = [columns]
        for c in columns:
            if c not in self._cols and errors == 'raise':
                raise KeyError(c)
        cols = [c for c in self._cols if c not in list(columns)]
        d = self.derive([s.clone({c: s.vals[c] for c in cols}) for s in self.segs], cols, pid=self.pid)
        return self._inplace(d, inplace)

    def reset_index(self, drop=False, inplace=False, level=None, **k):
        segs = [s.clone() for s in self.segs]
        cols = list(self._cols)
        idxcols = getattr(self, 'idxcols', None)
        if not drop:
            if idxcols:
                cols = idxcols + cols
                for s in segs:
                    s.vals.update({c: s.vals['#' + c] for c in idxcols})
            elif self.index_.kind in ('range',) or True:
                cols = ['index'] + cols
                for s in segs:
                    s.vals['index'] = self.index_.label(s.lab, s.binders)
        for s in segs:
            s.vals = {c: s.vals[c] for c in cols}
        ix = range_index(segs)
        d = self.derive(segs, cols, ix, self.pid)
        d.dedup_of = self.dedup_of
        d.sorted_by = self.sorted_by if drop else None
        return self._inplace(d, inplace)

    def set_index(self, keys, drop=True, inplace=False, **k):
        keys = [keys] if isinstance(keys, str) else list(keys)
        segs = [s.clone() for s in self.segs]
        for s in segs:
            for c in keys:
                s.vals['#' + c] = s.vals[c]
        cols = [c for c in self._cols if c not in keys] if drop else list(self._cols)
        d = self.derive(segs, cols, Index('other'), self.pid)
        for s in d.segs:
            s.lab = d.index_.add(s.binders, s.guard)
        d.idxcols = keys
        return self._inplace(d, inplace)

    def sort_values(self, by=None, inplace=False, ignore_index=False, **k):
        by_ = [by] if isinstance(by, str) else list(by)
        for c in by_:
            if c not in self._cols:
                raise KeyError(c)
        d = self.derive([s.clone() for s in self.segs], pid=object())
        d.sorted_by = (by_, k)
        if ignore_index:
            d = d.reset_index(drop=True)
        return self._inplace(d, inplace)

    def sort_index(self, *a, **k):
        return self.derive([s.clone() for s in self.segs], pid=object())

    def isna(self):
        return self.derive([s.clone({c: mkb(core.isnull(s.vals[c])) for c in self._cols}) for s in self.segs], pid=self.pid)

    isnull = isna

    def notna(self):
        return ~self.isna()

    def __invert__(self):
        return self.derive([s.clone({c: mkb(b_not(boolof(truth(s.vals[c])))) for c in self._cols}) for s in self.segs],
                           pid=self.pid)

    def fillna(self, x, inplace=False, **k):
        segs = []
        for s in self.segs:
            v = {}
            for c in self._cols:
                if isinstance(x, dict):
                    v[c] = core.ite(core.isnull(s.vals[c]), x[c], s.vals[c]) if c in x else s.vals[c]
                else:
                    n = core.isnull(s.vals[c])
                    v[c] = s.vals[c] if is_f(n) else (x if is_t(n) else core.ite(n, x, s.vals[c]))
            segs.append(s.clone(v))
        return self._inplace(self.derive(segs, pid=self.pid), inplace)

    def dropna(self, subset=None, how='any', inplace=False, **k):
        subset = self._cols if subset is None else ([subset] if isinstance(subset, str) else list(subset))
        segs = []
        for s in self.segs:
            ns = [core.isnull(s.vals[c]) for c in subset]
            g = b_not(b_or(*ns)) if how == 'any' else b_not(b_and(*ns))
            segs.append(s.clone(guard=s.guard + [g]))
        return self._inplace(self.derive(segs, pid=object()), inplace)

    def abs(self):
        return self.derive([s.clone({c: core.num_abs(s.vals[c]) for c in self._cols}) for s in self.segs], pid=self.pid)

    def _rowwise(self, f, name):
        out = []
        for s in self.segs:
            r = None
            for c in self._cols:
                r = s.vals[c] if r is None else f(r, s.vals[c])
            out.append(SSeg(s.binders, s.guard, r, s.lab))
        return Series(out, self.pid, self.index_)

    def max(self, axis=0, **k):
        if axis not in (1, 'columns'):
            raise Unsupported('DataFrame.max over rows')
        return self._rowwise(nanmax, 'max')

    def min(self, axis=0, **k):
        if axis not in (1, 'columns'):
            raise Unsupported('DataFrame.min over rows')
        return self._rowwise(nanmin, 'min')

    def sum(self, axis=0, **k):
        if axis not in (1, 'columns'):
            raise Unsupported('DataFrame.sum over rows')
        return self._rowwise(lambda a, b: core.num_add(nz(a), nz(b)), 'sum')

    def any(self, axis=0, **k):
        if axis not in (1, 'columns'):
            raise Unsupported('DataFrame.any')
        return self._rowwise(lambda a, b: mkb(b_or(boolof(truth(a)), boolof(truth(b)))), 'any')

    def all(self, axis=0, **k):
        if axis not in (1, 'columns'):
            raise Unsupported('DataFrame.all')
        return self._rowwise(lambda a, b: mkb(b_and(boolof(truth(a)), boolof(truth(b)))), 'all')

    def apply(self, f, axis=0, **k):
        if axis not in (1, 'columns'):
            raise Unsupported('DataFrame.apply over columns')
        cols = list(self._cols)
        vals = row_apply([(s.binders, s.guard, {c: s.vals[c] for c in cols}) for s in self.segs],
                         lambda v: f(RowView(dict(v))))
        return Series([SSeg(s.binders, s.guard, v, s.lab) for s, v in zip(self.segs, vals)], self.pid, self.index_)

    def isin(self, xs):
        return self.derive([s.clone({c: mkb(b_or(*[boolof(core.eq(s.vals[c], x)) for x in xs])) for c in self._cols})
                            for s in self.segs], pid=self.pid)

    def duplicated(self, subset=None, keep='first'):
        cols = list(self.columns) if subset is None else ([subset] if isinstance(subset, str) else list(subset))
        return Dups(self, cols)

    def drop_duplicates(self, subset=None, keep='first', inplace=False, ignore_index=False, **k):
        cols = list(self._cols) if subset is None else ([subset] if isinstance(subset, str) else list(subset))
        for c in cols:
            if c not in self._cols:
                raise KeyError(c)
        if keep is False:
            raise Unsupported('keep=False')
        segs = dedup(self.segs, cols)
        so = getattr(self, 'sorted_by', None)
        if so is not None and len(so[0]) == 1 and so[1].get('ascending', True) in (True, False, [True], [False]):
            # the first or last row of a group is one with the smallest or largest value of the sorted column
            asc = so[1].get('ascending', True) in (True, [True])
            if all(is_f(core.isnull(s.vals[so[0][0]])) for s in self.segs) and all(
                    isinstance(s.vals[so[0][0]], (SNum, int, float)) for s in self.segs):
                rep_attains(self.segs, segs, cols, so[0][0], (keep == 'last') == asc)
        d = self.derive(segs, pid=object())
        d.dedup_of = (self.pid, self.segs, cols)
        if ignore_index:
            d = d.reset_index(drop=True)
        return self._inplace(d, inplace)

    def merge(self, right, how='inner', on=None, left_on=None, right_on=None, suffixes=('_x', '_y'), **k):
        return merge(self, right, how, on, left_on, right_on, suffixes, **k)

    def melt(self, id_vars=None, value_vars=None, var_name=None, value_name='value', **k):
        return melt(self, id_vars, value_vars, var_name, value_name)

    def groupby(self, by, as_index=True, sort=True, dropna=True, **k):
        return GroupBy(self, [by] if isinstance(by, str) else list(by), as_index, dropna)

    def transpose(self):
        raise Unsupported('transpose')

    def to_dict(self, *a, **k):
        raise Unsupported('to_dict')

    def iterrows(self):
        raise Unsupported('iterrows')

    def itertuples(self, *a, **k):
        raise Unsupported('itertuples')

    def query(self, *a, **k):
        raise Unsupported('query')

    def pipe(self, f, *a, **k):
        return f(self, *a, **k)


class Dups:
    """DataFrame.duplicated(cols), as far as whether there are any"""

    def __init__(self, df, cols):
        self.df, self.cols = df, cols

    def any(self, *a, **k):
        return not no_dups(self.df.segs, self.cols)

    def __getattr__(self, n):
        raise Unsupported('DataFrame.duplicated().%s' % n)


def nz(a):
    n = core.isnull(a)
    return a if is_f(n) else core.ite(n, 0.0, a)


def nanmax(a, b):
    return core.ite(core.isnull(a), b, core.ite(core.isnull(b), a, core.smax(a, b)))


def nanmin(a, b):
    return core.ite(core.isnull(a), b, core.ite(core.isnull(b), a, core.smin(a, b)))


class Loc:
    def __init__(self, df):
        self.df = df

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2:
            r, c = k
        else:
            r, c = k, slice(None)
        d = self.df
        if not (isinstance(r, slice) and r == slice(None)):
            d = d[r] if isinstance(r, Vec) else self._bad()
        if isinstance(c, slice) and c == slice(None):
            return d.copy() if d is self.df else d
        return d[c]

    def _bad(self):
        raise Unsupported('loc with row labels')

    def __setitem__(self, k, v):
        self.df.group_of = None
        if not (isinstance(k, tuple) and len(k) == 2):
            raise Unsupported('loc assignment')
        r, c = k
        d = self.df
        cs = list(c) if isinstance(c, (list, Columns)) else [c]
        if isinstance(r, slice) and r == slice(None):
            for x in cs:
                d[x] = v
            return
        if not isinstance(r, Vec) or r.pid is not d.pid:
            raise Unsupported('loc assignment with row labels')
        for x in cs:
            if isinstance(v, Vec):
                if isinstance(v, Series) and v.index is d.index_ and v.pid is not d.pid and d.index_.unique:
                    vals = broadcast(d, v)
                else:
                    vals = broadcast(d, v)
            else:
                vals = [v for _ in d.segs]
            for s, q, y in zip(d.segs, r.segs, vals):
                old = s.vals.get(x, NAN)
                s.vals[x] = core.ite(boolof(truth(q.val)), y, old)
            if x not in d._cols:
                d._cols.append(x)


# --------------------------------------------------------------------------- dedup
class ILoc:
    def __init__(self, df):
        self.df = df

    def __getitem__(self, k):
        if isinstance(k, tuple):
            if len(k) != 2 or not isinstance(k[1], slice) or k[1] != slice(None):
                raise Unsupported('iloc of columns')
            k = k[0]
        if not isinstance(k, slice) or k.step is not None or not all(x is None or (type(x) is int and x >= 0)
                                                                     for x in (k.start, k.stop)):
            raise Unsupported('iloc[%r]' % (k,))
        by = getattr(self.df, 'sorted_by', None)
        if by is None or len(by[0]) != 1:
            raise Unsupported('iloc of an unsorted table')
        asc = by[1].get('ascending', True)
        if not isinstance(asc, bool) or set(by[1]) - {'ascending', 'kind'}:
            raise Unsupported('sort options')
        segs = []
        for s, r in zip(self.df.segs, rank(self.df.segs, by[0][0], asc, range(max(k.start or 0, k.stop or 0)))):
            g = ([r >= k.start] if k.start else []) + ([r < k.stop] if k.stop is not None else [])
            segs.append(s.clone(guard=s.guard + g))
        d = self.df.derive(segs, pid=object())
        d.sorted_by = by
        return d


def rank(segs, col, asc=True, ks=()):
    """position of every row in the order of col (ties in any order): one integer term per segment"""
    n = next(E.counter)
    K = E.group_stack[-1] if E.group_stack else None

    def own(s, f):
        # in the function applied to a group the group is the one of the row
        return f if K is None else subst_b(f, list(zip(K[0], K[1][tuple(b.get_id() for b in s.binders)])))
    if K is not None and any(tuple(b.get_id() for b in s.binders) not in K[1] for s in segs):
        raise Unsupported('order of rows derived from a group')
    if any(not is_f(core.isnull(s.vals[col])) for s in segs):
        raise Unsupported('order of a column with missing values')
    segs = [s for s in segs]
    funs, prevs = [], []
    for j, s in enumerate(segs):
        if not s.binders:
            raise Unsupported('order of a single row')
        sorts = [b.sort() for b in s.binders]
        funs.append(z3.Function('rank!%d_%d' % (n, j), *sorts, z3.IntSort()))
        # the row at position q of the same group
        prevs.append({q: (z3.Function('atseg!%d_%d_%d' % (n, j, q), *sorts, z3.IntSort()),
                          [[z3.Function('at!%d_%d_%d_%d_%d' % (n, j, q, k, i), *sorts, b.sort())
                            for i, b in enumerate(t.binders)] for k, t in enumerate(segs)]) for q in ks})
    E.assumptions.add('sort_values orders rows by the column, rows with equal values in any order')
    for j, s in enumerate(segs):
        a, _ = s.renamed()
        ren = list(zip(s.binders, a.binders))
        G = own(s, b_and(*s.guard))
        ra = funs[j](*a.binders)
        alts = {q: [] for q in ks}
        for k, t in enumerate(segs):
            # two rows of one group
            b, _ = t.renamed()
            ren2 = list(zip(t.binders, b.binders))
            Gt = b_and(*t.guard)
            if K is not None:
                Gt = subst_b(Gt, list(zip(K[0], [zsub(x, ren) for x in K[1][tuple(x.get_id() for x in s.binders)]])))
            both = b_and(subst_b(G, ren), subst_b(Gt, ren2))
            va, vb = a.vals[col], b.vals[col]
            lt = boolof(cmp_(va, vb, 'lt') if asc else cmp_(vb, va, 'lt'))
            rb = funs[k](*b.binders)
            same_row = b_and(*[x == y for x, y in zip(a.binders, b.binders)]) if j == k else False
            E.facts.append(core.Fact(list(a.binders) + list(b.binders), z3.Implies(zb(both), zb(b_and(
                b_or(b_not(lt), ra < rb), b_or(same_row, ra != rb))))))
            for q in ks:
                p = [f(*a.binders) for f in prevs[j][q][1][k]]
                alts[q].append(b_and(*([prevs[j][q][0](*a.binders) == k] if len(segs) > 1 else []),
                                     subst_b(subst_b(Gt, list(zip(t.binders, p))), ren), funs[k](*p) == q))
        E.facts.append(core.Fact(list(a.binders), z3.Implies(zb(subst_b(G, ren)), z3.And(
            ra >= 0, *[z3.Implies(ra >= q, zb(b_or(*alts[q]))) for q in ks]))))
    return [f(*s.binders) for f, s in zip(funs, segs)]


def zsub(e, m):
    return z3.substitute(e, *m) if m else e


def group_apply(gb, f, kw):
    """f on the generic group; the rows f returns (or the effects it has) for all groups"""
    if not kw.get('include_groups', True):
        cols = [c for c in gb.df._cols if c not in gb.by]
    else:
        cols = list(gb.df._cols)
    base = gb._base()
    consts, keys, segs = [], {}, []
    for c in gb.by:
        es = [key_expr(s.vals[c]) for s in base]
        if len({e.sort().name() for e in es}) > 1:
            raise Unsupported('group keys of different types')
        consts.append(E.fresh('group_' + c, es[0].sort() if es else z3.IntSort()))
    for s in base:
        es = [key_expr(s.vals[c]) for c in gb.by]
        keys[tuple(b.get_id() for b in s.binders)] = es
        segs.append(s.clone(guard=s.guard + [e == k for e, k in zip(es, consts)], vals={c: s.vals[c] for c in cols}))
    if len(keys) != len(base):
        raise Unsupported('groups over row sets that share rows')
    reps = dedup(base, gb.by)
    d = DF(segs, cols, gb.df.index_)
    d.dtypes_ = dict(gb.df.dtypes_) if gb.df.dtypes_ else gb.df.dtypes_
    d.group_key = consts
    E.group_stack.append((consts, keys))
    # effects of f: once per group, the group being that of a representative row
    results = []
    for r in reps:
        E.loop_stack.append((r.binders, list(r.guard) + [key_expr(r.vals[c]) == k for c, k in zip(gb.by, consts)]))
        n = len(E.pc)
        E.pc.extend(zb(x) for x in E.loop_stack[-1][1])
        try:
            results.append(f(d))
        finally:
            E.loop_stack.pop()
            del E.pc[n:]
        if not isinstance(results[-1], DF):
            continue
        break
    E.group_stack.pop()
    res = results[0] if results else None
    if isinstance(res, DF):
        out = []
        for s in res.segs:
            k = tuple(b.get_id() for b in s.binders)
            if k not in keys:
                raise Unsupported('groupby.apply returning new rows')
            m = list(zip(consts, keys[k]))
            out.append(Seg(s.binders, [subst_b(g, m) for g in s.guard], {c: subst_val(v, m) for c, v in s.vals.items()}, None, s.tag))
        ix = range_index(out)
        return DF(out, list(res._cols), ix)
    if all(x is None for x in results):
        return DF([], [], Index('range'))
    raise Unsupported('groupby.apply returning values')


def key_args(v):
    """z3 arguments standing for a key value"""
    v = lift(v)
    n = core.isnull(v)
    e = key_expr(v)
    return [e] if is_f(n) else [z3.If(zb(n), (z3.IntVal(-1) if z3.is_int(e) else z3.RealVal(0)), e), zb(n)]


def dedup(segs, cols):
    segs = [s for s in segs if not s.dead()]
    if not segs:
        return []
    # already unique?
    uniq = True
    for i, a in enumerate(segs):
        a2, _ = a.renamed()
        eqs = [(a2.vals[c], a.vals[c]) for c in cols]
        c = pin(a2.binders, a2.guard, eqs, enum=False)
        if c is None or len(c) != 1:
            uniq = False
            break
        for b in segs[i + 1:]:
            if not any(is_f(boolof(core.same(a.vals[c2], b.vals[c2]))) for c2 in cols):
                uniq = False
                break
        if not uniq:
            break
    if uniq:
        return [s.clone() for s in segs]
    # representatives
    nullable = [any(not is_f(core.isnull(s.vals[c])) for s in segs) for c in cols]
    sorts = []
    for c, nl in zip(cols, nullable):
        es = [key_expr(s.vals[c]) for s in segs if not isinstance(lift(s.vals[c]), SNull)]
        so = es[0].sort() if es else z3.IntSort()
        if any(x.sort() != so for x in es):
            so = z3.RealSort()
        sorts.append(so)

    def args(s):
        out = []
        for c, nl, so in zip(cols, nullable, sorts):
            v = lift(s.vals[c])
            n = core.isnull(v)
            e = z3.IntVal(0) if isinstance(v, SNull) else key_expr(v)
            if isinstance(v, SNull) and so == z3.RealSort():
                e = z3.RealVal(0)
            if so == z3.RealSort():
                e = toreal(e)
            if nl:
                z = z3.IntVal(-1) if so == z3.IntSort() else z3.RealVal(0)
                out += [e if is_f(n) else z3.If(zb(n), z, e), zb(n)]
            else:
                out.append(e)
        return out
    asorts = []
    for nl, so in zip(nullable, sorts):
        asorts += [so, z3.BoolSort()] if nl else [so]
    n = next(E.counter)
    segf = z3.Function('repseg!%d' % n, *asorts, z3.IntSort())
    reps = []
    for j, s in enumerate(segs):
        reps.append([z3.Function('rep!%d_%d_%d' % (n, j, i), *asorts, b.sort()) for i, b in enumerate(s.binders)])
        for f in reps[-1]:
            E.repfuns[f.get_id()] = (f, s.binders[0], args(s)) if len(s.binders) == 1 else (f, None, None)
    for j, s in enumerate(segs):
        a = args(s)
        alts = []
        for m, t in enumerate(segs):
            if any(is_f(boolof(core.same(s.vals[c], t.vals[c]))) for c in cols):
                continue
            terms = [f(*a) for f in reps[m]]
            t2 = t.at(terms) if t.binders else t
            conds = [boolof(core.same(t2.vals[c], s.vals[c])) for c in cols]
            alts.append(b_and(segf(*a) == m, *t2.guard, *conds))
        f = z3.Implies(zb(b_and(*s.guard)), zb(b_or(*alts)))
        if s.binders:
            E.facts.append(core.Fact(s.binders, f))
        else:
            E.assume(f)
    out = []
    for j, s in enumerate(segs):
        a = args(s)
        g = ([segf(*a) == j] if len(segs) > 1 else []) + [f(*a) == b for f, b in zip(reps[j], s.binders)]
        out.append(s.clone(guard=s.guard + g))
    return out


# --------------------------------------------------------------------------- merge, concat, melt
def rep_attains(segs, reps, by, c, up):
    """the row kept of each group attains the largest (smallest) value of c of the rows of the group"""
    for s in segs:
        if s.dead():
            continue
        for r in reps:
            r2, _ = r.renamed()
            s2, _ = s.renamed()
            g = b_and(*s2.guard, *r2.guard, *[boolof(core.same(s2.vals[k], r2.vals[k])) for k in by])
            v, m = s2.vals[c], r2.vals[c]
            ok = boolof(core.num_cmp(v, m, 'le') if up else core.num_cmp(m, v, 'le'))
            f = z3.Implies(zb(g), zb(ok))
            bs = s2.binders + r2.binders
            if bs:
                E.facts.append(core.Fact(bs, f))
            else:
                E.assume(f)


def merge(left, right, how='inner', on=None, left_on=None, right_on=None, suffixes=('_x', '_y'), **k):
    if isinstance(left, Series):
        left = left.to_frame()
    if isinstance(right, Series):
        right = right.to_frame()
    if k.get('left_index') or k.get('right_index'):
        raise Unsupported('merge on index')
    if how == 'right':
        r = merge(right, left, 'left', on, right_on, left_on, (suffixes[1], suffixes[0]))
        lcols = [c for c in left._cols]
        order = merged_cols(left, right, on, left_on, right_on, suffixes)[2]
        return r[order]
    lk, rk, cols, lmap, rmap = merged_keys(left, right, on, left_on, right_on, suffixes)
    segs = []
    unique = right.group_of is not None and set(right.group_of[1]) <= set(rk)
    rnew = set(rmap.values())
    for c in lk:
        if c not in left._cols:
            raise KeyError(c)
    for c in rk:
        if c not in right._cols:
            raise KeyError(c)

    def combine(L, R, m, guard, matched=True, cond=None):
        vals = {}
        for c, n in lmap.items():
            vals[n] = L.vals[c]
        for c, n in rmap.items():
            v = subst_val(R.vals[c], m)
            if cond is not None:
                v = core.ite(cond, v, NAN)
            vals[n] = v
        return vals
    for L in left.segs:
        matched_alts = []
        single = None
        for R0 in right.segs:
            R, _ = R0.renamed()
            eqs = [(R.vals[b], L.vals[a]) for a, b in zip(lk, rk)]
            conds0 = [boolof(core.same(x, y)) for x, y in eqs]
            if any(is_f(c) for c in conds0):
                continue
            cands = pin(R.binders, R.guard, eqs, enum=True)
            if cands is not None:
                for m, extra in cands:
                    g = [subst_b(x, m) for x in R.guard] + eq_conds(eqs, m) + extra
                    if any(is_f(x) for x in g):
                        continue
                    matched_alts.append((L.binders, g, R, m))
            else:
                matched_alts.append((L.binders + R.binders, list(R.guard) + conds0, R, None))
        if how in ('left', 'outer') and len(matched_alts) == 1 and matched_alts[0][3] is not None:
            b, g, R, m = matched_alts[0]
            segs.append(Seg(L.binders, L.guard, combine(L, R, m, None, cond=b_and(*g)), tag=L.tag))
            continue
        if how in ('left', 'outer') and unique and matched_alts and all(x[3] is not None for x in matched_alts):
            # at most one row of the right table matches
            vals = None
            for b, g, R, m in matched_alts:
                v = combine(L, R, m, None)
                vals = {n: (core.ite(b_and(*g), v[n], NAN if vals is None else vals[n]) if n in rnew else v[n]) for n in v}
            segs.append(Seg(L.binders, L.guard, vals, tag=L.tag))
            continue
        for b, g, R, m in matched_alts:
            segs.append(Seg(b, L.guard + g, combine(L, R, m or [], None), tag=L.tag))
        if how in ('left', 'outer'):
            none = b_not(exists(right.segs, L.binders, L.guard, lambda R: [(R.vals[b], L.vals[a]) for a, b in zip(lk, rk)]))
            vals = {n: L.vals[c] for c, n in lmap.items()}
            for c, n in rmap.items():
                vals[n] = NAN
            segs.append(Seg(L.binders, L.guard + [none], vals, tag=L.tag))
    if how == 'outer':
        for R in right.segs:
            none = b_not(exists(left.segs, R.binders, R.guard, lambda L: [(L.vals[a], R.vals[b]) for a, b in zip(lk, rk)]))
            vals = {}
            for c, n in lmap.items():
                vals[n] = R.vals[rk[lk.index(c)]] if c in lk and lk[lk.index(c)] == rk[lk.index(c)] else NAN
            for c, n in rmap.items():
                vals[n] = R.vals[c]
            segs.append(Seg(R.binders, R.guard + [none], vals, tag=R.tag))
    elif how not in ('inner', 'left', 'cross'):
        raise Unsupported('merge how=%s' % how)
    segs = [s for s in segs if not s.dead()]
    ix = range_index(segs)
    return DF(segs, cols, ix)


def merged_keys(left, right, on, left_on, right_on, suffixes):
    if on is None and left_on is None:
        on = [c for c in left._cols if c in right._cols]
    if on is not None:
        lk = rk = [on] if isinstance(on, str) else list(on)
    else:
        lk = [left_on] if isinstance(left_on, str) else list(left_on)
        rk = [right_on] if isinstance(right_on, str) else list(right_on)
    lmap, rmap, cols = {}, {}, []
    shared = {a for a, b in zip(lk, rk) if a == b}
    for c in left._cols:
        n = c
        if c in right._cols and c not in shared:
            n = c + suffixes[0]
        lmap[c] = n
        cols.append(n)
    for c in right._cols:
        if c in shared:
            continue
        n = c
        if c in left._cols:
            n = c + suffixes[1]
        rmap[c] = n
        cols.append(n)
    if len(set(cols)) != len(cols):
        raise Unsupported('duplicate columns after merge')
    return lk, rk, cols, lmap, rmap


def merged_cols(left, right, on, left_on, right_on, suffixes):
    lk, rk, cols, lmap, rmap = merged_keys(left, right, on, left_on, right_on, suffixes)
    return lk, rk, cols


def concat(objs, axis=0, ignore_index=False, sort=False, keys=None, **k):
    if axis not in (0, 'index'):
        raise Unsupported('concat axis=1')
    tags = None
    if isinstance(objs, dict):
        tags = list(objs.keys())
        objs = list(objs.values())
    else:
        objs = list(objs)
    if not objs:
        raise ValueError('No objects to concatenate')
    objs2 = []
    cols = []
    for i, o in enumerate(objs):
        if o is None:
            continue
        if isinstance(o, Series):
            raise Unsupported('concat of series')
        objs2.append((o, tags[i] if tags else None))
        for c in o._cols:
            if c not in cols:
                cols.append(c)
    if not objs2:
        raise ValueError('All objects passed were None')
    segs = []
    ix = Index('concat')
    for o, t in objs2:
        for s in o.segs:
            n = Seg(s.binders, s.guard, {c: s.vals.get(c, NAN) if c in o._cols else NAN for c in cols}, None,
                    t if t is not None else s.tag)
            n.lab = ix.add(s.binders, s.guard, (o.index_, s.lab))
            segs.append(n)
    if len(objs2) == 1 and tags is None:
        d = objs2[0][0].copy()
        return d.reset_index(drop=True) if ignore_index else d
    d = DF(segs, cols, ix)
    if ignore_index:
        d = d.reset_index(drop=True)
    return d


def melt(df, id_vars=None, value_vars=None, var_name=None, value_name='value', **k):
    id_vars = [] if id_vars is None else ([id_vars] if isinstance(id_vars, str) else list(id_vars))
    for c in id_vars:
        if c not in df._cols:
            raise KeyError(c)
    if value_vars is None:
        value_vars = [c for c in df._cols if c not in id_vars]
    value_vars = [value_vars] if isinstance(value_vars, str) else list(value_vars)
    var_name = var_name or 'variable'
    segs = []
    for v in value_vars:
        if v not in df._cols:
            raise KeyError(v)
        for s in df.segs:
            vals = {c: s.vals[c] for c in id_vars}
            vals[var_name] = v
            vals[value_name] = s.vals[v]
            segs.append(Seg(s.binders, s.guard, vals, tag=s.tag))
    ix = range_index(segs)
    return DF(segs, id_vars + [var_name, value_name], ix)


# --------------------------------------------------------------------------- groupby
class GroupBy:
    def __init__(self, df, by, as_index, dropna=True, sel=None):
        for c in by:
            if c not in df._cols:
                raise KeyError(c)
        self.df, self.by, self.as_index, self.dropna = df, by, as_index, dropna
        self.sel = sel

    def __getitem__(self, c):
        return GroupBy(self.df, self.by, self.as_index, self.dropna, [c] if isinstance(c, str) else list(c))

    def _base(self):
        segs = []
        for s in self.df.segs:
            g = [b_not(core.isnull(s.vals[c])) for c in self.by] if self.dropna else []
            s2 = s.clone(guard=s.guard + [x for x in g if not is_t(x)])
            if not s2.dead():
                segs.append(s2)
        return segs

    def _agg(self, how):
        base = self._base()
        reps = dedup(base, self.by)
        cols = list(self.by)
        out = []
        for s in reps:
            vals = {c: s.vals[c] for c in self.by}
            kv = [(c, s.vals[c]) for c in self.by]
            for c, h in how.items():
                vals[c] = aggregate(base, kv, c, h, s.binders, s.guard)
            out.append(Seg(s.binders, s.guard, vals))
        cols += list(how)
        ix = range_index(out)
        d = DF(out, cols, ix)
        d.group_of = (self.df, self.by)
        if self.as_index:
            d = d.set_index(self.by)
        return d

    def _cols(self):
        return self.sel if self.sel is not None else [c for c in self.df._cols if c not in self.by]

    def agg(self, how=None, **k):
        if isinstance(how, str):
            how = {c: how for c in self._cols()}
        if how is None:
            raise Unsupported('named aggregation')
        h2 = {}
        for c, h in how.items():
            if callable(h) and getattr(h, '__name__', None) in ('sum', 'min', 'max', 'smax_', 'smin_'):
                h = h.__name__
            if not isinstance(h, str):
                raise Unsupported('aggregation %r' % (h,))
            h2[c] = h
        return self._agg(h2)

    aggregate = agg

    def sum(self, *a, **k):
        return self.agg('sum')

    def min(self, *a, **k):
        return self.agg('min')

    def max(self, *a, **k):
        return self.agg('max')

    def first(self, *a, **k):
        return self.agg('first')

    def count(self):
        return self.agg('count')

    def size(self):
        raise Unsupported('groupby.size')

    def apply(self, f, *a, **k):
        return group_apply(self, f, k)

    @property
    def indices(self):
        return GroupIndices(self)


def extreme(base, kv, c, how, params, guard):
    """smallest or largest value of the rows of a group: a bound of all of them that one of them attains"""
    isint = all(core.asnum(s.vals[c]).is_int for s in base)
    so = [p.sort() for p in params]
    m = E.fresh_fun('group_' + how, *so, z3.IntSort() if isint else z3.RealSort())(*params)

    def flag(name, needed):
        return E.fresh_fun(name, *so, z3.BoolSort())(*params) if needed else False
    none = flag('group_none', any(not is_f(core.isnull(s.vals[c])) for s in base))
    if any(core.asnum(s.vals[c]).ninf is not False for s in base):
        raise Unsupported('%s over infinite values' % how)
    inf = flag('group_inf', any(core.asnum(s.vals[c]).hasinf() for s in base))
    wit = []
    for s in base:
        R, _ = s.renamed()
        v = core.asnum(R.vals[c])
        here = b_and(*R.guard, *[boolof(core.same(R.vals[k], x)) for k, x in kv])
        nn = b_not(v.nan)
        ok = b_or(v.pinf, b_and(b_not(inf), v.e >= m)) if how == 'min' else b_or(inf, b_and(b_not(v.pinf), v.e <= m))
        E.facts.append(core.Fact(list(params) + list(R.binders), z3.Implies(zb(b_and(*guard, here, nn)), zb(
            b_and(b_not(none), ok)))))
        sub = [(b, E.fresh_fun('attained', *so, b.sort())(*params)) for b in R.binders]
        wit.append(subst_b(b_and(here, nn, b_or(b_and(inf, v.pinf), b_and(b_not(inf), b_not(v.pinf), v.e == m))), sub))
    E.facts.append(core.Fact(list(params), z3.Implies(zb(b_and(*guard)), zb(b_or(none, *wit)))))
    return SNum(m, none, inf)


def aggregate(base, kv, c, how, params, guard=()):
    if how == 'sum':
        return total_where(base, kv, lambda R: R.vals[c], params)
    if how == 'count':
        return total_where(base, kv, lambda R: core.ite(core.isnull(R.vals[c]), 0, 1), params)
    if how in ('min', 'max', 'first'):
        fin, rest = candidates(base, lambda R: [(R.vals[k], v) for k, v in kv])
        if how == 'first':
            raise Unsupported('%s over an undetermined group' % how)
        if rest:
            return extreme(base, kv, c, how, params, guard)
        cur, have = NAN, False
        for g, R in fin:
            v = R.vals[c]
            g2 = b_and(g, b_not(core.isnull(v)))
            if is_f(g2):
                continue
            better = b_or(b_not(have), boolof(cmp_(v, cur, 'lt')) if how == 'min' else boolof(cmp_(cur, v, 'lt'))) \
                if not is_f(have) else True
            cur = core.ite(b_and(g2, better), v, cur)
            have = b_or(have, g2)
        return cur
    raise Unsupported('aggregation %s' % how)


class GroupIndices:
    """groupby(...).indices: key -> positions of the rows of the group"""

    def __init__(self, gb):
        self.gb = gb

    def items_(self):
        if len(self.gb.by) != 1:
            raise Unsupported('groupby.indices over several columns')
        c = self.gb.by[0]
        base = self.gb._base()
        return [(s.binders, s.guard, (s.vals[c], GroupRows(self.gb.df, c, s.vals[c]))) for s in dedup(base, [c])]

    def items(self):
        return IndicesItems(self)


class IndicesItems:
    def __init__(self, gi):
        self.items_ = gi.items_

    def __iter__(self):
        return iterate(self.items_())


class GroupRows(core.SV):
    """positions of the rows of a table with key value k in column c"""
    __slots__ = ('df', 'c', 'k', 'pids')
    kind = 'rows'

    def __init__(self, df, c, k, pids=None):
        self.df, self.c, self.k, self.pids = df, c, k, {} if pids is None else pids

    def subst(self, m):
        return GroupRows(self.df, self.c, subst_val(lift(self.k), m))

    def select(self, a):
        if a.pid is not self.df.pid:
            raise Unsupported('positions of another table')
        pid = self.pids.setdefault(id(a.pid), object())
        out = []
        for s, r in zip(a.segs, self.df.segs):
            if [b.get_id() for b in s.binders] != [b.get_id() for b in r.binders]:
                raise Unsupported('positions of another table')
            g = b_and(boolof(core.eq(r.vals[self.c], self.k)))
            if not is_f(g):
                out.append(SSeg(s.binders, list(s.guard) + [g], s.val, s.lab))
        return Arr(out, pid)


class RangeArr:
    """[f(k) for k in range(0, n)] as an array"""

    def __init__(self, n, f):
        self.n, self.f = n, f

    def __getitem__(self, a):
        if not isinstance(a, Vec):
            raise Unsupported('element of a computed array')

        def at(v):
            v = core.asnum(v)
            if not E.decide(zb(b_and(b_not(v.nan), boolof(core.num_cmp(0, v, 'le')), boolof(core.num_cmp(v, self.n, 'lt'))))):
                raise IndexError('index out of bounds')
            return self.f(v)
        return a.like(row_apply([(s.binders, s.guard, s.val) for s in a.segs], at))

    def symlen(self):
        return self.n


# --------------------------------------------------------------------------- relation frames
def frame(rel, cols=None):
    """the table a caller passes in for a relation, with arbitrary row labels"""
    t = z3.Const('r_' + rel.name, rel.sort)
    ix = Index('user')
    cols = list(rel.cols) if cols is None else cols
    s = Seg((t,), [rel.inf(t)], {c: rel.val(t, c) for c in cols})
    s.lab = ix.add(s.binders, s.guard)
    d = DF([s], cols, ix)
    d.dtypes_ = {c: rel.cols[c].dtype for c in cols}
    d.user = True
    return d


def _where(cond, a, b, series=None):
    if not isinstance(cond, Vec):
        raise Unsupported('np.where on %r' % type(cond))

    def vals(x):
        if isinstance(x, SymList):
            x = x.vec
        if isinstance(x, Vec):
            if x.pid is not cond.pid:
                raise Unsupported('np.where on different row sets')
            return [s.val for s in x.segs]
        if isinstance(x, (list, tuple)):
            raise Unsupported('np.where with a list')
        return [x] * len(cond.segs)
    va, vb = vals(a), vals(b)
    out = [SSeg(s.binders, s.guard, core.ite(boolof(truth(s.val)), x, y), s.lab) for s, x, y in zip(cond.segs, va, vb)]
    if series is not None:
        return Series(out, cond.pid, series.index_, series.name)
    return Arr(out, cond.pid)


# --------------------------------------------------------------------------- sequences and maps with symbolic keys
def seq_items(x):
    """[(binders, guard, value)] of a symbolic sequence"""
    if isinstance(x, SymList):
        x = x.vec
    if isinstance(x, Vec):
        return [(s.binders, s.guard, s.val) for s in x.segs]
    if isinstance(x, (SymZip, SymSeq)):
        return x.items_()
    if isinstance(x, IndexView):
        return seq_items(x.values)
    return None


class SymZip:
    """zip of columns of one row set"""

    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, SymList):
                p = p.vec
            if isinstance(p, RangeArr) and self.parts and isinstance(p.n, SymLen):
                # as long as the rows it is zipped with, or longer
                for s in self.parts[0].segs:
                    if not any(len(s.binders) == len(q.binders) and all(x.eq(y) for x, y in zip(s.binders, q.binders)) and
                               all(any(zb(x).eq(zb(y)) for y in s.guard) for x in q.guard) for q in p.n.segs):
                        raise Unsupported('zip with a computed list of another length')
                v = p.f(SNum(E.fresh('position', z3.IntSort())))
                if isinstance(v, SV):
                    raise Unsupported('zip with a computed list')
                p = self.parts[0].like([v for _ in self.parts[0].segs])
            if not isinstance(p, Vec):
                raise Unsupported('zip of a symbolic and a plain sequence')
            self.parts.append(p)
        if any(p.pid is not self.parts[0].pid for p in self.parts):
            raise Unsupported('zip of different row sets')

    def items_(self):
        return [(s.binders, s.guard, tuple(p.segs[i].val for p in self.parts))
                for i, s in enumerate(self.parts[0].segs)]

    def __iter__(self):
        return iterate(self.items_())


class SymSeq:
    """result of a comprehension over a symbolic sequence"""

    def __init__(self, items, pid=None):
        self.its = items
        self.pid = pid or object()

    def items_(self):
        return self.its

    def __iter__(self):
        return iterate(self.its)

    def symlen(self):
        return SymLen([SSeg(b, g, None) for b, g, v in self.its], self)


def subst_any(v, m):
    if isinstance(v, tuple):
        return tuple(subst_any(x, m) for x in v)
    return subst_val(v, m) if isinstance(v, SV) else v


class Dict(dict):
    """dict display: plain keys as usual; symbolic keys (set inside generic loops) as a map defined by its entries"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.sym = []          # (binders, guard, key, value), later entries win

    def __setitem__(self, k, v):
        if isinstance(k, SV) and not (isinstance(k, SStr) and (k.dom is not None)):
            bs, gs = [], []
            for b, g in E.loop_stack:
                bs.extend(b)
                gs.extend(g)
            self.sym.append((tuple(bs), gs, k, v))
            return
        super().__setitem__(k, v)

    def _find(self, k):
        hits = []
        for b, g, key, val in self.sym:
            m0 = [(x, E.fresh('k', x.sort())) for x in b]
            g2 = [subst_b(x, m0) for x in g]
            key2 = subst_any(key, m0)
            c = pin([x[1] for x in m0], g2, [(key2, k)])
            if c is None:
                raise Unsupported('lookup in a map with undetermined keys')
            for m, extra in c:
                cond = b_and(*[subst_b(x, m) for x in g2], boolof(core.same(subst_any(key2, m), k)), *extra)
                if is_f(cond):
                    continue
                hits.append((cond, subst_any(subst_any(val, m0), m)))
        return hits

    def __getitem__(self, k):
        if isinstance(k, SV) and not (isinstance(k, SStr) and k.dom is not None):
            hits = self._find(k)
            for cond, v in reversed(hits):
                if is_t(cond) or E.decide(zb(cond)):
                    return v
            raise KeyError(k)
        return super().__getitem__(k)

    def __contains__(self, k):
        if isinstance(k, SV) and not (isinstance(k, SStr) and k.dom is not None):
            return E.decide(zb(b_or(*[c for c, v in self._find(k)])))
        return super().__contains__(k)

    def get(self, k, d=None):
        return self[k] if k in self else d

    def keys(self):
        if self.sym:
            return self
        return super().keys()

    def __len__(self):
        if self.sym:
            raise Unsupported('len of a symbolic map')
        return super().__len__()

    def __bool__(self):
        if self.sym:
            raise Unsupported('truth of a symbolic map')
        return super().__len__() > 0

    def __iter__(self):
        if self.sym:
            raise Unsupported('iteration of a symbolic map')
        return super().__iter__()


def dict_of_zip(z):
    d = Dict()
    for b, g, (k, v) in z.items_():
        d.sym.append((b, list(g), k, v))
    d.src = z
    return d


def name_of(x):
    """str(id): an injective name"""
    return SRef('name', x.e) if isinstance(x, SNum) else x


def np_array(x):
    if isinstance(x, RangeArr):
        return x
    raise Unsupported('np.array of %s' % type(x).__name__)


class SymRange:
    def __init__(self, a):
        self.a = a

    def __iter__(self):
        raise Unsupported('iteration over a symbolic range')

    def comprehension(self, elt, conds):
        a = self.a if len(self.a) > 1 else (0,) + tuple(self.a)
        if conds or len(a) > 2 or isinstance(a[0], SV) or a[0] != 0 or not isinstance(a[1], (SNum, SymLen)):
            raise Unsupported('comprehension over a symbolic range')
        return RangeArr(a[1], elt)


def listcomp(it, elt, conds):
    """comprehension with one generator"""
    items = seq_items(it)
    if items is None:
        if hasattr(it, 'comprehension'):
            return it.comprehension(elt, conds)
        return [elt(x) for x in it if all(c(x) for c in conds)]
    out = []
    for b, g, v in items:
        if any(is_f(x) for x in g):
            continue
        E.ctx_stack.append((b, g))
        try:
            def body(v=v):
                for c in conds:
                    if not c(v):
                        return SKIP
                return elt(v)
            paths = E.local_paths(body, extra=[zb(x) for x in g])
        finally:
            E.ctx_stack.pop()
        for cond, kind, r in paths:
            if kind == 'raise':
                raise Unsupported('exception in a comprehension: %r' % (r,))
            if r is not SKIP:
                out.append((b, list(g) + list(cond), r))
    return SymSeq(out)


SKIP = object()
