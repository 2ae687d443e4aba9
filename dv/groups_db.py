"""Proof groups for the historical database (C25): every get_data of DBManager is executed on a ghost database
(dv/sqltab.py) with arbitrary tables; spec/db.py says which rows are in force."""
import z3
from . import core, mkt, sqltab
from .core import E, Relation, F, I, S, b_and, b_or, b_not, zb, boolof
from .groups_hist import hist_group, load
from .mkt import Exp, rows_match
from .table import frame
from spec import db

T = '2019/01/02 00:05:00'


def kind(c):
    if c in db.DATES or c in db.VERSIONS:
        return I()
    return S() if c in db.TEXT else F(nullable=True)


def relation(m, name, keys):
    cols = list(getattr(m, name).table_columns)
    return Relation(name, {c: kind(c) for c in cols}, [tuple(keys)])


def eq(a, b):
    return boolof(core.same(a, b))


def le(a, b):
    return boolof(core.num_cmp(a, b, 'le'))


def lt(a, b):
    return boolof(core.num_cmp(a, b, 'lt'))


def in_force(R, t, key, date, version):
    """the predicate 'r is in force': defined by the absence of a better row of its key, with a better row as witness otherwise"""
    best = E.fresh_fun('in_force', R.sort, z3.BoolSort())
    wit = E.fresh_fun('better_row', R.sort, R.sort)

    def same_key(a, b):
        return b_and(*[eq(a[c], b[c]) for c in key])

    def better(a, b):
        c = lt(b[date], a[date])
        return c if version is None else b_or(c, b_and(eq(a[date], b[date]), lt(b[version], a[version])))
    x, y = z3.Const('x_r', R.sort), z3.Const('y_r', R.sort)
    a, b = R.row(x), R.row(y)
    w = R.row(wit(x))
    E.facts.append(core.Fact([x], z3.Implies(best(x), zb(b_and(R.inf(x), le(a[date], t))))))
    E.facts.append(core.Fact([x, y], z3.Implies(zb(b_and(best(x), R.inf(y), same_key(a, b), le(b[date], t))),
                                                zb(b_not(better(b, a))))))
    E.facts.append(core.Fact([x], z3.Implies(zb(b_and(R.inf(x), le(a[date], t), z3.Not(best(x)))), zb(b_and(
        R.inf(wit(x)), same_key(a, w), le(w[date], t), better(w, a))))))
    return lambda r: best(r.t)


def call(name, again):
    def body():
        mms = load('historical_inputs.mms_db')
        t = core.SNum(E.fresh('interval', z3.IntSort()))
        con = sqltab.Connection({}, {T: t})
        mms.pd.read_sql_query = mms.pd.read_sql = sqltab.read_sql_query
        m = mms.DBManager(con)
        src = getattr(m, name)
        tables = {}

        def add(n, keys):
            tables[n] = relation(m, n, keys)
            con.main[n] = frame(tables[n])
            return tables[n]
        if again:
            # left over from an earlier call: tables of any content
            for n in ('temp', 'temp2', 'temp3', 'temp4'):
                con.temp[n] = frame(Relation('old_' + n, dict(X=S()), []))
        D = None
        if name in db.VERSIONED:
            key, rows = db.VERSIONED[name]
            R = add(name, key + ('EFFECTIVEDATE', 'VERSIONNO') + rows)
            if name in db.DISPATCHED:
                D = add('DISPATCHINTERCONNECTORRES', ('INTERCONNECTORID', 'SETTLEMENTDATE'))
            best = in_force(R, t, key, 'EFFECTIVEDATE', 'VERSIONNO')

            def guard(r):
                on = D.has(('INTERCONNECTORID', 'SETTLEMENTDATE'), (r.INTERCONNECTORID, t)) if D is not None else True
                return b_and(best(r), boolof(on))
        elif name in db.DATED:
            R = add(name, db.DATED[name] + ('SETTLEMENTDATE',))

            def guard(r):
                return eq(r.SETTLEMENTDATE, t)
        elif name in db.STARTED:
            R = add(name, (db.STARTED[name], 'START_DATE'))
            guard = in_force(R, t, (db.STARTED[name],), 'START_DATE', None)
        elif name in db.MATCHED:
            R = add(name, ('GENCONID', 'EFFECTIVEDATE', 'VERSIONNO') + db.MATCHED[name])
            D = add('DISPATCHCONSTRAINT', ('CONSTRAINTID', 'SETTLEMENTDATE'))
            K = ('CONSTRAINTID', 'SETTLEMENTDATE')

            def guard(r):
                c = D.get(K, (r.GENCONID, t))
                return b_and(boolof(D.has(K, (r.GENCONID, t))), eq(c.GENCONID_EFFECTIVEDATE, r.EFFECTIVEDATE),
                             eq(c.GENCONID_VERSIONNO, r.VERSIONNO))
        else:
            R = add(name, db.WHOLE[name])

            def guard(r):
                return True
        before = dict(con.main)
        got = src.get_data() if name in db.WHOLE else src.get_data(T)
        E.record('C25: the tables stay as they were', 'proved' if con.main.keys() == before.keys() and all(
            con.main[k] is before[k] for k in before) else 'refuted')
        cols = list(src.table_columns)
        if not set(cols) <= set(got._cols):
            E.record('C25: columns of the table', 'refuted', str(sorted(set(cols) - set(got._cols))))
            return
        rows_match('C25: %s' % name, got.segs, R, lambda r: [Exp(core.mkb(guard(r)), {}, {c: r[c] for c in cols})])
    return body


for n in list(db.VERSIONED) + list(db.DATED) + list(db.STARTED) + list(db.MATCHED) + list(db.WHOLE):
    hist_group('C25', n, call(n, False))
    if n in db.VERSIONED:
        hist_group('C25', n + ' (after an earlier call)', call(n, True))
