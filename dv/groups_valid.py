"""Proof groups of C17: what a call of a setter accepts and refuses, on tables whose cells, column types and columns are
arbitrary.

The real validators run (dataframe_validator and the _validate_* methods).  The functions that a setter calls to build the
model (market_constraints, unit_constraints, ...) are replaced by stubs without a result: once one of them is called nothing
that follows depends on their results, except further validation, which still counts."""
import traceback
import types
import z3
from . import core, mkt, table, loader
from .core import E, zb, boolof, Relation, Col, Fact, b_and, b_or, b_not, SNum, SStr
from .groups_rhs import choose
from .proofs import group, explore
from spec import driver, inputs, market_spec as ms

KINDS = dict(side=['generator', 'load'], service=ms.SERVICES, fcas=ms.FCAS, cont=ms.CONTINGENCY,
             reg=['raise_reg', 'lower_reg'], type=mkt.TYPES)


class WildType:
    """the type of a column, undetermined"""

    def __init__(self, tab, col):
        self.k = z3.Int('dtype %s.%s' % (tab, col))

    def __eq__(self, n):
        return E.decide(self.k == core.lit(n))

    def __ne__(self, n):
        return not self == n

    __hash__ = None

    def is_(self, n):
        return self.k == core.lit(n)


class Built:
    """result of a function that builds a part of the model, unspecified"""

    def _any(self, *a, **k):
        return Built()

    def __iter__(self):
        return iter((Built(), Built()))

    __getitem__ = __call__ = __getattr__ = __add__ = __radd__ = __lt__ = __gt__ = __eq__ = __ne__ = _any

    def __bool__(self):
        raise core.Unsupported('branch on an unspecified result')

    __hash__ = None


def wild(tab, schema, cols, directions):
    """an arbitrary table with these columns"""
    d = {}
    for c in cols:
        k, fl = schema.get(c, ('num', ''))
        if k == 'num':
            d[c] = Col('num', wild=True)
        elif k in ('int', 'int1'):
            d[c] = Col('int')
        elif k == 'fun':
            d[c] = Col('fn', wild=True)
        else:
            d[c] = Col('str', nullable=True)
    rel = Relation('wild_' + tab.split('/')[0], d)
    fr = table.frame(rel)
    types_ = {}
    for c in cols:
        k = schema.get(c, ('num', ''))[0]
        if k in ('num', 'int', 'int1'):
            types_[c] = WildType(tab, c)
            fr.dtypes_[c] = types_[c]
    return rel, fr, types_


def cell_ok(run, tab, kind, fl, v):
    """formula: this cell is well-formed; membership in another table is a list of (relation, column)"""
    if kind == 'fun':
        return b_not(v.none), None
    if kind in ('num', 'int', 'int1'):
        out = []
        if kind == 'int1':
            out.append(b_or(boolof(core.eq(v, 1)), boolof(core.eq(v, -1))))
        if 'r' in fl:
            out.append(b_not(b_or(v.nan, v.pinf, v.ninf)))
        if 'p' in fl:
            out.append(b_not(boolof(core.num_cmp(v, 0.0, 'lt'))))
        return b_and(*out), None
    text = b_not(v.null)
    if kind in KINDS:
        return b_and(text, b_or(*[v.e == core.lit(x) for x in KINDS[kind]])), None
    if kind == 'unit':
        return text, (run.rels['unit_info'], 'unit')
    if kind == 'region':
        return text, (run.rels['regions'], 'region')
    return text, None


class Table:
    def __init__(self, run, tab, schema, directions, structure):
        known = [c for c, (k, fl) in schema.items() if directions or 'd' not in fl]
        req = [c for c in known if 'o' not in schema[c][1]]
        opts = ['all columns', 'required columns only', 'an unknown column'] + ['without ' + c for c in req]
        st = choose('columns_' + tab, opts) if structure else 'all columns'
        self.bad = not (st == 'all columns' or st == 'required columns only')
        cols = req if st == 'required columns only' else [c for c in known if st != 'without ' + c]
        if st == 'an unknown column':
            cols = cols + ['surprise']
        self.run, self.tab, self.schema, self.cols, self.st = run, tab, schema, cols, st
        self.rel, self.frame, self.types = wild(tab, schema, cols, directions)
        self.key = [c for c in cols if c in schema and 'k' in schema[c][1]]
        self.key += ['dispatch_type'] if 'dispatch_type' in cols and 'dispatch_type' not in self.key else []
        if 'service' in cols and 'service' not in self.key:
            self.key.append('service')
        if 'link' in cols and 'link' not in self.key:
            self.key.append('link')
        self.two_sided = tab in ('volume_bids', 'price_bids', 'ramp_details') and directions

    def rules(self):
        """(name, binders, hypotheses, formula, membership)"""
        rel = self.rel
        for c in self.cols:
            if c not in self.schema:
                continue
            kind, fl = self.schema[c]
            if c in self.types:
                yield 'type of ' + c, [], [], self.types[c].is_('float64' if kind == 'num' else 'int64'), None
            t = E.fresh('row', rel.sort)
            f, member = cell_ok(self.run, self.tab, kind, fl, rel.val(t, c))
            yield 'values of ' + c, [t], [rel.inf(t)], f, None
            if member:
                yield 'known ' + c, [t], [rel.inf(t)], None, (member, rel.val(t, c))
        a, b = E.fresh('row', rel.sort), E.fresh('row', rel.sort)
        same = [zb(boolof(core.same(rel.val(a, c), rel.val(b, c)))) for c in self.key]
        yield 'one row for each ' + ', '.join(self.key), [a, b], [rel.inf(a), rel.inf(b)] + same, a == b, None
        if self.two_sided:
            ui = self.run.rels['unit_info']
            t = E.fresh('row', rel.sort)
            u = rel.val(t, 'unit')
            h = [rel.inf(t), zb(b_not(u.null))]
            h += [zb(boolof(ui.has(('unit', 'dispatch_type'), (u, s)))) for s in ('generator', 'load')]
            if 'service' in self.cols:
                h.append(zb(boolof(core.eq(rel.val(t, 'service'), 'energy'))))
            yield 'both sides of bidirectional units', [t], h, None, ('partner', t)

    def demand(self):
        """what acceptance must imply"""
        name = 'C17: accepted %s' % self.tab
        if self.bad:
            E.prove('%s %s' % (name, self.st), z3.BoolVal(False))
            return
        for what, bs, hyps, f, member in self.rules():
            label = '%s: %s' % (name, what)
            if member is None:
                E.prove(label, zb(f), [zb(h) for h in hyps])
                continue
            # no row is the one asked for: contradiction
            n = len(E.facts)
            if member[0] == 'partner':
                t = member[1]
                q = z3.Const('partner', self.rel.sort)
                E.facts.append(Fact([q], zb(b_not(self.partner(t, q)))))
            else:
                (rel, c), v = member
                q = z3.Const('member', rel.sort)
                E.facts.append(Fact([q], z3.Not(z3.And(rel.inf(q), rel.f[c](q) == v.e))))
            E.prove(label, z3.BoolVal(False), [zb(h) for h in hyps])
            del E.facts[n:]

    def partner(self, t, q):
        rel = self.rel
        p = [rel.inf(q), q != t, boolof(core.eq(rel.val(t, 'unit'), rel.val(q, 'unit')))]
        if 'service' in self.cols:
            p.append(boolof(core.eq(rel.val(q, 'service'), 'energy')))
        return b_and(*p)

    def suppose(self):
        """assume the table is well-formed"""
        for what, bs, hyps, f, member in self.rules():
            if member is not None:
                # a witness for every row
                if member[0] == 'partner':
                    w = E.fresh_fun('partner_of', self.rel.sort, self.rel.sort)
                    f = self.partner(member[1], w(bs[0]))
                else:
                    (rel, c), v = member
                    w = E.fresh_fun('member_for', self.rel.sort, rel.sort)
                    f = b_and(rel.inf(w(bs[0])), rel.f[c](w(bs[0])) == v.e)
            g = z3.Implies(z3.And(*[zb(h) for h in hyps]) if hyps else z3.BoolVal(True), zb(f))
            if bs:
                E.facts.append(Fact(bs, g))
            else:
                E.assume(g)


# ------------------------------------------------------------------ state of the market
def state(o):
    if isinstance(o, dict):
        return ('dict', {k: state(v) for k, v in o.items()})
    if isinstance(o, table.DF):
        return ('frame', list(o.columns),
                [(list(s.binders), [zb(x) for x in s.guard], dict(s.vals)) for s in o.segs])
    if isinstance(o, list):
        return ('list', list(o))
    return ('value', o)


def differs(a, b):
    """None when equal, a formula when equal under it, True when different"""
    if a[0] != b[0]:
        return True
    if a[0] == 'dict':
        if list(a[1]) != list(b[1]):
            return True
        return [differs(a[1][k], b[1][k]) for k in a[1]]
    if a[0] == 'frame':
        if a[1] != b[1] or len(a[2]) != len(b[2]):
            return True
        out = []
        for (b1, g1, v1), (b2, g2, v2) in zip(a[2], b[2]):
            if [x.get_id() for x in b1] != [x.get_id() for x in b2] or list(v1) != list(v2):
                return True
            if [x.get_id() for x in g1] != [x.get_id() for x in g2]:
                out.append(z3.And(*g1) == z3.And(*g2))
            for c in v1:
                if v1[c] is not v2[c]:
                    out.append(zb(mkt.value_eq(v1[c], v2[c])))
        return out
    if a[0] == 'list':
        return None if len(a[1]) == len(b[1]) and all(x is y or x == y for x, y in zip(a[1], b[1])) else True
    x, y = a[1], b[1]
    if x is y:
        return None
    if isinstance(x, core.SV) or isinstance(y, core.SV):
        return [zb(mkt.value_eq(x, y))] if not isinstance(x, Built) and not isinstance(y, Built) else True
    try:
        return None if bool(x == y) else True
    except Exception:
        return True


def check_unchanged(name, m, snap):
    now = {k: state(v) for k, v in vars(m).items()}
    bad, eqs = [], []

    def walk(d, k):
        if d is True:
            bad.append(k)
        elif isinstance(d, list):
            for x in d:
                walk(x, k)
        elif d is not None:
            eqs.append(d)
    for k in set(now) | set(snap):
        if k not in now or k not in snap:
            bad.append(k)
        else:
            walk(differs(snap[k], now[k]), k)
    if bad:
        E.record(name, 'refuted', 'changed: %s' % ', '.join(sorted(bad)))
    elif eqs:
        E.prove(name, z3.And(*eqs))
    else:
        E.record(name, 'proved')


# ------------------------------------------------------------------ running one call
BUILDERS = ['elastic_constraints', 'fcas_constraints', 'inter', 'market_constraints', 'objective_function', 'unit_constraints',
            'variable_ids', 'rrp', 'hf']


def call_group(name, step, tabs, needs=(), directions=True, focus=None, cfg=None, call=None, slow=False):
    """tabs: {name in T: schema name}; focus: the table whose columns are varied"""
    S = inputs.schemas()

    def go():
        c = dict(dict(dispatch_types=directions, service=True, bands=['1', '2']), **(cfg or {}))
        cap = mkt.Captured()
        L, mod = mkt.load_market(cap, real_validation=True)
        real = mod.dv.DataFrameSchema.validate, mod.SpotMarket._validate_bidirectional_unit_inputs
        mod.dv.DataFrameSchema.validate = lambda self, df: None
        mod.SpotMarket._validate_bidirectional_unit_inputs = lambda self, *a, **k: None
        rels, T, ctx = mkt.make_tables([n for n in needs if n not in tabs], c)
        run = types.SimpleNamespace(rels=rels, T=T)
        interval = SNum(z3.Real('interval'))
        E.assume(interval.e > 0)
        c['interval'] = interval
        rg = table.frame(rels['regions'])['region']
        W = {n: Table(run, s, S[s], directions, focus in (None, n)) for n, s in tabs.items()}
        T = dict(T)
        for n, w in W.items():
            T[n] = w.frame
        calls = []

        def restore():
            mod.dv.DataFrameSchema.validate, mod.SpotMarket._validate_bidirectional_unit_inputs = real
            for b in BUILDERS:
                o = getattr(mod, b, None)
                if not isinstance(o, types.ModuleType):
                    continue
                stub = types.SimpleNamespace()
                for k, f in vars(o).items():
                    if isinstance(f, types.FunctionType):
                        def g(*a, _k=k, **kw):
                            calls.append(_k)
                            return Built()
                        setattr(stub, k, g)
                    elif isinstance(f, type):
                        setattr(stub, k, f)
                setattr(mod, b, stub)
        make = lambda: mod.SpotMarket(market_regions=table.SymList(rg), unit_info=T['unit_info'], dispatch_interval=interval)
        m = None
        if step == 'unit_info':
            restore()
            f = make
        else:
            m = make()
            for s in needs:
                if s in driver.STEPS and s not in tabs:
                    driver.STEPS[s](m, T, c)
            restore()
            f = (lambda: driver.STEPS[step](m, T, c)) if call is None else (lambda: call(m, T))
        snap = None if m is None else {k: state(v) for k, v in vars(m).items()}
        try:
            f()
            ok = True
        except (core.Infeasible, core.ContractEnd):
            raise
        except core.Unsupported:
            if not calls:
                raise
            ok = True
        except Exception as ex:
            own = type(ex).__module__.startswith('nempy')
            tb = traceback.extract_tb(ex.__traceback__)
            if not calls and not own and not isinstance(ex, KeyError) and (
                    '/nempy/' not in tb[-1].filename or isinstance(ex, (TypeError, AttributeError, NotImplementedError))):
                # an operation the symbolic classes lack says nothing about the code
                raise core.Unsupported('%s: %s' % (type(ex).__name__, ex))
            # an error out of processing unspecified results is none of the call's
            ok = bool(calls) and not own
        if ok:
            for w in W.values():
                w.demand()
            return m
        if m is not None:
            check_unchanged('C17: a refused %s leaves the market as it was' % step, m, snap)
        if not any(w.bad for w in W.values()):
            for w in W.values():
                w.suppose()
            E.prove('C17: well-formed %s is not refused' % step, z3.BoolVal(False))
        return m

    def f(tier):
        return explore(go, functions=mkt.functions_run, no_raise=False)
    group('C17', name, slow)(f)


for d, sh in ((True, ''), (False, ' (no dispatch types)')):
    nb = ['volume_bids']
    call_group('volume bids' + sh, 'volume_bids', {'volume_bids': 'volume_bids'}, (), d)
    call_group('price bids' + sh, 'price_bids', {'price_bids': 'price_bids'}, nb, d)
    call_group('unit limits' + sh, 'unit_limits', {'unit_limits': 'unit_limits'}, nb, d)
    call_group('forecast limits' + sh, 'uigf_limits', {'uigf_limits': 'uigf_limits'}, nb, d)
    call_group('ramp details' + sh, 'ramp_details', {'ramp_details': 'ramp_details'}, (), d)
    call_group('fcas maximum availability' + sh, 'fcas_max_availability', {'fcas_max_availability': 'fcas_max_availability'},
               (), d, slow=not d)
    call_group('contingency trapeziums' + sh, 'contingency_trapeziums', {'contingency_trapeziums': 'contingency_trapeziums'},
               (), d, slow=not d)
    call_group('regulation trapeziums' + sh, 'regulation_trapeziums', {'regulation_trapeziums': 'regulation_trapeziums'}, (), d,
               slow=not d)
call_group('unit info', 'unit_info', {'unit_info': 'unit_info'})
call_group('scada ramp rates', 'ramp_details', {'ramp_details': 'ramp_details', 'scada_ramp_rates': 'scada_ramp_rates'},
           focus='scada_ramp_rates')
for rt in ('fast_start_first_run', 'fast_start_second_run'):
    call_group('ramp details, profiles of %s' % rt, 'ramp_details',
               {'ramp_details': 'ramp_details', 'ramp_profiles': 'ramp_profiles/' + rt}, focus='ramp_profiles',
               cfg=dict(run_type=rt))
    call_group('regulation ramp rates, profiles of %s' % rt, 'reg_ramp_rates',
               {'reg_ramp_rates': 'reg_ramp_rates', 'ramp_profiles': 'ramp_profiles/' + rt}, ['volume_bids'], focus='ramp_profiles',
               cfg=dict(run_type=rt))
call_group('regulation ramp rates', 'reg_ramp_rates', {'reg_ramp_rates': 'reg_ramp_rates'}, ['volume_bids'])
for t in ('fast_start_profiles', 'demand', 'fcas_requirements', 'interconnectors', 'generic_parameters', 'unit_coefficients',
          'region_coefficients', 'interconnector_coefficients'):
    call_group(t.replace('_', ' '), t, {t: t})
for t in ('loss_functions', 'break_points'):
    call_group(t.replace('_', ' '), 'loss_functions', {'loss_functions': 'loss_functions', 'break_points': 'break_points'},
               ['interconnectors'], focus=t)
call_group('violation cost of fcas sets', 'violation_cost', {'violation_cost': 'violation_cost'}, ['fcas_requirements'],
           call=lambda m, T: m.make_constraints_elastic('fcas', T['violation_cost']))
call_group('violation cost of generic sets', 'violation_cost', {'violation_cost': 'violation_cost'}, ['generic_parameters'],
           call=lambda m, T: m.make_constraints_elastic('generic', T['violation_cost']))
