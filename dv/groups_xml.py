"""Proof groups for the extraction from NEMDE files (C27).

A collection of records without bound is a Coll.  A loop over it is verified as the step of an induction: the lists that collect
the rows hold an opaque earlier part (the rows of any earlier records), every other name the loop assigns holds an arbitrary
left-over that may not be read, the body runs on an arbitrary record, and the loop ends.  The contract of the whole function is
that exactly the rows of that record follow the earlier part, with its values.  Together with the empty lists the code starts
from this gives, by induction, one row per record.  What the code does with the finished lists must be an operation on single
rows (class Rows; anything else is undecided).  Loops over a Coll have to run to their end."""
import builtins as B
import math
import sys
import types
import z3
from . import core, table
from .core import E, Unsupported, SNum, SStr, lift, zb, boolof
from .groups_hist import hist_group, load
from .groups_rhs import fork, choose
from .loops import Text
from .mkt import value_eq
from spec import xml as X
from spec import hist_spec as hs
import ctypes


class IntText(SStr):
    """a text that denotes a whole number"""
    __slots__ = ('num',)

    def __init__(self, base):
        SStr.__init__(self, E.fresh(base, z3.IntSort()))
        self.num = SNum(E.fresh(base, z3.IntSort()))


def text(base):
    return SStr(E.fresh(base, z3.IntSort()))


class Left:
    """an arbitrary left-over of an earlier iteration"""

    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def _no(self, *a, **k):
        raise Unsupported('%s is carried from one iteration to the next' % object.__getattribute__(self, '_n'))
    __getattr__ = __getitem__ = __call__ = __bool__ = __iter__ = __len__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = _no
    __add__ = __radd__ = __sub__ = __mul__ = __contains__ = __setitem__ = __str__ = __format__ = _no
    __hash__ = None


class Marker:
    """the rows of any earlier records (the same marker in two lists: the same number of them)"""

    def _no(self, *a, **k):
        raise Unsupported('the rows collected earlier are read')
    __getitem__ = __call__ = __bool__ = __iter__ = __len__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = _no
    __add__ = __radd__ = __sub__ = __mul__ = __contains__ = __setitem__ = __str__ = __format__ = __hash__ = __getattr__ = _no


def plain(v):
    """the list with its markers"""
    return B.list.__getitem__(v, slice(None)) if isinstance(v, Part) else v


class Part(B.list):
    """the list a comprehension over records gives"""

    def comprehension(self, elt, conds):
        old = plain(self)
        out = Part([Marker() if conds and isinstance(x, Marker) else x for x in old if isinstance(x, Marker)])
        out += [elt(x) for x in old if not isinstance(x, Marker) and all(c(x) for c in conds)]
        return out

    def __iter__(self):
        return _It([x for x in plain(self) if not isinstance(x, Marker)])


def length(x):
    from . import loader
    if isinstance(x, B.list) and any(isinstance(y, Marker) for y in plain(x)):
        raise Unsupported('number of rows collected')
    return loader.s_len(x)


class Coll:
    """records[...]: any number of records of one kind (given: an arbitrary one)"""
    OPEN = []

    def __init__(self, record):
        self.record, self.before = record, Marker()

    def __iter__(self):
        return _It([self.record])

    def comprehension(self, elt, conds):
        out = Part([Marker() if conds else self.before])
        if all(c(self.record) for c in conds):
            out += [elt(self.record)]
        return out

    def symenumerate(self, start=0):
        raise Unsupported('position of a record')

    def __getattr__(self, n):
        raise Unsupported('%s of a collection' % n)

    def __getitem__(self, k):
        if isinstance(k, str):
            raise TypeError('list indices must be integers or slices, not str')
        raise Unsupported('element of a collection')

    def __contains__(self, x):
        if isinstance(x, str):
            return False
        raise Unsupported('element of a collection')

    def symlen(self):
        n = E.fresh('records', z3.IntSort())
        E.assume(n >= 2)
        return SNum(n)

    def __bool__(self):
        return True


def accumulators(loc):
    """lists the frame can reach: locals, values of dicts"""
    out = {}
    for v in loc.values():
        if isinstance(v, B.list):
            out[id(v)] = v
        elif isinstance(v, B.dict):
            for w in v.values():
                if isinstance(w, B.list):
                    out[id(w)] = w
    return out


def rows_like(v):
    return isinstance(v, B.list) or isinstance(v, B.dict) and v and all(isinstance(w, B.list) for w in v.values())


class _It:
    def __init__(self, records):
        self.todo, self.state = records, None
        Coll.OPEN.append(self)

    def __iter__(self):
        return self

    def __next__(self):
        f = sys._getframe(1)
        if '/nempy/' not in f.f_code.co_filename:
            raise Unsupported('a collection is read in another way')
        loc = f.f_locals
        if self.state is None:
            names = table.LOOPVARS.get((f.f_code.co_filename, f.f_lineno))
            if names is None:
                raise Unsupported('a collection is not read by a for statement')
            mark = Marker()
            acc = accumulators(loc)
            for v in acc.values():
                v.append(mark)
            keep = {n: loc[n] for n in names if n in loc and rows_like(loc[n])}
            self.state = (f, keep, {id(v) for v in acc.values()})
            for n in names:
                if n not in keep:
                    loc[n] = Left(n)
            ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(f), ctypes.c_int(0))
            if self.todo:
                return self.todo[0]
            Coll.OPEN.remove(self)
            raise StopIteration
        g, keep, acc = self.state
        if f is not g or any(f.f_locals.get(n) is not v for n, v in keep.items()):
            raise Unsupported('the loop replaces a list it collects')
        Coll.OPEN.remove(self)
        raise StopIteration


class Rows:
    """the finished table: rows of the generic record among the markers of earlier rows"""

    def __init__(self, data=None, columns=None):
        if isinstance(data, Rows):
            self.cols = dict(data.cols)
            return
        if isinstance(data, B.list):
            names = list(columns) if columns is not None else []
            if columns is None:
                for r in plain(data):
                    if isinstance(r, Marker):
                        continue
                    for k in r:
                        if k not in names:
                            names.append(k)
            self.cols = {}
            for i, n in enumerate(names):
                self.cols[n] = [r if isinstance(r, Marker) else (r.get(n, math.nan) if isinstance(r, B.dict) else r[i])
                                for r in plain(data)]
            return
        if not isinstance(data, B.dict) or not all(isinstance(v, B.list) for v in data.values()):
            raise Unsupported('table of %r' % (type(data),))
        self.cols = {k: plain(v) for k, v in data.items()}
        marks = {tuple(id(x) for x in v if isinstance(x, Marker)) for v in self.cols.values()}
        if len(marks) > 1:
            raise Unsupported('columns collected by different loops')
        shape = None
        for k, v in self.cols.items():
            s = [id(x) if isinstance(x, Marker) else None for x in v]
            if shape is not None and s != shape:
                E.record('C27: every column gets one value per row', 'refuted', 'column %s' % k)
                raise core.Infeasible()
            shape = s
        if columns is not None:
            self.cols = {c: self.cols[c] for c in columns}

    @property
    def columns(self):
        return B.list(self.cols)

    def __getitem__(self, c):
        if isinstance(c, str):
            return Col(self.cols[c])
        if isinstance(c, B.list) and all(isinstance(x, str) for x in c):
            r = Rows({})
            r.cols = {x: self.cols[x] for x in c}
            return r
        if isinstance(c, Col):
            r = Rows({})
            keep = [isinstance(x, Marker) or bool(x) for x in c.v]
            r.cols = {k: [x for x, q in zip(v, keep) if q] for k, v in self.cols.items()}
            return r
        raise Unsupported('table[%r]' % (c,))

    def __setitem__(self, c, v):
        n = next(iter(self.cols.values()), [])
        if isinstance(v, Col):
            self.cols[c] = v.v
        elif v is None or isinstance(v, (str, int, float)):
            self.cols[c] = [x if isinstance(x, Marker) else v for x in n]
        else:
            raise Unsupported('column of %r' % (type(v),))

    def rename(self, columns=None, **k):
        if k or columns is None:
            raise Unsupported('rename')
        r = Rows({})
        r.cols = {columns.get(c, c): v for c, v in self.cols.items()}
        return r

    def assign(self, **kw):
        r = Rows(self)
        for k, v in kw.items():
            r[k] = v(r) if callable(v) else v
        return r

    def copy(self, deep=True):
        return Rows(self)

    def reset_index(self, drop=False):
        if not drop:
            raise Unsupported('reset_index')
        return Rows(self)

    def __getattr__(self, n):
        raise Unsupported('DataFrame.%s of an extracted table' % n)


class Col:
    def __init__(self, v):
        self.v = v

    def _each(self, f):
        return Col([x if isinstance(x, Marker) else f(x) for x in self.v])

    def apply(self, f):
        return self._each(f)

    def map(self, f):
        if isinstance(f, B.dict):
            return self._each(lambda x: f.get(x, math.nan))
        return self._each(f)

    def replace(self, d):
        if not isinstance(d, B.dict):
            raise Unsupported('replace')
        return self._each(lambda x: d.get(x, x))

    def astype(self, t):
        if t in ('float64', 'float', float, 'Float64') or getattr(t, '__name__', '') == 's_float':
            return self._each(number)
        raise Unsupported('astype')

    def __eq__(self, o):
        return self._each(lambda x: x == o)

    def __ne__(self, o):
        return self._each(lambda x: x != o)

    def __getattr__(self, n):
        raise Unsupported('Series.%s of an extracted table' % n)
    __hash__ = None


def number(x):
    return x.num if isinstance(x, (Text, IntText)) else x


def entry(E_):
    def str_to_int(s):
        if isinstance(s, IntText):
            return s.num
        raise Unsupported('int of a string')
    E_.str_to_int = str_to_int


def many(record):
    """the collection as the parser gives it: the record itself where there is one, a list otherwise"""
    return Coll(record) if fork('many') else record


class Type:
    def __new__(cls, x):
        return B.list if isinstance(x, Coll) else B.type(x)


def inst(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, Coll):
        return B.list in ts
    from . import loader
    return loader.s_isinstance(x, t)


def document(inputs, outputs):
    return {'NEMSPDCaseFile': {'NemSpdInputs': inputs, 'NemSpdOutputs': outputs}}


def setup(inputs, outputs):
    entry(E)
    del Coll.OPEN[:]
    xc = load_both()
    m = xc[0].XMLCacheManager.__new__(xc[0].XMLCacheManager)
    m.cache_folder, m.interval, m.xml = 'folder', '2019/01/01 00:05:00', document(inputs, outputs)
    return m, xc[1].RawInputsLoader(m, None)


def load_both():
    from . import loader
    L = loader.Loader()
    xc, ld = L.load('nempy.historical_inputs.xml_cache'), L.load('nempy.historical_inputs.loaders')
    xc.list, xc.type, xc.isinstance, xc.len = B.list, Type, inst, length
    pd = types.ModuleType('pandas')
    pd.DataFrame = Rows

    def lacks(n):
        raise Unsupported('pandas.%s' % n)
    pd.__getattr__ = lacks
    xc.pd = pd
    return xc, ld


def expect(what, got, rows):
    """got holds exactly these rows after the earlier part"""
    E.record('C27: %s: all records are read' % what, 'proved' if not Coll.OPEN else 'refuted', 'a loop over records stops early')
    if not isinstance(got, Rows):
        raise Unsupported('the result is not a table')
    if any(isinstance(x, Left) for v in got.cols.values() for x in v):
        raise Unsupported('a value of an earlier iteration is collected')
    n = {sum(not isinstance(x, Marker) for x in v) for v in got.cols.values()}
    if len(n) > 1:
        raise Unsupported('columns of different length')
    n = n.pop() if n else 0
    if n != len(rows):
        E.record('C27: %s: one row per record' % what, 'refuted', '%d rows, expected %d' % (n, len(rows)))
        return
    E.record('C27: %s: one row per record' % what, 'proved')
    for i, r in enumerate(rows):
        for c, v in r.items():
            if c not in got.cols:
                E.record('C27: %s: %s' % (what, c), 'refuted', 'no such column')
                continue
            g = [x for x in got.cols[c] if not isinstance(x, Marker)][i]
            same('%s: %s' % (what, c), g, v)


def same(name, g, v):
    if v is None or isinstance(v, float) and math.isnan(v):
        null = g is None or isinstance(g, float) and math.isnan(g)
        E.record('C27: ' + name, 'proved' if null else 'refuted', repr(g))
        return
    if isinstance(g, B.list) or isinstance(g, Left):
        raise Unsupported('value %r' % (g,))
    if g is None or isinstance(g, float) and math.isnan(g):
        E.record('C27: ' + name, 'refuted', 'missing')
        return
    if isinstance(g, (Text, IntText)) != isinstance(v, (Text, IntText)):
        E.record('C27: ' + name, 'refuted', 'text and number')
        return
    E.prove('C27: ' + name, zb(value_eq(g, v)))


# ------------------------------------------------------------------ the groups
def initial():
    ttype = choose('type', hs.TRADERS)
    interv = fork('intervention')
    vals = {}
    for n in list(X.INITIAL.values()):
        if fork('has_' + n):
            vals[n] = Text(n)
    vals['InitialMW'], vals['WhatIfInitialMW'] = Text('initial'), Text('what_if')
    names = list(vals)
    if fork('reversed'):
        names.reverse()
    conds = [{'@InitialConditionID': 'HMW', '@Value': Text('other')}]
    conds += [{'@InitialConditionID': n, '@Value': vals[n]} for n in names]
    conds.append({'@InitialConditionID': 'LMW', '@Value': Text('other')})
    t = {'@TraderID': text('trader'), '@TraderType': ttype,
         'TraderInitialConditionCollection': {'TraderInitialCondition': conds}}
    sol = [{'@Intervention': '0'}, {'@Intervention': '1'}]
    m, L = setup({'TraderCollection': {'Trader': Coll(t)}}, {'PeriodSolution': sol if interv else sol[0]})
    got = L.get_unit_initial_conditions()
    e = dict(DUID=t['@TraderID'], TRADERTYPE=ttype, INITIALMW=vals['WhatIfInitialMW' if interv else 'InitialMW'].num)
    for c, n in X.INITIAL.items():
        e[c] = vals[n].num if n in vals else None
    expect('initial conditions', got, [e])
    E.record('C27: intervention runs are recognised', 'proved' if m.is_intervention_period() == interv else 'refuted')


def fast_start():
    t = {'@TraderID': text('trader'), '@TraderType': 'GENERATOR'}
    rows = []
    if fork('fast_start'):
        for c in X.FAST_START:
            t['@' + c] = IntText(c)
        for c in ('CurrentMode', 'CurrentModeTime'):
            if fork('what_if_' + c):
                t['@WhatIf' + c] = IntText('what_if')
        e = dict(DUID=t['@TraderID'])
        for c in X.FAST_START:
            e[c] = t.get('@WhatIf' + c, t['@' + c]).num
        rows = [e]
    _, L = setup({'TraderCollection': {'Trader': Coll(t)}}, {})
    expect('fast start parameters', L.get_unit_fast_start_parameters(), rows)


def present(code, attrs):
    """attributes of a bid record: all, those of its kind, all but one, or one"""
    how = choose('attributes', ['all', 'kind', 'all but one', 'one'])
    if how == 'all':
        return list(attrs)
    if how == 'kind':
        energy = X.BID_TYPES[code] == 'ENERGY'
        trap = {'EnablementMin', 'EnablementMax', 'LowBreakpoint', 'HighBreakpoint'}
        return [a for a in attrs if (a not in trap if energy else not a.startswith('Ramp'))]
    one = choose('attribute', list(attrs))
    return [one] if how == 'one' else [a for a in attrs if a != one]


def bids(price, codes):
    def body():
        code = choose('trade_type', codes)
        table_ = X.PRICE if price else X.VOLUME
        attrs = list(table_.values()) if price or len(codes) > 2 else present(code, list(table_.values()))
        d = choose('direction', ['none', 'GEN', 'LOAD'])
        ttype = choose('type', hs.TRADERS) if price else 'GENERATOR'
        rec = {'@TradeType': code}
        for a in attrs:
            rec['@' + a] = Text(a)
        if d != 'none':
            rec['@Direction'] = d
        t = {'@TraderID': text('trader')}
        if price:
            t['@TraderType'] = ttype
            t['TradePriceStructureCollection'] = {'TradePriceStructure': {'TradeTypePriceStructureCollection': {
                'TradeTypePriceStructure': many(rec)}}}
            inputs = {'TraderCollection': {'Trader': Coll(t)}}
        else:
            t['TradeCollection'] = {'Trade': many(rec)}
            inputs = {'PeriodCollection': {'Period': {'TraderPeriodCollection': {'TraderPeriod': Coll(t)}}}}
        _, L = setup(inputs, {})
        got = L.get_unit_price_bids() if price else L.get_unit_volume_bids()
        e = dict(DUID=t['@TraderID'], BIDTYPE=X.BID_TYPES[code])
        e['DIRECTION'] = X.DIRECTIONS[d] if d != 'none' else (X.default_direction(ttype) if price else None)
        e.update({c: rec['@' + a].num for c, a in table_.items() if a in attrs})
        expect('price bids' if price else 'volume bids', got, [e])
    return body


def forecasts():
    t = {'@TraderID': text('trader')}
    rows = []
    if fork('uigf'):
        t['@UIGF'] = Text('uigf')
        rows = [dict(DUID=t['@TraderID'], UIGF=t['@UIGF'].num)]
    _, L = setup({'PeriodCollection': {'Period': {'TraderPeriodCollection': {'TraderPeriod': Coll(t)}}}}, {})
    expect('forecasts', L.get_UIGF_values(), rows)


def rhs():
    run = choose('run', ['0', '1'])
    c = {'@ConstraintID': text('set'), '@Intervention': run, '@RHS': Text('rhs')}
    _, L = setup({}, {'ConstraintSolution': Coll(c)})
    expect('constraint right hand sides', L.get_constraint_rhs(), [dict(set=c['@ConstraintID'], rhs=c['@RHS'].num)]
           if run == '0' else [])


def types_():
    c = {'@ConstraintID': text('set'), '@Type': text('type'), '@ViolationPrice': Text('price')}
    _, L = setup({'GenericConstraintCollection': {'GenericConstraint': Coll(c)}}, {})
    expect('constraint types', L.get_constraint_type(), [dict(set=c['@ConstraintID'], type=c['@Type'],
                                                              cost=c['@ViolationPrice'].num)])


def factors(kind):
    tag, ident, col = {'unit': ('TraderFactor', '@TraderID', 'unit'), 'region': ('RegionFactor', '@RegionID', 'region'),
                       'interconnector': ('InterconnectorFactor', '@InterconnectorID', 'interconnector')}[kind]

    def body():
        c = {'@ConstraintID': text('set'), 'LHSFactorCollection': None}
        f = {ident: text(kind), '@TradeType': text('service'), '@Factor': Text('factor')}
        rows = []
        if fork('factors'):
            lhs = c['LHSFactorCollection'] = {}
            for t in ('TraderFactor', 'RegionFactor', 'InterconnectorFactor'):
                if t != tag and fork('has_' + t):
                    o = {i: text('other') for i in ('@TraderID', '@RegionID', '@InterconnectorID', '@TradeType')}
                    o['@Factor'] = Text('other')
                    lhs[t] = many(o)
            if fork('has_' + tag):
                lhs[tag] = many(f)
                e = {'set': c['@ConstraintID'], col: f[ident], 'coefficient': f['@Factor'].num}
                if kind != 'interconnector':
                    e['service'] = f['@TradeType']
                rows = [e]
        _, L = setup({'GenericConstraintCollection': {'GenericConstraint': Coll(c)}}, {})
        got = getattr(L, 'get_constraint_%s_lhs' % kind)()
        expect('%s terms' % kind, got, rows)
    return body


def links():
    mnsp = choose('mnsp', ['0', '1'])
    i = {'@InterconnectorID': text('interconnector'), '@MNSP': mnsp, '@FromRegion': text('from'), '@ToRegion': text('to')}
    o = {'@RegionID': text('region'), '@MaxAvail': Text('available')}
    if mnsp == '1':
        i['MNSPOfferCollection'] = {'MNSPOffer': Coll(o)}
    _, L = setup({'PeriodCollection': {'Period': {'InterconnectorPeriodCollection': {'InterconnectorPeriod': Coll(i)}}}}, {})
    expect('link availability', L.get_market_interconnector_link_bid_availability(), [
        dict(interconnector=i['@InterconnectorID'], to_region=o['@RegionID'], availability=o['@MaxAvail'].num)]
        if mnsp == '1' else [])


def prices():
    case = {'@' + a: Text(a) for a in X.VIOLATION_PRICES.values()}
    _, L = setup({'Case': case}, {})
    got = L.get_constraint_violation_prices()
    for n, a in X.VIOLATION_PRICES.items():
        if n not in got:
            E.record('C27: violation price %s' % n, 'refuted', 'missing')
        else:
            same('violation price %s' % n, got[n], case['@' + a].num)


def violations():
    interv = fork('intervention')
    names = list(X.VIOLATIONS.values())
    how = choose('in_the_period_solution', ['all', 'none', 'all but one', 'one'])
    one = choose('name', names) if how.endswith('one') else None
    inp = {'all': names, 'none': [], 'one': [one], 'all but one': [n for n in names if n != one]}[how]

    def sol(run, which):
        s = {'@Intervention': run}
        s.update({'@' + n: Text(n) for n in which})
        return s
    runs = ['0', '1']
    if fork('other_order'):
        runs = ['1', '0']
    P = {r: sol(r, inp) for r in runs}
    C = {r: sol(r, names) for r in runs}
    out = {'PeriodSolution': [P[r] for r in runs], 'CaseSolution': [C[r] for r in runs]} if interv else \
        {'PeriodSolution': P['0'], 'CaseSolution': C['0']}
    _, L = setup({}, out)
    got = L.get_violations()
    for n, a in X.VIOLATIONS.items():
        if n not in got:
            E.record('C27: violation %s' % n, 'refuted', 'missing')
        else:
            same('violation %s' % n, got[n], (P['0'] if a in inp else C['0'])['@' + a].num)


CODES = list(X.BID_TYPES)
for _n, _b in [('initial conditions', initial), ('fast start parameters', fast_start),
               ('volume bids', bids(False, CODES)), ('volume bids (attributes)', bids(False, ['BDOF', 'R5RE'])),
               ('price bids', bids(True, CODES)), ('forecasts', forecasts), ('constraint right hand sides', rhs),
               ('constraint types', types_), ('unit factors', factors('unit')), ('region factors', factors('region')),
               ('interconnector factors', factors('interconnector')), ('link availability', links),
               ('violation prices', prices), ('violations', violations)]:
    hist_group('C27', _n, _b)
