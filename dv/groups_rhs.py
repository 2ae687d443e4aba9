"""Proof groups for the right hand side calculator (C28), against spec/hist_spec.rpn."""
import z3
from . import core, loader
from .core import E, Unsupported, boolof, zb, lit
from .loops import Loop, Text, real, number
from .groups_hist import hist_group, load
from spec import hist_spec as hs

OTHER = ['A', 'S', 'R', 'I', 'W', 'T', 'E', 'M', 'N', 'X']


class Opaque:
    """elements between the addressed ones, any number of them"""


class Stack:
    """a stack of three or more elements: head elements, any number of others, tail elements"""

    def __init__(self, head, mid, tail):
        self.head, self.mid, self.tail = list(head), mid, list(tail)
        self.n = E.fresh('between', z3.IntSort())
        E.assume(self.n >= 0)

    def symlen(self):
        return core.SNum(self.n + len(self.head) + len(self.tail))

    def _at(self, i):
        if isinstance(i, bool) or not isinstance(i, int):
            raise Unsupported('stack position')
        if 0 <= i < len(self.head):
            return self.head, i
        if i < 0 and -i <= len(self.tail):
            return self.tail, i
        raise Unsupported('stack position %d of a deep stack' % i)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is None and i.stop is None and isinstance(i.start, int) and 0 <= i.start <= len(self.head):
                s = Stack(self.head[i.start:], self.mid, self.tail)
                s.n = self.n
                return s
            raise Unsupported('slice of a deep stack')
        l, j = self._at(i)
        return l[j]

    def __setitem__(self, i, v):
        l, j = self._at(i)
        l[j] = v

    def __delitem__(self, i):
        l, j = self._at(i)
        del l[j]

    def pop(self, i=-1):
        l, j = self._at(i)
        return l.pop(j)

    def insert(self, i, v):
        if isinstance(i, int) and 0 <= i <= len(self.head):
            self.head.insert(i, v)
        else:
            raise Unsupported('insertion into a deep stack')

    def append(self, v):
        self.tail.append(v)

    def __add__(self, o):
        s = Stack(self.head, self.mid, self.tail + list(o))
        s.n = self.n
        return s

    def __radd__(self, o):
        s = Stack(list(o) + self.head, self.mid, self.tail)
        s.n = self.n
        return s

    def copy(self):
        s = Stack(self.head, self.mid, self.tail)
        s.n = self.n
        return s

    def __bool__(self):
        return True

    def __iter__(self):
        raise Unsupported('iteration over a deep stack')


def applicable(op, kind, value, n):
    """terms the implementation guidelines define on a stack of this size"""
    if op in hs.STACK_ONLY and kind != 'U' or op in ('POP', 'STEP') and kind == 'C' or op == 'PUSH' and kind == 'U':
        return False
    if kind == 'V' and value is None and op in hs.UNARY[1:] + ['POP']:
        return False
    if n == 0 and (op in hs.BINARY + hs.UNARY[1:] + ['DUP'] or op in ('POP', 'STEP') and kind == 'U'):
        return False
    return True


def fork(name):
    return E.decide(E.fresh(name, z3.BoolSort()))


def choose(name, xs):
    for x in xs[:-1]:
        if fork('%s_%s' % (name, x)):
            return x
    return xs[-1]


def maybe_text(name):
    return Text(name) if fork(name + '_text') else real(name)


def one_term(op):
    """the loop of _rpn_stack for terms with this operation: for every stack, every term without group"""
    def body():
        rc = load('historical_inputs.rhs_calculator')
        tok = {}

        def enter(loc):
            st = [k for k, v in loc.items() if isinstance(v, list) and len(v) == 1 and not hasattr(v[0], 'e') and v[0] == 0.0]
            fl = [k for k, v in loc.items() if v is False]
            if len(st) != 1 or len(fl) != 1:
                raise Unsupported('the stack and the flag of the loop are not recognised')
            E.record('C28: evaluation starts with a single zero', 'proved')
            return dict(stack=st[0], flag=fl[0])

        def havoc(names, more):
            n = choose('size', ['none', 'one', 'two', 'four', 'more'])
            a, b, z = real('first'), real('second'), real('last')
            st = dict(none=[], one=[a], two=[a, b], four=[a, b, real('third'), z]).get(n)
            if st is None:
                mid = Opaque()
                st = Stack([a, b], mid, [z])
                tok.update(mid=mid)
            size = dict(none=0, one=1).get(n, 2)
            tok.update(n=size, first=a if size else None, second=b if size == 2 else None,
                       last=dict(one=a, two=b, four=z, more=z).get(n), deep=n == 'more', flag=fork('flag'))
            tok['before'] = st.copy()
            tok['object'] = st
            return {names['stack']: st, names['flag']: tok['flag']}, tok

        def element(tok):
            kind = choose('kind', ['U', 'C', 'V'])
            if kind == 'V':
                ty = core.SStr(E.fresh('type', z3.IntSort()), dom=tuple(OTHER))
                E.assume(z3.Or(*[ty.e == lit(x) for x in OTHER]))
            else:
                ty = kind
            t = {'@SpdID': core.SStr(E.fresh('id', z3.IntSort())), '@SpdType': ty, '@Multiplier': Text('multiplier'),
                 '@Default': Text('default')}
            if op is not None:
                t['@Operation'] = op
            v = None
            if kind == 'V' and fork('valued') or kind == 'U' and op is None and fork('valued'):
                v = t['@Value'] = maybe_text('value')
            if not applicable(op, kind, v, tok['n']):
                raise core.Infeasible()
            m = number(t['@Multiplier'])
            used = None if v is None else number(v)
            if kind == 'V' and v is None and op is not None:
                used = number(t['@Default'])
            arg = tok['first'] if kind == 'U' else m if kind == 'C' else used
            if op == 'DIV':
                E.assume(arg.e != 0)
            if op == 'SQRT':
                E.assume(arg.e >= 0)
            tok.update(term=t, copy=dict(t), kind=kind, mult=m, value=used, op=op)
            return t

        def want():
            r = hs.rpn(tok['op'], tok['kind'], tok['n'], tok['first'], tok['second'], tok['last'], tok['mult'], tok['value'],
                       tok['flag'])
            if r == hs.REJECT:
                return r
            head, drop, droplast, tail, f = r
            if tok['deep']:
                h, l = tok['before'].head, tok['before'].tail
                return head + h[drop:], (l[:-1] if droplast else l) + tail, f
            b = tok['before'][drop:]
            return head + (b[:-1] if droplast else b) + tail, [], f
        name = 'C28: %s: ' % (op or 'no operation')

        def step(loc, tok):
            w = want()
            if w == hs.REJECT:
                E.record(name + 'a stack that is too short is refused', 'refuted', 'no error on a stack of %d' % tok['n'])
                return
            st = loc['stack']
            if isinstance(st, list) and not tok['deep']:
                got, tail = st, []
            elif isinstance(st, Stack) and tok['deep'] and st.mid is tok['mid']:
                got, tail = st.head, st.tail
            else:
                raise Unsupported('the stack after the term')
            E.record(name + 'size of the stack', 'proved' if (len(got), len(tail)) == (len(w[0]), len(w[1])) else 'refuted',
                     '%d and %d elements, expected %d and %d' % (len(got), len(tail), len(w[0]), len(w[1])))
            for part, g, e in (('from the top', got, w[0]), ('at the bottom', tail, w[1])):
                for i, (x, y) in enumerate(zip(g, e)):
                    E.prove(name + 'element %d %s' % (i, part), zb(boolof(core.eq(core.lift(x), core.lift(y)))))
            E.prove(name + 'flag', zb(boolof(core.lift(loc['flag'])) == boolof(core.lift(w[2])))
                    if not isinstance(boolof(core.lift(w[2])), bool) or not isinstance(boolof(core.lift(loc['flag'])), bool)
                    else zb(boolof(core.lift(loc['flag'])) == boolof(core.lift(w[2]))))
            same = set(tok['term']) == set(tok['copy']) and all(tok['term'][k] is v for k, v in tok['copy'].items())
            E.record(name + 'the term is left as it was', 'proved' if same else 'refuted')

        loop = Loop(enter, havoc, element, step, where=['_rpn_stack'])
        rc._clear_group_values = lambda eq: eq if eq is loop else None
        try:
            out = rc._rpn_stack(loop)
        except ValueError:
            E.record(name + 'a stack that is too short is refused', 'proved' if tok.get('term') is not None and
                     want() == hs.REJECT else 'refuted', 'refused a stack of %s' % tok.get('n'))
            return
        E.record('C28: the result is the stack after the last term', 'proved' if out is tok['object'] else 'unknown')
    return body


for o in [None] + hs.UNARY + hs.BINARY + ['PUSH', 'POP'] + hs.STACK_ONLY:
    hist_group('C28', 'one term, ' + (o or 'no operation'), one_term(o))


# ------------------------------------------------------------------ values of terms
class Lookup:
    """a dictionary seen through one key: the key may be in it, with the given value; writes are recorded"""

    def __init__(self, name, key, value, present=None):
        self.name, self.key, self.value = name, key, value
        self.has = E.fresh('in_' + name, z3.BoolSort()) if present is None else z3.BoolVal(present)
        self.writes = []

    def _known(self, k):
        if k is not self.key:
            raise Unsupported('another key of %s' % self.name)

    def __contains__(self, k):
        self._known(k)
        return E.decide(self.has)

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(self.name)
        return self.value

    def get(self, k, default=None):
        return self.value if k in self else default

    def keys(self):
        return self

    def __setitem__(self, k, v):
        self._known(k)
        self.writes.append(v)

    def __delitem__(self, k):
        raise Unsupported('deletion from %s' % self.name)


class Types:
    """telemetry by type: the entries of the identifier asked for"""

    def __init__(self, kind, ids):
        self.kind, self.ids = kind, ids

    def __getitem__(self, t):
        if not (t is self.kind or isinstance(t, str) and E.decide(zb(boolof(core.eq(core.lift(t), core.lift(self.kind)))))):
            raise Unsupported('telemetry of another type')
        return self.ids

    def __contains__(self, t):
        self[t]
        return True

    def get(self, t, default=None):
        return self[t]

    def keys(self):
        return self


def zero_local(loc):
    z = [k for k, v in loc.items() if type(v) in (int, float) and v == 0]
    if len(z) != 1:
        raise Unsupported('the accumulator is not recognised')
    return dict(acc=z[0])


class Entries(Loop):
    """telemetry entries of one identifier, at least one"""

    def __init__(self, total):
        self.n = E.fresh('entries', z3.IntSort())
        E.assume(self.n >= 1)
        self.item = None

        def havoc(names, more):
            return {names['acc']: real('partial') if more else total}, {}

        def hv(names, more):
            v, tok = havoc(names, more)
            tok['old'] = v[names['acc']]
            return v, tok

        def element(tok):
            x = maybe_text('entry')
            tok['x'] = number(x)
            d = {'@Value': x, '@GoodValues': fork('good')}
            if d['@GoodValues']:
                d['@EMS_ID'] = core.SStr(E.fresh('ems', z3.IntSort()))
            return d

        def step(loc, tok):
            E.prove('C28: every telemetry entry is added once', zb(boolof(core.eq(core.asnum(loc['acc']), core.num_add(
                tok['old'], tok['x'])))))
        Loop.__init__(self, zero_local, hv, element, step)

    def symlen(self):
        return core.SNum(self.n)

    def __getitem__(self, i):
        if i != 0:
            raise Unsupported('telemetry entry %r' % (i,))
        if self.item is None:
            self.item = {'@Value': maybe_text('entry'), '@GoodValues': True}
        return self.item


ALL_TYPES = OTHER + ['C', 'G', 'U', 'B']
STORES = dict(T='unit_initial_mw', E='entered_values', X='generic_equations', M='msnsp_from_availbility',
              N='msnsp_to_availbility')


def calculator(types):
    rc = load('historical_inputs.rhs_calculator')
    c = rc.RHSCalc.__new__(rc.RHSCalc)
    ty = core.SStr(E.fresh('type', z3.IntSort()), dom=tuple(types))
    E.assume(z3.Or(*[ty.e == lit(x) for x in types]))
    key = core.SStr(E.fresh('id', z3.IntSort()))
    total = real('total')
    entries = Entries(total)
    c.scada_data = Types(ty, Lookup('scada', key, entries, True))
    st = {}
    for t, n in STORES.items():
        st[t] = Lookup(n, key, object() if t == 'X' else maybe_text(n) if types == [t] else Text(n))
        setattr(c, n, st[t])
    return rc, c, ty, key, total, entries, st


def term_values(kinds):
    kind = choose('kind', kinds)
    rc, c, ty, key, total, entries, st = calculator([kind])
    gen = real('generic')
    c._compute_generic_equation = lambda k: gen if k is key else None
    tok = {}

    def element(t):
        d = {'@SpdID': key, '@SpdType': ty, '@Multiplier': Text('multiplier'), '@Default': Text('default')}
        if fork('op'):
            d['@Operation'] = core.SStr(E.fresh('op', z3.IntSort()))
            d['@GroupTerm'] = core.SStr(E.fresh('group', z3.IntSort()))
        if fork('valued'):
            d['@Value'] = Text('file_value')
        tok.update(term=d, copy=dict(d))
        return d

    def step(loc, t):
        d, old = tok['term'], tok['copy']
        E.record('C28: only the value of a term is set', 'proved' if all(d.get(k) is v for k, v in old.items() if k != '@Value') and
                 set(d) - {'@Value'} == set(old) - {'@Value'} else 'refuted')
        if kind in 'ASRIW':
            has, val = True, total
        elif kind in STORES:
            has, val = st[kind].has, gen if kind == 'X' else number(st[kind].value)
        else:
            has, val = False, None
        if '@Value' not in d:
            E.prove('C28: a term with a source gets its value (%s)' % kind, zb(core.b_not(has)))
            return
        if d['@Value'] is None or val is None or d['@Value'] is old.get('@Value'):
            E.prove('C28: a term with a source gets its value (%s)' % kind, zb(core.b_not(has)))
            E.record('C28: a term without source keeps its value (%s)' % kind, 'proved' if d['@Value'] is old.get('@Value') else
                     'refuted')
            return
        E.prove('C28: a term without source keeps its value (%s)' % kind, zb(core.b_or(has)))
        E.prove('C28: value of a term of type %s' % kind, zb(boolof(core.eq(number(d['@Value']), val))))

    loop = Loop(lambda loc: {}, lambda names, more: ({}, tok), element, step)
    out = c._resolve_term_values(loop)
    E.record('C28: the terms given are the ones resolved', 'proved' if out is loop else 'unknown')
    for s in st.values():
        E.record('C28: reading a value changes nothing', 'refuted' if s.writes else 'proved')


def updates(kinds):
    kind = choose('kind', kinds)
    rc, c, ty, key, total, entries, st = calculator([kind])
    new = maybe_text('new')
    item = entries[0]
    old = dict(item)
    try:
        c.update_spd_id_value(key, ty, new)
        refused = False
    except ValueError:
        refused = True
    single = kind in 'ASIW'
    ok = entries.n == 1 if single else st[kind].has if kind in STORES and kind != 'X' else z3.BoolVal(False)
    E.prove('C28: a value is updated exactly when it is a single one that exists (%s)' % kind, zb(z3.Not(ok) if refused else ok))
    for t, s in st.items():
        want = [new] if t == kind and not refused else []
        E.record('C28: the value of type %s is set by an update of type %s' % (t, kind), 'proved' if len(s.writes) == len(want) and
                 all(a is b for a, b in zip(s.writes, want)) else 'refuted')
    want = dict(old, **{'@Value': new}) if single and not refused else old
    E.record('C28: telemetry after an update of type %s' % kind, 'proved' if set(item) == set(want) and all(
        item[k] is want[k] for k in want) and not c.scada_data.ids.writes else 'refuted')


class Column(list):
    """a list of results built by the loop over equations: earlier ones, then the new one"""


def evaluated():
    rc, c, ty, key, total, entries, st = calculator(ALL_TYPES)
    eq, res, val = object(), object(), real('result')
    which = choose('which', ['generic', 'one', 'many'])
    calls = []

    def resolve(e):
        calls.append('resolve')
        return res if e is eq else Unsupported

    def calc(e):
        calls.append('calc')
        if e is not res:
            raise Unsupported('evaluation of something else')
        return val
    c._resolve_term_values = resolve
    rc._rpn_calc = calc
    c.generic_equations = Lookup('generic_equations', key, eq, which == 'generic')
    c.rhs_constraint_equations = Lookup('rhs_constraint_equations', key, eq, which != 'generic')
    if which == 'generic':
        out = c._compute_generic_equation(key)
    elif which == 'one':
        out = c.compute_constraint_rhs(key)
    else:
        tok = {}

        def enter(loc):
            n = [k for k, v in loc.items() if type(v) is list and v == []]
            if len(n) != 1:
                raise Unsupported('the results of the loop are not recognised')
            return dict(rhs=n[0])

        def havoc(names, more):
            tok['list'] = Column([real('earlier')])
            tok['old'] = list(tok['list'])
            return {names['rhs']: tok['list']}, tok

        def step(loc, t):
            v = loc['rhs']
            ok = v is tok['list'] and len(v) == 2 and v[0] is tok['old'][0] and v[1] is val and calls == ['resolve', 'calc']
            E.record('C28: one result is added for every equation', 'proved' if ok else 'refuted')
        loop = Loop(enter, havoc, lambda t: key, step)

        class PD:
            @staticmethod
            def DataFrame(d):
                E.record('C28: table of results', 'proved' if list(d) == ['set', 'rhs'] and d['set'] is loop and
                         d['rhs'] is tok['list'] else 'refuted')
                return 'table'
        rc.pd = PD
        out = c.compute_constraint_rhs(loop)
        E.record('C28: a list of sets gives a table', 'proved' if out == 'table' else 'refuted')
        return
    E.record('C28: the value of an equation is the evaluation of its resolved terms (%s)' % which,
             'proved' if out is val and calls == ['resolve', 'calc'] else 'refuted')


def result():
    rc = load('historical_inputs.rhs_calculator')
    eq, st = object(), Stack([real('top')], Opaque(), [])
    rc._rpn_stack = lambda e: st if e is eq else None
    E.record('C28: the value of an equation is the top of the stack', 'proved' if rc._rpn_calc(eq) is st.head[0] else 'refuted')


def cleared():
    rc = load('historical_inputs.rhs_calculator')
    tok = {}

    def element(t):
        kind = choose('kind', ALL_TYPES)
        d = {'@SpdType': kind, '@Multiplier': Text('multiplier')}
        for k in ('@GroupTerm', '@Operation', '@Value'):
            if fork(k):
                d[k] = maybe_text('x')
        tok.update(term=d, copy=dict(d))
        return d

    def step(loc, t):
        want = {k: v for k, v in tok['copy'].items() if not (k == '@Value' and tok['copy']['@SpdType'] == 'G')}
        d = tok['term']
        E.record('C28: only values of group terms are cleared', 'proved' if set(d) == set(want) and all(
            d[k] is v for k, v in want.items()) else 'refuted')
    rc._clear_group_values(Loop(lambda loc: {}, lambda n, more: ({}, tok), element, step))


for ks, what in ((list('ASRIW'), 'telemetry'), (['T', 'E'], 'initial output and entered values'), (['X', 'M', 'N'], 'equations '
                 'and links'), (list('CGUB'), 'no source')):
    hist_group('C28', 'values of terms: ' + what, lambda ks=ks: term_values(ks))
    hist_group('C28', 'updated values: ' + what, lambda ks=ks: updates(ks))
hist_group('C28', 'value of an equation', evaluated)
hist_group('C28', 'result of an equation', result)
hist_group('C28', 'group values cleared', cleared)
