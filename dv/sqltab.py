"""A ghost database: the statements of the subset of SQL that mms_db.py sends, executed on symbolic tables.

CREATE [TEMPORARY] TABLE x AS SELECT, DROP TABLE, SELECT columns | * | MAX(c)/MIN(c) FROM a [INNER JOIN b USING | ON] WHERE
comparisons GROUP BY columns.  Text comparisons of dates are comparisons of times (assumption: dates are zero-padded text of one
format, so that the order of the text is the order of the times).  Everything else raises Unsupported (undecided)."""
import re
from . import core, table
from .core import E, Unsupported, b_and, b_or, b_not, zb, boolof
from .table import DF, Seg, range_index

TOKEN = re.compile(r"\s*(?:('(?:[^']|'')*')|(\d+(?:\.\d+)?)|([A-Za-z_][A-Za-z_0-9]*(?:\.[A-Za-z_*][A-Za-z_0-9]*)?)|(\"[^\"]*\")|"
                   r"(<=|>=|==|!=|<>|\|\||[(),;*<>=?]))")
WORDS = {'SELECT', 'FROM', 'WHERE', 'GROUP', 'BY', 'INNER', 'JOIN', 'ON', 'USING', 'AS', 'AND', 'OR', 'NOT', 'ORDER', 'LIMIT',
         'HAVING', 'LEFT', 'OUTER', 'CROSS', 'NATURAL', 'UNION', 'EXCEPT', 'INTERSECT', 'IN', 'IS', 'BETWEEN', 'LIKE', 'DISTINCT'}


class Broken(Exception):
    """the statement fails in the database"""


def fail(why):
    E.record('C25: the statements are valid', 'refuted', why)
    raise Unsupported('the statement fails: ' + why)


class Source:
    """rows of a FROM clause: DF, columns hidden by a join (second column of a name), qualifiers"""

    def __init__(self, df, alias=(), hidden=()):
        self.df, self.alias, self.hidden = df, set(alias), set(hidden)


class Parser:
    def __init__(self, con, text, params=()):
        self.con, self.params = con, list(params)
        self.toks, i = [], 0
        text = text.rstrip()
        while i < len(text):
            m = TOKEN.match(text, i)
            if not m:
                raise Unsupported('SQL at %r' % text[i:i + 20])
            i = m.end()
            self.toks.append(m.group().strip())
        self.i = 0

    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else ''

    def up(self, k=0):
        return self.peek(k).upper()

    def take(self, *want):
        t = self.peek()
        if want and t.upper() not in want:
            raise Unsupported('SQL: %r where %s was expected' % (t, '/'.join(want)))
        self.i += 1
        return t

    def opt(self, *words):
        """all of the words, if they come next"""
        if all(self.up(k) == w for k, w in enumerate(words)):
            self.i += len(words)
            return True
        return False

    def name(self):
        t = self.take()
        if t.startswith('"'):
            return t[1:-1]
        if not re.match(r'[A-Za-z_]', t) or t.upper() in WORDS:
            raise Unsupported('SQL name %r' % t)
        return t

    def names(self):
        self.take('(')
        out = [self.name()]
        while self.opt(','):
            out.append(self.name())
        self.take(')')
        return out

    # ------------------------------------------------ statements
    def statement(self):
        out = None
        if self.opt('DROP', 'TABLE'):
            maybe = self.opt('IF', 'EXISTS')
            n = self.name()
            if not self.con.drop(n) and not maybe:
                fail('no table %s' % n)
        elif self.opt('CREATE'):
            temp = self.opt('TEMPORARY') or self.opt('TEMP')
            self.take('TABLE')
            maybe = self.opt('IF', 'NOT', 'EXISTS')
            n = self.name()
            self.take('AS')
            d = self.select()
            if self.con.has(n, temp):
                if not maybe:
                    fail('table %s already exists' % n)
            else:
                self.con.put(n, d, temp)
        else:
            out = self.select()
        self.opt(';')
        if self.i < len(self.toks):
            raise Unsupported('SQL: %r after the statement' % self.peek())
        return out

    def select(self):
        self.take('SELECT')
        distinct = self.opt('DISTINCT')
        items = [self.item()]
        while self.opt(','):
            items.append(self.item())
        self.take('FROM')
        src = self.source()
        while True:
            inner = self.opt('INNER', 'JOIN') or self.opt('JOIN')
            if not inner:
                break
            src = self.join(src, self.term())
        d = src.df
        if self.opt('WHERE'):
            cond = self.condition(src)
            segs = []
            for s in d.segs:
                g = cond(s.vals)
                if not core.is_f(g):
                    segs.append(s.clone(guard=s.guard + [x for x in [g] if not core.is_t(x)]))
            d = DF(segs, d._cols, range_index(segs))
        by = None
        if self.opt('GROUP', 'BY'):
            by = [self.column(self.name(), src)]
            while self.opt(','):
                by.append(self.column(self.name(), src))
        if self.opt('ORDER', 'BY'):
            # the order of the rows is not part of what is proved
            while True:
                self.column(self.name(), src)
                self.opt('ASC') or self.opt('DESC')
                if not self.opt(','):
                    break
        if self.up() in WORDS and self.up() != ')':
            raise Unsupported('SQL %s' % self.peek())
        out = self.project(d, items, src, by)
        return out.drop_duplicates() if distinct else out

    def item(self):
        if self.peek() == '*':
            self.take()
            return ('*', None, None)
        if self.up() in ('MAX', 'MIN', 'COUNT', 'SUM', 'AVG', 'TOTAL') and self.peek(1) == '(':
            f = self.take().upper()
            self.take('(')
            c = self.name()
            self.take(')')
            it = (f, c, f + '(' + c + ')')
        else:
            c = self.name()
            it = ('col', c, c.split('.')[-1])
        if self.opt('AS'):
            it = it[:2] + (self.name(),)
        return it

    def project(self, d, items, src, by):
        agg = [x for x in items if x[0] not in ('*', 'col')]
        if agg or by is not None:
            if by is None:
                raise Unsupported('SQL aggregate without GROUP BY')
            if len(agg) > 1 or any(x[0] not in ('MAX', 'MIN') for x in agg):
                raise Unsupported('SQL aggregates %r' % agg)
            for s in d.segs:
                for c in by + [self.column(x[1], src) for x in agg]:
                    if not core.is_f(core.isnull(s.vals[c])):
                        raise Unsupported('SQL GROUP BY over missing values')
            d = extreme_rows(d, by, [(self.column(x[1], src), x[0] == 'MAX') for x in agg])
        cols = []
        for f, c, n in items:
            if f == '*':
                for x in d._cols:
                    cols.append((x, x))
            else:
                cols.append((self.column(c, src), n))
        if len({n.upper() for _, n in cols}) != len(cols):
            raise Unsupported('SQL: columns named alike')
        segs = [Seg(s.binders, s.guard, {n: s.vals[c] for c, n in cols}) for s in d.segs]
        return DF(segs, [n for _, n in cols], range_index(segs))

    # ------------------------------------------------ FROM
    def source(self):
        s = self.term()
        while self.opt('INNER', 'JOIN') or self.opt('JOIN'):
            s = self.join(s, self.term())
        return s

    def term(self):
        if self.opt('('):
            if self.up() == 'SELECT':
                s = Source(self.select())
            else:
                s = self.source()
            self.take(')')
        else:
            n = self.name()
            d = self.con.get(n)
            if d is None:
                fail('no table %s' % n)
            s = Source(d, [n])
        if self.opt('AS') or re.match(r'[A-Za-z_]', self.peek()) and self.up() not in WORDS:
            s = Source(s.df, [self.name()], s.hidden)
        return s

    def join(self, a, b):
        both = [c for c in b.df._cols if c in a.df._cols]
        if self.opt('USING'):
            on = [self.column(c, a) for c in self.names()]
            for c in on:
                if c not in b.df._cols:
                    fail('no column %s in both tables' % c)
            right = b.df.rename(columns={c: c + ':1' for c in both if c not in on})
            d = table.merge(a.df, right, 'inner', on)
            return Source(d, a.alias | b.alias, a.hidden | b.hidden | {c for c in both if c not in on})
        self.take('ON')
        right = b.df.rename(columns={c: c + ':1' for c in both})
        names = {c: c + ':1' for c in both}
        pairs, paren = [], self.opt('(')
        while True:
            x, y = self.name(), None
            self.take('=', '==')
            y = self.name()
            pairs.append(self.side(x, y, a, b, names))
            if not self.opt('AND'):
                break
        if paren:
            self.take(')')
        if self.up() in ('OR', 'NOT'):
            raise Unsupported('SQL join condition')
        d = table.merge(a.df, right, 'inner', left_on=[x for x, _ in pairs], right_on=[y for _, y in pairs])
        return Source(d, a.alias | b.alias, a.hidden | b.hidden | set(both))

    def side(self, x, y, a, b, names):
        def of(c):
            q, n = c.split('.') if '.' in c else (None, c)
            if q is not None:
                inn = [s for s in (a, b) if q in s.alias]
            else:
                inn = [s for s in (a, b) if n.upper() in {k.upper() for k in s.df._cols}]
            if not inn:
                fail('no column %s' % c)
            if len(inn) > 1:
                fail('ambiguous column %s' % c)
            return inn[0], next((k for k in inn[0].df._cols if k.upper() == n.upper()), None)
        (s, c), (t, e) = of(x), of(y)
        if c is None or e is None:
            fail('no column %s, %s' % (x, y))
        if s is t:
            raise Unsupported('SQL join condition on one table')
        if s is b:
            c, e = e, c
        return c, names.get(e, e)

    def column(self, c, src):
        q, n = c.split('.') if '.' in c else (None, c)
        if q is not None and q not in src.alias:
            fail('no table %s' % q)
        for k in src.df._cols:
            if k.upper() == n.upper():
                if k in src.hidden:
                    if q is None:
                        fail('ambiguous column %s' % c)
                    raise Unsupported('SQL: qualified name of a repeated column')
                return k
        fail('no column %s' % c)

    # ------------------------------------------------ WHERE
    def condition(self, src):
        a = self.conjunction(src)
        while self.opt('OR'):
            b = self.conjunction(src)
            a = (lambda x, y: lambda v: b_or(x(v), y(v)))(a, b)
        return a

    def conjunction(self, src):
        a = self.negation(src)
        while self.opt('AND'):
            b = self.negation(src)
            a = (lambda x, y: lambda v: b_and(x(v), y(v)))(a, b)
        return a

    def negation(self, src):
        if self.opt('NOT'):
            a = self.negation(src)
            return lambda v: b_not(a(v))
        if self.peek() == '(':
            self.take()
            a = self.condition(src)
            self.take(')')
            return a
        x = self.operand(src)
        if self.opt('BETWEEN'):
            lo = self.operand(src)
            self.take('AND')
            hi = self.operand(src)
            return lambda v: b_and(compare(lo(v), x(v), '<='), compare(x(v), hi(v), '<='))
        op = self.take('=', '==', '!=', '<>', '<', '<=', '>', '>=')
        y = self.operand(src)
        return lambda v: compare(x(v), y(v), op)

    def operand(self, src):
        t = self.peek()
        if t == '?':
            self.take()
            p = self.con.literal(self.params.pop(0))
            return lambda v: p
        if t.startswith("'"):
            self.take()
            p = self.con.literal(t[1:-1])
            return lambda v: p
        if re.match(r'\d', t):
            self.take()
            p = float(t) if '.' in t else int(t)
            return lambda v: p
        c = self.column(self.name(), src)
        return lambda v: v[c]


def compare(x, y, op):
    for z in (x, y):
        if not core.is_f(core.isnull(z)):
            raise Unsupported('SQL comparison of a missing value')
    op = {'==': '=', '<>': '!='}.get(op, op)
    if op in ('=', '!='):
        r = boolof(core.same(x, y))
        return b_not(r) if op == '!=' else r
    if isinstance(x, (str, core.SStr)) or isinstance(y, (str, core.SStr)):
        raise Unsupported('SQL order of text')
    if op in ('>', '>='):
        x, y = y, x
    return boolof(core.num_cmp(x, y, 'le' if op in ('<=', '>=') else 'lt'))


def extreme_rows(d, by, ext):
    """one row of each group (columns outside of an aggregate take the values of a row that attains the maximum or minimum)"""
    out = d.drop_duplicates(subset=by)
    for c, up in ext:
        table.rep_attains(d.segs, out.segs, by, c, up)
    return out


class Cursor:
    def __init__(self, con):
        self.con = con

    def execute(self, text, params=()):
        self.result = self.con.run(text, params)
        return self

    def close(self):
        pass


class Connection:
    """tables: main and temporary; literals: text of the statement -> symbolic value"""

    def __init__(self, tables, literals):
        self.main, self.temp, self.literals = dict(tables), {}, literals

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def cursor(self):
        return Cursor(self)

    def commit(self):
        pass

    def execute(self, text, params=()):
        return Cursor(self).execute(text, params)

    def literal(self, s):
        if s in self.literals:
            return self.literals[s]
        raise Unsupported('SQL literal %r' % (s,))

    def run(self, text, params=()):
        return Parser(self, text, params).statement()

    def find(self, n):
        for t in (self.temp, self.main):
            for k in t:
                if k.upper() == n.upper():
                    return t, k
        return None, None

    def get(self, n):
        t, k = self.find(n)
        return None if t is None else t[k]

    def has(self, n, temp):
        return any(k.upper() == n.upper() for k in (self.temp if temp else self.main))

    def put(self, n, d, temp):
        (self.temp if temp else self.main)[n] = d

    def drop(self, n):
        t, k = self.find(n)
        if t is None:
            return False
        del t[k]
        return True


def read_sql_query(sql, con, params=None, **k):
    if k:
        raise Unsupported('read_sql_query options')
    d = con.run(sql, params or ())
    if d is None:
        raise Unsupported('read_sql_query of a statement without a result')
    return d
