"""Proof groups for the NEMDE file of an interval (C26).

Dates are symbolic: a day is an integer, its year, month and day of the month are functions of it that identify it (the
calendar of the standard library is a bijection), a time is the number of minutes since midnight."""
import re
import types
from datetime import timedelta as TD
import z3
from . import core, table
from .core import E, Unsupported, SNum, zb, boolof, b_and, b_or, b_not
from .groups_hist import hist_group, load

INT = z3.IntSort()
YEAR, MONTH, DAY = (z3.Function(n, INT, INT) for n in ('year', 'month', 'day_of_month'))
ORD = z3.Function('ordinal', INT, INT, INT, INT)


def calendar(d):
    y, m, k = YEAR(d), MONTH(d), DAY(d)
    E.assume(z3.And(ORD(y, m, k) == d, y >= 1000, y <= 9999, m >= 1, m <= 12, k >= 1, k <= 31))


class Formatted(str):
    """text with symbolic numbers in it"""


class Part:
    """decimal digits of a number, padded with zeros to a width"""
    ALL = []

    def __init__(self, e, width=0):
        self.e, self.width = e, width
        self.no = len(Part.ALL)
        Part.ALL.append(self)

    def zfill(self, n):
        return Part(self.e, max(n, self.width))

    def rjust(self, n, fill=' '):
        if fill != '0':
            raise Unsupported('padding')
        return self.zfill(n)

    def __format__(self, spec):
        m = re.fullmatch(r'(?:0>(\d+)|0(\d+)d?|)', spec)
        if not m:
            raise Unsupported('format %r' % spec)
        w = int(m.group(1) or m.group(2) or 0)
        return '<%d>' % Part(self.e, max(w, self.width)).no

    def __str__(self):
        return '<%d>' % self.no

    def __add__(self, o):
        return str(self) + str(o)

    def __radd__(self, o):
        return str(o) + str(self)


def minutes(t):
    if isinstance(t, TD):
        s = t.total_seconds() / 60
        if s != int(s):
            raise Unsupported('seconds')
        return z3.IntVal(int(s))
    if isinstance(t, Delta):
        return t.m
    raise Unsupported('time difference %r' % (t,))


class Delta:
    def __init__(self, m):
        self.m = m

    def __truediv__(self, o):
        if isinstance(o, (TD, Delta)):
            return SNum(z3.ToReal(self.m) / z3.ToReal(minutes(o)))
        raise Unsupported('division of a time difference')

    def __floordiv__(self, o):
        k = z3.simplify(minutes(o))
        if not (z3.is_int_value(k) and k.as_long() > 0):
            raise Unsupported('division by a time difference')
        return SNum(self.m / k)

    def __mod__(self, o):
        return Delta(self.m % minutes(o))

    def __add__(self, o):
        return Delta(self.m + minutes(o))

    def __sub__(self, o):
        return Delta(self.m - minutes(o))

    def total_seconds(self):
        return SNum(z3.ToReal(self.m * 60))

    @property
    def days(self):
        return SNum(self.m / 1440)

    @property
    def seconds(self):
        return SNum(self.m % 1440 * 60)


def ival(x):
    x = core.lift(x)
    if not (isinstance(x, SNum) and x.is_int):
        raise Unsupported('whole number expected')
    return x.e


class Ordered:
    def _c(self, o, f):
        if not isinstance(o, Ordered):
            return NotImplemented
        return core.mkb(f(self.key(), o.key()))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._c(o, lambda a, b: a != b)

    __hash__ = None


class Clock(Ordered):
    def __init__(self, hour=0, minute=0, second=0):
        if ival(second) is not None and not core.is_t(z3.simplify(ival(second) == 0)):
            raise Unsupported('seconds')
        self.m = z3.simplify(ival(hour) * 60 + ival(minute))

    def key(self):
        return self.m

    hour = property(lambda s: SNum(s.m / 60))
    minute = property(lambda s: SNum(s.m % 60))
    second = property(lambda s: 0)


class Day(Ordered):
    def __init__(self, d):
        self.d = d
        calendar(d)

    def key(self):
        return self.d

    year = property(lambda s: SNum(YEAR(s.d)))
    month = property(lambda s: SNum(MONTH(s.d)))
    day = property(lambda s: SNum(DAY(s.d)))

    def strftime(self, f):
        out = re.sub('%[a-zA-Z]', lambda x: fmt(self, x.group()), f)
        return out

    def __add__(self, o):
        m = z3.simplify(minutes(o))
        return Day(self.d + m / 1440)

    def __sub__(self, o):
        if isinstance(o, Day):
            return Delta((self.d - o.d) * 1440)
        return self + Delta(-minutes(o))


def fmt(x, c):
    e = {'%Y': (YEAR(x.d), 4), '%m': (MONTH(x.d), 2), '%d': (DAY(x.d), 2)}
    if hasattr(x, 'm'):
        e.update({'%H': (x.m / 60, 2), '%M': (x.m % 60, 2)})
    if c not in e:
        raise Unsupported('date format %s' % c)
    return format(Part(*e[c]), '')


class Moment(Day):
    def __init__(self, d, m):
        Day.__init__(self, d)
        self.m = m

    def key(self):
        return self.d * 1440 + self.m

    hour = property(lambda s: SNum(s.m / 60))
    minute = property(lambda s: SNum(s.m % 60))
    second = property(lambda s: 0)
    microsecond = property(lambda s: 0)

    def time(self):
        return Clock(self.hour, self.minute)

    def date(self):
        return Day(self.d)

    def replace(self, hour=None, minute=None, second=0, microsecond=0):
        return Moment(self.d, Clock(self.hour if hour is None else hour, self.minute if minute is None else minute, second).m)

    def __add__(self, o):
        t = self.m + minutes(o)
        return Moment(self.d + t / 1440, t % 1440)

    def __sub__(self, o):
        if isinstance(o, Moment):
            return Delta(self.key() - o.key())
        return self + Delta(-minutes(o))


def text_of(name):
    """the pieces of a text: fixed parts and (number, width)"""
    out = []
    for i, p in enumerate(re.split(r'<(\d+)>', name)):
        if i % 2:
            q = Part.ALL[int(p)]
            out.append((q.e, q.width))
        elif p:
            out.append(p)
    return out


def cache(which):
    def body():
        xc = load('historical_inputs.xml_cache')
        Part.ALL.clear()
        table.name_of = lambda x: Part(x.e) if isinstance(x, SNum) and x.is_int else x
        SNum.__format__ = lambda self, spec: Part(self.e).__format__(spec)
        D, M = E.fresh('day', INT), E.fresh('minute', INT)
        E.assume(z3.And(M >= 0, M < 1440, M % 5 == 0, D > 1))
        now = Moment(D, M)
        asked = object()

        class DT:
            def __new__(cls, year, month, day, hour=0, minute=0, second=0):
                return Moment(ORD(ival(year), ival(month), ival(day)), Clock(hour, minute, second).m)

            @staticmethod
            def strptime(s, f):
                if s is not asked or f != '%Y/%m/%d %H:%M:%S':
                    raise Unsupported('another date')
                return now

            @staticmethod
            def combine(d, t):
                return Moment(d.d, t.m)
        plain, over = E.fresh('file_present', z3.BoolSort()), E.fresh('rerun_file_present', z3.BoolSort())

        early = M < 245
        day = z3.If(early, D - 1, D)
        calendar(day)
        number = z3.If(early, M + 1440 - 245, M - 245) / 5 + 1
        want = ['NEMSPDOutputs_', (YEAR(day), 4), (MONTH(day), 2), (DAY(day), 2), (number, 3)]

        def is_name(name, tail):
            got, exp = text_of(name), want + [tail]
            if len(got) != len(exp) or any(isinstance(a, str) != isinstance(b, str) or isinstance(a, str) and a != b
                                           for a, b in zip(got, exp)):
                return None
            c = []
            for a, b in zip(got, exp):
                if not isinstance(a, str):
                    c.append(a[0] == b[0])
                    # the year has four digits without padding
                    if a[1] != b[1] and not (b[1] == 4 and a[1] < 4):
                        return None
            return z3.And(*c)

        def exists(path):
            p = str(path)
            if not p.startswith('folder/'):
                return False
            a, b = (is_name(p[len('folder/'):], t) for t in ('00.loaded', '00_OCD.loaded'))
            for c, has in ((a, plain), (b, over)):
                if c is not None and E.sat([z3.Not(c)]) == 'unsat':
                    return E.decide(has)
            # a name that is not one of the interval's
            return E.decide(E.fresh('another_file_present', z3.BoolSort()))
        for n, v in (('datetime', DT), ('time', Clock), ('timedelta', TD)):
            if not hasattr(xc, n):
                raise Unsupported('datetime is used in another way')
            setattr(xc, n, v)
        xc.os = types.SimpleNamespace(path=types.SimpleNamespace(exists=exists, join=lambda *a: '/'.join(map(str, a))))
        m = xc.XMLCacheManager.__new__(xc.XMLCacheManager)
        m.cache_folder, m.interval, m.xml = 'folder', asked, None
        if which == 'name':
            name = m.get_file_name()
            a, b = is_name(name, '00.loaded'), is_name(name, '00_OCD.loaded')
            E.record('C26: form of the file name', 'proved' if a is not None or b is not None else 'refuted', str(text_of(name)))
            if a is not None:
                E.prove('C26: file of the market day and interval number', a)
                E.prove('C26: the re-run file is used where it is the one present', z3.Or(plain, z3.Not(over)))
            elif b is not None:
                E.prove('C26: re-run file of the market day and interval number', b)
                E.prove('C26: the re-run file is used only where it is the one present', z3.And(over, z3.Not(plain)))
            p = str(m.get_file_path())
            E.record('C26: the file lies in the cache folder', 'proved' if p.startswith('folder/') and
                     (is_name(p[7:], '00.loaded') is not None) == (a is not None) else 'refuted')
            got = m.interval_inputs_in_cache()
            E.prove('C26: a file is reported exactly when one is present', zb(boolof(got)) == z3.Or(plain, over))
            E.prove('C26: interval numbers are 1 to 288', z3.And(number >= 1, number <= 288))
            # two intervals never share a file name
            D2, M2 = E.fresh('day', INT), E.fresh('minute', INT)
            day2 = z3.If(M2 < 245, D2 - 1, D2)
            calendar(day2)
            number2 = z3.If(M2 < 245, M2 + 1440 - 245, M2 - 245) / 5 + 1
            E.prove('C26: two intervals never share a name', z3.And(D == D2, M == M2), [
                M2 >= 0, M2 < 1440, M2 % 5 == 0, YEAR(day) == YEAR(day2), MONTH(day) == MONTH(day2), DAY(day) == DAY(day2),
                number == number2])
            return
        # loading an interval: the file of that interval is opened, after a download where none is present
        opened, fetched = [], []

        class File:
            def __init__(self, p):
                opened.append(str(p))

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def read(self):
                return self
        xc.open = lambda p, *a, **k: File(p)
        xc.xmltodict = types.SimpleNamespace(parse=lambda r, *a, **k: r)
        m.interval = None

        def fetch():
            fetched.append(m.interval)
            nonlocal plain, over
            plain, over = E.fresh('fetched', z3.BoolSort()), E.fresh('fetched_rerun', z3.BoolSort())
        m._download_xml_from_nemweb = fetch
        before = z3.Or(plain, over)
        try:
            m.load_interval(asked)
        except xc.MissingDataError:
            E.prove('C26: an error is raised only where no file of the interval is there', z3.Not(z3.Or(plain, over)))
            E.record('C26: a missing file is fetched first', 'proved' if fetched == [asked] else 'refuted')
            return
        E.record('C26: one file is read', 'proved' if len(opened) == 1 and opened[0].startswith('folder/') and m.xml is not None and
                 m.interval is asked else 'refuted')
        c = [x for x in (is_name(opened[0][7:], '00.loaded'), is_name(opened[0][7:], '00_OCD.loaded')) if x is not None]
        E.prove('C26: the file read is that of the interval', z3.Or(*c) if c else z3.BoolVal(False))
        E.prove('C26: nothing is fetched where a file is there', z3.Not(before) if fetched else before)
    return body


hist_group('C26', 'file name', cache('name'))
hist_group('C26', 'loading an interval', cache('load'))
