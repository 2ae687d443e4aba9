"""Specification of the historical input processing, stated per generic row of the tables it starts from.
Evaluated on concrete rows (conc/hist.py) and on symbolic rows (dv/groups_hist.py)."""
from .ops import And, Or, Not, If, null, Min, Max, isin

SERVICE = {'ENERGY': 'energy', 'RAISEREG': 'raise_reg', 'LOWERREG': 'lower_reg', 'RAISE6SEC': 'raise_6s',
           'RAISE1SEC': 'raise_1s', 'RAISE60SEC': 'raise_60s', 'RAISE5MIN': 'raise_5min', 'LOWER6SEC': 'lower_6s',
           'LOWER1SEC': 'lower_1s', 'LOWER60SEC': 'lower_60s', 'LOWER5MIN': 'lower_5min'}
BIDTYPES = list(SERVICE)
REG = ['RAISEREG', 'LOWERREG']
TRAP = ['MAXAVAIL', 'ENABLEMENTMIN', 'LOWBREAKPOINT', 'HIGHBREAKPOINT', 'ENABLEMENTMAX']
TRADERS = ['GENERATOR', 'LOAD', 'NORMALLY_ON_LOAD', 'WDR', 'BIDIRECTIONAL']


class Out:
    """expected output row: present when guard holds, with these values"""

    def __init__(self, guard, vals):
        self.guard, self.vals = guard, vals


def reg(r):
    return isin(r.BIDTYPE, REG)


# ------------------------------------------------------------------ C20
def trap(r):
    return {c: r[c] for c in TRAP}


def agc_limits(ctx, r, t):
    """regulation trapezium narrowed to AGC limits that are tighter and positive"""
    a = ctx.t('agc')

    def narrowed():
        d = a.get(('DUID',), (r.DUID,))
        lo = If(r.BIDTYPE == 'RAISEREG', d.RAISEREGENABLEMENTMIN, d.LOWERREGENABLEMENTMIN)
        hi = If(r.BIDTYPE == 'RAISEREG', d.RAISEREGENABLEMENTMAX, d.LOWERREGENABLEMENTMAX)
        tl = And(lo > t['ENABLEMENTMIN'], lo > 0.0)
        th = And(hi < t['ENABLEMENTMAX'], hi > 0.0)
        return dict(MAXAVAIL=t['MAXAVAIL'],
                    ENABLEMENTMIN=If(tl, lo, t['ENABLEMENTMIN']),
                    LOWBREAKPOINT=If(tl, t['LOWBREAKPOINT'] + lo - t['ENABLEMENTMIN'], t['LOWBREAKPOINT']),
                    ENABLEMENTMAX=If(th, hi, t['ENABLEMENTMAX']),
                    HIGHBREAKPOINT=If(th, t['HIGHBREAKPOINT'] - (t['ENABLEMENTMAX'] - hi), t['HIGHBREAKPOINT']))
    return pick(reg(r), narrowed, t)


def pick(c, new, old):
    """choice between two trapeziums"""
    if c is True:
        return new()
    if c is False:
        return old
    n = new()
    return {k: If(c, n[k], old[k]) for k in old}


def telemetered(ctx, r):
    d = ctx.t('initial').get(('DUID',), (r.DUID,))
    return If(r.BIDTYPE == 'RAISEREG', d.RAMPUPRATE, d.RAMPDOWNRATE)


def agc_ramp(ctx, r, t):
    """maximum availability capped at five minutes of ramping, slopes kept"""
    def capped():
        rate = telemetered(ctx, r)

        def cut():
            m = rate * (5 / 60)
            return dict(MAXAVAIL=m,
                        ENABLEMENTMIN=t['ENABLEMENTMIN'], ENABLEMENTMAX=t['ENABLEMENTMAX'],
                        LOWBREAKPOINT=t['ENABLEMENTMIN'] + m * (t['LOWBREAKPOINT'] - t['ENABLEMENTMIN']) / t['MAXAVAIL'],
                        HIGHBREAKPOINT=t['ENABLEMENTMAX'] - m * (t['ENABLEMENTMAX'] - t['HIGHBREAKPOINT']) / t['MAXAVAIL'])
        return pick(And(Not(null(rate)), lambda: rate != 0.0, lambda: t['MAXAVAIL'] > rate * (5 / 60)), cut, t)
    return pick(reg(r), capped, t)


def forecast(ctx, r, t):
    u = ctx.t('uigf')

    def cut():
        f = u.get(('DUID',), (r.DUID,)).UIGF
        return dict(t, ENABLEMENTMAX=f, HIGHBREAKPOINT=t['HIGHBREAKPOINT'] - (t['ENABLEMENTMAX'] - f))
    return pick(And(r.BIDTYPE != 'ENERGY', u.has(('DUID',), (r.DUID,)),
                    lambda: t['ENABLEMENTMAX'] > u.get(('DUID',), (r.DUID,)).UIGF), cut, t)


def scaled(ctx, r):
    return forecast(ctx, r, agc_ramp(ctx, r, agc_limits(ctx, r, trap(r))))


# ------------------------------------------------------------------ C21
def bands_of(r):
    return [c for c in ctx_cols(r) if c.startswith('BANDAVAIL')]


def ctx_cols(r):
    return r.cols() if hasattr(r, 'cols') else list(r._d)


def capacity(ctx, unit, direction):
    """(known, value) of the availability of one side of a unit"""
    c = ctx.t('capacity')
    k = ('DUID', 'DIRECTION')
    return c.has(k, (unit, direction)), (lambda: c.get(k, (unit, direction)).capacity)


def offered(ctx, r, bands):
    """conditions on the bid itself and on the capacity of its own side"""
    known, cap = capacity(ctx, r.DUID, r.DIRECTION)
    return And(r.BIDTYPE != 'ENERGY', r.MAXAVAIL > 0.0, Or(*[r[b] > 0.0 for b in bands]),
               Or(Not(known), And(known, lambda: cap() >= r.ENABLEMENTMIN)))


def other_reg(ctx, r, d, bands):
    """the offered bid of the other side of a bidirectional unit for the same regulation service"""
    v = ctx.t('bids')
    k = ('DUID', 'BIDTYPE', 'DIRECTION')
    has = v.has(k, (r.DUID, r.BIDTYPE, d))
    o = v.get(k, (r.DUID, r.BIDTYPE, d))
    if o is None:
        return False, None
    return And(has, offered(ctx, o, bands)), o


def enabled(ctx, r, bands, round5):
    ic = ctx.t('initial').get(('DUID',), (r.DUID,))
    bdu = ic.TRADERTYPE == 'BIDIRECTIONAL'
    gen = r.DIRECTION == 'GENERATOR'
    isreg = reg(r)
    im = ic.INITIALMW
    im_u = round5(If(im < 0.0, 0.0, im))
    im_b = round5(im)
    ordinary = And(Not(bdu), r.ENABLEMENTMAX >= 0.0, r.ENABLEMENTMIN <= im_u, im_u <= r.ENABLEMENTMAX)
    kl, cl = capacity(ctx, r.DUID, 'LOAD')
    within = And(r.ENABLEMENTMIN <= im_b, im_b <= r.ENABLEMENTMAX)
    con_gen = And(bdu, gen, Not(isreg), r.ENABLEMENTMAX >= 0.0,
                  Or(Not(kl), And(kl, lambda: -1 * cl() <= r.ENABLEMENTMAX)), within)
    con_load = And(bdu, Not(gen), Not(isreg), r.ENABLEMENTMIN <= 0.0, within)
    hl, ol = other_reg(ctx, r, 'LOAD', bands)
    hg, og = other_reg(ctx, r, 'GENERATOR', bands)
    low = If(hl, (lambda: ol.ENABLEMENTMIN), r.ENABLEMENTMIN)
    high = If(hg, (lambda: og.ENABLEMENTMAX), r.ENABLEMENTMAX)
    reg_gen = And(bdu, gen, isreg, r.ENABLEMENTMAX >= 0.0, low <= im_b, im_b <= r.ENABLEMENTMAX)
    reg_load = And(bdu, Not(gen), isreg, r.ENABLEMENTMIN <= 0.0,
                   Or(Not(kl), And(kl, lambda: -1 * cl() <= r.ENABLEMENTMAX)), r.ENABLEMENTMIN <= im_b, im_b <= high)
    agc = Or(Not(isreg), null(ic.AGCSTATUS), ic.AGCSTATUS != 0.0)
    return And(offered(ctx, r, bands), Or(ordinary, con_gen, con_load, reg_gen, reg_load), agc)


def survives(ctx, r, bands, round5):
    if isinstance(r.BIDTYPE, str):
        return r.BIDTYPE == 'ENERGY' or enabled(ctx, r, bands, round5)
    return Or(r.BIDTYPE == 'ENERGY', enabled(ctx, r, bands, round5))


# ------------------------------------------------------------------ C22
def fast_start(ctx, p, dispatch):
    """mode at the end of the interval, minutes in it, minutes since mode two ended (None: did not end in it)"""
    left0 = 5.0
    m0 = If(And(p.current_mode == 0, dispatch > 0.0), 1, p.current_mode)
    t0 = p.time_in_current_mode
    mode, time, left = m0, t0, left0
    since = None
    for k, ln in ((1, p.mode_one_length), (2, p.mode_two_length), (3, p.mode_three_length)):
        remaining = ln - time
        leaves = And(mode == k, remaining < left)
        nleft = If(leaves, left - remaining, left)
        mode, time = If(leaves, k + 1, mode), If(leaves, 0.0, time)
        if k == 2:
            since = (leaves, nleft)
        left = nleft
    spent = time + left
    spent = If(mode == 0, 0.0, If(mode == 4, Min(spent, p.mode_four_length), spent))
    return mode, spent, since


# ------------------------------------------------------------------ C23
def loss_factor(ctx, duid, direction):
    u = ctx.t('details').get(('DUID',), (duid,))
    ic = ctx.t('initial').get(('DUID',), (duid,))
    second = And(Not(null(u.SECONDARY_TLF)), direction == 'GENERATOR', ic.TRADERTYPE == 'BIDIRECTIONAL')
    return If(second, lambda: u.SECONDARY_TLF * u.DISTRIBUTIONLOSSFACTOR,
              lambda: u.TRANSMISSIONLOSSFACTOR * u.DISTRIBUTIONLOSSFACTOR)


# ------------------------------------------------------------------ C28
REJECT = 'reject'
UNARY = ['STEP', 'POW2', 'POW3', 'SQRT', 'ABS', 'NEG']
BINARY = ['ADD', 'SUB', 'MUL', 'DIV', 'MAX', 'MIN']
STACK_ONLY = ['DUP', 'EXCH', 'RSD', 'RSU', 'EXLEZ']


def binary(op, a, b):
    """a: deeper (or existing) operand, b: newer one"""
    if op == 'ADD':
        return a + b
    if op == 'SUB':
        return a - b
    if op == 'MUL':
        return a * b
    if op == 'DIV':
        return a / b
    return Max(a, b) if op == 'MAX' else Min(a, b)


def unary(op, x):
    if op == 'POW2':
        return x * x
    if op == 'POW3':
        return x * x * x
    if op == 'SQRT':
        return x ** 0.5
    if op == 'ABS':
        return If(x < 0.0, -x, x)
    return -x


def rpn(op, kind, n, first, second, last, mult, value, flag):
    """Effect of one term on the stack.  n = 0, 1 or 2 (two or more elements); first, second, last: elements by position.
    kind 'U': works on the stack, 'C': the multiplier is the constant, anything else: the term has this value (default
    included); value None: neither.  Returns REJECT, or (new head elements, elements dropped from the head, drop last?,
    elements appended at the end, new flag)."""
    keep = lambda head, drop, droplast=False, tail=(), f=flag: (list(head), drop, droplast, list(tail), f)
    if op is None:
        top, d = (first, 1) if n else (0.0, 0)
        if kind == 'U' and value is None:
            return keep([top * mult], d)
        return keep([top + (mult if value is None else mult * value)], d)
    if op in BINARY:
        if kind == 'U':
            if n < 2:
                return keep([first * mult], 1) if op == 'ADD' and n else REJECT
            return keep([binary(op, second, first) * mult], 2)
        if kind == 'C':
            return keep([binary(op, first, mult)], 1)
        return keep([binary(op, first, value) * mult], 1)
    if op == 'STEP':
        if kind == 'U':
            return keep([If(first > 0.0, mult, 0.0)], 1)
        add = If(value > 0.0, mult, 0.0)
        return keep([first + add], 1) if n else keep([add], 0)
    if op in UNARY:
        if kind == 'U':
            return keep([unary(op, first) * mult], 1)
        if kind == 'C':
            return keep([first + unary(op, mult)], 1)
        return keep([first + unary(op, value) * mult], 1)
    if op == 'PUSH':
        return keep([mult if kind == 'C' else mult * value], 0)
    if op == 'DUP':
        return keep([first * mult], 0)
    if op == 'EXCH':
        return keep([second * mult, first], 2) if n == 2 else REJECT
    if op == 'RSD':
        return keep([last * mult], 0, True) if n == 2 else REJECT
    if op == 'RSU':
        return keep([second * mult], 2, False, [first]) if n == 2 else REJECT
    if op == 'POP':
        if kind == 'U':
            return keep([], 1, f=first <= 0.0)
        return keep([], 0, f=value <= 0.0)
    if op == 'EXLEZ':
        if flag is True:
            return keep([second * mult, first], 2, f=False) if n == 2 else keep([], 0, f=False)
        return keep([], 0)
    raise KeyError(op)


def rpn_list(op, kind, stack, mult, value, flag):
    """rpn on a concrete list"""
    n = min(2, len(stack))
    r = rpn(op, kind, n, stack[0] if n else None, stack[1] if n > 1 else None, stack[-1] if n else None, mult, value, flag)
    if r == REJECT:
        return REJECT
    head, drop, droplast, tail, f = r
    body = stack[drop:]
    if droplast:
        body = body[:-1]
    return head + body + tail, f
