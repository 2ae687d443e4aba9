"""Proof groups for the historical input processing and interval chaining, against spec/hist_spec.py.

Every group executes the real function on symbolic tables (arbitrary rows, arbitrary row labels) and proves, for a generic row
of the table it starts from, which output row must exist with which values, and that no other row exists."""
import z3
from . import core, table, mkt, loader
from .core import E, Relation, F, I, S, Fact, b_and, b_or, b_not, zb, boolof
from .table import frame
from .proofs import group, explore
from .mkt import Exp, rows_match, SCtx, generic_row
from spec import hist_spec as hs

DIRS = ['GENERATOR', 'LOAD']


def hist_group(prop, name, body, slow=False, no_raise=True):
    def go():
        body()

    def f(tier):
        return explore(go, functions=loader.executed, no_raise=no_raise)
    group(prop, name, slow)(f)


def load(mod):
    return loader.Loader().load('nempy.' + mod)


# ------------------------------------------------------------------ C19
def chaining(service, dispatch_type):
    def body():
        ts = load('time_sequential')
        c = dict(unit=S(), dispatch=F())
        k = ('unit',)
        if dispatch_type:
            c['dispatch_type'] = S(mkt.DT)
        if service:
            c['service'] = S(mkt.ms.SERVICES)
            k = ('unit', 'service')
        last = Relation('last_dispatch', c, [k])
        rates = Relation('ramp_rates', dict(unit=S(), ramp_up_rate=F(), ramp_down_rate=F()), [('unit',)])
        out = ts.construct_ramp_rate_parameters(frame(last), frame(rates))

        def init(r):
            v = (r.unit, 'energy') if service else (r.unit,)
            return core.ite(last.has(k, v), last.get(k, v).dispatch, 0.0)
        rows_match('C19: ramp parameters', out.segs, rates, lambda r: [Exp(True, {}, dict(
            unit=r.unit, initial_output=init(r), ramp_up_rate=r.ramp_up_rate, ramp_down_rate=r.ramp_down_rate))])
    return body


def seed():
    ts = load('time_sequential')
    hist = Relation('historical_dispatch', dict(unit=S(), initial_output=F()), [('unit',)])
    rates = Relation('ramp_rates', dict(unit=S(), ramp_up_rate=F(), ramp_down_rate=F()), [('unit',)])
    out = ts.create_seed_ramp_rate_parameters(frame(hist), frame(rates))
    rows_match('C19: seed parameters', out.segs, rates, lambda r: [Exp(hist.has(('unit',), (r.unit,)), {}, dict(
        unit=r.unit, initial_output=hist.get(('unit',), (r.unit,)).initial_output, ramp_up_rate=r.ramp_up_rate,
        ramp_down_rate=r.ramp_down_rate))])


hist_group('C19', 'ramp parameters from the last dispatch', chaining(True, False))
hist_group('C19', 'ramp parameters from the last dispatch (no service column)', chaining(False, False))
hist_group('C19', 'seed parameters', seed)


# ------------------------------------------------------------------ C22
def fast_start(all_columns, with_dt):
    def body():
        units = load('historical_inputs.units')
        P = Relation('profiles', dict(DUID=S(), MinLoadingMW=F(), CurrentMode=I(), CurrentModeTime=F(), T1=F(), T2=F(), T3=F(),
                                      T4=F()), [('DUID',)])
        mkt.fact(P, lambda r: b_and(boolof(core.num_cmp(0, r.CurrentMode, 'le')), boolof(core.num_cmp(r.CurrentMode, 4, 'le'))))
        c = dict(unit=S(), service=S(mkt.ms.SERVICES), dispatch=F())
        if with_dt:
            c['dispatch_type'] = S(mkt.DT)
        D = Relation('unconstrained', c, [('unit', 'service')])
        u = units.UnitData.__new__(units.UnitData)
        u.fast_start_profiles = frame(P)
        u.updated_fast_start_profiles = None
        first = u.get_fast_start_profiles_for_dispatch()
        rows_match('C22: profiles of the first run', first.segs, P, lambda p: [Exp(True, {}, dict(
            unit=p.DUID, current_mode=p.CurrentMode))])
        got = u.get_fast_start_profiles_for_dispatch(frame(D), return_all_columns=all_columns)
        K = ('unit', 'service')

        class Row:
            def __init__(self, p):
                self.current_mode, self.time_in_current_mode = p.CurrentMode, p.CurrentModeTime
                self.mode_one_length, self.mode_two_length = p.T1, p.T2
                self.mode_three_length, self.mode_four_length = p.T3, p.T4

        def expect(p):
            v = (p.DUID, 'energy')
            mode, spent, (leaves, since) = hs.fast_start(None, Row(p), D.get(K, v).dispatch)
            x = dict(unit=p.DUID, end_mode=mode, time_in_end_mode=spent, mode_two_length=p.T2, mode_four_length=p.T4,
                     min_loading=p.MinLoadingMW, time_since_end_of_mode_two=core.ite(boolof(leaves), since, float('nan')))
            if all_columns:
                x.update(current_mode=p.CurrentMode, time_in_current_mode=p.CurrentModeTime, mode_one_length=p.T1,
                         mode_three_length=p.T3)
            return [Exp(D.has(K, v), {}, x)]
        rows_match('C22: profiles after commitment', got.segs, P, expect)
    return body


hist_group('C22', 'fast start modes', fast_start(False, True))
hist_group('C22', 'fast start modes (all columns)', fast_start(True, False))


# ------------------------------------------------------------------ C20, C21, C23: bids
TR = {c: F() for c in hs.TRAP}
BANDS = ['BANDAVAIL%d' % i for i in range(1, 11)]
KEY = ('DUID', 'BIDTYPE', 'DIRECTION')


def bid_tables(bands=BANDS):
    V = Relation('bids', dict(DUID=S(), BIDTYPE=S(hs.BIDTYPES), DIRECTION=S(DIRS), **TR, **{b: F() for b in bands}), [KEY])
    IC = Relation('initial', dict(DUID=S(), TRADERTYPE=S(hs.TRADERS), INITIALMW=F(), RAMPUPRATE=F(nullable=True),
                                  RAMPDOWNRATE=F(nullable=True), AGCSTATUS=F()), [('DUID',)])
    A = Relation('agc', dict(DUID=S(), LOWERREGENABLEMENTMAX=F(), LOWERREGENABLEMENTMIN=F(), RAISEREGENABLEMENTMAX=F(),
                             RAISEREGENABLEMENTMIN=F()), [('DUID',)])
    U = Relation('uigf', dict(DUID=S(), UIGF=F()), [('DUID',)])
    # the dispatch data covers the unit of every bid
    mkt.fact(V, lambda r: IC.has(('DUID',), (r.DUID,)))
    mkt.fact(V, lambda r: A.has(('DUID',), (r.DUID,)))
    # telemetered ramp rates are not negative
    for c in ('RAMPUPRATE', 'RAMPDOWNRATE'):
        mkt.fact(IC, lambda r, c=c: b_or(core.isnull(r[c]), boolof(core.num_cmp(0.0, r[c], 'le'))))
    return V, IC, A, U


def bid_row(r, t, extra=()):
    return dict(DUID=r.DUID, BIDTYPE=r.BIDTYPE, DIRECTION=r.DIRECTION, **t, **{b: r[b] for b in extra})


def scaling(step):
    def body():
        units = load('historical_inputs.units')
        V, IC, A, U = bid_tables(['BANDAVAIL1', 'BANDAVAIL10'])
        ctx = SCtx(dict(bids=V, initial=IC, agc=A, uigf=U), {})
        B = ['BANDAVAIL1', 'BANDAVAIL10']
        if step == 'limits':
            out = units._scaling_for_agc_enablement_limits(frame(V), frame(A))
            f = lambda r: hs.agc_limits(ctx, r, hs.trap(r))
        elif step == 'ramp':
            out = units._scaling_for_agc_ramp_rates(frame(V), frame(IC))
            f = lambda r: hs.agc_ramp(ctx, r, hs.trap(r))
        elif step == 'forecast':
            out = units._scaling_for_uigf(frame(V), frame(U))
            f = lambda r: hs.forecast(ctx, r, hs.trap(r))
        else:
            out = units._scaling_for_agc_enablement_limits(frame(V), frame(A))
            out = units._scaling_for_agc_ramp_rates(out, frame(IC))
            out = units._scaling_for_uigf(out, frame(U))
            f = lambda r: hs.scaled(ctx, r)
        rows_match('C20: %s' % step, out.segs, V, lambda r: [Exp(True, {}, bid_row(r, f(r), B))])
    return body


hist_group('C20', 'scaling for AGC enablement limits', scaling('limits'))
hist_group('C20', 'scaling for AGC ramp rates', scaling('ramp'))
hist_group('C20', 'scaling for forecasts', scaling('forecast'))


# ------------------------------------------------------------------ C21
def price_table(V, bands):
    P = Relation('prices', dict(DUID=S(), BIDTYPE=S(hs.BIDTYPES), DIRECTION=S(DIRS), **{b: F() for b in bands}), [KEY])
    # every volume bid has its price bid and the reverse
    mkt.fact(V, lambda r: P.has(KEY, tuple(r[c] for c in KEY)))
    mkt.fact(P, lambda r: V.has(KEY, tuple(r[c] for c in KEY)))
    return P


R5 = z3.Function('round5', z3.RealSort(), z3.RealSort())


def preconditions():
    units = load('historical_inputs.units')
    V, IC, A, U = bid_tables()
    P = price_table(V, ['PRICEBAND1', 'PRICEBAND10'])
    # a unit that is not bidirectional bids in one direction
    C = Relation('capacity', dict(unit=S(), dispatch_type=S(mkt.DT), capacity=F()), [('unit', 'dispatch_type')])

    class Cap:
        """the capacity table seen by the specification"""

        def has(self, k, v):
            return C.has(('unit', 'dispatch_type'), (v[0], lower(v[1])))

        def get(self, k, v):
            return C.get(('unit', 'dispatch_type'), (v[0], lower(v[1])))
    ctx = SCtx(dict(bids=V, initial=IC, capacity=Cap()), {})

    def round5(x):
        return core.num_round(core.asnum(x), 5)
    vol, price = units._enforce_preconditions_for_enabling_fcas(frame(V), frame(P), frame(IC), frame(C))
    rows_match('C21: volume bids', vol.segs, V, lambda r: [Exp(hs.survives(ctx, r, BANDS, round5), {}, bid_row(r, hs.trap(r), BANDS))])

    def bid(r):
        return V.get(KEY, tuple(r[c] for c in KEY))
    rows_match('C21: price bids', price.segs, P, lambda r: [Exp(hs.survives(ctx, bid(r), BANDS, round5), {}, dict(
        DUID=r.DUID, BIDTYPE=r.BIDTYPE, DIRECTION=r.DIRECTION, PRICEBAND1=r.PRICEBAND1, PRICEBAND10=r.PRICEBAND10))])


def lower(d):
    return d.lower() if isinstance(d, str) else d._lift(str.lower)


hist_group('C21', 'preconditions for enabling bids', preconditions)


# ------------------------------------------------------------------ C20, C21, C23 through UnitData
PBANDS = ['PRICEBAND%d' % i for i in range(1, 11)]
BN = [str(i) for i in range(1, 11)]


class Data:
    """UnitData on symbolic raw inputs.  missing: volume bids come without directions (their price bids have them)"""

    def __init__(self, interval, missing=False):
        units = load('historical_inputs.units')
        V, IC, A, U = bid_tables()
        c = dict(V.cols, RAMPDOWNRATE=F(), RAMPUPRATE=F())
        key = KEY
        if missing:
            c['DIRECTION'] = S(DIRS, nullable=True)
            key = ('DUID', 'BIDTYPE')
        V = Relation('volume', c, [key])
        P = Relation('prices', dict(DUID=S(), BIDTYPE=S(hs.BIDTYPES), DIRECTION=S(DIRS), **{b: F() for b in PBANDS}), [key])
        D = Relation('details', dict(DUID=S(), CONNECTIONPOINTID=S(), REGIONID=S(), TRANSMISSIONLOSSFACTOR=F(),
                                     DISTRIBUTIONLOSSFACTOR=F(), SECONDARY_TLF=F(nullable=True)), [('DUID',)])
        K = ('DUID',)
        for T in (V, P):
            mkt.fact(T, lambda r: b_and(boolof(IC.has(K, (r.DUID,))), boolof(A.has(K, (r.DUID,))), boolof(D.has(K, (r.DUID,)))))
        # every volume bid has its price bid and the reverse, and every unit that bids offers energy on the same side
        mkt.fact(V, lambda r: P.has(key, tuple(r[c] for c in key)))
        mkt.fact(P, lambda r: V.has(key, tuple(r[c] for c in key)))
        if missing:
            mkt.fact(V, lambda r: core.isnull(r.DIRECTION))
        self.key, self.V, self.P, self.IC, self.A, self.U, self.D = key, V, P, IC, A, U, D
        F_ = {n: frame(r) for n, r in dict(v=V, p=P, i=IC, a=A, u=U, d=D).items()}
        self.frames = F_

        class L:
            def __init__(s):
                s.interval = interval

            def get_unit_price_bids(s): return F_['p']
            def get_unit_volume_bids(s): return F_['v']
            def get_unit_fast_start_parameters(s): return None
            def get_unit_initial_conditions(s): return F_['i']
            def get_UIGF_values(s): return F_['u']
            def get_unit_details(s): return F_['d']
            def get_agc_enablement_limits(s): return F_['a']
        self.units = units
        self.u = units.UnitData(L())
        old = self.old = interval < '2023/07/07 13:40'

        class Cap:
            """availability known for a side: that of its energy bid (before the change, not of forecast units)"""

            def _v(s, v):
                return (v[0], 'ENERGY') if missing else (v[0], 'ENERGY', v[1])

            def has(s, k, v):
                h = boolof(V.has(key, s._v(v)))
                if missing:
                    h = b_and(h, boolof(core.eq(P.get(key, (v[0], 'ENERGY')).DIRECTION, v[1])))
                if old:
                    h = b_and(h, b_not(boolof(U.has(K, (v[0],)))))
                return core.mkb(h)

            def get(s, k, v):
                class R:
                    capacity = V.get(key, s._v(v)).MAXAVAIL
                return R
        self.ctx = SCtx(dict(initial=IC, agc=A, uigf=U, details=D, capacity=Cap(), bids=self.Bids()), {})

    def side(self, r):
        return self.P.get(self.key, tuple(r[c] for c in self.key)).DIRECTION if len(self.key) == 2 else r.DIRECTION

    def scaled(self, r):
        x = Scaled(r, self.side(r))
        x.d.update(hs.scaled(self.ctx, x))
        return x

    def Bids(self):
        me = self

        class T:
            def has(s, k, v):
                if len(me.key) == 3:
                    return me.V.has(me.key, v)
                return core.mkb(b_and(boolof(me.V.has(me.key, v[:2])), boolof(core.eq(me.P.get(me.key, v[:2]).DIRECTION, v[2]))))

            def get(s, k, v):
                return me.scaled(me.V.get(me.key, v[:len(me.key)]))
        return T()


class Scaled:
    """a bid with some columns replaced"""

    def __init__(self, r, side):
        self.r, self.d = r, dict(DIRECTION=side)

    def __getattr__(self, c):
        return self.d[c] if c in self.d else getattr(self.r, c)

    def __getitem__(self, c):
        return self.d[c] if c in self.d else self.r[c]


def service(b):
    return core.lift(b)._lift(lambda x: hs.SERVICE[x])


def round5(x):
    return core.num_round(core.asnum(x), 5)


def spec_frame(rel, guard, vals):
    """the table a contract promises: one row per row of rel with the guard, arbitrary row labels"""
    t = z3.Const('r_' + rel.name, rel.sort)
    r = rel.row(t)
    v = {c: core.lift(x) for c, x in vals(r).items()}
    s = table.Seg((t,), [rel.inf(t)] + ([] if guard is None else [boolof(guard(r))]), v)
    ix = table.Index('user')
    s.lab = ix.add(s.binders, s.guard)
    return table.DF([s], list(v), ix)


class Replaced(Exception):
    pass


def by_contract(X):
    """the helpers of get_processed_bids replaced by their contracts (proved by the groups above): the arguments are checked
    against the precondition, the result is the table the contract promises"""
    m, ctx = X.units, X.ctx
    calls = []
    ident = lambda r: dict(DUID=r.DUID, BIDTYPE=r.BIDTYPE, DIRECTION=X.side(r), **{b: r[b] for b in BANDS})
    step = dict(t=lambda r: hs.trap(r))

    def same(name, d, rel, cols):
        rows_match('%s of %s' % (name, calls[-1]), d.segs, rel, lambda r: [Exp(True, {}, {c: r[c] for c in cols})])

    def scaling(name, rel, cols, f):
        def g(bids, other):
            calls.append(name)
            t = step['t']
            rows_match('bids given to %s' % name, bids.segs, X.V, lambda r: [Exp(True, {}, dict(ident(r), **t(r)))])
            same('data', other, rel, cols)
            new = lambda r: f(ctx, Scaled(r, X.side(r)), t(r))
            step['t'] = new
            return spec_frame(X.V, None, lambda r: dict(ident(r), **new(r)))
        return g
    m._scaling_for_agc_enablement_limits = scaling('_scaling_for_agc_enablement_limits', X.A, list(X.A.cols), hs.agc_limits)
    m._scaling_for_agc_ramp_rates = scaling('_scaling_for_agc_ramp_rates', X.IC, ['DUID', 'RAMPUPRATE', 'RAMPDOWNRATE'], hs.agc_ramp)
    m._scaling_for_uigf = scaling('_scaling_for_uigf', X.U, ['DUID', 'UIGF'], hs.forecast)

    def enforce(bids, prices, initial, capacity):
        calls.append('_enforce_preconditions_for_enabling_fcas')
        rows_match('bids given to ' + calls[-1], bids.segs, X.V, lambda r: [Exp(True, {}, dict(ident(r), **step['t'](r)))])
        same('price bids', prices, X.P, list(X.P.cols))
        same('initial conditions', initial, X.IC, ['DUID', 'INITIALMW', 'AGCSTATUS', 'TRADERTYPE'])
        en = lambda r: core.mkb(b_and(boolof(core.eq(r.BIDTYPE, 'ENERGY')),
                                      b_not(boolof(X.U.has(('DUID',), (r.DUID,)))) if X.old else True))
        known = [s for s in capacity.segs if not core.is_t(core.isnull(s.vals['dispatch_type']))]
        rows_match('availability given to ' + calls[-1], known, X.V, lambda r: [Exp(en(r), {}, dict(
            unit=r.DUID, dispatch_type=lower(X.side(r)), capacity=r.MAXAVAIL))])
        live = lambda r: hs.survives(ctx, X.scaled(r), BANDS, round5)
        full = lambda r: dict(ident(r), **step['t'](r))
        return (spec_frame(X.V, live, full),
                spec_frame(X.P, lambda r: live(X.V.get(X.key, tuple(r[c] for c in X.key))), lambda r: {c: r[c] for c in X.P.cols}))
    m._enforce_preconditions_for_enabling_fcas = enforce
    return calls


def processed(interval, missing=False, parts=('volume', 'price', 'trapeziums')):
    def body():
        X = Data(interval, missing)
        by_contract(X)
        vb, pb = X.u.get_processed_bids()
        live = lambda r: hs.survives(X.ctx, X.scaled(r), BANDS, round5)
        ident = lambda r: dict(unit=r.DUID, service=service(r.BIDTYPE), dispatch_type=lower(X.side(r)))
        if 'volume' in parts:
            rows_match('C21: volume bids for the market', vb.segs, X.V, lambda r: [Exp(live(r), {}, dict(
                ident(r), **{n: r[b] for n, b in zip(BN, BANDS)}))])
        if 'price' in parts:
            def price(r):
                v = X.V.get(X.key, tuple(r[c] for c in X.key))
                f = core.ite(core.eq(r.BIDTYPE, 'ENERGY'), hs.loss_factor(X.ctx, r.DUID, r.DIRECTION), 1.0)
                return [Exp(live(v), {}, dict(unit=r.DUID, service=service(r.BIDTYPE), dispatch_type=lower(r.DIRECTION),
                                              **{n: core.num_mul(r[b], f) for n, b in zip(BN, PBANDS)}))]
            rows_match('C23: price bids for the market', pb.segs, X.P, price)
        if 'trapeziums' in parts:
            X.u.add_fcas_trapezium_constraints()
            nm = dict(max_availability='MAXAVAIL', enablement_min='ENABLEMENTMIN', low_break_point='LOWBREAKPOINT',
                      high_break_point='HIGHBREAKPOINT', enablement_max='ENABLEMENTMAX')

            def rows(which):
                def f(r):
                    x = X.scaled(r)
                    g = b_and(boolof(live(r)), b_not(boolof(core.eq(r.BIDTYPE, 'ENERGY'))))
                    if which != 'max':
                        isr = boolof(hs.reg(r))
                        g = b_and(g, isr if which == 'reg' else b_not(isr))
                    return [Exp(core.mkb(g), {}, dict(ident(r), **{a: x[b] for a, b in nm.items()
                                                                  if which != 'max' or a == 'max_availability'}))]
                return f
            rows_match('C20: maximum availabilities for the market', X.u.get_fcas_max_availability().segs, X.V, rows('max'))
            rows_match('C20: regulation trapeziums for the market', X.u.get_fcas_regulation_trapeziums().segs, X.V, rows('reg'))
            rows_match('C20: contingency trapeziums for the market', X.u.get_contingency_services().segs, X.V, rows('con'))
    return body


OLD, NEW = '2019/01/01 00:00:00', '2024/07/10 12:05:00'
hist_group('C21', 'volume bids for the market', processed(NEW, parts=['volume']))
hist_group('C21', 'volume bids for the market (before July 2023, directions missing)', processed(OLD, True, parts=['volume']))
hist_group('C23', 'price bids for the market', processed(NEW, parts=['price']))
hist_group('C20', 'trapeziums for the market', processed(NEW, parts=['trapeziums']))


def unit_tables(interval, missing=False):
    def body():
        X = Data(interval, missing)
        info = X.u.get_unit_info()
        pairs = lambda r: dict(unit=r.DUID, dispatch_type=lower(r.DIRECTION))

        def exp(r):
            return [Exp(True, {}, dict(pairs(r), region=X.D.get(('DUID',), (r.DUID,)).REGIONID,
                                       loss_factor=hs.loss_factor(X.ctx, r.DUID, r.DIRECTION)), ident=pairs(r))]
        rows_match('C23: unit info', info.segs, X.P, exp, sound=False)
        for s in info.segs:
            row, _ = s.renamed()
            alt = []
            for b in mkt.find_binder(row, X.P)[:1]:
                r = X.P.row(b)
                alt.append(b_and(X.P.inf(b), *[mkt.value_eq(row.vals[c], v) for c, v in exp(r)[0].vals.items()]))
            E.prove('C23: every row of the unit info is an expected one', zb(b_or(*alt)), [zb(x) for x in row.guard])
        once('C23: unit info', info.segs, ['unit', 'dispatch_type'])
        en = lambda r: boolof(core.eq(r.BIDTYPE, 'ENERGY'))
        im = lambda r: X.IC.get(('DUID',), (r.DUID,)).INITIALMW
        rows_match('C23: bid availability', X.u.get_unit_bid_availability().segs, X.V, lambda r: [Exp(core.mkb(b_and(
            en(r), b_not(boolof(X.U.has(('DUID',), (r.DUID,)))) if X.old else True)), {}, dict(
                unit=r.DUID, dispatch_type=lower(X.side(r)), capacity=r.MAXAVAIL))])
        rows_match('C23: bid ramp rates', X.u.get_bid_ramp_rates().segs, X.V, lambda r: [Exp(core.mkb(en(r)), {}, dict(
            unit=r.DUID, dispatch_type=lower(X.side(r)), ramp_up_rate=r.RAMPUPRATE, ramp_down_rate=r.RAMPDOWNRATE,
            initial_output=im(r)))])
        rows_match('C23: forecast limits', X.u.get_unit_uigf_limits().segs, X.U, lambda r: [Exp(True, {}, dict(
            unit=r.DUID, capacity=r.UIGF))])
        rows_match('C23: telemetered ramp rates', X.u.get_scada_ramp_rates(inlude_initial_output=True).segs, X.IC, lambda r: [Exp(
            core.mkb(b_not(b_and(core.isnull(r.RAMPUPRATE), core.isnull(r.RAMPDOWNRATE)))), {}, dict(
                unit=r.DUID, scada_ramp_up_rate=r.RAMPUPRATE, scada_ramp_down_rate=r.RAMPDOWNRATE, initial_output=r.INITIALMW))])
        rows_match('C23: initial output', X.u.get_initial_unit_output().segs, X.IC, lambda r: [Exp(True, {}, dict(
            unit=r.DUID, initial_output=r.INITIALMW))])
    return body


def once(prefix, segs, cols):
    """no two rows agree on cols"""
    for i, a in enumerate(segs):
        for b in segs[:i + 1]:
            a2, b2 = a.renamed()[0], b.renamed()[0]
            eq = b_and(*[mkt.value_eq(a2.vals[c], b2.vals[c]) for c in cols])
            same = b_and(*[x == y for x, y in zip(a2.binders, b2.binders)]) if a is b else False
            E.prove('%s: given once' % prefix, zb(b_or(b_not(eq), same)), [zb(x) for x in a2.guard] + [zb(x) for x in b2.guard])


hist_group('C23', 'unit tables', unit_tables(NEW))
hist_group('C23', 'unit tables (before July 2023, directions missing)', unit_tables(OLD, True))


# ------------------------------------------------------------------ C24
def interconnector_data(part):
    def body():
        mod = load('historical_inputs.interconnectors')
        IC = Relation('definitions', dict(INTERCONNECTORID=S(), REGIONFROM=S(), REGIONTO=S()), [('INTERCONNECTORID',)])
        CO = Relation('parameters', dict(INTERCONNECTORID=S(), FROMREGIONLOSSSHARE=F(), LOSSCONSTANT=F(),
                                         ICTYPE=S(['REGULATED', 'MNSP']), LOSSFLOWCOEFFICIENT=F(), IMPORTLIMIT=F(),
                                         EXPORTLIMIT=F()), [('INTERCONNECTORID',)])
        MN = Relation('links', dict(INTERCONNECTORID=S(), LINKID=S(), FROMREGION=S(), TOREGION=S(), FROM_REGION_TLF=F(),
                                    TO_REGION_TLF=F(), LHSFACTOR=I(), MAXCAPACITY=F()),
                      [('INTERCONNECTORID', 'LINKID'), ('INTERCONNECTORID', 'TOREGION')])
        BI = Relation('link_bids', dict(interconnector=S(), to_region=S(), availability=F(nullable=True)),
                      [('interconnector', 'to_region')])
        SG = Relation('segments', dict(INTERCONNECTORID=S(), LOSSSEGMENT=I(), MWBREAKPOINT=F()),
                      [('INTERCONNECTORID', 'LOSSSEGMENT')])
        DC = Relation('demand_coefficients', dict(INTERCONNECTORID=S(), REGIONID=S(), DEMANDCOEFFICIENT=F()),
                      [('INTERCONNECTORID', 'REGIONID')])
        LO = Relation('loads', dict(REGIONID=S(), TOTALDEMAND=F(), DEMANDFORECAST=F(), INITIALSUPPLY=F()), [('REGIONID',)])
        K, KB, KR = ('INTERCONNECTORID',), ('interconnector', 'to_region'), ('REGIONID',)
        # every interconnector has its parameters and the reverse; every link belongs to a market interconnector and is bid
        mkt.fact(IC, lambda r: CO.has(K, (r.INTERCONNECTORID,)))
        mkt.fact(CO, lambda r: IC.has(K, (r.INTERCONNECTORID,)))
        mkt.fact(MN, lambda r: b_and(boolof(CO.has(K, (r.INTERCONNECTORID,))),
                                     boolof(core.eq(CO.get(K, (r.INTERCONNECTORID,)).ICTYPE, 'MNSP')),
                                     boolof(BI.has(KB, (r.INTERCONNECTORID, r.TOREGION)))))
        mkt.fact(MN, lambda r: b_or(boolof(core.eq(r.LHSFACTOR, 1)), boolof(core.eq(r.LHSFACTOR, -1))))
        mkt.fact(DC, lambda r: LO.has(KR, (r.REGIONID,)))

        class L:
            def get_interconnector_constraint_parameters(s): return frame(CO)
            def get_interconnector_definitions(s): return frame(IC)
            def get_market_interconnectors(s): return frame(MN)
            def get_market_interconnector_link_bid_availability(s): return frame(BI)
            def get_interconnector_loss_segments(s): return frame(SG)
            def get_interconnector_loss_parameters(s): return frame(DC)
            def get_regional_loads(s): return frame(LO)
        d = mod.InterconnectorData(L())
        co = lambda r: CO.get(K, (r.INTERCONNECTORID,))
        regulated = lambda r: core.eq(co(r).ICTYPE, 'REGULATED')
        reg = lambda r: dict(interconnector=r.INTERCONNECTORID, link=r.INTERCONNECTORID, from_region=r.REGIONFROM,
                             to_region=r.REGIONTO, min=core.num_neg(co(r).IMPORTLIMIT), max=co(r).EXPORTLIMIT,
                             from_region_loss_factor=1.0, to_region_loss_factor=1.0, generic_constraint_factor=1)

        def link(r):
            a = BI.get(KB, (r.INTERCONNECTORID, r.TOREGION)).availability
            return dict(interconnector=r.INTERCONNECTORID, link=r.LINKID, from_region=r.FROMREGION, to_region=r.TOREGION, min=0.0,
                        max=core.ite(core.isnull(a), r.MAXCAPACITY, a), from_region_loss_factor=r.FROM_REGION_TLF,
                        to_region_loss_factor=r.TO_REGION_TLF, generic_constraint_factor=r.LHSFACTOR)

        def split(segs):
            of = lambda rel: [s for s in segs if mkt.find_binder(s, rel)]
            a, b = of(IC), of(MN)
            E.record('C24: rows stem from definitions or from links', 'proved' if len(a) + len(b) == len(segs) and
                     not set(map(id, a)) & set(map(id, b)) else 'unknown')
            return a, b
        if part == 'definitions':
            a, b = split(d.get_interconnector_definitions().segs)
            rows_match('C24: regulated interconnectors', a, IC, lambda r: [Exp(regulated(r), {}, reg(r))])
            rows_match('C24: links of market interconnectors', b, MN, lambda r: [Exp(True, {}, link(r))])
            od = load('historical_inputs.demand').DemandData(L()).get_operational_demand()
            rows_match('C24: operational demand', od.segs, LO, lambda r: [Exp(True, {}, dict(region=r.REGIONID, demand=r.TOTALDEMAND))])
            return
        lf, bp = d.get_interconnector_loss_model()
        share = lambda r: core.ite(core.eq(r.INTERCONNECTORID, 'T-V-MNSP1'), 1.0, co(r).FROMREGIONLOSSSHARE)
        a, b = split(lf.segs)
        for what, segs, rel, guard, vals in (('regulated interconnector', a, IC, regulated, reg), ('link', b, MN, lambda r: True, link)):
            rows_match('C24: loss function of a ' + what, segs, rel, lambda r: [Exp(guard(r), {}, dict(
                interconnector=vals(r)['interconnector'], link=vals(r)['link'], from_region_loss_share=share(r)))])
            for s in segs:
                row, _ = s.renamed()
                r = rel.row(mkt.find_binder(row, rel)[0])
                x = core.SNum(E.fresh('flow', z3.RealSort()))
                g = vals(r)['generic_constraint_factor']
                z = core.num_mul(x, g)
                t, q = generic_row(DC, 'coef')
                lo = LO.get(KR, (q.REGIONID,))
                off = core.num_mul(q.DEMANDCOEFFICIENT, core.num_add(lo.INITIALSUPPLY, lo.DEMANDFORECAST))
                fix = core.num_add(core.num_mul(core.num_add(co(r).LOSSCONSTANT, -1.0), z), core.num_mul(
                    core.num_mul(co(r).LOSSFLOWCOEFFICIENT, 0.5), core.num_mul(z, z)))
                mkt.prove_sum('C24: loss of a %s' % what, row.vals['loss_function'](x), [
                    ([], [], fix), ((t,), [DC.inf(t), boolof(core.eq(q.INTERCONNECTORID, r.INTERCONNECTORID))], core.num_mul(off, z))],
                    [zb(y) for y in row.guard])
        # break points: one per segment and link
        for what, rel, guard, vals in (('regulated interconnector', IC, regulated, reg), ('link', MN, lambda r: True, link)):
            segs = [s for s in bp.segs if mkt.find_binder(s, rel)]
            t, r = generic_row(rel, 'i')
            w, q = generic_row(SG, 's')
            hyp = [rel.inf(t), SG.inf(w), zb(boolof(guard(r))), zb(boolof(core.eq(q.INTERCONNECTORID, r.INTERCONNECTORID)))]
            g = vals(r)['generic_constraint_factor']
            exp = dict(interconnector=r.INTERCONNECTORID, link=vals(r)['link'], loss_segment=core.num_mul(q.LOSSSEGMENT, g),
                       break_point=core.num_mul(q.MWBREAKPOINT, g))
            ok, n = [], 0
            for s in segs:
                ren, _ = s.renamed()
                bi, bs = mkt.find_binder(ren, rel), [x for x in ren.binders if x.sort() == SG.sort]
                m = [(bi[0], t), (bs[0], w)]
                gd = b_and(*[table.subst_b(y, m) for y in ren.guard])
                ok.append(gd)
                for c, v in exp.items():
                    E.prove('C24: break points of a %s: %s' % (what, c), zb(mkt.value_eq(core.subst_val(core.lift(ren.vals[c]), m), v)),
                            hyp + [zb(gd)])
                # soundness
                r2, q2 = rel.row(bi[0]), SG.row(bs[0])
                E.prove('C24: every break point of a %s is an expected one' % what, zb(b_and(rel.inf(bi[0]), SG.inf(bs[0]),
                        boolof(guard(r2)), boolof(core.eq(q2.INTERCONNECTORID, r2.INTERCONNECTORID)))), [zb(y) for y in ren.guard])
            E.prove('C24: break point of a %s exists' % what, zb(b_or(*ok)), hyp)
            for i in range(len(ok)):
                for j in range(i):
                    E.prove('C24: break point of a %s given once' % what, zb(b_not(b_and(ok[i], ok[j]))), hyp)
    return body


hist_group('C24', 'definitions', interconnector_data('definitions'))
hist_group('C24', 'loss model', interconnector_data('losses'))


# ------------------------------------------------------------------ C29
BID_CODE = dict(ENOF='ENERGY', LDOF='ENERGY', DROF='ENERGY', BDOF='ENERGY', L5RE='LOWERREG', R5RE='RAISEREG', R5MI='RAISE5MIN',
                L5MI='LOWER5MIN', R60S='RAISE60SEC', L60S='LOWER60SEC', R6SE='RAISE6SEC', L6SE='LOWER6SEC', R1SE='RAISE1SEC',
                L1SE='LOWER1SEC')
SYMBOL = {'LE': '<=', 'GE': '>=', 'EQ': '='}


def constraint_data(part):
    def body():
        mod = load('historical_inputs.constraints')
        R = Relation('rhs', dict(set=S(), rhs=F()), [('set',)])
        T = Relation('types', dict(set=S(), type=S(list(SYMBOL)), cost=F()), [('set',)])
        code = S(list(BID_CODE))
        U = Relation('unit_terms', dict(set=S(), unit=S(), service=code, coefficient=F()), [('set', 'unit', 'service')])
        G = Relation('region_terms', dict(set=S(), region=S(), service=code, coefficient=F()), [('set', 'region', 'service')])
        N = Relation('interconnector_terms', dict(set=S(), interconnector=S(), coefficient=F()), [('set', 'interconnector')])
        W = Relation('updates', dict(set=S(), rhs=F()), [('set',)])

        class L:
            def get_constraint_rhs(s): return frame(R)
            def get_constraint_type(s): return frame(T)
            def get_constraint_unit_lhs(s): return frame(U)
            def get_constraint_region_lhs(s): return frame(G)
            def get_constraint_interconnector_lhs(s): return frame(N)
        d = mod.ConstraintData(L())
        k = ('set',)
        symbol = lambda r: core.lift(T.get(k, (r.set,)).type)._lift(lambda x: SYMBOL[x])
        typed = lambda r: boolof(T.has(k, (r.set,)))
        serv = lambda r: core.lift(r.service)._lift(lambda x: hs.SERVICE[BID_CODE[x]])
        t, g = generic_row(G, 'g')

        def regional(r):
            return table.exists([table.Seg((t,), [G.inf(t)], dict(set=g.set))], [r.t], [], lambda x: [(x.vals['set'], r.set)])
        free = lambda r: b_and(typed(r), b_not(regional(r)))
        req = lambda r: b_and(boolof(R.has(k, (r.set,))), typed(r))
        rhs_of = lambda r: R.get(k, (r.set,)).rhs
        new = lambda r, old: core.ite(W.has(k, (r.set,)), W.get(k, (r.set,)).rhs, old)
        base = lambda r: dict(set=r.set, rhs=r.rhs, type=symbol(r))
        need = lambda r: dict(set=r.set, service=serv(r), region=r.region, type=symbol(r), volume=rhs_of(r))
        if part == 'tables':
            rows_match('C29: rhs and type', d.get_rhs_and_type().segs, R, lambda r: [Exp(core.mkb(typed(r)), {}, base(r))])
            rows_match('C29: fcas requirements', d.get_fcas_requirements().segs, G, lambda r: [Exp(core.mkb(req(r)), {}, need(r))])
            rows_match('C29: sets without regional terms', d.get_rhs_and_type_excluding_regional_fcas_constraints().segs, R,
                       lambda r: [Exp(core.mkb(free(r)), {}, base(r))])
            rows_match('C29: unit terms', d.get_unit_lhs().segs, U, lambda r: [Exp(True, {}, dict(
                set=r.set, unit=r.unit, service=serv(r), coefficient=r.coefficient))])
            rows_match('C29: region terms', d.get_region_lhs().segs, G, lambda r: [Exp(True, {}, dict(
                set=r.set, region=r.region, service=serv(r), coefficient=r.coefficient))])
            rows_match('C29: interconnector terms', d.get_interconnector_lhs().segs, N, lambda r: [Exp(True, {}, dict(
                set=r.set, interconnector=r.interconnector, coefficient=r.coefficient))])
            rows_match('C29: violation costs', d.get_violation_costs().segs, T, lambda r: [Exp(True, {}, dict(
                set=r.set, cost=r.cost))])
            return
        hf = load('help_functions.helper_functions')
        rest = d.get_rhs_and_type_excluding_regional_fcas_constraints()
        got = d.get_fcas_requirements()
        w = frame(W)
        for what, table_in, rel, guard, vals, col in (('right hand sides', rest, R, free, base, 'rhs'),
                                                      ('requirements', got, G, req, need, 'volume')):
            cols = list(table_in.columns)
            out = hf.update_rhs_values(table_in, w)
            rows_match('C29: updated %s' % what, out.segs, rel, lambda r: [Exp(core.mkb(guard(r)), {}, dict(
                vals(r), **{col: new(r, vals(r)[col])}))])
            E.record('C29: updated %s: columns' % what, 'proved' if list(out.columns) == cols else 'refuted')
            rows_match('C29: %s handed in' % what, table_in.segs, rel, lambda r: [Exp(core.mkb(guard(r)), {}, vals(r))])
            E.record('C29: columns handed in', 'proved' if list(table_in.columns) == cols and list(w.columns) == ['set', 'rhs']
                     else 'refuted')
    return body


hist_group('C29', 'constraint tables', constraint_data('tables'))
hist_group('C29', 'updated right hand sides', constraint_data('update'))
