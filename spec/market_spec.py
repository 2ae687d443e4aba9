"""Specification of the dispatch problem SpotMarket hands to the solver, stated per generic row of
the tables the user supplied.  Evaluated on concrete rows (conc/) and on symbolic rows (dv/)."""
from .ops import And, Or, Not, If, null, Min, Max, Abs, fmin, isin

BANDS = [str(i) for i in range(1, 11)]
SERVICES = ['energy', 'raise_reg', 'lower_reg', 'raise_5min', 'lower_5min', 'raise_60s', 'lower_60s', 'raise_6s',
            'lower_6s', 'raise_1s', 'lower_1s']
FCAS = SERVICES[1:]
CONTINGENCY = SERVICES[3:]
MIN_VOLUME = 0.0001


class Con:
    """one expected constraint: guard -> (type, rhs, coefficient of every variable)"""

    def __init__(self, guard, type, rhs, coef, ident=None, part='', attrs=None, holds=None):
        self.guard = guard
        self.type = type
        self.rhs = rhs
        self.coef = coef          # variable family -> fn(v) -> coefficient
        self.ident = ident        # None: one constraint per row; else key shared by rows of one constraint
        self.part = part
        self.holds = holds        # variable family that tells this constraint from others of the same row
        self.attrs = attrs or {}  # columns of the constraint row that tell it from others of the same row


def dt(r):
    return r.opt('dispatch_type', 'generator')


def srv(r):
    return r.opt('service', 'energy')


def is_bdu(ctx, unit):
    """a unit with both a generation and a load entry in the unit table"""
    if not ctx.cfg['dispatch_types']:
        return False
    ui = ctx.t('unit_info')
    return And(ui.has(('unit', 'dispatch_type'), (unit, 'generator')), ui.has(('unit', 'dispatch_type'), (unit, 'load')))


def unit_row(ctx, unit, d):
    ui = ctx.t('unit_info')
    return ui.get(('unit', 'dispatch_type'), (unit, d)) if ctx.cfg['dispatch_types'] else ui.get(('unit',), (unit,))


def has_unit_row(ctx, unit, d):
    ui = ctx.t('unit_info')
    if ctx.cfg['dispatch_types']:
        return ui.has(('unit', 'dispatch_type'), (unit, d))
    return And(ui.has(('unit',), (unit,)), d == 'generator')


def net(v):
    """sign of a bidirectional unit's side in its net energy position"""
    return If(v.dispatch_type == 'load', -1.0, 1.0)


# ------------------------------------------------------------------ unit level families
def unit_bid_capacity(ctx, r):
    return [Con(True, '<=', r.capacity,
                {'bids': lambda v: If(And(v.unit == r.unit, v.dispatch_type == dt(r), v.service == 'energy'), 1.0, 0.0)})]


def uigf_capacity(ctx, r):
    return [Con(True, '<=', r.capacity,
                {'bids': lambda v: If(And(v.unit == r.unit, v.dispatch_type == 'generator', v.service == 'energy'),
                                      1.0, 0.0)})]


def hours(ctx):
    return ctx.cfg['interval'] / 60


def exempt(ctx, unit):
    """fast start units below minimum load are not ramp constrained"""
    run = ctx.cfg.get('run_type', 'no_fast_start_units')
    fs = ctx.t('ramp_profiles')
    if run == 'no_fast_start_units' or fs is None:
        return False
    if run == 'fast_start_first_run':
        return And(fs.has(('unit',), (unit,)), lambda: isin(fs.get(('unit',), (unit,)).current_mode, [0, 1, 2]))
    return And(fs.has(('unit',), (unit,)), lambda: isin(fs.get(('unit',), (unit,)).end_mode, [0, 1, 2]))


def left_mode_two(ctx, unit):
    run = ctx.cfg.get('run_type', 'no_fast_start_units')
    fs = ctx.t('ramp_profiles')
    if run != 'fast_start_second_run' or fs is None:
        return False
    return And(fs.has(('unit',), (unit,)),
               lambda: Not(null(fs.get(('unit',), (unit,)).time_since_end_of_mode_two)))


def rate_with_scada(ctx, unit, rate, col):
    sc = ctx.t('scada_ramp_rates')
    if sc is None or not sc.hascol(col):
        return rate
    return If(sc.has(('unit',), (unit,)), lambda: fmin(rate, sc.get(('unit',), (unit,))[col]), rate)


def ramp_up_limit(ctx, unit, initial, rate):
    """highest output reachable; for a unit that left mode two during the interval, the ramp from minimum
    loading over the time since then"""
    normal = initial + rate * hours(ctx)
    lm = left_mode_two(ctx, unit)
    if lm is False:
        return normal
    fs = ctx.t('ramp_profiles')

    def after():
        p = fs.get(('unit',), (unit,))
        return p.min_loading + p.time_since_end_of_mode_two * (rate / 60)
    return If(lm, after, normal)


def single_unit_ramp(up):
    def fam(ctx, r):
        coef = {'bids': lambda v: If(And(v.unit == r.unit, v.dispatch_type == dt(r), v.service == 'energy'), 1.0, 0.0)}
        guard = And(Not(is_bdu(ctx, r.unit)), Not(exempt(ctx, r.unit)))
        if up:
            rate = rate_with_scada(ctx, r.unit, r.ramp_up_rate, 'scada_ramp_up_rate')
            return [Con(guard, '<=', ramp_up_limit(ctx, r.unit, r.initial_output, rate), coef)]
        rate = rate_with_scada(ctx, r.unit, r.ramp_down_rate, 'scada_ramp_down_rate')
        return [Con(guard, '>=', r.initial_output - rate * hours(ctx), coef)]
    return fam


def composite_up(ctx, initial, gen_up, load_down):
    """average upward rate of the net position over the interval: load side ramps down to zero first"""
    h = hours(ctx)

    def crossing():
        t = h - Abs(initial / load_down)
        return (t * gen_up - initial) / h
    return If(initial >= 0.0, gen_up,
              lambda: If(load_down == 0.0, 0.0,
                         lambda: If(Abs(initial / load_down) >= h, load_down, crossing)))


def composite_down(ctx, initial, load_up, gen_down):
    h = hours(ctx)

    def crossing():
        t = h - Abs(initial / gen_down)
        return (t * load_up + initial) / h
    return If(initial <= 0.0, load_up,
              lambda: If(gen_down == 0.0, 0.0,
                         lambda: If(Abs(initial / gen_down) >= h, gen_down, crossing)))


def bidirectional_ramp(up):
    def fam(ctx, r):
        if not ctx.cfg['dispatch_types']:
            return []
        rd = ctx.t('ramp_details')
        K = ('unit', 'dispatch_type')
        guard = And(is_bdu(ctx, r.unit), rd.has(K, (r.unit, 'generator')), rd.has(K, (r.unit, 'load')))
        if guard is False:
            return []
        gen, load = rd.get(K, (r.unit, 'generator')), rd.get(K, (r.unit, 'load'))
        coef = {'bids': lambda v: If(And(v.unit == r.unit, v.service == 'energy'), lambda: net(v), 0.0)}
        if up:
            rate = composite_up(ctx, gen.initial_output, gen.ramp_up_rate, load.ramp_down_rate)
            rate = rate_with_scada(ctx, r.unit, rate, 'scada_ramp_up_rate')
            return [Con(guard, '<=', gen.initial_output + rate * hours(ctx), coef, ident=(r.unit,))]
        rate = composite_down(ctx, gen.initial_output, load.ramp_up_rate, gen.ramp_down_rate)
        rate = rate_with_scada(ctx, r.unit, rate, 'scada_ramp_down_rate')
        return [Con(guard, '>=', gen.initial_output - rate * hours(ctx), coef, ident=(r.unit,))]
    return fam


def fast_start(ctx, r):
    """r: a fast start profile; the unit's (single) direction is the one of the unit table"""
    out = []
    for d in (['generator', 'load'] if ctx.cfg['dispatch_types'] else ['generator']):
        coef = {'bids': lambda v, d=d: If(And(v.unit == r.unit, v.dispatch_type == d, v.service == 'energy'), 1.0, 0.0)}
        has = has_unit_row(ctx, r.unit, d)
        if has is False:
            continue
        two = lambda: r.min_loading * (r.time_in_end_mode / r.mode_two_length)
        four = lambda: r.min_loading * (1 - r.time_in_end_mode / r.mode_four_length)
        m = r.end_mode
        for part, g, ty, rhs in [('off', isin(m, [0, 1]), '<=', 0.0),
                                 ('two_max', m == 2, '<=', two), ('two_min', m == 2, '>=', two),
                                 ('three', m == 3, '>=', lambda: r.min_loading), ('four', m == 4, '>=', four)]:
            g = And(has, g)
            if g is False:
                continue
            out.append(Con(g, ty, rhs() if callable(rhs) else rhs, coef, part=part + '/' + d, attrs=dict(dispatch_type=d)))
    return out


def fcas_max_availability(ctx, r):
    return [Con(True, '<=', r.max_availability,
                {'bids': lambda v: If(And(v.unit == r.unit, v.dispatch_type == dt(r), v.service == r.service), 1.0, 0.0)})]


def offers(ctx, unit, service, d):
    """there is a bid variable for this unit, service and direction"""
    vb = ctx.t('volume_bids')
    if not vb.hascol('service'):
        return False
    key, vals = (('unit', 'service', 'dispatch_type'), (unit, service, d)) if ctx.cfg['dispatch_types'] \
        else (('unit', 'service'), (unit, service))
    return And(vb.has(key, vals), lambda: offered(ctx, vb.get(key, vals)))


def offered(ctx, r):
    return Or(*[r[b] >= MIN_VOLUME for b in ctx.cfg['bands']])


def joint_ramping(direction):
    """base: volume bids of the regulation service"""
    service = direction + '_reg'

    def fam(ctx, r):
        sc = ctx.t('reg_ramp_rates')
        if not r.hascol('service'):
            return []
        guard = And(r.service == service, lambda: offered(ctx, r), lambda: sc.has(('unit',), (r.unit,)),
                    lambda: Not(exempt(ctx, r.unit)))
        if guard is False:
            return []
        s = sc.get(('unit',), (r.unit,))
        init = s.initial_output
        if direction == 'raise':
            rhs_hi = ramp_up_limit(ctx, r.unit, init, s.scada_ramp_up_rate)
            move = rhs_hi - init
        else:
            move = s.scada_ramp_down_rate * hours(ctx)
        bdu = is_bdu(ctx, r.unit)
        d = dt(r)
        # a load provides raise by consuming less, so its limits mirror those of a generator
        rising = Or(And(d == 'generator', direction == 'raise'), And(d == 'load', direction == 'lower'))
        own = lambda v: And(v.unit == r.unit, v.dispatch_type == d)
        ty = If(rising, '<=', '>=')
        rhs = If(rising, lambda: init + move, lambda: init - move)
        sgn = If(rising, 1.0, -1.0)
        out = [Con(And(guard, Not(bdu)), ty, rhs,
                   {'bids': lambda v: If(And(own(v), v.service == 'energy'), 1.0,
                                         lambda: If(And(own(v), v.service == service), sgn, 0.0))})]
        # a bidirectional unit: one constraint on its net position and both sides' regulation
        if bdu is not False:
            up = direction == 'raise'
            out.append(Con(And(guard, bdu), '<=' if up else '>=', init + move if up else init - move,
                           {'bids': lambda v: If(v.unit == r.unit,
                                                 lambda: If(v.service == 'energy', lambda: net(v),
                                                            lambda: If(v.service == service, 1.0 if up else -1.0, 0.0)),
                                                 0.0)},
                           ident=(r.unit,), part='bdu'))
        return out
    return fam


def joint_capacity(ctx, r):
    """contingency trapezium r; loads use the mirrored regulation service; bidirectional units offer contingency
    services on their generation entry and enter with their net position and both sides' regulation"""
    d = dt(r)
    bdu = is_bdu(ctx, r.unit)
    upper = (r.enablement_max - r.high_break_point) / r.max_availability
    lower = (r.low_break_point - r.enablement_min) / r.max_availability
    up_reg = If(d == 'load', 'lower_reg', 'raise_reg')
    down_reg = If(d == 'load', 'raise_reg', 'lower_reg')

    def coef(slope, reg, reg_sign):
        def f(v):
            own = And(v.unit == r.unit, v.dispatch_type == d)
            side = And(v.unit == r.unit, Or(v.dispatch_type == d, bdu))
            return If(v.service == 'energy',
                      lambda: If(side, lambda: If(bdu, lambda: net(v), 1.0), 0.0),
                      lambda: If(v.service == r.service, lambda: If(own, slope, 0.0),
                                 lambda: If(v.service == reg, lambda: If(side, reg_sign, 0.0), 0.0)))
        return {'bids': f}
    return [Con(True, '<=', r.enablement_max, coef(upper, up_reg, 1.0), part='upper'),
            Con(True, '>=', r.enablement_min, coef(-1 * lower, down_reg, -1.0), part='lower')]


def energy_and_regulation_capacity(ctx, r):
    """regulation trapezium r; each side of a bidirectional unit is limited by its own energy, the load side as
    negative energy"""
    d = dt(r)
    bdu = is_bdu(ctx, r.unit)
    upper = (r.enablement_max - r.high_break_point) / r.max_availability
    lower = (r.low_break_point - r.enablement_min) / r.max_availability

    def coef(slope):
        def f(v):
            own = And(v.unit == r.unit, v.dispatch_type == d)
            return If(own, lambda: If(v.service == 'energy', lambda: If(bdu, lambda: net(v), 1.0),
                                      lambda: If(v.service == r.service, slope, 0.0)), 0.0)
        return {'bids': f}
    return [Con(True, '<=', r.enablement_max, coef(upper), part='upper'),
            Con(True, '>=', r.enablement_min, coef(-1 * lower), part='lower')]


# ------------------------------------------------------------------ regional families
def var_region(ctx, v):
    return unit_row(ctx, v.unit, v.dispatch_type).region


def link_get(t, v):
    """the row of a table of links"""
    if t.hascol('link'):
        return t.get(('interconnector', 'link'), (v.interconnector, v.link))
    return t.get(('interconnector',), (v.interconnector,))


def inter_row(ctx, v):
    return link_get(ctx.t('interconnectors'), v)


def demand(ctx, r):
    def bids(v):
        return If(And(v.service == 'energy', lambda: var_region(ctx, v) == r.region), lambda: net(v), 0.0)

    def flow(v):
        i = inter_row(ctx, v)
        return If(i.to_region == r.region, lambda: i.opt('to_region_loss_factor', 1.0),
                  lambda: If(i.from_region == r.region, lambda: -1 * i.opt('from_region_loss_factor', 1.0), 0.0))

    def loss(v):
        i = inter_row(ctx, v)
        share = link_get(ctx.t('loss_functions'), v).from_region_loss_share
        return If(i.from_region == r.region, lambda: -1 * share,
                  lambda: If(i.to_region == r.region, lambda: -1 * (1 - share), 0.0))
    return [Con(True, '=', r.demand, {'bids': bids, 'interconnectors': flow, 'interconnector_losses': loss})]


def generic_terms(ctx, the_set):
    """coefficient functions of the generic left hand sides of a set"""
    u, g, i = ctx.t('unit_coefficients'), ctx.t('region_coefficients'), ctx.t('interconnector_coefficients')

    def bids(v):
        tot = 0.0
        if u is not None:
            k = (the_set, v.unit, v.service)
            K = ('set', 'unit', 'service')
            tot = tot + If(u.has(K, k), lambda: u.get(K, k).coefficient *
                           If(And(is_bdu(ctx, v.unit), v.service == 'energy', v.dispatch_type == 'load'), -1.0, 1.0), 0.0)
        if g is not None:
            k = (the_set, var_region(ctx, v), v.service)
            K = ('set', 'region', 'service')
            tot = tot + If(g.has(K, k), lambda: g.get(K, k).coefficient, 0.0)
        return tot

    def flow(v):
        if i is None:
            return 0.0
        k = (the_set, v.interconnector)
        K = ('set', 'interconnector')
        return If(i.has(K, k), lambda: i.get(K, k).coefficient * inter_row(ctx, v).opt('generic_constraint_factor', 1), 0.0)
    return {'bids': bids, 'interconnectors': flow}


def fcas(ctx, r):
    fr = ctx.t('fcas_requirements')
    gen = generic_terms(ctx, r['set'])

    def bids(v):
        k = (r['set'], var_region(ctx, v), v.service)
        return If(fr.has(('set', 'region', 'service'), k), 1.0, 0.0) + gen['bids'](v)
    return [Con(True, r.opt('type', '='), r.volume, {'bids': bids, 'interconnectors': gen['interconnectors']},
                ident=(r['set'],))]


def generic(ctx, r):
    return [Con(True, r.type, r.rhs, generic_terms(ctx, r['set']))]


# ------------------------------------------------------------------ interconnector losses
def _same_link(v, r):
    return And(v.interconnector == r.interconnector, v.link == r.opt('link', r.interconnector))


def weights_sum(ctx, r):
    return [Con(True, '=', 1.0, {'interpolation_weights': lambda v: If(_same_link(v, r), 1.0, 0.0)},
                ident=(r.interconnector, r.opt('link', r.interconnector)))]


def weights_flow(ctx, r):
    return [Con(True, '=', 0.0, {'interpolation_weights': lambda v: If(_same_link(v, r), lambda: v.break_point, 0.0),
                                 'interconnectors': lambda v: If(_same_link(v, r), -1.0, 0.0)},
                ident=(r.interconnector, r.opt('link', r.interconnector)), holds='interconnectors')]


def weights_loss(ctx, r):
    f = link_get(ctx.t('loss_functions'), r).loss_function
    return [Con(True, '=', 0.0,
                {'interpolation_weights': lambda v: If(_same_link(v, r), lambda: f(v.break_point), 0.0),
                 'interconnector_losses': lambda v: If(_same_link(v, r), -1.0, 0.0)},
                ident=(r.interconnector, r.opt('link', r.interconnector)), holds='interconnector_losses')]


# key of the constraint group in the market -> (base table, function)
FAMILIES = {
    'unit_bid_capacity': ('unit_limits', unit_bid_capacity),
    'uigf_capacity': ('uigf_limits', uigf_capacity),
    'ramp_up': ('ramp_details', single_unit_ramp(True)),
    'ramp_down': ('ramp_details', single_unit_ramp(False)),
    'bidirectional_ramp_up': ('ramp_details', bidirectional_ramp(True)),
    'bidirectional_ramp_down': ('ramp_details', bidirectional_ramp(False)),
    'fast_start': ('fast_start_profiles', fast_start),
    'fcas_max_availability': ('fcas_max_availability', fcas_max_availability),
    'joint_ramping_raise_reg': ('volume_bids', joint_ramping('raise')),
    'joint_ramping_lower_reg': ('volume_bids', joint_ramping('lower')),
    'joint_capacity': ('contingency_trapeziums', joint_capacity),
    'energy_and_regulation_capacity': ('regulation_trapeziums', energy_and_regulation_capacity),
    'demand': ('demand', demand),
    'fcas': ('fcas_requirements', fcas),
    'generic': ('generic_parameters', generic),
    'weights_sum': ('break_points', weights_sum),
    'weights_flow': ('break_points', weights_flow),
    'weights_loss': ('break_points', weights_loss),
}


def active_families(ctx):
    out = []
    for k, (base, f) in FAMILIES.items():
        if ctx.t(base) is None:
            continue
        if k.startswith('joint_ramping') and ctx.t('reg_ramp_rates') is None:
            continue
        if k.startswith('weights') and ctx.t('loss_functions') is None:
            continue
        out.append(k)
    return out


# ------------------------------------------------------------------ variables
def expected_vars(ctx, fam, r):
    """expected variables of a family for row r of its base table: list of (guard, attributes, lb, ub)"""
    if fam == 'bids':
        return [(r[b] >= MIN_VOLUME, dict(unit=r.unit, service=srv(r), dispatch_type=dt(r), capacity_band=b),
                 0.0, r[b]) for b in ctx.cfg['bands']]
    if fam == 'interconnectors':
        return [(True, dict(interconnector=r.interconnector, link=r.opt('link', r.interconnector)), r.min, r.max)]
    if fam == 'interpolation_weights':
        return [(True, dict(interconnector=r.interconnector, link=r.opt('link', r.interconnector),
                            break_point=r.break_point, loss_segment=r.loss_segment), 0.0, 1.0)]
    raise KeyError(fam)


VAR_BASE = {'bids': 'volume_bids', 'interconnectors': 'interconnectors', 'interpolation_weights': 'break_points'}


def bid_cost(ctx, v):
    """cost at the reference node of a bid variable; the price row is the one of the same unit, service, direction"""
    pb = ctx.t('price_bids')
    key, vals = ['unit'], [v.unit]
    if pb.hascol('service'):
        key.append('service')
        vals.append(v.service)
    if ctx.cfg['dispatch_types']:
        key.append('dispatch_type')
        vals.append(v.dispatch_type)
    row = pb.get(tuple(key), tuple(vals))
    price = None
    for b in reversed(ctx.cfg['bands']):
        price = row[b] if price is None else If(v.capacity_band == b, row[b], price)
    lf = unit_row(ctx, v.unit, v.dispatch_type).opt('loss_factor', 1.0)
    sign = If(v.dispatch_type == 'load', -1.0, 1.0)
    return If(v.service == 'energy', lambda: sign * price / lf, lambda: price)
