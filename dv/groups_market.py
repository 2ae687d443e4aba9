"""Proof groups of the market: one per constraint family and input shape."""
import z3
from . import core, mkt, table
from .core import E, zb, boolof, Relation, F, I, S
from spec import driver, market_spec as ms
from .proofs import group, explore

B2 = ['1', '2']
B10 = [str(i) for i in range(1, 11)]


def fam_group(prop, name, tables, keys, cfg=None, slow=False, **kw):
    cfg = dict(dict(dispatch_types=True, service=True, bands=B2), **(cfg or {}))

    def go():
        r = mkt.Run(tables, dict(cfg), **kw)
        P = mkt.Problem(r, prop)
        for k in keys:
            P.family(k)
        return r

    def f(tier):
        return explore(go, functions=mkt.functions_run)
    group(prop, name, slow)(f)


SHAPES = {'': {}, ' (no dispatch types)': dict(dispatch_types=False)}

for sh, c in SHAPES.items():
    fam_group('C05', 'bid capacity' + sh, ['volume_bids', 'unit_limits'], ['unit_bid_capacity'], c)
    fam_group('C05', 'intermittent forecast' + sh, ['volume_bids', 'uigf_limits'], ['uigf_capacity'], c)
fam_group('C05', 'bid capacity (no service column)', ['volume_bids', 'unit_limits'], ['unit_bid_capacity'],
          dict(service=False))
for sh, c in SHAPES.items():
    for k in ['ramp_up', 'ramp_down'] + (['bidirectional_ramp_up', 'bidirectional_ramp_down'] if not c else []):
        fam_group('C06', k + sh, ['volume_bids', 'ramp_details'], [k], c)
        fam_group('C06', k + ' with scada' + sh, ['volume_bids', 'ramp_details', 'scada_ramp_rates'], [k], c)
        for run in ('fast_start_first_run', 'fast_start_second_run'):
            if not k.startswith('bi'):
                fam_group('C06', '%s %s' % (k, run) + sh, ['volume_bids', 'ramp_details', 'ramp_profiles'], [k],
                          dict(c, run_type=run))
    fam_group('C07', 'fast start' + sh, ['volume_bids', 'fast_start_profiles'], ['fast_start'], c)
    fam_group('C08', 'max availability' + sh, ['volume_bids', 'fcas_max_availability'], ['fcas_max_availability'], c)
    for d in ('raise', 'lower'):
        fam_group('C08', 'joint ramping %s' % d + sh, ['volume_bids', 'reg_ramp_rates'], ['joint_ramping_%s_reg' % d], c,
                  slow=not c)
    fam_group('C08', 'joint capacity' + sh, ['volume_bids', 'contingency_trapeziums'], ['joint_capacity'], c)
    fam_group('C08', 'energy and regulation' + sh, ['volume_bids', 'regulation_trapeziums'],
              ['energy_and_regulation_capacity'], c)
    fam_group('C03', 'demand, units' + sh, ['volume_bids', 'demand'], ['demand'], c)
    fam_group('C04', 'fcas requirements' + sh, ['volume_bids', 'fcas_requirements'], ['fcas'], c)
fam_group('C03', 'demand, interconnectors', ['volume_bids', 'demand', 'interconnectors'], ['demand'])
for shape, c in (('', {}), (' (no links)', dict(link=False))):
    fam_group('C03', 'demand, losses' + shape, ['volume_bids', 'demand', 'interconnectors', 'loss_functions', 'break_points'], ['demand'], c)


# ------------------------------------------------------------------ C01 variables, reported dispatch
def segs_of(df, tag):
    return [s for s in df.segs if s.tag == tag]


def run_group(prop, name, tables, body, cfg=None, slow=False, **kw):
    """body(run) generates the obligations after one symbolic execution"""
    cfg0 = dict(dict(dispatch_types=True, service=True, bands=B2), **(cfg or {}))

    def go():
        r = mkt.Run(tables, dict(cfg0), **kw)
        body(r)
        return r

    def f(tier):
        return explore(go, functions=mkt.functions_run)
    group(prop, name, slow)(f)


def exp_vars(run, fam):
    def fn(r):
        return [mkt.Exp(g, {c: v for c, v in at.items() if c == 'capacity_band'},
                        dict({c: v for c, v in at.items() if c != 'capacity_band'}, lower_bound=lb, upper_bound=ub,
                             type='continuous'), part='band ' + at['capacity_band'] if 'capacity_band' in at else '')
                for g, at, lb, ub in ms.expected_vars(run.ctx, fam, r)]
    return fn


def check_vars(fam, prop):
    def body(run):
        mkt.rows_match('%s: %s variables' % (prop, fam), segs_of(run.cap.variables, fam),
                       run.ctx.t(ms.VAR_BASE[fam]), exp_vars(run, fam))
    return body


def check_dispatch(run):
    d = run.m.get_unit_dispatch()
    vs = segs_of(run.cap.variables, 'bids')

    def fn(r):
        tot = 0.0
        for b in run.cfg['bands']:
            tot = core.num_add(tot, table.total_where(
                vs, [('unit', r.unit), ('service', ms.srv(r)), ('dispatch_type', ms.dt(r)), ('capacity_band', b)],
                lambda R: core.SNum(mkt.X(core.asnum(R.vals['variable_id']).e))))
        return [mkt.Exp(ms.offered(run.ctx, r), {}, dict(dispatch=tot), ident=dict(
            unit=r.unit, service=ms.srv(r), dispatch_type=ms.dt(r)))]
    mkt.rows_match('C01: unit dispatch', d.segs, run.ctx.t('volume_bids'), fn)


for sh, c in list(SHAPES.items()) + [(' (no service column)', dict(service=False)), (' (ten bands)', dict(bands=B10))]:
    run_group('C01', 'bid variables' + sh, ['volume_bids'], check_vars('bids', 'C01'), c)
    if 'bands' not in c:
        run_group('C01', 'reported dispatch' + sh, ['volume_bids'], check_dispatch, c)


# ------------------------------------------------------------------ C02 objective
def check_objective(run):
    obj = run.cap.objective.segs
    for vs in run.cap.variables.segs:
        v, _ = vs.renamed()
        act = table.total_where(obj, [('variable_id', v.vals['variable_id'])], lambda R: R.vals['cost'])
        exp = ms.bid_cost(run.ctx, mkt.VRow(v.vals, v.tag, v)) if v.tag == 'bids' else 0.0
        b = v.vals.get('capacity_band')
        E.prove('C02: cost of %s%s' % (v.tag, ' band %s' % b if isinstance(b, str) else ''),
                zb(mkt.value_eq(act, exp)), [zb(x) for x in v.guard])


for sh, c in list(SHAPES.items()) + [(' (no service column)', dict(service=False)), (' (no loss factors)', dict(loss_factor=False))]:
    run_group('C02', 'objective' + sh, ['volume_bids', 'price_bids'], check_objective, c)
run_group('C02', 'objective, with other variables', ['volume_bids', 'price_bids', 'interconnectors'], check_objective)
run_group('C02', 'objective (ten bands)', ['volume_bids', 'price_bids'], check_objective, dict(bands=B10))


# ------------------------------------------------------------------ C10 generic constraints
GEN = ['generic_parameters', 'unit_coefficients', 'region_coefficients', 'interconnector_coefficients']


def region_services(cfg):
    """regional coefficients are given for ancillary services"""
    def f(ctx):
        if ctx.t('region_coefficients') is not None:
            mkt.fact(ctx.t('region_coefficients'), lambda r: core.invert(core.eq(r.service, 'energy')))
    return dict(cfg, assume=f)


for sh, c in SHAPES.items():
    fam_group('C10', 'unit terms' + sh, ['volume_bids', 'generic_parameters', 'unit_coefficients'], ['generic'], c)
    fam_group('C10', 'regional terms' + sh, ['volume_bids', 'generic_parameters', 'region_coefficients'], ['generic'],
              region_services(c))
fam_group('C10', 'interconnector terms', ['volume_bids', 'interconnectors', 'generic_parameters',
                                          'interconnector_coefficients'], ['generic'])
fam_group('C10', 'all terms', ['volume_bids', 'interconnectors'] + GEN, ['generic'], region_services({}))
fam_group('C10', 'fcas sets with unit terms', ['volume_bids', 'fcas_requirements', 'unit_coefficients'], ['fcas'])
fam_group('C10', 'fcas sets with interconnector terms', ['volume_bids', 'interconnectors', 'fcas_requirements',
                                                         'interconnector_coefficients'], ['fcas'])


# ------------------------------------------------------------------ C11 elastic constraints
KNOWN_VARS = ('bids', 'interconnectors', 'interconnector_losses', 'interpolation_weights')


def check_elastic(elastic, cost_of, covered=None):
    """elastic: constraint groups that are elastic; cost_of(run, constraint row): its violation cost"""
    def body(run):
        cap = run.cap
        slack = [s for s in cap.variables.segs if s.tag not in KNOWN_VARS]
        if any(s.tag is None for s in slack):
            raise core.Unsupported('variable table without group names')
        one = lambda R: core.SNum(core.realval(1))

        def isslack(x):
            return table.total_where(slack, [('variable_id', x)], one)
        # the left hand side rows that can hold slacks
        lhs = []
        for s in cap.lhs.segs:
            s2, _ = s.renamed()
            n = isslack(s2.vals['variable_id'])
            v, _m = E.valid(zb(mkt.value_eq(n, 0.0)), [zb(x) for x in s2.guard], stages=(1,))
            if v is not True:
                lhs.append(s)
        for s in lhs:
            s2, _ = s.renamed()
            c = s2.vals['coefficient']
            E.prove('C11: a slack has coefficient one or minus one',
                    zb(core.b_or(mkt.value_eq(c, 1.0), mkt.value_eq(c, -1.0), mkt.value_eq(isslack(s2.vals['variable_id']), 0.0))),
                    [zb(x) for x in s2.guard])
        for s in cap.rhs.segs:
            c, _ = s.renamed()
            h = [zb(x) for x in c.guard]
            el = s.tag in elastic
            for sign, types in ((1.0, ('>=', '=')), (-1.0, ('<=', '='))):
                n = table.total_where(lhs, [('constraint_id', c.vals['constraint_id'])],
                                      lambda R: core.ite(mkt.value_eq(R.vals['coefficient'], sign),
                                                         isslack(R.vals['variable_id']), 0.0))
                cov = [] if covered is None else [boolof(covered(run, c))] if el else []
                exp = core.ite(core.b_and(core.b_or(*[mkt.value_eq(c.vals['type'], t) for t in types]), *cov), 1.0, 0.0) \
                    if el else 0.0
                E.prove('C11: %s: %s slack of %s' % (s.tag, 'raising' if sign > 0 else 'lowering',
                                                     'an elastic constraint' if el else 'a hard constraint'),
                        zb(mkt.value_eq(n, exp)), h)
        rhs = [s for s in cap.rhs.segs if s.tag in elastic]
        for s in slack:
            v, _ = s.renamed()
            h = [zb(x) for x in v.guard]
            for col, x in (('lower_bound', 0.0), ('upper_bound', float('inf')), ('type', 'continuous')):
                E.prove('C11: %s of a slack' % col, zb(mkt.value_eq(v.vals[col], x)), h)
            vid = v.vals['variable_id']
            n = table.total_where(lhs, [('variable_id', vid)], lambda R: table.total_where(
                rhs, [('constraint_id', R.vals['constraint_id'])], one))
            E.prove('C11: a slack enters exactly one elastic constraint', zb(mkt.value_eq(n, 1.0)), h)
            exp = table.total_where(lhs, [('variable_id', vid)], lambda R: table.total_where(
                rhs, [('constraint_id', R.vals['constraint_id'])], lambda C: cost_of(run, C)))
            act = table.total_where(cap.objective.segs, [('variable_id', vid)], lambda R: R.vals['cost'])
            E.prove('C11: cost of a slack', zb(mkt.value_eq(act, exp)), h)
        for fam in elastic if len(elastic) == 1 else []:
            vs = [s.renamed()[0] for s in slack]
            mkt.prove_sum('C11: violation degree of %s' % fam, run.m.get_elastic_constraints_violation_degree(fam),
                          [(v.binders, v.guard, core.SNum(mkt.X(core.asnum(v.vals['variable_id']).e))) for v in vs])
    return body


def symbolic_cost(key):
    return {key: core.SNum(z3.Real('violation_cost'))}


def scalar(run, C):
    return core.SNum(z3.Real('violation_cost'))


def from_table(run, C):
    vc = run.ctx.t('violation_costs')
    return vc.get(('set',), (C.vals['set'],)).cost


ELASTIC = [('unit_bid_capacity', ['volume_bids', 'unit_limits'], 'unit_bid_capacity', {}),
           ('uigf_capacity', ['volume_bids', 'uigf_limits'], 'uigf_capacity', {}),
           ('demand', ['volume_bids', 'unit_limits', 'demand'], 'demand', {}),
           ('fcas', ['volume_bids', 'demand', 'fcas_requirements'], 'fcas', {}),
           ('fcas_max_availability', ['volume_bids', 'fcas_max_availability'], 'fcas_max_availability', {}),
           ('joint_capacity', ['volume_bids', 'contingency_trapeziums'], 'joint_capacity', {}),
           ('energy_and_regulation_capacity', ['volume_bids', 'regulation_trapeziums'], 'energy_and_regulation_capacity', {}),
           ('generic', ['volume_bids', 'demand', 'generic_parameters', 'unit_coefficients'], 'generic', {}),
           ('ramp', ['volume_bids', 'ramp_details'], ('ramp_up', 'ramp_down'), dict(dispatch_types=False)),
           ('joint_ramping', ['volume_bids', 'reg_ramp_rates'],
            ('joint_ramping_raise_reg', 'joint_ramping_lower_reg'), dict(dispatch_types=False)),
           ('fast_start', ['volume_bids', 'fast_start_profiles'], 'fast_start', dict(dispatch_types=False))]
for costkey, tabs, fams, c in ELASTIC:
    run_group('C11', 'elastic ' + costkey, tabs, check_elastic([fams] if isinstance(fams, str) else list(fams), scalar),
              dict(c, cost=symbolic_cost(costkey)))


def cost_table(costkey):
    def f(run):
        run.cfg['cost'] = {costkey: run.T['violation_costs']}
    return f


def in_cost_table(run, C):
    return run.ctx.t('violation_costs').has(('set',), (C.vals['set'],))


for fam, tabs in (('generic', ['volume_bids', 'generic_parameters', 'unit_coefficients', 'violation_costs']),
                  ('fcas', ['volume_bids', 'fcas_requirements', 'violation_costs'])):
    run_group('C11', 'elastic %s, cost per set' % fam, tabs, check_elastic([fam], from_table, in_cost_table),
              dict(before=cost_table(fam)))


# ------------------------------------------------------------------ C13 ids, replacement, input tables unchanged
def frames_of(obj, depth=0):
    """every table held by the market"""
    out = []
    if isinstance(obj, table.DF):
        return [obj]
    if isinstance(obj, dict):
        for v in obj.values():
            out += frames_of(v, depth + 1)
    return out


def market_frames(m):
    return frames_of({k: v for k, v in vars(m).items() if isinstance(v, (dict, table.DF))})


def snapshot(T):
    return {n: [(list(s.binders), [zb(x) for x in s.guard], dict(s.vals)) for s in d.segs] for n, d in T.items()}


def unchanged(T, snap):
    for n, d in T.items():
        now = snapshot({n: d})[n]
        ok = len(now) == len(snap[n])
        eqs = []
        for (b, g, v), (b0, g0, v0) in zip(now, snap[n]):
            ok = ok and [x.get_id() for x in b] == [x.get_id() for x in b0] and list(v) == list(v0)
            if not ok:
                break
            eqs.append(z3.And(*g) == z3.And(*g0) if g or g0 else z3.BoolVal(True))
            eqs += [zb(mkt.value_eq(v[c], v0[c])) for c in v]
        if not ok:
            E.record('C13: table %s given by the user is unchanged' % n, 'refuted', 'rows or columns changed')
        else:
            E.prove('C13: table %s given by the user is unchanged' % n, z3.And(*eqs))


def step_group(name, tables, step, cfg=None, slow=False):
    """frame and id contract of one model building call, from any state of the id counters"""
    cfg0 = dict(dict(dispatch_types=True, service=True, bands=B2), **(cfg or {}))

    def go():
        state = {}

        def before(run):
            if cfg0.get('before2'):
                cfg0['before2'](run)
            state['snap'] = snapshot(run.T)
        cfg1 = dict(cfg0, before=before)
        pre = [s for s in driver.STEPS if s in tables and s != step]
        # what the call needs comes first
        need = [s for s in driver.STEPS if s in _needs(step) and s in tables]
        run = mkt.Run(tables, cfg1, steps=need or ['nothing'], dispatch=False)
        m = run.m
        nv, nc = z3.Int('any_next_variable_id'), z3.Int('any_next_constraint_id')
        E.assume(z3.And(nv >= core.asnum(m._next_variable_id).e, nc >= core.asnum(m._next_constraint_id).e))
        m._next_variable_id, m._next_constraint_id = core.SNum(nv), core.SNum(nc)
        old = {id(d): d for d in market_frames(m)}
        driver.STEPS[step](m, run.T, run.cfg)
        new = [d for d in market_frames(m) if id(d) not in old]
        var = [s for d in new for s in d.segs if 'variable_id' in s.vals and 'upper_bound' in s.vals]
        con = [s for d in new for s in d.segs if 'constraint_id' in s.vals and 'type' in s.vals and
               ('rhs' in s.vals or 'rhs_variable_id' in s.vals)]
        mkt.in_range('C13: %s: variable ids' % step, var, 'variable_id', core.SNum(nv), m._next_variable_id)
        mkt.in_range('C13: %s: constraint ids' % step, con, 'constraint_id', core.SNum(nc), m._next_constraint_id)
        E.prove('C13: %s: counters never go back' % step,
                z3.And(core.asnum(m._next_variable_id).e >= nv, core.asnum(m._next_constraint_id).e >= nc))
        mkt.distinct('C13: %s: variable ids' % step, var, 'variable_id')
        mkt.distinct('C13: %s: constraint ids' % step, con, 'constraint_id')
        unchanged(run.T, state['snap'])

    def f(tier):
        return explore(go, functions=mkt.functions_run)
    group('C13', name, slow)(f)


def _needs(step):
    out = []
    for s in driver.NEEDS.get(step, []):
        out += _needs(s) + [s]
    return out


ND = dict(dispatch_types=False)
for step, tabs, ck, c in [
        ('volume_bids', [], None, {}), ('price_bids', ['volume_bids'], None, {}),
        ('unit_limits', ['volume_bids'], 'unit_bid_capacity', {}), ('uigf_limits', ['volume_bids'], 'uigf_capacity', {}),
        ('ramp_details', ['volume_bids'], 'ramp', {}), ('fast_start_profiles', ['volume_bids'], 'fast_start', ND),
        ('demand', [], 'demand', {}), ('fcas_requirements', [], 'fcas', {}),
        ('fcas_max_availability', ['volume_bids'], 'fcas_max_availability', {}),
        ('reg_ramp_rates', ['volume_bids'], 'joint_ramping', ND),
        ('contingency_trapeziums', ['volume_bids'], 'joint_capacity', {}),
        ('regulation_trapeziums', ['volume_bids'], 'energy_and_regulation_capacity', {}),
        ('interconnectors', [], None, {}),
        ('generic_parameters', [], 'generic', {}), ('unit_coefficients', ['volume_bids'], None, {}),
        ('region_coefficients', ['volume_bids'], None, {}), ('interconnector_coefficients', ['interconnectors'], None, {})]:
    step_group('ids and inputs of ' + step, tabs + [step], step, c)
    if ck:
        step_group('ids and inputs of %s, elastic' % step, tabs + [step], step, dict(c, cost=symbolic_cost(ck)),
                   slow=step in ('fast_start_profiles', 'ramp_details', 'reg_ramp_rates'))


def check_distinct(run):
    mkt.distinct('C13: variables of the problem', run.cap.variables.segs, 'variable_id')
    mkt.distinct('C13: constraints of the problem', run.cap.rhs.segs, 'constraint_id')


def repeat_group(step, tables, fams, costkey, c, slow=False):
    """a call made again replaces what it set before: the family is as if called once, no slack stays behind"""
    cfg0 = dict(dict(dispatch_types=True, service=True, bands=B2), **c)

    def go(first_elastic):
        def again(run):
            run.cfg.pop('cost', None)
            driver.STEPS[step](run.m, run.T, run.cfg)
        cfg = dict(cfg0, **(dict(cost=symbolic_cost(costkey)) if first_elastic else {}))
        run = mkt.Run(tables, cfg, after=again)
        check_distinct(run)
        P = mkt.Problem(run, 'C13: called twice')
        for k in fams:
            P.family(k)
        if first_elastic:
            check_elastic([], scalar)(run)
            E.record('C13: no slack variable of a replaced constraint set is left',
                     'refuted' if [s for s in run.cap.variables.segs if s.tag not in KNOWN_VARS] else 'proved')

    def f(tier):
        return explore(lambda: go(bool(costkey)), functions=mkt.functions_run)
    group('C13', 'repeated call of ' + step, slow)(f)


for step, tabs, fams, ck, c in [
        ('unit_limits', ['volume_bids'], ['unit_bid_capacity'], 'unit_bid_capacity', {}),
        ('uigf_limits', ['volume_bids'], ['uigf_capacity'], 'uigf_capacity', {}),
        ('ramp_details', ['volume_bids'], ['ramp_up', 'ramp_down'], 'ramp', ND),
        ('demand', ['volume_bids'], ['demand'], 'demand', {}),
        ('fcas_requirements', ['volume_bids'], ['fcas'], 'fcas', {}),
        ('fcas_max_availability', ['volume_bids'], ['fcas_max_availability'], 'fcas_max_availability', {}),
        ('contingency_trapeziums', ['volume_bids'], ['joint_capacity'], 'joint_capacity', {}),
        ('regulation_trapeziums', ['volume_bids'], ['energy_and_regulation_capacity'], 'energy_and_regulation_capacity', {}),
        ('reg_ramp_rates', ['volume_bids'], ['joint_ramping_raise_reg', 'joint_ramping_lower_reg'], 'joint_ramping', ND),
        ('fast_start_profiles', ['volume_bids'], ['fast_start'], 'fast_start', ND),
        ('generic_parameters', ['volume_bids', 'unit_coefficients'], ['generic'], 'generic', {})]:
    repeat_group(step, tabs + [step], fams, ck, c, slow=step in ('reg_ramp_rates', 'fast_start_profiles'))


def check_repeat_bids(run):
    check_distinct(run)
    check_vars('bids', 'C13: called twice')(run)


def again(*steps):
    def f(run):
        for s in steps:
            driver.STEPS[s](run.m, run.T, run.cfg)
    return f


run_group('C13', 'repeated call of volume_bids', ['volume_bids'], check_repeat_bids, after=again('volume_bids'))
run_group('C13', 'repeated call of price_bids', ['volume_bids', 'price_bids'], lambda run: (check_distinct(run), check_objective(run)),
          after=again('price_bids'))
run_group('C13', 'repeated call of interconnectors', ['volume_bids', 'interconnectors', 'demand'],
          lambda run: (check_distinct(run), check_vars('interconnectors', 'C13: called twice')(run),
                       mkt.Problem(run, 'C13: called twice').family('demand')), after=again('interconnectors'))


# ------------------------------------------------------------------ C12 tie breaking
def check_ties(run):
    P = mkt.Problem(run, 'C12')
    ctx = run.ctx
    rel = ctx.t('volume_bids')
    vs = segs_of(run.cap.variables, 'bids')
    cs = [s for s in run.cap.rhs.segs if s.tag == 'tie_break']
    row = lambda s: mkt.VRow(s.vals, 'bids', s)

    def tied(a, b):
        a, b = row(a), row(b)
        return core.b_and(mkt.value_eq(a.service, 'energy'), mkt.value_eq(b.service, 'energy'),
                          core.b_not(mkt.value_eq(a.unit, b.unit)), mkt.value_eq(a.dispatch_type, b.dispatch_type),
                          mkt.value_eq(ms.var_region(ctx, a), ms.var_region(ctx, b)),
                          mkt.value_eq(ms.bid_cost(ctx, a), ms.bid_cost(ctx, b)))

    def coef(vals, v):
        return P.coefficient(vals['constraint_id'], None, v.vals['variable_id'])

    def nz(x):
        return core.b_not(mkt.value_eq(x, 0.0))
    for i, A in enumerate(vs):
        for B in vs[:i + 1]:
            a, b = A.renamed()[0], B.renamed()[0]
            label = 'C12: bands %s and %s' % (a.vals['capacity_band'], b.vals['capacity_band'])
            hyp = [zb(x) for x in a.guard] + [zb(x) for x in b.guard] + [zb(tied(a, b))]
            ta, tb = mkt.find_binder(a, rel)[0], mkt.find_binder(b, rel)[0]
            cands = []
            for c in cs:
                for p, q in ((ta, tb), (tb, ta)):
                    c2, _ = c.renamed()
                    bs = mkt.find_binder(c2, rel)
                    if len(bs) != 2:
                        E.record(label + ': matching of constraints', 'unknown', 'not two bids')
                        return
                    eqs = [(core.SRef('row', bs[0]), core.SRef('row', p)), (core.SRef('row', bs[1]), core.SRef('row', q))]
                    pc = mkt.pin(c2.binders, c2.guard, eqs)
                    if pc is None:
                        E.record(label + ': matching of constraints', 'unknown', 'undetermined binder')
                        return
                    for m, extra in pc:
                        g = core.b_and(*[mkt.subst_b(x, m) for x in c2.guard], *table.eq_conds(eqs, m), *extra)
                        if core.is_f(g):
                            continue
                        vals = {k: mkt.subst_val(v, m) for k, v in c2.vals.items()}
                        g = core.b_and(g, nz(coef(vals, a)), nz(coef(vals, b)))
                        if E.sat(hyp + [zb(g)]) == 'unsat':
                            continue
                        cands.append((g, vals))
            E.prove(label + ': constraint exists', zb(core.b_or(*[g for g, _ in cands])), hyp)
            for k in range(len(cands)):
                for j in range(k):
                    E.prove(label + ': constraint unique', zb(core.b_not(core.b_and(cands[k][0], cands[j][0]))), hyp)
            for g, vals in cands:
                h = hyp + [zb(g)]
                E.prove(label + ': equality', zb(core.b_and(mkt.value_eq(vals['type'], '='), mkt.value_eq(vals['rhs'], 0.0))), h)
                x = core.num_mul(core.asnum(coef(vals, a)), core.asnum(a.vals['upper_bound']))
                y = core.num_mul(core.asnum(coef(vals, b)), core.asnum(b.vals['upper_bound']))
                E.prove(label + ': dispatch in proportion to volume', zb(mkt.value_eq(core.num_add(x, y), 0.0)), h)
                for O in vs:
                    o = O.renamed()[0]
                    other = core.b_not(core.b_or(mkt.value_eq(o.vals['variable_id'], a.vals['variable_id']),
                                                 mkt.value_eq(o.vals['variable_id'], b.vals['variable_id'])))
                    E.prove(label + ': no other bid', zb(mkt.value_eq(coef(vals, o), 0.0)),
                            h + [zb(z) for z in o.guard] + [zb(other)])
    for c in cs:
        c2, _ = c.renamed()
        bs = mkt.find_binder(c2, rel)
        alts = []
        for A in vs:
            for B in vs:
                a, b = A.renamed()[0], B.renamed()[0]
                ba, bb = mkt.find_binder(a, rel)[0], mkt.find_binder(b, rel)[0]
                a, b = a.at({ba: bs[0]}) if False else _at(a, ba, bs[0]), _at(b, bb, bs[1])
                alts.append(core.b_and(*a.guard, *b.guard, tied(a, b), nz(coef(c2.vals, a)), nz(coef(c2.vals, b))))
        E.prove('C12: every tie break constraint ties two bids that are tied', zb(core.b_or(*alts)), [zb(x) for x in c2.guard])


def _at(seg, b, t):
    m = [(b, t)]
    return table.Seg((), [mkt.subst_b(x, m) for x in seg.guard], {k: mkt.subst_val(core.lift(v), m) for k, v in seg.vals.items()},
                     seg.lab, seg.tag)


TIE = dict(tie_break_cost=core.SNum(z3.Real('violation_cost')))
for sh, c in SHAPES.items():
    run_group('C12', 'tied bids' + sh, ['volume_bids', 'price_bids'], check_ties, dict(c, bands=['1'], **TIE))


def check_tie_function(run):
    """contract of the function that builds the ties, for bid variables of any band"""
    UC = run.L.load('nempy.spot_market_backend.unit_constraints')
    pb = core.Relation('costed_bids', dict(variable_id=core.I(), unit=core.S(), service=core.S(ms.SERVICES),
                                           dispatch_type=core.S(mkt.DT), cost=core.F()), [('variable_id',)], nonempty=True)
    dvs = core.Relation('bid_variables', dict(variable_id=core.I(), upper_bound=core.F()), [('variable_id',)],
                        lambda r: core.num_cmp(0.0, r.upper_bound, 'lt'))
    ui = run.ctx.t('unit_info')
    mkt.fact(pb, lambda r: core.b_and(boolof(dvs.has(('variable_id',), (r.variable_id,))),
                                      boolof(ms.has_unit_row(run.ctx, r.unit, r.dispatch_type))))
    nc = core.SNum(z3.Int('nc'))
    lhs, rhs = UC.tie_break_constraints(table.frame(pb), table.frame(dvs), run.T['unit_info'].loc[:, ['unit', 'dispatch_type', 'region']], nc)
    ta, a = mkt.generic_row(pb, 'a')
    tb, b = mkt.generic_row(pb, 'b')

    def tied(a, b):
        reg = lambda r: ms.unit_row(run.ctx, r.unit, r.dispatch_type).region
        return core.b_and(mkt.value_eq(a.service, 'energy'), mkt.value_eq(b.service, 'energy'),
                          core.b_not(mkt.value_eq(a.unit, b.unit)), mkt.value_eq(a.dispatch_type, b.dispatch_type),
                          mkt.value_eq(reg(a), reg(b)), mkt.value_eq(a.cost, b.cost))

    def coef(cid, vid):
        return table.total_where(lhs.segs, [('constraint_id', cid), ('variable_id', vid)], lambda R: R.vals['coefficient'])

    def ub(r):
        return dvs.get(('variable_id',), (r.variable_id,)).upper_bound
    hyp = [pb.inf(ta), pb.inf(tb), zb(tied(a, b))]
    cands = []
    for c in rhs.segs:
        for p, q in ((ta, tb), (tb, ta)):
            c2, _ = c.renamed()
            bs = mkt.find_binder(c2, pb)
            eqs = [(core.SRef('row', bs[0]), core.SRef('row', p)), (core.SRef('row', bs[1]), core.SRef('row', q))]
            for m, extra in mkt.pin(c2.binders, c2.guard, eqs) or []:
                g = core.b_and(*[mkt.subst_b(x, m) for x in c2.guard], *table.eq_conds(eqs, m), *extra)
                if not core.is_f(g):
                    cands.append((g, {k: mkt.subst_val(v, m) for k, v in c2.vals.items()}))
    E.prove('C12: tied variables: constraint exists', zb(core.b_or(*[g for g, _ in cands])), hyp)
    for i in range(len(cands)):
        for j in range(i):
            E.prove('C12: tied variables: constraint unique', zb(core.b_not(core.b_and(cands[i][0], cands[j][0]))), hyp)
    for g, vals in cands:
        h = hyp + [zb(g)]
        ca, cb = coef(vals['constraint_id'], a.variable_id), coef(vals['constraint_id'], b.variable_id)
        E.prove('C12: tied variables: equality', zb(core.b_and(mkt.value_eq(vals['type'], '='), mkt.value_eq(vals['rhs'], 0.0))), h)
        E.prove('C12: tied variables: dispatch in proportion to volume', zb(core.b_and(
            mkt.value_eq(core.num_add(core.num_mul(core.asnum(ca), ub(a)), core.num_mul(core.asnum(cb), ub(b))), 0.0),
            core.b_not(mkt.value_eq(ca, 0.0)))), h)
        to, o = mkt.generic_row(pb, 'o')
        E.prove('C12: tied variables: no other variable', zb(mkt.value_eq(coef(vals['constraint_id'], o.variable_id), 0.0)),
                h + [pb.inf(to), to != ta, to != tb])
    for c in rhs.segs:
        c2, _ = c.renamed()
        bs = mkt.find_binder(c2, pb)
        E.prove('C12: every tie joins two tied variables', zb(core.b_and(pb.inf(bs[0]), pb.inf(bs[1]), tied(pb.row(bs[0]), pb.row(bs[1])))),
                [zb(x) for x in c2.guard])
    mkt.distinct('C12: tie constraint ids', rhs.segs, 'constraint_id')


run_group('C12', 'function that builds the ties', [], check_tie_function, steps=['nothing'], dispatch=False)


# ------------------------------------------------------------------ C09 interconnectors and losses
LOSS = ['volume_bids', 'interconnectors', 'loss_functions', 'break_points']


def check_sos2(run):
    d, ids, pos = run.cap.sos2
    mkt.rows_match('C09: ordered set of weights', [mkt.table.Seg(s.binders, s.guard, s.vals, s.lab, s.tag) for s in d.segs],
                   run.ctx.t('break_points'), lambda r: [mkt.Exp(True, {}, dict(
                       interconnector=r.interconnector, link=r.opt('link', r.interconnector), loss_segment=r.loss_segment))])
    E.record('C09: ordered set of weights: one set per link, ordered by loss segment',
             'proved' if set(ids) == {'interconnector', 'link'} and pos == 'loss_segment' else 'unknown', '%s %s' % (ids, pos))
    for s in d.segs:
        v, _ = s.renamed()
        n = table.total_where(segs_of(run.cap.variables, 'interpolation_weights'), [('variable_id', v.vals['variable_id'])],
                              lambda V: core.ite(core.b_and(*[mkt.value_eq(V.vals[c], v.vals[c]) for c in ('interconnector', 'link', 'loss_segment')]), 1.0, 0.0))
        E.prove('C09: ordered set of weights: variable of the weight', zb(mkt.value_eq(n, 1.0)), [zb(x) for x in v.guard])


def check_sos1(run):
    r = run.ctx.t('interconnectors')
    segs = [] if run.cap.sos1 is None else run.cap.sos1.segs
    mkt.rows_match('C09: exclusive set of links', segs, r, lambda r: [mkt.Exp(
        core.b_not(mkt.value_eq(r.interconnector, r.link)), {}, dict(sos_id=r.interconnector))])
    for s in segs:
        v, _ = s.renamed()
        n = table.total_where(segs_of(run.cap.variables, 'interconnectors'), [('variable_id', v.vals['variable_id'])],
                              lambda V: core.ite(core.b_and(mkt.value_eq(V.vals['interconnector'], v.vals['sos_id']), mkt.value_eq(V.vals['link'], v.vals['link'])), 1.0, 0.0))
        E.prove('C09: exclusive set of links: variable of the link', zb(mkt.value_eq(n, 1.0)), [zb(x) for x in v.guard])


run_group('C09', 'exclusive links', ['volume_bids', 'interconnectors'], check_sos1)


def check_loss_vars(run):
    segs = segs_of(run.cap.variables, 'interconnector_losses')
    mkt.rows_match('C09: loss variables', segs, run.ctx.t('interconnectors'), lambda r: [mkt.Exp(
        run.ctx.t('loss_functions').has(r.rel.keys[0], tuple(r[c] for c in r.rel.keys[0])), {},
        dict(interconnector=r.interconnector, link=r.opt('link', r.interconnector), type='continuous'))])
    for s in segs:
        v, _ = s.renamed()
        k = run.ctx.t('interconnectors').keys[0]
        r = run.ctx.t('interconnectors').get(k, tuple(v.vals[c] for c in k))
        M = core.smax(core.num_abs(r.min), core.num_abs(r.max))
        E.prove('C09: loss variables: bounds leave room for every flow', zb(core.b_and(
            boolof(core.num_cmp(v.vals['lower_bound'], core.num_neg(core.asnum(M)), 'le')),
            boolof(core.num_cmp(M, v.vals['upper_bound'], 'le')))), [zb(x) for x in v.guard])


for shape, c in (('', {}), (' (no links)', dict(link=False))):
    run_group('C09', 'flow variables' + shape, ['volume_bids', 'interconnectors'], check_vars('interconnectors', 'C09'), c)
    run_group('C09', 'weight variables' + shape, LOSS, check_vars('interpolation_weights', 'C09'), c)
    run_group('C09', 'loss variables' + shape, LOSS, check_loss_vars, c)
    fam_group('C09', 'weights sum to one' + shape, LOSS, ['weights_sum'], c)
    fam_group('C09', 'weights give the flow' + shape, LOSS, ['weights_flow'], c)
    fam_group('C09', 'weights give the loss' + shape, LOSS, ['weights_loss'], c)
    run_group('C09', 'ordered sets' + shape, LOSS, check_sos2, c)


# ------------------------------------------------------------------ C14 region summary
def check_summary(run):
    ctx = run.ctx
    d = run.m.get_region_dispatch_summary()
    inter, losses = ctx.t('interconnectors'), ctx.t('loss_functions')
    cols = ['dispatch'] + (['inflow', 'transmission_losses'] if inter is not None else []) + \
        (['interconnector_losses'] if losses is not None else [])
    E.record('C14: columns of the summary', 'proved' if set(cols) <= set(d.columns) else 'refuted', str(list(d.columns)))

    def exists(region, hyp, what):
        fin, rest = table.candidates(d.segs, lambda R: [(R.vals['region'], region)])
        E.prove('C14: %s is in the summary' % what, zb(core.b_or(*[g for g, _ in fin])), hyp)

    vb = ctx.t('volume_bids')
    t, r = mkt.generic_row(vb, 'bid')
    exists(ms.unit_row(ctx, r.unit, ms.dt(r)).region,
           [vb.inf(t), zb(boolof(ms.offered(ctx, r))), zb(mkt.value_eq(ms.srv(r), 'energy'))], 'the region of every energy bid')
    if inter is not None:
        t, r = mkt.generic_row(inter, 'inter')
        exists(r.to_region, [inter.inf(t)], 'the receiving region of every link')
        exists(r.from_region, [inter.inf(t)], 'the sending region of every link')
    for i, a in enumerate(d.segs):
        for b in d.segs[:i]:
            a2, b2 = a.renamed()[0], b.renamed()[0]
            E.prove('C14: no region twice', zb(core.b_not(mkt.value_eq(a2.vals['region'], b2.vals['region']))),
                    [zb(x) for x in a2.guard] + [zb(x) for x in b2.guard])
        a2, b2 = a.renamed()[0], a.renamed()[0]
        E.prove('C14: no region twice', zb(core.b_or(core.b_not(mkt.value_eq(a2.vals['region'], b2.vals['region'])),
                                                     core.b_and(*[x == y for x, y in zip(a2.binders, b2.binders)]))),
                [zb(x) for x in a2.guard] + [zb(x) for x in b2.guard])

    def terms(fam, region, f):
        out = []
        for s in segs_of(run.cap.variables, fam):
            v, _ = s.renamed()
            row = mkt.VRow(v.vals, fam, v)
            x = SNumX(v.vals['variable_id'])
            for g, k in f(row):
                out.append((v.binders, list(v.guard) + [core.b_and(boolof(g[0]), mkt.value_eq(g[1], region))],
                            core.num_mul(x, core.asnum(k))))
        return out

    def unit(v):
        return [((mkt.value_eq(v.service, 'energy'), ms.var_region(ctx, v)),
                 core.ite(mkt.value_eq(v.dispatch_type, 'load'), -1.0, 1.0))]

    def flow(v):
        r = ms.inter_row(ctx, v)
        return [((True, r.to_region), 1.0), ((True, r.from_region), -1.0)]

    def trans(v):
        r = ms.inter_row(ctx, v)
        return [((True, r.to_region), core.num_add(1.0, core.num_neg(core.asnum(r.opt('to_region_loss_factor', 1.0))))),
                ((True, r.from_region), core.num_add(core.asnum(r.opt('from_region_loss_factor', 1.0)), -1.0))]

    def loss(v):
        r = ms.inter_row(ctx, v)
        sh = ms.link_get(losses, v).from_region_loss_share
        return [((True, r.from_region), sh), ((True, r.to_region), core.num_add(1.0, core.num_neg(core.asnum(sh))))]
    what = dict(dispatch=('bids', unit), inflow=('interconnectors', flow), transmission_losses=('interconnectors', trans),
                interconnector_losses=('interconnector_losses', loss))
    for s in d.segs:
        row, _ = s.renamed()
        h = [zb(x) for x in row.guard]
        for c in cols:
            mkt.prove_sum('C14: %s of a region' % c, row.vals[c], terms(what[c][0], row.vals['region'], what[c][1]), h)


def SNumX(vid):
    return core.SNum(mkt.X(core.asnum(vid).e))


for sh, c in SHAPES.items():
    run_group('C14', 'units only' + sh, ['volume_bids'], check_summary, c)
run_group('C14', 'interconnectors', ['volume_bids', 'interconnectors'], check_summary)
run_group('C14', 'interconnectors and losses', LOSS, check_summary, dict(bands=['1']))
run_group('C14', 'interconnectors and losses (two bands)', LOSS, check_summary, slow=True)
run_group('C14', 'interconnectors and losses (no links)', LOSS, check_summary, dict(link=False))


# ------------------------------------------------------------------ C15 prices
def rhs_of(run, tag):
    return [s for s in run.cap.rhs.segs if s.tag == tag]


def check_prices(pi):
    def body(run):
        ctx = run.ctx
        f = lambda R: core.SNum(pi(core.asnum(R.vals['constraint_id']).e))
        if ctx.t('demand') is not None:
            mkt.rows_match('C15: energy prices', run.m.get_energy_prices().segs, ctx.t('demand'), lambda r: [mkt.Exp(
                True, {}, dict(region=r.region, price=table.total_where(rhs_of(run, 'demand'), [('region', r.region)], f)))])
        fr = ctx.t('fcas_requirements')
        if fr is not None:
            d = run.m.get_fcas_prices()
            t, r = mkt.generic_row(fr, 'req')
            fin, rest = table.candidates(d.segs, lambda R: [(R.vals['region'], r.region), (R.vals['service'], r.service)])
            E.prove('C15: fcas price of every region and service with a requirement', zb(core.b_or(*[g for g, _ in fin])), [fr.inf(t)])
            for i, a in enumerate(d.segs):
                for b in d.segs[:i + 1]:
                    a2, b2 = a.renamed()[0], b.renamed()[0]
                    eq = core.b_and(*[mkt.value_eq(a2.vals[c], b2.vals[c]) for c in ('region', 'service')])
                    same = core.b_and(*[x == y for x, y in zip(a2.binders, b2.binders)]) if a is b else False
                    E.prove('C15: fcas price given once', zb(core.b_or(core.b_not(eq), same)),
                            [zb(x) for x in a2.guard] + [zb(x) for x in b2.guard])
            for s in d.segs:
                row, _ = s.renamed()
                q, rq = mkt.generic_row(fr, 'q')
                v = table.total_where(rhs_of(run, 'fcas'), [('set', rq['set'])], f)
                mkt.prove_sum('C15: fcas price', row.vals['price'], [((q,), [fr.inf(q), core.b_and(
                    mkt.value_eq(rq.region, row.vals['region']), mkt.value_eq(rq.service, row.vals['service']))], v)],
                    [zb(x) for x in row.guard])
    return body


def instances(tuples):
    """the facts about one or two rows at given rows"""
    out = []
    n = len(tuples[0])
    so = [b.sort() for b in tuples[0]]
    for f in E.facts:
        bs = list(f.binders)
        if [b.sort() for b in bs] == so:
            out += [z3.substitute(f.formula, *zip(bs, t)) for t in tuples]
        elif [b.sort() for b in bs] == so + so:
            out += [z3.substitute(f.formula, *zip(bs, list(t) + list(u))) for t in tuples for u in tuples if t is not u]
    return out


def check_price_run(run):
    """variables switched off in the price run"""
    ctx = run.ctx
    off = [s for d in run.cap.disabled for s in d.segs]
    one = lambda R: core.SNum(core.realval(1))

    def id_off(vid):
        return core.b_not(mkt.value_eq(table.total_where(off, [('variable_id', vid)], one), 0.0))
    i, j = run.cap.calls.index('optimize_linear'), [k for k, c in enumerate(run.cap.calls) if c == 'disable']
    E.record('C15: variables are switched off before the price run and after the dispatch run',
             'proved' if all(run.cap.calls.index('optimize') < k < i for k in j) else 'refuted', str(run.cap.calls))
    for s in run.cap.variables.segs:
        v, _ = s.renamed()
        h = [zb(x) for x in v.guard]
        if s.tag == 'interconnectors':
            E.prove('C15: link switched off if and only if idle', zb(id_off(v.vals['variable_id'])) == zb(core.b_and(
                core.b_not(mkt.value_eq(v.vals['interconnector'], v.vals['link'])),
                mkt.value_eq(SNumX(v.vals['variable_id']), 0.0))), h)
        elif s.tag != 'interpolation_weights':
            E.prove('C15: %s never switched off' % s.tag, zb(core.b_not(id_off(v.vals['variable_id']))), h)
    ws = segs_of(run.cap.variables, 'interpolation_weights')
    fl = segs_of(run.cap.variables, 'interconnectors')
    if len(ws) != 1:
        E.record('C15: interpolation weights', 'unknown', 'several row sets')
        return
    w = [ws[0].renamed()[0] for _ in range(4)]
    bp, ic = ctx.t('break_points'), ctx.t('interconnectors')
    rows = [s for s in off if [b for b in s.binders if b.sort() == bp.sort]]
    K = ic.keys[0]

    def terms(s, v):
        r = bp.row(v.binders[0])
        return [v.binders[0] if b.sort() == bp.sort else ic.lookup(K, tuple(r[c] for c in K)) for b in s.binders]
    if len(rows) != 1 or any(b.sort() not in (bp.sort, ic.sort) for b in rows[0].binders):
        E.record('C15: interpolation weights switched off', 'unknown', 'row sets %s %s' % ([s.binders for s in off], [[zb(x) for x in s.guard] for s in rows]))
        return

    def split(v):
        at = rows[0].at(terms(rows[0], v))
        gs = table.conjuncts([zb(x) for x in at.guard])
        rk = [g for g in gs if 'rank!' in g.sexpr()]
        return [g for g in gs if not any(g is x for x in rk)], rk, at
    base, rk, at = split(w[0])
    h0 = [zb(x) for x in w[0].guard]
    n0 = len([o for o in E.obligations if o.status == 'proved'])
    E.prove('C15: every weight is ranked by its distance to the flow', z3.And(*base), h0)
    E.prove('C15: the variable switched off is that of the weight', zb(mkt.value_eq(at.vals['variable_id'], w[0].vals['variable_id'])), h0 + base)
    for s in off:
        if s is rows[0]:
            s2, _ = s.renamed()
            b = [x for x in s2.binders if x.sort() == bp.sort][0]
            E.prove('C15: a weight is ranked once', z3.And(*[x == y for x, y in zip(s2.binders, terms(s, table.Seg((b,), [], {})))]),
                    [zb(x) for x in s2.guard])
        else:
            s2, _ = s.renamed()
            E.prove('C15: weights are switched off by their rank only', zb(core.b_not(mkt.value_eq(s2.vals['variable_id'], w[0].vals['variable_id']))),
                    h0 + [zb(x) for x in s2.guard])
    if len([o for o in E.obligations if o.status == 'proved']) < n0 + 2:
        return

    def is_off(v):
        return core.b_and(*split(v)[1])

    def dist(v):
        f = table.total_where(fl, [('interconnector', v.vals['interconnector']), ('link', v.vals['link'])],
                              lambda R: SNumX(R.vals['variable_id']))
        return core.num_abs(core.num_add(core.asnum(f), core.num_neg(core.asnum(v.vals['break_point']))))

    def same_link(a, b):
        return core.b_and(mkt.value_eq(a.vals['interconnector'], b.vals['interconnector']), mkt.value_eq(a.vals['link'], b.vals['link']))

    def ne(a, b):
        return core.b_not(core.b_and(*[x == y for x, y in zip(a.binders, b.binders)]))
    hyp = [zb(x) for v in w for x in v.guard] + [zb(same_link(w[0], v)) for v in w[1:]]
    hyp += [zb(ne(w[i], w[j])) for i in range(4) for j in range(i)]
    hyp += instances([terms(rows[0], v) for v in w]) + [x for v in w for x in split(v)[0]]
    # of four weights of a link one is switched off
    E.prove('C15: at most three weights of a link stay on', zb(core.b_or(*[is_off(v) for v in w])), hyp)
    # a weight that is switched off is not nearer than one that stays on, and three stay on
    a, b = w[0], w[1]
    h2 = [zb(x) for v in (a, b) for x in v.guard] + [zb(same_link(a, b)), zb(is_off(a)),
                                                     zb(core.b_not(is_off(b)))]
    h2 += split(a)[0] + split(b)[0] + instances([terms(rows[0], a), terms(rows[0], b)])
    E.prove('C15: the weights that stay on are the nearest to the flow',
            zb(boolof(core.num_cmp(dist(b), dist(a), 'le'))), h2)
    # if something is switched off there are three that stay on
    inst = instances([terms(rows[0], a)])
    ats = {}
    for f in inst:
        for x in subterms(f):
            if z3.is_app(x) and x.decl().name().startswith('at!') and x.sort() == bp.sort:
                ats.setdefault(x.get_id(), x)
    ats = list(ats.values())
    if len(ats) != 3:
        E.record('C15: three weights stay on where some are switched off', 'unknown', '%d rows found' % len(ats))
        return
    h = [zb(x) for x in a.guard] + [zb(is_off(a))] + split(a)[0] + inst
    vs = [ws[0].at([x]) for x in ats]
    vs = [table.Seg((x,), v.guard, v.vals) for x, v in zip(ats, vs)]
    for v in vs:
        E.prove('C15: a weight that is switched off has three rows ahead in its link', zb(core.b_and(*v.guard, same_link(a, v), core.b_not(is_off(v)))), h)
    E.prove('C15: three weights stay on where some are switched off', z3.Distinct(*ats), h)


def subterms(e):
    out, st, seen = [], [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
        st.extend(x.children())
    return out


PRICED = ['volume_bids', 'demand', 'fcas_requirements']
for sh, c in SHAPES.items():
    run_group('C15', 'prices' + sh, PRICED, check_prices(mkt.PI), c)
run_group('C15', 'prices with losses', LOSS + ['demand'], check_prices(mkt.PI), dict(bands=['1']))
run_group('C15', 'price run', LOSS, check_price_run, dict(bands=['1']))


CEIL, FLOOR, FCEIL = (core.SNum(z3.Real(n)) for n in ('energy_ceiling', 'energy_floor', 'fcas_ceiling'))


def back(v):
    """inv!k_i(pos!k(x)) rewritten to x_i"""
    v = core.asnum(v)
    while True:
        todo, seen, sub = [v.e], set(), []
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_app(e) and e.decl().name().startswith('inv!') and z3.is_app(e.arg(0)) and \
                    e.arg(0).decl().name() == 'pos!' + e.decl().name()[4:].rsplit('_', 1)[0]:
                sub.append((e, e.arg(0).arg(int(e.decl().name().rsplit('_', 1)[1]))))
            todo.extend(e.children())
        if not sub:
            return v
        v = core.subst_val(v, sub)


def check_rerun(fams):
    def body(run):
        ctx = run.ctx
        done = run.cap.calls.count('optimize_linear') > 1
        beyond = []

        def price(R):
            return core.SNum(mkt.PI(core.asnum(R.vals['constraint_id']).e))
        for tag in ('demand', 'fcas'):
            for s in rhs_of(run, tag):
                c, _ = s.renamed()
                cond = core.b_or(boolof(core.num_cmp(CEIL, price(c), 'le')), boolof(core.num_cmp(price(c), FLOOR, 'le'))) \
                    if tag == 'demand' else boolof(core.num_cmp(FCEIL, price(c), 'le'))
                beyond.append((c, core.b_and(*c.guard, cond)))
        viol = {}
        for s in run.cap.variables.segs:
            for f in fams:
                if s.tag == f + '_deficit':
                    v, _ = s.renamed()
                    x = SNumX(v.vals['variable_id'])
                    viol.setdefault(f, []).append((v, core.b_and(*v.guard, core.b_or(
                        boolof(core.num_cmp(0.0001, x, 'lt')), boolof(core.num_cmp(x, -0.0001, 'lt'))))))
        allv = [x for f in viol for x in viol[f]]
        n = len(E.facts)
        if done:
            for what, lst in (('a price is at or beyond a cap', beyond), ('a constraint is violated', allv)):
                for v, c in lst:
                    E.facts.append(core.Fact(list(v.binders), z3.Not(zb(c))))
                E.prove('C15: re-run only when ' + what, z3.BoolVal(False))
                del E.facts[n:]
        else:
            for c, b in beyond:
                for v, x in allv:
                    E.prove('C15: re-run when a price is beyond a cap and a constraint is violated', z3.BoolVal(False), [zb(b), zb(x)])
            E.record('C15: right hand sides change only for a re-run', 'refuted' if run.cap.updates else 'proved')
            check_prices(mkt.PI)(run)
            return
        # which families are violated on this path
        hot = {}
        for f in fams:
            for v, c in viol.get(f, []):
                E.facts.append(core.Fact(list(v.binders), z3.Not(zb(c))))
            hot[f] = E.sat([]) == 'unsat' or E.valid(z3.BoolVal(False), [])[0] is True
            del E.facts[n:]
        # the update rows are rows of the joined table: inverse(position(row)) is that row
        upd = [table.Seg(b, g, dict(constraint_id=back(cid), degree=back(deg))) for b, g, cid, deg in run.cap.updates
               if E.valid(z3.BoolVal(False), [zb(x) for x in g])[0] is not True]
        for s in run.cap.rhs.segs:
            c, _ = s.renamed()
            cid = c.vals['constraint_id']
            act = table.total_where(upd, [('constraint_id', cid)], lambda R: R.vals['degree'])
            exp = 0.0
            if s.tag in fams and hot[s.tag]:
                def slack(R):
                    vid = R.vals['variable_id']
                    k = table.total_where(segs_of(run.cap.variables, s.tag + '_deficit'), [('variable_id', vid)],
                                          lambda V: core.SNum(core.realval(1)))
                    x = SNumX(vid)
                    return core.ite(core.b_or(mkt.value_eq(k, 0.0), mkt.value_eq(x, 0.0)), 0.0,
                                    core.num_neg(core.num_mul(core.num_add(x, 0.01), core.asnum(R.vals['coefficient']))))
                lhs = []
                for t in run.cap.lhs.segs:        # rows of other variables contribute nothing
                    R, _ = t.renamed()
                    if E.valid(zb(mkt.value_eq(slack(R), 0.0)), [zb(x) for x in R.guard])[0] is not True:
                        lhs.append(t)
                exp = table.total_where(lhs, [('constraint_id', cid)], slack)
            E.prove('C15: re-run relaxes %s by its violation' % s.tag, zb(mkt.value_eq(act, exp)), [zb(x) for x in c.guard])
        check_prices(mkt.PI2)(run)
    return body


RR = dict(allow_over_constrained_dispatch_re_run=True, energy_market_ceiling_price=CEIL, energy_market_floor_price=FLOOR,
          fcas_market_ceiling_price=FCEIL)
run_group('C15', 're-run, generic constraints', ['volume_bids', 'demand', 'generic_parameters', 'unit_coefficients'],
          check_rerun(['generic']), dict(bands=['1'], cost=symbolic_cost('generic')), dispatch_args=RR)
run_group('C15', 're-run, fcas constraints', PRICED, check_rerun(['fcas']), dict(bands=['1'], cost=symbolic_cost('fcas')), slow=True,
          dispatch_args=RR)
run_group('C15', 'no re-run unless allowed', PRICED, lambda run: (E.record(
    'C15: no re-run unless allowed', 'proved' if run.cap.calls.count('optimize_linear') == 1 and not run.cap.updates else 'refuted'),
    check_prices(mkt.PI)(run)), dict(bands=['1'], cost=symbolic_cost('fcas')))


# ------------------------------------------------------------------ C18
def result_tables(m):
    out = [('%s variables' % k, d) for k, d in m._decision_variables.items()]
    for dd in (m._constraints_rhs_and_type, m._market_constraints_rhs_and_type, m._constraints_dynamic_rhs_and_type):
        out += [('%s constraints' % k, d) for k, d in dd.items()]
    return out


def check_unsolved(run):
    m, cap = run.m, run.cap
    raised = None
    try:
        m.dispatch()
    except (core.Unsupported, core.Infeasible, core.ContractEnd):
        raise
    except Exception as ex:
        raised = ex
    solved = E.sat([z3.Not(z3.Bool('optimal'))]) == 'unsat'
    if 'optimize' not in cap.calls:
        E.record('C18: the solver is asked', 'refuted', repr(raised))
        return
    if not solved:
        E.record('C18: an unsolved market raises', 'proved' if raised is not None else 'refuted', repr(raised))
        for name, d in result_tables(m):
            cols = [c for c in ('value', 'value_lin', 'slack', 'price') if c in d._cols]
            E.record('C18: no results are published for an unsolved market: %s' % name, 'proved' if not cols else 'refuted', repr(cols))
        E.record('C18: no objective value of an unsolved market', 'proved' if m.objective_value is None else 'refuted',
                 repr(m.objective_value))
        return
    if raised is not None:
        raise raised
    check_solution(run)


def check_solution(run):
    m, cap = run.m, run.cap
    i = cap.calls.index('optimize')
    for c in ('variables', 'objective', 'constraints', 'sos1', 'sos2'):
        E.record('C18: the whole problem is given before it is solved: %s' % c,
                 'proved' if all(j < i for j, x in enumerate(cap.calls) if x == c) else 'refuted', ' '.join(cap.calls))
    E.record('C18: solved once', 'proved' if cap.calls.count('optimize') == 1 else 'refuted', ' '.join(cap.calls))
    E.prove('C18: objective value of the optimal solution', zb(mkt.value_eq(m.objective_value, mkt.StubMip.objective_value)))
    for name, d in result_tables(m):
        idc, col, f = ('variable_id', 'value', mkt.X) if 'variables' in name else ('constraint_id', 'slack', mkt.SL)
        for s in d.segs:
            v, _ = s.renamed()
            if col not in d._cols:
                E.record('C18: reported %s of %s' % (col, name), 'refuted', 'not there')
                continue
            E.prove('C18: reported %s of %s' % (col, name), zb(mkt.value_eq(
                v.vals[col], core.SNum(f(core.asnum(v.vals[idc]).e)))), [zb(x) for x in v.guard])


for what, tabs, c in (
        ('units', ['volume_bids', 'price_bids', 'unit_limits', 'demand'], {}),
        ('fcas', ['volume_bids', 'fcas_requirements', 'contingency_trapeziums', 'fcas_max_availability'], dict(bands=['1'])),
        ('interconnectors', LOSS + ['demand'], dict(bands=['1'])),
        ('deficits', ['volume_bids', 'demand', 'generic_parameters'], dict(bands=['1'], cost=symbolic_cost('demand'))),
        ('nothing but bids', ['volume_bids'], {})):
    run_group('C18', 'unsolved or solved: ' + what, tabs, check_unsolved, dict(c, optimal='any'), dispatch=False)


def must_raise(label, cap, f):
    try:
        f()
    except (core.Unsupported, core.Infeasible, core.ContractEnd):
        raise
    except Exception as ex:
        E.record('C18: %s' % label, 'proved' if 'optimize' not in cap.calls else 'refuted', '%s: %s' % (type(ex).__name__, ex))
        return
    E.record('C18: %s' % label, 'refuted', 'returned normally')


def check_api(run):
    m, cap, T = run.m, run.cap, run.T
    must_raise('dispatch without variables raises', cap, lambda: m.dispatch())
    must_raise('price bids before volume bids raise', cap, lambda: m.set_unit_price_bids(T['price_bids']))
    E.record('C18: rejected price bids leave no objective', 'proved' if not m._objective_function_components else 'refuted', '')


run_group('C18', 'calls out of order', ['volume_bids', 'price_bids'], check_api, steps=['nothing'], dispatch=False)


def check_caps(run):
    names = ['energy_market_ceiling_price', 'energy_market_floor_price', 'fcas_market_ceiling_price']
    import itertools
    for n in range(3):
        for have in itertools.combinations(names, n):
            must_raise('a re-run with %s raises' % (' and '.join(have) or 'no caps'), run.cap,
                       lambda: run.m.dispatch(allow_over_constrained_dispatch_re_run=True, **{
                           k: core.SNum(z3.Real(k)) for k in have}))


run_group('C18', 're-run without price caps', ['volume_bids', 'demand'], check_caps, dispatch=False)


# ------------------------------------------------------------------ C16
LIMITING = ['fcas_max_availability', 'joint_ramping_raise_reg', 'joint_ramping_lower_reg', 'joint_ramping_raise_reg_bdu',
            'joint_ramping_lower_reg_bdu', 'joint_capacity', 'energy_and_regulation_capacity']


ENERGY_ONLY = ['bidirectional_ramp_up', 'bidirectional_ramp_down']
SIDE = ('unit', 'dispatch_type', 'service')


def availability(types):
    """for every dispatch and every table of terms and constraints: the terms of one constraint are given once per unit, service
    and side (shown for every family below); the dispatch by the contract of get_unit_dispatch (C01)"""
    def body():
        m = mkt.Run([], dict(dispatch_types=True, service=True, bands=['1'], cost={}), steps=['nothing'], dispatch=False).m
        kinds = dict(unit=S(), dispatch_type=S(mkt.DT), service=S(ms.SERVICES))
        disp = Relation('unit_dispatch', dict(kinds, dispatch=F()), [SIDE])
        # the limits of a market are on services that are offered
        cons, terms = {}, {}
        if m._constraints_rhs_and_type or m._constraint_to_variable_map['unit_level']:
            raise core.Unsupported('a new market with constraints')
        for t in types:
            c = cons[t] = Relation('con_' + t, dict(constraint_id=I(), type=S(['<=', '>=']), rhs=F(), slack=F()), [('constraint_id',)])
            k = dict(kinds, service=S(['energy'])) if t in ENERGY_ONLY else kinds
            q = terms[t] = Relation('term_' + t, dict(constraint_id=I(), **k, coefficient=F()), [('constraint_id',) + SIDE], nonempty=True)
            mkt.fact(q, lambda r, c=c: c.has(('constraint_id',), (r.constraint_id,)))
            m._constraints_rhs_and_type[t] = table.frame(c)
            m._constraint_to_variable_map['unit_level'][t] = table.frame(q)
        df = table.frame(disp)
        m.get_unit_dispatch = lambda: df.copy()
        table.GHOST.add('dispatch_type')
        d = m.get_fcas_availability()
        table.GHOST.clear()
        E.record('C16: columns', 'proved' if list(d._cols) == ['unit', 'service', 'availability'] else 'unknown', repr(d._cols))
        side = lambda s: tuple(s.vals['~' + c if '~' + c in s.vals else c] for c in SIDE)

        def limit(t, r):
            """(the constraint limits an increase of the service, by how much)"""
            a = r.coefficient
            c = cons[t].get(('constraint_id',), (r.constraint_id,))
            le = boolof(core.eq(c.type, '<='))
            lim = core.b_or(core.b_and(boolof(core.num_cmp(1e-5, a, 'le')), le),
                            core.b_and(boolof(core.num_cmp(a, -1e-5, 'le')), core.b_not(le)))
            return lim, core.num_div(core.num_abs(c.slack), core.num_abs(a))

        def of_side(t, r, k):
            return core.b_and(*[mkt.value_eq(r[c], x) for c, x in zip(SIDE, k)])
        # one row per unit, service and side
        kseg = [table.Seg(s.binders, s.guard, dict(zip(SIDE, side(s))), s.lab, s.tag) for s in d.segs]
        for i, a in enumerate(kseg):
            for b in kseg[:i + 1]:
                a2, b2 = a.renamed()[0], b.renamed()[0]
                eq = core.b_and(*[mkt.value_eq(a2.vals[c], b2.vals[c]) for c in SIDE])
                same = core.b_and(*[x == y for x, y in zip(a2.binders, b2.binders)]) if a is b else False
                E.prove('C16: availability given once per unit, service and side', zb(core.b_or(core.b_not(eq), same)),
                        [zb(x) for x in a2.guard] + [zb(x) for x in b2.guard])
        # no more than any of the constraints leaves
        for t in types:
            if t in ENERGY_ONLY:
                continue
            b, r = mkt.generic_row(terms[t], 'term')
            lim, slack = limit(t, r)
            key = tuple(r[c] for c in SIDE)
            hyp = [terms[t].inf(b), zb(lim), zb(core.b_not(boolof(core.eq(r.service, 'energy')))), zb(disp.has(SIDE, key))]
            fin, rest = table.candidates(kseg, lambda R: [(R.vals[k], v) for k, v in zip(SIDE, key)])
            if rest:
                E.record('C16: %s: availability is reported' % t, 'unknown', 'undetermined row')
            else:
                E.prove('C16: %s: availability is reported' % t, zb(core.b_or(*[g for g, _ in fin])), hyp)
            for s in d.segs:
                o, _ = s.renamed()
                h = hyp + [zb(x) for x in o.guard] + [zb(of_side(t, r, side(o)))]
                av = core.asnum(o.vals['availability'])
                E.prove('C16: %s: no more than the constraint leaves' % t, zb(core.b_and(
                    core.b_not(av.nan), core.b_not(av.pinf),
                    boolof(core.num_cmp(av, core.num_add(disp.get(SIDE, key).dispatch, slack), 'le')))), h)
        # and one of them leaves no more
        for s in d.segs:
            o, _ = s.renamed()
            k = side(o)
            av = core.asnum(o.vals['availability'])
            E.prove('C16: availability of a unit that is dispatched in the service', zb(core.b_and(
                disp.has(SIDE, k), core.b_not(av.nan), core.b_not(av.ninf), core.b_not(boolof(core.eq(k[2], 'energy'))))),
                [zb(x) for x in o.guard])
            n = len(E.facts)
            for t in types:
                b, r = mkt.generic_row(terms[t], 'term')
                lim, slack = limit(t, r)
                f = z3.Implies(zb(core.b_and(terms[t].inf(b), lim, of_side(t, r, k))), zb(core.b_not(
                    mkt.value_eq(av, core.num_add(disp.get(SIDE, k).dispatch, slack)))))
                E.facts.append(core.Fact([b], f))
            E.prove('C16: the bound is attained by one of the constraints', z3.BoolVal(False),
                    [zb(x) for x in o.guard] + [zb(core.b_not(av.pinf))])
            del E.facts[n:]

    def f(tier):
        return explore(body, functions=mkt.functions_run)
    return f


for t in LIMITING:
    group('C16', 'availability, ' + t)(availability([t]))
group('C16', 'availability, two kinds of constraints')(availability(['fcas_max_availability', 'joint_capacity']))
group('C16', 'availability, three kinds of constraints')(availability(['joint_ramping_raise_reg_bdu', 'energy_and_regulation_capacity',
                                                                         'bidirectional_ramp_up']))


def check_terms(run):
    """the tables get_fcas_availability reads: the constraints' slack, terms given once"""
    um = run.m._constraint_to_variable_map['unit_level']
    cols = ('constraint_id',) + SIDE
    seen = 0
    for t, d in um.items():
        services = not all(E.valid(zb(boolof(core.eq(s.vals['service'], 'energy'))), [zb(x) for x in s.guard])[0] is True for s in d.segs)
        if services:
            E.record('C16: constraints with ancillary services are looked at', 'proved' if t in LIMITING else 'refuted', t)
        if not services:
            continue
        seen += 1
        for i, a in enumerate(d.segs):
            for b in d.segs[:i + 1]:
                a2, b2 = a.renamed()[0], b.renamed()[0]
                eq = core.b_and(*[mkt.value_eq(a2.vals[c], b2.vals[c]) for c in cols])
                same = core.b_and(*[x == y for x, y in zip(a2.binders, b2.binders)]) if a is b else False
                E.prove('C16: %s: terms are given once' % t, zb(core.b_or(core.b_not(eq), same)),
                        [zb(x) for x in a2.guard] + [zb(x) for x in b2.guard])
    E.record('C16: %s' % ('terms of the constraints' if seen else 'no such constraints'), 'proved', '')


AV = {'fcas_max_availability': 'max availability', 'contingency_trapeziums': 'joint capacity',
      'regulation_trapeziums': 'energy and regulation', 'reg_ramp_rates': 'joint ramping'}
for sh, c in SHAPES.items():
    for t in AV:
        run_group('C16', 'terms, ' + AV[t] + sh, ['volume_bids', t], check_terms, dict(c, bands=['1']),
                  slow=t == 'reg_ramp_rates' and not c, dispatch=False)
    run_group('C16', 'terms, ramping' + sh, ['volume_bids', 'ramp_details'], lambda run: (
        E.record('C16: ramp constraints have no ancillary services', 'proved' if all(
            E.valid(zb(boolof(core.eq(s.vals['service'], 'energy'))), [zb(x) for x in s.guard])[0] is True
            for d in run.m._constraint_to_variable_map['unit_level'].values() for s in d.segs) else 'unknown', '')),
        dict(c, bands=['1']), dispatch=False)
