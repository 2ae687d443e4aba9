"""Proof harness for SpotMarket: symbolic input tables, contract stub of the solver interface, and the obligations that
relate the captured problem to the specification in spec/market_spec.py."""
import z3
from . import core, table, loader
from .core import (E, Relation, F, I, S, FN, SNum, SStr, SBool, SRef, SV, NULL, Unsupported, Infeasible, ContractEnd, Fact,
                   b_and, b_or, b_not, zb, mkb, boolof, lift, is_t, is_f, same, ite, subst_val)
from .table import DF, Seg, SSeg, Series, SymList, SymMap, pin, frame, subst_b
from spec import market_spec as ms
from spec import driver

TYPES = ['<=', '=', '>=']
DT = ['generator', 'load']


class SCtx:
    def __init__(self, rels, cfg):
        self.rels = rels
        self.cfg = cfg

    def t(self, name):
        return self.rels.get(name)


# ------------------------------------------------------------------ input tables
def schema(name, cfg):
    """columns, keys, invariant of each input table"""
    d = cfg['dispatch_types']
    bands = cfg['bands']
    trap = dict(max_availability=F(), enablement_min=F(), low_break_point=F(), high_break_point=F(), enablement_max=F())
    dtc = dict(dispatch_type=S(DT)) if d else {}
    fcas_dt = dict(dispatch_type=S(DT)) if d and not cfg.get('fcas_no_dt') else {}
    ud = [('unit', 'dispatch_type')] if d else [('unit',)]
    us = [('unit', 'service', 'dispatch_type')] if d else [('unit', 'service')]
    link = dict(link=S()) if cfg.get('link', True) else {}
    il = [('interconnector', 'link')] if link else [('interconnector',)]
    if name == 'unit_info':
        c = dict(unit=S(), region=S(), **dtc)
        if cfg.get('loss_factor', True):
            c['loss_factor'] = F()
        return c, ud, lambda r: (core.num_cmp(0.0, r.loss_factor, 'lt') if cfg.get('loss_factor', True) else None)
    if name in ('volume_bids', 'price_bids'):
        c = dict(unit=S(), **dtc)
        k = ud
        if cfg.get('service', True):
            c['service'] = S(ms.SERVICES)
            k = us
        c.update({b: F() for b in bands})
        return c, k, None
    if name == 'unit_limits':
        return dict(unit=S(), capacity=F(), **dtc), ud, None
    if name == 'uigf_limits':
        return dict(unit=S(), capacity=F()), [('unit',)], None
    if name == 'ramp_details':
        return dict(unit=S(), initial_output=F(), ramp_up_rate=F(), ramp_down_rate=F(), **dtc), ud, None
    if name == 'scada_ramp_rates':
        c = dict(unit=S())
        for x in cfg.get('scada_cols', ('scada_ramp_up_rate', 'scada_ramp_down_rate')):
            c[x] = F(nullable=True)
        return c, [('unit',)], None
    if name == 'reg_ramp_rates':
        return dict(unit=S(), initial_output=F(), scada_ramp_up_rate=F(), scada_ramp_down_rate=F()), [('unit',)], None
    if name == 'ramp_profiles':
        if cfg['run_type'] == 'fast_start_first_run':
            return dict(unit=S(), current_mode=I()), [('unit',)], None
        return dict(unit=S(), end_mode=I(), min_loading=F(), time_since_end_of_mode_two=F(nullable=True)), [('unit',)], None
    if name == 'fast_start_profiles':
        return (dict(unit=S(), end_mode=I(), time_in_end_mode=F(), mode_two_length=F(), mode_four_length=F(),
                     min_loading=F()), [('unit',)], None)
    if name == 'demand':
        return dict(region=S(), demand=F()), [('region',)], None
    if name == 'fcas_requirements':
        c = dict(set=S(), service=S(ms.FCAS), region=S(), volume=F())
        if cfg.get('fcas_type', True):
            c['type'] = S(TYPES)
        return c, [('set', 'region', 'service')], None
    if name == 'fcas_max_availability':
        return dict(unit=S(), service=S(ms.FCAS), max_availability=F(), **fcas_dt), \
            (us if fcas_dt or not d else [('unit', 'service')]), None
    if name == 'contingency_trapeziums':
        return dict(unit=S(), service=S(ms.CONTINGENCY), **trap, **fcas_dt), \
            (us if fcas_dt or not d else [('unit', 'service')]), None
    if name == 'regulation_trapeziums':
        return dict(unit=S(), service=S(['raise_reg', 'lower_reg']), **trap, **fcas_dt), \
            (us if fcas_dt or not d else [('unit', 'service')]), None
    if name == 'interconnectors':
        c = dict(interconnector=S(), to_region=S(), from_region=S(), max=F(), min=F(), **link)
        if cfg.get('inter_opt', True):
            c.update(from_region_loss_factor=F(), to_region_loss_factor=F(), generic_constraint_factor=I())
        return c, il, None
    if name == 'loss_functions':
        return dict(interconnector=S(), from_region_loss_share=F(), loss_function=FN(), **link), il, None
    if name == 'break_points':
        return dict(interconnector=S(), loss_segment=I(), break_point=F(), **link), [il[0] + ('loss_segment',)], None
    if name == 'generic_parameters':
        return dict(set=S(), type=S(TYPES), rhs=F()), [('set',)], None
    if name == 'unit_coefficients':
        return dict(set=S(), unit=S(), service=S(ms.SERVICES), coefficient=F()), [('set', 'unit', 'service')], None
    if name == 'region_coefficients':
        return dict(set=S(), region=S(), service=S(ms.SERVICES), coefficient=F()), [('set', 'region', 'service')], None
    if name == 'interconnector_coefficients':
        return dict(set=S(), interconnector=S(), coefficient=F()), [('set', 'interconnector')], None
    if name == 'violation_costs':
        return dict(set=S(), cost=F()), [('set',)], None
    raise KeyError(name)


NEED = {'price_bids': ['volume_bids'], 'uigf_limits': ['volume_bids'], 'unit_limits': ['volume_bids'],
        'loss_functions': ['interconnectors', 'break_points']}


def fact(rel, f):
    """assumed invariant of an input table"""
    t = z3.Const('a_' + rel.name, rel.sort)
    x = f(rel.row(t))
    E.facts.append(Fact([t], z3.Implies(rel.inf(t), zb(boolof(x)))))


def make_tables(names, cfg):
    rels, T = {}, {}
    for n in ['unit_info'] + list(names):
        c, k, inv = schema(n, cfg)
        rels[n] = Relation(n, c, k, inv, nonempty=True)
        T[n] = frame(rels[n])
    rels['regions'] = Relation('regions', dict(region=S()), [('region',)])
    ctx = SCtx(rels, cfg)
    assume_relations(ctx, cfg)
    return rels, T, ctx


def assume_relations(ctx, cfg):
    """preconditions that relate the tables of one market"""
    rels = ctx.rels
    for n in ('volume_bids',):
        if n in rels:
            # a bid is made for an entry of the unit table
            fact(rels[n], lambda r: ms.has_unit_row(ctx, r.unit, ms.dt(r)))
            # at least one band is offered
            t = z3.Const('offered_volume_bids', rels[n].sort)
            E.assume(z3.And(rels[n].inf(t), zb(boolof(ms.offered(ctx, rels[n].row(t))))))
    if 'price_bids' in rels:
        pb, vb = rels['price_bids'], rels['volume_bids']
        k = vb.keys[0]
        # price bids cover the volume bids
        fact(vb, lambda r: pb.has(k, tuple(r[c] for c in k)))
    if 'fcas_requirements' in rels:
        # rows of one set agree on volume and type
        fr = rels['fcas_requirements']
        a, b = z3.Const('fa', fr.sort), z3.Const('fb', fr.sort)
        same_set = fr.f['set'](a) == fr.f['set'](b)
        eqs = [fr.f['volume'](a) == fr.f['volume'](b)] + ([fr.f['type'](a) == fr.f['type'](b)] if 'type' in fr.f else [])
        E.facts.append(Fact([a, b], z3.Implies(z3.And(fr.inf(a), fr.inf(b), same_set), z3.And(*eqs))))
    if 'ramp_details' in rels and cfg['dispatch_types']:
        # both entries of a bidirectional unit state the same initial (net) output
        rd = rels['ramp_details']
        a, b = z3.Const('ra', rd.sort), z3.Const('rb', rd.sort)
        E.facts.append(Fact([a, b], z3.Implies(z3.And(rd.inf(a), rd.inf(b), rd.f['unit'](a) == rd.f['unit'](b)),
                                               rd.f['initial_output'](a) == rd.f['initial_output'](b))))
    if 'fast_start_profiles' in rels and cfg['dispatch_types']:
        # fast start profiles belong to generators or loads, not to bidirectional units
        fact(rels['fast_start_profiles'], lambda r: b_not(boolof(ms.is_bdu(ctx, r.unit))))
    if 'contingency_trapeziums' in rels and cfg['dispatch_types'] and rels['contingency_trapeziums'].hascol('dispatch_type'):
        # a bidirectional unit's contingency trapeziums are given on its generation entry
        fact(rels['contingency_trapeziums'], lambda r: b_or(b_not(boolof(ms.is_bdu(ctx, r.unit))),
                                                            boolof(core.eq(r.dispatch_type, 'generator'))))
    if 'break_points' in rels:
        lf, bp, ic = rels['loss_functions'], rels['break_points'], rels['interconnectors']
        K = ic.keys[0]
        fact(bp, lambda r: lf.has(K, tuple(r[c] for c in K)))
        fact(lf, lambda r: ic.has(K, tuple(r[c] for c in K)))
    if 'interconnectors' in rels:
        fact(rels['interconnectors'], lambda r: core.invert(core.eq(r.to_region, r.from_region)))
    if cfg.get('assume'):
        cfg['assume'](ctx)


# ------------------------------------------------------------------ contract stub of the solver interface
X = z3.Function('x_opt', z3.IntSort(), z3.RealSort())
XL = z3.Function('x_lin', z3.IntSort(), z3.RealSort())
SL = z3.Function('slack', z3.IntSort(), z3.RealSort())
PI = z3.Function('pi', z3.IntSort(), z3.RealSort())
PI2 = z3.Function('pi_rerun', z3.IntSort(), z3.RealSort())


class NoRows:
    segs = ()


class Captured:
    def __init__(self):
        self.variables = None
        self.objective = NoRows
        self.lhs = NoRows
        self.rhs = NoRows
        self.sos2 = None
        self.sos1 = None
        self.disabled = []
        self.updates = []
        self.calls = []


class StubLinear:
    def __init__(self, cap, si):
        self.cap, self.si = cap, si

    def optimize(self):
        self.cap.calls.append('optimize_linear')
        self.si.lin_runs += 1


class StubMip:
    objective_value = SNum(z3.Real('objective_value'))


def make_stub(cap, optimal=True):
    class InterfaceToSolver:
        def __init__(self, solver_name='CBC'):
            self.lin_runs = 0
            self.mip_model = StubMip()
            self.linear_mip_model = StubLinear(cap, self)
            self.variables = SymMap(lambda k: SRef('var', core.asnum(k).e))

        def add_variables(self, d):
            cap.variables = d.copy()
            cap.calls.append('variables')

        def add_objective_function(self, o):
            cap.objective = o.copy()
            cap.calls.append('objective')

        def add_constraints(self, lhs, rhs):
            cap.lhs, cap.rhs = lhs.copy(), rhs.copy()
            cap.calls.append('constraints')

        def add_sos_type_2(self, d, sos_id_columns, position_column):
            cap.sos2 = (d.copy(), sos_id_columns, position_column)
            cap.calls.append('sos2')

        def add_sos_type_1(self, d):
            cap.sos1 = d.copy()
            cap.calls.append('sos1')

        def optimize(self):
            cap.calls.append('optimize')
            if optimal == 'any' and not E.decide(z3.Bool('optimal')):
                raise ValueError('Linear program infeasible')

        def _map(self, d, col, fn):
            s = d[col]
            return s.like([SNum(fn(core.asnum(x.val).e)) for x in s.segs])

        def get_slack_in_constraints(self, d):
            cap.calls.append('slack')
            return self._map(d, 'constraint_id', SL)

        def get_optimal_values_of_decision_variables(self, d):
            cap.calls.append('values')
            return self._map(d, 'variable_id', X)

        def get_optimal_values_of_decision_variables_lin(self, d):
            cap.calls.append('values_lin')
            return self._map(d, 'variable_id', XL)

        def price_constraints(self, ids):
            cap.calls.append('price')
            f = PI if self.lin_runs <= 1 else PI2
            return SymMap(lambda k: SNum(f(core.asnum(k).e)))

        def update_rhs(self, cid, degree):
            bs, gs = E.ctx_stack[-1] if E.ctx_stack else ((), [])
            conds = [c for sc in E.scopes for c in sc.cond]
            cap.updates.append((bs, list(gs) + conds, cid, degree))

        def disable_variables(self, d):
            cap.disabled.append(d.copy())
            cap.calls.append('disable')
    return InterfaceToSolver


def load_market(cap, optimal=True, real_validation=False):
    L = loader.Loader()
    m = L.load('nempy.markets')
    m.solver_interface.InterfaceToSolver = make_stub(cap, optimal)
    if not real_validation:
        # contract of the validators (proved under C17): they change nothing; the tables assumed here are valid
        m.dv.DataFrameSchema.validate = lambda self, df: None
        if hasattr(m.SpotMarket, '_validate_bidirectional_unit_inputs'):
            m.SpotMarket._validate_bidirectional_unit_inputs = lambda self, *a, **k: None
    return L, m


class Run:
    """one symbolic execution: build the market from symbolic tables and dispatch it"""

    def __init__(self, names, cfg, steps=None, dispatch=True, after=None, dispatch_args=None):
        self.cap = Captured()
        self.L, self.mod = load_market(self.cap, cfg.get('optimal', True), cfg.get('real_validation', False))
        self.rels, self.T, self.ctx = make_tables(names, cfg)
        self.cfg = cfg
        rg = frame(self.rels['regions'])['region']
        interval = SNum(z3.Real('interval'))
        E.assume(interval.e > 0)
        cfg['interval'] = interval
        m = self.mod.SpotMarket(market_regions=SymList(rg), unit_info=self.T['unit_info'], dispatch_interval=interval)
        self.nv0, self.nc0 = z3.Int('next_variable_id'), z3.Int('next_constraint_id')
        E.assume(self.nv0 >= 0)
        E.assume(self.nc0 >= 0)
        m._next_variable_id = SNum(self.nv0)
        m._next_constraint_id = SNum(self.nc0)
        self.m = m
        if cfg.get('before'):
            cfg['before'](self)
        for s in steps or driver.steps_of(self.T, cfg):
            driver.STEPS[s](m, self.T, cfg)
        if after:
            after(self)
        if dispatch:
            m.dispatch(**(dispatch_args or {}))


# ------------------------------------------------------------------ obligations
class VRow:
    def __init__(self, vals, family, seg):
        self._v, self.family, self.seg = vals, family, seg

    def __getattr__(self, c):
        try:
            return self._v[c]
        except KeyError:
            raise AttributeError(c)

    def __getitem__(self, c):
        return self._v[c]


def generic_row(rel, tag):
    t = E.fresh('row_' + tag, rel.sort)
    return t, rel.row(t)


def find_binder(seg, rel):
    bs = [b for b in seg.binders if b.sort() == rel.sort]
    if bs:
        return bs
    out = []
    for g in table.conjuncts([zb(x) for x in seg.guard]):
        if z3.is_app(g) and g.decl().eq(rel.inf) and not any(g.children()[0].eq(x) for x in out):
            out.append(g.children()[0])
    return out


VARFAM = {'volume_bids': 'bids', 'interconnectors': 'interconnectors', 'break_points': 'interpolation_weights'}


def tag_family(tag):
    return tag


def value_eq(a, b):
    return boolof(same(a, b))


class Problem:
    """the captured problem, with the checks of one family"""

    def __init__(self, run, group):
        self.run, self.ctx, self.cap = run, run.ctx, run.cap
        self.g = group
        self.lhs_segs = self.cap.lhs.segs
        self.rhs_segs = self.cap.rhs.segs
        self.var_segs = self.cap.variables.segs

    def prove(self, name, goal, hyps=()):
        return E.prove('%s: %s' % (self.g, name), goal, hyps)

    def coefficient(self, cid, rhs, vid):
        a = table.total_where(self.lhs_segs, [('constraint_id', cid), ('variable_id', vid)], lambda R: R.vals['coefficient'])
        if isinstance(rhs, SRef):
            a = core.num_add(a, ite(rhs.e == core.asnum(vid).e, -1.0, 0.0))
        return a

    def holds(self, con, vals, r):
        """the constraint contains the variable of family con.holds that con is about"""
        var = vals['rhs'] if isinstance(vals['rhs'], SRef) else None
        n = 0.0
        for s in self.var_segs:
            if self.var_family(s) == con.holds:
                n = core.num_add(n, table.total_where(
                    [s], [('interconnector', con.ident[0]), ('link', con.ident[1])],
                    lambda V: ite(value_eq(self.coefficient(vals['constraint_id'], var, V.vals['variable_id']), 0.0), 0.0, 1.0)))
        return b_not(value_eq(n, 0.0))

    def rhs_of(self, seg):
        """(rhs number, right hand side variable) of a constraint row"""
        r = seg.vals['rhs']
        if isinstance(r, SRef):
            return 0.0, r
        return r, None

    def family(self, key, varfams=None):
        base, fn = ms.FAMILIES[key]
        rel = self.ctx.t(base)
        segs = [s for s in self.rhs_segs if self.of_family(s, key)]
        t, r = generic_row(rel, key)
        cons = [c for c in fn(self.ctx, r) if not is_f(boolof(c.guard))]
        inr = rel.inf(t)
        # --- completeness: every expected constraint is there, once, with its type, rhs and coefficients
        for k, con in enumerate(cons):
            hyp = [inr, zb(boolof(con.guard))]
            label = '%s%s' % (key, '/' + con.part if con.part else '')
            cands = []
            for s in segs:
                s2, _ = s.renamed()
                bs = find_binder(s2, rel)
                if not bs:
                    eqs = self.indirect(s2, rel, key, con, t)
                elif con.ident is None:
                    eqs = [(SRef('row', bs[0]), SRef('row', t))]
                else:
                    con_b = [c for c in fn(self.ctx, rel.row(bs[0])) if c.part == con.part]
                    eqs = list(zip(con_b[0].ident, con.ident))
                if eqs is not None and con.attrs:
                    eqs = eqs + [(s2.vals[c], v) for c, v in con.attrs.items() if c in s2.vals]
                if eqs is None:
                    E.record('%s: %s: matching of constraints' % (self.g, label), 'unknown', 'no base row for a segment')
                    return
                c = pin(s2.binders, s2.guard, eqs)
                if c is None:
                    E.record('%s: %s: matching of constraints' % (self.g, label), 'unknown', 'undetermined binder')
                    return
                for m, extra in c:
                    ty = subst_val(lift(s2.vals['type']), m)
                    g = b_and(*[subst_b(x, m) for x in s2.guard], *table.eq_conds(eqs, m), *extra, value_eq(ty, con.type))
                    if is_f(g):
                        continue
                    if E.sat([zb(x) for x in hyp] + [zb(g)]) == 'unsat':
                        continue
                    vals = {c2: subst_val(v, m) for c2, v in s2.vals.items()}
                    if con.holds is not None:
                        h = self.holds(con, vals, r)
                        if E.valid(zb(b_not(h)), [zb(x) for x in hyp] + [zb(g)], stages=(1,))[0] is True:
                            continue
                        if E.valid(zb(h), [zb(x) for x in hyp] + [zb(g)], stages=(1, 2))[0] is not True:
                            g = b_and(g, h)
                    cands.append((g, vals))
            self.prove('%s: constraint exists' % label, zb(b_or(*[g for g, _ in cands])), hyp)
            for i in range(len(cands)):
                for j in range(i):
                    self.prove('%s: constraint unique' % label, zb(b_not(b_and(cands[i][0], cands[j][0]))), hyp)
            for g, vals in cands:
                h = hyp + [zb(g)]
                rv = vals['rhs']
                num, var = (0.0, rv) if isinstance(rv, SRef) else (rv, None)
                self.prove('%s: right hand side' % label, zb(value_eq(num, con.rhs)), h)
                for vs in self.var_segs:
                    v2, _ = vs.renamed()
                    fam = self.var_family(v2)
                    if fam is None:
                        continue
                    if varfams is not None and fam not in varfams:
                        continue
                    vrow = VRow(v2.vals, fam, v2)
                    exp = con.coef[fam](vrow) if fam in con.coef else 0.0
                    act = self.coefficient(vals['constraint_id'], var, v2.vals['variable_id'])
                    self.prove('%s: coefficient of %s%s' % (label, fam, self.vlabel(v2)), zb(value_eq(act, exp)),
                               h + [zb(x) for x in v2.guard])
        # --- soundness: every constraint of the family is an expected one
        for s in segs:
            s2, _ = s.renamed()
            bs = find_binder(s2, rel)
            if not bs:
                row = self.indirect_row(s2, rel, key)
                if row is None:
                    E.record('%s: %s: constraint expected' % (self.g, key), 'unknown', 'no base row')
                    continue
                b, extra = row
            else:
                b, extra = bs[0], True
            alts = [b_and(boolof(c.guard), value_eq(s2.vals['type'], c.type),
                          *[value_eq(s2.vals[a], v) for a, v in c.attrs.items() if a in s2.vals])
                    for c in fn(self.ctx, rel.row(b))]
            self.prove('%s: every constraint is an expected one' % key, zb(b_and(rel.inf(b), extra, b_or(*alts))),
                       [zb(x) for x in s2.guard])

    def indirect(self, s2, rel, key, con, t):
        return None

    def indirect_row(self, s2, rel, key):
        return None

    def vlabel(self, v):
        b = v.vals.get('capacity_band')
        return ' band %s' % b if isinstance(b, str) else ''

    def of_family(self, s, key):
        if s.tag is None:
            return True
        return s.tag in FAMILY_TAGS.get(key, [key])

    def var_family(self, s):
        if s.tag in ('bids', 'interconnectors', 'interconnector_losses', 'interpolation_weights'):
            return s.tag
        if s.tag is not None:
            return None
        raise Unsupported('variable table without group names')


FAMILY_TAGS = {
    'joint_ramping_raise_reg': ['joint_ramping_raise_reg', 'joint_ramping_raise_reg_bdu'],
    'joint_ramping_lower_reg': ['joint_ramping_lower_reg', 'joint_ramping_lower_reg_bdu'],
    'weights_sum': ['interpolation_weights'],
    'weights_flow': ['link_loss_to_flow'],
    'weights_loss': ['link_loss_to_flow'],
}


def functions_run():
    return loader.executed()


# ------------------------------------------------------------------ rows of an output table against expected rows
class Exp:
    """one expected row for a row of the base table: guard, columns that identify it among the rows of the same base row,
    columns with the values they must have; ident: key shared by the base rows of one output row (None: one each)"""

    def __init__(self, guard, which, vals, part='', ident=None):
        self.guard, self.which, self.vals, self.part, self.ident = guard, which, vals, part, ident


def base_rows(seg, rel):
    return find_binder(seg, rel)


def rows_match(prefix, segs, rel, fn, sound=True, match=None):
    """prove that segs holds exactly the rows fn(row) expects for every row of rel.  match: columns (output, expected
    value function) used to find the output row when its segment has no binder of rel's sort"""
    t, r = generic_row(rel, 'e')
    inr = rel.inf(t)
    for x in fn(r):
        if is_f(boolof(x.guard)):
            continue
        hyp = [inr, zb(boolof(x.guard))]
        label = prefix + (' ' + x.part if x.part else '')
        cands = []
        for s in segs:
            s2, _ = s.renamed()
            bs = base_rows(s2, rel)
            wh = [(s2.vals[c], v) for c, v in x.which.items()]
            if x.ident is not None:
                eqs = [(s2.vals[c], v) for c, v in x.ident.items()] + wh
            elif bs:
                eqs = [(SRef('row', bs[0]), SRef('row', t))] + wh
            else:
                E.record('%s: matching of rows' % label, 'unknown', 'no base row')
                return
            c = pin(s2.binders, s2.guard, eqs)
            if c is None:
                E.record('%s: matching of rows' % label, 'unknown', 'undetermined binder')
                return
            for m, extra in c:
                g = b_and(*[subst_b(y, m) for y in s2.guard], *table.eq_conds(eqs, m), *extra)
                if is_f(g):
                    continue
                if E.sat([zb(y) for y in hyp] + [zb(g)]) == 'unsat':
                    continue
                cands.append((g, {c2: subst_val(v, m) for c2, v in s2.vals.items()}))
        E.prove('%s: row exists' % label, zb(b_or(*[g for g, _ in cands])), hyp)
        for i in range(len(cands)):
            for j in range(i):
                E.prove('%s: row unique' % label, zb(b_not(b_and(cands[i][0], cands[j][0]))), hyp)
        for g, vals in cands:
            for c2, v in x.vals.items():
                E.prove('%s: %s' % (label, c2), zb(value_eq(vals[c2], v)), hyp + [zb(g)])
    if not sound:
        return
    for s in segs:
        s2, _ = s.renamed()
        bs = base_rows(s2, rel)
        if not bs:
            E.record('%s: every row is an expected one' % prefix, 'unknown', 'no base row')
            continue
        alts = [b_and(boolof(x.guard), *[value_eq(s2.vals[c], v) for c, v in x.which.items()]) for x in fn(rel.row(bs[0]))]
        E.prove('%s: every row is an expected one' % prefix, zb(b_and(rel.inf(bs[0]), b_or(*alts))), [zb(x) for x in s2.guard])
        # one row of the segment per base row
        for o in s2.binders:
            if o.eq(bs[0]):
                continue
            s3, _ = s2.renamed()
            ren = list(zip(s2.binders, s3.binders))
            E.prove('%s: no row twice' % prefix, o == z3.substitute(o, *ren),
                    [zb(x) for x in s2.guard] + [zb(x) for x in s3.guard] + [bs[0] == z3.substitute(bs[0], *ren)])


def distinct(prefix, segs, col):
    """the values of col are pairwise distinct over all rows"""
    for i, a in enumerate(segs):
        a2, _ = a.renamed()
        for j, b in enumerate(segs[:i + 1]):
            b2, _ = b.renamed()
            hyp = [zb(x) for x in a2.guard] + [zb(x) for x in b2.guard]
            ne = core.b_not(value_eq(a2.vals[col], b2.vals[col]))
            if i != j:
                E.prove('%s: rows of two groups differ' % prefix, zb(ne), hyp)
            else:
                same_row = b_and(*[x == y for x, y in zip(a2.binders, b2.binders)])
                E.prove('%s: rows of one group differ' % prefix, zb(b_or(ne, same_row)), hyp)


def in_range(prefix, segs, col, lo, hi):
    for a in segs:
        a2, _ = a.renamed()
        v = core.asnum(a2.vals[col])
        E.prove('%s: between the old and the new next id' % prefix,
                zb(b_and(boolof(core.num_cmp(lo, v, 'le')), boolof(core.num_cmp(v, hi, 'lt')))), [zb(x) for x in a2.guard])


# ------------------------------------------------------------------ equality of unbounded sums
def expand_sum(e, cond=(), k=None):
    """number expression -> (finite part, [(binders, guard, value)]), sums opened with their recorded definition"""
    e = core.asnum(e).e if not isinstance(e, z3.ExprRef) else e
    k = core.SNum(core.realval(1)) if k is None else k
    fin, items = [], []

    def has_sum(x, memo={}):
        st, seen = [x], set()
        while st:
            y = st.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            if z3.is_app(y):
                if y.decl().name() in E.sumterms:
                    return True
                st.extend(y.children())
        return False

    def go(x, cond, k):
        if not has_sum(x):
            fin.append(ite(b_and(*cond), core.num_mul(k, SNum(core.toreal(x))), 0.0))
            return
        d = x.decl()
        if d.name() in E.sumterms:
            st = E.sumterms[d.name()]
            m = list(zip(st.params, x.children()))
            for b, g, v in st.items:
                b2 = [E.fresh('s_' + y.decl().name().split('!')[0], y.sort()) for y in b]
                mm = m + list(zip(b, b2))
                items.append((b2, [subst_b(y, mm) for y in g] + list(cond), core.num_mul(k, core.asnum(subst_val(lift(v), mm)))))
            return
        kind = d.kind()
        ch = x.children()
        if kind == z3.Z3_OP_ADD:
            for c in ch:
                go(c, cond, k)
        elif kind == z3.Z3_OP_SUB:
            go(ch[0], cond, k)
            for c in ch[1:]:
                go(c, cond, core.num_neg(k))
        elif kind == z3.Z3_OP_UMINUS:
            go(ch[0], cond, core.num_neg(k))
        elif kind == z3.Z3_OP_MUL:
            w = [c for c in ch if has_sum(c)]
            if len(w) != 1:
                raise Unsupported('product of sums')
            for c in ch:
                if c is not w[0]:
                    k = core.num_mul(k, SNum(core.toreal(c)))
            go(w[0], cond, k)
        elif kind == z3.Z3_OP_DIV and not has_sum(ch[1]):
            go(ch[0], cond, core.num_div(k, SNum(core.toreal(ch[1]))))
        elif kind == z3.Z3_OP_ITE and not has_sum(ch[0]):
            go(ch[1], tuple(cond) + (ch[0],), k)
            go(ch[2], tuple(cond) + (z3.Not(ch[0]),), k)
        elif kind == z3.Z3_OP_TO_REAL:
            go(ch[0], cond, k)
        else:
            raise Unsupported('sum inside %s' % d.name())
    go(z3.simplify(e, som=False), tuple(cond), k)
    return fin, items


def prove_sum(name, actual, items, hyps=()):
    """actual == sum of ite(guard, value) over the items; pointwise per tuple of binder sorts"""
    n = core.asnum(actual)
    if n.nan is not False or n.hasinf():
        E.prove(name + ' (a number)', zb(b_not(b_or(boolof(n.nan), boolof(n.pinf), boolof(n.ninf)))), hyps)
    try:
        fin, its = expand_sum(n.e)
    except Unsupported as ex:
        E.record(name, 'unknown', str(ex))
        return
    groups = {}
    for side, lst in ((0, its), (1, [(b, g, core.asnum(v)) for b, g, v in items])):
        for b, g, v in lst:
            key = tuple(sorted(x.sort().name() for x in b))
            groups.setdefault(key, ([], []))[side].append((b, g, v))
    for key, (A, B) in sorted(groups.items()):
        if not key:
            continue
        common = None
        tot = []
        for lst in (A, B):
            s = core.SNum(core.realval(0))
            for b, g, v in lst:
                b = sorted(b, key=lambda x: x.sort().name())
                if common is None:
                    common = [E.fresh('p', x.sort()) for x in b]
                m = list(zip(b, common))
                s = core.num_add(s, ite(b_and(*[subst_b(x, m) for x in g]), core.asnum(subst_val(v, m)), 0.0))
            tot.append(s)
        E.prove('%s: same terms over %s' % (name, ', '.join(k.replace('Row_', '') for k in key)), zb(value_eq(tot[0], tot[1])), hyps)
    A = 0.0
    for x in fin:
        A = core.num_add(A, x)
    for b, g, v in its:
        if not b:
            A = core.num_add(A, ite(b_and(*g), v, 0.0))
    B = 0.0
    for b, g, v in items:
        if not b:
            B = core.num_add(B, ite(b_and(*g), v, 0.0))
    E.prove(name + ': remaining terms', zb(value_eq(A, B)), hyps)
