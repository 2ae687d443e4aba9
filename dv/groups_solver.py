"""Proof groups for InterfaceToSolver against the contract of the mip package (ghostmip): the problem given to the solver is the
one in the tables, what is reported is what the solver found, an unsolved problem raises.  The market proofs use these
contracts (mkt.make_stub)."""
import z3
from . import core, table, mkt, loader, ghostmip as gm
from .core import E, Relation, F, I, S, SNum, SRef, STerm, Fact, Unsupported, b_and, b_or, b_not, zb, boolof, subst_val
from .table import frame, Seg, SymMap, pin, subst_b
from .proofs import group, explore
from .mkt import value_eq
from spec import market_spec as ms

HASVAR = z3.Function('in_variables', z3.IntSort(), z3.BoolSort())


class Variables(SymMap):
    """self.variables after add_variables: the variable named str(id), for the ids that were added"""

    def __init__(self):
        super().__init__(self._get)

    def _get(self, k):
        k = core.asnum(k)
        if not E.decide(HASVAR(k.e)):
            raise KeyError(k)
        return SRef('var', k.e)

    def __contains__(self, k):
        return E.decide(HASVAR(core.asnum(k).e))

    def keys(self):
        return self


def solver(variables=True):
    L = loader.Loader()
    m = L.load('nempy.spot_market_backend.solver_interface')
    si = m.InterfaceToSolver()
    if variables:
        si.variables = Variables()
    return m, si


def solver_group(props, name, body, slow=False, no_raise=True):
    def f(tier):
        return explore(body, functions=loader.executed, no_raise=no_raise)
    for p in props if isinstance(props, (list, tuple)) else [props]:
        group(p, name, slow)(f)


def fact(rel, f):
    mkt.fact(rel, f)


def only(label, model, kinds, n):
    """the effects of these kinds; there are n of them and none of any other kind"""
    es = [e for e in model.log if e.kind in kinds]
    E.record('%s: nothing else is asked of the solver' % label, 'proved' if len(es) == len(model.log) else 'refuted',
             ' '.join(e.kind for e in model.log))
    if len(es) != n:
        E.record('%s: once per element' % label, 'refuted' if not es or len(es) > n else 'unknown', '%d effects' % len(es))
        return None
    return es


def element(label, es, rel, col):
    """the generic row of rel the loop was at, and its guard"""
    e = es[0]
    if len(e.loops) != 1:
        E.record('%s: one loop' % label, 'unknown', '%d loops' % len(e.loops))
        return None
    bs, gs = e.loops[0]
    b = [x for x in bs if x.sort() == rel.sort]
    if len(b) != 1:
        E.record('%s: element of the loop' % label, 'unknown', '')
        return None
    return b[0], rel.row(b[0]), [zb(x) for x in gs]


# ------------------------------------------------------------------ status
def status():
    m, si = solver()
    m.find_problem_constraint = lambda p: 'a list of constraints'      # what it returns is only printed
    raised = None
    try:
        si.optimize()
    except (Unsupported, core.Infeasible):
        raise
    except Exception as ex:
        raised = ex
    log = [e for e in si.mip_model.log if e.kind == 'optimize']
    E.record('C18: the problem is given to the solver once', 'proved' if len(log) == 1 else 'refuted', str(len(log)))
    if log:
        ok = log[-1].status == 'OPTIMAL'
        E.record('C18: returns normally exactly when the solver proved optimality', 'proved' if ok == (raised is None) else 'refuted',
                 'status %s, %s' % (log[-1].status, 'raised %r' % raised if raised is not None else 'returned'))
    E.record('C18: solving leaves the price run alone', 'proved' if not si.linear_mip_model.log else 'refuted', '')


solver_group('C18', 'solver status', status)


# ------------------------------------------------------------------ what is reported
def reported(fn, label, expected):
    def body():
        m, si = solver()
        col = 'constraint_id' if 'slack' in fn else 'variable_id'
        rel = Relation('rows', {col: I(), 'other': F()}, [(col,)])
        d = frame(rel)
        out = getattr(si, fn)(d)
        E.record('C18: %s: one value per row, in place' % label, 'proved' if out.pid is d.pid else 'unknown', '')
        for s in out.segs:
            b = mkt.find_binder(s, rel)[0]
            E.prove('C18: %s' % label, zb(value_eq(s.val, expected(rel.row(b)[col].e))), [zb(x) for x in s.guard])
        for x in (si.mip_model, si.linear_mip_model):
            E.record('C18: %s: read only' % label, 'proved' if not x.log else 'refuted', '')
    return body


solver_group(['C18', 'C01'], 'optimal values', reported(
    'get_optimal_values_of_decision_variables', 'values are those of the optimal solution', lambda k: SNum(gm.VALUE['1'](k))))
solver_group(['C18', 'C15'], 'optimal values of the price run', reported(
    'get_optimal_values_of_decision_variables_lin', 'values of the price run', lambda k: SNum(gm.VALUE['2'](k))))
solver_group(['C18', 'C16'], 'slack', reported(
    'get_slack_in_constraints', 'slack is the one of the optimal solution, none for a constraint without variables',
    lambda k: core.ite(gm.HASCON(k), SNum(gm.SLACK['1'](k)), 0.0)))


def duals():
    m, si = solver()
    rel = Relation('to_price', dict(constraint_id=I()), [('constraint_id',)])
    fact(rel, lambda r: gm.HASCON(r.constraint_id.e))
    d = frame(rel)
    out = si.price_constraints(table.SymList(d['constraint_id']))
    t, r = mkt.generic_row(rel, 'c')
    E.assume(rel.inf(t))
    v = out[r.constraint_id]
    E.prove('C15: price of a constraint is its dual value in the price run', zb(value_eq(v, SNum(gm.DUAL['2'](r.constraint_id.e)))))


solver_group(['C15', 'C18'], 'dual values', duals)


# ------------------------------------------------------------------ changes to the models
def disable():
    m, si = solver()
    rel = Relation('variables', dict(variable_id=I()), [('variable_id',)])
    si.disable_variables(frame(rel))
    L = 'C15: variables fixed at zero in the price run'
    E.record(L + ': the dispatch problem stays as it is', 'proved' if not si.mip_model.log else 'refuted', '')
    es = only(L, si.linear_mip_model, ('bound',), 2)
    el = es and element(L, es, rel, 'variable_id')
    if el:
        E.record(L + ': both bounds', 'proved' if {e.which for e in es} == {'lb', 'ub'} else 'refuted', '')
        for e in es:
            E.prove(L, zb(b_and(e.key == el[1].variable_id.e, value_eq(e.value, 0.0))), el[2])


def bounds():
    m, si = solver()
    rel = Relation('new_bounds', dict(variable_id=I(), lower_bound=F(), upper_bound=F()), [('variable_id',)])
    si.update_variable_bounds(frame(rel))
    L = 'C18: bounds of variables'
    es = only(L, si.mip_model, ('bound',), 2)
    el = es and element(L, es, rel, 'variable_id')
    if el:
        for e in es:
            E.prove(L, zb(b_and(e.key == el[1].variable_id.e, value_eq(
                e.value, el[1].lower_bound if e.which == 'lb' else el[1].upper_bound))), el[2])


def rhs():
    m, si = solver()
    c, v = SNum(z3.Int('constraint')), SNum(z3.Real('violation'))
    E.assume(gm.HASCON(c.e))
    si.update_rhs(c, v)
    L = 'C15: right hand side in the price run'
    E.record(L + ': the dispatch problem stays as it is', 'proved' if not si.mip_model.log else 'refuted', '')
    es = only(L, si.linear_mip_model, ('rhs',), 1)
    for e in es or ():
        E.prove(L + ' is raised by the violation', zb(b_and(e.key == c.e, value_eq(
            e.value, core.num_add(SNum(gm.RHS['2'](c.e)), v)))))


solver_group(['C15', 'C18'], 'disabled variables', disable)
solver_group(['C18'], 'updated bounds', bounds)
solver_group(['C15', 'C18'], 'updated right hand side', rhs)


# ------------------------------------------------------------------ the problem
def variables():
    m, si = solver(False)
    rel = Relation('decision_variables', dict(variable_id=I(), lower_bound=F(), upper_bound=F(), type=S(['continuous', 'binary'])),
                   [('variable_id',)], nonempty=True)
    si.add_variables(frame(rel))
    for model, name in ((si.mip_model, 'dispatch problem'), (si.linear_mip_model, 'price run')):
        L = 'C18: variables of the %s' % name
        es = only(L, model, ('var',), 1)
        el = es and element(L, es, rel, 'variable_id')
        if not el:
            continue
        b, r, g = el
        e = es[0]
        E.prove(L + ': name', zb(gm.key_of(e.name) == r.variable_id.e), g)
        E.prove(L + ': lower bound', zb(value_eq(e.lb, r.lower_bound)), g)
        E.prove(L + ': upper bound', zb(value_eq(e.ub, r.upper_bound)), g)
        E.prove(L + ': type', zb(value_eq(core.lift(r.type), {'CONTINUOUS': 'continuous', 'BINARY': 'binary'}[e.type.n])), g)
        E.prove(L + ': no cost of its own', zb(value_eq(e.obj, 0.0)), g)
    loops = [e.loops[0] for e in si.mip_model.log if e.kind == 'var' and e.loops]
    if len(loops) == 1:
        # the generic element of the loop stands for every row
        bs, gs = loops[0]
        for x in gs:
            E.assume(x)
        key = rel.row(bs[0]).variable_id
        v = si.variables[key]
        E.prove('C18: variables are found by their id', zb(v.e == key.e) if isinstance(v, SRef) else z3.BoolVal(False))


solver_group(['C18', 'C01', 'C09'], 'variables of the problem', variables)


def term_item(b, g, t):
    return (t.coef, t.var) if isinstance(t, STerm) else (SNum(core.realval(1)), t)


def coefficient(items, key):
    """coefficient of variable key in a linear expression"""
    segs = []
    for b, g, t in items:
        c, v = term_item(b, g, t)
        segs.append(Seg(b, g, {'v': SNum(v.e), 'c': c}))
    return table.total_where(segs, [('v', SNum(key))], lambda R: R.vals['c'])


def objective():
    m, si = solver()
    rel = Relation('objective_function', dict(variable_id=I(), cost=F()), [('variable_id',)], nonempty=True)
    fact(rel, lambda r: HASVAR(r.variable_id.e))
    si.add_objective_function(frame(rel))
    for model, name in ((si.mip_model, 'dispatch problem'), (si.linear_mip_model, 'price run')):
        L = 'C02: objective of the %s' % name
        es = only(L, model, ('objective',), 1)
        if not es:
            continue
        k = z3.Int('variable')
        K = ('variable_id',)
        v = (SNum(k),)
        E.prove(L + ': coefficient of every variable is its cost', zb(value_eq(
            coefficient(es[0].lin.items, k), core.ite(rel.has(K, v), rel.get(K, v).cost, 0.0))))


solver_group(['C02', 'C18'], 'objective of the problem', objective)


def constraints(dynamic):
    def body():
        m, si = solver()
        lhs = Relation('lhs', dict(variable_id=I(), constraint_id=I(), coefficient=F()), [], nonempty=True)
        con = Relation('rhs', dict(constraint_id=I(), type=S(mkt.TYPES), rhs=F()), [('constraint_id',)])
        fact(lhs, lambda r: b_and(HASVAR(r.variable_id.e), boolof(core.num_cmp(0, r.variable_id, 'le'))))
        fact(lhs, lambda r: con.has(('constraint_id',), (r.constraint_id,)))
        d = frame(con)
        if dynamic:
            # the right hand side is a variable
            d['rhs'] = d['constraint_id'].like([SRef('var', core.asnum(s.val).e) for s in d['constraint_id'].segs])
        si.add_constraints(frame(lhs), d)
        for model, name in ((si.mip_model, 'dispatch problem'), (si.linear_mip_model, 'price run')):
            L = 'C18: constraints of the %s' % name
            es = only(L, model, ('constr',), 1)
            if not es:
                continue
            e = es[0]
            if len(e.loops) != 1:
                E.record(L + ': one loop', 'unknown', '')
                continue
            bs, gs = e.loops[0]
            gs = [zb(x) for x in gs]
            cid = gm.key_of(e.name)
            K, v = ('constraint_id',), (SNum(cid),)
            r = con.get(K, v)
            E.prove(L + ': has an entry in the table of right hand sides', zb(con.has(K, v)), gs)
            E.prove(L + ': type', zb(value_eq(e.con.type, r.type)), gs)
            if dynamic:
                E.prove(L + ': right hand side', zb(e.con.rhs.e == r.constraint_id.e) if isinstance(e.con.rhs, SRef) else z3.BoolVal(False), gs)
            else:
                E.prove(L + ': right hand side', zb(value_eq(e.con.rhs, r.rhs)), gs)
            k = z3.Int('variable')
            act = coefficient(e.con.lin.items, k)
            q, rq = mkt.generic_row(lhs, 'q')
            mkt.prove_sum(L + ': coefficient of a variable is the sum of its rows', act,
                          [((q,), [lhs.inf(q), rq.constraint_id.e == cid, rq.variable_id.e == k], rq.coefficient)], gs)
            # every constraint with a row is given, once
            loop = [x for x in table.LOOP_ITEMS if any(b.sort().eq(y.sort()) for it in x for b in it[0] for y in bs)]
            if len(loop) != 1:
                E.record(L + ': loop over the constraints', 'unknown', '%d loops' % len(loop))
                continue
            t, rt = mkt.generic_row(lhs, 'row')
            cands = []
            for b, g, val in loop[0]:
                m0 = [(x, E.fresh('k', x.sort())) for x in b]
                g2 = [subst_b(x, m0) for x in g]
                c = pin([x[1] for x in m0], g2, [(subst_val(val[0], m0), rt.constraint_id)])
                if c is None:
                    E.record(L + ': loop over the constraints', 'unknown', '')
                    return
                for mm, extra in c:
                    cands.append(b_and(*[subst_b(x, mm) for x in g2], boolof(core.same(subst_val(subst_val(val[0], m0), mm), rt.constraint_id)), *extra))
            E.prove(L + ': every constraint with a variable is given', zb(b_or(*cands)), [lhs.inf(t)])
            E.prove(L + ': no constraint is given twice', zb(b_and(*[b_not(b_and(x, y)) for i, x in enumerate(cands) for y in cands[:i]])),
                    [lhs.inf(t)])
    return body


PROBLEM = ['C18', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12']
solver_group(PROBLEM, 'constraints of the problem', constraints(False))
solver_group(['C18', 'C08', 'C03'], 'constraints of the problem, variable right hand side', constraints(True))


def no_constraints():
    m, si = solver()
    con = Relation('rhs', dict(constraint_id=I(), type=S(mkt.TYPES), rhs=F()), [('constraint_id',)])
    L = loader.Loader()
    si.add_constraints(table.DF([], [], table.Index('range')), frame(con))
    E.record('C18: no constraint without variables', 'proved' if not si.mip_model.log and not si.linear_mip_model.log else 'refuted', '')


solver_group('C18', 'constraints without left hand side', no_constraints)


def sets(kind):
    def body():
        m, si = solver()
        if kind == 2:
            rel = Relation('weights', dict(interconnector=S(), link=S(), loss_segment=I(), variable_id=I()),
                           [('interconnector', 'link', 'loss_segment'), ('variable_id',)], nonempty=True)
            cols = ['interconnector', 'link']
        else:
            rel = Relation('links', dict(sos_id=S(), variable_id=I()), [('variable_id',)], nonempty=True)
            cols = ['sos_id']
        fact(rel, lambda r: HASVAR(r.variable_id.e))
        if kind == 2:
            si.add_sos_type_2(frame(rel), cols, 'loss_segment')
        else:
            si.add_sos_type_1(frame(rel))
        L = 'C09: ordered sets of type %d' % kind
        E.record(L + ': not in the price run', 'proved' if not si.linear_mip_model.log else 'refuted', '')
        es = [e for e in si.mip_model.log if e.kind == 'sos']
        rest = [e for e in si.mip_model.log if e.kind != 'sos']
        E.record(L + ': no other constraint or cost', 'proved' if all(
            e.kind == 'var' and e.obj == 0.0 and e.type.n == 'BINARY' for e in rest) else 'refuted', '')
        E.record(L + ': one set per group', 'proved' if len(es) == 1 else 'unknown', str(len(es)))
        for e in es:
            E.record(L + ': type', 'proved' if e.type == kind else 'refuted', '%s' % e.type)
            consts = e.groups[-1][0]
            t, r = mkt.generic_row(rel, 'w')
            here = [rel.inf(t)] + [zb(core.key_expr(core.lift(r[c])) == k) for c, k in zip(cols, consts)]
            cands = []
            for b, g, (var, pos) in e.items:
                bb = [x for x in b if x.sort() == rel.sort]
                mm = [(bb[0], t)]
                cands.append((b_and(*[subst_b(x, mm) for x in g]), subst_val(var, mm), subst_val(core.lift(pos), mm)))
                E.prove(L + ': members belong to the group', zb(b_and(rel.inf(bb[0]), *[
                    core.key_expr(core.lift(rel.row(bb[0])[c])) == k for c, k in zip(cols, consts)])), [zb(x) for x in g])
            E.prove(L + ': every member of the group is in it', zb(b_or(*[g for g, _, _ in cands])), here)
            for g, var, pos in cands:
                E.prove(L + ': variable of the member', zb(var.e == r.variable_id.e), here + [zb(g)])
                E.prove(L + ': position of the member', zb(value_eq(pos, r.loss_segment if kind == 2 else 1.0)), here + [zb(g)])
    return body


solver_group(['C09', 'C18'], 'ordered sets of type 2', sets(2))
solver_group(['C09', 'C18'], 'ordered sets of type 1', sets(1))
