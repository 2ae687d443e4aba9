"""Concrete runs: the real code in CPython/pandas/CBC on generated inputs, judged by the same specification the
proof obligations use.  Gives failing inputs for refuted obligations, and bounded coverage where a proof stops.

usage: python -m conc.run PROP --seed S --n N --budget SECONDS --out FILE [--replay FILE]"""
import sys
import os
import json
import time
import math
import random
import traceback
import argparse

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

BID = ['price_bids']
FC = ['fcas_requirements', 'fcas_max_availability', 'reg_ramp_rates', 'contingency_trapeziums', 'regulation_trapeziums']
INT = ['interconnectors', 'loss_functions']
GEN = ['generic_parameters']
UNIT = ['unit_limits', 'uigf_limits', 'ramp_details', 'scada_ramp_rates', 'ramp_profiles', 'fast_start_profiles']
ALL = BID + ['demand'] + UNIT + FC + INT + GEN
MARKET = {}


def nan_fix(o):
    return o


def add_index(sc, rng):
    """arbitrary row labels on the user's tables"""
    for k, t in sc['tables'].items():
        n = len(t['rows'])
        x = rng.random()
        if x < 0.4 or n == 0:
            continue
        ix = list(range(n))
        if x < 0.7:
            rng.shuffle(ix)
        elif x < 0.9:
            ix = [i * 3 + 7 for i in ix]
        else:
            ix = [0] * n
        t['index'] = ix


def order_of(sc, rng):
    """a random order of the calls that respects their documented dependencies"""
    from spec import driver
    todo = driver.steps_of(sc['tables'], sc['cfg'])
    out = []
    while todo:
        ok = [s for s in todo if not any(d in todo for d in driver.NEEDS.get(s, []))]
        s = rng.choice(ok)
        todo.remove(s)
        out.append(s)
    return out


def build_case(feats, comps, **genkw):
    def case(seed):
        from conc import scen
        rng = random.Random(seed * 7919 + 13)
        f = [x for x in feats if not isinstance(x, tuple)]
        for x in feats:
            if isinstance(x, tuple) and rng.random() < x[1]:
                f.append(x[0])
        kw = dict(genkw)
        if 'costs' not in kw:
            kw['costs'] = rng.choice(['random', 'none', 'all'])
        sc = scen.generate(seed, f, **kw)
        add_index(sc, rng)
        sc['cfg']['order'] = order_of(sc, rng)
        return sc

    def judge(sc):
        from conc import capture, compare
        ctx = capture.ctx_of(sc)
        m, P = capture.problem(sc)
        bad = []
        for name, fams in comps:
            fn = getattr(compare, name)
            r = fn(ctx, m, P)
            if fams is not None:
                r = [b for b in r if b[0] in fams]
            bad += r
        return bad
    return case, judge


def solve_case(feats, oracles, caps=False, **genkw):
    def case(seed):
        from conc import scen
        rng = random.Random(seed * 7919 + 13)
        f = [x for x in feats if not isinstance(x, tuple)]
        for x in feats:
            if isinstance(x, tuple) and rng.random() < x[1]:
                f.append(x[0])
        kw = dict(costs='all')
        kw.update(genkw)
        sc = scen.generate(seed, f, **kw)
        add_index(sc, rng)
        sc['cfg']['order'] = order_of(sc, rng)
        if caps and rng.random() < 0.8:
            sc['caps'] = [rng.choice([10.0, 100.0, 500.0, 15000.0]), rng.choice([-1000.0, -100.0, 0.0]),
                          rng.choice([1.0, 100.0, 15000.0])]
        return sc

    def judge(sc):
        from conc import capture, solve
        ctx = capture.ctx_of(sc)
        kw = {}
        if sc.get('caps'):
            kw = dict(energy_market_ceiling_price=sc['caps'][0], energy_market_floor_price=sc['caps'][1],
                      fcas_market_ceiling_price=sc['caps'][2], allow_over_constrained_dispatch_re_run=True)
        m, snaps, exc = solve.solve(sc, **kw)
        if exc is not None:
            if 'infeasible' in str(exc):
                return []
            raise exc
        bad = []
        for o in oracles:
            if o == 'prices':
                bad += solve.prices(ctx, m, snaps)
            elif o == 'rerun':
                if sc.get('caps'):
                    bad += solve.rerun(ctx, m, snaps, sc['caps'])
                elif len(snaps) > 2:
                    bad.append(('rerun', 're-run without being allowed'))
            else:
                bad += getattr(solve, o)(ctx, m, snaps)
        return bad
    return case, judge


def fams(*f):
    return list(f)


def multi(*cs):
    """alternate between several kinds of case"""
    def case(seed):
        i = seed % len(cs)
        sc = cs[i][0](seed)
        return {'kind': i, 'case': sc}

    def judge(x):
        return cs[x['kind']][1](x['case'])
    return case, judge


CHECKS = {
    'C01': lambda: multi(build_case([('price_bids', .5), ('services', .6)], [('variables', fams('bids', 'aux'))]),
                         build_case(BID + ['demand', ('interconnectors', .4)] + [(f, .3) for f in FC + UNIT],
                                    [('variables', fams('bids', 'aux'))]),
                         solve_case(BID + ['demand', ('services', .5)] + [(f, .3) for f in FC], ['unit_dispatch'])),
    'C02': lambda: multi(build_case(BID + [('services', .6)], [('objective', None)]),
                         build_case(BID + ['demand', ('interconnectors', .5), ('loss_functions', .3)] +
                                    [(f, .3) for f in FC + UNIT + GEN], [('objective', None)])),
    'C03': lambda: build_case(['demand', ('interconnectors', .8), ('loss_functions', .6), ('price_bids', .4)] +
                              [(f, .2) for f in FC], [('constraints', fams('demand'))]),
    'C04': lambda: build_case(['fcas_requirements', ('demand', .4), ('generic_parameters', .2), ('interconnectors', .3),
                               ('price_bids', .3)], [('constraints', fams('fcas'))], pfcas=0.6),
    'C05': lambda: build_case([('unit_limits', .9), ('uigf_limits', .7), ('services', .5)],
                              [('constraints', fams('unit_bid_capacity', 'uigf_capacity'))]),
    'C06': lambda: build_case(['ramp_details', ('scada_ramp_rates', .7), ('ramp_profiles', .6), ('services', .4)],
                              [('constraints', fams('ramp_up', 'ramp_down', 'bidirectional_ramp_up',
                                                    'bidirectional_ramp_down'))]),
    'C07': lambda: build_case(['fast_start_profiles', ('services', .4)], [('constraints', fams('fast_start'))]),
    'C08': lambda: build_case([('fcas_max_availability', .7), ('reg_ramp_rates', .8), ('contingency_trapeziums', .8),
                               ('regulation_trapeziums', .8), ('ramp_profiles', .4)],
                              [('constraints', fams('fcas_max_availability', 'joint_ramping_raise_reg',
                                                    'joint_ramping_lower_reg', 'joint_capacity',
                                                    'energy_and_regulation_capacity'))], pfcas=0.6),
    'C09': lambda: build_case(['interconnectors', ('loss_functions', .85), ('demand', .7), ('generic_parameters', .2)],
                              [('variables', fams('interconnectors', 'interpolation_weights', 'aux')),
                               ('losses_vars', None), ('sos', None),
                               ('constraints', fams('weights_sum', 'weights_flow', 'weights_loss', 'demand'))]),
    'C10': lambda: build_case(['generic_parameters', ('interconnectors', .6), ('fcas_requirements', .4), ('services', .6)],
                              [('constraints', fams('generic', 'fcas'))], pfcas=0.5),
    'C11': lambda: multi(build_case(['demand', ('generic_parameters', .6), ('fcas_requirements', .6), ('price_bids', .4),
                                     ('tie_break', .3)] + [(f, .3) for f in UNIT + FC[1:]], [('elastic', None)]),
                         solve_case(BID + ['demand'] + [(f, .3) for f in FC + GEN + UNIT], ['violation_degree'])),
    'C12': lambda: build_case(BID + ['tie_break', ('services', .5), ('demand', .3)],
                              [('constraints', fams('tie_break')), ('elastic', fams('tie_break'))], nunits=None),
    'C14': lambda: solve_case(BID + ['demand', ('interconnectors', .8), ('loss_functions', .6), ('services', .4)],
                              ['region_summary']),
    'C15': lambda: multi(solve_case(BID + ['demand', ('interconnectors', .6), ('loss_functions', .6),
                                           ('fcas_requirements', .6)], ['price_problem', 'prices']),
                         solve_case(BID + ['demand', ('fcas_requirements', .6), ('generic_parameters', .7),
                                           ('interconnectors', .3)], ['prices', 'rerun'], caps=True)),
    'C16': lambda: solve_case(BID + ['demand', 'fcas_max_availability', ('reg_ramp_rates', .8), ('contingency_trapeziums', .8),
                                     ('regulation_trapeziums', .8), ('fcas_requirements', .7)], ['availability'], pfcas=0.6),
}


def c13():
    """any order, with earlier settings replaced by later ones"""
    base_case, _ = build_case(BID + ['demand', ('tie_break', .3)] + [(f, .4) for f in UNIT + FC + INT + GEN], [])

    def case(seed):
        from conc import scen
        sc = base_case(seed)
        rng = random.Random(seed * 31 + 5)
        # a first version of some inputs, replaced later
        first = []
        if rng.random() < 0.6:
            other = base_case(seed * 3 + 1)
            safe = [s for s in sc['cfg']['order'] if s not in ('volume_bids', 'interconnectors', 'loss_functions',
                                                               'price_bids', 'tie_break')]
            first = [s for s in safe if rng.random() < 0.5]
        return {'sc': sc, 'first': first, 'seed': seed}

    def judge(x):
        from conc import capture, compare
        from spec import driver
        sc = x['sc']
        ctx = capture.ctx_of(sc)
        T = capture.frames(sc)
        cfg = capture.cfg_of(sc)
        m = driver.make_market(capture.markets, T, cfg)
        rng = random.Random(x['seed'])
        done = False
        for s in sc['cfg']['order']:
            if s in x['first']:
                # an earlier, different version of the same input: half of the rows, other costs
                T2 = dict(T)
                for k in (s,):
                    if k in T2 and len(T2[k]) > 1 and k not in ('ramp_details',):
                        T2[k] = T2[k].iloc[:max(1, len(T2[k]) // 2)].copy()
                c2 = dict(cfg)
                c2['cost'] = {k: 77.0 for k in ('unit_bid_capacity', 'uigf_capacity', 'ramp', 'fast_start', 'demand', 'fcas',
                                                'fcas_max_availability', 'joint_ramping', 'joint_capacity',
                                                'energy_and_regulation_capacity', 'generic')}
                driver.STEPS[s](m, T2, c2)
            driver.STEPS[s](m, T, cfg)
        snaps, exc = capture.dispatch(m)
        if exc is not None:
            raise exc
        P = capture.canon(m, snaps[0])
        bad = []
        T3 = capture.frames(sc)
        for k in T3:
            if not same_frame(T[k], T3[k]):
                bad.append(('caller', 'the table %s handed in was changed' % k))
        for fn in (compare.constraints, compare.elastic, compare.variables, compare.losses_vars, compare.sos, compare.objective):
            bad += fn(ctx, m, P)
        return bad
    return case, judge


def same_frame(a, b):
    if list(a.columns) != list(b.columns) or list(a.index) != list(b.index) or len(a) != len(b):
        return False
    for c in a.columns:
        if c == 'loss_function':
            continue
        for x, y in zip(a[c], b[c]):
            if not (x == y or (x != x and y != y)):
                return False
    return True


CHECKS['C13'] = c13


def c18():
    base = build_case(BID + ['demand', ('interconnectors', .5), ('loss_functions', .4), ('fcas_requirements', .4)], [], costs='all')

    def case(seed):
        sc = base[0](seed)
        rng = random.Random(seed)
        k = seed % 6
        if k == 1:
            # really infeasible: demand above all volume, hard constraint
            for r in sc['tables']['demand']['rows']:
                r['demand'] = 1e7
            sc['cfg']['cost'] = {}
        return {'sc': sc, 'k': k, 'status': rng.choice(['INFEASIBLE', 'UNBOUNDED', 'NO_SOLUTION_FOUND', 'FEASIBLE', 'ERROR',
                                                        'LOADED', 'INT_INFEASIBLE', 'OTHER', 'CUTOFF'])}

    def judge(x):
        from conc import capture, solve
        from spec import market_spec as S
        import mip
        sc, k = x['sc'], x['k']
        bad = []
        ctx = capture.ctx_of(sc)
        if k == 1:
            regs = {r.region for r in ctx.t('demand').rows}
            vb = ctx.t('volume_bids')
            if not any(S.srv(r) == 'energy' and S.offered(ctx, r) and S.unit_row(ctx, r.unit, S.dt(r)).region in regs
                       for r in vb.rows):
                return []
            m, snaps, exc = solve.solve(sc)
            if exc is None:
                bad.append(('status', 'infeasible market dispatched without an error'))
            elif published(m):
                bad.append(('status', 'results published for an infeasible market'))
        elif k == 2:
            m = capture.build(sc)
            st = {'n': 0}

            def status(i, r):
                st['n'] += 1
                return mip.OptimizationStatus[x['status']] if i == 0 else None
            snaps, exc = capture.dispatch(m, abort=False, status=status)
            if exc is None:
                bad.append(('status', 'solver status %s, dispatch returned normally' % x['status']))
            elif published(m):
                bad.append(('status', 'results published with solver status %s' % x['status']))
        elif k == 3:
            from spec import driver
            T, cfg = capture.frames(sc), capture.cfg_of(sc)
            m = driver.make_market(capture.markets, T, cfg)
            try:
                m.dispatch()
                bad.append(('api', 'dispatch without variables returned normally'))
            except Exception:
                pass
            try:
                m.set_unit_price_bids(T['price_bids'])
                bad.append(('api', 'price bids accepted before volume bids'))
            except Exception:
                pass
        elif k == 4:
            m = capture.build(sc)
            caps = dict(energy_market_ceiling_price=1.0, energy_market_floor_price=-1.0, fcas_market_ceiling_price=1.0)
            import random as _r
            drop = _r.Random(len(str(sc))).choice(sorted(caps))
            caps.pop(drop)
            snaps, exc = capture.dispatch(m, abort=False, allow_over_constrained_dispatch_re_run=True, **caps)
            if exc is None:
                bad.append(('api', 're-run allowed without %s did not raise' % drop))
        else:
            m, snaps, exc = solve.solve(sc)
            if exc is not None:
                if 'infeasible' in str(exc):
                    return []
                raise exc
            A = snaps[0]
            if not solve.near(m.objective_value, A['objective']):
                bad.append(('result', 'objective value %r, solver %r' % (m.objective_value, A['objective'])))
            for fam, df in m._decision_variables.items():
                for rec in df.to_dict('records'):
                    if not solve.near(rec['value'], A['x'][str(rec['variable_id'])]):
                        bad.append(('result', '%s value %r, solver %r' % (fam, rec['value'], A['x'][str(rec['variable_id'])])))
            for d in (m._constraints_rhs_and_type, m._market_constraints_rhs_and_type, m._constraints_dynamic_rhs_and_type):
                for fam, df in d.items():
                    for rec in df.to_dict('records'):
                        n = str(rec['constraint_id'])
                        if n in A['slack'] and not solve.near(rec['slack'], A['slack'][n]):
                            bad.append(('result', '%s slack %r, solver %r' % (fam, rec['slack'], A['slack'][n])))
            bad += solve.unit_dispatch(ctx, m, snaps)
        return bad
    return case, judge


def published(m):
    return any('value' in df.columns for df in m._decision_variables.values()) or m.objective_value is not None


CHECKS['C18'] = c18


def c19():
    def case(seed):
        rng = random.Random(seed)
        us = rng.sample(['A', 'B', 'AB', 'U1', 'U10', 'Z'], rng.randint(1, 6))
        ramp = [dict(unit=u, ramp_up_rate=round(rng.uniform(0, 900), 2), ramp_down_rate=round(rng.uniform(0, 900), 2))
                for u in us if rng.random() < 0.8] or [dict(unit=us[0], ramp_up_rate=5.0, ramp_down_rate=7.0)]
        disp = []
        for u in us + ['OTHER']:
            for s in ['energy', 'raise_reg', 'lower_6s']:
                if rng.random() < 0.6:
                    disp.append(dict(unit=u, service=s, dispatch=round(rng.uniform(-50, 300), 2)))
        hist = [dict(unit=u, initial_output=round(rng.uniform(-50, 300), 2)) for u in us if rng.random() < 0.8]
        rng.shuffle(disp)
        rng.shuffle(ramp)
        return dict(ramp=ramp, disp=disp, hist=hist, withsrv=rng.random() < 0.8, cols=rng.random() < 0.5,
                    ix=rng.random() < 0.3)

    def judge(x):
        from conc import capture
        import pandas as pd
        from nempy import time_sequential as ts
        bad = []
        disp = [d for d in x['disp'] if x['withsrv'] or d['service'] == 'energy']
        D = pd.DataFrame(disp, columns=['unit', 'service', 'dispatch'])
        if not x['withsrv']:
            D = D.drop(columns='service')
        R = pd.DataFrame(x['ramp'], columns=['unit', 'ramp_up_rate', 'ramp_down_rate'])
        H = pd.DataFrame(x['hist'], columns=['unit', 'initial_output'])
        H['initial_output'] = H['initial_output'].astype(float)
        D['dispatch'] = D['dispatch'].astype(float)
        if x['ix']:
            R.index = [i * 2 + 1 for i in range(len(R))]
            D.index = [0] * len(D)
        got = ts.construct_ramp_rate_parameters(D, R.copy()).to_dict('records')
        exp = {r['unit']: dict(r, initial_output=0.0) for r in x['ramp']}
        for d in disp:
            if d['service'] == 'energy' and d['unit'] in exp:
                exp[d['unit']]['initial_output'] = d['dispatch']
        bad += cmp_rows(got, exp, ['initial_output', 'ramp_up_rate', 'ramp_down_rate'])
        if x['hist']:
            got = ts.create_seed_ramp_rate_parameters(H, R).to_dict('records')
            h = {r['unit']: r['initial_output'] for r in x['hist']}
            exp = {r['unit']: dict(r, initial_output=h[r['unit']]) for r in x['ramp'] if r['unit'] in h}
            bad += cmp_rows(got, exp, ['initial_output', 'ramp_up_rate', 'ramp_down_rate'])
        return bad

    def cmp_rows(got, exp, cols):
        bad = []
        seen = set()
        for r in got:
            u = r['unit']
            if u in seen or u not in exp or any(not (r[c] == exp[u][c]) for c in cols):
                bad.append(('chain', 'row %s, expected %s' % (r, exp.get(u))))
            seen.add(u)
        for u in exp:
            if u not in seen:
                bad.append(('chain', 'unit %s missing' % u))
        return bad
    return case, judge


CHECKS['C19'] = c19


def one(prop, seed):
    case, judge = CHECKS[prop]()
    try:
        sc = case(seed)
    except Exception:
        return ('gen', None, traceback.format_exc())
    try:
        bad = judge(sc)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [(f.name, f.lineno) for f in tb if 'nempy' in f.filename][-1:]
        if not where:
            return ('gen', sc, traceback.format_exc())
        return ('bad', sc, [('crash', '%s: %s at %s' % (type(e).__name__, e, where))])
    return ('bad' if bad else 'ok', sc, bad)


def worker(a):
    prop, seeds, deadline, skip = a
    n = 0
    for s in seeds:
        if time.time() > deadline:
            break
        st, sc, bad = one(prop, s)
        if st == 'gen':
            return (n, None, 'harness error on seed %d: %s' % (s, bad))
        n += 1
        if st == 'bad':
            bad = [b for b in bad if not known(prop, b, skip)]
            if bad:
                return (n, (s, sc, [list(b) for b in bad[:5]]), None)
    return (n, None, None)


def known(prop, b, skip):
    return any(k in '%s %s' % (b[0], b[1]) for k in skip)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--n', type=int, default=200)
    ap.add_argument('--budget', type=float, default=40)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=6)
    a = ap.parse_args()
    try:
        from conc import hist
        CHECKS.update(hist.CHECKS)
    except ImportError:
        pass
    if a.replay:
        r = json.load(open(a.replay))
        sc = r['case']
        case, judge = CHECKS[a.prop]()
        try:
            bad = judge(sc)
        except Exception as e:
            bad = [('crash', '%s: %s' % (type(e).__name__, e))]
        for b in bad:
            print('%s: %s' % tuple(b[:2]))
        sys.exit(1 if bad else 0)
    t0 = time.time()
    base = a.seed * 1000003
    seeds = [base + i for i in range(a.n)]
    import multiprocessing as mp
    deadline = t0 + a.budget
    jobs = max(1, min(a.jobs, a.n))
    chunks = [(a.prop, seeds[i::jobs], deadline, []) for i in range(jobs)]
    sys.stdout.flush()
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)          # the solver library writes to stdout
    with mp.get_context('fork').Pool(jobs) as pool:
        res = pool.map(worker, chunks)
    n = sum(r[0] for r in res)
    viol = [r[1] for r in res if r[1]]
    errs = [r[2] for r in res if r[2]]
    out = dict(prop=a.prop, cases=n, wall=time.time() - t0, errors=errs,
               violations=[dict(seed=v[0], case=v[1], messages=v[2]) for v in viol])
    with open(a.out, 'w') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main()
