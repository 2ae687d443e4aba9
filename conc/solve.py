"""Oracles over a solved market: what the getters report against what the solver returned."""
import math
import random
import numpy as np
import pandas as pd
from . import capture, compare
from .compare import close
from spec import market_spec as S

TOL = 1e-6


def near(a, b):
    return close(float(a), float(b), TOL)


def solve(sc, **kw):
    m = capture.build(sc)
    snaps, exc = capture.dispatch(m, abort=False, **kw)
    return m, snaps, exc


def bands(m, snaps):
    """x of the dispatch run by (unit, dispatch_type, service)"""
    out = {}
    for rec in m._decision_variables['bids'].to_dict('records'):
        k = (rec['unit'], rec['dispatch_type'], rec['service'])
        out[k] = out.get(k, 0.0) + snaps[0]['x'][str(rec['variable_id'])]
    return out


def unit_dispatch(ctx, m, snaps):
    bad = []
    exp = bands(m, snaps)
    seen = set()
    for rec in m.get_unit_dispatch().to_dict('records'):
        k = (rec['unit'], rec['dispatch_type'], rec['service'])
        if k in seen:
            bad.append(('dispatch', 'unit dispatch reports %s twice' % (k,)))
        seen.add(k)
        if k not in exp or not near(rec['dispatch'], exp[k]):
            bad.append(('dispatch', 'dispatch of %s reported %r, bands sum to %r' % (k, rec['dispatch'], exp.get(k))))
    for k in exp:
        if k not in seen:
            bad.append(('dispatch', 'dispatch of %s not reported' % (k,)))
    return bad


def violation_degree(ctx, m, snaps):
    bad = []
    P = capture.canon(m, snaps[0])
    tot = {}
    for n, (fam, rec) in P['names'].items():
        if fam.endswith('_deficit'):
            tot[fam[:-8]] = tot.get(fam[:-8], 0.0) + snaps[0]['x'][n]
    for k in m.get_constraint_set_names():
        if k in tot:
            v = m.get_elastic_constraints_violation_degree(k)
            if v is None or not near(v, tot[k]):
                bad.append(('elastic', 'violation degree of %s reported %r, slacks sum to %r' % (k, v, tot[k])))
    return bad


def flows(m, snaps):
    out = {}
    dv = m._decision_variables
    if 'interconnectors' in dv:
        for rec in dv['interconnectors'].to_dict('records'):
            out[(rec['interconnector'], rec['link'])] = snaps[0]['x'][str(rec['variable_id'])]
    return out


def losses(m, snaps):
    out = {}
    dv = m._decision_variables
    if 'interconnector_losses' in dv:
        for rec in dv['interconnector_losses'].to_dict('records'):
            out[(rec['interconnector'], rec['link'])] = snaps[0]['x'][str(rec['variable_id'])]
    return out


def region_summary(ctx, m, snaps):
    bad = []
    d = bands(m, snaps)
    exp = {}

    def reg(r):
        return exp.setdefault(r, dict(dispatch=0.0, inflow=0.0, transmission_losses=0.0, interconnector_losses=0.0))
    for (u, t, s), x in d.items():
        if s == 'energy':
            reg(S.unit_row(ctx, u, t).region)['dispatch'] += x if t == 'generator' else -x
    fl, lo = flows(m, snaps), losses(m, snaps)
    inter = ctx.t('interconnectors')
    if inter is not None:
        for r in inter.rows:
            k = (r.interconnector, r.link)
            f = fl[k]
            tl, fr = r.opt('to_region_loss_factor', 1.0), r.opt('from_region_loss_factor', 1.0)
            reg(r.to_region)['inflow'] += f
            reg(r.from_region)['inflow'] -= f
            reg(r.to_region)['transmission_losses'] += f - f * tl
            reg(r.from_region)['transmission_losses'] += f * fr - f
            if ctx.t('loss_functions') is not None:
                sh = ctx.t('loss_functions').get(('interconnector', 'link'), k).from_region_loss_share
                reg(r.from_region)['interconnector_losses'] += lo[k] * sh
                reg(r.to_region)['interconnector_losses'] += lo[k] * (1 - sh)
    rep = m.get_region_dispatch_summary()
    cols = ['dispatch']
    if inter is not None:
        cols += ['inflow', 'transmission_losses']
    if ctx.t('loss_functions') is not None:
        cols += ['interconnector_losses']
    seen = set()
    for rec in rep.to_dict('records'):
        r = rec['region']
        if r in seen:
            bad.append(('summary', 'region %s twice' % r))
        seen.add(r)
        for c in cols:
            if c not in rec:
                bad.append(('summary', 'no column %s' % c))
            elif r not in exp or not near(rec[c], exp[r][c]):
                bad.append(('summary', 'region %s %s: %r expected %r' % (r, c, rec[c], exp.get(r, {}).get(c))))
    for r in exp:
        if r not in seen:
            bad.append(('summary', 'region %s missing' % r))
    if inter is not None:
        rep = m.get_interconnector_flows()
        got = {}
        for rec in rep.to_dict('records'):
            k = (rec['interconnector'], rec['link'])
            if k in got:
                bad.append(('summary', 'link %s twice' % (k,)))
            got[k] = rec
            if k not in fl or not near(rec['flow'], fl[k]):
                bad.append(('summary', 'flow of %s reported %r, is %r' % (k, rec['flow'], fl.get(k))))
            if lo and (k not in lo or not near(rec['losses'], lo[k])):
                bad.append(('summary', 'losses of %s reported %r, are %r' % (k, rec.get('losses'), lo.get(k))))
        for k in fl:
            if k not in got:
                bad.append(('summary', 'flow of %s not reported' % (k,)))
    return bad


def price_problem(ctx, m, snaps):
    """the price run is the dispatch problem with far interpolation weights and idle links switched off"""
    bad = []
    A, B = snaps[0], snaps[1]
    P = capture.canon(m, A)
    x = A['x']
    off = set()
    ambiguous = set()
    if ctx.t('loss_functions') is not None:
        fl = flows(m, snaps)
        g = {}
        for n, (fam, rec) in P['names'].items():
            if fam == 'interpolation_weights':
                k = (rec['interconnector'], rec['link'])
                g.setdefault(k, []).append((abs(fl[k] - rec['break_point']), n))
            if fam == 'interconnectors' and rec['interconnector'] != rec['link']:
                if x[n] == 0.0:
                    off.add(n)
        for k, lst in g.items():
            lst.sort()
            off.update(n for d, n in lst[3:])
            if len(lst) > 3 and abs(lst[3][0] - lst[2][0]) < 1e-6:
                ambiguous.update(n for d, n in lst if abs(d - lst[2][0]) < 1e-6)
    for n, v in A['vars'].items():
        if n not in P['names']:
            continue
        w = B['vars'].get(n)
        if w is None:
            bad.append(('price', 'variable %s not in the price run' % n))
            continue
        v, w = v[0], w[0]
        if n in ambiguous:
            continue
        e = (0.0, 0.0) if n in off else (v['lb'], v['ub'])
        if not (close(w['lb'], e[0]) and close(w['ub'], e[1])):
            bad.append(('price', 'variable %s of the price run bounded [%r,%r], expected %s' % (
                P['names'][n][0], w['lb'], w['ub'], e)))
        if not close(w['obj'], v['obj']):
            bad.append(('price', 'variable %s of the price run costs %r instead of %r' % (n, w['obj'], v['obj'])))
    if set(B['vars']) - set(P['names']):
        bad.append(('price', 'the price run has other variables'))
    a = {c[0]: c for c in A['cons']}
    b = {c[0]: c for c in B['cons']}
    if len(A['cons']) != len(B['cons']) or a.keys() != b.keys():
        bad.append(('price', 'the price run has other constraints'))
    else:
        for n in a:
            if a[n][1] != b[n][1] or not close(a[n][2], b[n][2]) or a[n][3].keys() != b[n][3].keys() or \
                    any(not close(a[n][3][k], b[n][3][k]) for k in a[n][3]):
                bad.append(('price', 'constraint %s differs in the price run' % n))
    if B['sense'] != A['sense']:
        bad.append(('price', 'sense differs'))
    return bad


def prices(ctx, m, snaps, last=None):
    bad = []
    pi = (last or snaps[-1])['pi']
    if ctx.t('demand') is not None:
        rep = {}
        for rec in m.get_energy_prices().to_dict('records'):
            if rec['region'] in rep:
                bad.append(('price', 'region %s priced twice' % rec['region']))
            rep[rec['region']] = rec['price']
        ids = {r['region']: str(r['constraint_id']) for r in m._market_constraints_rhs_and_type['demand'].to_dict('records')}
        for r in ctx.t('demand').rows:
            e = pi[ids[r.region]]
            if r.region not in rep or not near(rep[r.region], e):
                bad.append(('price', 'price of %s reported %r, marginal value %r' % (r.region, rep.get(r.region), e)))
    if ctx.t('fcas_requirements') is not None:
        ids = {r['set']: str(r['constraint_id']) for r in m._market_constraints_rhs_and_type['fcas'].to_dict('records')}
        exp = {}
        for r in ctx.t('fcas_requirements').rows:
            k = (r.region, r.service)
            exp[k] = exp.get(k, 0.0) + pi[ids[r['set']]]
        rep = {}
        for rec in m.get_fcas_prices().to_dict('records'):
            k = (rec['region'], rec['service'])
            if k in rep:
                bad.append(('price', '%s priced twice' % (k,)))
            rep[k] = rec['price']
            if k not in exp or not near(rec['price'], exp[k]):
                bad.append(('price', 'fcas price of %s reported %r, expected %r' % (k, rec['price'], exp.get(k))))
        for k in exp:
            if k not in rep:
                bad.append(('price', 'fcas price of %s not reported' % (k,)))
    return bad


def rerun(ctx, m, snaps, caps):
    """over constrained re-run: when it happens and what it changes"""
    bad = []
    ceil, floor, fceil = caps
    A, B = snaps[0], snaps[1]
    P = capture.canon(m, A)
    dem = [B['pi'][str(i)] for i in m._market_constraints_rhs_and_type['demand']['constraint_id']] \
        if 'demand' in m._market_constraints_rhs_and_type else []
    fc = [B['pi'][str(i)] for i in m._market_constraints_rhs_and_type['fcas']['constraint_id']] \
        if 'fcas' in m._market_constraints_rhs_and_type else []
    eps = 1e-7
    for v, c in [(x, ceil) for x in dem] + [(x, floor) for x in dem] + [(x, fceil) for x in fc]:
        if v != c and abs(v - c) < eps:
            return []       # too close to a cap to judge
    price = any(x >= ceil for x in dem) or any(x <= floor for x in dem) or any(x >= fceil for x in fc)
    viol = {}
    for f in ('generic', 'fcas'):
        xs = [(n, A['x'][n]) for n, (fam, rec) in P['names'].items() if fam == f + '_deficit']
        if any(0.00009 < abs(v) < 0.00011 for n, v in xs):
            return []
        if any(abs(v) > 0.0001 for n, v in xs):
            viol[f] = xs
    want = price and bool(viol)
    if want != (len(snaps) > 2):
        return [('rerun', 're-run %s but prices %s caps %s violations %s' % (
            'done' if len(snaps) > 2 else 'not done', (dem, fc), caps, viol))]
    if not want:
        return []
    C = snaps[2]
    adj = {}
    for f, xs in viol.items():
        for n, v in xs:
            if v != 0:
                for name, ty, rhs, co in A['cons']:
                    if n in co:
                        adj[name] = adj.get(name, 0.0) - (v + 0.01) * co[n]
    b = {c[0]: c for c in B['cons']}
    for name, ty, rhs, co in C['cons']:
        e = b[name][2] + adj.get(name, 0.0)
        if not near(rhs, e):
            bad.append(('rerun', 'constraint %s re-run with rhs %r, expected %r' % (name, rhs, e)))
        if ty != b[name][1] or co != b[name][3]:
            bad.append(('rerun', 'constraint %s changed in the re-run' % name))
    if C['vars'] != B['vars']:
        bad.append(('rerun', 'variables changed in the re-run'))
    return bad


FCAS_FAMS = ['fcas_max_availability', 'joint_ramping_raise_reg', 'joint_ramping_lower_reg', 'joint_capacity',
             'energy_and_regulation_capacity']


def availability(ctx, m, snaps):
    bad = []
    A = snaps[0]
    P = capture.canon(m, A)
    G = compare.groups(m)
    d = bands(m, snaps)
    V = compare.vlist(P).get('bids', [])
    # coefficients of the constraints on the unit, service and side
    side = {}
    for n, v in V:
        side[n] = (v.unit, v.dispatch_type, v.service)
    lim = {}
    acts = {a[0]: a for a in A['cons']}
    for name, ty, rhs, co in A['cons']:
        if G.get(name) not in FCAS_FAMS:
            continue
        per = {}
        for n, c in co.items():
            if n in side and side[n][2] != 'energy':
                per[side[n]] = c
        for k, c in per.items():
            lim.setdefault(k, math.inf)
            if abs(c) < 1e-5:
                continue
            if (c < 0 and ty == '<=') or (c > 0 and ty == '>='):
                continue
            lim[k] = min(lim[k], abs(A['slack'][name]) / abs(c))
    # constraints of services whose bids are all too small to be variables do not count; zero coefficient terms do
    rep = {}
    for rec in m.get_fcas_availability().to_dict('records'):
        rep.setdefault((rec['unit'], rec['service']), []).append(rec['availability'])
    exp = {}
    for (u, t, s), l in lim.items():
        exp.setdefault((u, s), []).append(d[(u, t, s)] + l)
    for k in set(rep) | set(exp):
        a, b = sorted(rep.get(k, [])), sorted(exp.get(k, []))
        if len(a) > len(b):
            # sides limited only by terms with a zero coefficient
            a2 = [x for x in a if not math.isinf(x)]
            b2 = [x for x in b if not math.isinf(x)]
            a, b = a2, b2
        if len(a) != len(b) or any(not near(x, y) for x, y in zip(a, b)):
            bad.append(('availability', 'availability of %s reported %s, expected %s' % (k, a, b)))
    return bad
