"""Compares a captured problem with the specification."""
import math
from spec import market_spec as S
from spec.tables import CRow


def close(a, b, tol=1e-7):
    if a is None or b is None:
        return a is b
    if isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b):
        return isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def fam_of(P, n):
    return P['names'][n][0] if n in P['names'] else 'aux'


def is_def(fam):
    return fam.endswith('_deficit')


def vlist(P):
    """actual variables by family: list of (name, CRow)"""
    out = {}
    for n in P['vars']:
        if n in P['names']:
            f, rec = P['names'][n]
            out.setdefault(f, []).append((n, CRow(rec)))
    return out


class Exp:
    __slots__ = ('fam', 'type', 'rhs', 'coefs', 'row', 'part', 'cost', 'any')


def cost_of(ctx, fam, r):
    k = fam
    if fam.startswith('ramp_') or fam.startswith('bidirectional_ramp'):
        k = 'ramp'
    if fam.startswith('joint_ramping'):
        k = 'joint_ramping'
    c = ctx.cfg.get('cost', {}).get(k)
    if fam == 'tie_break':
        return ctx.cfg.get('tie_break_cost')
    if c is None or isinstance(c, (int, float)):
        return c
    for x in c['rows']:
        if x['set'] == r['set']:
            return x['cost']
    return None


def expected(ctx, P, fams=None):
    V = vlist(P)
    out = []
    for fam in S.active_families(ctx):
        if fams is not None and fam not in fams:
            continue
        base, f = S.FAMILIES[fam]
        seen = set()
        for r in ctx.t(base).rows:
            for c in f(ctx, r):
                if not c.guard:
                    continue
                if c.ident is not None:
                    k = (c.part, c.ident)
                    if k in seen:
                        continue
                    seen.add(k)
                e = Exp()
                e.fam, e.type, e.rhs, e.row, e.part = fam, c.type, c.rhs, r, c.part
                e.coefs = {}
                for vf, fn in c.coef.items():
                    for n, v in V.get(vf, []):
                        k = fn(v)
                        if k != 0:
                            e.coefs[n] = k
                e.cost = cost_of(ctx, fam, r)
                out.append(e)
    return out


def expected_ties(ctx, P):
    V = vlist(P).get('bids', [])
    out = []
    en = [(n, v) for n, v in V if v.service == 'energy']
    costs = {n: S.bid_cost(ctx, v) for n, v in en}
    for i, (n, v) in enumerate(en):
        for (n2, v2) in en[i + 1:]:
            if v.unit == v2.unit or v.dispatch_type != v2.dispatch_type:
                continue
            if S.var_region(ctx, v) != S.var_region(ctx, v2):
                continue
            if costs[n] != costs[n2] and close(costs[n], costs[n2], 1e-12):
                return None     # rounding decides equality: not judged
            if costs[n] != costs[n2]:
                continue
            e = Exp()
            e.fam, e.type, e.rhs, e.row, e.part = 'tie_break', '=', 0.0, None, ''
            e.coefs = {n: 1 / P['vars'][n][0]['ub'], n2: -1 / P['vars'][n2][0]['ub']}
            e.cost = ctx.cfg['tie_break_cost']
            out.append(e)
    return out


GROUPS = {'joint_ramping_raise_reg_bdu': 'joint_ramping_raise_reg', 'joint_ramping_lower_reg_bdu': 'joint_ramping_lower_reg',
          'interpolation_weights': 'weights_sum', 'link_loss_to_flow': 'weights_flow'}


def groups(m):
    g = {}
    for d in (m._constraints_rhs_and_type, m._market_constraints_rhs_and_type, m._constraints_dynamic_rhs_and_type):
        for k, df in d.items():
            for i in df['constraint_id']:
                g[str(i)] = GROUPS.get(k, k)
    return g


def show(P, coefs):
    out = {}
    for n, c in coefs.items():
        if n in P['names']:
            f, rec = P['names'][n]
            key = f + ':' + ','.join(str(rec[c2]) for c2 in ('unit', 'service', 'dispatch_type', 'capacity_band',
                                                          'interconnector', 'link', 'loss_segment') if c2 in rec)
        else:
            key = n
        out[key] = c
    return out


def constraints(ctx, m, P, fams=None):
    """-> list of (family, message); the constraint part (slack variables are left to elastic())"""
    exp = expected(ctx, P)
    if ctx.cfg.get('tie_break_cost') is not None:
        t = expected_ties(ctx, P)
        if t is None:
            return []
        exp += t
    bad = []
    G = groups(m)
    acts = []
    for name, ty, rhs, coefs in P['cons']:
        own = {n: c for n, c in coefs.items() if not is_def(fam_of(P, n)) and c != 0}
        dfc = {n: c for n, c in coefs.items() if is_def(fam_of(P, n))}
        acts.append([name, ty, rhs, own, dfc, None])
    for e in exp:
        if isinstance(e.rhs, float) and math.isnan(e.rhs):
            continue
        hit = None
        for a in acts:
            if a[5] is None and a[1] == e.type and close(a[2], e.rhs) and a[3].keys() == e.coefs.keys() and \
                    all(close(a[3][n], e.coefs[n]) for n in e.coefs):
                if G.get(a[0], e.fam) == e.fam or (e.fam.startswith('weights') and G.get(a[0], 'weights').startswith('weights')):
                    hit = a
                    break
                hit = hit or a
        if hit is None and e.fam == 'tie_break':
            neg = {n: -c for n, c in e.coefs.items()}
            for a in acts:
                if a[5] is None and a[1] == e.type and close(a[2], e.rhs) and a[3].keys() == neg.keys() and \
                        all(close(a[3][n], neg[n]) for n in neg):
                    hit = a
                    break
        if hit is None:
            if not e.coefs and not (e.cost is not None):
                continue          # no variable to constrain
            near = [a for a in acts if a[5] is None and G.get(a[0]) == e.fam]
            bad.append((e.fam, 'missing constraint %s%s %s %r on %s; unmatched of that group: %s' % (
                e.fam, ('/' + e.part) if e.part else '', e.type, e.rhs, show(P, e.coefs),
                [(a[1], a[2], show(P, a[3])) for a in near][:3])))
        else:
            hit[5] = e
    for a in acts:
        if a[5] is None:
            if not a[3] and not a[4]:
                continue
            f = G.get(a[0], 'unknown')
            bad.append((f, 'unexpected constraint (%s) %s %r on %s' % (f, a[1], a[2], show(P, a[3]))))
    if P['clash']:
        bad.append(('ids', 'variables share an id: %s' % (P['clash'][:3],)))
    names = [c[0] for c in P['cons']]
    if len(names) != len(set(names)):
        bad.append(('ids', 'constraints share a name'))
    return bad if fams is None else [b for b in bad if b[0] in fams or b[0] in ('unknown', 'ids')]


def elastic(ctx, m, P):
    """slack variables: number, sign, bounds, cost; nothing else costs a penalty"""
    exp = expected(ctx, P)
    if ctx.cfg.get('tie_break_cost') is not None:
        t = expected_ties(ctx, P)
        if t is None:
            return []
        exp += t
    bad = []
    G = groups(m)
    uses = {}
    acts = []
    for name, ty, rhs, coefs in P['cons']:
        own = {n: c for n, c in coefs.items() if not is_def(fam_of(P, n)) and c != 0}
        dfc = {n: c for n, c in coefs.items() if is_def(fam_of(P, n))}
        for n in dfc:
            uses.setdefault(n, []).append(name)
        acts.append([name, ty, rhs, own, dfc, None])
    for e in exp:
        cand = [a for a in acts if a[5] is None and a[1] == e.type and close(a[2], e.rhs) and
                a[3].keys() == e.coefs.keys() and (G.get(a[0], e.fam) == e.fam or e.fam.startswith('weights'))]
        if e.fam == 'tie_break':
            cand = [a for a in acts if a[5] is None and a[3].keys() == e.coefs.keys() and G.get(a[0]) == 'tie_break']
        if not cand:
            if e.cost is not None:
                bad.append((e.fam, 'elastic constraint %s %s %r %s not found' % (e.fam, e.type, e.rhs, show(P, e.coefs))))
            continue
        # among equal constraints take one with matching slack
        want = {} if e.cost is None else {'<=': [-1.0], '>=': [1.0], '=': [-1.0, 1.0]}[e.type]
        ok = None
        for a in cand:
            sl = sorted(a[4].values())
            if sl == sorted(want) and all(close(P['vars'][n][0]['obj'], e.cost if e.cost is not None else 0) and
                                          P['vars'][n][0]['lb'] == 0 and P['vars'][n][0]['ub'] >= 1e30 and
                                          len(uses[n]) == 1 and P['vars'][n][0]['type'] == 'C' for n in a[4]):
                ok = a
                break
        if ok is None:
            a = cand[0]
            bad.append((e.fam, 'constraint %s %s %r with violation cost %r has slacks %s' % (
                e.fam, e.type, e.rhs, e.cost, [(c, P['vars'][n][0], len(uses[n])) for n, c in a[4].items()])))
            a[5] = e
        else:
            ok[5] = e
    for a in acts:
        if a[5] is None and a[4]:
            bad.append(('unknown', 'slack in a constraint that is not elastic: %s %s %s' % (a[1], a[2], show(P, a[3]))))
    for n in P['vars']:
        if is_def(fam_of(P, n)) and n not in uses and P['vars'][n][0]['obj'] != 0:
            bad.append(('unknown', 'slack variable %s in no constraint' % n))
    return bad


def variables(ctx, m, P, fams=('bids', 'interconnectors', 'interpolation_weights')):
    bad = []
    for fam in fams:
        base = ctx.t(S.VAR_BASE[fam])
        act = [(n, rec) for n, (f, rec) in P['names'].items() if f == fam]
        used = set()
        if base is not None:
            if fam == 'interpolation_weights' and ctx.t('loss_functions') is None:
                continue
            for r in base.rows:
                for guard, attrs, lb, ub in S.expected_vars(ctx, fam, r):
                    if not guard:
                        continue
                    hit = [n for n, rec in act if n not in used and all(rec.get(k) == v for k, v in attrs.items())]
                    if len(hit) != 1:
                        bad.append((fam, '%d variables for %s' % (len(hit), attrs)))
                        used.update(hit)
                        continue
                    n = hit[0]
                    used.add(n)
                    v = P['vars'].get(n)
                    if v is None or len(v) != 1:
                        bad.append((fam, 'variable %s in the solver %s times' % (attrs, 0 if v is None else len(v))))
                    elif not (close(v[0]['lb'], lb) and close(v[0]['ub'], ub) and v[0]['type'] == 'C'):
                        bad.append((fam, 'variable %s: expected [%r, %r] continuous, got %s' % (attrs, lb, ub, v[0])))
        for n, rec in act:
            if n not in used:
                bad.append((fam, 'unexpected variable %s' % (rec,)))
    for n in P['vars']:
        if n not in P['names'] and not (P['vars'][n][0]['type'] == 'B' and P['vars'][n][0]['obj'] == 0):
            bad.append(('aux', 'variable %s not described by the market' % n))
    return bad


def losses_vars(ctx, m, P):
    """one loss variable per link; its bounds never cut off a loss the flow bounds allow: at least [-M, M],
    M the largest flow magnitude"""
    bad = []
    if ctx.t('loss_functions') is None:
        return bad
    act = [(n, rec) for n, (f, rec) in P['names'].items() if f == 'interconnector_losses']
    for r in ctx.t('interconnectors').rows:
        hit = [n for n, rec in act if rec['interconnector'] == r.interconnector and rec['link'] == r.opt('link', r.interconnector)]
        if len(hit) != 1:
            bad.append(('interconnector_losses', '%d loss variables for link %s' % (len(hit), r.link)))
            continue
        v = P['vars'].get(hit[0])
        M = max(abs(r.min), abs(r.max))
        if v is None or len(v) != 1 or not (close(v[0]['lb'], -M) and close(v[0]['ub'], M)) or v[0]['type'] != 'C':
            bad.append(('interconnector_losses', 'loss variable of %s: %s expected [%r,%r]' % (r.link, v, -M, M)))
    if len(act) != len(ctx.t('interconnectors').rows):
        bad.append(('interconnector_losses', '%d loss variables for %d links' % (len(act), len(ctx.t('interconnectors').rows))))
    return bad


def sos(ctx, m, P):
    bad = []
    exp = []
    nm = P['names']
    if ctx.t('loss_functions') is not None:
        g = {}
        for n, (f, rec) in nm.items():
            if f == 'interpolation_weights':
                g.setdefault((rec['interconnector'], rec['link']), []).append((rec['loss_segment'], n))
        for k, lst in g.items():
            exp.append((2, tuple(n for s, n in sorted(lst)), k))
    g = {}
    for n, (f, rec) in nm.items():
        if f == 'interconnectors' and rec['interconnector'] != rec['link']:
            g.setdefault(rec['interconnector'], []).append(n)
    for k, lst in g.items():
        exp.append((1, frozenset(lst), k))
    act = []
    for t, items in P['sos']:
        if t == 2:
            act.append((2, tuple(n for w, n in sorted((w, n) for n, w in items))))
        else:
            act.append((1, frozenset(n for n, w in items)))
    a = list(act)
    for t, s, k in exp:
        if (t, s) in a:
            a.remove((t, s))
        elif t == 1 and len(s) == 1:
            continue
        else:
            bad.append(('sos', 'missing special ordered set of type %d for %s' % (t, k)))
    for x in a:
        bad.append(('sos', 'unexpected special ordered set %s' % (x,)))
    return bad


def objective(ctx, m, P, penalties=True):
    bad = []
    if P['sense'] not in ('MIN',):
        bad.append(('objective', 'not a minimisation: %s' % P['sense']))
    if P['const']:
        bad.append(('objective', 'constant term %r' % P['const']))
    for fam, lst in vlist(P).items():
        for n, v in lst:
            c = P['vars'][n][0]['obj']
            if fam == 'bids':
                e = S.bid_cost(ctx, v) if ctx.t('price_bids') is not None else 0.0
                if not close(c, e):
                    bad.append(('objective', 'bid %s costs %r, expected %r' % (v._d, c, e)))
            elif not is_def(fam) and c != 0:
                bad.append(('objective', '%s variable with cost %r' % (fam, c)))
    return bad
