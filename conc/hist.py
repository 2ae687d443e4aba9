"""Concrete runs of the historical input code on generated tables and documents, judged by spec/hist_spec.py."""
import math
import random

from spec import hist_spec as hs
from spec.tables import CRel, CCtx, CRow

import warnings
warnings.filterwarnings('ignore')
NAN = float('nan')


def pdx():
    import pandas as pd
    import numpy as np
    return pd, np


def clean(v):
    return NAN if v is None else v


def frame(rows, cols, index=None, text=()):
    pd, np = pdx()
    d = {}
    for c in cols:
        vals = [r.get(c) for r in rows]
        if c in text or any(isinstance(v, str) for v in vals):
            d[c] = pd.Series(vals, dtype=object)
        else:
            ints = vals and all(isinstance(v, int) for v in vals)
            d[c] = pd.Series([NAN if v is None else v for v in vals], dtype='int64' if ints else 'float64')
    df = pd.DataFrame(d, columns=list(cols))
    if index and len(df):
        df.index = index[:len(df)]
    return df


def rows_of(df):
    out = []
    for r in df.to_dict('records'):
        out.append({k: (None if (isinstance(v, float) and math.isnan(v)) or v is None else v) for k, v in r.items()})
    return out


def close(a, b):
    if a is None or b is None:
        return (a is None or a != a) and (b is None or b != b)
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))


def compare(what, got, exp, key, cols, exact=True):
    """rows compared as a multiset by key"""
    bad = []
    g, e = {}, {}
    for r in got:
        g.setdefault(tuple(r.get(c) for c in key), []).append(r)
    for r in exp:
        e.setdefault(tuple(r.get(c) for c in key), []).append(r)
    for k in sorted(set(g) | set(e), key=str):
        a, b = g.get(k, []), e.get(k, [])
        if len(a) != len(b):
            bad.append((what, 'key %s: %d rows, expected %d' % (k, len(a), len(b))))
            continue
        for x in a:
            if not any(all(close(x.get(c), y.get(c)) for c in cols) for y in b):
                y = b[0]
                d = {c: (x.get(c), y.get(c)) for c in cols if not close(x.get(c), y.get(c))}
                bad.append((what, 'key %s: (got, expected) %s' % (k, d)))
    return bad


def rel(name, rows):
    return CRel(name, [{k: clean(v) for k, v in r.items()} for r in rows])


def num(rng, lo=-20.0, hi=200.0):
    x = rng.random()
    if x < 0.2:
        return 0.0
    if x < 0.6:
        return float(rng.randint(int(lo), int(hi)))
    return round(rng.uniform(lo, hi), rng.choice([1, 3, 6]))


def pos(rng):
    return abs(num(rng, 0, 150))


def shuffled(rng, rows):
    rng.shuffle(rows)
    return rows


def index(rng, n):
    x = rng.random()
    if x < 0.5:
        return None
    ix = list(range(n))
    if x < 0.8:
        rng.shuffle(ix)
        return ix
    return [i * 3 + 5 for i in ix]


# ------------------------------------------------------------------ bids (C20, C21, C23)
BANDS = ['BANDAVAIL%d' % i for i in range(1, 11)]
PBANDS = ['PRICEBAND%d' % i for i in range(1, 11)]
VCOLS = ['DUID', 'BIDTYPE', 'DIRECTION'] + ['MAXAVAIL', 'ENABLEMENTMIN', 'ENABLEMENTMAX', 'LOWBREAKPOINT',
                                           'HIGHBREAKPOINT'] + BANDS + ['RAMPDOWNRATE', 'RAMPUPRATE']
PCOLS = ['DUID', 'BIDTYPE', 'DIRECTION'] + PBANDS
ICOLS = ['DUID', 'TRADERTYPE', 'INITIALMW', 'RAMPUPRATE', 'RAMPDOWNRATE', 'AGCSTATUS']
ACOLS = ['DUID', 'RAISEREGENABLEMENTMAX', 'RAISEREGENABLEMENTMIN', 'LOWERREGENABLEMENTMAX', 'LOWERREGENABLEMENTMIN']
DCOLS = ['DUID', 'CONNECTIONPOINTID', 'REGIONID', 'TRANSMISSIONLOSSFACTOR', 'DISTRIBUTIONLOSSFACTOR', 'SECONDARY_TLF']


def trapezium(rng):
    x = sorted(num(rng, -100 if rng.random() < 0.3 else 0, 150) for _ in range(4))
    if rng.random() < 0.2:
        x[1] = x[0]
    if rng.random() < 0.2:
        x[2] = x[3]
    return dict(MAXAVAIL=pos(rng), ENABLEMENTMIN=x[0], LOWBREAKPOINT=x[1], HIGHBREAKPOINT=x[2], ENABLEMENTMAX=x[3])


def bids_case(seed):
    rng = random.Random(seed)
    n = rng.choice([1, 2, 3, 4, 6])
    vol, price, ic, agc, det, uigf = [], [], [], [], [], []
    for i in range(n):
        u = 'U%d' % i
        tt = rng.choice(hs.TRADERS + ['GENERATOR', 'BIDIRECTIONAL', 'BIDIRECTIONAL'])
        sides = ['GENERATOR', 'LOAD'] if tt == 'BIDIRECTIONAL' else ['LOAD' if tt == 'LOAD' else 'GENERATOR']
        ic.append(dict(DUID=u, TRADERTYPE=tt, INITIALMW=num(rng, -60, 150),
                       RAMPUPRATE=rng.choice([None, 0.0, pos(rng) * 3, pos(rng) * 3]),
                       RAMPDOWNRATE=rng.choice([None, 0.0, pos(rng) * 3, pos(rng) * 3]),
                       AGCSTATUS=rng.choice([0.0, 1.0, 1.0])))
        if rng.random() < 0.08:
            ic[-1]['INITIALMW'] += rng.choice([1e-6, -1e-6, 4e-6])
        a = dict(DUID=u)
        for c in ACOLS[1:]:
            a[c] = rng.choice([0.0, num(rng, -10, 160), num(rng, 0, 160)])
        agc.append(a)
        det.append(dict(DUID=u, CONNECTIONPOINTID='CP' + u, REGIONID=rng.choice(['R1', 'R2']),
                        TRANSMISSIONLOSSFACTOR=round(rng.uniform(0.8, 1.1), 3),
                        DISTRIBUTIONLOSSFACTOR=rng.choice([1.0, round(rng.uniform(0.9, 1.1), 3)]),
                        SECONDARY_TLF=rng.choice([None, round(rng.uniform(0.8, 1.1), 3)])))
        if tt == 'GENERATOR' and rng.random() < 0.4:
            uigf.append(dict(DUID=u, UIGF=pos(rng)))
        for s in sides:
            for b in ['ENERGY'] + rng.sample(hs.BIDTYPES[1:], rng.choice([0, 1, 2, 4, 10])):
                r = dict(DUID=u, BIDTYPE=b, DIRECTION=s, **trapezium(rng))
                k = rng.choice([0, 1, 10]) if rng.random() < 0.3 else rng.randint(1, 10)
                for j, c in enumerate(BANDS):
                    r[c] = pos(rng) if rng.random() < 0.3 and j < k else 0.0
                r['RAMPDOWNRATE'], r['RAMPUPRATE'] = pos(rng) * 3, pos(rng) * 3
                vol.append(r)
                p = dict(DUID=u, BIDTYPE=b, DIRECTION=s)
                for j, c in enumerate(PBANDS):
                    p[c] = num(rng, -1000, 1000)
                price.append(p)
    nodir = rng.random() < 0.4
    for t in (vol, price, ic, agc, det, uigf):
        shuffled(rng, t)
    return dict(vol=vol, price=price, ic=ic, agc=agc, det=det, uigf=uigf, nodir=nodir,
                interval=rng.choice(['2019/01/01 00:00:00', '2024/07/10 12:05:00']), ix=rng.randrange(10 ** 6))


class StubLoader:
    def __init__(self, x):
        rng = random.Random(x['ix'])
        self.interval = x['interval']
        bdu = {r['DUID'] for r in x['ic'] if r['TRADERTYPE'] == 'BIDIRECTIONAL'}
        vol = [dict(r) for r in x['vol']]
        if x['nodir']:
            for r in vol:
                if r['DUID'] not in bdu:
                    r['DIRECTION'] = None
        ix = lambda t: index(rng, len(t))
        self.v = frame(vol, VCOLS, ix(vol), text=['DIRECTION'])
        self.p = frame(x['price'], PCOLS, ix(x['price']))
        self.i = frame(x['ic'], ICOLS, ix(x['ic']))
        self.a = frame(x['agc'], ACOLS, ix(x['agc']))
        self.d = frame(x['det'], DCOLS, ix(x['det']))
        self.u = frame(x['uigf'], ['DUID', 'UIGF'], ix(x['uigf']), text=['DUID'])

    def get_unit_price_bids(self): return self.p
    def get_unit_volume_bids(self): return self.v
    def get_unit_fast_start_parameters(self): return None
    def get_unit_initial_conditions(self): return self.i
    def get_UIGF_values(self): return self.u
    def get_unit_details(self): return self.d
    def get_agc_enablement_limits(self): return self.a


def bids_ctx(x):
    t = dict(initial=rel('initial', x['ic']), agc=rel('agc', x['agc']), uigf=rel('uigf', x['uigf']),
             details=rel('details', x['det']))
    semi = {r['DUID'] for r in x['uigf']} if x['interval'] < '2023/07/07 13:40' else set()
    cap = [dict(DUID=r['DUID'], DIRECTION=r['DIRECTION'], capacity=r['MAXAVAIL']) for r in x['vol']
           if r['BIDTYPE'] == 'ENERGY' and r['DUID'] not in semi]
    t['capacity'] = rel('capacity', cap)
    return CCtx(t, {})


def round5(x):
    pd, np = pdx()
    return float(np.round(x, 5))


def scaled_rows(ctx, x):
    out = []
    for r in x['vol']:
        t = hs.scaled(ctx, CRow(r))
        out.append(dict(r, **t))
    return out




def expected_bids(x):
    ctx = bids_ctx(x)
    sc = scaled_rows(ctx, x)
    ctx.tables['bids'] = rel('bids', sc)
    keep = [r for r in sc if hs.survives(ctx, CRow(r), BANDS, round5)]
    return ctx, sc, keep


def run_units(x):
    from nempy.historical_inputs import units
    L = StubLoader(x)
    u = units.UnitData(L)
    vb, pb = u.get_processed_bids()
    return u, vb, pb


KEY = ['DUID', 'BIDTYPE', 'DIRECTION']


def c20():
    def judge(x):
        from nempy.historical_inputs import units
        L = StubLoader(x)
        u = units.UnitData(L)
        ctx = bids_ctx(x)
        b = u.volume_bids.drop(['RAMPDOWNRATE', 'RAMPUPRATE'], axis=1)
        bad = []
        exp = [dict(r) for r in x['vol']]
        b = units._scaling_for_agc_enablement_limits(b, L.a)
        exp = [dict(r, **hs.agc_limits(ctx, CRow(r), hs.trap(CRow(r)))) for r in exp]
        bad += compare('scaling by AGC enablement limits', rows_of(b), exp, KEY, hs.TRAP + BANDS)
        b = units._scaling_for_agc_ramp_rates(b, L.i)
        exp = [dict(r, **hs.agc_ramp(ctx, CRow(r), hs.trap(CRow(r)))) for r in exp]
        bad += compare('scaling by AGC ramp rates', rows_of(b), exp, KEY, hs.TRAP + BANDS)
        b = units._scaling_for_uigf(b, L.u)
        exp = [dict(r, **hs.forecast(ctx, CRow(r), hs.trap(CRow(r)))) for r in exp]
        bad += compare('scaling by forecast', rows_of(b), exp, KEY, hs.TRAP + BANDS)
        if not bad:
            # what the trapeziums handed to the market say
            u, vb, pb = run_units(x)
            u.add_fcas_trapezium_constraints()
            d = {}
            for r in exp:
                d[(r['DUID'], hs.SERVICE[r['BIDTYPE']], r['DIRECTION'].lower())] = r
            nm = dict(max_availability='MAXAVAIL', enablement_min='ENABLEMENTMIN', low_break_point='LOWBREAKPOINT',
                      high_break_point='HIGHBREAKPOINT', enablement_max='ENABLEMENTMAX')
            con, rg, mx = u.get_contingency_services(), u.get_fcas_regulation_trapeziums(), u.get_fcas_max_availability()
            seen = set()
            for t in rows_of(con) + rows_of(rg):
                k = (t['unit'], t['service'], t['dispatch_type'])
                if k not in d or k in seen:
                    bad.append(('trapeziums', 'unexpected %s' % (k,)))
                    continue
                seen.add(k)
                for c, s in nm.items():
                    if not close(t[c], d[k][s]):
                        bad.append(('trapeziums', '%s %s: %s, expected %s' % (k, c, t[c], d[k][s])))
            for t in rows_of(con):
                if t['service'] in ('raise_reg', 'lower_reg'):
                    bad.append(('trapeziums', 'regulation service among contingency services'))
            for t in rows_of(rg):
                if t['service'] not in ('raise_reg', 'lower_reg'):
                    bad.append(('trapeziums', 'contingency service among regulation services'))
            mk = [(t['unit'], t['service'], t['dispatch_type']) for t in rows_of(mx)]
            if sorted(mk) != sorted(seen):
                bad.append(('trapeziums', 'maximum availability rows %s, trapeziums %s' % (mk, sorted(seen))))
            for t in rows_of(mx):
                k = (t['unit'], t['service'], t['dispatch_type'])
                if k in d and not close(t['max_availability'], d[k]['MAXAVAIL']):
                    bad.append(('trapeziums', '%s max availability %s' % (k, t['max_availability'])))
        return bad
    return bids_case, judge




def c21():
    def judge(x):
        ctx, sc, keep = expected_bids(x)
        u, vb, pb = run_units(x)
        fmt = lambda r: dict(unit=r['DUID'], service=hs.SERVICE[r['BIDTYPE']], dispatch_type=r['DIRECTION'].lower())
        exp = [dict(fmt(r), **{str(i): r['BANDAVAIL%d' % i] for i in range(1, 11)}) for r in keep]
        K = ['unit', 'service', 'dispatch_type']
        cols = [str(i) for i in range(1, 11)]
        got = rows_of(vb)
        bad = compare('volume bids', got, exp, K, cols)
        bad += compare('price bids cover the surviving volume bids', rows_of(pb), exp, K, [])
        if bad and fragile(ctx, x, sc, bad):
            return []
        return bad

    def fragile(ctx, x, sc, bad):
        # float rounding of the scaling can flip a comparison that sits exactly on its boundary: such a case decides nothing
        base = {tuple(r[c] for c in KEY) for r in sc if hs.survives(ctx, CRow(r), BANDS, round5)}
        for e in (1e-9, -1e-9):
            for cs in (['ENABLEMENTMIN'], ['ENABLEMENTMAX'], ['MAXAVAIL'], ['ENABLEMENTMIN', 'ENABLEMENTMAX']):
                mv = []
                for r in sc:
                    m = dict(r)
                    if r['BIDTYPE'] in hs.REG or any(q['DUID'] == r['DUID'] for q in x['uigf']):
                        o = [q for q in x['vol'] if all(q[c] == r[c] for c in KEY)][0]
                        for c in cs:
                            if r[c] != o[c]:
                                m[c] = r[c] + e
                    mv.append(m)
                ctx.tables['bids'] = rel('bids', mv)
                if {tuple(r[c] for c in KEY) for r in mv if hs.survives(ctx, CRow(r), BANDS, round5)} != base:
                    return True
        return False
    return bids_case, judge


def c23():
    def judge(x):
        from nempy.historical_inputs import units
        ctx, sc, keep = expected_bids(x)
        L = StubLoader(x)
        u = units.UnitData(L)
        info = rows_of(u.get_unit_info())
        exp = []
        for k in sorted({(r['DUID'], r['DIRECTION']) for r in x['price']}):
            d = ctx.t('details').get(('DUID',), (k[0],))
            exp.append(dict(unit=k[0], dispatch_type=k[1].lower(), region=d.REGIONID, loss_factor=hs.loss_factor(ctx, *k)))
        bad = compare('unit info', info, exp, ['unit', 'dispatch_type'], ['region', 'loss_factor'])
        vb, pb = u.get_processed_bids()
        lf = {(e['unit'], e['dispatch_type']): e['loss_factor'] for e in exp}
        by = {(r['DUID'], hs.SERVICE[r['BIDTYPE']], r['DIRECTION'].lower()): r for r in x['price']}
        for r in rows_of(pb):
            o = by.get((r['unit'], r['service'], r['dispatch_type']))
            if o is None:
                bad.append(('price bids', 'unexpected %s' % r))
                continue
            f = lf[(r['unit'], r['dispatch_type'])] if r['service'] == 'energy' else 1.0
            for i in range(1, 11):
                if not close(r[str(i)], o['PRICEBAND%d' % i] * f):
                    bad.append(('price bids', '%s %s %s band %d: %s, expected %s' % (
                        r['unit'], r['service'], r['dispatch_type'], i, r[str(i)], o['PRICEBAND%d' % i] * f)))
        # the other tables taken from the same bids
        av = rows_of(u.get_unit_bid_availability())
        semi = {q['DUID'] for q in x['uigf']} if x['interval'] < '2023/07/07 13:40' else set()
        en = [r for r in x['vol'] if r['BIDTYPE'] == 'ENERGY']
        bad += compare('bid availability', av, [dict(unit=r['DUID'], dispatch_type=r['DIRECTION'].lower(),
                                                     capacity=r['MAXAVAIL']) for r in en if r['DUID'] not in semi],
                       ['unit', 'dispatch_type'], ['capacity'])
        im = {r['DUID']: r for r in x['ic']}
        bad += compare('bid ramp rates', rows_of(u.get_bid_ramp_rates()),
                       [dict(unit=r['DUID'], dispatch_type=r['DIRECTION'].lower(), ramp_up_rate=r['RAMPUPRATE'],
                             ramp_down_rate=r['RAMPDOWNRATE'], initial_output=im[r['DUID']]['INITIALMW']) for r in en],
                       ['unit', 'dispatch_type'], ['ramp_up_rate', 'ramp_down_rate', 'initial_output'])
        bad += compare('telemetered ramp rates', rows_of(u.get_scada_ramp_rates(inlude_initial_output=True)),
                       [dict(unit=r['DUID'], scada_ramp_up_rate=r['RAMPUPRATE'], scada_ramp_down_rate=r['RAMPDOWNRATE'],
                             initial_output=r['INITIALMW']) for r in x['ic']
                        if not (r['RAMPUPRATE'] is None and r['RAMPDOWNRATE'] is None)],
                       ['unit'], ['scada_ramp_up_rate', 'scada_ramp_down_rate', 'initial_output'])
        bad += compare('initial output', rows_of(u.get_initial_unit_output()),
                       [dict(unit=r['DUID'], initial_output=r['INITIALMW']) for r in x['ic']], ['unit'], ['initial_output'])
        return bad
    return bids_case, judge


# ------------------------------------------------------------------ C22
FCOLS = ['DUID', 'MinLoadingMW', 'CurrentMode', 'CurrentModeTime', 'T1', 'T2', 'T3', 'T4']


def c22():
    def case(seed):
        rng = random.Random(seed)
        n = rng.choice([1, 2, 3, 5, 8])
        modes = rng.choice([[0, 1, 2, 3, 4], [0], [0, 1], [3, 4], [2, 3], [4]])
        prof, disp = [], []
        for i in range(n):
            u = 'U%d' % i
            ts = [rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 20, 30]) for _ in range(4)]
            m = rng.choice(modes)
            t = 0 if m == 0 else rng.randint(0, ts[m - 1])
            prof.append(dict(DUID=u, MinLoadingMW=rng.randint(0, 60), CurrentMode=m, CurrentModeTime=t,
                             T1=ts[0], T2=ts[1], T3=ts[2], T4=ts[3]))
            if rng.random() < 0.9:
                disp.append(dict(unit=u, dispatch_type='generator', service='energy',
                                 dispatch=rng.choice([0.0, 0.0, pos(rng), 0.001])))
            if rng.random() < 0.3:
                disp.append(dict(unit=u, dispatch_type='generator', service='raise_reg', dispatch=pos(rng)))
        disp.append(dict(unit='Z', dispatch_type='generator', service='energy', dispatch=5.0))
        rng.shuffle(disp)
        return dict(prof=prof, disp=disp, dt=rng.random() < 0.7, all=rng.random() < 0.5, ix=rng.randrange(10 ** 6))

    def judge(x):
        from nempy.historical_inputs import units
        rng = random.Random(x['ix'])
        u = units.UnitData.__new__(units.UnitData)
        u.fast_start_profiles = frame(x['prof'], FCOLS, index(rng, len(x['prof'])))
        u.updated_fast_start_profiles = None
        dc = ['unit', 'dispatch_type', 'service', 'dispatch'] if x['dt'] else ['unit', 'service', 'dispatch']
        D = frame(x['disp'], dc, index(rng, len(x['disp'])))
        first = rows_of(u.get_fast_start_profiles_for_dispatch())
        bad = compare('profiles of the first run', first, [dict(unit=p['DUID'], current_mode=p['CurrentMode']) for p in x['prof']],
                      ['unit'], ['current_mode'])
        got = rows_of(u.get_fast_start_profiles_for_dispatch(D, return_all_columns=x['all']))
        ds = {d['unit']: d['dispatch'] for d in x['disp'] if d['service'] == 'energy'}
        exp = []
        for p in x['prof']:
            if p['DUID'] not in ds:
                continue
            r = CRow(dict(current_mode=p['CurrentMode'], time_in_current_mode=p['CurrentModeTime'], mode_one_length=p['T1'],
                          mode_two_length=p['T2'], mode_three_length=p['T3'], mode_four_length=p['T4']))
            mode, spent, (leaves, since) = hs.fast_start(None, r, ds[p['DUID']])
            e = dict(unit=p['DUID'], end_mode=mode, time_in_end_mode=spent, mode_two_length=p['T2'],
                     mode_four_length=p['T4'], min_loading=p['MinLoadingMW'],
                     time_since_end_of_mode_two=since if leaves else None)
            if x['all']:
                e.update(current_mode=p['CurrentMode'], time_in_current_mode=p['CurrentModeTime'], mode_one_length=p['T1'],
                         mode_three_length=p['T3'])
            exp.append(e)
        cols = [c for c in (exp[0] if exp else {})]
        bad += compare('profiles after commitment', got, exp, ['unit'], cols)
        return bad
    return case, judge


# ------------------------------------------------------------------ C24
def c24():
    def case(seed):
        rng = random.Random(seed)
        regs = ['R%d' % i for i in range(rng.choice([2, 3, 4]))]
        ics, cons, mnsp, bids, loss, fac = [], [], [], [], [], []
        for i in range(rng.choice([1, 2, 3, 4])):
            a, b = rng.sample(regs, 2)
            n = 'T-V-MNSP1' if i == 0 and rng.random() < 0.3 else 'IC%d' % i
            ty = 'MNSP' if n == 'T-V-MNSP1' else rng.choice(['REGULATED', 'MNSP'])
            ics.append(dict(INTERCONNECTORID=n, REGIONFROM=a, REGIONTO=b))
            cons.append(dict(INTERCONNECTORID=n, FROMREGIONLOSSSHARE=round(rng.random(), 2),
                             LOSSCONSTANT=round(rng.uniform(0.9, 1.1), 4), ICTYPE=ty,
                             LOSSFLOWCOEFFICIENT=round(rng.uniform(0, 0.001), 6), IMPORTLIMIT=pos(rng), EXPORTLIMIT=pos(rng)))
            if ty == 'MNSP':
                for k, (f, t, g) in enumerate([(a, b, 1.0), (b, a, -1.0)]):
                    mnsp.append(dict(INTERCONNECTORID=n, LINKID='%s_L%d' % (n, k), FROMREGION=f, TOREGION=t,
                                     FROM_REGION_TLF=round(rng.uniform(0.9, 1.1), 3),
                                     TO_REGION_TLF=round(rng.uniform(0.9, 1.1), 3), LHSFACTOR=g, MAXCAPACITY=pos(rng)))
                    bids.append(dict(interconnector=n, to_region=t, availability=rng.choice([None, pos(rng), pos(rng)])))
            k = rng.choice([2, 3, 5])
            for s in range(-k, k + 1):
                loss.append(dict(INTERCONNECTORID=n, LOSSSEGMENT=str(s) if False else s, MWBREAKPOINT=s * 50.0 + rng.choice([0, 1])))
            for r in rng.sample(regs, rng.choice([0, 1, 2])):
                fac.append(dict(INTERCONNECTORID=n, REGIONID=r, DEMANDCOEFFICIENT=round(rng.uniform(-1e-4, 1e-4), 8)))
        load = [dict(REGIONID=r, TOTALDEMAND=pos(rng) * 10, DEMANDFORECAST=num(rng, -50, 50), INITIALSUPPLY=pos(rng) * 10)
                for r in regs]
        for t in (ics, cons, mnsp, bids, loss, fac, load):
            rng.shuffle(t)
        return dict(ics=ics, cons=cons, mnsp=mnsp, bids=bids, loss=loss, fac=fac, load=load,
                    flows=[num(rng, -300, 300) for _ in range(3)], ix=rng.randrange(10 ** 6))

    class L:
        def __init__(self, x):
            rng = random.Random(x['ix'])
            f = lambda rows, cols, text=(): frame(rows, cols, index(rng, len(rows)), text)
            self.c = f(x['cons'], ['INTERCONNECTORID', 'FROMREGIONLOSSSHARE', 'LOSSCONSTANT', 'ICTYPE',
                                   'LOSSFLOWCOEFFICIENT', 'IMPORTLIMIT', 'EXPORTLIMIT'])
            self.i = f(x['ics'], ['INTERCONNECTORID', 'REGIONFROM', 'REGIONTO'])
            self.m = f(x['mnsp'], ['INTERCONNECTORID', 'LINKID', 'FROMREGION', 'TOREGION', 'FROM_REGION_TLF',
                                   'TO_REGION_TLF', 'LHSFACTOR', 'MAXCAPACITY'],
                       ['INTERCONNECTORID', 'LINKID', 'FROMREGION', 'TOREGION'])
            self.b = f(x['bids'], ['interconnector', 'to_region', 'availability'], ['interconnector', 'to_region'])
            self.s = f(x['loss'], ['INTERCONNECTORID', 'LOSSSEGMENT', 'MWBREAKPOINT'])
            self.d = f(x['fac'], ['INTERCONNECTORID', 'REGIONID', 'DEMANDCOEFFICIENT'], ['INTERCONNECTORID', 'REGIONID'])
            self.l = f(x['load'], ['REGIONID', 'TOTALDEMAND', 'DEMANDFORECAST', 'INITIALSUPPLY'])

        def get_interconnector_constraint_parameters(self): return self.c.copy()
        def get_interconnector_definitions(self): return self.i.copy()
        def get_market_interconnectors(self): return self.m.copy()
        def get_market_interconnector_link_bid_availability(self): return self.b.copy()
        def get_interconnector_loss_segments(self): return self.s.copy()
        def get_interconnector_loss_parameters(self): return self.d.copy()
        def get_regional_loads(self): return self.l.copy()

    def judge(x):
        from nempy.historical_inputs import interconnectors, demand
        ld = L(x)
        d = interconnectors.InterconnectorData(ld)
        cons = {r['INTERCONNECTORID']: r for r in x['cons']}
        exp = []
        for r in x['ics']:
            c = cons[r['INTERCONNECTORID']]
            if c['ICTYPE'] == 'REGULATED':
                exp.append(dict(interconnector=r['INTERCONNECTORID'], link=r['INTERCONNECTORID'], from_region=r['REGIONFROM'],
                                to_region=r['REGIONTO'], min=-c['IMPORTLIMIT'], max=c['EXPORTLIMIT'],
                                from_region_loss_factor=1.0, to_region_loss_factor=1.0, generic_constraint_factor=1))
        av = {(b['interconnector'], b['to_region']): b['availability'] for b in x['bids']}
        for m in x['mnsp']:
            a = av.get((m['INTERCONNECTORID'], m['TOREGION']))
            exp.append(dict(interconnector=m['INTERCONNECTORID'], link=m['LINKID'], from_region=m['FROMREGION'],
                            to_region=m['TOREGION'], min=0.0, max=m['MAXCAPACITY'] if a is None else a,
                            from_region_loss_factor=m['FROM_REGION_TLF'], to_region_loss_factor=m['TO_REGION_TLF'],
                            generic_constraint_factor=int(m['LHSFACTOR'])))
        cols = ['from_region', 'to_region', 'min', 'max', 'from_region_loss_factor', 'to_region_loss_factor',
                'generic_constraint_factor']
        bad = compare('interconnector definitions', rows_of(d.get_interconnector_definitions()), exp,
                      ['interconnector', 'link'], cols)
        lf, bp = d.get_interconnector_loss_model()
        dem = {r['REGIONID']: r['INITIALSUPPLY'] + r['DEMANDFORECAST'] for r in x['load']}
        ebp, elf = [], []
        for e in exp:
            g = e['generic_constraint_factor']
            for s in x['loss']:
                if s['INTERCONNECTORID'] == e['interconnector']:
                    ebp.append(dict(interconnector=e['interconnector'], link=e['link'], loss_segment=s['LOSSSEGMENT'] * g,
                                    break_point=s['MWBREAKPOINT'] * g))
            elf.append(dict(interconnector=e['interconnector'], link=e['link'],
                            from_region_loss_share=1.0 if e['interconnector'] == 'T-V-MNSP1' else
                            cons[e['interconnector']]['FROMREGIONLOSSSHARE']))
        bad += compare('break points', rows_of(bp), ebp, ['interconnector', 'link', 'loss_segment'], ['break_point'])
        bad += compare('loss functions', [{k: v for k, v in r.items() if k != 'loss_function'} for r in rows_of(lf)], elf,
                       ['interconnector', 'link'], ['from_region_loss_share'])
        for r in lf.to_dict('records'):
            c = cons.get(r['interconnector'])
            g = [e for e in exp if e['link'] == r['link']]
            if c is None or not g:
                continue
            g = g[0]['generic_constraint_factor']
            off = sum(q['DEMANDCOEFFICIENT'] * dem[q['REGIONID']] for q in x['fac']
                      if q['INTERCONNECTORID'] == r['interconnector'])
            for fl in x['flows']:
                z = fl * g
                e = (c['LOSSCONSTANT'] - 1 + off) * z + c['LOSSFLOWCOEFFICIENT'] / 2 * z * z
                if not close(r['loss_function'](fl), e):
                    bad.append(('loss function', '%s at %s: %s, expected %s' % (r['link'], fl, r['loss_function'](fl), e)))
        od = rows_of(demand.DemandData(ld).get_operational_demand())
        bad += compare('operational demand', od, [dict(region=r['REGIONID'], demand=r['TOTALDEMAND']) for r in x['load']],
                       ['region'], ['demand'])
        return bad
    return case, judge


# ------------------------------------------------------------------ C25
def c25():
    def date(rng):
        return '20%02d/%02d/%02d %02d:%02d:00' % (rng.choice([18, 19, 20]), rng.choice([1, 2, 11, 12]), rng.choice([1, 2, 28]),
                                                  rng.choice([0, 4, 12, 23]), rng.choice([0, 5, 55]))

    def case(seed):
        rng = random.Random(seed)
        kind = rng.choice(['settlement', 'effective', 'effective_ic', 'start', 'match', 'lossmodel'])
        dates = [date(rng) for _ in range(rng.choice([1, 2, 4]))]
        if rng.random() < 0.5:
            dates.append('2019/01/01 00:05:00')
        t = rng.choice(dates)
        rows, other = [], []
        ids = ['A', 'B', 'C'][:rng.choice([1, 2, 3])]
        for i in ids:
            for d in sorted(set(dates)):
                for v in range(rng.choice([0, 1, 2, 3])):
                    vn = v + 1 if rng.random() < 0.6 else v * 4 + 9
                    for s in range(2 if kind == 'lossmodel' else 1):
                        rows.append(dict(id=i, date=d, ver=vn, seg=s, val=pos(rng)))
        seen, uniq = set(), []
        for r in rows:
            k = (r['id'], r['date']) if kind in ('settlement', 'start') else (r['id'], r['date'], r['ver'], r['seg'])
            if k not in seen:
                seen.add(k)
                uniq.append(r)
        if not uniq:
            uniq.append(dict(id='A', date=dates[0], ver=1, seg=0, val=1.0))
        rng.shuffle(uniq)
        for d in sorted(set(dates)):
            for i in ids:
                if rng.random() < 0.7:
                    c = [r for r in uniq if r['id'] == i]
                    m = rng.choice(c) if c else None
                    other.append(dict(id=i, date=d, edate=m['date'] if m else d, ver=m['ver'] if m else 1))
        return dict(kind=kind, t=t, rows=uniq, other=other)

    def judge(x):
        import sqlite3
        pd, np = pdx()
        from nempy.historical_inputs import mms_db
        con = sqlite3.connect(':memory:')
        m = mms_db.DBManager(con)
        k, t = x['kind'], x['t']
        R = x['rows']

        def put(table, rows, names):
            m_t = getattr(m, table)
            df = pd.DataFrame([{names.get(c, c): r[c] for c in names} for r in rows], columns=list(names.values()))
            for c in m_t.table_columns:
                if c not in df.columns:
                    df[c] = np.nan
            df = df.loc[:, m_t.table_columns]
            df.to_sql(table, con=con, if_exists='replace', index=False)

        def latest(rows):
            out = []
            for i in sorted({r['id'] for r in rows}):
                c = [r for r in rows if r['id'] == i and r['date'] <= t]
                if c:
                    d = max(r['date'] for r in c)
                    v = max(r['ver'] for r in c if r['date'] == d)
                    out += [r for r in c if r['date'] == d and r['ver'] == v]
            return out
        try:
            if k == 'settlement':
                put('DISPATCHREGIONSUM', R, dict(id='REGIONID', date='SETTLEMENTDATE', val='TOTALDEMAND'))
                got = rows_of(m.DISPATCHREGIONSUM.get_data(t))
                exp = [dict(REGIONID=r['id'], SETTLEMENTDATE=r['date'], TOTALDEMAND=r['val']) for r in R if r['date'] == t]
                return compare('rows of the interval', got, exp, ['REGIONID'], ['SETTLEMENTDATE', 'TOTALDEMAND'])
            if k == 'start':
                put('DUDETAILSUMMARY', R, dict(id='DUID', date='START_DATE', val='TRANSMISSIONLOSSFACTOR'))
                got = rows_of(m.DUDETAILSUMMARY.get_data(t))
                exp = []
                for i in sorted({r['id'] for r in R}):
                    c = [r for r in R if r['id'] == i and r['date'] <= t]
                    if c:
                        b = max(c, key=lambda r: r['date'])
                        exp.append(dict(DUID=i, START_DATE=b['date'], TRANSMISSIONLOSSFACTOR=b['val']))
                return compare('record started by the interval', got, exp, ['DUID'], ['START_DATE', 'TRANSMISSIONLOSSFACTOR'])
            if k == 'effective':
                put('DUDETAIL', R, dict(id='DUID', date='EFFECTIVEDATE', ver='VERSIONNO', val='REGISTEREDCAPACITY'))
                bad = []
                for _ in range(2):
                    got = rows_of(m.DUDETAIL.get_data(t))
                    exp = [dict(DUID=r['id'], EFFECTIVEDATE=r['date'], VERSIONNO=r['ver'], REGISTEREDCAPACITY=r['val'])
                           for r in latest(R)]
                    bad += compare('record in force', got, exp, ['DUID'], ['EFFECTIVEDATE', 'VERSIONNO', 'REGISTEREDCAPACITY'])
                return bad
            if k in ('effective_ic', 'lossmodel'):
                tb = 'LOSSMODEL' if k == 'lossmodel' else 'INTERCONNECTORCONSTRAINT'
                nm = dict(id='INTERCONNECTORID', date='EFFECTIVEDATE', ver='VERSIONNO',
                          val='MWBREAKPOINT' if k == 'lossmodel' else 'IMPORTLIMIT')
                if k == 'lossmodel':
                    nm['seg'] = 'LOSSSEGMENT'
                put(tb, R, nm)
                put('DISPATCHINTERCONNECTORRES', x['other'] or [dict(id='ZZ', date='1999/01/01 00:00:00')],
                    dict(id='INTERCONNECTORID', date='SETTLEMENTDATE'))
                on = {o['id'] for o in x['other'] if o['date'] == t}
                got = rows_of(getattr(m, tb).get_data(t))
                exp = [{nm[c]: r[c] for c in nm} for r in latest(R) if r['id'] in on]
                return compare('record in force of dispatched interconnectors', got, exp,
                               ['INTERCONNECTORID'] + (['LOSSSEGMENT'] if k == 'lossmodel' else []), list(nm.values()))
            if k == 'match':
                put('GENCONDATA', R, dict(id='GENCONID', date='EFFECTIVEDATE', ver='VERSIONNO', val='GENERICCONSTRAINTWEIGHT'))
                put('DISPATCHCONSTRAINT', x['other'] or [dict(id='ZZ', date='1999/01/01 00:00:00', edate='x', ver=1)],
                    dict(id='CONSTRAINTID', date='SETTLEMENTDATE', edate='GENCONID_EFFECTIVEDATE', ver='GENCONID_VERSIONNO'))
                got = rows_of(m.GENCONDATA.get_data(t))
                exp = []
                for r in R:
                    for o in x['other']:
                        if o['date'] == t and o['id'] == r['id'] and o['edate'] == r['date'] and o['ver'] == r['ver']:
                            exp.append(dict(GENCONID=r['id'], EFFECTIVEDATE=r['date'], VERSIONNO=r['ver'],
                                            GENERICCONSTRAINTWEIGHT=r['val']))
                return compare('constraint version used in dispatch', got, exp, ['GENCONID', 'EFFECTIVEDATE', 'VERSIONNO'],
                               ['GENERICCONSTRAINTWEIGHT'])
        finally:
            con.close()
    return case, judge


# ------------------------------------------------------------------ C26
def c26():
    def case(seed):
        from datetime import datetime, timedelta
        rng = random.Random(seed)
        base = datetime(rng.choice([2015, 2019, 2020, 2024, 2099]), rng.choice([1, 2, 3, 12]), rng.choice([1, 2, 28]))
        k = rng.choice([0, 47, 48, 49, 50, 287, 288]) if rng.random() < 0.6 else rng.randint(0, 2000)
        t = base + timedelta(minutes=5 * k) - timedelta(days=rng.choice([0, 1, 2]))
        return dict(t=t.strftime('%Y/%m/%d %H:%M:%S'), ocd=rng.choice(['none', 'plain', 'ocd', 'both']))

    def judge(x):
        import os
        import shutil
        import tempfile
        from datetime import datetime, timedelta
        from nempy.historical_inputs import xml_cache, loaders
        d = tempfile.mkdtemp(prefix='nempyc26')
        try:
            m = xml_cache.XMLCacheManager(os.path.join(d, 'cache'))
            m.interval = x['t']
            t = datetime.strptime(x['t'], '%Y/%m/%d %H:%M:%S')
            # the market day starts with the interval that ends at 04:05
            s = t - timedelta(hours=4, minutes=5)
            day, number = s.date(), (s.hour * 60 + s.minute) // 5 + 1
            plain = 'NEMSPDOutputs_%04d%02d%02d%03d00.loaded' % (day.year, day.month, day.day, number)
            over = plain.replace('.loaded', '_OCD.loaded')
            for f, on in ((plain, ('plain', 'both')), (over, ('ocd', 'both'))):
                if x['ocd'] in on:
                    with open(os.path.join(d, 'cache', f), 'w') as g:
                        g.write('<NEMSPDCaseFile name="%s"><A>1</A></NEMSPDCaseFile>' % f)
            exp = over if x['ocd'] == 'ocd' else plain
            got = m.get_file_name()
            bad = []
            if got != exp:
                bad.append(('file name', '%s (%s): %s, expected %s' % (x['t'], x['ocd'], got, exp)))
            if m.interval_inputs_in_cache() != (x['ocd'] != 'none'):
                bad.append(('file name', '%s: in cache %s' % (x['t'], m.interval_inputs_in_cache())))
            if x['ocd'] != 'none' and not bad:
                m.load_interval(x['t'])
                if m.xml['NEMSPDCaseFile']['@name'] != exp:
                    bad.append(('file name', 'loaded %s for %s' % (m.xml['NEMSPDCaseFile']['@name'], x['t'])))
                L = loaders.RawInputsLoader(m, None)
                L.set_interval(x['t'])
                if L.is_over_constrained_dispatch_rerun() != (exp == over):
                    bad.append(('file name', 'over-constrained flag of %s is %s' % (exp, L.is_over_constrained_dispatch_rerun())))
            return bad
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return case, judge


# ------------------------------------------------------------------ C27
BT = dict(ENOF='ENERGY', LDOF='ENERGY', DROF='ENERGY', BDOF='ENERGY', L5RE='LOWERREG', R5RE='RAISEREG', R5MI='RAISE5MIN',
          L5MI='LOWER5MIN', R60S='RAISE60SEC', L60S='LOWER60SEC', R6SE='RAISE6SEC', L6SE='LOWER6SEC', R1SE='RAISE1SEC',
          L1SE='LOWER1SEC')
VMAP = dict(MAXAVAIL='MaxAvail', ENABLEMENTMIN='EnablementMin', ENABLEMENTMAX='EnablementMax', LOWBREAKPOINT='LowBreakpoint',
            HIGHBREAKPOINT='HighBreakpoint', RAMPDOWNRATE='RampDnRate', RAMPUPRATE='RampUpRate',
            **{'BANDAVAIL%d' % i: 'BandAvail%d' % i for i in range(1, 11)})
PMAP = {'PRICEBAND%d' % i: 'PriceBand%d' % i for i in range(1, 11)}
VP = dict(regional_demand='EnergyDeficitPrice', interocnnector='InterconnectorPrice', generic_constraint='GenericConstraintPrice',
          ramp_rate='RampRatePrice', unit_capacity='CapacityPrice', energy_offer='OfferPrice', fcas_profile='ASProfilePrice',
          fcas_max_avail='ASMaxAvailPrice', fcas_enablement_min='ASEnablementMinPrice',
          fcas_enablement_max='ASEnablementMaxPrice', fast_start='FastStartPrice', mnsp_ramp_rate='MNSPRampRatePrice',
          msnp_offer='MNSPOfferPrice', mnsp_capacity='MNSPCapacityPrice', uigf='UIGFSurplusPrice', voll='VoLL',
          tiebreak='TieBreakPrice')
VIOL = dict(regional_demand='TotalAreaGenViolation', interocnnector='TotalInterconnectorViolation',
            generic_constraint='TotalGenericViolation', ramp_rate='TotalRampRateViolation',
            unit_capacity='TotalUnitMWCapacityViolation', energy_constraint='TotalEnergyConstrViolation',
            energy_offer='TotalEnergyOfferViolation', fcas_profile='TotalASProfileViolation',
            fast_start='TotalFastStartViolation', mnsp_ramp_rate='TotalMNSPRampRateViolation',
            msnp_offer='TotalMNSPOfferViolation', mnsp_capacity='TotalMNSPCapacityViolation', ugif='TotalUIGFViolation')


def el(tag, attrs, *kids):
    a = ''.join(' %s="%s"' % (k, v) for k, v in attrs.items())
    return '<%s%s>%s</%s>' % (tag, a, ''.join(kids), tag) if kids else '<%s%s/>' % (tag, a)


def c27():
    def case(seed):
        rng = random.Random(seed)
        interv = rng.random() < 0.4
        traders = []
        for i in range(rng.choice([2, 3, 5])):
            tt = rng.choice(hs.TRADERS)
            bdu = tt == 'BIDIRECTIONAL'
            t = dict(id='T%d' % i, tt=tt, ic=[], fs=None, price=[], vol=[], uigf=rng.choice([None, None, pos(rng)]))
            names = ['InitialMW', 'WhatIfInitialMW', 'SCADARampUpRate', 'SCADARampDnRate', 'AGCStatus', 'HMW', 'LMW']
            names = [n for n in names if n in ('InitialMW', 'WhatIfInitialMW') or rng.random() < 0.75]
            rng.shuffle(names)
            t['ic'] = [[n, num(rng, -100, 300)] for n in names]
            if rng.random() < 0.5:
                t['fs'] = {k: rng.randint(0, 30) for k in ('MinLoadingMW', 'CurrentMode', 'CurrentModeTime', 'T1', 'T2', 'T3',
                                                           'T4')}
                if rng.random() < 0.5:
                    t['fs'].update(WhatIfCurrentMode=rng.randint(0, 4), WhatIfCurrentModeTime=rng.randint(0, 30))
            en = 'BDOF' if bdu else {'LOAD': 'LDOF', 'WDR': 'DROF'}.get(tt, 'ENOF')
            svs = [en] + rng.sample([k for k in BT if BT[k] != 'ENERGY'], rng.choice([0, 0, 1, 3, 10]))
            if rng.random() < 0.2 and not bdu:
                svs = [rng.choice(svs)]
            for s in svs:
                for d in (['GEN', 'LOAD'] if bdu else [None]):
                    v = dict(TradeType=s)
                    if d:
                        v['Direction'] = d
                    p = dict(v)
                    if d is None and rng.random() < 0.1:
                        p['Direction'] = 'LOAD' if tt == 'LOAD' else 'GEN'
                    for c in VMAP.values():
                        energy = BT[s] == 'ENERGY'
                        if c.startswith('Ramp'):
                            if energy:
                                v[c] = pos(rng)
                        elif c.startswith('Enable') or c.endswith('point'):
                            if not energy:
                                v[c] = num(rng)
                        else:
                            v[c] = pos(rng)
                    for c in PMAP.values():
                        p[c] = num(rng, -1000, 1000)
                    t['vol'].append(v)
                    t['price'].append(p)
            rng.shuffle(t['vol'])
            rng.shuffle(t['price'])
            traders.append(t)
        cons = []
        for i in range(rng.choice([2, 3, 6])):
            lhs = dict(unit=[], region=[], inter=[])
            for k, n in (('unit', 'T'), ('region', 'R'), ('inter', 'I')):
                for j in range(rng.choice([0, 0, 1, 2, 3])):
                    lhs[k].append(['%s%d' % (n, rng.randint(0, 4)), rng.choice(list(BT)), num(rng, -2, 2)])
            cons.append(dict(id='C%d' % i, type=rng.choice(['LE', 'GE', 'EQ']), price=pos(rng) * 100, lhs=lhs,
                             rhs=num(rng, -100, 1000), what=num(rng, -100, 1000), solved=rng.random() < 0.8))
        for i in range(2):
            cons[i]['solved'] = True
        mn = [dict(id='I%d' % i, mnsp=rng.choice([0, 1]), av=[pos(rng), pos(rng)], fr='R1', to='R2')
              for i in range(rng.choice([2, 3]))]
        return dict(interv=interv, traders=traders, cons=cons, inter=mn, prices={v: pos(rng) for v in VP.values()},
                    viol={v: rng.choice([0.0, pos(rng)]) for v in VIOL.values()},
                    percase=[v for v in VIOL.values() if rng.random() < 0.3],
                    regions=[dict(id='R%d' % i, ENERGY=num(rng), RAISE6SEC=num(rng)) for i in range(2)],
                    swap=rng.random() < 0.5)

    def document(x):
        T = []
        P = []
        for t in x['traders']:
            a = dict(TraderID=t['id'], TraderType=t['tt'])
            a.update(t['fs'] or {})
            T.append(el('Trader', a,
                        el('TraderInitialConditionCollection', {}, *[el('TraderInitialCondition', dict(
                            InitialConditionID=n, Value=v)) for n, v in t['ic']]),
                        el('TradePriceStructureCollection', {}, el('TradePriceStructure', {}, el(
                            'TradeTypePriceStructureCollection', {}, *[el('TradeTypePriceStructure', p) for p in t['price']])))))
            b = dict(TraderID=t['id'])
            if t['uigf'] is not None:
                b['UIGF'] = t['uigf']
            P.append(el('TraderPeriod', b, el('TradeCollection', {}, *[el('Trade', v) for v in t['vol']])))
        I = [el('InterconnectorPeriod', dict(InterconnectorID=i['id'], MNSP=i['mnsp'], FromRegion=i['fr'], ToRegion=i['to']),
                *([el('MNSPOfferCollection', {}, *[el('MNSPOffer', dict(RegionID=r, MaxAvail=v)) for r, v in
                                                   zip((i['fr'], i['to']), i['av'])])] if i['mnsp'] else [])) for i in x['inter']]
        C = []
        for c in x['cons']:
            f = [el('TraderFactor', dict(Factor=v, TradeType=s, TraderID=u)) for u, s, v in c['lhs']['unit']] + \
                [el('RegionFactor', dict(Factor=v, TradeType=s, RegionID=u)) for u, s, v in c['lhs']['region']] + \
                [el('InterconnectorFactor', dict(Factor=v, InterconnectorID=u)) for u, s, v in c['lhs']['inter']]
            C.append(el('GenericConstraint', dict(ConstraintID=c['id'], Type=c['type'], ViolationPrice=c['price']),
                        el('LHSFactorCollection', {}, *f)))
        runs = [0, 1] if x['interv'] else [0]
        if x['swap']:
            runs = runs[::-1]
        S = []
        for r in runs:
            v = {k: (w if r == 0 else w + 7) for k, w in x['viol'].items()}
            S.append(el('PeriodSolution', dict(Intervention=r, **{k: w for k, w in v.items() if k not in x['percase']})))
            S.append(el('CaseSolution', dict(Intervention=r, **v)))
            S += [el('ConstraintSolution', dict(ConstraintID=c['id'], Intervention=r, RHS=c['rhs'] if r == 0 else c['what']))
                  for c in x['cons'] if c['solved']]
            S += [el('RegionSolution', dict(RegionID=g['id'], Intervention=r, EnergyPrice=g['ENERGY'], R6Price=g['RAISE6SEC']))
                  for g in x['regions'] if r == 0]
        S.sort(key=lambda s: s.split(' ')[0])
        return el('NEMSPDCaseFile', {}, el('NemSpdInputs', {}, el('Case', x['prices']), el('TraderCollection', {}, *T),
                                           el('PeriodCollection', {}, el('Period', {}, el('TraderPeriodCollection', {}, *P),
                                                                         el('InterconnectorPeriodCollection', {}, *I))),
                                           el('GenericConstraintCollection', {}, *C)), el('NemSpdOutputs', {}, *S))

    def judge(x):
        import os
        import shutil
        import tempfile
        import xmltodict
        from nempy.historical_inputs import xml_cache, loaders
        d = tempfile.mkdtemp(prefix='nempyc27')
        try:
            m = xml_cache.XMLCacheManager(os.path.join(d, 'cache'))
            m.xml = xmltodict.parse(document(x))
            L = loaders.RawInputsLoader(m, None)
            bad = []
            E = []
            for t in x['traders']:
                c = dict(t['ic'])
                E.append(dict(DUID=t['id'], TRADERTYPE=t['tt'], INITIALMW=c['WhatIfInitialMW' if x['interv'] else 'InitialMW'],
                              RAMPUPRATE=c.get('SCADARampUpRate'), RAMPDOWNRATE=c.get('SCADARampDnRate'),
                              AGCSTATUS=c.get('AGCStatus')))
            bad += compare('initial conditions', rows_of(L.get_unit_initial_conditions()), E, ['DUID'],
                           ['TRADERTYPE', 'INITIALMW', 'RAMPUPRATE', 'RAMPDOWNRATE', 'AGCSTATUS'])
            E = []
            for t in x['traders']:
                if t['fs']:
                    f = t['fs']
                    E.append(dict(DUID=t['id'], MinLoadingMW=f['MinLoadingMW'], T1=f['T1'], T2=f['T2'], T3=f['T3'], T4=f['T4'],
                                  CurrentMode=f.get('WhatIfCurrentMode', f['CurrentMode']),
                                  CurrentModeTime=f.get('WhatIfCurrentModeTime', f['CurrentModeTime'])))
            bad += compare('fast start parameters', rows_of(L.get_unit_fast_start_parameters()), E, ['DUID'],
                           ['MinLoadingMW', 'CurrentMode', 'CurrentModeTime', 'T1', 'T2', 'T3', 'T4'])
            DM = dict(GEN='GENERATOR', LOAD='LOAD')
            for what, got, field, fm in (('volume bids', L.get_unit_volume_bids(), 'vol', VMAP),
                                         ('price bids', L.get_unit_price_bids(), 'price', PMAP)):
                got = rows_of(got)
                exp = []
                for t in x['traders']:
                    for v in t[field]:
                        e = dict(DUID=t['id'], BIDTYPE=BT[v['TradeType']], DIRECTION=DM.get(v.get('Direction')))
                        if field == 'price' and e['DIRECTION'] is None:
                            e['DIRECTION'] = 'LOAD' if t['tt'] == 'LOAD' else 'GENERATOR'
                        e.update({a: v[b] for a, b in fm.items() if b in v})
                        exp.append(e)
                if len(got) != len(exp):
                    bad.append((what, '%d rows, expected %d' % (len(got), len(exp))))
                ix = {}
                for r in got:
                    ix.setdefault((r['DUID'], r['BIDTYPE'], r['DIRECTION']), []).append(r)
                for e in exp:
                    k = (e['DUID'], e['BIDTYPE'], e['DIRECTION'])
                    g = ix.get(k, [])
                    if len(g) != 1:
                        bad.append((what, 'key %s: %d rows, expected 1' % (k, len(g))))
                    else:
                        df = {c: (g[0][c], e[c]) for c in e if not close(g[0][c], e[c])}
                        if df:
                            bad.append((what, 'key %s: (got, expected) %s' % (k, df)))
            bad += compare('forecasts', rows_of(L.get_UIGF_values()), [dict(DUID=t['id'], UIGF=t['uigf']) for t in x['traders']
                                                                     if t['uigf'] is not None], ['DUID'], ['UIGF'])
            bad += compare('constraint right hand sides', rows_of(L.get_constraint_rhs()), [
                dict(set=c['id'], rhs=c['rhs']) for c in x['cons'] if c['solved']], ['set'], ['rhs'])
            bad += compare('constraint types', rows_of(L.get_constraint_type()), [
                dict(set=c['id'], type=c['type'], cost=c['price']) for c in x['cons']], ['set'], ['type', 'cost'])
            for k, f, cols in (('unit', L.get_constraint_unit_lhs, ['set', 'unit', 'service']),
                               ('region', L.get_constraint_region_lhs, ['set', 'region', 'service']),
                               ('inter', L.get_constraint_interconnector_lhs, ['set', 'interconnector'])):
                exp = [dict(zip(cols + ['coefficient'], [c['id'], u] + ([s] if k != 'inter' else []) + [v])) for c in x['cons']
                       for u, s, v in c['lhs'][k]]
                bad += compare('%s terms' % k, rows_of(f()), exp, cols, ['coefficient'])
            exp = [dict(interconnector=i['id'], to_region=r, availability=v) for i in x['inter'] if i['mnsp']
                   for r, v in zip((i['fr'], i['to']), i['av'])]
            bad += compare('link availability', rows_of(L.get_market_interconnector_link_bid_availability()), exp,
                           ['interconnector', 'to_region'], ['availability'])
            g = L.get_constraint_violation_prices()
            for k, v in VP.items():
                if not close(g.get(k), x['prices'][v]):
                    bad.append(('violation prices', '%s: %s, expected %s' % (k, g.get(k), x['prices'][v])))
            g = L.get_violations()
            for k, v in VIOL.items():
                if not close(g.get(k), x['viol'][v]):
                    bad.append(('violations', '%s: %s, expected %s' % (k, g.get(k), x['viol'][v])))
            if m.is_intervention_period() != x['interv']:
                bad.append(('intervention', 'reported %s' % m.is_intervention_period()))
            return bad
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return case, judge


# ------------------------------------------------------------------ C28
def term(rng, stack, flag, ids=None, groups=True):
    """a random applicable term; ids: resolvable (type, id, value) triples"""
    for _ in range(200):
        op = rng.choice([None, None, None] + hs.BINARY * 2 + hs.UNARY + ['PUSH', 'PUSH', 'POP'] + hs.STACK_ONLY)
        kind = rng.choice(['U', 'U', 'C', 'V', 'V']) if op not in hs.STACK_ONLY else 'U'
        if op == 'POP' and kind == 'C' or op == 'STEP' and kind == 'C' or op == 'PUSH' and kind == 'U':
            continue
        m = rng.choice([1.0, -1.0, 0.5, num(rng, -5, 5)])
        default = num(rng, -20, 20)
        value = None
        t = {'@Multiplier': repr(m), '@Default': repr(default), '@SpdType': kind, '@SpdID': 'X%d' % rng.randint(0, 9)}
        if op:
            t['@Operation'] = op
        if kind == 'V':
            if ids and rng.random() < 0.8:
                t['@SpdType'], t['@SpdID'], value = rng.choice(ids)
            elif ids or rng.random() < 0.3:
                t['@SpdType'] = 'A' if not ids else 'Q'
            else:
                value = num(rng, -30, 60)
                t['@SpdType'] = 'A'
                t['@Value'] = rng.choice([repr(value), value])
        used = value
        if kind == 'V' and value is None and op is not None:
            if op in hs.UNARY[1:] + ['POP']:
                continue
            used = default
        if len(stack) == 0 and (op in hs.BINARY + hs.UNARY[1:] + ['DUP', 'POP'] or (op == 'STEP' and kind == 'U')):
            if not (op == 'POP' and kind != 'U'):
                continue
        top = stack[0] if stack else 0.0
        b = top if kind == 'U' else (m if kind == 'C' else used)
        if op == 'DIV' and (b is None or abs(b) < 1e-3):
            continue
        if op == 'SQRT' and (b is None or b < 0.0):
            continue
        if op in ('STEP', 'POP') and b is not None and b != 0.0 and abs(b) < 1e-6:
            continue
        r = hs.rpn_list(op, 'U' if kind == 'U' else ('C' if kind == 'C' else 'V'), stack, m, used, flag)
        if r != hs.REJECT and any(abs(v) > 1e7 for v in r[0]):
            continue
        return t, r
    return None, None


def spec_eval(terms):
    """terms: [(spec kind, op, mult, value)] applied in order"""
    stack, flag = [0.0], False
    for op, kind, m, v in terms:
        r = hs.rpn_list(op, kind, stack, m, v, flag)
        if r == hs.REJECT:
            return hs.REJECT
        stack, flag = r
    return stack


def spec_terms(eq, lookup):
    """the equation as (operation, kind, multiplier, value), groups replaced by their own result"""
    out = []
    i = 0
    done = {}
    while i < len(eq):
        t = eq[i]
        g = t.get('@GroupTerm')
        if g is not None:
            if g not in done:
                done[g] = True
                j = i
                while j < len(eq) and eq[j].get('@GroupTerm') == g:
                    j += 1
                res = spec_eval(spec_terms([{k: v for k, v in q.items() if k != '@GroupTerm'} for q in eq[i:j]], lookup))[0]
                if j < len(eq) and eq[j]['@SpdType'] == 'G':
                    out.append((eq[j].get('@Operation'), 'V', float(eq[j]['@Multiplier']), res))
                    i = j + 1
                    continue
                i = j
                continue
            i += 1
            continue
        m = float(t['@Multiplier'])
        k = t['@SpdType']
        if k == 'G':
            g = eq[i + 1]['@GroupTerm']
            j = i + 1
            while j < len(eq) and eq[j].get('@GroupTerm') == g:
                j += 1
            done[g] = True
            res = spec_eval(spec_terms([{a: v for a, v in q.items() if a != '@GroupTerm'} for q in eq[i + 1:j]], lookup))[0]
            out.append((t.get('@Operation'), 'V', m, res))
            i = j
            continue
        kind = k if k in ('U', 'C') else 'V'
        v = lookup(t)
        if v is None and t.get('@Operation') is not None and kind == 'V':
            v = float(t['@Default'])
        out.append((t.get('@Operation'), kind, m, v))
        i += 1
    return out


def same_stack(got, exp):
    return len(got) == len(exp) and all(abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b)) for a, b in zip(got, exp))


def by_value(t):
    return float(t['@Value']) if '@Value' in t else None


def make_equation(rng, n, ids=None, groups=True):
    eq, stack, flag = [], [0.0], False
    for i in range(n):
        if groups and rng.random() < 0.12 and stack != []:
            sub = make_equation(rng, rng.choice([1, 2, 4]), ids, False)
            if not sub or not spec_eval(spec_terms(sub, by_value)):
                continue
            for q in sub:
                q['@GroupTerm'] = 'g%d' % i
            g = {'@Multiplier': repr(num(rng, -3, 3)), '@Default': '0.0', '@SpdType': 'G', '@SpdID': 'G%d' % i}
            if rng.random() < 0.4:
                g['@Operation'] = rng.choice(['PUSH', 'ADD', 'MAX', 'MIN', 'SUB'])
            eq += [g] + sub if rng.random() < 0.5 else sub + [g]
            stack = None
        else:
            t, r = term(rng, stack if stack is not None else [1.0, 1.0], flag if stack is not None else False, ids)
            if t is None:
                break
            if r == hs.REJECT:
                if rng.random() < 0.8 or stack is None or not groups:
                    continue
                eq.append(t)
                return eq
            eq.append(t)
            if stack is not None:
                stack, flag = r
        if stack is None:
            # only terms safe on any stack after a group: additive ones
            for _ in range(rng.choice([0, 1, 2])):
                eq.append({'@Multiplier': repr(num(rng, -3, 3)), '@Default': '1.5', '@SpdType': 'C', '@SpdID': 'K'})
            if rng.random() < 0.5:
                return eq
            stack = None
            if groups and rng.random() < 0.5:
                continue
            return eq
    return eq


def c28():
    def case(seed):
        rng = random.Random(seed)
        kind = rng.choice(['stack', 'stack', 'stack', 'calc'])
        if kind == 'stack':
            while True:
                eq = make_equation(rng, rng.choice([1, 2, 3, 5, 9, 14]))
                try:
                    spec_eval(spec_terms(eq, by_value))
                    return dict(kind=kind, eq=eq)
                except (ZeroDivisionError, TypeError, OverflowError):
                    pass            # not defined, such as a division by zero after a group
        scada = {}
        for i in range(rng.choice([3, 5])):
            scada['%s|S%d' % (rng.choice('ASIWR'), i)] = [[rng.choice(['good', 'bad']), num(rng, -30, 60)]
                                                          for _ in range(rng.choice([1, 1, 2, 3]))]
        for t in sorted({k[0] for k in scada}):
            scada['%s|Z' % t] = [['good', num(rng)]]
        tt = {'U%d' % i: num(rng, -10, 90) for i in range(2)}
        ent = {'E%d' % i: num(rng, -10, 90) for i in range(2)}
        mn = {'I%d' % i: [pos(rng), pos(rng)] for i in range(2)}
        ids = [(k.split('|')[0], k.split('|')[1], sum(v for _, v in s)) for k, s in scada.items()]
        ids += [('T', k, v) for k, v in tt.items()] + [('E', k, v) for k, v in ent.items()]
        ids += [('M', k, v[0]) for k, v in mn.items()] + [('N', k, v[1]) for k, v in mn.items()]
        simple = lambda t, i: {'@Multiplier': repr(num(rng, -3, 3)), '@Default': '0.5', '@SpdType': t, '@SpdID': i}
        gen = {}
        for i in range(3):
            gen['GE%d' % i] = [simple(*rng.choice(ids)[:2]) for _ in range(rng.choice([1, 2, 3]))]
            if i and rng.random() < 0.6:
                gen['GE%d' % i].append(simple('X', 'GE%d' % rng.randrange(i)))
        rhs = {}
        for i in range(4):
            eq = [simple(*rng.choice(ids)[:2]) for _ in range(rng.choice([1, 2]))]
            for _ in range(rng.choice([0, 1, 2])):
                eq.append(simple('X', rng.choice(list(gen))))
            if rng.random() < 0.5:
                eq.insert(0, dict(simple(*rng.choice(ids)[:2]), **{'@Operation': 'PUSH'}))
                eq.append({'@Multiplier': '2.0', '@Default': '0', '@SpdType': 'U', '@SpdID': 'op', '@Operation':
                           rng.choice(['ADD', 'MAX', 'MIN', 'SUB', 'MUL', 'EXCH'])})
            rng.shuffle(eq) if rng.random() < 0.2 and not any(q['@SpdType'] == 'U' for q in eq) else None
            rhs['C%d' % i] = eq
        for eq in list(gen.values()) + list(rhs.values()):
            if rng.random() < 0.3:
                eq[0]['@Value'] = '17.0'      # a value left in the file is overridden by the resolved one
        ups = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            t, i, v = rng.choice(ids)
            if t == 'R' or t in 'ASIW' and len(scada['%s|%s' % (t, i)]) > 1:
                ups.append([t, i, num(rng), True])
            else:
                ups.append([t, i, num(rng, -50, 90), False])
        return dict(kind=kind, scada=scada, tt=tt, ent=ent, mn=mn, gen=gen, rhs=rhs, ups=ups, ask=list(rng.choice(ids)[:2]))

    def judge(x):
        import copy
        from nempy.historical_inputs import rhs_calculator as rc
        if x['kind'] == 'stack':
            eq = copy.deepcopy(x['eq'])
            exp = spec_eval(spec_terms(eq, lambda t: float(t['@Value']) if '@Value' in t else None))
            bad = []
            for again in range(2):
                try:
                    got = rc._rpn_stack(eq)
                except ValueError:
                    got = hs.REJECT
                if (got == hs.REJECT) != (exp == hs.REJECT) or (exp != hs.REJECT and not same_stack(got, exp)):
                    bad.append(('stack', 'equation %s: %s, expected %s' % (x['eq'], got, exp)))
                    break
                if exp == hs.REJECT:
                    break
            if not bad and exp != hs.REJECT and exp and not same_stack([rc._rpn_calc(copy.deepcopy(x['eq']))], exp[:1]):
                bad.append(('stack', 'result of %s is not the top of the stack' % x['eq']))
            return bad
        pd, np = pdx()
        types = {}
        for k, s in x['scada'].items():
            t, i = k.split('|')
            types.setdefault(t, []).extend((i, q, v) for q, v in s)
        data = []
        one = lambda z: z if len(z) != 1 else z[0]
        for t, s in types.items():
            e = {'@SpdType': t, 'ScadaValuesCollection': {'ScadaValues': one([
                {'@SpdID': i, '@Value': repr(v), '@EMS_ID': 'e'} for i, q, v in s if q == 'good'])}}
            b = [{'@SpdID': i, '@Value': repr(v), '@EMS_ID': 'e'} for i, q, v in s if q == 'bad']
            if b:
                e['BadScadaValuesCollection'] = {'ScadaValues': one(b)}
            data.append(e)
        inputs = {'ConstraintScadaDataCollection': {'ConstraintScadaData': data},
                  'GenericEquationCollection': {'GenericEquation': [
                      {'@EquationID': k, 'RHSTermCollection': {'RHSTerm': one(copy.deepcopy(v))}} for k, v in x['gen'].items()]
                      + [{'@EquationID': 'EMPTY'}]},
                  'GenericConstraintCollection': {'GenericConstraint': [
                      {'@ConstraintID': k, 'RHSTermCollection': {'RHSTerm': one(copy.deepcopy(v))}} for k, v in x['rhs'].items()]
                      + [{'@ConstraintID': 'NOEQ'}]},
                  'PeriodCollection': {'Period': {
                      'EnteredValuePeriodCollection': {'EnteredValuePeriod': [{'@SpdID': k, '@Value': repr(v)} for k, v in
                                                                              x['ent'].items()]},
                      'InterconnectorPeriodCollection': {'InterconnectorPeriod': [
                          {'@MNSP': '1', '@InterconnectorID': k, '@FromRegion': 'A', '@ToRegion': 'B', 'MNSPOfferCollection': {
                              'MNSPOffer': [{'@RegionID': 'A', '@MaxAvail': repr(v[0])}, {'@RegionID': 'B', '@MaxAvail': repr(v[1])}]}}
                          for k, v in x['mn'].items()] + [{'@MNSP': '0', '@InterconnectorID': 'R'}]}}}}

        class M:
            xml = {'NEMSPDCaseFile': {'NemSpdInputs': inputs}}

            def get_unit_initial_conditions(self):
                return pd.DataFrame({'DUID': list(x['tt']), 'INITIALMW': list(x['tt'].values())})

            def get_constraint_rhs(self):
                return pd.DataFrame({'set': ['C0', 'C1'], 'rhs': [1.5, 2.5]})
        c = rc.RHSCalc(M())
        val = {(k.split('|')[0], k.split('|')[1]): sum(v for _, v in s) for k, s in x['scada'].items()}
        val.update({('T', k): v for k, v in x['tt'].items()})
        val.update({('E', k): v for k, v in x['ent'].items()})
        val.update({('M', k): v[0] for k, v in x['mn'].items()})
        val.update({('N', k): v[1] for k, v in x['mn'].items()})

        def lookup(t):
            if t['@SpdType'] == 'X':
                return spec_eval(spec_terms(x['gen'][t['@SpdID']], lookup))[0]
            return val.get((t['@SpdType'], t['@SpdID']))

        def expected(k):
            r = spec_eval(spec_terms(x['rhs'][k], lookup))
            return r if r == hs.REJECT else r[0]
        bad = []

        def sweep(when):
            ok = []
            for k in x['rhs']:
                e = expected(k)
                try:
                    g = c.compute_constraint_rhs(k)
                except ValueError:
                    g = hs.REJECT
                if (g == hs.REJECT) != (e == hs.REJECT) or (e != hs.REJECT and not same_stack([g], [e])):
                    bad.append(('right hand side', '%s %s: %s, expected %s' % (k, when, g, e)))
                if e != hs.REJECT:
                    ok.append(k)
            if ok and not bad:
                df = c.compute_constraint_rhs(ok)
                if list(df['set']) != ok or not same_stack(list(df['rhs']), [expected(k) for k in ok]):
                    bad.append(('right hand side', 'table of %s %s: %s' % (ok, when, df.to_dict('list'))))
        sweep('as loaded')
        for t, i, v, refused in x['ups']:
            try:
                c.update_spd_id_value(i, t, repr(v))
                if refused:
                    bad.append(('update', '%s %s accepted although it has no single value' % (t, i)))
                val[(t, i)] = v
            except ValueError:
                if not refused:
                    bad.append(('update', '%s %s refused' % (t, i)))
            sweep('after setting %s %s to %s' % (t, i, v))
        at, ai = x['ask']
        dep = set()
        while True:
            n = {k for k, eq in x['gen'].items() if any((q['@SpdType'], q['@SpdID']) == (at, ai) or
                                                        (q['@SpdType'] == 'X' and q['@SpdID'] in dep) for q in eq)}
            if n == dep:
                break
            dep = n
        e = sorted(k for k, eq in x['rhs'].items() if any((q['@SpdType'], q['@SpdID']) == (at, ai) or
                                                         (q['@SpdType'] == 'X' and q['@SpdID'] in dep) for q in eq))
        g = sorted(c.get_rhs_constraint_equations_that_depend_value(ai, at))
        if g != e:
            bad.append(('dependents', 'of %s %s: %s, expected %s' % (at, ai, g, e)))
        if c.get_nemde_rhs('C1') != 2.5:
            bad.append(('right hand side', 'NEMDE value of C1'))
        return bad
    return case, judge


# ------------------------------------------------------------------ C29
def c29():
    def case(seed):
        rng = random.Random(seed)
        sets = ['S%d' % i for i in range(rng.choice([1, 2, 4, 6]))]
        ty = {s: rng.choice(['LE', 'GE', 'EQ']) for s in sets}
        typ = [dict(set=s, type=ty[s], cost=pos(rng)) for s in sets if rng.random() < 0.9]
        rhs = [dict(set=s, rhs=num(rng, -100, 900)) for s in sets if rng.random() < 0.9]
        lhs = dict(unit=[], region=[], interconnector=[])
        for k in lhs:
            seen = set()
            for s in sets:
                for _ in range(rng.choice([0, 0, 1, 2, 4])):
                    r = dict(set=s, service=rng.choice(list(BT)), coefficient=num(rng, -2, 2))
                    r[k] = rng.choice(['A', 'B', 'C'])
                    if k == 'interconnector':
                        del r['service']
                    q = tuple(sorted((a, b) for a, b in r.items() if a != 'coefficient'))
                    if q not in seen:
                        seen.add(q)
                        lhs[k].append(r)
        new = [dict(set=s, rhs=num(rng, -100, 900)) for s in sets + ['OTHER'] if rng.random() < 0.4]
        for t in (typ, rhs, new):
            rng.shuffle(t)
        return dict(typ=typ, rhs=rhs, lhs=lhs, new=new, ix=rng.randrange(10 ** 6))

    SM = {k: hs.SERVICE[v] for k, v in BT.items()}
    TM = {'LE': '<=', 'EQ': '=', 'GE': '>='}

    def judge(x):
        pd, np = pdx()
        from nempy.historical_inputs import constraints
        from nempy.help_functions import helper_functions as hf
        rng = random.Random(x['ix'])
        f = lambda rows, cols: frame(rows, cols, index(rng, len(rows)), text=[c for c in cols if c not in (
            'rhs', 'cost', 'coefficient')])

        class L:
            def get_constraint_rhs(self): return f(x['rhs'], ['set', 'rhs'])
            def get_constraint_type(self): return f(x['typ'], ['set', 'type', 'cost'])
            def get_constraint_unit_lhs(self): return f(x['lhs']['unit'], ['set', 'unit', 'service', 'coefficient'])
            def get_constraint_region_lhs(self): return f(x['lhs']['region'], ['set', 'region', 'service', 'coefficient'])
            def get_constraint_interconnector_lhs(self):
                return f(x['lhs']['interconnector'], ['set', 'interconnector', 'coefficient'])
        d = constraints.ConstraintData(L())
        ty = {r['set']: TM[r['type']] for r in x['typ']}
        base = [dict(set=r['set'], rhs=r['rhs'], type=ty[r['set']]) for r in x['rhs'] if r['set'] in ty]
        bad = compare('rhs and type', rows_of(d.get_rhs_and_type()), base, ['set'], ['rhs', 'type'])
        val = {r['set']: r['rhs'] for r in base}
        fc = [dict(set=r['set'], service=SM[r['service']], region=r['region'], type=ty[r['set']], volume=val[r['set']])
              for r in x['lhs']['region'] if r['set'] in val]
        inf = {r['set'] for r in fc}
        k4 = ['set', 'service', 'region']
        got = d.get_fcas_requirements()
        bad += compare('fcas requirements', rows_of(got), fc, k4, ['type', 'volume'])
        rest = d.get_rhs_and_type_excluding_regional_fcas_constraints()
        erest = [r for r in base if r['set'] not in inf]
        bad += compare('sets without regional terms', rows_of(rest), erest, ['set'], ['rhs', 'type'])
        tr = lambda rows: [dict(r, service=SM[r['service']]) for r in rows]
        bad += compare('unit terms', rows_of(d.get_unit_lhs()), tr(x['lhs']['unit']), ['set', 'unit', 'service'], ['coefficient'])
        bad += compare('region terms', rows_of(d.get_region_lhs()), tr(x['lhs']['region']), k4, ['coefficient'])
        bad += compare('interconnector terms', rows_of(d.get_interconnector_lhs()), x['lhs']['interconnector'],
                       ['set', 'interconnector'], ['coefficient'])
        bad += compare('violation costs', rows_of(d.get_violation_costs()), [dict(set=r['set'], cost=r['cost']) for r in x['typ']],
                       ['set'], ['cost'])
        new = {r['set']: r['rhs'] for r in x['new']}
        nf = f(x['new'], ['set', 'rhs'])
        before = (rest.copy(), got.copy(), nf.copy())
        g1 = hf.update_rhs_values(rest, nf)
        g2 = hf.update_rhs_values(got, nf)
        bad += compare('updated right hand sides', rows_of(g1), [dict(r, rhs=new.get(r['set'], r['rhs'])) for r in erest],
                       ['set'], ['rhs', 'type'])
        bad += compare('updated requirements', rows_of(g2), [dict(r, volume=new.get(r['set'], r['volume'])) for r in fc], k4,
                       ['type', 'volume'])
        if list(g1.columns) != list(rest.columns) or list(g2.columns) != list(got.columns):
            bad.append(('updated right hand sides', 'columns changed to %s, %s' % (list(g1.columns), list(g2.columns))))
        for a, b in zip((rest, got, nf), before):
            if not a.equals(b):
                bad.append(('updated right hand sides', 'a table handed in was changed'))
        return bad
    return case, judge


# ------------------------------------------------------------------ C17
from spec.inputs import schemas as SCH  # noqa: E402


OF_STEP = {'loss_functions': ['loss_functions', 'break_points'], 'ramp_details': ['ramp_details', 'scada_ramp_rates']}
DOM = dict(unit='NOTAUNIT', region='NOTAREGION', side='both', service='power', fcas='energy', cont='raise_reg', reg='raise_6s',
           type='<')


def snapshot(m):
    import copy
    pd, np = pdx()

    def snap(o):
        if isinstance(o, dict):
            return {k: snap(v) for k, v in o.items()}
        if isinstance(o, (pd.DataFrame, pd.Series)):
            return o.copy()
        if isinstance(o, list):
            return [snap(v) for v in o]
        return o
    return {k: snap(v) for k, v in vars(m).items()}


def differs(a, b):
    pd, np = pdx()
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return True
        return any(differs(a[k], b[k]) for k in a)
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return type(a) is not type(b) or not a.equals(b)
    if isinstance(a, list):
        return a != b
    return not (a is b or a == b)


def c17():
    schemas = SCH()

    def case(seed):
        from conc import scen
        from conc.run import ALL
        rng = random.Random(seed)
        sc = scen.generate(rng.randrange(10 ** 9), ALL)
        T = sc['tables']
        steps = [s for s in T if s in schemas and s not in ('break_points', 'scada_ramp_rates')]
        step = rng.choice(steps)
        tabs = [t for t in OF_STEP.get(step, [step]) if t in T]
        if step in ('fcas_requirements', 'generic_parameters') and rng.random() < 0.2:
            tabs = ['violation_cost']
        tab = rng.choice(tabs)
        S = schemas[tab]
        cols = ['set', 'cost'] if tab == 'violation_cost' else T[tab]['cols']
        muts = ['none', 'drop', 'extra', 'null', 'kind', 'domain', 'inf', 'neg', 'dup', 'sides', 'swaptype']
        for _ in range(50):
            m = rng.choice(muts)
            col = None
            if m == 'drop':
                c = [c for c in cols if 'o' not in S[c][1]]
            elif m == 'null':
                c = [c for c in cols if S[c][0] not in ('num', 'int', 'int1', 'fun') or 'r' in S[c][1]]
            elif m == 'kind':
                c = [c for c in cols]
            elif m == 'domain':
                c = [c for c in cols if S[c][0] in DOM]
            elif m == 'inf':
                c = [c for c in cols if 'r' in S[c][1]]
            elif m == 'neg':
                c = [c for c in cols if 'p' in S[c][1]]
            elif m == 'sides':
                c = [None] if tab in ('volume_bids', 'price_bids', 'ramp_details') and 'dispatch_type' in cols else []
            elif m == 'swaptype':
                c = [c for c in cols if S[c][0] == 'num']
            elif m == 'none':
                c = [None] if tab != 'violation_cost' or True else []
            else:
                c = [None]
            if not c:
                continue
            col = rng.choice(c)
            break
        return dict(sc=sc, step=step, tab=tab, mut=m, col=col, pick=rng.randrange(10 ** 6))

    def judge(x):
        pd, np = pdx()
        from nempy import markets
        from spec import driver
        from conc import capture
        sc = x['sc']
        rng = random.Random(x['pick'])
        T = capture.frames(sc)
        cfg = dict(sc['cfg'])
        cfg['cost'] = {}
        S = schemas[x['tab']]
        if x['tab'] == 'violation_cost':
            sets = sorted({r['set'] for r in sc['tables'][x['step']]['rows']})
            T['violation_cost'] = pd.DataFrame({'set': sets, 'cost': [100.0 + i for i in range(len(sets))]})
        t = T[x['tab']].copy()
        m, col = x['mut'], x['col']
        pos_ = rng.randrange(len(t)) if len(t) else 0
        bad_input = True

        def put(col, v, dtype=None):
            vals = list(t[col])
            vals[pos_] = v
            t[col] = pd.Series(vals, index=t.index, dtype=dtype)
        if m == 'drop':
            del t[col]
            if col == 'dispatch_type' and not cfg['dispatch_types']:
                bad_input = False
        elif m == 'extra':
            t['surprise'] = 1.0
        elif m == 'null':
            put(col, None if S[col][0] != 'num' else NAN, object if S[col][0] != 'num' else None)
        elif m == 'kind':
            k = S[col][0]
            put(col, 'text' if k in ('num', 'int', 'int1', 'fun') else 5, object)
        elif m == 'swaptype':
            t[col] = pd.Series([int(v) if v == v and abs(v) < 1e9 else 0 for v in t[col]], index=t.index, dtype='int64')
        elif m == 'domain':
            put(col, DOM[S[col][0]], object)
        elif m == 'inf':
            put(col, rng.choice([float('inf'), float('-inf')]))
        elif m == 'neg':
            put(col, -1 if S[col][0] == 'int' else -0.5)
        elif m == 'dup':
            t = pd.concat([t, t.iloc[[pos_]]], ignore_index=rng.random() < 0.5)
        elif m == 'sides':
            b = set(x['sc']['tables']['unit_info']['cols']) and [u for u in set(T['unit_info']['unit'])
                                                                 if list(T['unit_info']['unit']).count(u) == 2]
            sel = t['unit'].isin(b)
            if 'service' in t.columns:
                sel = sel & (t['service'] == 'energy')
            if not sel.any():
                bad_input = False
            else:
                i = rng.choice([k for k in range(len(t)) if list(sel)[k]])
                t = t.iloc[[k for k in range(len(t)) if k != i]]
        else:
            bad_input = False
        T = dict(T)
        T[x['tab']] = t
        # everything the step depends on first
        try:
            mk = driver.make_market(markets, T, cfg)
            if x['step'] == 'unit_info':
                return [('accepted', '%s of %s in unit_info' % (m, col))] if bad_input else []
        except Exception as e:
            if x['step'] == 'unit_info':
                return [] if bad_input else [('refused', 'well-formed unit_info: %s' % e)]
            raise
        need = list(driver.NEEDS.get(x['step'], []))
        for n in list(need):
            need = driver.NEEDS.get(n, []) + need
        for s in dict.fromkeys(need + ['volume_bids']):
            if s != x['step']:
                driver.STEPS[s](mk, T, cfg)
        if x['tab'] == 'violation_cost':
            driver.STEPS[x['step']](mk, T, cfg)
            key = {'fcas_requirements': 'fcas', 'generic_parameters': 'generic'}[x['step']]
            call = lambda: mk.make_constraints_elastic(key, t)
        else:
            call = lambda: driver.STEPS[x['step']](mk, T, cfg)
        before = snapshot(mk)
        try:
            call()
        except Exception as e:
            if not bad_input:
                return [('refused', 'well-formed %s: %s: %s' % (x['tab'], type(e).__name__, e))]
            after = snapshot(mk)
            d = [k for k in before if differs(before[k], after.get(k))]
            if d:
                return [('half applied', '%s of %s in %s raised %s but changed %s' % (m, col, x['tab'], type(e).__name__, d))]
            return []
        if bad_input:
            return [('accepted', '%s of %s in %s' % (m, col, x['tab']))]
        return []
    return case, judge


CHECKS = {'C17': c17, 'C20': c20, 'C21': c21, 'C22': c22, 'C23': c23, 'C24': c24, 'C25': c25, 'C26': c26, 'C27': c27, 'C28': c28,
          'C29': c29}
