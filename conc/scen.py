"""Random valid market inputs (the quantifier of the properties, sampled), JSON serialisable."""
import random
import math
from spec.market_spec import SERVICES, FCAS, CONTINGENCY

REGIONS = ['NSW', 'VIC', 'SA', 'QLD']


def lossf(p):
    a, b, c = p
    return lambda x: a * x * x + b * x + c


class G:
    def __init__(self, rng, feats, **kw):
        self.r = rng
        self.feats = set(feats)
        if 'loss_functions' in self.feats:
            self.feats.add('interconnectors')
        self.kw = kw
        self.T = {}
        self.cfg = {}

    def num(self, lo, hi, nd=3):
        return round(self.r.uniform(lo, hi), nd)

    def pick(self, *xs):
        return self.r.choice(xs)

    def maybe(self, p=0.5):
        return self.r.random() < p

    def put(self, name, rows, cols):
        self.r.shuffle(rows)
        self.T[name] = {'cols': cols, 'rows': rows}

    def make(self):
        r = self.r
        kw = self.kw
        self.cfg['interval'] = kw.get('interval') or self.pick(5, 5, 5, 30, 15, 60)
        nreg = kw.get('nreg') or r.randint(1, 3)
        regs = r.sample(REGIONS, nreg)
        if 'interconnectors' in self.feats and nreg < 2:
            regs = r.sample(REGIONS, 2)
        self.cfg['regions'] = regs
        types = kw['dispatch_types'] if 'dispatch_types' in kw else self.maybe(0.85)
        self.cfg['dispatch_types'] = types
        n = kw.get('nunits') or r.randint(1, 5)
        # unit names including prefixes of each other and names with digits
        names = r.sample(['A', 'B', 'AB', 'A1', 'U1', 'U10', 'ZZ', 'M', 'B2'], n)
        units = []
        ui = []
        with_lf = self.maybe(0.8)
        for u in names:
            kind = self.pick('g', 'g', 'l', 'b', 'b') if types else 'g'
            if kw.get('kinds'):
                kind = self.pick(*kw['kinds']) if types else 'g'
            reg = r.choice(regs)
            for d in {'g': ['generator'], 'l': ['load'], 'b': ['generator', 'load']}[kind]:
                row = {'unit': u, 'region': reg}
                if types:
                    row['dispatch_type'] = d
                if with_lf:
                    row['loss_factor'] = self.pick(1.0, self.num(0.8, 1.1))
                ui.append(row)
                units.append((u, d, kind, reg))
        self.units = units
        self.names = names
        self.kind = {u: k for u, d, k, g in units}
        self.put('unit_info', ui, ['unit', 'region'] + (['dispatch_type'] if types else []) +
                 (['loss_factor'] if with_lf else []))
        self.bids()
        for f in ('unit_limits', 'uigf_limits', 'ramp_details', 'fast_start_profiles', 'demand', 'interconnectors',
                  'loss_functions', 'fcas_requirements', 'fcas_max_availability', 'reg_ramp_rates',
                  'contingency_trapeziums', 'regulation_trapeziums', 'generic_parameters'):
            if f in self.feats:
                getattr(self, 'g_' + f)()
        self.costs()
        if 'tie_break' in self.feats and 'price_bids' in self.T:
            self.cfg['tie_break_cost'] = self.pick(1e-4, 0.5, 7.0)
        return {'tables': self.T, 'cfg': self.cfg}

    def bids(self):
        r = self.r
        types = self.cfg['dispatch_types']
        nb = r.choice([1, 1, 2, 3, 10])
        bands = sorted(r.sample([str(i) for i in range(2, 11)], nb - 1), key=int) if nb < 10 else \
            [str(i) for i in range(2, 11)]
        bands = ['1'] + bands
        self.cfg['bands'] = bands
        with_srv = bool({'fcas_requirements', 'fcas_max_availability', 'reg_ramp_rates', 'contingency_trapeziums',
                         'regulation_trapeziums', 'services'} & self.feats) or self.maybe(0.5)
        vb, pb = [], []
        tie = 'tie_break' in self.feats
        for u, d, k, g in self.units:
            svs = ['energy'] if (k == 'b' or self.maybe(0.93)) else []
            if with_srv:
                svs += [s for s in FCAS if self.maybe(self.kw.get('pfcas', 0.4))]
            for s in svs:
                row = {'unit': u}
                prow = {'unit': u}
                if types:
                    row['dispatch_type'] = prow['dispatch_type'] = d
                if with_srv:
                    row['service'] = prow['service'] = s
                for b in bands:
                    x = r.random()
                    row[b] = 0.0 if x < 0.12 else (self.pick(0.00009, 0.0001, 0.00011) if x < 0.2 else self.num(1, 200))
                price = self.num(-200, 300)
                for b in bands:
                    prow[b] = round(price, 2)
                    price += self.num(0, 100)
                if tie:
                    sign = -1 if d == 'load' and self.maybe(0.6) else 1     # the cost of a load is minus its price
                    lv = sorted(sign * r.choice([10.0, 20.0, 30.0, 55.5]) for _ in bands)
                    if with_srv or True:
                        for b, p in zip(bands, lv):
                            prow[b] = p
                vb.append(row)
                pb.append(prow)
        if not vb:
            u, d, k, g = self.units[0]
            row = {'unit': u}
            if types:
                row['dispatch_type'] = d
            if with_srv:
                row['service'] = 'energy'
            vb.append(dict(row, **{b: 40.0 for b in bands}))
            pb.append(dict(row, **{b: 20.0 for b in bands}))
        if not any(row[b] >= 0.0001 for row in vb for b in bands):
            vb[0]['1'] = 50.0
        cols = ['unit'] + (['dispatch_type'] if types else []) + (['service'] if with_srv else []) + bands
        self.put('volume_bids', vb, cols)
        if 'price_bids' in self.feats:
            self.put('price_bids', pb, cols)
        self.offers = {(x['unit'], x.get('dispatch_type', 'generator'), x.get('service', 'energy')) for x in vb}

    def sides(self, p=0.8):
        out = [(u, d, k) for u, d, k, g in self.units if self.maybe(p)]
        return out or [self.units[0][:3]]

    def side_row(self, u, d, **kw):
        row = {'unit': u}
        if self.cfg['dispatch_types']:
            row['dispatch_type'] = d
        row.update(kw)
        return row

    def side_cols(self, *c):
        return ['unit'] + (['dispatch_type'] if self.cfg['dispatch_types'] else []) + list(c)

    def g_unit_limits(self):
        self.put('unit_limits', [self.side_row(u, d, capacity=self.num(0, 300)) for u, d, k in self.sides()],
                 self.side_cols('capacity'))

    def g_uigf_limits(self):
        us = [u for u in self.names if self.maybe(0.7)] or self.names[:1]
        self.put('uigf_limits', [{'unit': u, 'capacity': self.num(0, 300)} for u in us], ['unit', 'capacity'])

    def g_ramp_details(self):
        rows = []
        h = self.cfg['interval'] / 60
        nonb = [u for u in self.names if self.kind[u] != 'b']
        for u in self.names:
            k = self.kind[u]
            if self.maybe(0.15) and not (nonb and u == nonb[0]):
                continue
            up, dn = self.num(0, 600), self.num(0, 600)
            init = self.num(0, 300)
            if k == 'b':
                x = self.r.random()
                init = self.num(-150, 150) if x < 0.5 else (0.0 if x < 0.6 else self.num(-20, 20))
            for uu, d, kk, g in self.units:
                if uu == u:
                    a, b = (up, dn) if k != 'b' else (self.pick(0.0, self.num(0, 600), self.num(0, 4000)),
                                                      self.pick(0.0, self.num(0, 600), self.num(0, 4000)))
                    rows.append(self.side_row(u, d, initial_output=init, ramp_up_rate=a, ramp_down_rate=b))
        if not rows:
            return
        self.put('ramp_details', rows, self.side_cols('initial_output', 'ramp_up_rate', 'ramp_down_rate'))
        if 'scada_ramp_rates' in self.feats and self.maybe(0.8):
            sc = []
            cols = self.pick(['scada_ramp_up_rate', 'scada_ramp_down_rate'], ['scada_ramp_up_rate', 'scada_ramp_down_rate'],
                             ['scada_ramp_up_rate'], ['scada_ramp_down_rate'])
            for u in self.names:
                if self.maybe(0.7):
                    row = {'unit': u}
                    for c in cols:
                        row[c] = float('nan') if self.maybe(0.2) else self.num(0, 600)
                    sc.append(row)
            if sc:
                self.put('scada_ramp_rates', sc, ['unit'] + cols)
        self.ramp_prof()

    def ramp_prof(self):
        if 'ramp_profiles' in self.feats and 'ramp_profiles' not in self.T:
            self.cfg['run_type'] = rt = self.pick('fast_start_first_run', 'fast_start_second_run', 'fast_start_second_run')
            rows = []
            nonb = [u for u in self.names if self.kind[u] != 'b']
            keep = nonb[0] if nonb else None
            for u in nonb:
                if u == keep and self.maybe(0.3) or self.maybe(0.2):
                    continue
                if rt == 'fast_start_first_run':
                    rows.append({'unit': u, 'current_mode': self.pick(3, 4) if u == keep else self.r.randint(0, 5)})
                else:
                    m = self.pick(3, 4) if u == keep else self.r.randint(0, 5)
                    t = float('nan') if m in (0, 1, 2) or self.maybe(0.3) else self.pick(0.0, self.num(0, 5))
                    rows.append({'unit': u, 'end_mode': m, 'min_loading': self.num(0, 60), 'time_since_end_of_mode_two': t})
            if not rows:
                self.cfg['run_type'] = 'no_fast_start_units'
                return
            self.put('ramp_profiles', rows, ['unit', 'current_mode'] if rt == 'fast_start_first_run' else
                     ['unit', 'end_mode', 'min_loading', 'time_since_end_of_mode_two'])

    def g_fast_start_profiles(self):
        us = [u for u in self.names if self.kind[u] != 'b']
        rows = []
        for u in us:
            if self.maybe(0.15):
                continue
            l2, l4 = self.num(1, 20), self.num(1, 20)
            m = self.r.randint(0, 5)
            t = self.num(0, {2: l2, 4: l4}.get(m, 20))
            rows.append({'unit': u, 'end_mode': m, 'time_in_end_mode': t, 'mode_two_length': l2, 'mode_four_length': l4,
                         'min_loading': self.num(0, 80)})
        if rows:
            self.put('fast_start_profiles', rows, ['unit', 'end_mode', 'time_in_end_mode', 'mode_two_length',
                                                   'mode_four_length', 'min_loading'])

    def g_demand(self):
        rs = [g for g in self.cfg['regions'] if self.maybe(0.85)] or self.cfg['regions'][:1]
        if self.kw.get('all_demand'):
            rs = self.cfg['regions']
        self.put('demand', [{'region': g, 'demand': self.num(-20, 400)} for g in rs], ['region', 'demand'])

    def g_interconnectors(self):
        r = self.r
        regs = self.cfg['regions']
        rows = []
        opt = [c for c in ('from_region_loss_factor', 'to_region_loss_factor') if self.maybe(0.6)]
        gcf = self.maybe(0.6)
        for i in range(r.randint(1, 3)):
            a, b = r.sample(regs, 2)
            name = 'I%d' % i
            links = [(name, a, b, 1)] if self.maybe(0.6) else [(name + 'F', a, b, 1), (name + 'R', b, a, -1)]
            if len(links) == 2 and self.maybe(0.2):
                links[0] = (name + 'F', a, b, -1)
            for l, x, y, f in links:
                hi = self.num(0, 200)
                lo = self.num(-200, 0) if len(links) == 1 else 0.0
                if self.maybe(0.1):
                    lo = self.num(-50, hi)
                row = {'interconnector': name, 'link': l, 'to_region': y, 'from_region': x, 'max': hi, 'min': lo}
                for c in opt:
                    row[c] = self.num(0.9, 1.1)
                if gcf:
                    row['generic_constraint_factor'] = f
                rows.append(row)
        cols = ['interconnector', 'link', 'to_region', 'from_region', 'max', 'min'] + opt + \
            (['generic_constraint_factor'] if gcf else [])
        if all(x['interconnector'] == x['link'] for x in rows) and self.maybe(0.5):
            cols.remove('link')
            for x in rows:
                del x['link']
        self.put('interconnectors', rows, cols)

    def g_loss_functions(self):
        links = [(x['interconnector'], x.get('link', x['interconnector']), x['min'], x['max']) for x in
                 self.T['interconnectors']['rows']]
        lf, bp = [], []
        nolink = all(a == b for a, b, lo, hi in links) and self.maybe(0.5)
        for a, b, lo, hi in links:
            row = {'interconnector': a, 'link': b, 'from_region_loss_share': self.pick(0.5, self.num(0, 1), 0.0, 1.0),
                   'loss_function': [self.num(0, 0.001, 6), self.num(-0.05, 0.05), 0.0]}
            if nolink:
                del row['link']
            lf.append(row)
            k = self.r.randint(2, 6)
            pts = sorted({round(lo + (hi - lo) * j / (k - 1), 3) for j in range(k)} | ({0.0} if lo < 0 < hi else set()))
            if len(pts) < 2:
                pts = [pts[0], pts[0] + 1.0]
            for j, p in enumerate(pts):
                row = {'interconnector': a, 'link': b, 'loss_segment': j + 1 - (2 if self.kw.get('negseg') else 0),
                       'break_point': p}
                if nolink:
                    del row['link']
                bp.append(row)
        c = ['interconnector'] + ([] if nolink else ['link'])
        self.put('loss_functions', lf, c + ['from_region_loss_share', 'loss_function'])
        self.put('break_points', bp, c + ['loss_segment', 'break_point'])

    def g_fcas_requirements(self):
        r = self.r
        rows = []
        wt = self.maybe(0.7)
        for i in range(r.randint(1, 3)):
            vol, ty = self.num(0, 80), self.pick('=', '>=', '>=', '<=')
            svs = r.sample(FCAS, r.randint(1, 2))
            for g in r.sample(self.cfg['regions'], r.randint(1, len(self.cfg['regions']))):
                for s in svs:
                    if self.maybe(0.8) or not [x for x in rows if x['set'] == 'S%d' % i]:
                        row = {'set': 'S%d' % i, 'region': g, 'service': s, 'volume': vol}
                        if wt:
                            row['type'] = ty
                        rows.append(row)
        self.put('fcas_requirements', rows, ['set', 'region', 'service', 'volume'] + (['type'] if wt else []))

    def fcas_sides(self, services):
        out = [(u, d, s) for (u, d, s) in sorted(self.offers) if s in services and self.maybe(0.85)]
        # also rows without a bid
        for u, d, k, g in self.units:
            for s in services:
                if (u, d, s) not in self.offers and self.maybe(0.05):
                    out.append((u, d, s))
        return out

    def g_fcas_max_availability(self):
        rows = [self.side_row(u, d, service=s, max_availability=self.num(0, 90)) for u, d, s in self.fcas_sides(FCAS)]
        if rows:
            self.put('fcas_max_availability', rows, self.side_cols('service', 'max_availability'))

    def g_reg_ramp_rates(self):
        if 'reg' not in ' '.join(s for u, d, s in self.offers):
            return
        rows = [{'unit': u, 'initial_output': self.num(-100 if self.kind[u] == 'b' else 0, 200),
                 'scada_ramp_up_rate': self.num(0, 600), 'scada_ramp_down_rate': self.num(0, 600)}
                for u in self.names if self.maybe(0.85)]
        if rows:
            self.put('reg_ramp_rates', rows, ['unit', 'initial_output', 'scada_ramp_up_rate', 'scada_ramp_down_rate'])
            self.ramp_prof()

    def traps(self, services, gen_only_bdu):
        rows = []
        for u, d, s in self.fcas_sides(services):
            if gen_only_bdu and self.kind[u] == 'b' and d == 'load':
                continue
            a = sorted(self.num(-100 if self.kind[u] == 'b' else 0, 250) for _ in range(4))
            if self.maybe(0.2):
                a[1] = a[0]
            if self.maybe(0.2):
                a[3] = a[2]
            rows.append(self.side_row(u, d, service=s, max_availability=self.num(1, 90), enablement_min=a[0],
                                      low_break_point=a[1], high_break_point=a[2], enablement_max=a[3]))
        return rows

    def g_contingency_trapeziums(self):
        rows = self.traps(CONTINGENCY, True)
        if rows:
            self.put('contingency_trapeziums', rows, self.side_cols(
                'service', 'max_availability', 'enablement_min', 'low_break_point', 'high_break_point', 'enablement_max'))

    def g_regulation_trapeziums(self):
        rows = self.traps(FCAS[:2], False)
        if rows:
            self.put('regulation_trapeziums', rows, self.side_cols(
                'service', 'max_availability', 'enablement_min', 'low_break_point', 'high_break_point', 'enablement_max'))

    def g_generic_parameters(self):
        r = self.r
        sets = ['C%d' % i for i in range(r.randint(1, 4))]
        fs = sorted({x['set'] for x in self.T.get('fcas_requirements', {'rows': []})['rows']})
        own = sets
        self.put('generic_parameters', [{'set': s, 'type': self.pick('<=', '>=', '='), 'rhs': self.num(-50, 200)}
                                        for s in own], ['set', 'type', 'rhs'])
        allsets = own + fs + ['UNUSED']
        svs = sorted({s for u, d, s in self.offers})
        rows = [{'set': s, 'unit': u, 'service': v, 'coefficient': self.num(-2, 2)} for s in allsets for u in self.names
                for v in svs if self.maybe(0.3)]
        if rows and self.maybe(0.9):
            self.put('unit_coefficients', rows, ['set', 'unit', 'service', 'coefficient'])
        rows = [{'set': s, 'region': g, 'service': v, 'coefficient': self.num(-2, 2)} for s in allsets
                for g in self.cfg['regions'] for v in svs if self.maybe(0.3)]
        if rows and self.maybe(0.7):
            self.put('region_coefficients', rows, ['set', 'region', 'service', 'coefficient'])
        if 'interconnectors' in self.T:
            names = sorted({x['interconnector'] for x in self.T['interconnectors']['rows']})
            rows = [{'set': s, 'interconnector': i, 'coefficient': self.num(-2, 2)} for s in allsets for i in names
                    if self.maybe(0.5)]
            if rows and self.maybe(0.8):
                self.put('interconnector_coefficients', rows, ['set', 'interconnector', 'coefficient'])

    def costs(self):
        c = {}
        mode = self.kw.get('costs', 'random')
        for f in ('unit_bid_capacity', 'uigf_capacity', 'ramp', 'fast_start', 'demand', 'fcas', 'fcas_max_availability',
                  'joint_ramping', 'joint_capacity', 'energy_and_regulation_capacity', 'generic'):
            if mode == 'all' or (mode == 'random' and self.maybe(0.4)):
                c[f] = self.pick(self.num(1000, 9e5), float(self.r.randint(1000, 90000)), self.r.randint(1000, 90000))
        for f, t in (('fcas', 'fcas_requirements'), ('generic', 'generic_parameters')):
            if f in c and t in self.T and self.maybe(self.kw.get('ptable', 0.4)):
                sets = sorted({x['set'] for x in self.T[t]['rows']})
                if mode != 'all':
                    sets = [s for s in sets if self.maybe(0.8)] + ['OTHER']
                c[f] = {'rows': [{'set': s, 'cost': self.num(1000, 9e5)} for s in sets], 'cols': ['set', 'cost']}
        self.cfg['cost'] = c


def generate(seed, feats, **kw):
    return G(random.Random(seed), feats, **kw).make()
