bug('summary-link-mix', 'C14', 'src/nempy/markets.py',
    [("flows_and_losses = pd.merge(flows_and_losses, loss_factors, on=['interconnector', 'link'])", "flows_and_losses = pd.merge(flows_and_losses, loss_factors, on=['interconnector'])")],
    MK + '''
m = market(regions=('A', 'B'), units=[('a', 'A', 'generator', 200.0, 20.0), ('b', 'B', 'generator', 200.0, 90.0)])
m.set_demand_constraints(df('region', 'demand', rows=[('A', 50.0), ('B', 90.0)]))
m.set_interconnectors(df('interconnector', 'link', 'to_region', 'from_region', 'max', 'min', 'from_region_loss_factor', 'to_region_loss_factor', 'generic_constraint_factor',
    rows=[('T', 'T1', 'B', 'A', 60.0, 0.0, 1.0, 0.9, 1), ('T', 'T2', 'A', 'B', 60.0, 0.0, 0.8, 1.0, -1)]))
m.dispatch()
s = m.get_region_dispatch_summary().set_index('region')
check(abs(s.loc['B', 'inflow'] - 60.0) < 1e-6, s)
check(abs(s.loc['B', 'transmission_losses'] - 6.0) < 1e-6 and abs(s.loc['A', 'transmission_losses']) < 1e-6, s)
''',
    "an interconnector with two links that have different loss factors",
    "the transmission losses of one link are computed with the loss factors of the other as well")

bug('loss-weights-by-interconnector', 'C09', 'src/nempy/spot_market_backend/interconnectors.py',
    [("    lhs = pd.merge(lhs, loss_functions.loc[:, ['interconnector', 'link', 'loss_function']], 'inner',\n                   on=['interconnector', 'link'])",
      "    lhs = pd.merge(lhs, loss_functions.loc[:, ['interconnector', 'loss_function']].drop_duplicates('interconnector'),\n                   'inner', on=['interconnector'])")],
    MK + '''
from nempy.spot_market_backend import interconnectors as ic
w = df('interconnector', 'link', 'variable_id', 'break_point', rows=[('T', 'T1', 0, -100.0), ('T', 'T1', 1, 100.0), ('T', 'T2', 2, -50.0), ('T', 'T2', 3, 50.0)])
l = df('interconnector', 'link', 'variable_id', rows=[('T', 'T1', 4), ('T', 'T2', 5)])
f = pd.DataFrame({'interconnector': ['T', 'T'], 'link': ['T1', 'T2'], 'loss_function': [lambda x: 0.1 * x, lambda x: 0.3 * x]})
lhs, rhs = ic.link_inter_loss_to_interpolation_weights(w, l, f, 0)
c = lhs.set_index('variable_id')['coefficient']
check(len(c) == 4 and abs(c[1] - 10.0) < 1e-9 and abs(c[3] - 15.0) < 1e-9, lhs)
''',
    "an interconnector with two links that have different loss functions",
    "the losses of the second link are computed with the loss function of the first")

bug('bdu-capacity-sign', 'C05', 'src/nempy/spot_market_backend/unit_constraints.py',
    [("        (variable_map['dispatch_type'] == 'load') & (\n            variable_map['unit'].isin(bidirectional_units)),\n", "        variable_map['unit'].isin(bidirectional_units),\n")],
    MK + '''
m = market(units=[('a', 'A', 'generator', 100.0, 20.0), ('b', 'A', 'generator', 100.0, 5.0), ('b', 'A', 'load', 100.0, 1.0)])
m.set_unit_bid_capacity_constraints(df('unit', 'dispatch_type', 'capacity', rows=[('b', 'generator', 30.0), ('b', 'load', 40.0)]))
m.set_demand_constraints(df('region', 'demand', rows=[('A', 80.0)]))
m.dispatch()
d = m.get_unit_dispatch().set_index(['unit', 'dispatch_type'])['dispatch']
check(abs(d['b', 'generator'] - 30.0) < 1e-6 and abs(d['a', 'generator'] - 50.0) < 1e-6, d)
''',
    "a bidirectional unit with a generation side capacity below its offered volume",
    "the capacity of the generation side never binds")

bug('bdu-fcas-load-sign', 'C08', 'src/nempy/spot_market_backend/variable_ids.py',
    [("        (unit_level_constraint_map['service'] == 'energy') &\n", "")],
    MK + '''
info = df('unit', 'region', 'dispatch_type', 'loss_factor', rows=[('b', 'A', 'generator', 1.0), ('b', 'A', 'load', 1.0), ('a', 'A', 'generator', 1.0)])
m = markets.SpotMarket(market_regions=['A'], unit_info=info)
m.set_unit_volume_bids(df('unit', 'service', 'dispatch_type', '1', rows=[('a', 'raise_6s', 'generator', 50.0), ('b', 'raise_6s', 'load', 50.0), ('b', 'energy', 'load', 10.0), ('b', 'energy', 'generator', 10.0)]))
m.set_unit_price_bids(df('unit', 'service', 'dispatch_type', '1', rows=[('a', 'raise_6s', 'generator', 9.0), ('b', 'raise_6s', 'load', 1.0), ('b', 'energy', 'load', 0.0), ('b', 'energy', 'generator', 1.0)]))
m.set_fcas_max_availability(df('unit', 'service', 'dispatch_type', 'max_availability', rows=[('b', 'raise_6s', 'load', 20.0), ('a', 'raise_6s', 'generator', 50.0)]))
m.set_fcas_requirements_constraints(df('set', 'service', 'region', 'type', 'volume', rows=[('S', 'raise_6s', 'A', '>=', 45.0)]))
m.dispatch()
d = m.get_unit_dispatch()
d = d[d['service'] == 'raise_6s'].set_index('unit')['dispatch']
check(abs(d['b'] - 20.0) < 1e-6 and abs(d['a'] - 25.0) < 1e-6, d)
''',
    "an FCAS bid on the load side of a bidirectional unit whose maximum availability is below the offered volume",
    "the FCAS limits of that side enter with the wrong sign and never bind")

bug('fast-start-id-gap', 'C13', 'src/nempy/spot_market_backend/unit_constraints.py',
    [("        next_constraint_id = mode_three_min_type_rhs['constraint_id'].max() + 1\n", "        next_constraint_id = mode_three_min_type_rhs['constraint_id'].min() + 1\n")],
    MK + '''
m = market(units=[('a', 'A', 'generator', 100.0, 20.0), ('x', 'A', 'generator', 100.0, 50.0), ('y', 'A', 'generator', 100.0, 51.0), ('z', 'A', 'generator', 100.0, 52.0)])
m.set_fast_start_constraints(df('unit', 'end_mode', 'time_in_end_mode', 'mode_two_length', 'mode_four_length', 'min_loading',
    rows=[('x', 3, 1.0, 4.0, 10.0, 30.0), ('y', 3, 1.0, 4.0, 10.0, 20.0), ('z', 4, 5.0, 4.0, 10.0, 16.0)]))
m.set_demand_constraints(df('region', 'demand', rows=[('A', 90.0)]))
m.dispatch()
d = m.get_unit_dispatch().set_index('unit')['dispatch']
check(abs(d['x'] - 30.0) < 1e-6 and abs(d['y'] - 20.0) < 1e-6 and abs(d['z'] - 8.0) < 1e-6 and abs(d['a'] - 32.0) < 1e-6, d)
''',
    "two fast start units ending in mode three together with one ending in mode four",
    "the mode four constraint takes the id of the second mode three constraint, so the two are merged into one")

bug('fast-start-mode-zero', 'C07', 'src/nempy/spot_market_backend/unit_constraints.py',
    [("fast_start_profile[(fast_start_profile['end_mode'].isin([0, 1]))]", "fast_start_profile[(fast_start_profile['end_mode'] == 1) |\n                           ((fast_start_profile['end_mode'] == 0) & (fast_start_profile['min_loading'] > 0.0))]")],
    MK + '''
m = market(units=[('a', 'A', 'generator', 100.0, 20.0), ('x', 'A', 'generator', 100.0, 5.0)])
m.set_fast_start_constraints(df('unit', 'end_mode', 'time_in_end_mode', 'mode_two_length', 'mode_four_length', 'min_loading', rows=[('x', 0, 0.0, 4.0, 10.0, 0.0)]))
m.set_demand_constraints(df('region', 'demand', rows=[('A', 60.0)]))
m.dispatch()
d = m.get_unit_dispatch().set_index('unit')['dispatch']
check(abs(d['x']) < 1e-6 and abs(d['a'] - 60.0) < 1e-6, d)
''',
    "a fast start unit in mode zero with a minimum loading of zero",
    "the unit is not held at zero and can be dispatched while off")

bug('availability-lower-bdu', 'C16', 'src/nempy/markets.py',
    [("'joint_ramping_raise_reg_bdu', 'joint_ramping_lower_reg_bdu',\n", "'joint_ramping_raise_reg_bdu',\n")],
    MK + '''
info = df('unit', 'region', 'dispatch_type', 'loss_factor', rows=[('b', 'A', 'generator', 1.0), ('b', 'A', 'load', 1.0)])
m = markets.SpotMarket(market_regions=['A'], unit_info=info)
rows = [('b', 'energy', 'generator', 100.0, 1.0), ('b', 'energy', 'load', 100.0, 0.0), ('b', 'lower_reg', 'generator', 50.0, 1.0)]
m.set_unit_volume_bids(df('unit', 'service', 'dispatch_type', '1', rows=[r[:4] for r in rows]))
m.set_unit_price_bids(df('unit', 'service', 'dispatch_type', '1', rows=[r[:3] + r[4:] for r in rows]))
m.set_demand_constraints(df('region', 'demand', rows=[('A', 40.0)]))
m.set_fcas_requirements_constraints(df('set', 'service', 'region', 'volume', rows=[('S', 'lower_reg', 'A', 3.0)]))
m.set_fcas_max_availability(df('unit', 'service', 'dispatch_type', 'max_availability', rows=[('b', 'lower_reg', 'generator', 45.0)]))
m.set_joint_ramping_constraints_reg(df('unit', 'initial_output', 'ramp_up_rate', 'ramp_down_rate', rows=[('b', 40.0, 120.0, 120.0)]).rename(columns={'ramp_up_rate': 'scada_ramp_up_rate', 'ramp_down_rate': 'scada_ramp_down_rate'}))
m.dispatch()
a = m.get_fcas_availability().set_index(['unit', 'service'])['availability']
check(abs(a['b', 'lower_reg'] - 10.0) < 1e-6, a)
''',
    "a bidirectional unit offering lower regulation whose ramp limit is tighter than its maximum availability",
    "the availability reported ignores the joint ramping limit and exceeds what the unit can provide")

bug('ocd-first', 'C26', 'src/nempy/historical_inputs/xml_cache.py',
    [("        if os.path.exists(path_name):\n            return name\n        elif os.path.exists(path_name_OCD):\n            return name_OCD\n",
      "        if os.path.exists(path_name_OCD):\n            return name_OCD\n        elif os.path.exists(path_name):\n            return name\n")],
    MK + '''
import tempfile
from nempy.historical_inputs import xml_cache
with tempfile.TemporaryDirectory() as d:
    c = xml_cache.XMLCacheManager(d)
    c.interval = '2021/03/01 12:05:00'
    n = c.get_file_name()
    open(os.path.join(d, n), 'w').close()
    check(c.get_file_name() == n)
    open(os.path.join(d, n.replace('.loaded', '_OCD.loaded')), 'w').close()
    check(c.get_file_name() == n, c.get_file_name())
    os.remove(os.path.join(d, n))
    check(c.get_file_name() == n.replace('.loaded', '_OCD.loaded'), c.get_file_name())
''',
    "a cache that holds both the ordinary and the over-constrained re-run file of an interval",
    "the over-constrained re-run file is read in place of the ordinary one")

bug('new-year-day', 'C26', 'src/nempy/historical_inputs/xml_cache.py',
    [("        year = date_time_for_date.year\n", "        year = date_time.year\n")],
    MK + '''
import tempfile
from nempy.historical_inputs import xml_cache
with tempfile.TemporaryDirectory() as d:
    c = xml_cache.XMLCacheManager(d)
    for i, n in [('2021/01/01 04:00:00', '20201231288'), ('2021/01/01 04:05:00', '20210101001'), ('2021/01/01 00:05:00', '20201231241')]:
        c.interval = i
        check(n in c.get_file_name(), i, c.get_file_name())
''',
    "an interval in the first four hours of the first of January",
    "the interval is mapped to the last day of December of the year that is just starting")

bug('uigf-zero', 'C27', 'src/nempy/historical_inputs/xml_cache.py',
    [("            if '@UIGF' in trader:\n", "            if float(trader.get('@UIGF', 0.0)) > 0.0:\n")],
    MK + '''
import tempfile
from nempy.historical_inputs import xml_cache
with tempfile.TemporaryDirectory() as d:
    c = xml_cache.XMLCacheManager(d)
    c.xml = {'NEMSPDCaseFile': {'NemSpdInputs': {'PeriodCollection': {'Period': {'TraderPeriodCollection': {'TraderPeriod': [
        {'@TraderID': 'S1', '@UIGF': '10.5'}, {'@TraderID': 'S2', '@UIGF': '0'}, {'@TraderID': 'G'}]}}}}}}
    u = c.get_UIGF_values()
    check(list(u['DUID']) == ['S1', 'S2'] and list(u['UIGF']) == [10.5, 0.0], u)
''',
    "a semi scheduled unit whose forecast is zero, as a solar farm at night",
    "the unit has no forecast record, so it is not limited to zero output")

bug('factor-single', 'C27', 'src/nempy/historical_inputs/xml_cache.py',
    [("                else:\n                    term = lhs['InterconnectorFactor']\n                    lhs_values['set'].append(con['@ConstraintID'])\n",
      "                elif 'TraderFactor' not in lhs:\n                    term = lhs['InterconnectorFactor']\n                    lhs_values['set'].append(con['@ConstraintID'])\n")],
    MK + '''
import tempfile
from nempy.historical_inputs import xml_cache
with tempfile.TemporaryDirectory() as d:
    c = xml_cache.XMLCacheManager(d)
    c.xml = {'NEMSPDCaseFile': {'NemSpdInputs': {'GenericConstraintCollection': {'GenericConstraint': [
        {'@ConstraintID': 'P', 'LHSFactorCollection': {'InterconnectorFactor': {'@InterconnectorID': 'I', '@Factor': '1'}}},
        {'@ConstraintID': 'Q', 'LHSFactorCollection': {'TraderFactor': {'@TraderID': 'U', '@TradeType': 'ENOF', '@Factor': '1'}, 'InterconnectorFactor': {'@InterconnectorID': 'J', '@Factor': '0.5'}}},
        {'@ConstraintID': 'R', 'LHSFactorCollection': None}]}}}}
    t = c.get_constraint_interconnector_lhs()
    check(list(t['set']) == ['P', 'Q'] and list(t['coefficient']) == [1.0, 0.5], t)
''',
    "a constraint with exactly one interconnector factor next to unit factors",
    "the interconnector term is lost")

bug('region-energy-sets', 'C29', 'src/nempy/historical_inputs/constraints.py',
    [("list(self.fcas_requirements['set'])", "list(\n            self.fcas_requirements[self.fcas_requirements['service'] != 'energy']['set'])")],
    MK + '''
from nempy.historical_inputs import constraints
class L:
    def get_constraint_rhs(self): return df('set', 'rhs', rows=[('F', 100.0), ('E', 50.0), ('U', 30.0)])
    def get_constraint_type(self): return df('set', 'type', 'cost', rows=[('F', 'GE', 1.0), ('E', 'LE', 2.0), ('U', 'LE', 3.0)])
    def get_constraint_unit_lhs(self): return df('set', 'unit', 'service', 'coefficient', rows=[('U', 'u', 'ENOF', 1.0)])
    def get_constraint_region_lhs(self): return df('set', 'region', 'service', 'coefficient', rows=[('F', 'A', 'R6SE', 1.0), ('E', 'A', 'ENOF', 1.0)])
    def get_constraint_interconnector_lhs(self): return df('set', 'interconnector', 'coefficient', rows=[('U', 'I', 1.0)])
c = constraints.ConstraintData(L())
a, b = set(c.get_rhs_and_type_excluding_regional_fcas_constraints()['set']), set(c.get_fcas_requirements()['set'])
check(a | b == {'F', 'E', 'U'} and not a & b, a, b)
''',
    "a constraint set with a regional energy term",
    "the set is handed over both as a regional requirement and as a generic constraint")

bug('no-scada-down', 'C20', 'src/nempy/historical_inputs/units.py',
    [("BIDPEROFFER_D['DUID'].isin(units_with_no_scada_ramp_down_rates)", "BIDPEROFFER_D['DUID'].isin(units_with_no_scada_ramp_up_rates)")],
    MK + '''
from nempy.historical_inputs import units
b = df('DUID', 'BIDTYPE', 'MAXAVAIL', 'ENABLEMENTMIN', 'LOWBREAKPOINT', 'HIGHBREAKPOINT', 'ENABLEMENTMAX',
       rows=[('u', 'LOWERREG', 20.0, 0.0, 10.0, 90.0, 100.0), ('v', 'LOWERREG', 20.0, 0.0, 10.0, 90.0, 100.0)])
d = df('DUID', 'RAMPUPRATE', 'RAMPDOWNRATE', rows=[('u', 120.0, np.nan), ('v', 120.0, 120.0)])
r = units._scaling_for_agc_ramp_rates(b, d).set_index('DUID')
check(sorted(r.index) == ['u', 'v'] and r.loc['u', 'MAXAVAIL'] == 20.0 and r.loc['v', 'MAXAVAIL'] == 10.0, r)
''',
    "a unit that telemeters a ramp up rate but no ramp down rate and bids lower regulation",
    "its lower regulation bid disappears, and one with a ramp down rate only is taken twice")

bug('unscale-by-unit', 'C23', 'src/nempy/historical_inputs/units.py',
    [("            unit_info.loc[:, ['unit', 'dispatch_type', 'loss_factor']],\n            on=['unit', 'dispatch_type']\n", "            unit_info.loc[:, ['unit', 'loss_factor']].drop_duplicates('unit'),\n            on=['unit']\n")],
    MK + '''
from nempy.historical_inputs import units
cols = [str(i) for i in range(1, 11)]
p = df('unit', 'service', 'dispatch_type', *cols, rows=[('b', 'energy', 'generator') + tuple([100.0] * 10), ('b', 'energy', 'load') + tuple([50.0] * 10)])
i = df('unit', 'dispatch_type', 'region', 'loss_factor', rows=[('b', 'generator', 'A', 0.9), ('b', 'load', 'A', 0.8)])
r = units.UnitData._unscale_price_bids(p, i).set_index('dispatch_type')
check(abs(r.loc['generator', '1'] - 90.0) < 1e-9 and abs(r.loc['load', '1'] - 40.0) < 1e-9, r)
''',
    "a bidirectional unit whose two sides have different loss factors",
    "the load side's bids are multiplied by the generation side's loss factor")

bug('generic-bdu-sign', 'C10', 'src/nempy/spot_market_backend/solver_interface.py',
    [("unit_lhs['coefficient'] = unit_lhs['coefficient_x'] * unit_lhs['coefficient_y']", "unit_lhs['coefficient'] = unit_lhs['coefficient_x']")],
    MK + '''
m = market(units=[('a', 'A', 'generator', 100.0, 20.0), ('b', 'A', 'generator', 100.0, 5.0), ('b', 'A', 'load', 100.0, 60.0)])
m.set_demand_constraints(df('region', 'demand', rows=[('A', 10.0)]))
m.set_generic_constraints(df('set', 'type', 'rhs', rows=[('S', '>=', -30.0)]))
m.link_units_to_generic_constraints(df('set', 'unit', 'service', 'coefficient', rows=[('S', 'b', 'energy', 1.0)]))
m.set_unit_ramp_rate_constraints  # the net position of b may not go below minus thirty
m.set_unit_bid_capacity_constraints(df('unit', 'dispatch_type', 'capacity', rows=[('b', 'generator', 0.0), ('b', 'load', 100.0)]))
m.dispatch()
d = m.get_unit_dispatch().set_index(['unit', 'dispatch_type'])['dispatch']
check(abs(d['b', 'load'] - 30.0) < 1e-6, d)
''',
    "a generic constraint on the energy of a bidirectional unit that is charging",
    "charging enters the constraint as generation")

bug('violation-max', 'C11', 'src/nempy/markets.py',
    [("return self._decision_variables[constraints_key + '_deficit']['value'].sum()", "return self._decision_variables[constraints_key + '_deficit']['value'].abs().max()")],
    MK + '''
m = market(regions=('A', 'B'), units=[('a', 'A', 'generator', 10.0, 20.0), ('b', 'B', 'generator', 10.0, 20.0)])
m.set_demand_constraints(df('region', 'demand', rows=[('A', 15.0), ('B', 17.0)]))
m.make_constraints_elastic('demand', 1000.0)
m.dispatch()
check(abs(m.get_elastic_constraints_violation_degree('demand') - 12.0) < 1e-6, m.get_elastic_constraints_violation_degree('demand'))
''',
    "a set of elastic constraints of which more than one is violated",
    "the violation degree reported is only the largest of the violations")

bug('loss-charge-by-interconnector', 'C03', 'src/nempy/spot_market_backend/interconnectors.py',
    [("        inter_constraint_map, 'inner', on=['interconnector', 'link'])", "        inter_constraint_map, 'inner', on=['interconnector'])")],
    MK + '''
from nempy.spot_market_backend import interconnectors as ic
v = df('interconnector', 'link', 'lower_bound', 'upper_bound', 'type', rows=[('T', 'T1', 0.0, 60.0, 'continuous'), ('T', 'T2', 0.0, 60.0, 'continuous')])
c = df('variable_id', 'interconnector', 'link', 'region', 'service', 'coefficient', rows=[(0, 'T', 'T1', 'B', 'energy', 1.0), (0, 'T', 'T1', 'A', 'energy', -1.0), (1, 'T', 'T2', 'A', 'energy', 1.0), (1, 'T', 'T2', 'B', 'energy', -1.0)])
s = df('interconnector', 'link', 'from_region_loss_share', 'from_region', rows=[('T', 'T1', 0.4, 'A'), ('T', 'T2', 0.4, 'B')])
l, m = ic.create_loss_variables(v, c, s, 2)
check(len(m) == 4 and abs(m['coefficient'].sum() + 2.0) < 1e-9, m)
''',
    "losses on an interconnector with two links",
    "the losses of each link are charged twice to the two regions")
