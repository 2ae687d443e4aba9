MK = '''
def market(regions=('A',), units=(), **k):
    info = df('unit', 'region', 'dispatch_type', 'loss_factor', rows=[(u, r, d, 1.0) for u, r, d, v, p in units])
    m = markets.SpotMarket(market_regions=list(regions), unit_info=info, **k)
    m.set_unit_volume_bids(df('unit', 'dispatch_type', '1', rows=[(u, d, v) for u, r, d, v, p in units]))
    m.set_unit_price_bids(df('unit', 'dispatch_type', '1', rows=[(u, d, p) for u, r, d, v, p in units]))
    return m
def check(ok, *what):
    if not ok:
        print(*what); sys.exit(1)
'''

bug('mode-two-edge', 'C22', 'src/nempy/historical_inputs/units.py',
    [("(fsp['mode_two_length'] - fsp['temp_time_in_current_mode'] <\n", "(fsp['mode_two_length'] - fsp['temp_time_in_current_mode'] <=\n")],
    MK + '''
from nempy.historical_inputs import units
p = df('unit', 'min_loading', 'current_mode', 'time_in_current_mode', 'mode_one_length', 'mode_two_length', 'mode_three_length', 'mode_four_length',
       rows=[('u', 40.0, 2, 3, 4, 8, 20, 10), ('v', 40.0, 2, 2, 4, 8, 20, 10), ('w', 40.0, 2, 4, 4, 8, 20, 10)])
r = units.UnitData._update_modes(p, df('unit', 'service', 'dispatch', rows=[('u', 'energy', 10.0), ('v', 'energy', 10.0), ('w', 'energy', 10.0)]))
r = r.set_index('unit')
check(r.loc['u', 'end_mode'] == 2 and r.loc['u', 'time_in_end_mode'] == 8.0, r)
check(r.loc['v', 'end_mode'] == 2 and r.loc['w', 'end_mode'] == 3, r)
''',
    "a fast start unit whose mode two ends exactly at the end of the interval",
    "the unit is moved to mode three at the boundary, so it is held to its minimum loading instead of its ramp target and gets a zero ramp window")

bug('mnsp-zero-bid', 'C24', 'src/nempy/historical_inputs/interconnectors.py',
    [("np.where(~mnsp_transmission_loss_factors['availability'].isna(),", "np.where(mnsp_transmission_loss_factors['availability'] > 0.0,")],
    MK + '''
from nempy.historical_inputs import interconnectors
class L:
    def get_interconnector_constraint_parameters(self):
        return df('INTERCONNECTORID', 'IMPORTLIMIT', 'EXPORTLIMIT', 'LOSSCONSTANT', 'LOSSFLOWCOEFFICIENT', 'FROMREGIONLOSSSHARE', 'ICTYPE',
                  rows=[('I1', 100.0, 120.0, 1.0, 0.0001, 0.5, 'REGULATED'), ('T', 478.0, 478.0, 1.0, 0.0001, 0.5, 'MNSP')])
    def get_interconnector_definitions(self):
        return df('INTERCONNECTORID', 'REGIONFROM', 'REGIONTO', rows=[('I1', 'A', 'B'), ('T', 'C', 'D')])
    def get_market_interconnectors(self):
        return df('INTERCONNECTORID', 'LINKID', 'FROM_REGION_TLF', 'TO_REGION_TLF', 'FROMREGION', 'TOREGION', 'LHSFACTOR', 'MAXCAPACITY',
                  rows=[('T', 'TA', 0.9, 1.0, 'C', 'D', 1.0, 478.0), ('T', 'TB', 1.0, 0.9, 'D', 'C', -1.0, 478.0)])
    def get_market_interconnector_link_bid_availability(self):
        return df('interconnector', 'to_region', 'availability', rows=[('T', 'D', 250.0), ('T', 'C', 0.0)])
d = interconnectors.InterconnectorData(L()).get_interconnector_definitions().set_index('link')
check(d.loc['TA', 'max'] == 250.0 and d.loc['TB', 'max'] == 0.0 and d.loc['I1', 'max'] == 120.0, d)
''',
    "a market interconnector link bid at zero availability",
    "the link is given its full capacity instead of its bid availability of zero")

bug('chain-outer', 'C19', 'src/nempy/time_sequential.py',
    [("pd.merge(last_interval_energy_dispatch, ramp_rates, how='right', on='unit')", "pd.merge(last_interval_energy_dispatch, ramp_rates, how='outer', on='unit')")],
    MK + '''
from nempy import time_sequential
r = time_sequential.construct_ramp_rate_parameters(
    df('unit', 'service', 'dispatch', rows=[('a', 'energy', 50.0), ('a', 'raise_reg', 5.0), ('b', 'energy', 20.0)]),
    df('unit', 'ramp_up_rate', 'ramp_down_rate', rows=[('a', 60.0, 30.0), ('c', 10.0, 10.0)]))
r = r.set_index('unit')
check(list(r.index) == ['a', 'c'] or set(r.index) == {'a', 'c'}, r)
check(r.loc['a', 'initial_output'] == 50.0 and r.loc['c', 'initial_output'] == 0.0, r)
''',
    "a unit dispatched in the previous interval that is not in the ramp rate table",
    "the unit appears in the result with zero ramp rates, so it is frozen at its last output though it has no ramp limits")

bug('rpn-min-deep', 'C28', 'src/nempy/historical_inputs/rhs_calculator.py',
    [("min(stack[1], stack[0]) * float(term['@Multiplier'])", "min(stack) * float(term['@Multiplier'])")],
    MK + '''
from nempy.historical_inputs import rhs_calculator as r
t = lambda **k: {'@' + a: str(v) for a, v in k.items()}
eq = [t(SpdType='C', SpdID='x', Multiplier=50.0, Operation="PUSH"), t(SpdType='C', SpdID='x', Multiplier=200.0, Operation='PUSH'),
      t(SpdType='C', SpdID='x', Multiplier=100.0, Operation='PUSH'), t(SpdType='U', SpdID='x', Multiplier=1.0, Operation='MIN')]
check(r._rpn_calc(eq) == 100.0, r._rpn_calc(eq))
''',
    "a right hand side equation that takes the minimum of the two top elements while a smaller element is deeper in the stack",
    "the minimum is taken over the whole stack instead of its two top elements")

bug('unbounded-status', 'C18', 'src/nempy/spot_market_backend/solver_interface.py',
    [("if status != OptimizationStatus.OPTIMAL:\n            # Attempt", "if status in [OptimizationStatus.INFEASIBLE, OptimizationStatus.INT_INFEASIBLE]:\n            # Attempt")],
    MK + '''
from unittest import mock
import mip
m = market(('A',), [('g', 'A', 'generator', 100.0, 10.0)])
m.set_demand_constraints(df('region', 'demand', rows=[('A', 50.0)]))
real = mip.Model.optimize
def limited(self, *a, **k):
    real(self, *a, **k)
    return mip.OptimizationStatus.NO_SOLUTION_FOUND
try:
    with mock.patch.object(mip.Model, 'optimize', limited):
        m.dispatch()
except Exception:
    sys.exit(0)
print('dispatch returned though the solver did not report an optimal solution'); sys.exit(1)
''',
    "a solver run that ends with neither an optimal solution nor proven infeasibility (limit reached, unbounded)",
    "the dispatch call returns normally and publishes results that are not an optimal solution")

bug('tie-across-directions', 'C12', 'src/nempy/spot_market_backend/unit_constraints.py',
    [("pd.merge(energy_price_bids, energy_price_bids, on=['cost', 'region', 'dispatch_type'])", "pd.merge(energy_price_bids, energy_price_bids, on=['cost', 'region'])")],
    MK + '''
m = market(('A',), [('g', 'A', 'generator', 100.0, 20.0), ('h', 'A', 'generator', 100.0, 60.0), ('l', 'A', 'load', 80.0, -20.0)])
m.set_demand_constraints(df('region', 'demand', rows=[('A', 40.0)]))
m.set_tie_break_constraints(1e6)
m.dispatch()
d = m.get_unit_dispatch().set_index('unit')['dispatch']
check(abs(d['g'] - 40.0) < 1e-6 and abs(d['l']) < 1e-6, d)
''',
    "a load bidding the negative of a generator's price, so that both have the same cost in the objective",
    "generation and consumption bids are tied to each other and dispatched in proportion")

bug('bdu-load-zero-min', 'C21', 'src/nempy/historical_inputs/units.py',
    [("fcas_bids_bdu_load_con[fcas_bids_bdu_load_con['ENABLEMENTMIN'] <= 0.0]", "fcas_bids_bdu_load_con[fcas_bids_bdu_load_con['ENABLEMENTMIN'] < 0.0]")],
    MK + '''
from nempy.historical_inputs import units
bands = ['BANDAVAIL%d' % i for i in range(1, 11)]
v = df('DUID', 'DIRECTION', 'BIDTYPE', 'MAXAVAIL', 'ENABLEMENTMIN', 'LOWBREAKPOINT', 'HIGHBREAKPOINT', 'ENABLEMENTMAX', *bands,
       rows=[('b', d, t, 50.0, 0.0, 0.0, 50.0, 60.0) + (10.0,) * 10 for d in ('GENERATOR', 'LOAD') for t in ('ENERGY', 'RAISE6SEC')])
p = df('DUID', 'DIRECTION', 'BIDTYPE', rows=[('b', d, t) for d in ('GENERATOR', 'LOAD') for t in ('ENERGY', 'RAISE6SEC')])
c = df('unit', 'dispatch_type', 'capacity', rows=[('b', 'generator', 100.0), ('b', 'load', 100.0)])
i = df('DUID', 'INITIALMW', 'AGCSTATUS', 'TRADERTYPE', rows=[('b', 10.0, 1.0, 'BIDIRECTIONAL')])
a, b = units._enforce_preconditions_for_enabling_fcas(v, p, i, c)
got = sorted(zip(a['DIRECTION'], a['BIDTYPE']))
check(('LOAD', 'RAISE6SEC') in got and len(got) == 4, got)
''',
    "a contingency bid on the load side of a bidirectional unit with an enablement minimum of exactly zero",
    "the bid is dropped though it meets every condition for enablement")

bug('rerun-adjuster', 'C15', 'src/nempy/markets.py',
    [("variables_and_cons['coefficient'] * -1\n", "variables_and_cons['coefficient'].abs() * -1\n")],
    MK + '''
m = market(('A',), [('g', 'A', 'generator', 100.0, 20.0), ('h', 'A', 'generator', 100.0, 60.0)])
m.set_demand_constraints(df('region', 'demand', rows=[('A', 150.0)]))
m.set_generic_constraints(df('set', 'type', 'rhs', rows=[('c', '<=', 80.0)]))
m.link_regions_to_generic_constraints(df('set', 'region', 'service', 'coefficient', rows=[('c', 'A', 'energy', 1.0)]))
m.make_constraints_elastic('generic', 5000.0)
m.dispatch(allow_over_constrained_dispatch_re_run=True, energy_market_floor_price=-1000.0, energy_market_ceiling_price=1000.0, fcas_market_ceiling_price=1000.0)
p = m.get_energy_prices()['price'].iloc[0]
check(p is not None and abs(p - 60.0) < 1e-6, p)
''',
    "an over-constrained re-run in which a constraint of type <= is violated",
    "the right hand side is moved against the violation, so the re-run prices are those of a harder problem, not of a relaxed one")

bug('repeats-adjacent', 'C17', 'src/nempy/spot_market_backend/dataframe_validator.py',
    [("if len(df.index) != len(df.drop_duplicates(cols_in_df)):", "keys = df.loc[:, cols_in_df]\n        if (keys == keys.shift()).all(axis=1).any():")],
    MK + '''
try:
    markets.SpotMarket(market_regions=['A'], unit_info=df('unit', 'region', 'loss_factor', rows=[('u', 'A', 1.0), ('u', 'A', 0.9)]))
    print('adjacent repeat accepted'); sys.exit(1)
except Exception as e:
    check(type(e).__name__ == 'RepeatedRowError', type(e))
try:
    markets.SpotMarket(market_regions=['A'], unit_info=df('unit', 'region', 'loss_factor', rows=[('u', 'A', 1.0), ('v', 'A', 1.0), ('u', 'A', 0.9)]))
    print('repeat accepted'); sys.exit(1)
except Exception as e:
    check(type(e).__name__ == 'RepeatedRowError', type(e))
''',
    "a table in which the two rows with the same key are not next to each other",
    "the repeated row is accepted, and the unit gets two loss factors")

bug('version-edge', 'C25', 'src/nempy/historical_inputs/mms_db.py',
    [("""data = data.sort_values('START_DATE')""", """data = data.sort_values('DUID')""")],
    MK + '''
import sqlite3
from nempy.historical_inputs import mms_db
con = sqlite3.connect(':memory:')
t = mms_db.InputsStartAndEnd('DETAILS', ['DUID', 'START_DATE', 'END_DATE', 'REGIONID'], ['START_DATE', 'DUID'], con)
df('DUID', 'START_DATE', 'END_DATE', 'REGIONID', rows=[('a', '2020/03/01 00:00:00', '2999/01/01 00:00:00', 'new'), ('a', '2018/01/01 00:00:00', '2020/03/01 00:00:00', 'old')]).to_sql('DETAILS', con, index=False)
r = t.get_data('2020/06/01 00:00:00')
check(list(r['REGIONID']) == ['new'], r)
r = t.get_data('2019/06/01 00:00:00')
check(list(r['REGIONID']) == ['old'], r)
''',
    "a unit whose detail records are not stored in the order of their start dates",
    "the record returned is the last one stored, not the latest one in force")
