"""Drives the public API of SpotMarket from a set of tables (pandas frames or symbolic tables)."""

STEPS = {
    'volume_bids': lambda m, T, c: m.set_unit_volume_bids(T['volume_bids']),
    'price_bids': lambda m, T, c: m.set_unit_price_bids(T['price_bids']),
    'unit_limits': lambda m, T, c: m.set_unit_bid_capacity_constraints(T['unit_limits'], **cost(c, 'unit_bid_capacity')),
    'uigf_limits': lambda m, T, c: m.set_unconstrained_intermittent_generation_forecast_constraint(
        T['uigf_limits'], **cost(c, 'uigf_capacity')),
    'ramp_details': lambda m, T, c: m.set_unit_ramp_rate_constraints(
        T['ramp_details'], scada_ramp_rates=T.get('scada_ramp_rates'), fast_start_profiles=T.get('ramp_profiles'),
        run_type=c.get('run_type', 'no_fast_start_units'), **cost(c, 'ramp')),
    'fast_start_profiles': lambda m, T, c: m.set_fast_start_constraints(T['fast_start_profiles'], **cost(c, 'fast_start')),
    'demand': lambda m, T, c: m.set_demand_constraints(T['demand'], **cost(c, 'demand')),
    'fcas_requirements': lambda m, T, c: m.set_fcas_requirements_constraints(T['fcas_requirements'], **cost(c, 'fcas')),
    'fcas_max_availability': lambda m, T, c: m.set_fcas_max_availability(
        T['fcas_max_availability'], **cost(c, 'fcas_max_availability')),
    'reg_ramp_rates': lambda m, T, c: m.set_joint_ramping_constraints_reg(
        T['reg_ramp_rates'], fast_start_profiles=T.get('ramp_profiles'),
        run_type=c.get('run_type', 'no_fast_start_units'), **cost(c, 'joint_ramping')),
    'contingency_trapeziums': lambda m, T, c: m.set_joint_capacity_constraints(
        T['contingency_trapeziums'], **cost(c, 'joint_capacity')),
    'regulation_trapeziums': lambda m, T, c: m.set_energy_and_regulation_capacity_constraints(
        T['regulation_trapeziums'], **cost(c, 'energy_and_regulation_capacity')),
    'interconnectors': lambda m, T, c: m.set_interconnectors(T['interconnectors']),
    'loss_functions': lambda m, T, c: m.set_interconnector_losses(T['loss_functions'], T['break_points']),
    'generic_parameters': lambda m, T, c: m.set_generic_constraints(T['generic_parameters'], **cost(c, 'generic')),
    'unit_coefficients': lambda m, T, c: m.link_units_to_generic_constraints(T['unit_coefficients']),
    'region_coefficients': lambda m, T, c: m.link_regions_to_generic_constraints(T['region_coefficients']),
    'interconnector_coefficients': lambda m, T, c: m.link_interconnectors_to_generic_constraints(
        T['interconnector_coefficients']),
    'nothing': lambda m, T, c: None,
    'tie_break': lambda m, T, c: m.set_tie_break_constraints(c['tie_break_cost']),
}
# order constraints of the documented API: bids before what depends on them
NEEDS = {'price_bids': ['volume_bids'], 'unit_limits': ['volume_bids'], 'uigf_limits': ['volume_bids'],
         'reg_ramp_rates': ['volume_bids'], 'loss_functions': ['interconnectors'], 'tie_break': ['price_bids']}


def cost(c, fam):
    k = c.get('cost', {}).get(fam)
    return {} if k is None else {'violation_cost': k}


def steps_of(T, cfg):
    s = [k for k in STEPS if k in T and T[k] is not None]
    if cfg.get('tie_break_cost') is not None:
        s.append('tie_break')
    return s


def make_market(markets, T, cfg):
    m = markets.SpotMarket(market_regions=list(cfg['regions']), unit_info=T['unit_info'],
                           dispatch_interval=cfg['interval'])
    return m


def build(markets, T, cfg):
    m = make_market(markets, T, cfg)
    for s in cfg.get('order') or steps_of(T, cfg):
        STEPS[s](m, T, cfg)
    return m
