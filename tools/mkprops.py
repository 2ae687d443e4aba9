"""Writes /verif/properties.jsonl (source of the property list)."""
import json
P = []
SRC = 'src/nempy/'
BK = SRC + 'spot_market_backend/'
HI = SRC + 'historical_inputs/'


def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=', '.join(files)) for m in mech])))


p('C01', 'Each offered bid band is one dispatch variable, bounded by its volume',
  'For any set of volume bids, the market problem handed to the solver has exactly one continuous variable for every unit, service, dispatch direction and band whose offered volume is at least 0.0001 MW, with lower bound zero and upper bound equal to that volume, and none for any other band. The dispatch reported for a unit, direction and service is the sum of the optimal values of exactly its own bands.',
  ['inputs', 'configurations'], 'every volume-bid table (any number of units, services, bands and zero bands), with and without the optional service and dispatch-type columns',
  'The tests dispatch a handful of fixed markets of two or three units; a band lost, duplicated or attributed to the wrong unit for some other shape of bids is not exercised.',
  [BK + 'variable_ids.py', SRC + 'markets.py', BK + 'solver_interface.py'],
  ['set_unit_volume_bids -> variable_ids.bids', 'dispatch -> InterfaceToSolver.add_variables', 'get_unit_dispatch'])

p('C02', 'Objective: bid price at the reference node plus penalties, nothing else',
  'The function minimised by dispatch is the sum over bid variables of volume times bid price, where energy prices are divided by the loss factor of that unit and direction and the price of energy bought by loads is negated while ancillary service prices are used as bid, plus violation cost times violation for elastic constraints. No bid band is costed twice, omitted, or charged with another unit, service, direction or band\'s price.',
  ['inputs', 'configurations'], 'every combination of volume bids, price bids and unit information, with and without the optional columns',
  'Tests compare a few hand-computed dispatch results; wrong prices on combinations they do not hold (for example a load offering FCAS, a bidirectional unit with different loss factors per side) are invisible.',
  [BK + 'objective_function.py', SRC + 'markets.py', BK + 'solver_interface.py'],
  ['set_unit_price_bids -> objective_function.bids / scale_by_loss_factors', 'InterfaceToSolver.add_objective_function'])

p('C03', 'Regional energy balance: one equality per region with the right signs',
  'For every region with demand and at least one unit or interconnector, the problem contains exactly one equality whose right hand side is that demand and whose left hand side is the sum of energy bids of the region\'s units (generation positive, consumption negative) plus interconnector flows and minus the region\'s share of interconnector losses. Variables of other regions or of ancillary services never enter it.',
  ['inputs', 'configurations'], 'every demand table, unit set and interconnector set',
  'Tests only use one to three regions with one topology each; the balance must hold for every topology and unit mix.',
  [BK + 'market_constraints.py', BK + 'solver_interface.py', BK + 'variable_ids.py', BK + 'interconnectors.py', SRC + 'markets.py'],
  ['set_demand_constraints -> market_constraints.energy', 'dispatch -> create_lhs on region, service'])

p('C04', 'FCAS requirement sets bind exactly the enabled services of their regions',
  'For each FCAS requirement set the problem contains exactly one constraint with the set\'s type (equality when none is given) and volume, whose left hand side is the sum, with coefficient one per matching requirement row, of all bids of the listed service in the listed regions. A set spanning several regions or services is one constraint, not several.',
  ['inputs', 'configurations'], 'every requirement table over any regions, services and sets',
  'Tests hold one or two requirement sets; co-optimised sets across regions and mixed constraint types are not covered.',
  [BK + 'market_constraints.py', BK + 'solver_interface.py', SRC + 'markets.py'],
  ['set_fcas_requirements_constraints -> market_constraints.fcas', 'dispatch -> create_lhs on region, service'])

p('C05', 'Unit capacity and forecast limits cap the right energy dispatch',
  'For each row of unit capacity limits or intermittent generation forecasts the problem contains exactly one less-or-equal constraint on the total energy dispatch of that unit and direction (forecasts apply to the generation side), with that row\'s capacity as right hand side. No other unit, direction or service enters it, including for bidirectional units whose load side must be capped as positive consumption.',
  ['inputs', 'configurations'], 'every limit table over generators, loads and bidirectional units',
  'Tests cap one or two generators; the interaction of two sign conventions for bidirectional loads is checked on one example only.',
  [BK + 'unit_constraints.py', BK + 'variable_ids.py', BK + 'solver_interface.py', SRC + 'markets.py'],
  ['set_unit_bid_capacity_constraints -> unit_constraints.capacity', 'set_unconstrained_intermittent_generation_forecast_constraint -> unit_constraints.uigf'])

p('C06', 'Ramp limits: initial output plus or minus rate times interval, per unit',
  'A unit\'s energy dispatch is bounded above by its initial output plus its ramp up rate, and below by its initial output minus its ramp down rate, times the dispatch interval in hours; the rate is the smaller of the bid rate and the telemetered rate where one exists. A bidirectional unit is bounded as one net position with the composite rate that switches between its load and generation rates as it crosses zero. Fast start units below minimum load are exempt, and units that have just left mode two are limited to the ramp they could have made since then.',
  ['inputs', 'configurations'], 'every ramp table, telemetry table, fast start profile table, run type and dispatch interval length',
  'The composite rate, the telemetry minimum and the fast start exemptions are piecewise formulas; tests pin a few points of them.',
  [BK + 'ramp_rate_processing.py', BK + 'unit_constraints.py', SRC + 'markets.py'],
  ['set_unit_ramp_rate_constraints -> _calculate_composite_ramp_rates, _adjust_for_scada_ramp_rates, _adjust_ramp_rates_for_fast_start_profiles, ramp_up, ramp_down, _bidirectional_ramp_constraints'])

p('C07', 'Fast start units are held to their inflexibility profile by mode',
  'A fast start unit that ends the interval in mode zero or one is held at zero energy, in mode two exactly at its minimum loading scaled by the fraction of mode two elapsed, in mode three at or above minimum loading, and in mode four at or above minimum loading scaled down by the fraction of mode four elapsed. Units outside those modes get no such constraint, and each constraint touches only the energy dispatch of its own unit and direction.',
  ['inputs'], 'every fast start profile table, any mix of modes, including tables in which some modes are absent',
  'Tests exercise one unit per mode; mixes in which some mode tables are empty change how identifiers are handed out.',
  [BK + 'unit_constraints.py', SRC + 'markets.py'],
  ['set_fast_start_constraints -> create_fast_start_profile_constraints', 'remove_fast_start_constraints'])

p('C08', 'FCAS trapeziums and joint capacity and ramping limits are enforced',
  'Each FCAS bid is capped by its maximum availability; energy plus upper slope times contingency (or regulation) FCAS plus regulation on the raising side stays below enablement maximum, and energy minus lower slope times FCAS minus regulation on the lowering side stays above enablement minimum; energy plus or minus regulation stays within one interval of ramping from initial output. Loads use the mirrored regulation service. A bidirectional unit enters joint capacity and joint ramping through its net energy position with the regulation of both sides, and energy-and-regulation limits with each side\'s own energy, the load side counted negative.',
  ['inputs', 'configurations'], 'every trapezium table over all services, dispatch directions and bidirectional units, with and without the optional dispatch-type column',
  'Each formula is checked on single hand-made units; sign conventions of loads and bidirectional units combine into many cases.',
  [BK + 'fcas_constraints.py', BK + 'unit_constraints.py', SRC + 'markets.py', BK + 'solver_interface.py'],
  ['set_fcas_max_availability', 'set_joint_capacity_constraints', 'set_energy_and_regulation_capacity_constraints', 'set_joint_ramping_constraints_reg'])

p('C09', 'Interconnector flows stay in limits and losses follow the loss function',
  'Each interconnector link has one flow variable within its limits, entering the receiving region positively and the sending region negatively, each scaled by that end\'s loss factor. When losses are modelled, the weights of each link sum to one, at most two adjacent weights (by loss segment) are non-zero, the weighted break points equal the flow, and the weighted loss function values equal the loss, which is charged to the two end regions by the loss share. At most one link of a multi-link interconnector carries flow.',
  ['inputs', 'configurations'], 'every set of interconnectors, links, loss functions, loss shares and break points',
  'Tests use one or two interconnectors with a fixed quadratic; the link between weights, flow and loss must hold for every function and break point table.',
  [BK + 'interconnectors.py', SRC + 'markets.py', BK + 'solver_interface.py'],
  ['set_interconnectors -> interconnectors.create', 'set_interconnector_losses -> create_loss_variables, create_weights, link_*', 'InterfaceToSolver.add_sos_type_1 / add_sos_type_2'])

p('C10', 'Generic constraints combine unit, region and interconnector terms as given',
  'For every generic constraint set with at least one matching term, the problem contains one constraint of the given type and right hand side whose left hand side is the sum of the given unit coefficients times that unit and service\'s dispatch (the load side of a bidirectional unit counting as negative energy), the given region coefficients times the bids of that service in the region, and the given interconnector coefficients times the flow of each link in its own direction. Terms of one set never appear in another; sets shared with FCAS requirements extend the FCAS constraint.',
  ['inputs', 'configurations'], 'every collection of generic constraints and coefficient tables, in any call order',
  'Tests use one generic constraint at a time; cross-talk between sets and overlap with FCAS sets is not tested.',
  [BK + 'solver_interface.py', SRC + 'markets.py'],
  ['set_generic_constraints', 'link_units_to_generic_constraints, link_regions_to_generic_constraints, link_interconnectors_to_generic_constraints', 'dispatch -> create_*_generic_constraint_lhs'])

p('C11', 'Elastic constraints can only be relaxed in their own direction, at their cost',
  'Making a constraint set elastic gives every inequality one non-negative slack and every equality two, each entering only its own constraint with the sign that relaxes it and costing exactly the given violation cost (per set when costs are given as a table) in the objective. Hard constraints get none, and the violation degree reported for a set is the sum of its slacks.',
  ['inputs', 'configurations', 'histories'], 'every constraint set of any mix of types, every violation cost (number or table)',
  'Tests check three small examples; sign and identifier allocation for mixed equality and inequality sets must hold for any mix.',
  [BK + 'elastic_constraints.py', SRC + 'markets.py'],
  ['make_constraints_elastic -> elastic_constraints.create_deficit_variables', 'get_elastic_constraints_violation_degree'])

p('C12', 'Tie breaking shares volume pro rata between equally priced bids of a region',
  'When tie breaking is on, for every two energy bids of different units in the same region and dispatch direction whose cost at the reference node is equal there is an elastic equality making their dispatch proportional to their offered volumes, and bids that differ in region, direction or cost, or belong to the same unit, are never tied. Each tied pair is constrained once.',
  ['inputs'], 'every set of bids, any number of tied units and bands',
  'One test ties two single-band generators; which pairs are tied in larger sets, and that none is lost, is not tested.',
  [BK + 'unit_constraints.py', SRC + 'markets.py'],
  ['set_tie_break_constraints -> unit_constraints.tie_break_constraints'])

p('C13', 'Variables and constraints never collide, whatever order the model is built in',
  'After any sequence of model building calls, in any order and with repeated calls replacing earlier ones, every variable and every constraint of the problem is distinct, so no bid, flow, slack or constraint ever overwrites or merges with another. Every element of the tables given by the user reaches the solver exactly once, and the tables themselves are not changed.',
  ['histories', 'inputs'], 'all sequences of public model-building calls on one market object',
  'Tests call the setters once, in the documented order; identifier allocation must be right after every history.',
  [SRC + 'markets.py', SRC + 'help_functions/helper_functions.py', BK + 'elastic_constraints.py', BK + 'interconnectors.py', BK + 'fcas_constraints.py', BK + 'unit_constraints.py'],
  ['_next_variable_id / _next_constraint_id counters', 'helper_functions.save_index'])

p('C14', 'Region summary accounts for dispatch, inflow and losses consistently',
  'The region dispatch summary reports for every region with units offering energy or interconnectors the generation minus consumption of its units, the flow of its interconnectors into it minus the flow out of it, the transmission losses implied by the loss factors, and its share of interconnector losses, each being the sum over exactly that region\'s units or links, so that dispatch plus inflow minus both losses is the balance the demand constraint enforces. No such region is missing from the summary.',
  ['inputs', 'configurations'], 'every market result, any topology',
  'Tests call the summary on two small topologies in which every region has an interconnector.',
  [SRC + 'markets.py'],
  ['get_region_dispatch_summary', 'get_interconnector_flows'])

p('C15', 'Prices are the marginal values of demand and FCAS constraints',
  'The energy price of a region is the marginal value of its balance constraint and the FCAS price of a region and service is the sum of the marginal values of the requirement sets that cover it, both taken from the price run, which keeps the same problem with only interpolation weights beyond the three closest to the optimal flow, and idle links of multi-link interconnectors, switched off. An over-constrained re-run is done only when it is allowed, a price is at or beyond a cap and a generic or FCAS constraint is violated, and relaxes exactly the violated constraints in the direction of their violation.',
  ['inputs', 'configurations'], 'every market and solution, with and without re-run',
  'Tests compare a few prices; which variables are disabled and which constraints relaxed is never observed directly.',
  [SRC + 'markets.py', BK + 'solver_interface.py'],
  ['dispatch: price run and over-constrained re-run', 'get_energy_prices, get_fcas_prices', 'InterfaceToSolver.price_constraints, update_rhs, disable_variables'])

p('C16', 'FCAS availability is dispatch plus the smallest slack that limits it',
  'The availability reported for a unit and ancillary service equals its dispatch plus the smallest, over the unit\'s FCAS and joint constraints that would limit an increase of that service, of the constraint\'s slack divided by the size of the service\'s coefficient. It is reported per side of a bidirectional unit. Constraints that an increase of the service would relax, or that do not contain it (a coefficient smaller than 0.00001 counts as none), never limit it.',
  ['inputs'], 'every market result with FCAS constraints',
  'One documented example; the selection of limiting constraints has many sign cases.',
  [SRC + 'markets.py', BK + 'solver_interface.py'],
  ['get_fcas_availability', 'InterfaceToSolver.get_slack_in_constraints'])

p('C17', 'Malformed inputs are rejected before they reach the model',
  'A call that sets market inputs returns normally only if every required column is present, no unknown column is present, text columns hold strings, units, regions, services, directions and constraint types are known ones, numeric columns have the required type and where required are finite and not negative, and no two rows share a primary key, and energy bids and ramp rates of a bidirectional unit are given for both sides; otherwise it raises an error and leaves the model as it was. Well-formed inputs are never rejected.',
  ['inputs', 'configurations'], 'every input table to every setter',
  'Tests check a few bad values for a few setters; the guarantee is per setter, per column and per row.',
  [BK + 'dataframe_validator.py', SRC + 'markets.py'],
  ['DataFrameSchema.validate, SeriesSchema.validate and the _validate_* methods'])

p('C18', 'No silent results: an unsolved market raises instead of reporting dispatch',
  'If the solver does not prove optimality for the dispatch problem the dispatch call raises an error and no results are published; if it returns normally, every reported value, slack and objective comes from the optimal solution of exactly the problem that was built. Asking for dispatch with no variables, price bids before volume bids, or a re-run without price caps, raises an error.',
  ['inputs', 'configurations'], 'every solver outcome and every incomplete model',
  'Tests never see a non-optimal status.',
  [BK + 'solver_interface.py', SRC + 'markets.py'],
  ['InterfaceToSolver.optimize', 'InterfaceToSolver.get_optimal_values_of_decision_variables, get_slack_in_constraints', 'dispatch'])

p('C19', 'Interval chaining starts each unit from its last energy dispatch',
  'When ramp parameters are built from the previous interval\'s dispatch, every unit of the ramp table appears once with its own rates and an initial output equal to its previous energy dispatch, or zero if it had none, regardless of its ancillary service dispatch or of other units. Seed parameters join historical dispatch and bid rates unit by unit.',
  ['inputs', 'histories'], 'every dispatch result and ramp table',
  'No test covers units missing from the dispatch or units with several services.',
  [SRC + 'time_sequential.py'],
  ['construct_ramp_rate_parameters', 'create_seed_ramp_rate_parameters'])

p('C20', 'FCAS trapeziums are scaled by AGC limits, ramp rates and forecasts as in NEMDE',
  'Regulation trapeziums are narrowed to the AGC enablement limits when those are tighter and positive, moving the break points by the same amount; their maximum availability is capped at what the telemetered ramp rate allows in five minutes, keeping the slopes; and trapeziums of forecast units have their enablement maximum capped at the forecast with the upper break point shifted equally. Energy bids and bids not subject to a scaling pass through unchanged, and no bid of a unit the dispatch data covers is lost or duplicated by scaling.',
  ['inputs'], 'every set of bids, AGC limits, telemetered ramp rates and forecasts, including missing rates',
  'Unit tests cover single hand-made trapeziums; that the split and recombination of the bid table neither loses nor duplicates bids is not tested.',
  [HI + 'units.py'],
  ['_scaling_for_agc_enablement_limits', '_scaling_for_agc_ramp_rates', '_scaling_for_uigf'])

p('C21', 'FCAS bids are enabled only under the NEMDE preconditions',
  'After processing, an FCAS bid survives exactly when its maximum availability and at least one band are positive, the availability given for that unit and direction, where there is one, reaches its enablement minimum, its enablement maximum is not negative, its initial output (floored at zero unless bidirectional) lies within its enablement limits, and for regulation the AGC is on, with the documented variants for the two sides of bidirectional units. Energy bids always survive, and price bids are kept for exactly the surviving volume bids.',
  ['inputs'], 'every set of volume and price bids, initial conditions and availabilities',
  'Each precondition is tested by one example; their conjunction over bidirectional and ordinary units is not.',
  [HI + 'units.py'],
  ['_enforce_preconditions_for_enabling_fcas'])

p('C22', 'Fast start commitment advances each unit through its modes correctly',
  'Given a unit\'s current mode, time in it, mode lengths and whether the unconstrained run dispatches it, the mode at the end of the five minute interval and the time spent in it follow the profile clock: an off unit that is dispatched starts, a mode is left exactly when its remaining length is shorter than the time left in the interval, and leftover time carries over. A unit that is off and not dispatched stays off, time in mode four is capped at its length, and every fast start unit with an energy dispatch appears once.',
  ['inputs'], 'every fast start profile and unconstrained dispatch table',
  'Piecewise time arithmetic over five modes; tests cover a few trajectories.',
  [HI + 'units.py'],
  ['_update_modes', 'get_fast_start_profiles_for_dispatch'])

p('C23', 'Unit reference data and price bids keep loss factors consistent',
  'A unit\'s loss factor is its transmission times distribution loss factor, except that the generation side of a bidirectional unit with a secondary transmission loss factor uses that one; each unit and direction that bids appears once with its own region. Energy price bids prepared for the market are the offered prices multiplied by that loss factor and ancillary service prices are unchanged, so that the cost the market minimises is the offered price.',
  ['inputs'], 'every unit detail table and bid set',
  'Only examples from stored intervals are tested, none of which varies loss factors by side.',
  [HI + 'units.py', BK + 'objective_function.py'],
  ['UnitData.get_unit_info', 'UnitData._unscale_price_bids', 'objective_function.scale_by_loss_factors'])

p('C24', 'Historical interconnector losses, limits and links are modelled faithfully',
  'The loss function of an interconnector is (constant minus one, plus demand offset) times flow plus half the flow coefficient times flow squared, where the offset is the sum over regions of demand coefficient times regional demand; for the reverse link of a market interconnector both the function and its break points and segments are mirrored. Regulated interconnectors keep the negated import limit as minimum and the export limit as maximum, and market links get zero minimum and their bid availability as maximum.',
  ['inputs'], 'every interconnector definition, loss model and demand table',
  'Tests evaluate one loss function; mirrored links are not tested.',
  [HI + 'interconnectors.py', HI + 'demand.py'],
  ['create_loss_functions', 'InterconnectorData.get_interconnector_loss_model, get_interconnector_definitions'])

p('C25', 'The database returns exactly the record version in force for the interval',
  'For tables versioned by effective date and version number, the record returned for an interval is the one with the latest effective date not after the interval and the highest version of that date, for each identifying key, with all rows of that version; for dated tables exactly the rows of that interval are returned, and for tables with start dates the latest record started by then.',
  ['inputs', 'histories'], 'every database content and interval',
  'The repository tests need stored downloads; no test varies versions.',
  [HI + 'mms_db.py'],
  ['InputsByEffectiveDateVersionNo.get_data', 'InputsBySettlementDate.get_data', 'InputsStartAndEnd.get_data'])

p('C26', 'Every dispatch interval maps to its own NEMDE file',
  'Each five minute interval maps to the market day that starts at 04:05 and to interval numbers 001 to 288 within it, so an interval up to and including 04:00 belongs to the previous day\'s file 288 or earlier, 04:05 is interval 001, and two different intervals never share a file name. The over-constrained re-run file of an interval is used only where it is the one present.',
  ['inputs'], 'every date and time that is a multiple of five minutes, across month, year and leap boundaries',
  'Only a few stored intervals are ever loaded.',
  [HI + 'xml_cache.py'],
  ['_get_market_year_month_day', '_get_interval_number', 'get_file_name'])

p('C27', 'XML extraction returns each trader and constraint record with its own values',
  'Extracting bids, initial conditions, fast start parameters, forecasts, constraint right hand sides, types and left hand sides from a NEMDE file yields exactly one row per corresponding record of the file, with each field present in the record taken from that record, whether a collection of bids or factors holds one element or many. Intervention runs use the what-if initial output and only non-intervention solutions.',
  ['inputs'], 'every NEMDE input file structure',
  'Depends on stored XML files absent from the repository; the tests that need them do not run here.',
  [HI + 'xml_cache.py', HI + 'constraints.py'],
  ['XMLCacheManager.get_unit_volume_bids, get_unit_price_bids, get_unit_initial_conditions, get_constraint_*'])

p('C28', 'Constraint right hand sides are evaluated by the published RPN rules',
  'Each operator of the right hand side calculator transforms the stack as the AEMO constraint implementation guidelines define: unary operators act on the top of the stack or on the term\'s value scaled by its multiplier, binary stack operators combine the top two and shrink the stack by one, exchange, duplicate and roll rearrange it, and elements not addressed are preserved. Operators that need two elements reject shorter stacks. Terms take the value of their own type and identifier (telemetry summed over its entries, generic equations evaluated recursively), an updated value changes exactly the equations that read it, and those are listed once each.',
  ['inputs', 'programs'], 'every stack content and depth, every multiplier, value and term type',
  'Tests evaluate about twenty fixed equations.',
  [HI + 'rhs_calculator.py'],
  ['_rpn_stack and the operator functions', '_resolve_term_value', 'update_spd_id_value'])

p('C29', 'Constraint data tables keep sets, types and updated right hand sides aligned',
  'Constraint tables prepared for the market give each set its own right hand side, its type translated to an inequality symbol and its terms\' services translated to service names, and split the sets into those with regional FCAS terms and the rest without loss or overlap. Updating right hand sides replaces the value of exactly the sets given and leaves every other row and column unchanged.',
  ['inputs'], 'every set of constraint tables and updates',
  'No test covers partial updates or sets present in only one table.',
  [HI + 'constraints.py', SRC + 'help_functions/helper_functions.py'],
  ['ConstraintData', 'helper_functions.update_rhs_values'])

if __name__ == '__main__':
    with open('/verif/properties.jsonl', 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    import jsonschema
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P:
        jsonschema.validate(x, sch)
    print(len(P))
