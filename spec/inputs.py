"""What well-formed input tables are (C17).

column: (kind, flags); kinds unit, region, side, fcas/cont/reg/service, type, text, num, int, int1, fun
flags: r finite, p not negative, o optional, k part of the primary key, d present exactly when unit_info has directions"""


def schemas():
    band = {str(i): ('num', 'rpo' if i > 1 else 'rp') for i in range(1, 11)}
    pband = {str(i): ('num', 'ro' if i > 1 else 'r') for i in range(1, 11)}
    trap = dict(unit=('unit', 'k'), max_availability=('num', 'rp'), enablement_min=('num', 'r'), low_break_point=('num', 'r'),
                high_break_point=('num', 'r'), enablement_max=('num', 'r'), dispatch_type=('side', 'ok'))
    coef = dict(set=('text', 'k'), coefficient=('num', 'r'))
    return {
        'unit_info': dict(unit=('text', 'k'), region=('region', ''), loss_factor=('num', 'rpo'), dispatch_type=('side', 'ok')),
        'volume_bids': dict(unit=('unit', 'k'), dispatch_type=('side', 'dk'), service=('service', 'ok'), **band),
        'price_bids': dict(unit=('unit', 'k'), dispatch_type=('side', 'dk'), service=('service', 'ok'), **pband),
        'unit_limits': dict(unit=('unit', 'k'), dispatch_type=('side', 'dk'), capacity=('num', '')),
        'uigf_limits': dict(unit=('unit', 'k'), capacity=('num', '')),
        'ramp_details': dict(unit=('unit', 'k'), dispatch_type=('side', 'dk'), initial_output=('num', 'r'),
                             ramp_up_rate=('num', 'r'), ramp_down_rate=('num', 'r')),
        'scada_ramp_rates': dict(unit=('unit', 'k'), scada_ramp_up_rate=('num', 'o'), scada_ramp_down_rate=('num', 'o')),
        'fast_start_profiles': dict(unit=('unit', 'k'), end_mode=('int', 'p'), time_in_end_mode=('num', 'rp'),
                                    mode_two_length=('num', 'rp'), mode_four_length=('num', 'rp'), min_loading=('num', 'rp')),
        'demand': dict(region=('region', 'k'), demand=('num', 'r')),
        'fcas_requirements': dict(set=('text', 'k'), region=('region', 'k'), service=('service', 'k'), volume=('num', 'r'),
                                  type=('type', 'o')),
        'fcas_max_availability': dict(unit=('unit', 'k'), service=('fcas', 'k'), max_availability=('num', 'rp'),
                                      dispatch_type=('side', 'ok')),
        'reg_ramp_rates': dict(unit=('unit', 'k'), initial_output=('num', ''), scada_ramp_up_rate=('num', ''),
                               scada_ramp_down_rate=('num', '')),
        'contingency_trapeziums': dict(trap, service=('cont', 'k')),
        'regulation_trapeziums': dict(trap, service=('reg', 'k')),
        'interconnectors': dict(interconnector=('text', 'k'), link=('text', 'ok'), to_region=('region', ''),
                                from_region=('region', ''), max=('num', 'r'), min=('num', 'r'),
                                generic_constraint_factor=('int1', 'o'), from_region_loss_factor=('num', 'rpo'),
                                to_region_loss_factor=('num', 'rpo')),
        'loss_functions': dict(interconnector=('text', 'k'), link=('text', 'ok'), loss_function=('fun', ''),
                               from_region_loss_share=('num', 'rp')),
        'break_points': dict(interconnector=('text', 'k'), link=('text', 'ok'), loss_segment=('int', 'k'), break_point=('num', 'r')),
        'generic_parameters': dict(set=('text', 'k'), type=('type', ''), rhs=('num', 'r')),
        'unit_coefficients': dict(coef, unit=('unit', 'k'), service=('service', 'k')),
        'region_coefficients': dict(coef, region=('region', 'k'), service=('service', 'k')),
        'interconnector_coefficients': dict(coef, interconnector=('text', 'k')),
        'ramp_profiles/fast_start_first_run': dict(unit=('unit', 'k'), current_mode=('int', 'p')),
        'ramp_profiles/fast_start_second_run': dict(unit=('unit', 'k'), end_mode=('int', 'p'), min_loading=('num', 'rp'),
                                                    time_since_end_of_mode_two=('num', 'p')),
        'violation_cost': dict(set=('text', 'k'), cost=('num', 'r')),
    }
