"""What a NEMDE file's records hold (C27), written without reference to the code."""
BID_TYPES = dict(ENOF='ENERGY', LDOF='ENERGY', DROF='ENERGY', BDOF='ENERGY', L5RE='LOWERREG', R5RE='RAISEREG', R5MI='RAISE5MIN',
                 L5MI='LOWER5MIN', R60S='RAISE60SEC', L60S='LOWER60SEC', R6SE='RAISE6SEC', L6SE='LOWER6SEC', R1SE='RAISE1SEC',
                 L1SE='LOWER1SEC')
DIRECTIONS = dict(GEN='GENERATOR', LOAD='LOAD')
# output column -> attribute of the record
VOLUME = dict(MAXAVAIL='MaxAvail', ENABLEMENTMIN='EnablementMin', ENABLEMENTMAX='EnablementMax', LOWBREAKPOINT='LowBreakpoint',
              HIGHBREAKPOINT='HighBreakpoint', RAMPDOWNRATE='RampDnRate', RAMPUPRATE='RampUpRate',
              **{'BANDAVAIL%d' % i: 'BandAvail%d' % i for i in range(1, 11)})
PRICE = {'PRICEBAND%d' % i: 'PriceBand%d' % i for i in range(1, 11)}
FAST_START = ['MinLoadingMW', 'CurrentMode', 'CurrentModeTime', 'T1', 'T2', 'T3', 'T4']
INITIAL = dict(RAMPUPRATE='SCADARampUpRate', RAMPDOWNRATE='SCADARampDnRate', AGCSTATUS='AGCStatus')
VIOLATION_PRICES = dict(
    regional_demand='EnergyDeficitPrice', interocnnector='InterconnectorPrice', generic_constraint='GenericConstraintPrice',
    ramp_rate='RampRatePrice', unit_capacity='CapacityPrice', energy_offer='OfferPrice', fcas_profile='ASProfilePrice',
    fcas_max_avail='ASMaxAvailPrice', fcas_enablement_min='ASEnablementMinPrice', fcas_enablement_max='ASEnablementMaxPrice',
    fast_start='FastStartPrice', mnsp_ramp_rate='MNSPRampRatePrice', msnp_offer='MNSPOfferPrice',
    mnsp_capacity='MNSPCapacityPrice', uigf='UIGFSurplusPrice', voll='VoLL', tiebreak='TieBreakPrice')
VIOLATIONS = dict(
    regional_demand='TotalAreaGenViolation', interocnnector='TotalInterconnectorViolation',
    generic_constraint='TotalGenericViolation', ramp_rate='TotalRampRateViolation', unit_capacity='TotalUnitMWCapacityViolation',
    energy_constraint='TotalEnergyConstrViolation', energy_offer='TotalEnergyOfferViolation',
    fcas_profile='TotalASProfileViolation', fast_start='TotalFastStartViolation', mnsp_ramp_rate='TotalMNSPRampRateViolation',
    msnp_offer='TotalMNSPOfferViolation', mnsp_capacity='TotalMNSPCapacityViolation', ugif='TotalUIGFViolation')


def default_direction(trader_type):
    """direction of a price record without one"""
    return 'LOAD' if trader_type == 'LOAD' else 'GENERATOR'
