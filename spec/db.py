"""Which record of each table is in force for an interval (C25), written without reference to the code."""
# versioned by effective date and version number: identifying key -> further columns that number the rows of a version
VERSIONED = {
    'DUDETAIL': (('DUID',), ()),
    'MNSP_INTERCONNECTOR': (('INTERCONNECTORID', 'LINKID'), ()),
    'INTERCONNECTORCONSTRAINT': (('INTERCONNECTORID',), ()),
    'LOSSMODEL': (('INTERCONNECTORID',), ('LOSSSEGMENT',)),
    'LOSSFACTORMODEL': (('INTERCONNECTORID',), ('REGIONID',)),
}
# of these, the ones returned only for interconnectors of the dispatch of the interval
DISPATCHED = {'INTERCONNECTORCONSTRAINT', 'LOSSMODEL', 'LOSSFACTORMODEL'}
# one set of rows per interval
DATED = {
    'DISPATCHREGIONSUM': ('REGIONID',), 'DISPATCHLOAD': ('DUID',), 'DISPATCHPRICE': ('REGIONID',),
    'DISPATCHCONSTRAINT': ('CONSTRAINTID',), 'DISPATCHINTERCONNECTORRES': ('INTERCONNECTORID',),
}
# records with a start date
STARTED = {'DUDETAILSUMMARY': 'DUID'}
# versions of constraints named by the dispatch of the interval: further columns that identify a row of a version
MATCHED = {
    'GENCONDATA': (), 'SPDREGIONCONSTRAINT': ('REGIONID', 'BIDTYPE'),
    'SPDCONNECTIONPOINTCONSTRAINT': ('CONNECTIONPOINTID', 'BIDTYPE'), 'SPDINTERCONNECTORCONSTRAINT': ('INTERCONNECTORID',),
}
WHOLE = {'INTERCONNECTOR': ('INTERCONNECTORID',)}
DATES = {'SETTLEMENTDATE', 'EFFECTIVEDATE', 'START_DATE', 'END_DATE', 'GENCONID_EFFECTIVEDATE', 'INTERVAL_DATETIME'}
VERSIONS = {'VERSIONNO', 'GENCONID_VERSIONNO'}
TEXT = {'DUID', 'REGIONID', 'CONSTRAINTID', 'INTERCONNECTORID', 'LINKID', 'GENCONID', 'BIDTYPE', 'CONNECTIONPOINTID', 'LOSSSEGMENT',
        'DISPATCHTYPE', 'SCHEDULE_TYPE', 'CONSTRAINTTYPE', 'REGIONFROM', 'REGIONTO', 'FROMREGION', 'TOREGION', 'ICTYPE'}
