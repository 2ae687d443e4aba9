"""What each check claims: level, trusted base, assumptions (written into the evidence)."""
TRUSTED = [
    'z3 4.x as back end solver (python bindings of /opt/veriftools/pyvenv)',
    'the symbolic semantics of the pandas/numpy operations in dv/table.py (every check also runs the real code on real '
    'pandas against the same specification)',
    'floating point arithmetic treated as real arithmetic',
    'CPython, and the mechanical source rewriting of dv/loader.py (empty dict display, single-generator comprehension)',
]

SOLVER = 'the solver (CBC through mip) returns an optimum of the problem it is given; the market proofs use the contract of ' \
         'InterfaceToSolver, and InterfaceToSolver is proved (dv/groups_solver.py) to meet it over the contract of the mip ' \
         'package written in dv/ghostmip.py, which is assumed (mip is a dependency)'
PRE = 'input tables satisfy the documented preconditions stated in dv/mkt.py (keys unique, bids made for entries of the unit ' \
      'table, both entries of a bidirectional unit agree on initial output, ...); the validators themselves are decided under C17'
SQL = 'sqlite executes the statements of mms_db.py as dv/sqltab.py does (SELECT, inner joins, WHERE comparisons, GROUP BY with one ' \
      'MAX or MIN, temporary tables); dates are text of one zero-padded format, version numbers are stored as numbers, key ' \
      'columns are never missing (the sampled check runs the same queries on the real sqlite)'
XML = 'xmltodict gives a list for repeated elements and the element itself for a single one, attributes as text under @name; the ' \
      'attributes of a bid record are all, those of its kind, all but one or a single one (enumerated), an initial condition ' \
      'collection names each condition at most once and is given in one order and its reverse with other entries around it'
MARKET = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16',
          'C18', 'C19'}


def trusted(prop):
    return []


def level(prop):
    from dv import proofs
    return 'proof' if proofs.groups(prop) else 'exploration'


def assumptions(prop):
    return [PRE, SOLVER] if prop in MARKET else {'C25': [SQL], 'C27': [XML]}.get(prop, [])


def rule(prop):
    return 'seeded random tables of the documented shapes, solved or captured with the real code, judged by spec/; a case ' \
           'counts when it builds and reaches the judgement'
