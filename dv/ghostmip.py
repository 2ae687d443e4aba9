"""Contract of the mip package as far as InterfaceToSolver uses it.

A Model keeps a log of what was asked of it.  Variables and constraints are identified by their name (str(id), an injective
name, so by the id); what the solver reports about them are unknown functions of the id: optimal value, dual price, slack,
right hand side.  optimize() returns an arbitrary status."""
import types
import z3
from . import core, table
from .core import E, SNum, SRef, STerm, SV, Unsupported, boolof, zb, b_and

STATUS = ['OPTIMAL', 'ERROR', 'INFEASIBLE', 'UNBOUNDED', 'FEASIBLE', 'INT_INFEASIBLE', 'NO_SOLUTION_FOUND', 'LOADED', 'CUTOFF', 'OTHER']
HASCON = z3.Function('in_model', z3.IntSort(), z3.BoolSort())
VALUE = {m: z3.Function('value_' + m, z3.IntSort(), z3.RealSort()) for m in ('1', '2')}
DUAL = {m: z3.Function('dual_' + m, z3.IntSort(), z3.RealSort()) for m in ('1', '2')}
SLACK = {m: z3.Function('slack_' + m, z3.IntSort(), z3.RealSort()) for m in ('1', '2')}
RHS = {m: z3.Function('rhs_' + m, z3.IntSort(), z3.RealSort()) for m in ('1', '2')}
INF = float('inf')


class Const:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


class Effect:
    def __init__(self, kind, **a):
        self.kind = kind
        self.__dict__.update(a)
        self.loops = list(E.loop_stack)      # the generic elements of the loops it happens in
        self.rows = list(E.ctx_stack)        # the generic rows it happens for


class Lin:
    """sum of terms: [(binders, guard, STerm)]"""

    def __init__(self, items):
        self.items = items

    def __le__(self, o):
        return Con(self, '<=', o)

    def __ge__(self, o):
        return Con(self, '>=', o)

    def __eq__(self, o):
        return Con(self, '=', o)

    __hash__ = None


class Con:
    def __init__(self, lin, type_, rhs):
        self.lin, self.type, self.rhs = lin, type_, rhs


class Obj:
    def __init__(self, lin):
        self.lin = lin


def xsum(x):
    items = table.seq_items(x)
    if items is None:
        items = [((), [], t) for t in x]
    for b, g, t in items:
        if not isinstance(t, (STerm, SRef)):
            raise Unsupported('xsum of %s' % type(t).__name__)
    return Lin(items)


def key_of(name):
    if not isinstance(name, SRef) or name.tag != 'name':
        raise Unsupported('name of a variable or constraint: %r' % (name,))
    return name.e


class Var:
    def __init__(self, model, key):
        self.__dict__.update(model=model, key=key)

    @property
    def x(self):
        return SNum(VALUE[self.model.which](self.key))

    def __setattr__(self, n, v):
        if n not in ('lb', 'ub'):
            raise Unsupported('assignment to Var.%s' % n)
        self.model.log.append(Effect('bound', key=self.key, which=n, value=v))

    def __getattr__(self, n):
        raise Unsupported('Var.%s' % n)


class Constr:
    def __init__(self, model, key):
        self.__dict__.update(model=model, key=key)

    @property
    def slack(self):
        return SNum(SLACK[self.model.which](self.key))

    @property
    def pi(self):
        return SNum(DUAL[self.model.which](self.key))

    @property
    def rhs(self):
        return SNum(RHS[self.model.which](self.key))

    def __setattr__(self, n, v):
        if n != 'rhs':
            raise Unsupported('assignment to Constr.%s' % n)
        self.model.log.append(Effect('rhs', key=self.key, value=v))

    def __getattr__(self, n):
        raise Unsupported('Constr.%s' % n)


class Settings:
    def __getattr__(self, n):
        if n not in ('set_mip_gap_abs', 'set_mip_gap', 'set_verbose'):
            raise Unsupported('solver.%s' % n)
        return lambda *a, **k: None


class Model:
    made = []

    def __init__(self, name='', sense='MIN', solver_name='', solver=None):
        if sense != 'MIN':
            raise Unsupported('sense of the model')
        Model.made.append(self)
        self.__dict__.update(which=str(len(Model.made)), log=[], solver=Settings(), solver_name=solver_name, settings={})

    def __setattr__(self, n, v):
        if n == 'objective':
            if not isinstance(v, Obj):
                raise Unsupported('objective')
            self.log.append(Effect('objective', lin=v.lin))
        elif n in ('verbose', 'lp_method'):
            self.settings[n] = v
        else:
            raise Unsupported('Model.%s = ' % n)

    def add_var(self, name='', lb=0.0, ub=INF, obj=0.0, var_type=None, column=None):
        if column is not None:
            raise Unsupported('column')
        var_type = CONTINUOUS if var_type is None else var_type
        self.log.append(Effect('var', name=name, lb=lb, ub=ub, obj=obj, type=var_type))
        return SRef('var', key_of(name)) if name != '' else None

    def add_constr(self, c, name='', priority=None):
        if not isinstance(c, Con):
            raise Unsupported('constraint %r' % (c,))
        self.log.append(Effect('constr', con=c, name=name))

    def add_sos(self, s, sos_type):
        items = table.seq_items(s)
        if items is None:
            raise Unsupported('ordered set')
        groups = [g for g in E.group_stack]
        self.log.append(Effect('sos', items=items, type=sos_type, groups=groups))

    def optimize(self, *a, **k):
        if a or k:
            raise Unsupported('optimize with limits')
        for s in STATUS[:-1]:
            if E.decide(E.fresh('status_' + s, z3.BoolSort())):
                break
        else:
            s = STATUS[-1]
        self.log.append(Effect('optimize', status=s))
        return getattr(OptimizationStatus, s)

    def var_by_name(self, name):
        return Var(self, key_of(name))

    def constr_by_name(self, name):
        k = key_of(name)
        return Constr(self, k) if E.decide(HASCON(k)) else None

    @property
    def status(self):
        st = [e.status for e in self.log if e.kind == 'optimize']
        if not st:
            raise Unsupported('status before optimize')
        return getattr(OptimizationStatus, st[-1])

    def __getattr__(self, n):
        raise Unsupported('Model.%s' % n)


class OptimizationStatus:
    pass


for _s in STATUS:
    setattr(OptimizationStatus, _s, Const(_s))
CONTINUOUS, BINARY, INTEGER = Const('CONTINUOUS'), Const('BINARY'), Const('INTEGER')


class LP_Method:
    DUAL, PRIMAL, AUTO, BARRIER = Const('DUAL'), Const('PRIMAL'), Const('AUTO'), Const('BARRIER')


def module():
    m = types.ModuleType('mip')
    Model.made = []
    m.Model, m.xsum, m.minimize = Model, xsum, Obj
    m.OptimizationStatus, m.LP_Method = OptimizationStatus, LP_Method
    m.CONTINUOUS, m.BINARY, m.INTEGER = CONTINUOUS, BINARY, INTEGER
    m.CBC, m.GUROBI = 'CBC', 'GUROBI'

    def __getattr__(n):
        raise Unsupported('mip.%s' % n)
    m.__getattr__ = __getattr__
    return m
