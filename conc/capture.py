"""Runs the real nempy on a scenario and captures the problems it hands to the solver."""
import os
import sys
import math
import copy
import contextlib
import io

REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'src'))
import warnings
warnings.filterwarnings('ignore')
import mip
import pandas as pd
import numpy as np

SNAPS = []
MODE = {'abort': False, 'status': None}


class Captured(BaseException):
    pass


class RecModel(mip.Model):
    """the real solver model; records special ordered sets and takes a snapshot at every optimize call"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.__dict__['rec_sos'] = []

    def add_sos(self, sos, sos_type):
        self.rec_sos.append((sos_type, [(v.name, float(w)) for v, w in sos]))
        return super().add_sos(sos, sos_type)

    def optimize(self, *a, **k):
        SNAPS.append(snapshot(self))
        if MODE['abort']:
            raise Captured()
        self.__dict__['rec_n'] = self.__dict__.get('rec_n', 0) + 1
        r = super().optimize(*a, **k)
        if MODE['status'] is not None:
            f = MODE['status'](len(SNAPS) - 1, r)
            if f is not None:
                r = f
        s = SNAPS[-1]
        s['status'] = str(r)
        if r == mip.OptimizationStatus.OPTIMAL:
            s['x'] = {v.name: v.x for v in self.vars}
            s['slack'] = {c.name: c.slack for c in self.constrs}
            try:
                s['pi'] = {c.name: c.pi for c in self.constrs}
            except Exception:
                s['pi'] = None
            s['objective'] = self.objective_value
        return r


def snapshot(m):
    obj = m.objective
    cost = {v.name: c for v, c in obj.expr.items()}
    V = {}
    for v in m.vars:
        V.setdefault(v.name, []).append(dict(lb=v.lb, ub=v.ub, type=v.var_type, obj=cost.get(v.name, 0.0)))
    cons = []
    for c in m.constrs:
        e = c.expr
        cons.append((c.name, {'<': '<=', '>': '>=', '=': '='}[e.sense], c.rhs,
                     {v.name: k for v, k in e.expr.items() if k != 0}))
    return dict(vars=V, cons=cons, sos=list(m.rec_sos), sense=m.sense, const=obj.const)


mip.Model = RecModel
try:
    mip.model.Model = RecModel
except Exception:
    pass

from nempy import markets  # noqa: E402
from spec import driver  # noqa: E402
from spec.tables import CRel, CCtx  # noqa: E402
from conc.scen import lossf  # noqa: E402

INTCOLS = {'end_mode', 'current_mode', 'loss_segment', 'generic_constraint_factor'}
STRCOLS = {'unit', 'region', 'service', 'dispatch_type', 'set', 'type', 'interconnector', 'link', 'to_region',
           'from_region'}


def frame(t):
    cols = {}
    for c in t['cols']:
        vals = [r[c] for r in t['rows']]
        if c == 'loss_function':
            cols[c] = [lossf(v) for v in vals]
        elif c in STRCOLS:
            cols[c] = pd.Series(vals, dtype=object)
        elif c in INTCOLS:
            cols[c] = np.array(vals, dtype=np.int64)
        else:
            cols[c] = np.array(vals, dtype=np.float64)
    df = pd.DataFrame(cols, columns=t['cols'])
    if t.get('index'):
        df.index = t['index']
    return df


def frames(sc):
    return {k: frame(t) for k, t in sc['tables'].items()}


def ctx_of(sc):
    T = {}
    for k, t in sc['tables'].items():
        rows = []
        for r in t['rows']:
            r = dict(r)
            if 'loss_function' in r:
                r['loss_function'] = lossf(r['loss_function'])
            if 'interconnector' in r and 'link' not in r:
                r['link'] = r['interconnector']
            rows.append(r)
        T[k] = CRel(k, rows, list(t['cols']))
    return CCtx(T, sc['cfg'])


def cfg_of(sc):
    cfg = dict(sc['cfg'])
    cfg['cost'] = {k: (frame(v) if isinstance(v, dict) else v) for k, v in cfg.get('cost', {}).items()}
    return cfg


def build(sc):
    return driver.build(markets, frames(sc), cfg_of(sc))


def dispatch(m, abort=True, status=None, **kw):
    """run dispatch; returns (snapshots, exception or None)"""
    SNAPS.clear()
    MODE['abort'] = abort
    MODE['status'] = status
    exc = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            m.dispatch(**kw)
    except Captured:
        pass
    except Exception as e:
        exc = e
    finally:
        MODE['abort'] = False
        MODE['status'] = None
    return list(SNAPS), exc


def problem(sc):
    """the dispatch problem of a scenario, as a canonical structure"""
    m = build(sc)
    snaps, exc = dispatch(m)
    if exc is not None:
        raise exc
    return m, canon(m, snaps[0])


def canon(m, snap):
    """name the solver variables by what they stand for"""
    names = {}
    clash = []
    for fam, df in m._decision_variables.items():
        for rec in df.to_dict('records'):
            n = str(rec['variable_id'])
            if n in names:
                clash.append((n, fam, names[n][0]))
            names[n] = (fam, rec)
    out = dict(snap)
    out['names'] = names
    out['clash'] = clash
    return out
