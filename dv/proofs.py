"""Registry of proof groups per property."""
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

from . import core
from .core import E

GROUPS = {}


SLOW = set()


def group(prop, name, slow=False):
    """slow: discharged by the thorough tier only"""
    def deco(f):
        if slow:
            SLOW.add((prop, name))
        GROUPS.setdefault(prop, {})[name] = f
        return f
    return deco


def groups(prop, tier='thorough'):
    load()
    return [g for g in GROUPS.get(prop, {}) if tier != 'quick' or (prop, g) not in SLOW]


def run(prop, name, tier):
    load()
    return GROUPS[prop][name](tier)


_loaded = []


def load():
    if not _loaded:
        from . import groups_market, groups_hist, groups_rhs, groups_cache, groups_solver, groups_valid, groups_db, groups_xml, loader
        loader.precompile()
        _loaded.append(1)


SEM = mp.get_context('fork').Semaphore(int(os.environ.get('VERIF_JOBS', '7')))


def _clear():
    E.obligations.clear()
    E.assumptions.clear()
    E.stats.update(queries=0, solver_s=0.0, obligations=0)


def _classes():
    from . import table, loader, groups_xml
    return {n for m in (core, table, loader, groups_xml) for n, c in vars(m).items() if isinstance(c, type)}


def _path(fn, prefix, q, functions, no_raise):
    """one path in a process of its own"""
    with SEM:
        try:
            _clear()
            kind, v, new = E.run_path(fn, prefix)
            kk = kind if kind != 'raise' else 'raise %s: %s' % (type(v).__name__, str(v)[:120])
            if kind == 'raise' and no_raise:
                tb = traceback.extract_tb(v.__traceback__)
                # an operation the symbolic classes lack says nothing about the code
                lacks = isinstance(v, (TypeError, AttributeError, NotImplementedError)) and any(
                    re.search(r'\b%s\b' % c, str(v)) for c in _classes())
                # a loop body run on an arbitrary state does not know the names earlier iterations would have assigned
                lacks = lacks or isinstance(v, UnboundLocalError)
                by_code = tb and '/nempy/' in tb[-1].filename and not lacks
                where = [f for f in tb if '/nempy/' in f.filename][-1:]
                E.record('valid input raises no exception', 'refuted' if by_code else 'unknown',
                         '%s at %s' % (kk, ['%s:%s %s' % (f.filename, f.lineno, f.name) for f in where]))
            if kind in ('raise', 'unsupported') and '-t' in sys.argv:
                traceback.print_exception(v)
            if kind == 'unsupported':
                kk = 'unsupported'
                E.record('a path within reach of the verifier', 'unknown', 'Unsupported: %s' % v)
            obs = [dict(name=o.name, status=o.status, time=round(o.secs, 3), info=o.detail, backend=o.backend, model=o.model)
                   for o in E.obligations]
            q.put((kk, obs, new, E.stats['queries'], E.stats['solver_s'], sorted(E.assumptions),
                   sorted(functions() if callable(functions) else functions), None))
        except core.Unsupported as e:
            q.put((None, [], [], 0, 0.0, [], [], 'Unsupported: %s' % e))
            if '-t' in sys.argv:
                traceback.print_exc()
        except BaseException as e:
            q.put((None, [], [], 0, 0.0, [], [], '%s: %s' % (type(e).__name__, e)))


def explore(fn, functions=(), need_return=True, limit=600, no_raise=True):
    """run fn symbolically on every path (one process per path), return (obligations, meta)"""
    ctx = mp.get_context('fork')
    todo, running = [[]], []
    kinds, obs, ass, funs = {}, [], set(), set()
    queries, secs, n, lost = 0, 0.0, 0, 0
    while todo or running:
        while todo and len(running) < 8:
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_path, args=(fn, todo.pop(), q, functions, no_raise))
            p.start()
            running.append((p, q))
        time.sleep(0.01)
        for it in list(running):
            p, q = it
            if q.empty():
                if p.is_alive() or not q.empty():
                    continue
                raise core.Unsupported('a path process died')
            kk, o, new, qs, ss, aa, ff, err = q.get()
            p.join()
            running.remove(it)
            if err:
                for p2, _ in running:
                    p2.kill()
                raise core.Unsupported(err)
            n += 1
            lost += kk == 'unsupported'
            if lost > 12 and not any(x['status'] == 'refuted' for x in obs):
                for p2, _ in running:
                    p2.kill()
                raise core.Unsupported(o[-1]['info'])
            if n > limit:
                for p2, _ in running:
                    p2.kill()
                raise core.Unsupported('too many paths')
            todo.extend(new)
            if kk != 'infeasible':
                kinds[kk] = kinds.get(kk, 0) + 1
            obs += o
            queries += qs
            secs += ss
            ass.update(aa)
            funs.update(ff)
    if need_return:
        ok = any(k in ('return', 'end') for k in kinds)
        obs.append(dict(name='the contract is not vacuous: a path satisfies the precondition and reaches the postcondition',
                        status='proved' if ok else 'unknown', time=0.0, info='' if ok else repr(kinds), backend='z3'))
    meta = dict(functions=sorted(funs), paths=kinds, solver_queries=queries, solver_s=round(secs, 1),
                engine_assumptions=sorted(ass))
    return obs, meta


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    from dv import proofs
    prop = sys.argv[1]
    want = [a for a in sys.argv[2:] if not a.startswith('-')]
    for g in want or proofs.groups(prop):
        t = time.time()
        try:
            obs, meta = proofs.run(prop, g, 'quick')
        except BaseException as e:
            print(g, 'ERROR', type(e).__name__, e)
            if '-t' in sys.argv:
                traceback.print_exc()
            continue
        n = sum(o['status'] == 'proved' for o in obs)
        print('%s: %d/%d proved, %.1fs %s' % (g, n, len(obs), time.time() - t, meta['paths']))
        for o in obs:
            if o['status'] != 'proved' or '-a' in sys.argv:
                print('   ', o['status'], o['name'], o['time'], str(o['info'])[:1200 if '-v' in sys.argv else 0])
