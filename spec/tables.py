"""Concrete tables with the interface the specifications use."""
import math


class CRow:
    __slots__ = ('_d',)

    def __init__(self, d):
        self._d = d

    def __getattr__(self, c):
        try:
            return self._d[c]
        except KeyError:
            raise AttributeError(c)

    def __getitem__(self, c):
        return self._d[c]

    def opt(self, c, default):
        return self._d.get(c, default)

    def hascol(self, c):
        return c in self._d


class CRel:
    def __init__(self, name, rows, cols=None):
        self.name = name
        self.rows = [CRow(r) for r in rows]
        self.cols = cols if cols is not None else (list(rows[0].keys()) if rows else [])

    def _find(self, key, vals):
        ix = self.__dict__.setdefault('_ix', {})
        if key not in ix:
            d = ix[key] = {}
            for r in self.rows:
                d.setdefault(tuple(r[c] for c in key), []).append(r)
        return ix[key].get(tuple(vals), [])

    def has(self, key, vals):
        return bool(self._find(key, vals))

    def get(self, key, vals):
        f = self._find(key, vals)
        return f[0] if f else None

    def hascol(self, c):
        return c in self.cols


class CCtx:
    def __init__(self, tables, cfg):
        self.tables = tables
        self.cfg = cfg

    def t(self, name):
        return self.tables.get(name)
