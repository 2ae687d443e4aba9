"""Loops over unbounded sequences, verified by invariant.

A Loop object stands for the sequence a for statement of the real code runs over.  Its iterator cuts the loop: when the loop is
entered the invariant is checked on the loop's state, then the path splits into

* one arbitrary iteration: the state is replaced by an arbitrary one that satisfies the invariant, the body runs on an
  arbitrary element, and the body's contract is checked when it asks for the next element;
* the exit: the state is replaced by an arbitrary one that satisfies the invariant, and the code after the loop runs.

The state is the local variables of the frame that runs the loop; they are read and replaced through the frame, the text of
the function is not changed."""
import ctypes
import sys
import z3
from . import core
from .core import E, Unsupported, ContractEnd


def set_locals(frame, vals):
    d = frame.f_locals
    for k, v in vals.items():
        if k not in d:
            raise Unsupported('no local variable %s' % k)
        d[k] = v
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(0))


class Loop:
    """enter(locals) -> names of the state; havoc(names, more) -> (new values, token), before an iteration or (more false) at the
    exit; element(token) -> loop element; step(locals, token) checks the body's contract; leave(token) is called at the exit"""

    def __init__(self, enter, havoc, element, step, leave=None, where=None):
        self.enter, self.havoc, self.element, self.step, self.leave, self.where = enter, havoc, element, step, leave, where

    def __iter__(self):
        return _It(self)

    def symenumerate(self, start=0):
        return _It(self, True)

    def symlen(self):
        n = E.fresh('length', z3.IntSort())
        E.assume(n >= 0)
        return core.SNum(n)

    def __getattr__(self, n):
        raise Unsupported('%s of a sequence without bound' % n)


class _It:
    def __init__(self, loop, numbered=False):
        self.loop, self.numbered, self.state = loop, numbered, None

    def __iter__(self):
        return self

    def __next__(self):
        f = sys._getframe(1)
        if '/nempy/' not in f.f_code.co_filename:
            raise Unsupported('the loop is not run by a for statement of the code')
        lp = self.loop
        if lp.where and f.f_code.co_name not in lp.where:
            raise Unsupported('unexpected loop in %s' % f.f_code.co_name)
        if self.state is None:
            names = lp.enter(dict(f.f_locals))
            more = E.decide(E.fresh('iterate', z3.BoolSort()))
            vals, tok = lp.havoc(names, more)
            self.state = (names, tok)
            self.other = {k: (v, shallow(v)) for k, v in f.f_locals.items() if k not in names.values()}
            set_locals(f, vals)
            if not more:
                if lp.leave:
                    lp.leave(tok)
                raise StopIteration
            x = lp.element(tok)
            if self.numbered:
                i = E.fresh('index', z3.IntSort())
                E.assume(i >= 0)
                return core.SNum(i), x
            return x
        for k, (v, c) in self.other.items():
            if f.f_locals.get(k) is not v or shallow(v) != c:
                raise Unsupported('the loop also changes %s' % k)
        lp.step({n: f.f_locals[v] for n, v in self.state[0].items()}, self.state[1])
        raise ContractEnd('iteration')


def shallow(v):
    if isinstance(v, (list, tuple, set)):
        return [id(x) for x in v]
    if isinstance(v, dict):
        return [(k if isinstance(k, str) else id(k), id(x)) for k, x in v.items()]
    return None


class Text(core.SStr):
    """a text that denotes a number"""
    __slots__ = ('num',)

    def __init__(self, base):
        core.SStr.__init__(self, E.fresh(base, z3.IntSort()))
        self.num = real(base)


def real(base):
    return core.SNum(E.fresh(base, z3.RealSort()))


def number(v):
    """numeric reading of a text or number"""
    return v.num if isinstance(v, Text) else core.asnum(v)
