"""Contracts on the functions of /repo, one module per property."""
import importlib

REGISTRY = {}


class Contract(object):
    def __init__(self, prop, name, fn, funcs, covers, bound, assumes,
                 timeout, callees):
        self.prop, self.name, self.fn = prop, name, fn
        self.funcs, self.covers, self.bound = funcs, covers, bound
        self.assumes, self.timeout = assumes, timeout
        self.callees = callees


def contract(prop, name, funcs=(), covers=('post',), bound=None, assumes=(),
             timeout=None, callees=()):
    """Register a contract run.

    funcs: the functions whose bodies are verified.  callees: functions used
    through their contracts.  covers: points the run must reach on some
    feasible path, else nothing was proved.  bound: None for an unbounded
    proof, else the text of the bound.
    """
    def deco(fn):
        REGISTRY.setdefault(prop, []).append(Contract(
            prop, name, fn, list(funcs), list(covers), bound, list(assumes),
            timeout, list(callees)))
        return fn
    return deco


def load(prop):
    importlib.import_module('contracts.' + prop.lower())
    return REGISTRY.get(prop, [])
