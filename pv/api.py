"""Contracts: one text, run symbolically against the rewritten source (all inputs) and concretely
against the installed package (replay and cross-check)."""
REG = []


class Contract:
    def __init__(self, pid, name, fn, targets, opts):
        self.pid, self.name, self.fn, self.targets, self.opts = pid, name, fn, targets, opts

    @property
    def key(self):
        return self.pid + "." + self.name


def contract(pid, *targets, **opts):
    """targets: functions of /repo under this contract ("spectrum.Spectrum.convert_to").
    opts: kind='proof' | 'bounded' (symbolic values, bounded shapes) | 'concrete' (bounded stand-in);
    n: concrete cross-check runs, budget: seconds for the verifier"""
    def deco(fn):
        REG.append(Contract(pid, fn.__name__, fn, targets, opts))
        return fn
    return deco


class Reject(Exception):
    """the drawn input does not satisfy the precondition"""


class Fail(Exception):
    def __init__(self, label, info=""):
        Exception.__init__(self, label + ((": " + info) if info else ""))
        self.label, self.info = label, info


class Out:
    """result of a call: value, or the exception it raised"""
    __slots__ = ("ok", "value", "exc", "tb")

    def __init__(self, ok, value=None, exc=None, tb=""):
        self.ok, self.value, self.exc, self.tb = ok, value, exc, tb

    def raised(self, *types):
        return (not self.ok) and isinstance(self.exc, types)

    def show(self):
        return "returned" if self.ok else "raised %s: %s" % (type(self.exc).__name__, str(self.exc)[:200])


def load_contracts():
    import importlib
    import os
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    import sys
    root = os.path.dirname(d)
    if root not in sys.path:
        sys.path.insert(0, root)
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("contracts." + f[:-3])
    return REG
