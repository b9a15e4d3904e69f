"""Obligation registry, shared by the symbolic side and the concrete replay side."""
OBS = {}


class Ob:
    def __init__(self, prop, name, fn, tier, funcs, bounds, max_paths, note, weight, lax):
        self.weight = weight
        self.lax = lax       # explore branches whose feasibility is not decided quickly (sound, possibly more paths)
        self.prop, self.name, self.fn, self.tier = prop, name, fn, tier
        self.funcs, self.bounds, self.max_paths, self.note = funcs, bounds, max_paths, note

    @property
    def id(self):
        return self.prop + "/" + self.name


def ob(prop, name, tier="quick", funcs=(), bounds="", max_paths=400, note="", weight=1, lax=False):
    def deco(fn):
        o = Ob(prop, name, fn, tier, tuple(funcs), bounds, max_paths, note, weight, lax)
        if o.id in OBS:
            raise RuntimeError("duplicate obligation " + o.id)
        OBS[o.id] = o
        return fn
    return deco


def load_all():
    import importlib
    import os
    import sys
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ob")
    if os.path.dirname(d) not in sys.path:
        sys.path.insert(0, os.path.dirname(d))
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("ob." + f[:-3])
    return OBS
