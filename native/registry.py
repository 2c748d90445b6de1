import importlib

MODULES = ('p_file', 'p_pattern', 'p_dialplan', 'p_var', 'p_app', 'p_misc')


def all_props():
    out = {}
    for m in MODULES:
        mod = importlib.import_module('.' + m, __package__)
        for p in mod.PROPS:
            out[p.id] = p
    return out


def load(pid):
    return all_props()[pid]()
