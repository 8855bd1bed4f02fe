"""Registry of properties: which module generates and runs the cases of each, and which specification judges them."""
import importlib

MODULES = ["solve", "parse", "compose", "optimize", "pipeline", "data", "ruletext", "generate", "cache", "dialog", "grammartext"]

_reg = None


def registry():
    global _reg
    if _reg is None:
        _reg = {}
        for m in MODULES:
            mod = importlib.import_module("props." + m)
            _reg.update(mod.PROPS)
    return _reg


def runner(prop):
    return registry()[prop]["run"]
