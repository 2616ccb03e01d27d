"""A private copy of a module of /repo, re-read from its current source on every run, in which some global names are replaced by
contract stand-ins (the functions under contract are executed unchanged, only the names they call are bound to contracts)."""
import importlib
import importlib.util
import sys
import types


def clone(modname, after=(), **names):
    spec = importlib.util.find_spec(modname)
    src = open(spec.origin).read()
    m = types.ModuleType(modname + '__vc')
    m.__package__ = modname if spec.submodule_search_locations else modname.rpartition('.')[0]
    if spec.submodule_search_locations:
        m.__path__ = list(spec.submodule_search_locations)
    m.__file__ = spec.origin
    exec(compile(src, spec.origin, 'exec'), m.__dict__)
    for k, v in list(sys.modules.items()):   # submodules are attributes of a package
        if k.startswith(modname + '.') and '.' not in k[len(modname) + 1:]:
            m.__dict__.setdefault(k[len(modname) + 1:], v)
    m.__dict__.update(names)
    return m
