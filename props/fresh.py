"""Independent copies of the library, with the module state of a program that has just started."""
import builtins
import importlib.util
import sys
import types

CODE = {}


def _ours():
    return [n for n in sys.modules if n == 'paragami' or n.startswith('paragami.')]


class _Loader:
    """executes the real source; compiled once per process"""

    def __init__(self, spec, shim):
        self.spec, self.shim = spec, shim

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        path = self.spec.origin
        if path not in CODE:
            with open(path) as f:
                CODE[path] = compile(f.read(), path, 'exec')
        if self.shim is not None:
            m.__dict__['float'] = self.shim
        exec(CODE[path], m.__dict__)


class _Finder:
    def __init__(self, shim):
        self.shim = shim

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] != 'paragami':
            return None
        for f in sys.meta_path:
            if f is self:
                continue
            s = f.find_spec(name, path, target)
            if s is not None and s.origin:
                t = importlib.util.spec_from_file_location(
                    name, s.origin, loader=_Loader(s, self.shim),
                    submodule_search_locations=s.submodule_search_locations)
                return t
        return None


def copy(h):
    """a fresh paragami package (its submodules are its attributes)"""
    saved = {n: sys.modules[n] for n in _ours()}
    keep = saved.get('paragami._version')
    shim = None
    if h.symbolic:
        from engine import npsym
        shim = npsym.FloatShim
    f = _Finder(shim)
    for n in saved:
        del sys.modules[n]
    if keep is not None:
        sys.modules['paragami._version'] = keep
    sys.meta_path.insert(0, f)
    try:
        import paragami
        m = paragami
    finally:
        sys.meta_path.remove(f)
        for n in _ours():
            del sys.modules[n]
        sys.modules.update(saved)
    assert isinstance(m, types.ModuleType) and m is not saved.get('paragami')
    return m
