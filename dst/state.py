"""Process restart: the package's module-level and class-level state as it was
after start-up, put back before every run, so that one run is one fresh process
whatever ran before it in this worker.
"""
import collections
import sys
import types

import numpy as np

PKG = 'pytracer'
_SKIP = {'__dict__', '__weakref__', '__doc__', '__module__', '__builtins__', '__loader__', '__spec__', '__file__',
         '__cached__', '__path__', '__name__', '__package__', '__abstractmethods__', '_abc_impl', '_abc_registry',
         '_abc_cache', '_abc_negative_cache', '_abc_negative_cache_version', '__pypy_cache__', '__qualname__'}
_MISS = object()
_CONT = (dict, list, set, bytearray, collections.deque)


def _ours(mod):
    return isinstance(mod, str) and (mod == PKG or mod.startswith(PKG + '.'))


class Snapshot(object):
    def __init__(self):
        self.seen = {}
        self.spaces = []     # (owner, is_class, {name: value})
        self.conts = []      # (container, saved copy)
        self.caches = []     # functools caches
        self.keep = []
        for name, mod in sorted(sys.modules.items()):
            if _ours(name) and isinstance(mod, types.ModuleType):
                self.space(mod, vars(mod), False)

    def space(self, owner, d, is_class):
        saved = {k: v for k, v in list(d.items()) if k not in _SKIP and not k.startswith('_dst_')}
        self.spaces.append((owner, is_class, saved))
        for k, v in list(saved.items()):
            self.visit(v, 0)

    def visit(self, v, depth):
        if v is None or isinstance(v, (int, float, str, bytes, complex, types.ModuleType)) or depth > 6:
            return
        if id(v) in self.seen:
            return
        if isinstance(v, type):
            if _ours(getattr(v, '__module__', None)):
                self.seen[id(v)] = v
                self.space(v, vars(v), True)
            return
        self.seen[id(v)] = v
        if isinstance(v, np.ndarray):
            if v.dtype == object:
                self.conts.append((v, v.copy()))
                for x in v.flat:
                    self.visit(x, depth + 1)
            elif v.flags.writeable:
                self.conts.append((v, v.copy()))
        elif isinstance(v, _CONT):
            self.conts.append((v, v.copy()))
            for x in list(v.values() if isinstance(v, dict) else v):
                self.visit(x, depth + 1)
        elif isinstance(v, (tuple, frozenset)):
            for x in v:
                self.visit(x, depth + 1)
        elif isinstance(v, types.FunctionType):
            if not _ours(v.__module__):
                return
            self.conts.append((v.__dict__, dict(v.__dict__)))
            for x in list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values()) + list(v.__dict__.values()):
                self.visit(x, depth + 1)
            for c in v.__closure__ or ():
                try:
                    self.visit(c.cell_contents, depth + 1)
                except ValueError:
                    pass
        elif isinstance(v, (staticmethod, classmethod)):
            self.visit(v.__func__, depth)
        elif isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                self.visit(f, depth)
        elif hasattr(v, 'cache_clear') and hasattr(v, '__wrapped__'):
            self.caches.append(v)
            self.visit(v.__wrapped__, depth)
        elif _ours(type(v).__module__) and hasattr(v, '__dict__'):
            self.conts.append((v.__dict__, dict(v.__dict__)))
            for x in list(v.__dict__.values()):
                self.visit(x, depth + 1)

    def restore(self):
        for owner, is_class, saved in self.spaces:
            d = vars(owner)
            for k in list(d):
                if k in saved:
                    if d[k] is not saved[k]:
                        self.set(owner, is_class, k, saved[k])
                elif k not in _SKIP and not k.startswith('_dst_'):
                    v = d[k]
                    # a submodule imported since stays imported
                    if not isinstance(v, types.ModuleType):
                        delattr(owner, k)
            for k in saved:
                if k not in d:
                    self.set(owner, is_class, k, saved[k])
        for c, saved in self.conts:
            if isinstance(c, np.ndarray):
                np.copyto(c, saved)
            elif isinstance(c, dict):
                if len(c) != len(saved) or any(c.get(k, _MISS) is not v for k, v in saved.items()):
                    c.clear()
                    c.update(saved)
            elif isinstance(c, list):
                if len(c) != len(saved) or any(a is not b for a, b in zip(c, saved)):
                    c[:] = saved
            elif isinstance(c, set):
                if c != saved:
                    c.clear()
                    c.update(saved)
            elif isinstance(c, bytearray):
                if c != saved:
                    c[:] = saved
            elif len(c) != len(saved) or any(a is not b for a, b in zip(c, saved)):
                c.clear()
                c.extend(saved)
        for f in self.caches:
            f.cache_clear()

    @staticmethod
    def set(owner, is_class, k, v):
        if is_class:
            setattr(owner, k, v)
        else:
            vars(owner)[k] = v


current = None


def snapshot():
    """Take the present state as that of a freshly started process."""
    global current
    current = Snapshot()


def restart():
    """Continue as a freshly started process would."""
    if current is not None:
        current.restore()
