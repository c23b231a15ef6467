"""Simulated processes: fresh copies of the library under test.

A new process is modelled by executing the modules of `diamondback` (and, where asked
for, of `loguru`) anew: every class variable, lock, handler table and cache starts from
scratch, exactly as in a newly started interpreter.  Only durable data - encoded strings,
text made durable by a stream - passes from one simulated process to the next.
"""

import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import marshal
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
_code = {}
_specs = {}


def _source(name):
    if name in _specs:
        return _specs[name]
    if name.split(".")[0] == "diamondback":
        base = os.path.join(REPO, *name.split("."))
        for path, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.exists(path):
                _specs[name] = (path, pkg)
                return _specs[name]
        return None
    for entry in sys.path:
        if not entry or "packages" not in entry:
            continue
        base = os.path.join(entry, *name.split("."))
        for path, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.exists(path):
                _specs[name] = (path, pkg)
                return _specs[name]
    return None


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _code.get(self.path)
        if code is None:
            with open(self.path, "rb") as f:
                code = _code[self.path] = marshal.dumps(compile(f.read(), self.path, "exec", dont_inherit=True))
        # New code objects each time: tracing leaves its mark on code objects, and a run must not
        # depend on the runs before it.
        exec(marshal.loads(code), module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    roots = ()

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] not in self.roots:
            return None
        found = _source(name)
        if not found:
            return None
        file, pkg = found
        spec = importlib.util.spec_from_file_location(name, file, loader=_Loader(file), submodule_search_locations=[os.path.dirname(file)] if pkg else None)
        return spec


_finder = _Finder()
_version = {}


def _patch_version():
    import importlib.metadata as m

    if getattr(m.version, "_sim", False):
        return
    real = m.version

    def version(name):
        if name not in _version:
            _version[name] = real(name)
        return _version[name]

    version._sim = True
    m.version = version


class Process:
    """One simulated process: its own copies of the modules under `roots`."""

    def __init__(self, roots=("diamondback",), substitute=None):
        _patch_version()
        self.roots = roots
        self.modules = {}
        self.substitute = substitute or {}
        self._saved = None
        with self:
            import atexit

            subs, fork, register = {}, os.register_at_fork, atexit.register
            os.register_at_fork = lambda **k: None
            atexit.register = lambda f, *a, **k: f
            for name, module in self.substitute.items():
                subs[name] = sys.modules.get(name)
                sys.modules[name] = module
            try:
                self.diamondback = importlib.import_module("diamondback")
            finally:
                os.register_at_fork, atexit.register = fork, register
                for name, module in subs.items():
                    if module is None:
                        sys.modules.pop(name, None)
                    else:
                        sys.modules[name] = module

    def _mine(self, name):
        return name.split(".")[0] in self.roots

    def __enter__(self):
        if self._saved is not None:
            raise RuntimeError("process entered twice")
        self._saved = {k: v for k, v in sys.modules.items() if self._mine(k)}
        for k in self._saved:
            del sys.modules[k]
        sys.modules.update(self.modules)
        _finder.roots = self.roots
        if _finder not in sys.meta_path:
            sys.meta_path.insert(0, _finder)
        return self

    def __exit__(self, *a):
        self.modules = {k: v for k, v in sys.modules.items() if self._mine(k)}
        for k in self.modules:
            del sys.modules[k]
        sys.modules.update(self._saved)
        self._saved = None
        _finder.roots = ()
        return False

    def __getattr__(self, name):
        if name.startswith("_") or name in ("diamondback", "modules"):
            raise AttributeError(name)
        return getattr(self.diamondback, name)


class ModuleProxy(types.ModuleType):
    """Looks like a module, with some attributes replaced."""

    def __init__(self, real, **replace):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(replace)

    def __getattr__(self, name):
        return getattr(self.__dict__["_real"], name)


_memo = {}


def fast_design():
    """Memoises two pure numerical functions by content, so that a simulated process can
    evaluate the 3840 tap polyphase bank in milliseconds.  The code that calls them, and
    decides whether the bank is evaluated at all, is the real one."""
    import numpy
    import scipy.signal

    if getattr(numpy.polyval, "_sim", False):
        return
    firwin, polyval = scipy.signal.firwin, numpy.polyval
    _sums = {}

    def fast_firwin(*a, **k):
        try:
            key = ("f", repr(a), repr(sorted(k.items())))
        except Exception:
            return firwin(*a, **k)
        if key not in _memo:
            v = firwin(*a, **k)
            if len(v) < 1024:
                return v
            _memo[key] = v
        return _memo[key].copy()

    def fast_polyval(p, x):
        if isinstance(p, numpy.ndarray) and p.size >= 1024 and numpy.isscalar(x):
            key = ("p", hash(p.tobytes()), p.size, p.dtype.str, complex(x))
            if key not in _memo:
                _memo[key] = polyval(p, x)
            return _memo[key]
        return polyval(p, x)

    fast_polyval._sim = True
    scipy.signal.firwin = fast_firwin
    numpy.polyval = fast_polyval


def preload():
    """Imports everything outside the simulated processes once, before anything is substituted."""
    import importlib as il

    for name in ("numpy", "scipy.signal", "sklearn.mixture", "requests", "pandas", "loguru", "multiprocessing.queues", "logging.handlers", "asyncio"):
        il.import_module(name)
    for k in [k for k in sys.modules if k.split(".")[0] == "loguru"]:
        del sys.modules[k]
    Process(("diamondback", "loguru"))
    Process()
    import functools
    import sysconfig

    if not getattr(sysconfig.get_paths, "_sim", False):
        real = functools.lru_cache(None)(sysconfig.get_path)

        def get_path(name, scheme=None):
            return real(name) if scheme is None else real(name, scheme)

        paths = functools.lru_cache(None)(sysconfig.get_paths)

        def get_paths(*a, **k):
            return dict(paths(*a)) if not k else sysconfig._get_paths(*a, **k)

        sysconfig._get_paths = sysconfig.get_paths
        get_paths._sim = True
        sysconfig.get_paths, sysconfig.get_path = get_paths, get_path

    # The first use of byte code tracing in an interpreter differs from every later one.
    def local(frame, event, arg):
        return local

    def top(frame, event, arg):
        frame.f_trace_opcodes = True
        return local

    for _ in range(3):
        sys.settrace(top)
        (lambda: [i for i in range(3)])()
        sys.settrace(None)
    import gc

    gc.collect()
    gc.freeze()
