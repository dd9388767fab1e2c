"""Load the package under test from /repo's current source with stand-in libraries.

Every module is compiled from its source file as it is now and executed with its own builtins, so
that the real code runs unmodified while `math`, `numpy`, `float` ... are symbolic.
"""
from __future__ import annotations
import builtins
import os
import sys
import types

from . import shims

REPO = os.environ.get("VSYM_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = "pymap3d"

MON_TOOL = 4
FUNCS = set()


def start_monitor():
    """record which functions of the package were executed symbolically"""
    mon = sys.monitoring
    if mon.get_tool(MON_TOOL) is None:
        mon.use_tool_id(MON_TOOL, "vsym")

        def cb(code, off):
            if code.co_filename.startswith(SRC):
                FUNCS.add(f"{os.path.basename(code.co_filename)}:{code.co_qualname}")
            return mon.DISABLE
        mon.register_callback(MON_TOOL, mon.events.PY_START, cb)
        mon.set_events(MON_TOOL, mon.events.PY_START)


class Loader:
    def __init__(self, mode="numpy", overrides=None, float_shim=True):
        assert mode in ("numpy", "stdlib")
        self.mode = mode
        self.mods = {}
        self.libs = {"math": shims.MathShim(), "sys": shims.SysShim(mode == "numpy"),
                     "warnings": shims.WarningsShim(), "logging": shims.LoggingShim()}
        if mode == "numpy":
            self.libs["numpy"] = shims.NumpyShim()
        self.libs.update(overrides or {})
        self.blocked = {"astropy", "scipy", "pandas", "xarray", "pyproj"} | ({"numpy"} if mode == "stdlib" else set())
        b = dict(vars(builtins))
        b["__import__"] = self.imp
        if float_shim:
            b["float"] = shims.FloatShim
            b["int"] = shims.IntShim
        self.builtins = b
        self.pkg = self.load(PKG)

    def path(self, name):
        base = os.path.join(SRC, *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        if os.path.isfile(base + ".py"):
            return base + ".py", False
        return None, False

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if "." in name:
            parent = self.load(name.rpartition(".")[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        p, ispkg = self.path(name)
        if p is None:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        m = types.ModuleType(name)
        m.__file__ = p
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(p)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = sys.modules[name] = m
        with open(p, encoding="utf-8") as f:
            code = compile(f.read(), p, "exec")
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if "." in name:
            setattr(parent, name.rpartition(".")[2], m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals["__package__"].split(".")
            if level > 1:
                pk = pk[: 1 - level]
            full = ".".join(pk + ([name] if name else []))
        else:
            full = name
        root = full.split(".")[0]
        if root == PKG:
            m = self.load(full)
            if fromlist:
                for n in fromlist:
                    if n != "*" and not hasattr(m, n) and self.path(full + "." + n)[0]:
                        self.load(full + "." + n)
                return m
            return self.load(root) if not level else m
        if root in self.blocked:
            raise ModuleNotFoundError(f"No module named {root!r}", name=root)
        if root in self.libs:
            lib = self.libs[root]
            if "." in full and fromlist:
                for part in full.split(".")[1:]:
                    lib = getattr(lib, part)
            return lib
        return builtins.__import__(name, globals, locals, fromlist, level)

    def __getattr__(self, n):
        """module of the package by name"""
        if n.startswith("__"):
            raise AttributeError(n)
        return self.load(f"{PKG}.{n}")
