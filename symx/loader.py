"""Load the current rigeo sources with numpy/cvxpy/scipy/cdd/math replaced by symbolic models."""
import ast
import builtins

import numpy as np
import os
import sys
import types

from . import core, arr, stubs, cpshim
from .core import Sym, SymBool

REPO = os.environ.get("RIGEO_SRC", "/repo/src")
PKG = os.path.join(REPO, "rigeo")


class Loader:
    def __init__(self):
        self.mods = {}
        self.np, self.nplin, self.nprnd = arr.make_numpy(stubs.RngFactory)
        # legacy global functions draw from a global stream
        for n in ("rand", "randn", "random", "random_sample", "uniform", "normal", "standard_normal", "multinomial", "shuffle", "permutation", "choice"):
            setattr(self.nprnd, n, _legacy(n))
        self.nprnd.seed = lambda *a: None
        self.math = stubs.make_math()
        self.scipy, self.sclin = stubs.make_scipy()
        self.cp = cpshim.make_cvxpy()
        try:
            from . import cddshim

            self.cdd = cddshim.make_cdd()
        except ImportError:
            self.cdd = None
        self.code = {}
        b = dict(vars(builtins))
        b["__import__"] = self._import
        b["sx_float_"] = arr.s_float
        b["sx_int_"] = _sx_int
        b["isinstance"] = _isinstance
        b["abs"] = lambda x: abs(x)
        b["max"] = _max
        b["min"] = _min
        b["sum"] = builtins.sum
        b["round"] = builtins.round
        b["range"] = _range
        b["print"] = lambda *a, **k: None
        self.builtins = b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            parts = pkg.split(".")
            parts = parts[: len(parts) - (level - 1)]
            name = ".".join(parts + ([name] if name else []))
            m = self.load(name)
            if fromlist:
                self._subs(m, name, fromlist)
                return m
            return m
        top = name.split(".")[0]
        if top == "rigeo":
            m = self.load(name)
            if fromlist:
                self._subs(m, name, fromlist)
                return m
            return self.mods["rigeo"]
        table = {"numpy": self.np, "cvxpy": self.cp, "scipy": self.scipy, "cdd": self.cdd, "math": self.math}
        if top in table:
            m = table[top]
            if top == "cdd" and m is None:
                raise ImportError("cdd")
            if "." in name and fromlist:
                for p in name.split(".")[1:]:
                    m = getattr(m, p)
            return m
        return __import__(name, globals, locals, fromlist, level)

    def _subs(self, m, name, fromlist):
        for f in fromlist or ():
            if f != "*" and not hasattr(m, f):
                p = os.path.join(REPO, *name.split("."), f)
                if os.path.isfile(p + ".py") or os.path.isdir(p):
                    setattr(m, f, self.load(name + "." + f))

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        path = os.path.join(REPO, *name.split("."))
        if os.path.isdir(path):
            file = os.path.join(path, "__init__.py")
            pkg = name
        else:
            file = path + ".py"
            pkg = name.rsplit(".", 1)[0]
        m = types.ModuleType(name)
        m.__file__ = file
        m.__package__ = pkg
        if os.path.isdir(path):
            m.__path__ = [path]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        with open(file) as f:
            src = f.read()
        code = self.code.get(file)
        if code is None:
            tree = ast.fix_missing_locations(_Rewrite().visit(ast.parse(src, file)))
            code = self.code[file] = compile(tree, file, "exec", dont_inherit=True)
        exec(code, m.__dict__)
        if "." in name:
            parent, child = name.rsplit(".", 1)
            setattr(self.mods[parent], child, m)
        return m


def _legacy(n):
    def f(*a, **k):
        E = core._E
        g = E.__dict__.get("legacy_rng")
        if g is None:
            g = stubs.Legacy("global")
            E.__dict__["legacy_rng"] = g
        return getattr(g, n)(*a, **k)

    return f


def _sx_int(x=0, *a):
    if isinstance(x, Sym):
        if core._E.__dict__.get("symint"):
            return core._E.trunc(x)
        return builtins.int(x)
    if isinstance(x, SymBool):
        return builtins.int(builtins.bool(x))
    if isinstance(x, arr.SArr):
        return _sx_int(x.item())
    return builtins.int(x, *a)


class _Rewrite(ast.NodeTransformer):
    """Calls of the numeric built-ins accept symbolic values."""

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ("int", "float"):
            node.func = ast.copy_location(ast.Name("sx_" + node.func.id + "_", ast.Load()), node.func)
        if isinstance(node.func, ast.Name) and node.func.id == "map" and node.args:
            a = node.args[0]
            if isinstance(a, ast.Name) and a.id in ("int", "float"):
                node.args[0] = ast.copy_location(ast.Name("sx_" + a.id + "_", ast.Load()), a)
        return node


def _isinstance(o, t):
    if isinstance(o, (Sym, SymBool)):
        ts = t if isinstance(t, tuple) else (t,)
        for k in ts:
            if k is builtins.float or k is arr.Float64:
                if isinstance(o, Sym):
                    return True
            elif k is builtins.int:
                if isinstance(o, Sym) and core._E.is_int_sym(o) and not o.isconst():
                    return True
            elif k is builtins.bool:
                if isinstance(o, SymBool):
                    return True
            else:
                import numbers

                if k is numbers.Integral:
                    if isinstance(o, Sym) and core._E.is_int_sym(o) and not o.isconst():
                        return True
                elif isinstance(k, type) and isinstance(o, k):
                    return True
        return False
    if t is arr.Float64 or isinstance(t, tuple) and arr.Float64 in t:
        t = tuple(np.float64 if k is arr.Float64 else k for k in (t if isinstance(t, tuple) else (t,)))
    return isinstance(o, t)


def _max(*a, **k):
    return _ext(builtins.max, "max", a, k)


def _min(*a, **k):
    return _ext(builtins.min, "min", a, k)


def _ext(f, kind, a, k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if "key" not in k and xs and any(isinstance(x, Sym) for x in xs):
        return core._E.extremum(xs, kind)
    if len(a) == 1:
        return f(xs, **k)
    return f(*a, **k)


def _range(*a):
    return builtins.range(*[builtins.int(x) if isinstance(x, Sym) else x for x in a])
