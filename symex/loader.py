"""loads the real source files of /repo into a namespace that sees the symbolic facades, and the real package for replay"""
import ast
import builtins
import importlib
import os
import sys
import types
import numpy as np
from . import facade, poly

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "tight_binding_redweasel")
REAL = "tight_binding_redweasel"


CODE = {}               # compiled within this process only


def _vget(x, i):
    """x[i]; concrete arrays can be indexed with symbolic masks"""
    if type(x) is np.ndarray and (type(i) is facade.SA or type(i) is tuple and any(type(j) is facade.SA for j in i)):
        return facade.wrap(facade.to_obj(x))[i]
    return x[i]


class _Subscripts(ast.NodeTransformer):
    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load) or isinstance(node.slice, ast.Slice) or isinstance(node.slice, ast.Constant):
            return node
        if isinstance(node.slice, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in node.slice.elts):
            return node
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name("vget_sx_", ast.Load()), node), [node.value, node.slice], []), node)

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        r, node.returns = node.returns, None
        self.generic_visit(node)
        node.returns = r
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        return node


def _compile(text, path):
    tree = _Subscripts().visit(ast.parse(text, path))
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec")


class SymPackage:
    """symbolically executed package `tbsym` (source compiled from the working tree on every run)"""

    def __init__(self, src=SRC, extra=None):
        self.src = src
        self.mods = {}
        self.np = facade.make_numpy()
        self.math = facade.make_math()
        self.scipy = facade.make_scipy()
        from . import files
        self.np.__dict__.update(fromfile=files.fromfile, loadtxt=files.loadtxt)
        self.extra = dict(json=files.make_json(), **(extra or {}))
        b = dict(vars(builtins))
        b.update(float=facade.real_float, complex=facade.real_complex, int=facade.real_int, max=facade.b_max,
                 min=facade.b_min, print=facade.b_print, open=facade.b_open, chr=facade.b_chr)
        b["vget_sx_"] = _vget
        b["number_sx_"] = poly.nth_token
        b["__import__"] = self._import
        self.builtins = b
        self.encoded = {}       # module -> source path

    def _ext(self, name):
        """facade for an external module"""
        if name in self.extra:
            return self.extra[name]
        parts = name.split(".")
        if parts[0] == "numpy":
            m = self.np
        elif parts[0] == "scipy":
            m = self.scipy
        elif parts[0] == "math":
            m = self.math
        else:
            if parts[0] in ("matplotlib", "skimage", "ipywidgets", "mpl_toolkits"):
                return STUBS.get(name, Stub(name))
            return importlib.import_module(name)
        for p in parts[1:]:
            m = getattr(m, p)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0 or name.split(".")[0] == REAL:
            if level > 0:
                sub = name
            else:
                sub = ".".join(name.split(".")[1:])
            if not sub:             # from . import x
                pkg = types.ModuleType("tbsym")
                for f in fromlist or ():
                    try:
                        setattr(pkg, f, self.load(f))
                    except FileNotFoundError:
                        setattr(pkg, f, self.attr(f))
                return pkg
            m = self.load(sub.split(".")[-1])
            return m
        top = name.split(".")[0]
        if fromlist:
            return self._ext(name)
        if name in self.extra or top in ("numpy", "scipy", "math"):
            return self._ext(name if name in self.extra and "." not in name else top)
        if top in ("matplotlib", "skimage", "ipywidgets", "mpl_toolkits"):
            return Stub(top)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def attr(self, name):
        """a name exported by the package's __init__"""
        init = self.load("__init__")
        return getattr(init, name)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.src, name + ".py")
        code = CODE.get(path)
        if code is None:
            with builtins.open(path, encoding="utf-8") as f:
                code = CODE[path] = _compile(f.read(), path)
        m = types.ModuleType("tbsym." + name)
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["__package__"] = "tbsym"
        m.__file__ = path
        self.mods[name] = m
        self.encoded[name] = path
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        return m

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self.load(name)


# stand-ins for parts of the plotting libraries which a harness provides
STUBS = {}


class Stub:
    """inert stand-in for plotting libraries"""

    def __init__(self, name):
        self.__name__ = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        n = self.__name__ + "." + n
        return STUBS.get(n) or Stub(n)

    def __call__(self, *a, **k):
        return Stub(self.__name__ + "()")


class RealPackage:
    """the unmodified package, imported from the working tree"""

    def __init__(self, src=SRC):
        self.src = src
        root = os.path.dirname(src)
        if root not in sys.path:
            sys.path.insert(0, root)
        self.np = np

    def load(self, name):
        return importlib.import_module(REAL + "." + name)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self.load(name)
