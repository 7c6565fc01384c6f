"""Registry used by /verif/contracts/*.py"""
from .vc import *
from .interp import *

class Registry:
    def __init__(self): self.items = []
    def __call__(self, name, timeout=200, setup=None, maxpaths=64, thorough=False):
        def deco(f):
            self.items.append(dict(name=name, proof=f, setup=setup, timeout=timeout, maxpaths=maxpaths, thorough=thorough))
            return f
        return deco
    def add(self, name, f, **kw): self(name, **kw)(f)


def reaching(module, attr):
    """recogniser of syntax nodes that call `attr`, directly or through a helper of the same module"""
    import ast, os
    src = open(os.path.join(os.environ.get("PYVC_REPO", "/repo"), module.replace(".", "/") + ".py")).read()
    fs = {}
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.FunctionDef): fs.setdefault(n.name, []).append(n)
    names = {attr}
    called = lambda z: isinstance(z, ast.Call) and (getattr(z.func, "attr", None) == attr or getattr(z.func, "id", None) in names
        or isinstance(z.func, ast.Attribute) and getattr(z.func.value, "id", None) == "self" and z.func.attr in names)
    grew = True
    while grew:
        grew = False
        for f, ds in fs.items():
            if f not in names and any(called(z) for d in ds for z in ast.walk(d)): names.add(f); grew = True
    return called
