"""Hooks on functions of the program under test.

A hook replaces a function in every module of the package that refers to it and calls
`before(args)` / `after(args, ret)` around it, where args maps the names that the
parameters had when this harness was written to the values passed, whatever the
parameters are called now.
"""
import importlib
import inspect
import json
import os
import pkgutil
import sys

from lib.common import HookMissing, tick

PKG = "reliabilityassessment"
SIG = json.load(open(os.path.join(os.path.dirname(__file__), "signatures.json")))
ORIG = {}
PATCHED = []


def load_all():
    """import every module of the package (not its tests)"""
    for sub in ("monte_carlo", "data_processing"):
        p = importlib.import_module("%s.%s" % (PKG, sub))
        for m in pkgutil.iter_modules(p.__path__):
            if not m.ispkg:
                importlib.import_module("%s.%s.%s" % (PKG, sub, m.name))


def fn(name):
    """the real function"""
    if name in ORIG:
        return ORIG[name]
    try:
        mod = importlib.import_module("%s.%s" % (PKG, SIG[name][0]))
        return getattr(mod, name)
    except (ImportError, AttributeError) as e:
        raise HookMissing("%s: %s" % (name, e))


def binder(f, names):
    sig = inspect.signature(f)
    ps = list(sig.parameters)
    n = len(names)
    simple = ps[:n] == names or len(ps) >= n

    def bind(a, k):
        if not k and len(a) == n:
            return dict(zip(names, a))
        b = sig.bind(*a, **k)
        b.apply_defaults()
        v = b.arguments
        if set(names) <= set(v):
            return {x: v[x] for x in names}
        if not simple:
            raise HookMissing("parameters of %s changed: %s" % (f.__name__, ps))
        return dict(zip(names, list(v.values())))

    return bind


def hook(name, before=None, after=None):
    f = fn(name)
    bind = binder(f, SIG[name][1])

    def w(*a, **k):
        tick()
        d = bind(a, k)
        if before is not None:
            before(d)
        r = f(*a, **k)
        if after is not None:
            after(d, r)
        return r

    w.__name__ = name
    w.__wrapped__ = f
    replace(f, w)
    ORIG.setdefault(name, f)
    return w


def replace(f, w):
    n = 0
    for mn, m in list(sys.modules.items()):
        if m is None or not mn.startswith(PKG):
            continue
        for k, v in list(vars(m).items()):
            if v is f:
                setattr(m, k, w)
                PATCHED.append((m, k, f))
                n += 1
            elif isinstance(v, (dict, list)) and not k.startswith("__"):  # tables of functions
                for i, x in list(v.items() if isinstance(v, dict) else enumerate(v)):
                    if x is f:
                        v[i] = w
                        PATCHED.append((v, i, f))
                        n += 1
            elif isinstance(v, tuple) and any(x is f for x in v) and type(v) is tuple:
                setattr(m, k, tuple(w if x is f else x for x in v))
                PATCHED.append((m, k, v))
                n += 1
    return n


def unhook():
    while PATCHED:
        m, k, f = PATCHED.pop()
        if isinstance(m, (dict, list)):
            m[k] = f
        else:
            setattr(m, k, f)
    ORIG.clear()


def call(name, **kw):
    """call a function of the program with arguments given by their pinned names"""
    f = fn(name)
    names = SIG[name][1]
    return f(*[kw[x] for x in names if x in kw])
