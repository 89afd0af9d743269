"""User inputs are kept in specs as numbers or strings in the variables
x, y, z, t (sympy syntax).  `to_festim` gives what a user would hand to FESTIM,
`to_np` an independent numpy evaluation used by the oracles."""
import numpy as np
import sympy as sp

_x, _y, _z, _t, _T = sp.symbols("x y z t T")
_LOC = {"x": _x, "y": _y, "z": _z, "t": _t, "T": _T}
_cache = {}


def is_expr(v):
    return isinstance(v, str)


def parse(v):
    return sp.sympify(v, locals=_LOC)


def to_festim(v):
    """number -> number, string -> sympy expression in festim.x, festim.t ..."""
    if not isinstance(v, str):
        return v
    import festim as F
    e = parse(v)
    if not e.free_symbols and e.is_number:
        return sp.Float(float(e))
    return e.subs({_x: F.x, _y: F.y, _z: F.z, _t: F.t})


def to_np(v):
    """-> function (X[..., dim], t) -> array of shape X.shape[:-1]"""
    if not isinstance(v, str):
        c = float(v)
        return lambda X, t: np.full(X.shape[:-1], c)
    if v not in _cache:
        _cache[v] = sp.lambdify((_x, _y, _z, _t), parse(v), "numpy")
    fn = _cache[v]

    def call(X, t):
        d = X.shape[-1]
        x = X[..., 0]
        y = X[..., 1] if d > 1 else np.zeros_like(x)
        z = X[..., 2] if d > 2 else np.zeros_like(x)
        return np.broadcast_to(np.asarray(fn(x, y, z, t), dtype=float), x.shape)

    return call


def ev(v, X, t):
    return to_np(v)(np.asarray(X, dtype=float), t)


def of_T(v):
    """material property: number, or string in T -> python callable (works on
    floats, numpy arrays and UFL)."""
    if not isinstance(v, str):
        return v
    code = compile(v, "<prop>", "eval")
    return lambda T: eval(code, {"__builtins__": {}}, {"T": T})


def prop_np(v, T):
    if v is None:
        return None
    f = of_T(v)
    return f(T) if callable(f) else np.full(np.shape(T), float(f))


def vec_fun(code, args, consts=None):
    """python function with the named args from an expression string; math
    functions dispatch on the argument type (UFL or float)."""
    src = compile(code, "<fun>", "eval")

    def ns():
        import fenics as f
        return {"exp": f.exp, "__builtins__": {}}

    def fun(*a, **kw):
        loc = dict(consts or {})
        loc.update(dict(zip(args, a)))
        loc.update(kw)
        return eval(src, ns(), loc)

    return fun


def np_fun(code):
    src = compile(code, "<fun>", "eval")

    def fun(**kw):
        return eval(src, {"exp": np.exp, "__builtins__": {}}, kw)

    return fun
