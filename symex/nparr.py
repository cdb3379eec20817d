"""numpy for symbolic execution: object arrays plus the few routines numpy cannot
run on objects (inv, det, norm, allclose, rounding, ...)."""
import builtins
import math
from fractions import Fraction

import numpy as np

from . import core, symstr
from .core import Sym, SymBool, zand, zor, znot, zite, zsum, is_sym, has_sym

INTS = (int, np.integer)


def e_int(x):
    """element conversion astype(int)"""
    if isinstance(x, SymBool):
        return x.num()
    if isinstance(x, Sym):
        return x.trunc()
    if isinstance(x, symstr.SStr):
        return symstr.parse_int(core.CUR, x)
    return int(x)


def e_float(x):
    if isinstance(x, SymBool):
        x = x.num()
    if isinstance(x, Sym):
        return x if not x.isint else Sym(x.ctx, x.terms, x.const, False)
    if isinstance(x, symstr.SStr):
        return symstr.parse_float(core.CUR, x)
    return float(x)


def e_bool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    return bool(x)


def kind_of(dtype):
    if dtype is None:
        return None
    if dtype is object or dtype == "object":
        return "O"
    try:
        k = np.dtype(dtype).kind
    except TypeError:
        return "O"
    return {"i": "i", "u": "i", "f": "f", "b": "b"}.get(k, "O")


CONV = {"i": e_int, "f": e_float, "b": e_bool}


def emap(f, arr):
    out = np.empty(arr.shape, dtype=object)
    fl, of = arr.reshape(-1), out.reshape(-1)
    for i in range(len(fl)):
        of[i] = f(fl[i])
    return out.view(SymArray)


class SymArray(np.ndarray):
    """object array whose elements may be symbolic; `_k` is the nominal dtype kind."""

    def __array_finalize__(self, obj):
        self._k = getattr(obj, "_k", None)

    def __setitem__(self, idx, val):
        if self._k in CONV and self.dtype == object:
            c = CONV[self._k]
            if isinstance(val, (list, tuple, np.ndarray)):
                a = np.array(val, dtype=object) if not isinstance(val, np.ndarray) else val.astype(object) \
                    if val.dtype != object else np.asarray(val)
                val = np.asarray(emap(c, a)) if a.ndim else c(a.item())
            else:
                val = c(val)
        if isinstance(idx, (Sym, SymBool)):
            idx = idx.__index__()
        elif isinstance(idx, tuple):
            idx = tuple(i.__index__() if is_sym(i) else i for i in idx)
        np.ndarray.__setitem__(self, idx, val)

    def __getitem__(self, idx):
        if isinstance(idx, (Sym, SymBool)):
            idx = idx.__index__()
        elif isinstance(idx, tuple):
            idx = tuple(i.__index__() if is_sym(i) else i for i in idx)
        elif isinstance(idx, SymArray) and idx.dtype == object:
            idx = concrete(idx)
        return np.ndarray.__getitem__(self, idx)

    def astype(self, dtype, *a, **k):
        if self.dtype != object:
            return np.ndarray.astype(self, dtype, *a, **k)
        kd = kind_of(dtype)
        if kd in CONV:
            r = emap(CONV[kd], self)
            r._k = kd
            return r
        return np.ndarray.astype(self, dtype, *a, **k)

    def _el(self):
        return self.reshape(-1).tolist()

    def any(self, axis=None, **k):
        if axis is None and self.dtype == object:
            return zor(*[e_bool(x) for x in self._el()])
        return np.ndarray.any(self, axis=axis, **k)

    def all(self, axis=None, **k):
        if axis is None and self.dtype == object:
            return zand(*[e_bool(x) for x in self._el()])
        return np.ndarray.all(self, axis=axis, **k)

    def round(self, decimals=0, out=None):
        return emap(lambda x: round_el(x, decimals), self) if self.dtype == object else \
            np.ndarray.round(self, decimals)

    def _rel(self, o, f):
        if self.dtype != object and not (isinstance(o, np.ndarray) and o.dtype == object) and not has_sym(o):
            return NotImplemented
        if isinstance(o, (list, tuple)):
            o = np.array(o, dtype=object)
        if o is None or isinstance(o, str):
            return NotImplemented
        ob = o if isinstance(o, np.ndarray) else None
        if ob is None or ob.ndim == 0:
            v = o if ob is None else ob.item()
            return emap(lambda x: f(x, v), self)
        a, b = np.broadcast_arrays(np.asarray(self, dtype=object), np.asarray(ob, dtype=object))
        out = np.empty(a.shape, dtype=object)
        af, bf, of = a.reshape(-1), b.reshape(-1), out.reshape(-1)
        for i in range(len(af)):
            of[i] = f(af[i], bf[i])
        return out.view(SymArray)

    def __eq__(self, o):
        r = self._rel(o, lambda x, y: x == y)
        return np.ndarray.__eq__(self, o) if r is NotImplemented else r

    def __ne__(self, o):
        r = self._rel(o, lambda x, y: x != y)
        return np.ndarray.__ne__(self, o) if r is NotImplemented else r

    def __lt__(self, o):
        r = self._rel(o, lambda x, y: x < y)
        return np.ndarray.__lt__(self, o) if r is NotImplemented else r

    def __le__(self, o):
        r = self._rel(o, lambda x, y: x <= y)
        return np.ndarray.__le__(self, o) if r is NotImplemented else r

    def __gt__(self, o):
        r = self._rel(o, lambda x, y: x > y)
        return np.ndarray.__gt__(self, o) if r is NotImplemented else r

    def __ge__(self, o):
        r = self._rel(o, lambda x, y: x >= y)
        return np.ndarray.__ge__(self, o) if r is NotImplemented else r

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __bool__(self):
        if self.size == 1:
            return bool(e_bool(self.reshape(-1)[0]))
        raise ValueError("The truth value of an array with more than one element is ambiguous."
                         " Use a.any() or a.all()")

    def __deepcopy__(self, memo):
        r = self.copy()
        r._k = self._k
        return r


SymArray.__module__ = "numpy"


def round_el(x, nd=0):
    if isinstance(x, SymBool):
        x = x.num()
    if isinstance(x, Sym):
        return x.rint() if nd == 0 else x.__round__(nd)
    return np.round(x, nd) if nd else (x if isinstance(x, int) else np.rint(x))


def oarr(x):
    """object ndarray of a nested sequence"""
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else x.astype(object)
    return np.array(x, dtype=object)


def sview(x):
    if isinstance(x, np.ndarray) and x.dtype == object and not isinstance(x, SymArray):
        return x.view(SymArray)
    return x


def lower(x):
    """object array without symbolic elements -> ordinary array"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        for e in x.reshape(-1).tolist():
            if isinstance(e, (Sym, SymBool)):
                return x
        k = getattr(x, "_k", None)
        l = np.asarray(x).tolist()
        l = lower_fr(l)
        r = np.array(l, dtype={"f": float, "i": int, "b": bool}.get(k))
        return r
    if isinstance(x, (list, tuple)) and any(isinstance(e, SymArray) for e in x):
        return type(x)(lower(e) for e in x)
    return x


def lower_fr(l):
    if isinstance(l, list):
        return [lower_fr(e) for e in l]
    return float(l) if isinstance(l, Fraction) else l


def concrete(x):
    """fork until x has no symbolic element"""
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, Sym):
        return x.ctx.concretize(x) if x.integral() else x.ctx.concretize_real(x)
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return x
        return lower(emap(concrete, x))
    if isinstance(x, (list, tuple)):
        return type(x)(concrete(e) for e in x)
    if isinstance(x, dict):
        return {k: concrete(v) for k, v in x.items()}
    return symstr.conc(x) if isinstance(x, str) else x


def det(m):
    m = oarr(m)
    n = m.shape[0]
    if m.shape != (n, n) or n > 4:
        raise core.Unsupported("det of shape %r" % (m.shape,))

    def d(rows, cols):
        if len(rows) == 0:
            return 1
        s = 0
        for j, c in enumerate(cols):
            e = m[rows[0], c]
            if not isinstance(e, Sym) and e == 0:
                continue
            t = e * d(rows[1:], cols[:j] + cols[j + 1:])
            s = s + t if j % 2 == 0 else s - t
        return s
    return e_float(d(list(range(n)), list(range(n))))


def exact(x):
    n = core._tonum(x)
    return x if n is None else n


def inv(m):
    m = oarr(m)
    n = m.shape[0]
    if m.shape != (n, n) or n > 3:
        raise core.Unsupported("inv of shape %r" % (m.shape,))
    # exact rationals in the concrete entries
    mm = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            e = m[i, j]
            mm[i, j] = e if isinstance(e, Sym) else Fraction(exact(e))

    def minor(i, j):
        rows = [r for r in range(n) if r != i]
        cols = [c for c in range(n) if c != j]
        if n == 1:
            return 1
        if n == 2:
            return mm[rows[0], cols[0]]
        return (mm[rows[0], cols[0]] * mm[rows[1], cols[1]]
                - mm[rows[0], cols[1]] * mm[rows[1], cols[0]])
    D = 0
    for j in range(n):
        t = mm[0, j]
        if not isinstance(t, Sym) and t == 0:
            continue
        D = D + t * minor(0, j) * (1 if j % 2 == 0 else -1)
    if not isinstance(D, Sym) and D == 0:
        raise np.linalg.LinAlgError("Singular matrix")
    if isinstance(D, Sym):
        if bool(D == 0):
            raise np.linalg.LinAlgError("Singular matrix")
        D = D.norm()
        if isinstance(D, Sym) and all(a.isint for a, c in D.terms):
            L = 1
            for a, c in D.terms:
                L = L * Fraction(c).denominator // math.gcd(L, Fraction(c).denominator)
            L = L * Fraction(D.const).denominator // math.gcd(L, Fraction(D.const).denominator)
            s = D * L
            if isinstance(s, Sym):
                s = Sym(s.ctx, s.terms, s.const, True)
                D = Fraction(s.ctx.concretize(s), L)
            else:
                D = Fraction(exact(s)) / L
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            v = minor(j, i)
            if (i + j) % 2:
                v = -v
            v = v / D
            out[i, j] = e_float(v) if isinstance(v, Sym) else float(v)
    r = out.view(SymArray)
    r._k = "f"
    return r


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    cs = isclose_list(a, b, rtol, atol)
    return zand(*cs[0])


def isclose_list(a, b, rtol, atol):
    A, B = oarr(a), oarr(b)
    A, B = np.broadcast_arrays(A, B)
    out = []
    for x, y in zip(A.reshape(-1).tolist(), B.reshape(-1).tolist()):
        if not is_sym(x) and not is_sym(y):
            out.append(bool(abs(x - y) <= atol + rtol * abs(y)))
            continue
        d = e_num(x) - e_num(y)
        if not isinstance(d, Sym):
            d = float(d)
            tol = atol + rtol * abs(e_num(y)) if rtol else atol
            out.append(abs(d) <= tol)
            continue
        tol = atol + rtol * abs(e_num(y)) if rtol else atol
        out.append(zand(d <= tol, -d <= tol))
    return out, A.shape


def e_num(x):
    return x.num() if isinstance(x, SymBool) else x


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    l, shp = isclose_list(a, b, rtol, atol)
    if shp == ():
        return l[0]
    r = np.empty(len(l), dtype=object)
    for i, x in enumerate(l):
        r[i] = x
    return r.reshape(shp).view(SymArray)


def norm(x, ord=None, axis=None, keepdims=False):
    a = oarr(x)
    if ord not in (None, 2) or keepdims:
        raise core.Unsupported("norm")
    if axis is None:
        s = 0
        for e in a.reshape(-1).tolist():
            s = s + e * e
        return s.sqrt() if isinstance(s, Sym) else math.sqrt(s)
    a = np.moveaxis(a, axis, -1)
    out = np.empty(a.shape[:-1], dtype=object)
    for idx in np.ndindex(*a.shape[:-1]):
        out[idx] = norm(a[idx])
    return out.view(SymArray)


class _Linalg(object):
    def __init__(self, up):
        self._up = up
        self.LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, name):
        f = getattr(np.linalg, name)
        if not callable(f) or isinstance(f, type):
            return f
        ov = {"inv": inv, "det": det, "norm": norm}.get(name)
        return _wrap("linalg." + name, f, ov)


def _wrap(name, f, ov):
    def g(*a, **k):
        if not has_sym(a) and not (k and has_sym(k)):
            return f(*[lower(x) for x in a], **{n: lower(x) for n, x in k.items()})
        if ov is not None:
            return ov(*a, **k)
        a2 = [oarr(x).view(SymArray) if isinstance(x, (list, tuple)) and has_sym(x) and name not in NOARR
              else x for x in a]
        try:
            r = f(*a2, **k)
        except (TypeError, AttributeError, np.exceptions.DTypePromotionError):
            r = f(*concrete(list(a)), **concrete(k))
        if isinstance(r, tuple):
            return tuple(sview(x) for x in r)
        return sview(r)
    g.__name__ = name
    return g


NOARR = {"concatenate", "stack", "vstack", "hstack", "column_stack", "block"}


def o_array(x, dtype=None, copy=True, **kw):
    kd = kind_of(dtype)
    a = np.array(x, dtype=object)
    if kd not in CONV and kd != "O" and any(isinstance(e, str) for e in a.flat):
        return np.array(symstr.conc(x.tolist() if isinstance(x, np.ndarray) else x), dtype=dtype)
    a = a.view(SymArray)
    a._k = None
    if kd in CONV:
        a = emap(CONV[kd], a)
        a._k = kd
    else:
        ks = {("f" if (isinstance(e, float) or (isinstance(e, Sym) and not e.isint)) else "i")
              for e in a.reshape(-1).tolist()}
        if ks == {"i", "f"} or ks == {"f"}:
            a = emap(e_float, a)
            a._k = "f"
        elif ks == {"i"}:
            a._k = "i"
    return a


def filled(shape, v, dtype, default):
    a = np.empty(shape, dtype=object).view(SymArray)
    kd = kind_of(dtype) if dtype is not None else default
    a._k = kd if kd in CONV else None
    vv = CONV[kd](v) if kd in CONV else v
    a.reshape(-1)[...] = vv
    return a


def o_zeros(shape, dtype=None, **k):
    return filled(shape, 0, dtype, "f")


def o_ones(shape, dtype=None, **k):
    return filled(shape, 1, dtype, "f")


def o_full(shape, v, dtype=None, **k):
    return filled(shape, v, dtype, "f" if isinstance(v, float) else "i")


def o_eye(n, m=None, k=0, dtype=None, **kw):
    r = np.eye(n, m, k)
    a = r.astype(object).view(SymArray)
    a._k = "f"
    return a.astype(dtype) if dtype is not None else a


def o_like(f):
    def g(x, dtype=None, **k):
        a = np.asarray(x) if not has_sym(x) else oarr(x)
        kd = getattr(x, "_k", None) or a.dtype.kind
        return f(a.shape, dtype=dtype if dtype is not None else
                 {"i": int, "f": float, "b": bool}.get(kd))
    return g


def o_round(a, decimals=0, out=None):
    if is_sym(a):
        return round_el(a, decimals)
    return emap(lambda x: round_el(x, decimals), oarr(a))


def unary(fs):
    def g(a, **k):
        if is_sym(a):
            return fs(e_num(a))
        return emap(lambda x: fs(e_num(x)), oarr(a))
    return g


def s_floor(x):
    return e_float(x.floor() if isinstance(x, Sym) else math.floor(x))


def s_ceil(x):
    return e_float(x.ceil() if isinstance(x, Sym) else math.ceil(x))


def s_sqrt(x):
    return x.sqrt() if isinstance(x, Sym) else math.sqrt(x)


def s_sign(x):
    return zite(x > 0, 1, zite(x < 0, -1, 0))


def o_count_nonzero(a, axis=None, **k):
    if axis is not None:
        raise core.Unsupported("count_nonzero axis")
    if is_sym(a):
        return zsum([e_bool(a)])
    return zsum([e_bool(x) for x in oarr(a).reshape(-1).tolist()])


def o_array_equal(a, b, **k):
    A, B = oarr(a), oarr(b)
    if A.shape != B.shape:
        return False
    return zand(*[x == y for x, y in zip(A.reshape(-1).tolist(), B.reshape(-1).tolist())])


def o_where(c, *xy):
    if not xy:
        return np.where(concrete(oarr(c)).astype(bool))
    C, X, Y = np.broadcast_arrays(oarr(c), oarr(xy[0]), oarr(xy[1]))
    out = np.empty(C.shape, dtype=object)
    for i in np.ndindex(*C.shape):
        out[i] = zite(e_bool(C[i]), X[i], Y[i])
    return out.view(SymArray)


def o_any(a, axis=None, **k):
    return oarr(a).view(SymArray).any(axis=axis)


def o_all(a, axis=None, **k):
    return oarr(a).view(SymArray).all(axis=axis)


def o_sum(a, axis=None, **k):
    if is_sym(a):
        return a
    a = oarr(a)
    if axis is None:
        return zsum(a.reshape(-1).tolist())
    return sview(np.sum(a, axis=axis))


def o_matmul(a, b, **k):
    r = np.matmul(np.asarray(oarr(a)), np.asarray(oarr(b)))
    return sview(r)


def o_dot(a, b, **k):
    if is_sym(a) or is_sym(b):
        return a * b
    return sview(np.dot(np.asarray(oarr(a)), np.asarray(oarr(b))))


def o_rel(f):
    def g(a, b, **k):
        return oarr(a).view(SymArray)._rel(oarr(b) if isinstance(b, (list, tuple)) else b, f)
    return g


OVER = {
    "array": o_array, "asarray": o_array, "allclose": allclose, "isclose": isclose,
    "round": o_round, "around": o_round, "rint": o_round, "round_": o_round,
    "floor": unary(s_floor), "ceil": unary(s_ceil), "sqrt": unary(s_sqrt),
    "trunc": unary(lambda x: e_float(e_int(x))), "sign": unary(s_sign),
    "abs": unary(abs), "absolute": unary(abs), "fabs": unary(abs),
    "count_nonzero": o_count_nonzero, "array_equal": o_array_equal, "where": o_where,
    "any": o_any, "all": o_all, "sum": o_sum, "matmul": o_matmul, "dot": o_dot,
    "equal": o_rel(lambda x, y: x == y), "not_equal": o_rel(lambda x, y: x != y),
    "less": o_rel(lambda x, y: x < y), "greater": o_rel(lambda x, y: x > y),
    "less_equal": o_rel(lambda x, y: x <= y), "greater_equal": o_rel(lambda x, y: x >= y),
    "isfinite": unary(lambda x: True), "isnan": unary(lambda x: False),
}
ALWAYS = {"zeros": o_zeros, "ones": o_ones, "empty": o_zeros, "full": o_full, "eye": o_eye,
          "identity": o_eye, "zeros_like": o_like(o_zeros), "ones_like": o_like(o_ones),
          "empty_like": o_like(o_zeros)}


class NumpyProxy(object):
    __name__ = "numpy"

    def __init__(self, random=None, loadtxt=None):
        self.linalg = _Linalg(self)
        self._random = random
        self._loadtxt = loadtxt
        self._cache = {}
        self.ndarray = np.ndarray

    def __getattr__(self, name):
        if name.startswith("_") and name != "__version__":
            raise AttributeError(name)
        if name == "random" and self._random is not None:
            return self._random
        if name == "loadtxt" and self._loadtxt is not None:
            return self._loadtxt
        c = self._cache.get(name)
        if c is not None:
            return c
        if name in ALWAYS:
            r = ALWAYS[name]
        else:
            f = getattr(np, name)
            if isinstance(f, type) or not callable(f):
                r = f
            else:
                r = _wrap(name, f, OVER.get(name))
        self._cache[name] = r
        return r
