"""Symbolic numbers and the path explorer.

The code under test runs in CPython; its inputs are `Sym` objects (linear forms
over z3 variables).  Every branch on a symbolic condition is decided by the
solver, every feasible outcome is explored (depth first, by deterministic
re-execution along a decision trail), and every `ctx.check(P)` asks the solver
for values of the inputs that satisfy the path condition and falsify P.
"""
import builtins
import math
import pickle
import time
from fractions import Fraction

import numpy as np
import z3

CUR = None          # the active Context


class SymexError(BaseException):
    """Base of the engine's control exceptions (never caught by the code under test)."""


class PathInfeasible(SymexError):
    pass


class Inconclusive(SymexError):
    """The solver gave no answer or the code left what the engine can encode."""


class Unsupported(Inconclusive):
    pass


class CheckFailed(SymexError):
    def __init__(self, label):
        self.label = label


class PathTimeout(SymexError):
    pass


class Atom(object):
    __slots__ = ("z", "lo", "hi", "isint", "uid", "fn", "ver", "ctx", "mono", "rad", "den")

    def __init__(self, ctx, z, lo, hi, isint, fn=None):
        self.ctx = ctx
        self.z = z
        self.lo = lo
        self.hi = hi
        self.isint = isint
        ctx.natoms += 1
        self.uid = ctx.natoms
        self.fn = fn
        self.ver = -1
        self.mono = None        # polynomial mode: tuple of (base atom, power); None for a base atom
        self.rad = None         # polynomial mode: the square root of this Sym
        self.den = None         # polynomial mode: the inverse of this Sym

    def bounds(self):
        if self.fn is not None and self.ver != self.ctx.version:
            self.ver = self.ctx.version
            lo, hi = self.fn()
            if lo is not None and (self.lo is None or lo > self.lo):
                self.lo = lo
            if hi is not None and (self.hi is None or hi < self.hi):
                self.hi = hi
        return self.lo, self.hi

    def refine(self, lo=None, hi=None):
        ch = False
        if lo is not None and (self.lo is None or lo > self.lo):
            self.lo = lo
            ch = True
        if hi is not None and (self.hi is None or hi < self.hi):
            self.hi = hi
            ch = True
        if ch:
            self.ctx.version += 1


def _tonum(x):
    """python int / Fraction for a concrete number, None if it is not one."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return None
        f = Fraction(x)
        return f.numerator if f.denominator == 1 else f
    if isinstance(x, np.generic):
        return _tonum(x.item())
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return _tonum(x.item())
    return None


def _zval(c):
    if isinstance(c, int):
        return z3.IntVal(c)
    return z3.RealVal(c)


def native(v, isint):
    """Concrete value as the python number the code would have seen."""
    if isint:
        return int(v)
    return float(v)


class SymBool(object):
    """A symbolic truth value."""
    __slots__ = ("z", "lin", "op", "ctx")
    __array_priority__ = -1

    def __init__(self, ctx, z=None, lin=None, op=None):
        self.ctx = ctx
        self.z = z
        self.lin = lin      # (terms, const) of form  lin op 0
        self.op = op

    def zexpr(self):
        if self.z is None:
            e = lin_z3(self.lin[0], self.lin[1])
            op = self.op
            z = (e == 0 if op == "==" else e != 0 if op == "!=" else
                 e <= 0 if op == "<=" else e < 0)
            self.z = z
        return self.z

    def __bool__(self):
        return self.ctx.branch(self)

    def _not(self):
        if self.lin is not None:
            t, c = self.lin
            if self.op == "==":
                return SymBool(self.ctx, lin=self.lin, op="!=")
            if self.op == "!=":
                return SymBool(self.ctx, lin=self.lin, op="==")
            n = Sym(self.ctx, tuple((a, -k) for a, k in t), -c, False)
            if self.op == "<":
                return SymBool(self.ctx, lin=(n.terms, n.const), op="<=")
            if n.integral():
                return SymBool(self.ctx, lin=(n.terms, n.const + 1), op="<=")
            return SymBool(self.ctx, lin=(n.terms, n.const), op="<")
        return SymBool(self.ctx, z=z3.Not(self.zexpr()))

    def __and__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else False
        if isinstance(o, SymBool):
            return SymBool(self.ctx, z=z3.And(self.zexpr(), o.zexpr()))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return True if o else self
        if isinstance(o, SymBool):
            return SymBool(self.ctx, z=z3.Or(self.zexpr(), o.zexpr()))
        return NotImplemented
    __ror__ = __or__

    def __invert__(self):
        return self._not()

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else self._not()
        if isinstance(o, SymBool):
            return SymBool(self.ctx, z=self.zexpr() == o.zexpr())
        return self.num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r._not() if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def num(self):
        a = Atom(self.ctx, z3.If(self.zexpr(), z3.IntVal(1), z3.IntVal(0)), 0, 1, True)
        return Sym(self.ctx, ((a, 1),), 0, True)

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return self.num() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def __mul__(self, o):
        return self.num() * o
    __rmul__ = __mul__

    def __neg__(self):
        return -self.num()

    def __lt__(self, o):
        return self.num() < o

    def __le__(self, o):
        return self.num() <= o

    def __gt__(self, o):
        return self.num() > o

    def __ge__(self, o):
        return self.num() >= o

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def any(self, *a, **k):
        return self

    all = any
    item = any

    def __str__(self):
        return str(bool(self))


def lin_z3(terms, const):
    """z3 expression of a linear form; integer coefficients are kept integral."""
    parts = []
    for a, c in terms:
        if c == 1:
            parts.append(a.z)
        elif isinstance(c, int):
            parts.append(z3.IntVal(c) * a.z if a.isint else z3.RealVal(c) * a.z)
        else:
            za = z3.ToReal(a.z) if a.isint else a.z
            parts.append(z3.RealVal(c) * za)
    if const != 0 or not parts:
        parts.append(_zval(const))
    # sorts: z3 coerces Int to Real where needed
    if len(parts) == 1:
        return parts[0]
    anyreal = builtins.any(p.is_real() for p in parts)
    if anyreal:
        parts = [z3.ToReal(p) if p.is_int() else p for p in parts]
    return z3.Sum(parts)


def zand(*xs):
    """Conjunction of python bools and SymBools (no forking)."""
    zs = []
    ctx = None
    for x in xs:
        if isinstance(x, SymBool):
            ctx = x.ctx
            zs.append(x.zexpr())
        elif not x:
            return False
    if not zs:
        return True
    return SymBool(ctx, z=z3.And(zs) if len(zs) > 1 else zs[0])


def zor(*xs):
    zs = []
    ctx = None
    for x in xs:
        if isinstance(x, SymBool):
            ctx = x.ctx
            zs.append(x.zexpr())
        elif x:
            return True
    if not zs:
        return False
    return SymBool(ctx, z=z3.Or(zs) if len(zs) > 1 else zs[0])


def znot(x):
    if isinstance(x, SymBool):
        return x._not()
    return not x


def zimplies(a, b):
    return zor(znot(a), b)


def zite(c, a, b):
    """if-then-else on numbers without forking."""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    ctx = c.ctx
    A, B = sym_of(ctx, a), sym_of(ctx, b)
    (al, ah), (bl, bh) = A.interval(), B.interval()
    isint = A.isint and B.isint
    za, zb = A.zexpr(), B.zexpr()
    if za.is_real() != zb.is_real():
        za = z3.ToReal(za) if za.is_int() else za
        zb = z3.ToReal(zb) if zb.is_int() else zb

    def fn():
        (al, ah), (bl, bh) = A.interval(), B.interval()
        return (None if al is None or bl is None else min(al, bl),
                None if ah is None or bh is None else max(ah, bh))
    at = Atom(ctx, z3.If(c.zexpr(), za, zb), None, None, isint, fn)
    return Sym(ctx, ((at, 1),), 0, isint)


def zsum(xs):
    s = 0
    for x in xs:
        s = s + (x.num() if isinstance(x, SymBool) else (int(x) if isinstance(x, (bool, np.bool_)) else x))
    return s


def sym_of(ctx, x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return x.num()
    n = _tonum(x)
    if n is None:
        raise Unsupported("cannot lift %r" % (x,))
    isint = isinstance(x, (int, np.integer, bool, np.bool_))
    return Sym(ctx, (), n, isint)


def _fl(x):
    return math.floor(x)


def _int_if(c):
    return c.numerator if isinstance(c, Fraction) and c.denominator == 1 else c


def exact_num(c):
    return c


def _rel(d, op):
    return {"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0, "==": d == 0, "!=": d != 0}[op]


def mk(ctx, terms, const, isint):
    """Build a Sym, collapsing to a native number when constant."""
    out = []
    for a, c in terms:
        if c == 0:
            continue
        lo, hi = a.bounds()
        if lo is not None and lo == hi:
            const = const + c * lo
        else:
            out.append((a, c))
    if isinstance(const, Fraction) and const.denominator == 1:
        const = const.numerator
    if not out:
        return native(const, isint)
    return Sym(ctx, tuple(out), const, isint)


def merge(t1, t2, s2=1):
    if not t2:
        return t1
    d = {}
    for a, c in t1:
        d[a.uid] = (a, c)
    for a, c in t2:
        c = c * s2
        if a.uid in d:
            n = d[a.uid][1] + c
            if isinstance(n, Fraction) and n.denominator == 1:
                n = n.numerator
            if n == 0:
                del d[a.uid]
            else:
                d[a.uid] = (a, n)
        else:
            d[a.uid] = (a, c)
    return tuple(d.values())


class Sym(object):
    """A symbolic int (isint) or real number: sum of coefficient*atom + const."""
    __slots__ = ("ctx", "terms", "const", "isint", "_z")
    __array_priority__ = -1

    def __init__(self, ctx, terms, const, isint):
        self.ctx = ctx
        self.terms = terms
        self.const = const
        self.isint = isint
        self._z = None

    # ---------------------------------------------------------------- basics
    def zexpr(self):
        if self._z is None:
            self._z = lin_z3(self.terms, self.const)
        return self._z

    def zreal(self):
        z = self.zexpr()
        return z3.ToReal(z) if z.is_int() else z

    def interval(self):
        lo = hi = self.const
        for a, c in self.terms:
            al, ah = a.bounds()
            if c < 0:
                al, ah = ah, al
            if lo is not None:
                lo = None if al is None else lo + c * al
            if hi is not None:
                hi = None if ah is None else hi + c * ah
        return lo, hi

    def integral(self):
        """True when the form is certainly integer valued."""
        return (all(a.isint and isinstance(c, int) for a, c in self.terms)
                and isinstance(self.const, int))

    def norm(self):
        return mk(self.ctx, self.terms, self.const, self.isint)

    def _lift(self, o):
        if isinstance(o, Sym):
            return o.terms, o.const, o.isint
        if isinstance(o, SymBool):
            s = o.num()
            return s.terms, s.const, True
        n = _tonum(o)
        if n is None or (isinstance(o, np.ndarray)):
            return None
        return (), n, isinstance(o, (int, np.integer, np.bool_))

    # ------------------------------------------------------------ arithmetic
    def __add__(self, o):
        l = self._lift(o)
        if l is None:
            if isinstance(o, (float, np.floating)):
                return o
            return NotImplemented
        return mk(self.ctx, merge(self.terms, l[0]), self.const + l[1], self.isint and l[2])
    __radd__ = __add__

    def __neg__(self):
        return Sym(self.ctx, tuple((a, -c) for a, c in self.terms), -self.const, self.isint)

    def __pos__(self):
        return self

    def __sub__(self, o):
        l = self._lift(o)
        if l is None:
            return NotImplemented
        return mk(self.ctx, merge(self.terms, l[0], -1), self.const - l[1], self.isint and l[2])

    def __rsub__(self, o):
        l = self._lift(o)
        if l is None:
            return NotImplemented
        return (-self) + o

    def _scale(self, k, isint):
        if k == 0:
            return native(0, isint)
        ts = []
        for a, c in self.terms:
            n = c * k
            if isinstance(n, Fraction) and n.denominator == 1:
                n = n.numerator
            ts.append((a, n))
        return mk(self.ctx, tuple(ts), self.const * k, isint)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        l = self._lift(o)
        if l is None:
            return NotImplemented
        isint = self.isint and l[2]
        if not l[0]:
            return self._scale(l[1], isint)
        s = self.norm()
        o = o.norm() if isinstance(o, Sym) else o.num()
        if not isinstance(s, Sym) or not isinstance(o, Sym):
            r = s * o
            return r if isint or isinstance(r, Sym) else float(r)
        return self.ctx.product(s, o, isint)
    __rmul__ = __mul__

    def __truediv__(self, o):
        l = self._lift(o)
        if l is None:
            return NotImplemented
        if not l[0]:
            if l[1] == 0:
                raise ZeroDivisionError("division by zero")
            return self._scale(Fraction(1) / Fraction(l[1]), False)
        o = o.norm() if isinstance(o, Sym) else o
        if isinstance(o, Sym):
            if o.integral():
                o = self.ctx.concretize(o)
            else:
                return self.ctx.divide(self, o)
        return self / o

    def __rtruediv__(self, o):
        l = self._lift(o)
        if l is None:
            return NotImplemented
        s = self.norm()
        if isinstance(s, Sym):
            if s.integral():
                s = self.ctx.concretize(s)
            else:
                return self.ctx.divide(sym_of(self.ctx, o), s)
        return o / s

    def floor(self):
        if self.isint:
            return self
        if self.integral():
            return Sym(self.ctx, self.terms, self.const, True)
        me = self
        lo, hi = self.interval()
        if lo is not None and hi is not None and _fl(lo) == _fl(hi):
            return _fl(lo)
        if self.ctx.mul == "poly":
            return self.ctx.poly_int(self, False)

        def fn():
            lo, hi = me.interval()
            return (None if lo is None else _fl(lo), None if hi is None else _fl(hi))
        at = Atom(self.ctx, z3.ToInt(self.zreal()), None, None, True, fn)
        return mk(self.ctx, ((at, 1),), 0, True)

    def ceil(self):
        r = (-self)
        r = r.floor() if isinstance(r, Sym) else math.floor(r)
        return -r

    def __floordiv__(self, o):
        l = self._lift(o)
        if l is None:
            return NotImplemented
        if l[0]:
            o = o.norm() if isinstance(o, Sym) else o
            if isinstance(o, Sym):
                o = self.ctx.concretize(o)
            return self // o
        d = l[1]
        if d == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        isint = self.isint and l[2]
        if not (self.integral() and isinstance(d, int)):
            q = self._scale(Fraction(1) / Fraction(d), False)
            q = q.floor() if isinstance(q, Sym) else math.floor(q)
            if isint:
                return q
            return Sym(self.ctx, q.terms, q.const, False) if isinstance(q, Sym) else float(q)
        num = self if d > 0 else -self
        d = abs(d)
        q = num._idiv(d)
        if not isint:
            return Sym(self.ctx, q.terms, q.const, False) if isinstance(q, Sym) else float(q)
        return q

    def _idiv(self, d):
        """floor(self / d) for an integral form and an int d > 0."""
        if d == 1:
            return mk(self.ctx, self.terms, self.const, True)
        # take out the multiples of d
        ins, outs = [], []
        for a, c in self.terms:
            if c % d == 0:
                outs.append((a, c // d))
            else:
                ins.append((a, c))
        qc, rc = divmod(self.const, d)
        if not ins:
            return mk(self.ctx, tuple(outs), qc, True)
        rest = Sym(self.ctx, tuple(ins), rc, True)
        lo, hi = rest.interval()
        if lo is not None and hi is not None and lo // d == hi // d:
            return mk(self.ctx, tuple(outs), qc + lo // d, True)

        def fn():
            lo, hi = rest.interval()
            return (None if lo is None else _fl(Fraction(lo) / d),
                    None if hi is None else _fl(Fraction(hi) / d))
        at = self.ctx.shared_atom(("div", rest.zexpr().get_id(), d),
                                  lambda: rest.zexpr() / z3.IntVal(d), fn, rest)
        return mk(self.ctx, merge(tuple(outs), ((at, 1),)), qc, True)

    def __rfloordiv__(self, o):
        if self._lift(o) is None:
            return NotImplemented
        s = self.ctx.concretize(self)
        return o // s

    def __mod__(self, o):
        l = self._lift(o)
        if l is None:
            return NotImplemented
        if l[0]:
            o = o.norm() if isinstance(o, Sym) else o
            if isinstance(o, Sym):
                o = self.ctx.concretize(o)
            return self % o
        if l[1] == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        d = l[1]
        q = self // (d if isinstance(o, float) or not isinstance(d, Fraction) else o)
        return self - q * o

    def __rmod__(self, o):
        if isinstance(o, str) or self._lift(o) is None:
            return NotImplemented
        s = self.ctx.concretize(self)
        return o % s

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, k, mod=None):
        if isinstance(k, Sym):
            k = self.ctx.concretize(k)
        kk = _tonum(k)
        if kk == Fraction(1, 2):
            return self.sqrt()
        if isinstance(k, float) and k == 1 / 3.:
            return self.ctx.cbrt(self)
        if isinstance(kk, int) and kk >= 0:
            r = 1
            for _ in range(kk):
                r = self * r
            return r if isinstance(k, (int, np.integer)) or isinstance(r, Sym) else float(r)
        if self.integral():
            return self.ctx.concretize(self) ** k
        raise Unsupported("symbolic power %r" % (k,))

    def __rpow__(self, b, mod=None):
        return b ** self.ctx.concretize(self)

    def __abs__(self):
        lo, hi = self.interval()
        if lo is not None and lo >= 0:
            return self
        if hi is not None and hi <= 0:
            return -self
        me = self
        if self.ctx.mul == "poly":
            return self if bool(self >= 0) else -self

        def fn():
            lo, hi = me.interval()
            if lo is None or hi is None:
                return 0, None
            return (0 if lo <= 0 <= hi else min(abs(lo), abs(hi))), max(abs(lo), abs(hi))
        z = self.zexpr()
        at = Atom(self.ctx, z3.If(z >= 0, z, -z), 0, None, self.isint, fn)
        if not self.isint and z.is_int():
            at.isint = True
        return Sym(self.ctx, ((at, 1),), 0, self.isint)
    absolute = __abs__
    fabs = __abs__

    def rint(self):
        """nearest integer, ties to even, as a real (numpy) / int (python round)."""
        if self.integral():
            return self
        if self.ctx.mul == "poly":
            return self.ctx.poly_int(self, True)
        f = (self + Fraction(1, 2))
        f = f.floor() if isinstance(f, Sym) else math.floor(f)
        if not isinstance(f, Sym):
            # constant: still ties possible only at one point
            lo, hi = self.interval()
            if (self.const * 2) % 2 == 1 and f % 2 and lo is not None and lo == f - Fraction(1, 2):
                return zite(self == f - Fraction(1, 2), f - 1, f)
            return f
        # an integral linear form plus constant fraction can tie only for odd half
        tie = (self + Fraction(1, 2)) == f
        if tie is False:
            return f
        odd = (f % 2) == 1
        return zite(zand(tie, odd), f - 1, f)

    def __round__(self, nd=None):
        if nd is None or nd == 0:
            r = self.rint()
            if isinstance(r, Sym):
                return Sym(self.ctx, r.terms, r.const, True if nd is None else self.isint)
            return int(r) if nd is None else r
        s = (self * (10 ** nd))
        s = s.rint() if isinstance(s, Sym) else round(s)
        return s / (10 ** nd)

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return self.ceil()

    def __trunc__(self):
        return self.trunc()

    def trunc(self):
        if self.isint:
            return self
        if self.integral():
            return Sym(self.ctx, self.terms, self.const, True)
        lo, hi = self.interval()
        if lo is not None and lo >= 0:
            return self.floor()
        if hi is not None and hi <= 0:
            return self.ceil()
        return zite(self >= 0, self.floor(), self.ceil())

    def sqrt(self):
        return self.ctx.sqrt(self)

    def conjugate(self):
        return self
    real = property(lambda self: self)
    imag = property(lambda self: 0)

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def is_integer(self):
        return self == self.floor()

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    # ----------------------------------------------------------- comparisons
    def _cmp(self, o, op):
        l = self._lift(o)
        if l is None:
            if isinstance(o, (float, np.floating)):
                if o != o:
                    return op == "!="
                big = o > 0
                return {"<": big, "<=": big, ">": not big, ">=": not big,
                        "==": False, "!=": True}[op]
            return NotImplemented
        d = mk(self.ctx, merge(self.terms, l[0], -1), self.const - l[1], False)
        if not isinstance(d, Sym):
            return {"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0, "==": d == 0,
                    "!=": d != 0}[op]
        if self.ctx.mul == "poly":
            d = self.ctx.poly_clear(d, op)
            if isinstance(d, (bool, SymBool)):
                return d
            if not isinstance(d, Sym):
                return {"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0, "==": d == 0,
                        "!=": d != 0}[op]
        if op == ">":
            return (-d)._lt0("<")
        if op == ">=":
            return (-d)._lt0("<=")
        if op in ("<", "<="):
            return d._lt0(op)
        lo, hi = d.interval()
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return op == "!="
        if len(d.terms) == 1:
            a, c = d.terms[0]
            if a.isint:
                v = Fraction(-d.const) / Fraction(c)
                if v.denominator != 1:
                    return op == "!="
        return SymBool(self.ctx, lin=(d.terms, d.const), op=op)

    def _lt0(self, op):
        lo, hi = self.interval()
        if op == "<":
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        else:
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        if op == "<" and self.integral():
            return SymBool(self.ctx, lin=(self.terms, self.const + 1), op="<=")
        return SymBool(self.ctx, lin=(self.terms, self.const), op=op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        if o is self:
            return True
        return self._cmp(o, "==")

    def __ne__(self, o):
        if o is self:
            return False
        return self._cmp(o, "!=")

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    # --------------------------------------------------------- concretisation
    def __hash__(self):
        return hash(self.value())

    def value(self):
        v = self.ctx.concretize(self)
        return v

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return self.ctx.concretize(self)

    def __int__(self):
        t = self.trunc()
        return t if isinstance(t, int) else self.ctx.concretize(t)

    def __float__(self):
        if self.integral():
            return float(self.ctx.concretize(self))
        return float(self.ctx.concretize_real(self))

    def __complex__(self):
        return complex(self.__float__())

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __format__(self, spec):
        if not self.ctx.strings:
            return format(self.native_value(), spec)
        from . import symstr
        return symstr.format_sym(self, spec)

    def native_value(self):
        """the concrete number (forks over the feasible values)"""
        if self.integral():
            v = self.ctx.concretize(self)
            return int(v) if self.isint else float(v)
        return self.ctx.concretize_real(self)

    def __str__(self):
        if not self.ctx.strings:
            return str(self.native_value())
        from . import symstr
        return symstr.format_sym(self, "")

    def __repr__(self):
        if CUR is not None and not CUR.debug:
            return self.__str__()
        return "<Sym %s>" % self.zexpr()


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(e, (Sym, SymBool)) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(e, depth + 1) for e in x)
    if isinstance(x, str):
        return type(x) is not str and type(x).__name__ == "SStr"
    if isinstance(x, dict):
        return any(has_sym(e) for e in x.values()) or any(has_sym(e) for e in x.keys())
    return False


# ------------------------------------------------------------------ explorer
class Node(object):
    __slots__ = ("kind", "val", "alts", "expr", "model", "tried", "key")

    def __init__(self, kind, val=None):
        self.kind = kind
        self.val = val
        self.alts = None
        self.expr = None
        self.model = None
        self.tried = None


class Context(object):
    """Execution context of one harness case; drives the depth-first exploration."""

    symbolic = True
    debug = False

    def __init__(self, name="", timeout_ms=60000, mul="ite", ite_limit=16, max_values=4096,
                 deadline=None):
        self.name = name
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.used = self.solver
        self.timeout_ms = timeout_ms
        self.mul = mul
        self.ite_limit = ite_limit
        self.max_values = max_values
        self.deadline = deadline
        self.trail = []
        self.stats = dict(paths=0, queries=0, solver_s=0.0, checks=0, checked_props=0,
                          sat=0, unsat=0, branches=0, concretised=0)
        self.labels = {}
        self.functions = set()
        self.counterexample = None
        self.max_depth = 0
        self.samples = []
        self.merge = True
        self.random_den = 0
        self.streams = None
        self.strings = False
        self.whole = False      # a formatted real is one character standing for the rounded number
        self.eager = False      # concretise every integer input when it is created
        self.max_draws = None
        self.in_q = False
        self.kept = {}
        self._reset()

    # ------------------------------------------------------------ per path
    def _reset(self):
        self.pos = 0
        self.natoms = 0
        self.nvars = 0
        self.version = 0
        self.inputs = []      # (name, kind, Sym)
        self.shared = {}
        self.strtab = []      # private-use characters -> digit forms
        self.store = {}

    def q(self, *assumptions):
        self.stats["queries"] += 1
        t = time.time()
        if self.deadline is not None and t > self.deadline:
            raise Inconclusive("time budget exhausted in %s" % self.name)
        self.in_q = True
        self.used = self.solver
        if self.mul == "poly":
            r = self.poly_q(assumptions)
        else:
            r = self.solver.check(*assumptions)
        self.in_q = False
        self.stats["solver_s"] += time.time() - t
        if r == z3.sat:
            self.stats["sat"] += 1
            return True
        if r == z3.unsat:
            self.stats["unsat"] += 1
            return False
        raise Inconclusive("solver: %s" % self.used.reason_unknown())

    def poly_q(self, assumptions):
        """nlsat on the whole path condition"""
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", self.timeout_ms)
        s.add(self.solver.assertions())
        for a in assumptions:
            s.add(a)
        self.used = s
        return s.check()

    def _model(self):
        return self.used.model()

    def cur_model(self):
        for n in reversed(self.trail):
            if n.model is not None:
                return n.model
        # no model yet
        if not self.q():
            raise PathInfeasible()
        m = self._model()
        if self.trail:
            self.trail[-1].model = m
        return m

    def push_node(self, node):
        self.trail.append(node)
        self.pos += 1
        if len(self.trail) > self.max_depth:
            self.max_depth = len(self.trail)

    def add(self, z):
        """Assert a definitional constraint (always satisfiable extension or assumption)."""
        if self.pos < len(self.trail):
            self.pos += 1
            return
        self.solver.push()
        self.solver.add(z)
        n = Node("def")
        n.model = None
        # an earlier model may not satisfy z: mark by querying lazily
        n.kind = "assume"
        self.push_node(n)
        prev = None
        for m in reversed(self.trail[:-1]):
            if m.model is not None:
                prev = m.model
                break
        if prev is not None and z3.is_true(prev.eval(z, model_completion=True)):
            n.model = prev
            return
        if not self.q():
            raise PathInfeasible()
        n.model = self._model()

    def assume(self, b, label=None):
        if isinstance(b, SymBool):
            self.add(b.zexpr())
            self._refine(b, True)
        elif not b:
            raise PathInfeasible()

    def _refine(self, b, val):
        if b.lin is None or len(b.lin[0]) != 1:
            return
        (a, c), k = b.lin[0][0], b.lin[1]
        v = Fraction(-k) / Fraction(c)
        if v.denominator == 1:
            v = v.numerator
        if b.op in ("==", "!="):
            if val == (b.op == "=="):
                a.refine(v, v)
            elif a.isint:
                lo, hi = a.bounds()
                if lo == v:
                    a.refine(lo=v + 1)
                elif hi == v:
                    a.refine(hi=v - 1)
            return
        # c*a + k <= 0   (or < 0)
        strict = b.op == "<"
        if val:
            if c > 0:      # a <= v
                hi = v
                if a.isint:
                    hi = (math.ceil(v) - 1) if strict else math.floor(v)
                a.refine(hi=hi)
            else:
                lo = v
                if a.isint:
                    lo = (math.floor(v) + 1) if strict else math.ceil(v)
                a.refine(lo=lo)
        else:              # c*a + k > 0  (>= 0 when strict)
            if c > 0:      # a > v  / a >= v
                lo = v
                if a.isint:
                    lo = math.ceil(v) if strict else math.floor(v) + 1
                a.refine(lo=lo)
            else:
                hi = v
                if a.isint:
                    hi = math.floor(v) if strict else math.ceil(v) - 1
                a.refine(hi=hi)

    def branch(self, b):
        # a comparison built earlier may have become decided by refinement
        if b.lin is not None:
            d = mk(self, b.lin[0], b.lin[1], False)
            if not isinstance(d, Sym):
                return (d == 0 if b.op == "==" else d != 0 if b.op == "!=" else
                        d <= 0 if b.op == "<=" else d < 0)
            lo, hi = d.interval()
            if b.op in ("==", "!="):
                if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                    return b.op == "!="
            elif b.op == "<=":
                if hi is not None and hi <= 0:
                    return True
                if lo is not None and lo > 0:
                    return False
            else:
                if hi is not None and hi < 0:
                    return True
                if lo is not None and lo >= 0:
                    return False
        if self.pos < len(self.trail):
            n = self.trail[self.pos]
            if n.kind != "branch":
                raise Inconclusive("non-deterministic re-execution (%s at a branch)" % n.kind)
            self.pos += 1
            self._refine(b, n.val)
            return n.val
        self.stats["branches"] += 1
        z = b.zexpr()
        m = self.cur_model()
        ev = m.eval(z, model_completion=True)
        if z3.is_true(ev):
            first = True
        elif z3.is_false(ev):
            first = False
        else:
            first = None
        n = Node("branch")
        if first is None:
            if self.q(z):
                first = True
                m = self._model()
            else:
                first = False
                if not self.q(z3.Not(z)):
                    raise PathInfeasible()
                m = self._model()
        other = z3.Not(z) if first else z
        if self.q(other):
            n.alts = [(not first, self._model(), other)]
        else:
            n.alts = []
        self.solver.push()
        if n.alts:
            self.solver.add(z if first else z3.Not(z))
        n.val = first
        n.model = m
        self.push_node(n)
        self._refine(b, first)
        return first

    def concretize(self, s):
        """Fork over all feasible integer values of an integral form."""
        s2 = s.norm() if isinstance(s, Sym) else s
        if not isinstance(s2, Sym):
            return s2
        s = s2
        if not s.integral():
            return self.concretize_real(s)
        lo, hi = s.interval()
        if self.pos < len(self.trail):
            n = self.trail[self.pos]
            if n.kind != "value":
                raise Inconclusive("non-deterministic re-execution (%s at a value)" % n.kind)
            self.pos += 1
            v = n.val
        else:
            self.stats["concretised"] += 1
            m = self.cur_model()
            z = s.zexpr()
            ev = m.eval(z, model_completion=True)
            if not z3.is_int_value(ev) and not z3.is_rational_value(ev):
                raise Inconclusive("no model value for %s" % z)
            v = ev.as_long() if z3.is_int_value(ev) else int(Fraction(ev.as_fraction()))
            n = Node("value", v)
            n.expr = z
            n.tried = [v]
            n.alts = True
            n.model = m
            self.solver.push()      # frame for the z != v constraints
            self.solver.push()
            self.solver.add(z == v)
            self.push_node(n)
        # a single-atom form fixes its atom
        if len(s.terms) == 1:
            a, c = s.terms[0]
            val = Fraction(v - s.const) / Fraction(c)
            if val.denominator == 1:
                val = val.numerator
            a.refine(val, val)
        return int(v) if s.isint else float(v)

    def concretize_real(self, s):
        s2 = s.norm()
        if not isinstance(s2, Sym):
            return s2
        s = s2
        if all(a.isint for a, c in s.terms) and len(s.terms) == 1:
            a, c = s.terms[0]
            v = self.concretize(Sym(self, ((a, 1),), 0, True))
            return float(Fraction(c) * v + s.const)
        if all(a.isint for a, c in s.terms):
            r = s.const
            for a, c in s.terms:
                r += Fraction(c) * self.concretize(Sym(self, ((a, 1),), 0, True))
            return float(r)
        raise Unsupported("a continuous symbolic value reached code that needs a concrete float")

    # ------------------------------------------------------------- nonlinear
    def shared_atom(self, key, mkz, fn, rest):
        a = self.shared.get(key)
        if a is None:
            a = Atom(self, mkz(), None, None, True, fn)
            self.shared[key] = (a, rest)
        else:
            a = a[0]
        return a

    # ---------------------------------------------- polynomials (mul="poly")
    def _base(self, key, make):
        a = self.shared.get(key)
        if a is None:
            a = make()
            self.shared[key] = a
        return a

    def _monomial(self, pw):
        """Sym of the product of base atoms {atom: power}."""
        # s*s with 1/p (p the radicand of s) is 1; s*s alone is p
        extra = []
        for a in list(pw):
            while a.rad is not None and pw.get(a, 0) >= 2:
                iv = [b for b in pw if b.den is not None and b.den is a.rad and pw[b] > 0]
                pw[a] -= 2
                if iv:
                    pw[iv[0]] -= 1
                else:
                    extra.append(a.rad)
        pw = {a: k for a, k in pw.items() if k}
        if not pw:
            r = 1
        else:
            key = tuple(sorted((a.uid, k) for a, k in pw.items()))
            if len(key) == 1 and key[0][1] == 1:
                at = list(pw)[0]
            else:
                def make():
                    fs = sorted(pw.items(), key=lambda t: t[0].uid)
                    zs = []
                    for a, k in fs:
                        zs += [z3.ToReal(a.z) if a.z.is_int() else a.z] * k
                    e = zs[0]
                    for z in zs[1:]:
                        e = e * z

                    def fn():
                        lo, hi = Fraction(1), Fraction(1)
                        for a, k in fs:
                            al, ah = a.bounds()
                            if al is None or ah is None:
                                return (0 if all(k % 2 == 0 for a, k in fs) else None), None
                            c = [Fraction(al) ** k, Fraction(ah) ** k]
                            pl, ph = min(c), max(c)
                            if k % 2 == 0 and al < 0 < ah:
                                pl = Fraction(0)
                            c = [lo * pl, lo * ph, hi * pl, hi * ph]
                            lo, hi = min(c), max(c)
                        return lo, hi
                    at = Atom(self, e, None, None, False, fn)
                    at.mono = tuple(fs)
                    return at
                at = self._base(("mono",) + key, make)
            r = Sym(self, ((at, 1),), 0, False)
        for p in extra:
            r = r * p
        return r

    def poly_product(self, s, o, isint):
        r = native(0, isint)
        acc = {}
        const = s.const * o.const
        rest = []
        for a, c in s.terms + ((None, s.const),):
            if c == 0:
                continue
            for b, d in o.terms + ((None, o.const),):
                if d == 0 or (a is None and b is None):
                    continue
                pw = {}
                for x in (a, b):
                    if x is None:
                        continue
                    for y, k in (x.mono or ((x, 1),)):
                        pw[y] = pw.get(y, 0) + k
                t = self._monomial(pw)
                if isinstance(t, Sym) and len(t.terms) == 1 and t.const == 0 and t.terms[0][1] == 1:
                    at = t.terms[0][0]
                    acc[at.uid] = (at, acc[at.uid][1] + c * d if at.uid in acc else c * d)
                else:
                    rest.append(t * exact_num(c * d))
        r = mk(self, tuple((a, _int_if(c)) for a, c in acc.values()), const, isint)
        for t in rest:
            r = r + t
        return r

    def poly_divide(self, n, d):
        if bool(d == 0):
            raise ZeroDivisionError("division by zero")
        if len(d.terms) == 1 and d.const == 0 and d.terms[0][0].rad is not None:
            a, c = d.terms[0]       # n / (c s) = n s / (c p)
            return n * Sym(self, ((a, 1),), 0, False) * self._inverse(a.rad) / exact_num(c)
        # a quotient as divisor
        num, dens = self._cleared(d)
        if dens:
            r = n
            for b, k in dens:
                for i in range(k):
                    r = r * b.den
            return r / num
        return n * self._inverse(d)

    def _inverse(self, d):
        d = d.norm()
        if not isinstance(d, Sym):
            return 1 / Fraction(_tonum(d))
        k = (tuple(sorted((a.uid, c) for a, c in d.terms)), d.const)
        key = ("inv",) + k
        sq = self.shared.get(("sqrt",) + k)
        if sq is not None:
            d = sq.rad

        def make():
            def fn():
                lo, hi = d.interval()
                if lo is not None and lo > 0:
                    return (Fraction(0) if hi is None else 1 / Fraction(hi)), 1 / Fraction(lo)
                if hi is not None and hi < 0:
                    return 1 / Fraction(hi), (Fraction(0) if lo is None else 1 / Fraction(lo))
                return None, None
            at = Atom(self, 1 / d.zreal(), None, None, False, fn)
            at.den = d
            return at
        return Sym(self, ((self._base(key, make), 1),), 0, False)

    def _cleared(self, e):
        """(polynomial, [(inverse atom, power)]) with e = polynomial * product of inverses."""
        top = {}
        for a, c in e.terms:
            for b, k in (a.mono or ((a, 1),)):
                if b.den is not None:
                    top[b] = max(top.get(b, 0), k)
        if not top:
            return e, []
        tot = e.const
        for b, k in top.items():
            for i in range(k):
                tot = b.den * exact_num(tot)
        for a, c in e.terms:
            pw = dict(a.mono or ((a, 1),))
            t = exact_num(c)
            for b, k in top.items():
                left = k - pw.pop(b, 0)
                for i in range(left):
                    t = b.den * t
            if pw:
                t = self._monomial(pw) * t
            tot = tot + t
        return tot, sorted(top.items(), key=lambda t: t[0].uid)

    def poly_clear(self, d, op):
        """d op 0 without quotients and square roots: an equivalent polynomial, a truth value or a condition."""
        d, dens = self._cleared(d)
        for b, k in dens:
            if not isinstance(d, Sym):
                break
            if k % 2 and op not in ("==", "!="):
                lo, hi = b.den.interval()
                if any(x[0].den is not None or x[0].rad is not None for x in b.den.terms):
                    raise Unsupported("nested quotient")
                if not (lo is not None and lo >= 0) and not self._square(b.den):
                    if not bool(b.den > 0):
                        d = -d
        if not isinstance(d, Sym):
            return d
        rs = [(a, c) for a, c in d.terms if any(b.rad is not None for b, k in (a.mono or ((a, 1),)))]
        if not rs:
            return d
        if any(a.mono for a, c in rs):
            raise Unsupported("a product with a square root")
        flip = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
        if len(rs) == 1:
            (a, c), = rs
            rest = mk(self, tuple(t for t in d.terms if t[0] is not a), d.const, False) / exact_num(-c)
            o = op if c > 0 else flip[op]
            # s o rest
            if not isinstance(rest, Sym):
                if rest < 0:
                    return o in (">", ">=", "!=")
                return _rel(a.rad - rest * rest, o)
            neg = rest < 0
            sq = _rel(a.rad - rest * rest, o)
            return zor(zand(neg, True), zand(znot(neg), sq)) if o in (">", ">=", "!=") else zand(znot(neg), sq)
        if len(rs) == 2 and len(d.terms) == 2 and rs[0][1] == -rs[1][1]:
            (a, c), (b, _) = rs
            o = op if c > 0 else flip[op]
            g = _int_if(Fraction(d.const) / Fraction(abs(c)))
            if c < 0:
                g = -g
            # a + g o b
            if g == 0:
                return _rel(a.rad - b.rad, o)
            if g < 0:
                a, b, g, o = b, a, -g, flip[o]
            # (a + g)^2 o b^2 or a^2 o (b - g)^2, the remaining root between bounds that hold on the path
            if g > Fraction(1, 1000):       # exactly
                def root():
                    self.nvars += 1
                    z = z3.Real("root!%d" % self.nvars)
                    self.add(z3.And(z >= 0, z * z == b.rad.zreal()))
                    return Atom(self, z, 0, b.bounds()[1], False)
                t = Sym(self, ((self._base(("root", b.uid), root), 1),), 0, False)
                c = _rel(a.rad - b.rad + t * (2 * g) - g * g, o)
                return zor(t < g, c) if o in (">", ">=", "!=") else zand(t >= g, c)
            kb, ka = ("band", b.uid), ("band", a.uid)
            if kb not in self.shared and ka not in self.shared:
                self._base(kb, lambda: self._band(b.rad))
            if kb in self.shared and self.shared[kb].lo > g:
                t = Sym(self, ((self.shared[kb], 1),), 0, False)
                return _rel(a.rad - b.rad + t * (2 * g) - g * g, o)
            t = Sym(self, ((self._base(ka, lambda: self._band(a.rad)), 1),), 0, False)
            return _rel(a.rad - b.rad + t * (2 * g) + g * g, o)
        raise Unsupported("comparison with several square roots")

    def _band(self, p):
        """A number between bounds of the square root of p that hold on the whole path."""
        def bounds():
            v = Fraction(self.approx(p.sqrt())).limit_denominator(1 << 20)
            lo, hi = Fraction(0), None
            for f in (2, 16, 256):
                if not self.q((p - (v / f) ** 2 < 0).zexpr() if isinstance(p - (v / f) ** 2 < 0, SymBool) else z3.BoolVal(p - (v / f) ** 2 < 0)):
                    lo = v / f
                    break
            for f in (2, 16, 256):
                c = p - (v * f) ** 2 > 0
                if not self.q(c.zexpr() if isinstance(c, SymBool) else z3.BoolVal(c)):
                    hi = v * f
                    break
            if hi is None:
                hi = p.interval()[1]
                if hi is None:
                    raise Unsupported("unbounded square root")
                hi = math.isqrt(math.ceil(hi)) + 1
            return lo, hi
        lo, hi = self.pick(bounds)
        self.nvars += 1
        z = z3.Real("root!%d" % self.nvars)
        self.add(z3.And(z >= _zval(lo), z <= _zval(hi)))
        return Atom(self, z, lo, hi, False)

    def _square(self, d):
        """certainly not negative: a radicand"""
        return any(isinstance(a, Atom) and a.rad is d for a in self.shared.values())

    def poly_sqrt(self, s):
        s = s.norm()
        if not isinstance(s, Sym):
            return math.sqrt(s)
        k = (tuple(sorted((a.uid, c) for a, c in s.terms)), s.const)
        key = ("sqrt",) + k
        iv = self.shared.get(("inv",) + k)
        if iv is not None:
            s = iv.den

        def make():
            def fn():
                lo, hi = s.interval()
                lo = 0 if lo is None or lo <= 0 else Fraction(math.isqrt(math.floor(lo)))
                return lo, (None if hi is None else math.isqrt(max(0, math.ceil(hi))) + 1)
            z = s.zreal()
            self.nvars += 1
            v = z3.Real("sqrt!%d" % self.nvars)
            at = Atom(self, v, 0, None, False, fn)
            at.rad = s
            return at
        return Sym(self, ((self._base(key, make), 1),), 0, False)

    def pick(self, f):
        """A number chosen from the current model, the same one when the path is executed again."""
        if self.pos < len(self.trail):
            n = self.trail[self.pos]
            if n.kind != "pick":
                raise Inconclusive("non-deterministic re-execution (%s at a pick)" % n.kind)
            self.pos += 1
            return n.val
        n = Node("pick", f())
        self.solver.push()
        self.push_node(n)
        return n.val

    def approx(self, x):
        """Value of x in the current model, as a float (no constraint on the path)."""
        if not isinstance(x, Sym):
            return float(x)
        m = self.cur_model()
        memo = {}

        def atom(a):
            if a.uid in memo:
                return memo[a.uid]
            if a.mono:
                r = 1.0
                for b, k in a.mono:
                    r *= atom(b) ** k
            elif a.rad is not None:
                r = math.sqrt(max(0.0, val(a.rad)))
            elif a.den is not None:
                r = 1.0 / (val(a.den) or 1e-300)
            else:
                ev = m.eval(a.z, model_completion=True)
                if z3.is_algebraic_value(ev):
                    ev = ev.approx(30)
                r = float(ev.as_long()) if z3.is_int_value(ev) else float(Fraction(ev.numerator_as_long(), ev.denominator_as_long()))
            memo[a.uid] = r
            return r

        def val(s):
            if not isinstance(s, Sym):
                return float(s)
            return sum([float(c) * atom(a) for a, c in s.terms], float(s.const))
        return val(x)

    def poly_int(self, x, nearest):
        """Fork over the integer floor(x) (nearest: round half to even)."""
        tried = []

        def cand():
            v = self.approx(x)
            k = round(v) if nearest else math.floor(v)
            if k in tried:
                for w in range(1, 5):
                    for y in (k + w, k - w):
                        if y not in tried:
                            return y
                raise Inconclusive("no integer value")
            return k
        while True:
            k = self.pick(cand)
            tried.append(k)
            if nearest:
                h = Fraction(1, 2)
                lo, hi = (x >= k - h, x <= k + h) if k % 2 == 0 else (x > k - h, x < k + h)
            else:
                lo, hi = x >= k, x < k + 1
            c = zand(lo, hi)
            if c if isinstance(c, bool) else bool(c):
                return k
            if len(tried) > self.max_values:
                raise Inconclusive("more than %d values" % self.max_values)

    def product(self, s, o, isint):
        if self.mul == "poly":
            return self.poly_product(s, o, isint)

        def width(x):
            if not x.integral() or len(x.terms) > 3:
                return None
            lo, hi = x.interval()
            if lo is None or hi is None:
                return None
            return hi - lo + 1
        ws, wo = width(s), width(o)
        if self.mul == "fork":
            cand = [x for x in ((ws, 0), (wo, 1)) if x[0] is not None]
            if cand:
                w, i = min(cand)
                if i == 0:
                    return self.concretize(s) * o
                return s * self.concretize(o)
        elif self.mul == "ite":
            cand = [x for x in ((ws, 0), (wo, 1)) if x[0] is not None]
            if cand:
                w, i = min(cand)
                x, y = (s, o) if i == 0 else (o, s)
                if w <= self.ite_limit:
                    lo, hi = x.interval()
                    zx, zy = x.zexpr(), y.zexpr()
                    e = None
                    for v in range(int(lo), int(hi) + 1):
                        t = zy * (z3.IntVal(v) if zy.is_int() else z3.RealVal(v))
                        e = t if e is None else z3.If(zx == v, t, e)

                    def fn():
                        (al, ah), (bl, bh) = x.interval(), y.interval()
                        if None in (al, ah, bl, bh):
                            return None, None
                        c = [al * bl, al * bh, ah * bl, ah * bh]
                        return min(c), max(c)
                    at = Atom(self, e, None, None, zy.is_int(), fn)
                    return mk(self, ((at, 1),), 0, isint)
                if i == 0:
                    return self.concretize(s) * o
                return s * self.concretize(o)
        zs, zo = s.zexpr(), o.zexpr()
        if zs.is_int() != zo.is_int():
            zs, zo = s.zreal(), o.zreal()

        def fn2():
            (al, ah), (bl, bh) = s.interval(), o.interval()
            if None in (al, ah, bl, bh):
                return None, None
            c = [al * bl, al * bh, ah * bl, ah * bh]
            return (0 if s is o and al * ah < 0 else min(c)), max(c)
        at = Atom(self, zs * zo, None, None, zs.is_int(), fn2)
        return mk(self, ((at, 1),), 0, isint)

    def divide(self, n, d):
        if self.mul == "poly":
            return self.poly_divide(n, d)
        at = Atom(self, n.zreal() / d.zreal(), None, None, False)
        if bool(d == 0):
            raise ZeroDivisionError("division by zero")
        return Sym(self, ((at, 1),), 0, False)

    def sqrt(self, s):
        if self.mul == "poly":
            return self.poly_sqrt(s)
        self.nvars += 1
        v = z3.Real("sqrt!%d" % self.nvars)
        self.add(z3.And(v >= 0, v * v == s.zreal()))
        at = Atom(self, v, 0, None, False)
        return Sym(self, ((at, 1),), 0, False)

    def cbrt(self, s):
        """The cube root of a number that is not negative."""
        if self.mul == "poly":
            raise Unsupported("cube root in polynomial mode")
        if bool(s < 0):
            raise Unsupported("cube root of a negative number")
        self.nvars += 1
        v = z3.Real("cbrt!%d" % self.nvars)
        self.add(z3.And(v >= 0, v * v * v == s.zreal()))
        return Sym(self, ((Atom(self, v, 0, None, False), 1),), 0, False)

    # ------------------------------------------------------ harness interface
    def _var(self, name, isint, lo, hi):
        self.nvars += 1
        z = z3.Int(name) if isint else z3.Real(name)
        cs = []
        if lo is not None:
            cs.append(z >= _zval(lo))
        if hi is not None:
            cs.append(z <= _zval(hi))
        a = Atom(self, z, lo, hi, isint)
        if lo is not None and lo == hi:
            self.inputs.append((name, isint, None, lo))
            return native(lo, isint)
        if cs:
            self.add(z3.And(cs))
        s = Sym(self, ((a, 1),), 0, isint)
        self.inputs.append((name, isint, z, None))
        if self.eager:
            if not isint:
                raise Unsupported("eager execution of a real input")
            return self.concretize(s)
        return s

    def int(self, name, lo, hi):
        """A fresh symbolic integer lo <= x <= hi."""
        return self._var(name, True, lo, hi)

    def real(self, name, lo, hi):
        lo = None if lo is None else _tonum(lo)
        hi = None if hi is None else _tonum(hi)
        return self._var(name, False, lo, hi)

    def grid(self, name, lo, hi, den):
        """A symbolic rational k/den with lo <= k <= hi (as a float)."""
        k = self.int(name, lo, hi)
        if not isinstance(k, Sym):
            return k / den
        return k / den

    def bool(self, name):
        k = self.int(name, 0, 1)
        return k == 1

    def choose(self, name, n):
        """A concrete index in range(n), every value explored."""
        k = self.int(name, 0, n - 1)
        return self.concretize(k) if isinstance(k, Sym) else k

    def perm(self, name, n):
        """A symbolic permutation of range(n)."""
        eager, self.eager = self.eager, False
        p = [self.int("%s%d" % (name, i), 0, n - 1) for i in range(n)]
        self.eager = eager
        if n > 1:
            self.add(z3.Distinct([x.zexpr() for x in p]))
        if eager:
            p = [self.concretize(x) if isinstance(x, Sym) else x for x in p]
        return p

    def once(self, name, f):
        """The value of a call without symbolic inputs, computed on the first path only."""
        if name not in self.kept:
            pos, n = self.pos, len(self.trail)
            v = f()
            if (pos, n) != (self.pos, len(self.trail)) or has_sym(v):
                raise Inconclusive("a call shared by all paths is symbolic")
            self.kept[name] = pickle.dumps(v)
        return pickle.loads(self.kept[name])

    def check(self, cond, label):
        """Ask the solver whether cond can fail on this path."""
        if self.pos < len(self.trail):
            n = self.trail[self.pos]
            if n.kind == "check":
                self.pos += 1
                return
            raise Inconclusive("non-deterministic re-execution (%s at a check)" % n.kind)
        self.stats["checks"] += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if isinstance(cond, SymBool):
            z = z3.Not(cond.zexpr())
            if self.q(z):
                m = self._model() if not self.whole else self.rounded(z)
                if m is not None:
                    self.fail(label, m)
        elif isinstance(cond, (bool, np.bool_)):
            # decided by the path itself: the path condition is satisfiable
            if not cond:
                m = self.cur_model() if not self.whole else self.rounded(None)
                if m is not None:
                    self.fail(label, m)
        else:
            raise TypeError("check(%r)" % (cond,))
        n = Node("check")
        self.solver.push()
        self.push_node(n)

    def rounded(self, z):
        """A model in which every formatted number really is the nearest one with its decimals; None if there is none."""
        m0 = self._model() if z is not None else self.cur_model()
        nums = [t for t in self.strtab if isinstance(t, tuple) and t[2] is not None and isinstance(t[1], Sym)]
        if not nums:
            return m0
        self.solver.push()
        try:
            if z is not None:
                self.solver.add(z)
            for i, (_, r, p, e) in enumerate(nums):
                k = z3.Int("unit!%d" % i)
                self.solver.add((r * 10 ** p).zreal() == z3.ToReal(k))
                h = Fraction(49, 100 * 10 ** p)
                self.solver.add(z3.And(e.zexpr() <= _zval(h), e.zexpr() >= _zval(-h)))
            try:
                if not self.q():
                    return None
                return self._model()
            except Inconclusive:
                return m0
        finally:
            self.solver.pop()

    def fail(self, label, model):
        vals = self.values(model)
        self.counterexample = dict(label=label, values=vals)
        raise CheckFailed(label)

    def values(self, model):
        vals = {}
        for name, isint, z, c in self.inputs:
            if z is None:
                vals[name] = c if isint else [Fraction(c).numerator, Fraction(c).denominator]
                continue
            ev = model.eval(z, model_completion=True)
            if isint:
                vals[name] = ev.as_long()
            else:
                if z3.is_algebraic_value(ev):
                    ev = ev.approx(20)
                f = Fraction(ev.numerator_as_long(), ev.denominator_as_long())
                vals[name] = [f.numerator, f.denominator]
        return vals

    # --------------------------------------------------------------- driving
    def backtrack(self):
        while self.trail:
            n = self.trail[-1]
            if n.kind == "branch":
                self.solver.pop()
                if n.alts:
                    v, m, z = n.alts.pop()
                    n.val = v
                    n.model = m
                    self.solver.push()
                    self.solver.add(z)
                    return True
            elif n.kind == "value":
                self.solver.pop()
                if n.alts:
                    self.solver.add(n.expr != n.val)
                    if len(n.tried) >= self.max_values:
                        raise Inconclusive("more than %d values" % self.max_values)
                    if self.q():
                        m = self._model()
                        ev = m.eval(n.expr, model_completion=True)
                        v = ev.as_long() if z3.is_int_value(ev) else int(Fraction(ev.as_fraction()))
                        n.val = v
                        n.tried.append(v)
                        n.model = m
                        self.solver.push()
                        self.solver.add(n.expr == v)
                        return True
                self.solver.pop()
            else:
                self.solver.pop()
            self.trail.pop()
        return False

    def explore(self, run, path_timeout=60.0, max_paths=None):
        """run(ctx) executes one path.  Returns None or the counterexample."""
        import signal
        global CUR

        def onalarm(signum, frame):
            raise PathTimeout()
        old = signal.signal(signal.SIGALRM, onalarm)
        try:
            while True:
                self._reset()
                CUR = self
                path_solver = self.stats["solver_s"]
                path_t0 = time.time()
                signal.setitimer(signal.ITIMER_REAL, path_timeout)
                try:
                    run(self)
                    if self.pos < len(self.trail):
                        raise Inconclusive("non-deterministic re-execution (path ended early)")
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    if len(self.samples) < 3 and self.inputs:
                        self.samples.append(self.values(self.cur_model()))
                except PathInfeasible:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                except CheckFailed:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    self.stats["paths"] += 1
                    return self.counterexample
                except PathTimeout:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    self.stats["paths"] += 1
                    if self.in_q or self.stats["solver_s"] - path_solver > 0.5 * (time.time() - path_t0):
                        raise Inconclusive("solver too slow on a path")
                    try:
                        self.counterexample = dict(label="the call terminates",
                                                   values=self.values(self.cur_model()),
                                                   timeout=True)
                    except SymexError:
                        raise Inconclusive("path timeout")
                    return self.counterexample
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    CUR = None
                self.stats["paths"] += 1
                if max_paths is not None and self.stats["paths"] > max_paths:
                    raise Inconclusive("more than %d paths" % max_paths)
                if not self.backtrack():
                    return None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
