"""Symbolic decimal strings.

A formatted symbolic integer becomes an ordinary str whose digits are private-use
characters; each character stands for one decimal digit (a linear form).  Split,
join, slicing, writing to a file and reading back all work natively on such
strings; int()/float() turn them back into symbolic numbers.
"""
import math
import re
from fractions import Fraction

import z3

from . import core

BASE = 0xE000
LIMIT = 0xF8FF
SPEC = re.compile(r"^(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?(,)?(?:\.(\d+))?([a-zA-Z%])?$")


def _digitchar(ctx, form):
    """character for a digit form (int or Sym in 0..9)"""
    if not isinstance(form, core.Sym):
        return str(int(form))
    ctx.strtab.append(form)
    c = BASE + len(ctx.strtab) - 1
    if c > LIMIT:
        raise core.Unsupported("too many symbolic digits on one path")
    return chr(c)


def is_symchar(c):
    return BASE <= ord(c) <= LIMIT


def has_symchars(s):
    return not str.isascii(s) and any(is_symchar(c) for c in str.__iter__(s))


def digits(ctx, n, mindigits=1):
    """Decimal digits of a nonnegative symbolic integer (forks on their number)."""
    k = mindigits
    while bool(n >= 10 ** k):
        k += 1
        if k > 40:
            raise core.Unsupported("very long number")
    out = []
    qs = [n]
    for i in range(k):
        qs.append(qs[-1] // 10 if isinstance(qs[-1], core.Sym) else int(qs[-1]) // 10)
    for i in reversed(range(k)):
        out.append(_digitchar(ctx, qs[i] - 10 * qs[i + 1]))
    return "".join(out)


def format_sym(s, spec):
    ctx = s.ctx
    n = s.norm()
    if not isinstance(n, core.Sym):
        return format(n, spec)
    s = n
    m = SPEC.match(spec)
    if not m:
        raise core.Unsupported("format spec %r" % spec)
    fill, align, sign, alt, zero, width, comma, prec, typ = m.groups()
    if ctx.whole and not s.isint and typ in ("f", "F"):
        return whole(ctx, s, 6 if prec is None else int(prec), sign, int(width) if width else 0, align or ">", fill or " ")
    if ctx.whole and not s.isint and typ is None and prec is None and not width:
        return whole(ctx, s, None, sign, 0, ">", " ")
    neg = bool(s < 0)
    a = -s if neg else s
    if s.isint and typ in (None, "d"):
        if prec is not None:
            raise ValueError("Precision not allowed in integer format specifier")
        body = digits(ctx, a) if isinstance(a, core.Sym) else str(a)
    else:
        if typ in ("d",):
            raise ValueError("Unknown format code 'd' for object of type 'float'")
        if typ in ("f", "F"):
            p = 6 if prec is None else int(prec)
            body = fixed(ctx, a, p)
        else:
            v = ctx.concretize_real(s)
            return format(v, spec)
        # negative zero keeps its sign in python
    sg = "-" if neg else ("+" if sign == "+" else " " if sign == " " else "")
    w = int(width) if width else 0
    if zero and not align:
        fill, align = "0", "="
    fill = fill or " "
    align = align or ">"
    pad = w - len(sg) - len(body)
    if pad <= 0:
        return sg + body
    if align == "=":
        return sg + fill * pad + body
    if align == ">":
        return fill * pad + sg + body
    if align == "<":
        return sg + body + fill * pad
    l = pad // 2
    return fill * l + sg + body + fill * (pad - l)


def whole(ctx, s, p, sign, width, align, fill):
    """one character for the number rounded to p decimals (the rounding error is a free variable)"""
    e = 0                   # str() and repr() of a number are exact
    if p is not None:
        ctx.nvars += 1
        h = Fraction(1, 2 * 10 ** p)
        z = z3.Real("round!%d" % ctx.nvars)
        ctx.add(z3.And(z >= core._zval(-h), z <= core._zval(h)))
        e = core.Sym(ctx, ((core.Atom(ctx, z, -h, h, False), 1),), 0, False)
    ctx.strtab.append(("number", s + e, p, e))
    c = BASE + len(ctx.strtab) - 1
    if c > LIMIT:
        raise core.Unsupported("too many symbolic numbers on one path")
    t = chr(c)
    if sign in (" ", "+"):
        t = " " + t
    pad = max(0, width - len(t))
    return t + fill * pad if align == "<" else fill * pad + t


def fixed(ctx, a, p):
    """nonnegative real with p decimals."""
    if not isinstance(a, core.Sym):
        return ("%." + str(p) + "f") % a
    r = (a * (10 ** p))
    r = r.rint() if isinstance(r, core.Sym) else int(round(r))
    if isinstance(r, core.Sym):
        r = core.Sym(ctx, r.terms, r.const, True)
        d = digits(ctx, r, p + 1)
    else:
        d = str(int(r)).zfill(p + 1)
    return d[:-p] + "." + d[-p:] if p else d


def parse_int(ctx, s):
    """int(s) for a string with symbolic digits."""
    t = str.strip(s)
    sg = 1
    if t[:1] in "+-" and t:
        sg = -1 if t[0] == "-" else 1
        t = t[1:]
    if not t:
        raise ValueError("invalid literal for int() with base 10: %r" % s)
    v = 0
    for c in t:
        if is_symchar(c):
            d = ctx.strtab[ord(c) - BASE]
        elif c.isdigit():
            d = int(c)
        else:
            raise ValueError("invalid literal for int() with base 10: %r" % s)
        v = v * 10 + d
    return v * sg


def parse_float(ctx, s):
    t = str.strip(s)
    if len(t) == 1 and is_symchar(t) and isinstance(ctx.strtab[ord(t) - BASE], tuple):
        return ctx.strtab[ord(t) - BASE][1]
    sg = 1
    if t[:1] in "+-" and t:
        sg = -1 if t[0] == "-" else 1
        t = t[1:]
    ip, dot, fp = t.partition(".")
    if not ip and not fp:
        raise ValueError("could not convert string to float: %r" % s)
    v = parse_int(ctx, ip) if ip else 0
    f = parse_int(ctx, fp) if fp else 0
    if fp:
        v = v + (f / (10 ** len(fp)) if isinstance(f, core.Sym) else Fraction(f, 10 ** len(fp)))
    v = v * sg
    if isinstance(v, core.Sym):
        return core.Sym(ctx, v.terms, v.const, False)
    return float(v)


def concretize_str(ctx, s):
    """Replace the symbolic digits of s by concrete ones (forking)."""
    out = []
    for c in str.__iter__(s):
        if is_symchar(c):
            d = ctx.strtab[ord(c) - BASE]
            if isinstance(d, tuple):
                raise core.Unsupported("the characters of a formatted number")
            out.append(str(ctx.concretize(d) if isinstance(d, core.Sym) else d))
        else:
            out.append(c)
    return "".join(out)


def str_eq(a, b):
    """equality of two strings with symbolic characters"""
    if str.__len__(a) != str.__len__(b) and not (wholes(a) or wholes(b)):
        return False
    tab = core.CUR.strtab

    def what(c):
        if not is_symchar(c):
            return c, None
        d = tab[ord(c) - BASE]
        return (None, None) if isinstance(d, tuple) else (None, d)
    cond = []
    for x, y in zip(str.__iter__(a), str.__iter__(b)):
        if x == y:
            continue
        (cx, dx), (cy, dy) = what(x), what(y)
        if (cx is None and dx is None) or (cy is None and dy is None):      # a whole number in one character
            o = cy if cx is None else cx
            if o is not None and o not in "0123456789.+-einfa":
                return False
            raise core.Unsupported("comparison of a formatted number")
        if cx is not None and cy is not None:
            return False
        o = cx if cx is not None else cy
        if o is not None:
            if not o.isdigit():
                return False
            cond.append((dx if cx is None else dy) == int(o))
        else:
            cond.append(dx == dy)
    if str.__len__(a) != str.__len__(b):
        return False
    return bool(core.zand(*cond)) if cond else True


def wholes(s):
    tab = core.CUR.strtab
    return any(is_symchar(c) and isinstance(tab[ord(c) - BASE], tuple) for c in str.__iter__(s))


def wrap(x):
    """strings with symbolic characters become SStr (also inside lists and tuples of strings)"""
    if type(x) is str:
        return SStr(x) if not x.isascii() and has_symchars(x) else x
    if type(x) is list:
        for i, e in enumerate(x):
            if type(e) is str and not e.isascii() and has_symchars(e):
                x[i] = SStr(e)
        return x
    return x


def conc(x):
    if isinstance(x, str):
        return concretize_str(core.CUR, x) if has_symchars(x) else x
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return type(x)(conc(e) for e in x)
    return x


NUMCHARS = "0123456789.+-einfa"


class SStr(str):
    """A string with symbolic digits: every operation that looks at them goes to the solver."""
    __slots__ = ()

    def _c(self):
        return concretize_str(core.CUR, self)

    def __str__(self):
        return self

    def __repr__(self):
        return SStr(str.__repr__(self)) if not wholes(self) else "'" + str.__str__(self) + "'"

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return str_eq(self, o)

    def __ne__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return not str_eq(self, o)

    def __lt__(self, o):
        return self._c() < conc(o)

    def __le__(self, o):
        return self._c() <= conc(o)

    def __gt__(self, o):
        return self._c() > conc(o)

    def __ge__(self, o):
        return self._c() >= conc(o)

    def __hash__(self):
        return hash(self._c())

    def __int__(self):
        return int(self._c())

    def __float__(self):
        return float(self._c())

    def __bool__(self):
        return True

    def __len__(self):
        if wholes(self):
            raise core.Unsupported("the length of a formatted number")
        return str.__len__(self)

    def __iter__(self):
        if wholes(self):
            raise core.Unsupported("the characters of a formatted number")
        return (wrap(c) for c in list(str.__iter__(self)))

    def __reversed__(self):
        return iter([self[i] for i in range(len(self) - 1, -1, -1)])

    def __getitem__(self, k):
        if wholes(self):
            t = str.__str__(self)
            n = str.__len__(t)
            w = [i for i in range(n) if is_symchar(t[i])]
            if isinstance(k, slice):
                ok = k.step in (None, 1)
                for b in (k.start, k.stop):
                    if b is not None:
                        ok = ok and (b <= w[0] if b >= 0 else n + b > w[-1])
            else:
                # the first character of a number: only good for comparing with other characters
                ok = (k <= w[0]) if k >= 0 else (n + k >= w[-1])
            if not ok:
                raise core.Unsupported("the characters of a formatted number")
        return wrap(str.__getitem__(self, k))

    def __add__(self, o):
        return wrap(str.__add__(self, o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return wrap(str.__add__(o, self))

    def __mul__(self, n):
        return wrap(str.__mul__(self, n))

    __rmul__ = __mul__

    def __mod__(self, a):
        return pformat(self, a)

    def __contains__(self, o):
        if self._plain(o):
            return str.__contains__(self, o)
        if isinstance(o, str) and str.__len__(o) == 1 and not wholes(self):
            return any(c == o for c in self)
        return conc(o) in self._c()

    def _plain(self, *args):
        """the arguments cannot match anything inside a number"""
        bad = NUMCHARS if wholes(self) else NUMCHARS[:10]
        return all(a is None or isinstance(a, int) or isinstance(a, str) and not has_symchars(a)
                   and not any(ch in bad for ch in a) for a in args)

    def count(self, sub, *r):
        if self._plain(sub) and not r and sub:
            return str.count(self, sub)
        if not r and len(sub) == 1:
            return sum(1 for c in self if c == sub)
        return self._c().count(conc(sub), *r)

    def join(self, it):
        return wrap(str.join(self, it))

    def format(self, *a, **k):
        return wrap(str.format(self, *a, **k))

    def encode(self, *a, **k):
        return str.encode(str.__str__(self), *a, **k)

    def strip(self, *a):
        return self._split("strip", a)

    def _split(self, name, a, k={}):
        args = [x for x in list(a) + list(k.values())]
        if self._plain(*args):
            r = getattr(str, name)(self, *a, **k)
            return tuple(wrap(x) for x in r) if isinstance(r, tuple) else wrap(r)
        return getattr(self._c(), name)(*[conc(x) for x in a], **k)


def _mk():
    # the digits do not matter to these, provided the arguments hold no character of a number
    for name in ("lstrip", "rstrip", "split", "rsplit", "splitlines", "partition", "rpartition", "replace", "removeprefix",
                 "removesuffix"):
        def f(self, *a, _n=name, **k):
            if _n == "replace":
                if self._plain(a[0]):
                    return wrap(str.replace(self, *a, **k))
                return str.replace(self._c(), conc(a[0]), a[1], *a[2:], **k)
            return self._split(_n, a, k)
        setattr(SStr, name, f)
    for name in ("find", "rfind", "index", "rindex"):
        def f(self, sub, *r, _n=name):
            if self._plain(sub) and sub and not wholes(self):
                return getattr(str, _n)(self, sub, *r)
            return getattr(self._c(), _n)(conc(sub), *r)
        setattr(SStr, name, f)
    for name in ("startswith", "endswith"):
        def f(self, sub, *r, _n=name):
            if not r and isinstance(sub, str) and sub and self._plain(sub):
                return getattr(str, _n)(self, sub)
            return getattr(self._c(), _n)(conc(sub), *r)
        setattr(SStr, name, f)
    # every symbolic character is a digit
    for name in ("isdigit", "isdecimal", "isnumeric", "isalnum", "isalpha", "isspace", "isidentifier", "islower", "isupper",
                 "istitle", "isprintable", "isascii"):
        def f(self, _n=name):
            if wholes(self):
                if _n in ("isspace", "isalpha"):
                    return False
                raise core.Unsupported("the characters of a formatted number")
            return getattr("".join("0" if is_symchar(c) else c for c in str.__iter__(self)), _n)()
        setattr(SStr, name, f)
    for name in ("lower", "upper", "casefold", "swapcase", "ljust", "rjust", "center", "expandtabs", "zfill"):
        def f(self, *a, _n=name):
            if _n in ("ljust", "rjust", "center", "zfill", "expandtabs") and wholes(self):
                if _n == "zfill":
                    raise core.Unsupported("the width of a formatted number")
            return wrap(getattr(str, _n)(self, *a))
        setattr(SStr, name, f)
    for name in ("title", "capitalize", "translate", "format_map"):
        def f(self, *a, _n=name):
            return getattr(self._c(), _n)(*a)
        setattr(SStr, name, f)


_mk()

PSPEC = re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<w>\d+|\*)?(?:\.(?P<p>\d+|\*))?[hlL]?(?P<c>[diouxXeEfFgGcrsa%])")


def pformat(fmt, a):
    """fmt % a"""
    args = a if isinstance(a, tuple) else (a,)
    if not core.has_sym(args) and not any(isinstance(x, SStr) for x in args) and not (isinstance(a, dict) and core.has_sym(a)):
        return wrap(str.__mod__(str.__str__(fmt), a))
    it = iter(args)
    out = []
    pos = 0
    t = str.__str__(fmt)
    for m in PSPEC.finditer(t):
        out.append(t[pos:m.start()])
        pos = m.end()
        c = m.group("c")
        if c == "%":
            out.append("%")
            continue
        try:
            w = next(it) if m.group("w") == "*" else m.group("w")
            p = next(it) if m.group("p") == "*" else m.group("p")
            x = a[m.group("key")] if m.group("key") is not None else next(it)
        except StopIteration:
            raise TypeError("not enough arguments for format string")
        fl = m.group("flags")
        if isinstance(x, core.Sym) and c in "diufFeEgG":
            if c in "diu":
                x, c = x.trunc(), "d"
            elif x.isint:
                x = core.Sym(x.ctx, x.terms, x.const, False)
            spec = ("<" if "-" in fl else ">" if "0" not in fl else "") + ("+" if "+" in fl else " " if " " in fl else "")
            spec += ("0" if "0" in fl and "-" not in fl else "") + (str(w) if w is not None else "")
            spec += ("." + str(p) if p is not None and c != "d" else "") + c
            out.append(format(x, spec))
        else:
            s = "%" + fl + (str(w) if w is not None else "") + ("." + str(p) if p is not None else "") + c
            if isinstance(x, SStr) and c != "s":
                x = x._c()
            out.append(str.__mod__(s, (x,)))
    out.append(t[pos:])
    if not isinstance(a, dict) and next(it, out) is not out:
        raise TypeError("not all arguments converted during string formatting")
    return wrap("".join(out))
