"""Instrumented loading of the package under test (source re-read on every run)."""
import ast
import builtins
import io
import math
import operator
import os
import pickle
import re
import sys
import types
from fractions import Fraction

import numpy as np

from . import core, nparr, symstr
from .core import Sym, SymBool, is_sym

CODE = {}
MEMO = {}


IOPS = {"Add": (operator.iadd, "add"), "Sub": (operator.isub, "subtract"), "Mult": (operator.imul, "multiply"),
        "Div": (operator.itruediv, "divide")}


class Tr(ast.NodeTransformer):
    def __init__(self, modname, strings):
        self.mod = modname
        self.strings = strings
        self.stack = []

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        name = self.mod + "." + ".".join(self.stack)
        self.stack.pop()
        hook = ast.Expr(ast.Call(ast.Name("__sx_enter__", ast.Load()), [ast.Constant(name)], []))
        body = node.body
        i = 1 if (body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant)
                  and isinstance(body[0].value.value, str)) else 0
        node.body = body[:i] + [hook] + body[i:]
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name):
            if node.func.id in ("int", "float", "isinstance", "type", "str") and not (
                    node.func.id == "type" and len(node.args) != 1):
                node.func = ast.Name("__sx_" + node.func.id + "__", ast.Load())
            elif node.func.id == "map" and node.args and isinstance(node.args[0], ast.Name) \
                    and node.args[0].id in ("int", "float", "str"):
                node.args[0] = ast.Name("__sx_" + node.args[0].id + "__", ast.Load())
        if self.strings:
            f = node.func
            if isinstance(f, ast.Attribute) and f.attr in STRM:
                return ast.Call(ast.Name("__sx_m__", ast.Load()), [f.value, ast.Constant(f.attr)] + node.args, node.keywords)
            if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == "__sx_bound__":
                node.func = f.args[0]
            if not (isinstance(f, ast.Name) and f.id in ("__sx_int__", "__sx_float__", "__sx_isinstance__", "len", "range", "print")):
                return self.wrap(node)
        return node

    @staticmethod
    def wrap(node):
        return ast.Call(ast.Name("__sx_s__", ast.Load()), [node], [])

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if self.strings and node.attr in ("format", "join") and isinstance(node.ctx, ast.Load):
            return ast.Call(ast.Name("__sx_bound__", ast.Load()), [node], [])
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return self.wrap(node) if self.strings else node

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)
        if node.format_spec is not None:
            self.generic_visit(node.format_spec)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.strings and isinstance(node.op, ast.Mod):
            return ast.Call(ast.Name("__sx_mod__", ast.Load()), [node.left, node.right], [])
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant, ast.Tuple)):
            return ast.Call(ast.Name("__sx_get__", ast.Load()), [node.value, node.slice], [])
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Name) and type(node.op).__name__ in IOPS:
            n = node.target.id
            return ast.Assign([ast.Name(n, ast.Store())],
                              ast.Call(ast.Name("__sx_iop__", ast.Load()),
                                       [ast.Constant(type(node.op).__name__), ast.Name(n, ast.Load()), node.value], []))
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if self.strings and len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            return ast.Call(ast.Name("__sx_in__", ast.Load()),
                            [ast.Constant(type(node.ops[0]).__name__), node.left, node.comparators[0]], [])
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.Tuple([ast.Name(n, ast.Load()) for n in
                                   ("Exception", "SystemExit", "KeyboardInterrupt")], ast.Load())
        return node


def compile_module(path, name, strings):
    key = (path, strings)
    if key not in CODE:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = Tr(name, strings).visit(tree)
        ast.fix_missing_locations(tree)
        CODE[key] = compile(tree, path, "exec")
    return CODE[key]


def sx_int(x=0, *a):
    if isinstance(x, Sym):
        return x.trunc()
    if isinstance(x, SymBool):
        return x.num()
    if isinstance(x, str) and symstr.has_symchars(x):
        return symstr.parse_int(core.CUR, x)
    return int(x, *a)


def sx_float(x=0.0):
    if isinstance(x, Sym):
        return Sym(x.ctx, x.terms, x.const, False)
    if isinstance(x, SymBool):
        return x.num()
    if isinstance(x, str) and symstr.has_symchars(x):
        return symstr.parse_float(core.CUR, x)
    if isinstance(x, Fraction):
        return float(x)
    return float(x)


def sx_str(*a):
    return symstr.wrap(str(*a))


def sx_isinstance(x, t):
    if isinstance(x, Sym):
        return isinstance(0 if x.isint else 0.0, t)
    if isinstance(x, SymBool):
        return isinstance(True, t)
    return isinstance(x, t)


def sx_type(x):
    if isinstance(x, Sym):
        return int if x.isint else float
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, nparr.SymArray):
        return np.ndarray
    if isinstance(x, symstr.SStr):
        return str
    return type(x)


NUM = (int, float, Sym, np.integer, np.floating)


def sx_get(o, i):
    if isinstance(i, Sym) and isinstance(o, (list, tuple, range)):
        c = core.CUR
        i = i.norm()
        if isinstance(i, Sym):
            if not i.isint:
                raise TypeError("list indices must be integers or slices, not float")
            n = len(o)
            if c.merge and 0 < n <= 64 and all(isinstance(e, NUM) for e in o):
                lo, hi = i.interval()
                if lo is None or lo < -n or hi is None or hi >= n:
                    if bool(i >= n) or bool(i < -n):
                        raise IndexError("list index out of range")
                lo, hi = i.interval()
                lo = -n if lo is None else max(int(lo), -n)
                hi = n - 1 if hi is None else min(int(hi), n - 1)
                vals = [o[k] for k in range(lo, hi + 1)]
                if all(v is vals[0] or (not is_sym(v) and v == vals[0]) for v in vals) and not is_sym(vals[0]):
                    return vals[0]
                r = vals[-1]
                # build from the end; identity shortcut i -> i
                if all(not is_sym(v) and isinstance(v, (int, np.integer)) and v == k
                       for v, k in zip(vals, range(lo, hi + 1))):
                    return i
                for k, v in zip(range(hi - 1, lo - 1, -1), reversed(vals[:-1])):
                    r = core.zite(i == k, v, r)
                return r
    return o[i]


def sx_iop(op, x, y):
    """x op= y; an array of machine numbers takes symbolic values by becoming an array of objects"""
    if isinstance(x, np.ndarray) and x.dtype != object and (core.has_sym(y) or getattr(y, "dtype", None) == object):
        if sys.getrefcount(x) > 3:
            raise core.Unsupported("in-place change of a shared array of numbers")
        if x.dtype.kind in "iub" and any(is_sym(e) and not e.isint for e in np.asarray(y, dtype=object).flat):
            raise np._core._exceptions._UFuncOutputCastingError(getattr(np, IOPS[op][1]), "same_kind", np.dtype(float), x.dtype, 0)
        x = x.astype(object)
    return IOPS[op][0](x, y)


STRM = ("count", "find", "rfind", "index", "rindex", "startswith", "endswith", "split", "rsplit", "partition", "rpartition",
        "strip", "lstrip", "rstrip", "replace", "removeprefix", "removesuffix", "translate")


def sx_m(o, name, *a, **k):
    """o.name(*a, **k) for the methods of str that look for their argument"""
    if type(o) is str:
        for x in a:
            if isinstance(x, symstr.SStr):
                o = symstr.SStr(o)
                break
    return symstr.wrap(getattr(o, name)(*a, **k))


def sx_bound(f):
    """a bound method "...".format or "...".join passed around as a function"""
    if isinstance(getattr(f, "__self__", None), str):
        return lambda *a, **k: symstr.wrap(f(*a, **k))
    return f


def sx_mod(a, b):
    if isinstance(a, str):
        return symstr.pformat(a, b)
    return a % b


def sx_in(op, a, b):
    if type(b) is str and isinstance(a, symstr.SStr):
        b = symstr.SStr(b)
    return a in b if op == "In" else a not in b


class SFile(io.TextIOWrapper):
    """a text file read by the code under test"""

    def read(self, *a):
        return symstr.wrap(super(SFile, self).read(*a))

    def readline(self, *a):
        return symstr.wrap(super(SFile, self).readline(*a))

    def readlines(self, *a):
        return [symstr.wrap(x) for x in super(SFile, self).readlines(*a)]

    def __next__(self):
        return symstr.wrap(super(SFile, self).__next__())


def sx_open(name, mode="r", buffering=-1, encoding=None, errors=None, newline=None, **k):
    name = symstr.conc(name)
    if "b" in mode:
        return open(name, mode, buffering, **k)
    return SFile(open(name, mode.replace("t", "") + "b"), encoding=encoding or "utf-8", errors=errors, newline=newline)


class ConcProxy(object):
    """a module outside the package: symbolic digits in its arguments take concrete values"""

    def __init__(self, mod):
        self.__dict__["_mod"] = mod

    def __getattr__(self, name):
        f = getattr(self._mod, name)
        if isinstance(f, types.ModuleType):
            return ConcProxy(f)
        if not callable(f) or isinstance(f, type):
            return f

        def g(*a, **k):
            r = f(*[symstr.conc(x) for x in a], **{n: symstr.conc(x) for n, x in k.items()})
            return ConcProxy(r) if isinstance(r, re.Pattern) else r
        return g

    def __setattr__(self, name, v):
        setattr(self._mod, name, v)


class MathProxy(object):
    __name__ = "math"

    def __getattr__(self, name):
        f = getattr(math, name)
        if not callable(f):
            return f

        def g(*a):
            if not core.has_sym(a):
                return f(*a)
            if name == "floor":
                return a[0].floor()
            if name == "ceil":
                return a[0].ceil()
            if name == "trunc":
                return a[0].trunc()
            if name == "fabs":
                return nparr.e_float(abs(a[0]))
            if name == "sqrt":
                return a[0].sqrt()
            if name == "modf":
                t = a[0].trunc()
                fr = a[0] - t
                return nparr.e_float(fr), nparr.e_float(t)
            if name == "fmod":
                x, y = a
                return x - y * (x / y).trunc() if isinstance(x / y, Sym) else f(*nparr.concrete(list(a)))
            if name == "pow":
                return nparr.e_float(a[0] ** a[1])
            if name == "isclose":
                return nparr.allclose(a[0], a[1])
            if name in ("isnan", "isinf"):
                return False
            if name == "isfinite":
                return True
            return f(*nparr.concrete(list(a)))
        return g


class Streams(object):
    """The state of a random number generator: draws are a function of the state and the position in its sequence.

    Two runs that start from the same seed see the same (symbolic) numbers; anything drawn before seeding belongs to the run's
    own starting state."""

    def __init__(self):
        self.memo = {}
        self.seeds = []
        self.fresh = 0
        self.restart(0)

    def restart(self, tag):
        self.state, self.pos = ("start", tag), 0

    def seed(self, a=None, *r):
        self.pos = 0
        if a is None:
            self.fresh += 1
            self.state = ("fresh", self.fresh)
            return
        for i, s in enumerate(self.seeds):
            if s is a or bool(s == a):
                self.state = ("seed", i)
                return
        self.seeds.append(a)
        self.state = ("seed", len(self.seeds) - 1)

    def draw(self, kind, make):
        key = (self.state, self.pos, kind)
        self.pos += 1
        if key not in self.memo:
            self.memo[key] = make()
        v = self.memo[key]
        return list(v) if isinstance(v, list) else v


class RandomStub(object):
    """Every draw is a fresh symbolic value constrained only by the documented range."""
    __name__ = "random"

    def __init__(self, ctx, parent=None, own=None):
        self._ctx = ctx
        self._n = 0
        self._parent = parent
        self._own = own              # the stream of a generator of its own

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise core.Unsupported("random.%s" % name)

    def _name(self):
        if self._parent is not None:
            return self._parent._name()
        self._n += 1
        k = self._ctx.max_draws
        if k and self._n > k:
            raise core.PathInfeasible()     # bound: runs with more draws are not explored
        return "rnd%d" % self._n

    def _draw(self, kind, f):
        st = self._ctx.streams if self._own is None else self._own
        if st is None:
            return f(self._name())
        return st.draw(kind, lambda: f(self._name()))

    def Random(self, *a):
        top = self._ctx.streams
        own = None
        if top is not None:
            own = Streams()
            own.memo, own.seeds = top.memo, top.seeds
            top.fresh += 1
            own.restart(("own", top.fresh))
            if a and a[0] is not None:
                own.seed(*a)
        return RandomStub(self._ctx, self._parent or self, own)

    def seed(self, a=None, *r, **k):
        st = self._ctx.streams if self._own is None else self._own
        if st is not None:
            st.seed(a)

    def _unit(self, name, closed):
        den = self._ctx.random_den
        if den:
            return self._ctx.grid(name, 0, den if closed else den - 1, den)
        r = self._ctx.real(name, 0, 1)
        if not closed:
            self._ctx.assume(r < 1)
        return r

    def random(self):
        return self._draw("random", lambda n: self._unit(n, False))

    def uniform(self, a, b):
        r = self._draw("uniform", lambda n: 0 if a == b else self._unit(n, True))
        return a if a == b else a + (b - a) * r

    def randint(self, a, b):
        if a > b:
            raise ValueError("empty range for randrange()")
        a, b = int(a), int(b)
        return self._draw(("int", a, b), lambda n: self._ctx.int(n, a, b))

    def randrange(self, a, b=None, step=1):
        if b is None:
            a, b = 0, a
        if step != 1:
            raise core.Unsupported("randrange step")
        if b <= a:
            raise ValueError("empty range for randrange()")
        return self.randint(int(a), int(b) - 1)

    def choice(self, seq):
        i = self.randint(0, len(seq) - 1)
        return seq[i]

    def choices(self, pop, weights=None, cum_weights=None, k=1):
        if weights is not None or cum_weights is not None:
            raise core.Unsupported("random.choices with weights")
        return [self.choice(pop) for _ in range(k)]

    def getrandbits(self, k):
        return self.randint(0, 2 ** k - 1)

    def shuffle(self, x):
        n = len(x)
        if n < 2:
            return
        p = self._draw(("perm", n), lambda m: list(self._ctx.perm(m, n)))
        x[:] = [sx_get(list(x), i) for i in p]

    def sample(self, pop, k):
        pop = list(pop)
        self.shuffle(pop)
        return pop[:k]


class TermStub(object):
    @staticmethod
    def cprint(*a, **k):
        return None

    @staticmethod
    def colored(s, *a, **k):
        return s


MEMO_FUNCS = {"symmetry": ("get_lattice_pointGroup", "get_spaceGroup")}


def memoise(key, f):
    def g(*a, **k):
        if core.has_sym(a) or (k and core.has_sym(k)):
            return f(*a, **k)
        try:
            kk = (key, pickle.dumps((lower_all(a), sorted(k.items()))))
        except core.SymexError:
            raise
        except Exception:
            return f(*a, **k)
        r = MEMO.get(kk)
        if r is None:
            v = f(*a, **k)
            after = (key, pickle.dumps((lower_all(a), sorted(k.items()))))
            if after != kk or core.has_sym(v):
                return v
            MEMO[kk] = pickle.dumps(v)
            return v
        return pickle.loads(r)
    g.__name__ = f.__name__
    g.__wrapped__ = f
    return g


def lower_all(a):
    if isinstance(a, np.ndarray):
        return np.asarray(a).tolist()
    if isinstance(a, (list, tuple)):
        return type(a)(lower_all(x) for x in a)
    return a


class Package(object):
    """`ph.<module>` gives the instrumented module; fresh modules on every path."""

    def __init__(self, repo, ctx, strings=False, memo=True, stubs=None):
        self._repo = repo
        self._dir = os.path.join(repo, "phenum")
        self._ctx = ctx
        self._mods = {}
        self._strings = strings
        self._memo = memo
        self._stubs = stubs or {}
        self._random = RandomStub(ctx)
        self._np = nparr.NumpyProxy(random=None, loadtxt=self._loadtxt if strings else None)
        self._math = MathProxy()
        b = dict(vars(builtins))
        b["__import__"] = self._import
        b["print"] = lambda *a, **k: None
        b["exit"] = self._exit
        b["quit"] = self._exit
        b["__sx_enter__"] = ctx.functions.add
        b["__sx_int__"] = sx_int
        b["__sx_float__"] = sx_float
        b["__sx_str__"] = sx_str
        b["__sx_isinstance__"] = sx_isinstance
        b["__sx_type__"] = sx_type
        b["__sx_get__"] = sx_get
        b["__sx_iop__"] = sx_iop
        b["__sx_m__"] = sx_m
        b["__sx_s__"] = symstr.wrap
        b["__sx_bound__"] = sx_bound
        b["__sx_mod__"] = sx_mod
        b["__sx_in__"] = sx_in
        if strings:
            b["open"] = sx_open
        self._b = b
        self.__path__ = [self._dir]

    @staticmethod
    def _exit(*a):
        raise SystemExit(*a)

    def _loadtxt(self, fname, dtype=float, comments="#", ndmin=0, **k):
        """numpy.loadtxt for whitespace separated tables, symbolic digits allowed."""
        rows = []
        conv = sx_int if nparr.kind_of(dtype) == "i" else sx_float
        with self._b["open"](fname) as f:
            for line in f:
                line = line.split(comments)[0]
                w = line.split()
                if w:
                    rows.append([conv(x) for x in w])
        if any(len(r) != len(rows[0]) for r in rows):
            raise ValueError("the number of columns changed")
        if not core.has_sym(rows):
            r = np.array(rows, dtype=dtype)
        else:
            r = nparr.o_array(rows)
        if ndmin < 2 and 1 in r.shape:
            r = np.squeeze(r)
        return r

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self._load(name)

    def _load(self, name):
        m = self._mods.get(name)
        if m is not None:
            return m
        path = os.path.join(self._dir, name + ".py")
        if not os.path.isfile(path):
            raise AttributeError("module 'phenum' has no attribute %r" % name)
        code = compile_module(path, name, self._strings)
        m = types.ModuleType("phenum." + name)
        m.__file__ = path
        m.__package__ = "phenum"
        m.__dict__["__builtins__"] = self._b
        self._mods[name] = m
        exec(code, m.__dict__)
        if self._memo:
            for fn in MEMO_FUNCS.get(name, ()):
                f = getattr(m, fn, None)
                if f is not None:
                    setattr(m, fn, memoise((path, fn), f))
        for (mn, fn), f in self._stubs.items():
            if mn == name:
                setattr(m, fn, f)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            if name:
                mod = self._load(name.split(".")[0])
                return mod
            for n in fromlist or ():
                try:
                    self._load(n)
                except AttributeError:
                    raise ImportError("cannot import name %r" % n)
            return self
        root = name.split(".")[0]
        if root == "phenum":
            if name == "phenum":
                return self
            mod = self._load(name.split(".")[1])
            return mod if fromlist else self
        if root == "numpy":
            if name == "numpy" or not fromlist:
                return self._np
            o = self._np
            for part in name.split(".")[1:]:
                o = getattr(o, part)
            return o
        if name == "math":
            return self._math
        if name == "random":
            return self._random
        if name == "termcolor":
            return TermStub
        if self._strings and root in ("re", "os", "shutil", "glob", "json", "fnmatch", "string"):
            m = builtins.__import__(name, globals, locals, fromlist, level)
            return ConcProxy(m)
        if root in ("tqdm", "matplotlib") and not hasattr(sys.modules.get(root), "recording"):
            raise ImportError(name)
        return builtins.__import__(name, globals, locals, fromlist, level)
