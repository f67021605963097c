"""Symbolic scalars: Num (extended real), SComplex, SBool, SInt, SStr.

Floats are mathematical reals plus +inf/-inf/nan flags.  Float literals and library
constants denote the decimal rational they are written as.
"""
import math
import numbers
from fractions import Fraction
import z3
from . import core
from .core import (cur, Unsupported, is_true, is_false, zb, b_not, b_and, b_or)

# ---------------------------------------------------------------- raw real terms


def isc(t):
    return isinstance(t, Fraction)


def zt(t):
    """raw real term -> z3 Real"""
    if isinstance(t, Fraction):
        return z3.RealVal("%d/%d" % (t.numerator, t.denominator)) if t.denominator != 1 else z3.RealVal(t.numerator)
    return t


def norm_t(t):
    if isinstance(t, z3.ArithRef) and z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return t


def t_add(a, b):
    if isc(a) and isc(b):
        return a + b
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    return zt(a) + zt(b)


def t_neg(a):
    if isc(a):
        return -a
    return -a


def t_sub(a, b):
    if isc(a) and isc(b):
        return a - b
    if isc(b) and b == 0:
        return a
    if isc(a) and a == 0:
        return -zt(b)
    return zt(a) - zt(b)


def t_mul(a, b):
    if isc(a) and isc(b):
        return a * b
    if (isc(a) and a == 0) or (isc(b) and b == 0):
        return Fraction(0)
    if isc(a) and a == 1:
        return b
    if isc(b) and b == 1:
        return a
    return zt(a) * zt(b)


def t_div(a, b):
    if isc(b):
        if b == 0:
            return core.cur() and zt(a) / zt(b)
        if isc(a):
            return a / b
        if b == 1:
            return a
        return t_mul(Fraction(1) / b, a)
    if isc(a) and a == 0:
        return Fraction(0)
    return zt(a) / zt(b)


def fold(c):
    """the condition with comparisons of positive quantities decided"""
    k = cur()
    if k is None or isinstance(c, bool):
        return c
    from .solve import polish
    r = polish(k, c)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


def abs2(t):
    """re*re + im*im if t is the modulus sqrt(re*re + im*im), else None"""
    if isc(t) or not z3.is_app(t) or t.decl().name() != "sqrt":
        return None
    x = t.arg(0)
    if not z3.is_app_of(x, z3.Z3_OP_ADD) or x.num_args() != 2:
        return None
    for p in x.children():
        if not (z3.is_app_of(p, z3.Z3_OP_MUL) and p.num_args() == 2 and p.arg(0).eq(p.arg(1))):
            return None
    return x


def t_lt(a, b):
    if isc(a) and isc(b):
        return a < b
    if isc(b) and b >= 0 and abs2(a) is not None:
        a, b = abs2(a), b * b
    elif isc(a) and a >= 0 and abs2(b) is not None:
        a, b = a * a, abs2(b)
    return fold(zt(a) < zt(b))


def t_le(a, b):
    if isc(a) and isc(b):
        return a <= b
    if isc(b) and b >= 0 and abs2(a) is not None:
        a, b = abs2(a), b * b
    elif isc(a) and a >= 0 and abs2(b) is not None:
        a, b = a * a, abs2(b)
    return fold(zt(a) <= zt(b))


def t_eq(a, b):
    if isc(a) and isc(b):
        return a == b
    if not isc(a) and not isc(b) and a.eq(b):
        return True
    return fold(zt(a) == zt(b))


def t_ite(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if isc(a) and isc(b) and a == b:
        return a
    if not isc(a) and not isc(b) and a.eq(b):
        return a
    return z3.If(c, zt(a), zt(b))


def b_ite(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if is_true(a) and is_true(b):
        return True
    if is_false(a) and is_false(b):
        return False
    return z3.If(zb(c), zb(a), zb(b))


_UF = {}


def uf(name, *ts):
    """uninterpreted real function application with light lemmas"""
    f = _UF.get((name, len(ts)))
    if f is None:
        f = z3.Function(name, *([z3.RealSort()] * (len(ts) + 1)))
        _UF[(name, len(ts))] = f
    app = f(*[zt(t) for t in ts])
    c = cur()
    if c is not None:
        k = app.get_id()
        if k not in c.uf_seen:
            c.uf_seen.add(k)
            _uf_lemmas(c, name, ts, app)
    return app


def _uf_lemmas(c, name, ts, app):
    c._keep = getattr(c, "_keep", [])
    c._keep.append(app)
    z = [zt(t) for t in ts]
    if name == "sqrt":
        c.lemma(z3.Implies(z[0] >= 0, z3.And(app >= 0, app * app == z[0])))
    elif name == "exp":
        c.lemma(app > 0)
    elif name == "atan":
        c.lemma(z3.And(app > -c.pi / 2, app < c.pi / 2))
    elif name == "atan2":
        c.lemma(z3.Implies(z[1] > 0, app == zt(uf("atan", t_div(ts[0], ts[1])))))


# ---------------------------------------------------------------- booleans

def raw_bool(x):
    if isinstance(x, SBool):
        return x.b
    if isinstance(x, bool):
        return x
    if isinstance(x, z3.BoolRef):
        return x
    if type(x).__name__ in ("bool_", "bool"):
        return bool(x)
    raise Unsupported("not a boolean: %r" % (x,))


class Proxy:
    """base of all symbolic values; anything not modelled is Unsupported"""
    __array_priority__ = 1000
    __slots__ = ()

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        raise Unsupported("attribute %s of %s" % (name, type(self).__name__))

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def __iter__(self):
        raise Unsupported("iteration over %s" % type(self).__name__)

    def __len__(self):
        raise Unsupported("len of %s" % type(self).__name__)

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        raise Unsupported("index() of a symbolic value")

    def __call__(self, *a, **k):
        raise TypeError("'%s' object is not callable" % self.pyname())

    def pyname(self):
        return "float"


def mkbool(b, npy=False):
    """raw -> python bool or SBool (numpy booleans stay objects: `x is False` is False)"""
    if isinstance(b, z3.BoolRef):
        if z3.is_true(b):
            b = True
        elif z3.is_false(b):
            b = False
    if npy:
        return SBool(b, True)
    if isinstance(b, bool):
        return b
    return SBool(b, False)


class SBool(Proxy):
    __slots__ = ("b", "npy")

    def __init__(self, b, npy=False):
        self.b = b
        self.npy = npy

    def __bool__(self):
        return cur().branch(self.b)

    def _o(self, o):
        if isinstance(o, SBool):
            return o.b, o.npy
        if isinstance(o, bool):
            return o, False
        return None, None

    def __and__(self, o):
        ob, n = self._o(o)
        if ob is None:
            return NotImplemented
        return mkbool(b_and(self.b, ob), self.npy or n)
    __rand__ = __and__

    def __or__(self, o):
        ob, n = self._o(o)
        if ob is None:
            return NotImplemented
        return mkbool(b_or(self.b, ob), self.npy or n)
    __ror__ = __or__

    def __xor__(self, o):
        ob, n = self._o(o)
        if ob is None:
            return NotImplemented
        return mkbool(b_ite(self.b, b_not(ob), ob), self.npy or n)
    __rxor__ = __xor__

    def __invert__(self):
        if not self.npy:
            raise Unsupported("~ of a python bool")
        return mkbool(b_not(self.b), True)

    def __eq__(self, o):
        ob, n = self._o(o)
        if ob is None:
            if o == 0 or o == 1:
                ob = bool(o)
            else:
                return False
        return mkbool(b_ite(self.b, ob, b_not(ob)), self.npy)

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(b_not(raw_bool(r)), self.npy)

    def _num(self):
        return Num(t_ite(self.b, Fraction(1), Fraction(0)), npy=self.npy)

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return self._num() < o

    def __le__(self, o):
        return self._num() <= o

    def __gt__(self, o):
        return self._num() > o

    def __ge__(self, o):
        return self._num() >= o
    __hash__ = Proxy.__hash__

    def item(self):
        return mkbool(self.b)

    def all(self, *a, **k):
        return self

    any = all

    def __repr__(self):
        return "<bool>"
    __str__ = __repr__

    def __format__(self, spec):
        return "<bool>"

    def pyname(self):
        return "bool"


# ---------------------------------------------------------------- integers

def int_term(x):
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, z3.ArithRef):
        return x
    if hasattr(x, "__index__") and not isinstance(x, Proxy):
        return z3.IntVal(int(x))
    raise Unsupported("not an integer: %r" % (x,))


def mkint(t):
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def is_intlike(x):
    return isinstance(x, SInt) or (isinstance(x, int) and not isinstance(x, bool)) or \
        (not isinstance(x, (Proxy, bool, float, complex, str, bytes, list, tuple, dict, set)) and isinstance(x, numbers.Integral))


class SInt(Proxy):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _b(self, o, f, rev=False):
        if isinstance(o, (SInt, int)) and not isinstance(o, bool):
            a, b = self.t, int_term(o)
            if rev:
                a, b = b, a
            return mkint(f(a, b))
        return NotImplemented

    def __add__(self, o):
        r = self._b(o, lambda a, b: a + b)
        return self.num() + o if r is NotImplemented else r

    def __radd__(self, o):
        r = self._b(o, lambda a, b: a + b)
        return o + self.num() if r is NotImplemented else r

    def __sub__(self, o):
        r = self._b(o, lambda a, b: a - b)
        return self.num() - o if r is NotImplemented else r

    def __rsub__(self, o):
        r = self._b(o, lambda a, b: a - b, True)
        return o - self.num() if r is NotImplemented else r

    def __mul__(self, o):
        r = self._b(o, lambda a, b: a * b)
        return self.num() * o if r is NotImplemented else r

    def __rmul__(self, o):
        if isinstance(o, (list, str, tuple)):
            raise Unsupported("sequence repetition by a symbolic int")
        r = self._b(o, lambda a, b: a * b)
        return o * self.num() if r is NotImplemented else r

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.t / o)
        raise Unsupported("symbolic //")

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.t % o)
        raise Unsupported("symbolic %")

    def __truediv__(self, o):
        return self.num() / o

    def __rtruediv__(self, o):
        return o / self.num()

    def __pow__(self, o):
        return self.num() ** o

    def __neg__(self):
        return mkint(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.t >= 0, self.t, -self.t))

    def _c(self, o, f, g):
        if isinstance(o, SInt) or (isinstance(o, int) and not isinstance(o, bool)):
            return mkbool(z3.simplify(f(self.t, int_term(o))))
        if isinstance(o, (Num, float, Fraction)):
            return g(self.num(), o)
        return NotImplemented

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b, lambda a, b: a != b)
        return True if r is NotImplemented else r
    __hash__ = Proxy.__hash__

    def __bool__(self):
        return cur().branch(self.t != 0)

    def num(self, npy=False):
        return Num(z3.ToReal(self.t), npy=npy)

    def conc(self):
        """the only value possible on this path, or None"""
        c = cur()
        r, m = c._check()
        if m is None:
            return None
        v = m.eval(self.t, model_completion=True)
        if c.implied(self.t == v):
            return v.as_long()
        return None

    def __index__(self):
        v = self.conc()
        if v is None:
            raise Unsupported("symbolic integer used as an index of a native object")
        return v

    __int__ = __index__

    def __repr__(self):
        return "<int>"
    __str__ = __repr__

    def __format__(self, spec):
        return "<int>"

    def pyname(self):
        return "int"


# ---------------------------------------------------------------- extended reals

def dec(x):
    """python/numpy number -> Fraction with the decimal meaning of its repr"""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    return Fraction(repr(float(x)))


def tonum(x, npy=False):
    """coerce to Num or return None"""
    if isinstance(x, Num):
        return x
    if isinstance(x, SInt):
        return x.num(npy)
    if isinstance(x, SBool):
        return x._num()
    if isinstance(x, (bool, int)):
        return Num(Fraction(int(x)), npy=npy)
    if isinstance(x, Fraction):
        return Num(x, npy=npy)
    if isinstance(x, float):
        npy = npy or type(x) is not float
        if math.isnan(x):
            return Num(Fraction(0), na=True, npy=npy)
        if math.isinf(x):
            return Num(Fraction(0), pi=x > 0, ni=x < 0, npy=npy)
        return Num(dec(x), npy=npy)
    if isinstance(x, numbers.Real):
        return Num(dec(float(x)), npy=True)
    return None


class Num(Proxy):
    __slots__ = ("t", "pi", "ni", "na", "npy", "isint")

    def __init__(self, t, pi=False, ni=False, na=False, npy=False, isint=False):
        self.t = norm_t(t)
        self.pi, self.ni, self.na = pi, ni, na
        self.npy = npy
        self.isint = isint

    # flags
    def plain(self):
        return self.pi is False and self.ni is False and self.na is False

    def fin(self):
        return b_not(b_or(self.pi, self.ni, self.na))

    def const(self):
        return isc(self.t) and self.plain()

    def cflags(self):
        return all(isinstance(f, bool) for f in (self.pi, self.ni, self.na))

    # arithmetic
    def _bin(self, o, f):
        n = tonum(o)
        if n is None:
            return None
        return f(self, n)

    def __add__(self, o):
        if isinstance(o, (complex, SComplex)):
            return SComplex(self, 0) + o
        r = self._bin(o, n_add)
        return NotImplemented if r is None else r

    def __radd__(self, o):
        if isinstance(o, (complex, SComplex)):
            return tocomplex(o) + SComplex(self, 0)
        r = self._bin(o, lambda a, b: n_add(b, a))
        return NotImplemented if r is None else r

    def __sub__(self, o):
        if isinstance(o, (complex, SComplex)):
            return SComplex(self, 0) - o
        r = self._bin(o, n_sub)
        return NotImplemented if r is None else r

    def __rsub__(self, o):
        if isinstance(o, (complex, SComplex)):
            return tocomplex(o) - SComplex(self, 0)
        r = self._bin(o, lambda a, b: n_sub(b, a))
        return NotImplemented if r is None else r

    def __mul__(self, o):
        if isinstance(o, (complex, SComplex)):
            return SComplex(self, 0) * o
        r = self._bin(o, n_mul)
        return NotImplemented if r is None else r

    def __rmul__(self, o):
        if isinstance(o, (complex, SComplex)):
            return tocomplex(o) * SComplex(self, 0)
        r = self._bin(o, lambda a, b: n_mul(b, a))
        return NotImplemented if r is None else r

    def __truediv__(self, o):
        if isinstance(o, (complex, SComplex)):
            return SComplex(self, 0) / o
        r = self._bin(o, n_div)
        return NotImplemented if r is None else r

    def __rtruediv__(self, o):
        if isinstance(o, (complex, SComplex)):
            return tocomplex(o) / SComplex(self, 0)
        r = self._bin(o, lambda a, b: n_div(b, a))
        return NotImplemented if r is None else r

    def __pow__(self, o, mod=None):
        n = tonum(o)
        if n is None:
            return NotImplemented
        return n_pow(self, n)

    def __rpow__(self, o):
        n = tonum(o)
        if n is None:
            return NotImplemented
        return n_pow(n, self)

    def __floordiv__(self, o):
        raise Unsupported("real //")

    def __mod__(self, o):
        raise Unsupported("real %")

    def __neg__(self):
        return Num(t_neg(self.t), self.ni, self.pi, self.na, self.npy)

    def __pos__(self):
        return self

    def __abs__(self):
        if isc(self.t):
            t = abs(self.t)
        else:
            t = z3.If(self.t >= 0, self.t, -self.t)
        return Num(t, b_or(self.pi, self.ni), False, self.na, self.npy)

    # comparisons
    def _cmp(self, o, f):
        if isinstance(o, SComplex):
            raise TypeError("complex ordering")
        n = tonum(o)
        if n is None:
            return NotImplemented
        return mkbool(f(self, n), self.npy or n.npy)

    def __lt__(self, o):
        return self._cmp(o, n_lt)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: n_lt(b, a))

    def __le__(self, o):
        return self._cmp(o, n_le)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: n_le(b, a))

    def __eq__(self, o):
        if isinstance(o, (SComplex, complex)):
            return tocomplex(self) == o
        n = tonum(o)
        if n is None:
            if hasattr(o, "_sarr"):
                return NotImplemented
            return False
        return mkbool(n_eq(self, n), self.npy or n.npy)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(b_not(raw_bool(r)), isinstance(r, SBool) and r.npy)
    def __hash__(self):
        if self.cflags():
            if self.na:
                return hash(float("nan"))
            if self.pi:
                return hash(float("inf"))
            if self.ni:
                return hash(float("-inf"))
            if isc(self.t):
                return hash(self.t)
        raise Unsupported("hash of a symbolic number")

    def __bool__(self):
        return cur().branch(b_not(n_eq(self, Num(Fraction(0)))))

    def __float__(self):
        if self.cflags():
            if self.na:
                return float("nan")
            if self.pi:
                return float("inf")
            if self.ni:
                return float("-inf")
            if isc(self.t):
                return float(self.t)
        raise Unsupported("float() of a symbolic number")

    def __int__(self):
        if self.const():
            return int(self.t)
        raise Unsupported("int() of a symbolic number")

    # numpy scalar interface
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Num(Fraction(0), npy=self.npy)

    @property
    def shape(self):
        if self.npy:
            return ()
        raise AttributeError("'float' object has no attribute 'shape'")

    @property
    def size(self):
        if self.npy:
            return 1
        raise AttributeError("'float' object has no attribute 'size'")

    @property
    def ndim(self):
        if self.npy:
            return 0
        raise AttributeError("'float' object has no attribute 'ndim'")

    @property
    def dtype(self):
        if self.npy:
            from .arrays import DT
            return DT["i" if self.isint else "f"]
        raise AttributeError("'float' object has no attribute 'dtype'")

    def _npm(self, name):
        if not self.npy:
            raise AttributeError("'float' object has no attribute '%s'" % name)

    def min(self, *a, **k):
        self._npm("min")
        return self
    def max(self, *a, **k):
        self._npm("max")
        return self

    def copy(self):
        self._npm("copy")
        return self

    def item(self):
        self._npm("item")
        return Num(self.t, self.pi, self.ni, self.na)

    def tolist(self):
        self._npm("tolist")
        return Num(self.t, self.pi, self.ni, self.na)

    def astype(self, dt, **k):
        self._npm("astype")
        from . import shim_np
        return shim_np.cast_scalar(self, dt)

    def round(self, decimals=0):
        self._npm("round")
        from . import shim_np
        return shim_np.round(self, decimals)

    def conjugate(self):
        return self

    def is_integer(self):
        raise Unsupported("is_integer")

    def __getitem__(self, i):
        if not self.npy:
            raise TypeError("'float' object is not subscriptable")
        from . import arrays
        return arrays.scalar_getitem(self, i)

    def __setitem__(self, i, v):
        raise TypeError("'float' object does not support item assignment")

    def __len__(self):
        raise TypeError("object of type 'float' has no len()")

    def __iter__(self):
        raise TypeError("'float' object is not iterable")

    def __round__(self, nd=None):
        from . import shim_np
        return shim_np.round(self, nd or 0)

    def __repr__(self):
        if self.cflags() and (isc(self.t) or self.pi or self.ni or self.na):
            return repr(float(self))
        return tok_repr(self)

    __str__ = __repr__

    def __format__(self, spec):
        if self.cflags() and (isc(self.t) or self.pi or self.ni or self.na):
            return format(float(self), spec)
        return tok_repr(self, spec)

    def pyname(self):
        return "float"


def tok_repr(num, spec=""):
    """an opaque textual token standing for the printed number"""
    c = cur()
    if c is None:
        return "<num>"
    from . import text
    return text.token(num, spec)


def n_add(a, b):
    npy = a.npy or b.npy
    if a.plain() and b.plain():
        return Num(t_add(a.t, b.t), npy=npy)
    na = b_or(a.na, b.na, b_and(a.pi, b.ni), b_and(a.ni, b.pi))
    pi = b_and(b_or(a.pi, b.pi), b_not(na))
    ni = b_and(b_or(a.ni, b.ni), b_not(na))
    return Num(t_add(a.t, b.t), pi, ni, na, npy)


def n_sub(a, b):
    return n_add(a, -b)


def n_mul(a, b):
    npy = a.npy or b.npy
    if a.plain() and b.plain():
        return Num(t_mul(a.t, b.t), npy=npy)
    def pos(x):
        return b_or(x.pi, b_and(x.fin(), t_lt(Fraction(0), x.t)))
    def neg(x):
        return b_or(x.ni, b_and(x.fin(), t_lt(x.t, Fraction(0))))
    ainf, binf = b_or(a.pi, a.ni), b_or(b.pi, b.ni)
    az = b_and(a.fin(), t_eq(a.t, Fraction(0)))
    bz = b_and(b.fin(), t_eq(b.t, Fraction(0)))
    na = b_or(a.na, b.na, b_and(ainf, bz), b_and(az, binf))
    anyinf = b_and(b_or(ainf, binf), b_not(na))
    pp = b_or(b_and(pos(a), pos(b)), b_and(neg(a), neg(b)))
    return Num(t_mul(a.t, b.t), b_and(anyinf, pp), b_and(anyinf, b_not(pp)), na, npy)


def n_div(a, b):
    npy = a.npy or b.npy
    bz = b_and(b.fin(), t_eq(b.t, Fraction(0)))
    if is_true(bz) or (not npy and not is_false(bz)):
        if not npy:
            if cur().branch(bz):
                raise ZeroDivisionError("float division by zero")
            bz = False
    c = cur()
    if c is None or not c.exact_div:
        if not is_true(bz) and not is_false(bz):
            # poles are excluded by the contracts
            if c is not None and not isc(b.t) and b.t.get_id() not in c.pole_ids:
                c.pole_ids[b.t.get_id()] = b.t
                if not c.implied_lin(zb(b_not(bz))):
                    if c.implied_lin(zb(bz)):
                        del c.pole_ids[b.t.get_id()]
                        bz = True
                    else:
                        c.poles.append(b.t)
                        c.add(b_not(bz))
            if not is_true(bz):
                bz = False
    if a.plain() and b.plain() and is_false(bz):
        return Num(t_div(a.t, b.t), npy=npy)
    ainf, binf = b_or(a.pi, a.ni), b_or(b.pi, b.ni)
    az = b_and(a.fin(), t_eq(a.t, Fraction(0)))
    na = b_or(a.na, b.na, b_and(ainf, binf), b_and(az, bz))
    def pos(x):
        return b_or(x.pi, b_and(x.fin(), t_le(Fraction(0), x.t)))
    same = b_or(b_and(pos(a), pos(b)), b_and(b_not(pos(a)), b_not(pos(b))))
    inf = b_and(b_or(ainf, bz), b_not(na))
    t = t_ite(binf, Fraction(0), t_div(a.t, b.t))
    return Num(t, b_and(inf, same), b_and(inf, b_not(same)), na, npy)


def n_lt(a, b):
    if a.plain() and b.plain():
        return t_lt(a.t, b.t)
    ok = b_and(b_not(a.na), b_not(b.na))
    return b_and(ok, b_or(
        b_and(a.ni, b_not(b.ni)),
        b_and(b_not(a.pi), b.pi),
        b_and(a.fin(), b.fin(), t_lt(a.t, b.t))))


def n_le(a, b):
    if a.plain() and b.plain():
        return t_le(a.t, b.t)
    ok = b_and(b_not(a.na), b_not(b.na))
    return b_and(ok, b_or(a.ni, b.pi, b_and(a.fin(), b.fin(), t_le(a.t, b.t))))


def n_eq(a, b):
    if a.plain() and b.plain():
        return t_eq(a.t, b.t)
    return b_or(b_and(a.pi, b.pi), b_and(a.ni, b.ni),
                b_and(a.fin(), b.fin(), t_eq(a.t, b.t)))


def n_ite(c, a, b):
    a, b = tonum(a), tonum(b)
    if is_true(c):
        return a
    if is_false(c):
        return b
    return Num(t_ite(c, a.t, b.t), b_ite(c, a.pi, b.pi), b_ite(c, a.ni, b.ni),
               b_ite(c, a.na, b.na), a.npy or b.npy)


def n_pow(a, p):
    npy = a.npy or p.npy
    if p.const() and p.t.denominator == 1 and abs(p.t) <= 64:
        k = int(p.t)
        if k == 0:
            return Num(Fraction(1), npy=npy)
        r = a
        for _ in range(abs(k) - 1):
            r = n_mul(r, a)
        if k < 0:
            r = n_div(Num(Fraction(1), npy=npy), r)
        if k == 1 and npy and not r.npy:
            r = Num(r.t, r.pi, r.ni, r.na, True)
        return r
    if p.const() and p.t == Fraction(1, 2):
        return n_sqrt(a)
    if not (a.plain() and p.plain()):
        raise Unsupported("power of an infinite value")
    return Num(uf("pow", a.t, p.t), npy=npy)


def n_sqrt(a):
    if not a.plain():
        if a.ni is False and a.na is False:
            return Num(_sqrt_t(a.t), a.pi, False, False, True)
        raise Unsupported("sqrt of inf/nan")
    return Num(_sqrt_t(a.t), npy=True)


def _sqrt_t(t):
    if isc(t) and t >= 0:
        n, d = math.isqrt(t.numerator), math.isqrt(t.denominator)
        if n * n == t.numerator and d * d == t.denominator:
            return Fraction(n, d)
    return uf("sqrt", t)


# ---------------------------------------------------------------- complex

def tocomplex(x):
    if isinstance(x, SComplex):
        return x
    if isinstance(x, Num):
        return SComplex(x, Num(Fraction(0)))
    if isinstance(x, complex):
        r, i = tonum(x.real), tonum(x.imag)
        npy = type(x) is not complex
        return SComplex(r, i, npy)
    n = tonum(x)
    if n is not None:
        return SComplex(n, Num(Fraction(0)))
    if type(x).__name__ == "complex128":
        return tocomplex(complex(x))
    return None


class SComplex(Proxy):
    __slots__ = ("re", "im", "npy")

    def __init__(self, re, im, npy=None):
        self.re, self.im = tonum(re), tonum(im)
        self.npy = (self.re.npy or self.im.npy) if npy is None else npy

    def _o(self, o):
        return tocomplex(o)

    def __add__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return SComplex(n_add(self.re, o.re), n_add(self.im, o.im), self.npy or o.npy)
    __radd__ = __add__

    def __sub__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return SComplex(n_sub(self.re, o.re), n_sub(self.im, o.im), self.npy or o.npy)

    def __rsub__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return o - self

    def __mul__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        a, b, c, d = self.re, self.im, o.re, o.im
        return SComplex(n_sub(_m0(a, c), _m0(b, d)), n_add(_m0(a, d), _m0(b, c)), self.npy or o.npy)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        npy = self.npy or o.npy
        if o.im.const() and o.im.t == 0:
            q = Num(o.re.t, o.re.pi, o.re.ni, o.re.na, True) if npy else o.re
            return SComplex(n_div(self.re, q), n_div(self.im, q), npy)
        c, d = o.re, o.im
        den = n_add(n_mul(c, c), n_mul(d, d))
        den = Num(den.t, den.pi, den.ni, den.na, npy)
        num = self * SComplex(c, -d)
        return SComplex(n_div(num.re, den), n_div(num.im, den), npy)

    def __rtruediv__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return o / self

    def __neg__(self):
        return SComplex(-self.re, -self.im, self.npy)

    def __pos__(self):
        return self

    def __pow__(self, o, mod=None):
        return c_pow(self, o)

    def __abs__(self):
        return n_sqrt(n_add(n_mul(self.re, self.re), n_mul(self.im, self.im)))

    def __eq__(self, o):
        o = self._o(o)
        if o is None:
            return False
        return mkbool(b_and(n_eq(self.re, o.re), n_eq(self.im, o.im)), self.npy or o.npy)

    def __ne__(self, o):
        return mkbool(b_not(raw_bool(self == o)), self.npy)
    __hash__ = Proxy.__hash__

    def __bool__(self):
        return cur().branch(b_not(raw_bool(self == 0)))

    def __lt__(self, o):
        raise TypeError("'<' not supported between instances of 'complex'")
    __le__ = __gt__ = __ge__ = __lt__

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    @property
    def shape(self):
        if self.npy:
            return ()
        raise AttributeError("'complex' object has no attribute 'shape'")

    @property
    def size(self):
        if self.npy:
            return 1
        raise AttributeError("'complex' object has no attribute 'size'")

    def conjugate(self):
        return SComplex(self.re, -self.im, self.npy)

    def conj(self):
        return SComplex(self.re, -self.im, self.npy)

    def item(self):
        return SComplex(self.re, self.im, False)

    def __len__(self):
        raise TypeError("object of type 'complex' has no len()")

    def __getitem__(self, i):
        raise TypeError("'complex' object is not subscriptable")

    def __repr__(self):
        return "(%r+%rj)" % (self.re, self.im)
    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def pyname(self):
        return "complex"


def _m0(a, b):
    """finite multiplication used inside complex products"""
    return n_mul(a, b)


def c_pow(z, p):
    n = tonum(p)
    if n is not None and n.const() and n.t.denominator == 1 and 1 <= abs(n.t) <= 16:
        k = int(n.t)
        r = z
        for _ in range(abs(k) - 1):
            r = r * z
        if k < 0:
            r = SComplex(Num(Fraction(1)), Num(Fraction(0))) / r
        return r
    if n is not None and n.const() and n.t == Fraction(1, 2):
        return c_sqrt(z)
    raise Unsupported("complex power")


def c_sqrt(z):
    """principal square root: w*w = z, Re w >= 0, and Im w >= 0 when Re w = 0 (numpy, Im z not -0)"""
    if not (z.re.plain() and z.im.plain()):
        raise Unsupported("complex sqrt of inf/nan")
    x, y = z.re.t, z.im.t
    if isc(y) and y == 0 and isc(x):
        if x >= 0:
            return SComplex(Num(_sqrt_t(x), npy=True), Num(Fraction(0), npy=True), True)
        return SComplex(Num(Fraction(0), npy=True), Num(_sqrt_t(-x), npy=True), True)
    u, v = uf("csqrt_re", x, y), uf("csqrt_im", x, y)
    c = cur()
    key = ("csqrt", u.get_id())
    if key not in c.uf_seen:
        c.uf_seen.add(key)
        c._keep = getattr(c, "_keep", [])
        c._keep.append((u, v))
        c.lemma(u * u - v * v == zt(x))
        c.lemma(2 * u * v == zt(y))
        c.lemma(u >= 0)
        c.lemma(z3.Implies(u == 0, v >= 0))
        c.csq = getattr(c, "csq", [])
        c.csq.append((u, v, x, y))
    return SComplex(Num(u, npy=True), Num(v, npy=True), True)


# ---------------------------------------------------------------- strings

class SStr(Proxy):
    """an arbitrary string (z3 String constant); lower()/upper() are functions of it"""
    __slots__ = ("t", "lo", "up", "origin")

    def __init__(self, t, origin=None):
        self.t = t
        self.lo = None
        self.up = None
        self.origin = origin

    def lower(self):
        if self.origin == "lower":
            return self
        if self.lo is None:
            f = z3.Function("str_lower", z3.StringSort(), z3.StringSort())
            self.lo = SStr(f(self.t), "lower")
        return self.lo

    def upper(self):
        if self.up is None:
            f = z3.Function("str_upper", z3.StringSort(), z3.StringSort())
            self.up = SStr(f(self.t), "upper")
        return self.up

    casefold = lower

    def __eq__(self, o):
        if isinstance(o, SStr):
            return mkbool(z3.simplify(self.t == o.t))
        if isinstance(o, str):
            if self.origin == "lower" and o != o.lower():
                return False
            if self.origin == "upper" and o != o.upper():
                return False
            return mkbool(z3.simplify(self.t == z3.StringVal(o)))
        return False

    def __ne__(self, o):
        return mkbool(b_not(raw_bool(self == o)))
    __hash__ = Proxy.__hash__

    def __bool__(self):
        return cur().branch(z3.Not(self.t == z3.StringVal("")))

    def __add__(self, o):
        if isinstance(o, str):
            return SStr(z3.Concat(self.t, z3.StringVal(o)))
        if isinstance(o, SStr):
            return SStr(z3.Concat(self.t, o.t))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SStr(z3.Concat(z3.StringVal(o), self.t))
        return NotImplemented

    def __repr__(self):
        return "<str>"
    __str__ = __repr__

    def __format__(self, spec):
        return "<str>"

    def __contains__(self, o):
        raise Unsupported("substring test on a symbolic string")

    def replace(self, a, b):
        f = z3.Function("str_replace", z3.StringSort(), z3.StringSort(), z3.StringSort(), z3.StringSort())
        return SStr(f(self.t, z3.StringVal(a), z3.StringVal(b)))

    def pyname(self):
        return "str"


# ---------------------------------------------------------------- generic helpers

def ite(c, a, b):
    """if-then-else on symbolic values (c raw)"""
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, SComplex) or isinstance(b, SComplex) or isinstance(a, complex) or isinstance(b, complex):
        a, b = tocomplex(a), tocomplex(b)
        return SComplex(n_ite(c, a.re, b.re), n_ite(c, a.im, b.im), a.npy or b.npy)
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return mkbool(b_ite(c, raw_bool(a), raw_bool(b)), isinstance(a, SBool) and a.npy)
    if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
        return mkint(z3.If(c, int_term(a), int_term(b)))
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        return SStr(z3.If(c, str_term(a), str_term(b)))
    x, y = tonum(a), tonum(b)
    if x is None or y is None:
        raise Unsupported("merging %s and %s" % (type(a).__name__, type(b).__name__))
    return n_ite(c, x, y)


def str_term(s):
    if isinstance(s, SStr):
        return s.t
    if isinstance(s, str):
        return z3.StringVal(s)
    raise Unsupported("not a string")


def subst(v, pairs):
    """substitute z3 constants inside a symbolic value"""
    if isinstance(v, Num):
        def s(x):
            return x if isinstance(x, (bool, Fraction)) else z3.substitute(x, *pairs)
        r = Num(s(v.t), s(v.pi), s(v.ni), s(v.na), v.npy)
        return _sum_fix(r, pairs)
    if isinstance(v, SComplex):
        return SComplex(subst(v.re, pairs), subst(v.im, pairs), v.npy)
    if isinstance(v, SInt):
        return mkint(z3.substitute(v.t, *pairs))
    if isinstance(v, SBool):
        return v if isinstance(v.b, bool) else mkbool(z3.substitute(v.b, *pairs), v.npy)
    if isinstance(v, SStr):
        return SStr(z3.substitute(v.t, *pairs), v.origin)
    if isinstance(v, (int, float, str, bool, type(None), complex)):
        return v
    if isinstance(v, list):
        return [subst(x, pairs) for x in v]
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, dict):
        return {k: subst(x, pairs) for k, x in v.items()}
    if hasattr(v, "_subst"):
        return v._subst(pairs)
    raise Unsupported("substitution in %s" % type(v).__name__)


def _sum_fix(r, pairs):
    """sum atoms are constants: substituting inside requires rebuilding them"""
    c = cur()
    if not c.sums or isinstance(r.t, Fraction):
        return r
    from . import solve
    used = solve.sum_atoms(r.t, c)
    changed = []
    for sid in used:
        n, body, J = c.sums[sid]
        nn, nb = z3.substitute(n, *pairs), z3.substitute(body, *pairs)
        if not (nn.eq(n) and nb.eq(body)):
            changed.append((used[sid], sum_atom(nn, nb, J)))
    if not changed:
        return r
    return Num(z3.substitute(r.t, *changed), r.pi, r.ni, r.na, r.npy)


def sum_atom(n, body, J):
    """real constant standing for Sum_{J=0}^{n-1} body(J)"""
    c = cur()
    n = z3.simplify(n)
    J0 = z3.Int("J!")
    body = z3.substitute(body, (J, J0)) if not J.eq(J0) else body
    for sid, (m, b, _) in c.sums.items():
        if m.eq(n) and b.eq(body):
            return z3.Real(sid)
    sid = c.fresh("SUM")
    c.sums[sid] = (n, body, J0)
    s = z3.Real(sid)
    c.lemma(z3.Implies(n <= 0, s == 0))
    c.lemma(z3.Implies(n == 1, s == z3.substitute(body, (J0, z3.IntVal(0)))))
    c.lemma(z3.Implies(n == 2, s == z3.substitute(body, (J0, z3.IntVal(0))) +
                       z3.substitute(body, (J0, z3.IntVal(1)))))
    return s


def zval(x):
    """z3 model value -> python float/int/str/bool"""
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if z3.is_algebraic_value(x):
        return zval(x.approx(20))
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    if z3.is_string_value(x):
        return x.as_string()
    raise ValueError("no value")


def extract_input(m, kind, payload):
    ev = (lambda t: zval(m.eval(t, model_completion=True))) if m is not None else None
    if kind == "choice":
        return payload
    if m is None:
        return None
    if kind == "num":
        return _numval(ev, payload)
    if kind == "int":
        return ev(payload)
    if kind == "bool":
        return ev(payload)
    if kind == "str":
        raw = ev(payload.t)
        if payload.lo is not None:
            lo = ev(payload.lo.t)
            if raw.lower() != lo:
                raw = lo
        return raw
    if kind == "arr":
        n, fn = payload
        k = ev(int_term(n))
        if not isinstance(k, int) or k > 3000:
            return None
        return [_numval(ev, fn(z3.IntVal(i))) for i in range(k)]
    if kind == "table":
        n, nc, fn = payload
        k = ev(int_term(n))
        if k > 3000:
            return None
        return [[_numval(ev, fn(z3.IntVal(i), z3.IntVal(j))) for j in range(nc)] for i in range(k)]
    raise ValueError(kind)


def _numval(ev, v):
    if isinstance(v, SComplex):
        return complex(_numval(ev, v.re), _numval(ev, v.im))
    v = tonum(v)
    def f(b):
        return b if isinstance(b, bool) else ev(b)
    if f(v.na):
        return float("nan")
    if f(v.pi):
        return float("inf")
    if f(v.ni):
        return float("-inf")
    if isinstance(v.t, Fraction):
        return float(v.t)
    return float(ev(v.t))
