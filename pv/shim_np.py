"""numpy as seen by the code under verification (assumed contracts of the numpy functions)."""
import math
from fractions import Fraction
import z3
from . import core
from .core import cur, Unsupported, is_true, is_false, zb, b_and, b_or, b_not
from .values import (Proxy, Num, SComplex, SBool, SInt, SStr, tonum, tocomplex, raw_bool, mkbool, mkint,
                     int_term, is_intlike, ite, uf, n_pow, n_sqrt, c_sqrt, c_pow, isc, zt, t_ite, t_lt, t_div, t_sub, t_mul)
from . import arrays as A
from .arrays import SArr, MSel, SList, DT, dtkey, dt_of, dt_join, cast_elem, ew1, ew2, ewn, lift, from_flat, _npval, pyi, iterm

INF = Num(Fraction(0), pi=True)
NAN = Num(Fraction(0), na=True)


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SArr)


class ndarray(metaclass=_NdMeta):
    def __new__(cls, *a, **k):
        raise Unsupported("np.ndarray()")


class _ScMeta(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __call__(cls, x=0, *a, **k):
        return _npval(cast_scalar(x, cls))

    def __eq__(cls, o):
        if isinstance(o, A.DType):
            return o.kind == cls._dt
        return cls is o

    def __hash__(cls):
        return id(cls)


def _mk(name, dt, check, base=object):
    return _ScMeta(name, (), {"_dt": dt, "_check": staticmethod(check)})


float64 = _mk("float64", "f", lambda x: isinstance(x, Num) and x.npy and not x.isint)
int64 = _mk("int64", "i", lambda x: isinstance(x, Num) and x.npy and x.isint)
complex128 = _mk("complex128", "c", lambda x: isinstance(x, SComplex) and x.npy)
bool_ = _mk("bool", "b", lambda x: isinstance(x, SBool) and x.npy)
generic = _mk("generic", "O", lambda x: isinstance(x, (Num, SComplex, SBool)) and x.npy)
number = _mk("number", "O", lambda x: isinstance(x, (Num, SComplex)) and x.npy)
floating = _mk("floating", "f", lambda x: isinstance(x, Num) and x.npy and not x.isint)
complexfloating = _mk("complexfloating", "c", lambda x: isinstance(x, SComplex) and x.npy)
integer = _mk("integer", "i", lambda x: isinstance(x, Num) and x.npy and x.isint)
object_ = _mk("object_", "O", lambda x: False)
str_ = _mk("str_", "O", lambda x: False)
DTYPE_CLASS = {"f": float64, "i": int64, "c": complex128, "b": bool_, "O": object_}


def cast_scalar(x, dt):
    d = dtkey(dt)
    if isinstance(x, SArr):
        return x.astype(dt)
    return cast_elem(x, d)


# ---------------------------------------------------------------- construction

def _is_seq(x):
    return isinstance(x, (list, tuple, SList, SArr))


def array(obj, dtype=None, copy=True, ndmin=0, **kw):
    d = dtkey(dtype, None) if dtype is not None else None
    if dtype is not None and d is None:
        raise Unsupported("dtype")
    r = _array(obj, d)
    while r.ndim < ndmin:
        f = r.f
        r = SArr((1,) + r.shape_, r.dt, lambda i, *ix, f=f: f(*ix))
    return r


def _array(obj, d):
    if isinstance(obj, MSel):
        return obj.copy() if d in (None, obj.dt) else ew1(lambda v: cast_elem(v, d), obj, d)
    if isinstance(obj, SArr):
        r = obj.snapshot()
        return r if d in (None, r.dt) else r.astype(DT[d])
    if isinstance(obj, SList):
        if isinstance(obj.n, int):
            return _array([obj.f(i) for i in range(obj.n)], d)
        f = obj.f
        probe = f(z3.Int("probe!"))
        if isinstance(probe, (list, tuple)) or (isinstance(probe, SArr) and probe.ndim == 1 and isinstance(probe.shape_[0], int)):
            if isinstance(probe, (list, tuple)):
                m = len(probe)
                dt = d or (dt_join(*[dt_of(x) for x in probe]) if probe else "f")

                def g(i, j):
                    row = f(i)
                    return cast_elem(A.pick(list(row), (m,), (j,)), dt)
            else:
                m = probe.shape_[0]
                dt = d or probe.dt

                def g(i, j):
                    return cast_elem(f(i).f(j), dt)
            return SArr((obj.n, m), dt, g)
        if isinstance(probe, (SList, SArr)):
            raise Unsupported("ragged symbolic list")
        dt = d or dt_of(probe)
        if dt == "O" and not isinstance(probe, (str, SStr)):
            raise Unsupported("object array")
        return SArr((obj.n,), dt, lambda i: cast_elem(f(i), dt))
    if isinstance(obj, (list, tuple)):
        if not obj:
            return SArr((0,), d or "f", lambda i: Num(Fraction(0), npy=True))
        if any(_is_seq(x) for x in obj):
            if not all(_is_seq(x) for x in obj):
                raise ValueError("setting an array element with a sequence. The requested array has an "
                                 "inhomogeneous shape")
            rows = [_array(x, d) for x in obj]
            dt = d or dt_join(*[r.dt for r in rows])
            sh = rows[0].shape_
            for r in rows[1:]:
                if len(r.shape_) != len(sh):
                    raise ValueError("setting an array element with a sequence. inhomogeneous shape")
                for x, y in zip(r.shape_, sh):
                    e = A.dim_eq(x, y)
                    if not is_true(e) and cur().branch(b_not(e)):
                        raise ValueError("setting an array element with a sequence. inhomogeneous shape")
            return stack_rows(rows, dt)
        dt = d or dt_join(*[dt_of(x) for x in obj])
        els = [cast_elem(x, dt) for x in obj]
        return from_flat(els, (len(els),), dt)
    if obj is None or isinstance(obj, (dict, set)):
        return SArr((), "O", lambda: obj)
    if not isinstance(obj, Proxy) and hasattr(obj, "_df_values"):
        return obj._df_values()
    if hasattr(obj, "__iter__") and not isinstance(obj, (str, Proxy)):
        return _array(list(obj), d) if not isinstance(obj, (type({}.keys()), type({}.values()))) else SArr((), "O", lambda: obj)
    dt = d or dt_of(obj)
    v = cast_elem(obj, dt)
    return SArr((), dt, lambda: v)


def stack_rows(rows, dt=None):
    dt = dt or dt_join(*[r.dt for r in rows])
    fs = [r.f for r in rows]
    n = len(rows)

    def f(i, *ix):
        i = pyi(i)
        if isinstance(i, int):
            return cast_elem(fs[i](*ix), dt)
        r = cast_elem(fs[-1](*ix), dt)
        for j in range(n - 2, -1, -1):
            r = ite(i == j, cast_elem(fs[j](*ix), dt), r)
        return r
    return SArr((n,) + tuple(rows[0].shape_), dt, f)


def asarray(obj, dtype=None, **k):
    if isinstance(obj, SArr) and (dtype is None or dtkey(dtype) == obj.dt):
        return obj
    return array(obj, dtype)


asanyarray = ascontiguousarray = asarray


def asfarray(o):
    return asarray(o, "f")


def atleast_1d(*a):
    if len(a) != 1:
        return [atleast_1d(x) for x in a]
    x = asarray(a[0])
    if x.ndim == 0:
        f = x.f
        return SArr((1,), x.dt, lambda i: f())
    return x


def atleast_2d(a):
    x = atleast_1d(a)
    if x.ndim == 1:
        f = x.f
        return SArr((1, x.shape_[0]), x.dt, lambda i, j: f(j))
    return x


def _shape(s):
    if isinstance(s, (list, tuple)):
        out = []
        for d in s:
            out.append(_dim(d))
        return tuple(out)
    return (_dim(s),)


def _dim(d):
    if isinstance(d, Num):
        if not d.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        d = A._pyval(d)
    if isinstance(d, (SInt, int)):
        if isinstance(d, SInt):
            return A.canon_len(d.t)
        return d
    raise TypeError("'%s' object cannot be interpreted as an integer" % type(d).__name__)


def full(shape, fill, dtype=None, **k):
    d = dtkey(dtype) if dtype is not None else dt_of(fill)
    v = cast_elem(fill, d)
    return SArr(_shape(shape), d, lambda *ix: v)


def ones(shape, dtype=None, **k):
    return full(shape, 1, dtype or "f")


def zeros(shape, dtype=None, **k):
    return full(shape, 0, dtype or "f")


def empty(shape, dtype=None, **k):
    d = dtkey(dtype)
    nm = cur().fresh("empty")
    sh = _shape(shape)
    if d == "O":
        return SArr(sh, d, lambda *ix: None)
    fn = z3.Function(nm, *([z3.IntSort()] * max(1, len(sh)) + [z3.RealSort()]))

    def f(*ix):
        v = Num(fn(*([iterm(i) for i in ix] or [z3.IntVal(0)])), npy=True)
        return cast_elem(v, d) if d != "b" else mkbool(v.t > 0, True)
    return SArr(sh, d, f)


def shape(a):
    a = lift(a)
    if isinstance(a, SArr):
        return a.shape_
    return ()


def ndim(a):
    return len(shape(a))


def size(a, axis=None):
    a = lift(a)
    if not isinstance(a, SArr):
        return 1
    return a.size if axis is None else a.shape_[axis]


def ones_like(a, dtype=None, **k):
    a = asarray(a)
    return full(a.shape_, 1, dtype or DT[a.dt])


def zeros_like(a, dtype=None, **k):
    a = asarray(a)
    return full(a.shape_, 0, dtype or DT[a.dt])


def empty_like(a, dtype=None, **k):
    a = asarray(a)
    return empty(a.shape_, dtype or DT[a.dt])


def full_like(a, v, dtype=None, **k):
    a = asarray(a)
    return full(a.shape_, v, dtype or DT[a.dt])


def copy(a, **k):
    return array(a)


def arange(*a, **k):
    if k and set(k) - {"dtype"}:
        raise Unsupported("arange options")
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    else:
        lo, hi = a[0], a[1]
        st = a[2] if len(a) > 2 else 1
    if not (is_intlike(lo) and is_intlike(hi) and isinstance(st, int) and st > 0):
        raise Unsupported("arange of reals")
    if isinstance(lo, int) and isinstance(hi, int):
        els = list(range(lo, hi, st))
        return array(els, "i") if els else SArr((0,), "i", lambda i: Num(Fraction(0)))
    n = A.canon_len(A.imax0(z3.simplify((int_term(hi) - int_term(lo) + st - 1) / st)))
    return SArr((n,), "i", lambda i: Num(z3.ToReal(int_term(lo) + st * iterm(i)), npy=True, isint=True))


def _space(name, a, b, num, endpoint, mono):
    if endpoint is not True:
        raise Unsupported("endpoint")
    a, b = tonum(a), tonum(b)
    if a is None or b is None:
        raise Unsupported("space of arrays")
    num = pyi(num)
    c = cur()
    if name == "geomspace":
        for x in (a, b):
            z = raw_bool(x == 0)
            if not is_false(z) and c.branch(z):
                raise ValueError("Geometric sequence cannot include zero")
            nf = b_not(x.fin())
            if not is_false(nf) and c.branch(nf):
                raise Unsupported("geomspace to infinity")
        a, b = Num(a.t, npy=True), Num(b.t, npy=True)
    if isinstance(num, int) and num == 1:
        return from_flat([a], (1,), "f")
    nt = iterm(num)
    at, bt = zt(a.t), zt(b.t)
    if c.implied_lin(z3.And(at > 0, bt > 0), 80):
        name += "+"
        c.positive[name] = True
    order = 1 if c.implied_lin(at < bt, 80) else -1 if c.implied_lin(bt < at, 80) else 0
    fn = z3.Function(name, z3.RealSort(), z3.RealSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
    known = set()

    def f(i):
        i = pyi(i)
        if isinstance(i, int):
            if i == 0:
                return a
            if isinstance(num, int) and i == num - 1:
                return b
        t = fn(at, bt, nt, iterm(i))
        c = cur()
        if order and not isinstance(i, int):
            if t.get_id() not in known:
                known.add(t.get_id())
                lo, hi = (at, bt) if order > 0 else (bt, at)
                ii = iterm(i)
                c.add_raw(z3.Implies(z3.And(ii >= 0, ii < nt), z3.And(t >= lo, t <= hi, (t == at) == (ii == 0),
                                                                       (t == bt) == (ii == nt - 1))))
            return Num(t, npy=True)
        lo, hi = z3.If(at <= bt, at, bt), z3.If(at <= bt, bt, at)
        c.lemma(z3.Implies(z3.And(iterm(i) > 0, iterm(i) < nt - 1),
                           z3.If(at == bt, t == at, z3.And(t > lo, t < hi))))
        if isinstance(i, int):
            return Num(t, npy=True)
        c.lemma(z3.And(z3.Implies(i == 0, t == at), z3.Implies(i == nt - 1, t == bt)))
        return Num(t, npy=True)
    r = SArr((num if isinstance(num, int) else SInt(num),), "f", f)
    return r


def geomspace(start, stop, num=50, endpoint=True, **k):
    return _space("geomspace", start, stop, num, endpoint, True)


def linspace(start, stop, num=50, endpoint=True, **k):
    if endpoint is not True:
        raise Unsupported("endpoint")
    a, b = tonum(start), tonum(stop)
    num = pyi(num)
    if not isinstance(num, int):
        raise Unsupported("linspace")
    d = (b - a) / (num - 1) if num > 1 else Num(Fraction(0))
    return SArr((num,), "f", lambda i: a + d * (Num(z3.ToReal(i)) if not isinstance(i, int) else i))


# ---------------------------------------------------------------- elementwise

def _ufunc(fn, dt=None):
    def g(x, out=None, where=None, dtype=None, **kw):
        if kw:
            raise Unsupported("ufunc options")
        r = ew1(fn, x, dt(x) if callable(dt) else dt)
        return _out(r, out, where)
    return g


def _out(r, out, where):
    if out is None:
        if where is not None and where is not True:
            raise Unsupported("ufunc where= without out=")
        return r
    if isinstance(out, tuple):
        out = out[0]
    if not isinstance(out, SArr):
        raise TypeError("return arrays must be of ArrayType")
    if where is not None and where is not True:
        w = lift(where)
        old = out.snapshot()
        r = ewn(lambda c, x, y: ite(raw_bool(c), x, y), out.dt, w, r, old)
    out[...] = r
    return out


def _bin(op):
    def g(a, b, out=None, where=None, dtype=None, **kw):
        if kw:
            raise Unsupported("ufunc options")
        if where is not None and where is not True and out is not None:
            pass
        return _out(_ew2(op, a, b), out, where)
    return g


def _ew2(op, a, b):
    a, b = lift(a), lift(b)
    if not isinstance(a, SArr) and not isinstance(b, SArr):
        d = A.op_dt(op, a, b)
        r = A.sc(op, _npval(a), b)
        if d == "i" and isinstance(r, Num) and not r.isint:
            r = Num(r.t, npy=True, isint=True)
        return _npval(r)
    return ew2(op, a, b)


add, subtract, multiply = _bin("+"), _bin("-"), _bin("*")
divide = true_divide = _bin("/")
less, less_equal, greater, greater_equal = _bin("<"), _bin("<="), _bin(">"), _bin(">=")
equal, not_equal = _bin("=="), _bin("!=")
logical_and = bitwise_and = _bin("&")
logical_or = bitwise_or = _bin("|")
logical_xor = _bin("^")


def power(a, b, out=None, where=None, **k):
    a, b = lift(a), lift(b)
    if isinstance(a, int) and not isinstance(a, bool):
        a = _npval(a)
    return _out(_ew2("**", a, b), out, where)


float_power = power


def _logical_not(v):
    return mkbool(b_not(A.truth(v)), True)


logical_not = _ufunc(_logical_not, "b")
invert = logical_not
negative = _ufunc(lambda v: -v)


def _dtf(x):
    return "c" if dt_of(lift(x)) == "c" else "f"


def _sqrt1(v):
    if isinstance(v, SComplex):
        return c_sqrt(v)
    return n_sqrt(tonum(v))


def _un(name):
    def f(v):
        if isinstance(v, SComplex):
            raise Unsupported("complex %s" % name)
        n = tonum(v)
        if not n.plain():
            raise Unsupported("%s of inf" % name)
        return Num(uf(name, n.t), npy=True)
    return f


def _log1(v):
    n = tonum(v) if not isinstance(v, SComplex) else None
    if n is None:
        raise Unsupported("complex log")
    if not n.plain():
        raise Unsupported("log of inf")
    if n.const() and n.t == 1:
        return Num(Fraction(0), npy=True)
    return Num(uf("log", n.t), npy=True)


sqrt = _ufunc(_sqrt1, _dtf)
exp = _ufunc(_un("exp"), _dtf)
log = _ufunc(_log1, _dtf)
log10 = _ufunc(_un("log10"), _dtf)
arctan = _ufunc(_un("atan"), _dtf)
sin, cos, tan = _ufunc(_un("sin"), _dtf), _ufunc(_un("cos"), _dtf), _ufunc(_un("tan"), _dtf)
square = _ufunc(lambda v: v * v)
absolute = abs = fabs = _ufunc(lambda v: v.__abs__(), lambda x: "f" if dt_of(lift(x)) == "c" else dt_of(lift(x)))
reciprocal = _ufunc(lambda v: Num(Fraction(1)) / v, _dtf)


def _conj(v):
    return v.conj() if isinstance(v, SComplex) else v


conj = conjugate = _ufunc(_conj)


def real(x):
    if isinstance(x, SArr):
        return x.real
    if isinstance(x, complex):
        return tonum(x.real)
    if isinstance(x, SComplex):
        return x.re
    return lift(x).real if isinstance(lift(x), SArr) else x


def imag(x):
    if isinstance(x, SArr):
        return x.imag
    if isinstance(x, complex):
        return tonum(x.imag)
    if isinstance(x, SComplex):
        return x.im
    if isinstance(lift(x), SArr):
        return lift(x).imag
    return Num(Fraction(0), npy=True)


def angle(x, deg=False):
    raise Unsupported("angle")


def arctan2(a, b, out=None, **k):
    def f(x, y):
        x, y = tonum(x), tonum(y)
        if not (x.plain() and y.plain()):
            raise Unsupported("arctan2 of inf")
        return Num(uf("atan2", x.t, y.t), npy=True)
    return _out(ewn(f, "f", a, b), out, None)


def minimum(a, b, **k):
    return ewn(lambda x, y: A.n_min(tonum(x), tonum(y)), dt_join(dt_of(lift(a)), dt_of(lift(b))), a, b)


def maximum(a, b, **k):
    return ewn(lambda x, y: A.n_max(tonum(x), tonum(y)), dt_join(dt_of(lift(a)), dt_of(lift(b))), a, b)


fmin, fmax = minimum, maximum


def clip(a, lo=None, hi=None, out=None, **k):
    lo = k.get("a_min", lo)
    hi = k.get("a_max", hi)
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return _out(r, out, None)


def where(c, *ab):
    if not ab:
        return nonzero(c)
    a, b = ab
    la, lb = lift(a), lift(b)
    return ewn(lambda x, y, z: ite(zb(A.truth(x)), y, z), dt_join(dt_of(la), dt_of(lb)), c, a, b)


def isclose(a, b, rtol=None, atol=None, equal_nan=False):
    rt = Fraction(1, 10**5) if rtol is None else tonum(rtol).t
    at = Fraction(1, 10**8) if atol is None else tonum(atol).t

    def f(x, y):
        if isinstance(x, (SComplex, complex)) or isinstance(y, (SComplex, complex)):
            d = (tocomplex(x) - tocomplex(y)).__abs__()
            return mkbool(A.n_le(d, Num(at) + Num(rt) * tocomplex(y).__abs__()), True)
        x, y = tonum(x), tonum(y)
        fin = b_and(x.fin(), y.fin())
        dx = Num(x.t) - Num(y.t)
        close = raw_bool(dx.__abs__() <= Num(at) + Num(rt) * Num(y.t).__abs__())
        same = b_or(b_and(x.pi, y.pi), b_and(x.ni, y.ni))
        if equal_nan:
            same = b_or(same, b_and(x.na, y.na))
        return mkbool(b_or(same, b_and(fin, close)), True)
    return ewn(f, "b", a, b)


def allclose(a, b, rtol=None, atol=None, equal_nan=False):
    r = A.all_(isclose(a, b, rtol, atol, equal_nan))
    return mkbool(raw_bool(r))


def isinf(x):
    return ew1(lambda v: mkbool(b_or(tonum(v).pi, tonum(v).ni), True) if not isinstance(v, SComplex)
               else mkbool(b_or(v.re.pi, v.re.ni, v.im.pi, v.im.ni), True), x, "b")


def isposinf(x):
    return ew1(lambda v: mkbool(tonum(v).pi, True), x, "b")


def isneginf(x):
    return ew1(lambda v: mkbool(tonum(v).ni, True), x, "b")


def isnan(x):
    if isinstance(x, (str, SStr)):
        raise TypeError("ufunc 'isnan' not supported for the input types")
    return ew1(lambda v: mkbool(b_or(v.re.na, v.im.na) if isinstance(v, SComplex) else tonum(v).na, True), x, "b")


def isfinite(x):
    return ew1(lambda v: mkbool(b_and(v.re.fin(), v.im.fin()) if isinstance(v, SComplex) else tonum(v).fin(), True), x, "b")


def iscomplexobj(x):
    return dt_of(lift(x)) == "c"


def isrealobj(x):
    return not iscomplexobj(x)


def iscomplex(x):
    return ew1(lambda v: mkbool(b_not(raw_bool(tocomplex(v).im == 0)), True), x, "b")


def isreal(x):
    return ew1(lambda v: mkbool(raw_bool(tocomplex(v).im == 0), True), x, "b")


def isscalar(x):
    return isinstance(x, (Num, SComplex, SBool, SInt, int, float, complex, str, bool, SStr))


def sign(x):
    return ew1(lambda v: Num(z3.If(zt(tonum(v).t) > 0, z3.RealVal(1), z3.If(zt(tonum(v).t) < 0, z3.RealVal(-1), z3.RealVal(0))), npy=True), x)


def nan_to_num(*a, **k):
    raise Unsupported("nan_to_num")


def round(x, decimals=0, out=None):
    d = decimals
    if isinstance(d, Num):
        d = int(d)
    if not isinstance(d, int):
        raise Unsupported("symbolic rounding")
    return _out(ew1(lambda v: round1(v, d), x), out, None)


around = round_ = round


def round1(v, d):
    if isinstance(v, SComplex):
        return SComplex(round1(v.re, d), round1(v.im, d), True)
    v = tonum(v)
    if v.isint and d >= 0:
        return v
    c = cur()
    if v.const():
        q = Fraction(10) ** d
        return Num(Fraction(_rhe(v.t * q)) / q, npy=True)
    if c.round_exact or isc(v.t):
        return Num(v.t, v.pi, v.ni, v.na, True)
    # the nearest multiple of 10^-d (ties either way): |r - v| <= 10^-d / 2
    key = ("round", d, v.t.get_id())
    cache = c.__dict__.setdefault("rcache", {})
    if key not in cache:
        e = z3.Real(c.fresh("rnd"))
        q = Fraction(10) ** d
        h = zt(Fraction(1, 2) / q)
        c.add(z3.And(e >= -h, e <= h, z3.Implies(v.t == 0, e == 0)))
        c.__dict__.setdefault("rounds", []).append((e, v.t, d))
        cache[key] = (e, v.t)
    e = cache[key][0]
    return Num(v.t + e, v.pi, v.ni, v.na, True)


def _rhe(fr):
    n = fr.numerator // fr.denominator
    r = fr - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n % 2):
        n += 1
    return n


# ---------------------------------------------------------------- reductions etc.

def _red(fn):
    def g(a, axis=None, **k):
        bad = set(k) - {"keepdims", "out", "dtype"}
        if k.get("keepdims") or k.get("out") is not None:
            raise Unsupported("reduction options")
        return fn(a, axis)
    return g


min = amin = nanmin = _red(lambda a, ax: A.minmax(a, True, ax))
max = amax = nanmax = _red(lambda a, ax: A.minmax(a, False, ax))


def _all(a, ax):
    return A.all_(a, ax)


all = alltrue = _red(_all)
any = sometrue = _red(lambda a, ax: A.any_(a, ax))


def sum(a, axis=None, **k):
    return A.sum_(a, axis)


def mean(a, axis=None, **k):
    return asarray(a).mean(axis)


def prod(a, axis=None, **k):
    return asarray(a).prod(axis)


def ptp(a):
    return A.minmax(a, False) - A.minmax(a, True)


def count_nonzero(a, axis=None):
    a = asarray(a)
    f = a.f
    b = SArr(a.shape_, "b", lambda *ix: mkbool(A.truth(f(*ix)), True))
    return A._pyval(A.sum_(b, axis))


def dot(a, b):
    return A.sum_(asarray(a) * asarray(b))


def diff(a, n=1, axis=-1, **k):
    a = asarray(a)
    if n != 1 or a.ndim != 1:
        raise Unsupported("diff")
    return a[1:] - a[:-1]


def array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape_, b.shape_):
        e = A.dim_eq(x, y)
        if not is_true(e) and cur().branch(b_not(e)):
            return False
    return mkbool(raw_bool(A.all_(ew2("==", a, b))))


def argmin(a, axis=None):
    raise Unsupported("argmin")


argmax = argsort = unique = searchsorted = argmin


def sort(a, **k):
    raise Unsupported("sort")


def sort(a, axis=-1, **k):
    a = asarray(a)
    if a.ndim == 1 and isinstance(a.shape_[0], int) and a.shape_[0] <= 3:
        els = [tonum(a.f(i)) for i in range(a.shape_[0])]
        for p in range(len(els)):
            for q in range(len(els) - 1 - p):
                x, y = els[q], els[q + 1]
                els[q], els[q + 1] = A.decided(x, y, True) or A.n_min(x, y), A.decided(x, y, False) or A.n_max(x, y)
        return from_flat(els, (len(els),), a.dt)
    raise Unsupported("sort")


def nonzero(a):
    a = asarray(a)
    if a.concrete() and a.ndim == 1:
        fl = [A.truth(a.f(i)) for i in range(a.shape_[0])]
        if builtins_all(isinstance(x, bool) for x in fl):
            return (array([i for i, x in enumerate(fl) if x], "i"),)
    if a.ndim == 1:
        f = a.f
        ar = SArr(a.shape_, "i", lambda i: Num(z3.ToReal(iterm(i)), npy=True, isint=True))
        return (MSel(a.shape_, "i", ar.f, lambda i: A.truth(f(i))),)
    raise Unsupported("nonzero")


def builtins_all(it):
    for x in it:
        if not x:
            return False
    return True


def flatnonzero(a):
    return nonzero(a)[0]


# ---------------------------------------------------------------- joining

def _join1(parts):
    """concatenate 1-D arrays"""
    parts = [asarray(p) for p in parts]
    dt = dt_join(*[p.dt for p in parts])
    if builtins_all(p.concrete(4096) for p in parts):
        els = [cast_elem(p.f(i), dt) for p in parts for i in range(p.shape_[0])]
        return from_flat(els, (len(els),), dt)
    fs = [(p.shape_[0], p.f) for p in parts]
    offs, tot = [], z3.IntVal(0)
    for n, _ in fs:
        offs.append(tot)
        tot = z3.simplify(tot + int_term(n))

    def g(i):
        i2 = iterm(i)
        r = None
        for (n, f), o in reversed(list(zip(fs, offs))):
            if r is None:
                r = cast_elem(f(pyi(z3.simplify(i2 - o))), dt)
            else:
                c = z3.simplify(i2 < o + int_term(n))
                if z3.is_true(c):
                    r = cast_elem(f(pyi(z3.simplify(i2 - o))), dt)
                elif not z3.is_false(c):
                    r = ite(c, cast_elem(f(pyi(z3.simplify(i2 - o))), dt), r)
        return r
    return SArr((A.canon_len(tot),), dt, g)


def concatenate(parts, axis=0, **k):
    parts = [asarray(p) for p in (parts if isinstance(parts, (list, tuple)) else list(parts))]
    nd = parts[0].ndim
    for p in parts:
        if p.ndim != nd:
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
        if p.ndim == 0:
            raise ValueError("zero-dimensional arrays cannot be concatenated")
    if nd == 1:
        return _join1(parts)
    if nd != 2:
        raise Unsupported("concatenate")
    axis = axis % 2
    other = 1 - axis
    n0 = parts[0].shape_[other]
    for p in parts[1:]:
        e = A.dim_eq(p.shape_[other], n0)
        if not is_true(e) and cur().branch(b_not(e)):
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    dt = dt_join(*[p.dt for p in parts])
    if builtins_all(isinstance(p.shape_[axis], int) for p in parts):
        lines = []
        for p in parts:
            f = p.f
            for j in range(p.shape_[axis]):
                lines.append((lambda i, f=f, j=j: f(i, j)) if axis == 1 else (lambda i, f=f, j=j: f(j, i)))
        m = len(lines)

        def g(i, j):
            k, o = (j, i) if axis == 1 else (i, j)
            k = pyi(k)
            if isinstance(k, int):
                return cast_elem(lines[k](o), dt)
            r = cast_elem(lines[-1](o), dt)
            for q in range(m - 2, -1, -1):
                r = ite(k == q, cast_elem(lines[q](o), dt), r)
            return r
        return SArr((n0, m) if axis == 1 else (m, n0), dt, g)
    if axis == 0 and isinstance(n0, int):
        cols = [_join1([p[:, j] for p in parts]) for j in range(n0)]
        fs = [c.f for c in cols]
        return SArr((cols[0].shape_[0], n0), dt, lambda i, j: A.pick([f(i) for f in fs], (n0,), (j,)))
    raise Unsupported("concatenate with symbolic widths")


def vstack(parts, **k):
    return concatenate([atleast_2d(p) for p in (parts if isinstance(parts, (list, tuple)) else list(parts))], 0)


row_stack = vstack


def hstack(parts, **k):
    parts = [atleast_1d(p) for p in parts]
    return concatenate(parts, 0 if parts[0].ndim == 1 else 1)


def column_stack(parts):
    ps = []
    for p in parts:
        p = asarray(p)
        ps.append(p.reshape(-1, 1) if p.ndim == 1 else p)
    return concatenate(ps, 1)


def stack(parts, axis=0):
    rows = [asarray(p) for p in parts]
    for r in rows[1:]:
        for x, y in zip(r.shape_, rows[0].shape_):
            e = A.dim_eq(x, y)
            if not is_true(e) and cur().branch(b_not(e)):
                raise ValueError("all input arrays must have the same shape")
    r = stack_rows(rows)
    if axis == 0:
        return r
    if axis in (1, -1) and r.ndim == 2:
        return r.T.snapshot()
    raise Unsupported("stack")


def append(a, b, axis=None):
    if axis is None:
        return _join1([asarray(a).ravel(), asarray(b).ravel()])
    return concatenate([a, b], axis)


class _C:
    def __getitem__(self, parts):
        return column_stack(parts if isinstance(parts, tuple) else (parts,))


class _R:
    def __getitem__(self, parts):
        parts = parts if isinstance(parts, tuple) else (parts,)
        return _join1([atleast_1d(p) for p in parts])


c_, r_ = _C(), _R()


def transpose(a, axes=None):
    return asarray(a).transpose()


def reshape(a, shape, **k):
    return asarray(a).reshape(shape)


def ravel(a):
    return asarray(a).ravel()


def squeeze(a, axis=None):
    return asarray(a).squeeze()


def expand_dims(a, axis):
    a = asarray(a)
    return a[None] if axis == 0 else a[..., None]


def flip(a, axis=None):
    a = asarray(a)
    if a.ndim == 1:
        return a[::-1]
    if axis == 0:
        return a[::-1, :]
    raise Unsupported("flip")


def broadcast_to(a, shape):
    a = asarray(a)
    shape = _shape(shape)
    g = A.bget(a.f, a.shape_, shape)
    A.broadcast(a.shape_, shape)
    r = SArr(shape, a.dt, g)
    r.ro = True
    return r


def broadcast_arrays(*a):
    a = [asarray(x) for x in a]
    out = ()
    for x in a:
        out = A.broadcast(out, x.shape_) if out else x.shape_
    return [broadcast_to(x, out) for x in a]


def delete(*a, **k):
    raise Unsupported("np.delete")


def vectorize(fn, **k):
    raise Unsupported("np.vectorize")


def dtype(x):
    return DT[dtkey(x)]


def issubdtype(a, b):
    ka = dtkey(a)
    if b is number:
        return ka in "ifc"
    kb = dtkey(b)
    return ka == kb


def result_type(*a):
    return DT[dt_join(*[dt_of(lift(x)) if not isinstance(x, A.DType) else x.kind for x in a])]


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, fn):
        return fn


def seterr(**k):
    return {}


def copyto(dst, src, where=True, **k):
    if where is True:
        dst[...] = src
    else:
        dst[where] = src


def interp(x, xp, fp, **k):
    if k:
        raise Unsupported("np.interp options")
    from .externs import interp1d
    f = interp1d(xp, fp, kind=1)
    if not f.sorted:
        raise Unsupported("np.interp on unordered points")
    n = f.x.shape_[0]
    r = f(clip(x, f.x.f(0), f.x.f(pyi(z3.simplify(int_term(n) - 1)))))
    return r.f() if r.ndim == 0 else r


def polyval(p, x):
    p = asarray(p)
    if not p.concrete():
        raise Unsupported("polyval of symbolic degree")
    r = Num(Fraction(0))
    for i in range(p.shape_[0]):
        r = r * x + p[i]
    return r


class finfo:
    def __init__(self, dt=None):
        self.eps = Num(Fraction(repr(2.220446049250313e-16)))
        self.max = Num(Fraction(repr(1.7976931348623157e308)))
        self.tiny = Num(Fraction(repr(2.2250738585072014e-308)))
        self.min = -self.max


class ModProxy:
    """module-like namespace; anything missing is outside the verifier's subset"""

    def __init__(self, name, d):
        self.__dict__.update(d)
        self.__dict__["__name__"] = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("%s.%s" % (self.__dict__["__name__"], k))


_EXPORT = """ndarray float64 int64 complex128 bool_ generic number floating complexfloating integer object_ str_ array
asarray asanyarray ascontiguousarray asfarray atleast_1d atleast_2d full ones zeros empty shape ndim size ones_like zeros_like
empty_like full_like copy arange geomspace linspace add subtract multiply divide true_divide less less_equal greater
greater_equal equal not_equal logical_and logical_or logical_xor bitwise_and bitwise_or power float_power logical_not
invert negative sqrt exp log log10 arctan sin cos tan square absolute abs fabs reciprocal conj conjugate real imag
arctan2 minimum maximum fmin fmax clip where isclose allclose isinf isposinf isneginf isnan isfinite iscomplexobj
isrealobj iscomplex isreal isscalar sign round around round_ min amin nanmin max amax nanmax all alltrue any sometrue
sum mean prod ptp count_nonzero dot diff array_equal argmin argmax argsort unique searchsorted sort nonzero
flatnonzero concatenate vstack row_stack hstack column_stack stack append c_ r_ transpose reshape ravel squeeze
expand_dims flip broadcast_to broadcast_arrays dtype issubdtype result_type errstate seterr copyto interp polyval
finfo""".split()


def make(ctx, extra=None):
    g = globals()
    d = {k: g[k] for k in _EXPORT}
    d.update(double=float64, cdouble=complex128, float_=float64, complex_=complex128, int_=int64, bool8=bool_,
             pi=Num(ctx.pi), inf=INF, nan=NAN, Inf=INF, NaN=NAN, newaxis=None, e=Num(Fraction(repr(math.e))),
             __version__="2.5.4")
    if extra:
        d.update(extra)
    return ModProxy("numpy", d)
