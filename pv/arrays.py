"""Symbolic numpy arrays and Python lists of symbolic length.

An array is a shape (ints or symbolic ints) plus a function index -> element.  Basic
slices are views; writes go through to the base.  Boolean selections stay symbolic (MSel).
"""
from fractions import Fraction
import z3
from . import core
from .core import cur, Unsupported, PathEnd, is_true, is_false, zb, b_and, b_or, b_not
from .values import (Proxy, Num, SComplex, SBool, SInt, SStr, tonum, tocomplex, raw_bool, mkbool,
                     mkint, int_term, is_intlike, ite, subst, n_le, n_lt, n_ite, n_add, n_mul,
                     t_ite, sum_atom, zt, isc, b_ite, fold)


class DType:
    def __init__(self, k, name):
        self.kind, self.name = k, name

    def __eq__(self, o):
        o = dtkey(o, None)
        return o == self.kind

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return "dtype('%s')" % self.name

    @property
    def type(self):
        from . import shim_np
        return shim_np.DTYPE_CLASS[self.kind]

    char = property(lambda s: s.kind)


DT = {"f": DType("f", "float64"), "i": DType("i", "int64"), "c": DType("c", "complex128"),
      "b": DType("b", "bool"), "O": DType("O", "object")}
ORDER = "bifcO"


def dtkey(d, default="f"):
    if d is None:
        return default
    if isinstance(d, DType):
        return d.kind
    n = getattr(d, "_dt", None)
    if n:
        return n
    s = d if isinstance(d, str) else getattr(d, "__name__", "")
    m = {"float": "f", "float64": "f", "double": "f", "f": "f", "f8": "f", "d": "f", "int": "i", "int64": "i",
         "i": "i", "i8": "i", "complex": "c", "complex128": "c", "cdouble": "c", "c": "c", "c16": "c",
         "bool": "b", "bool_": "b", "b": "b", "object": "O", "O": "O", "str": "O"}
    if s in m:
        return m[s]
    if default is None:
        return None
    raise Unsupported("dtype %r" % (d,))


def dt_of(v):
    if isinstance(v, SArr):
        return v.dt
    if isinstance(v, (SBool, bool)):
        return "b"
    if isinstance(v, SComplex) or isinstance(v, complex):
        return "c"
    if isinstance(v, Num):
        return "i" if v.isint else "f"
    if is_intlike(v):
        return "i"
    if isinstance(v, float):
        return "f"
    return "O"


def dt_join(*ds):
    return max(ds, key=ORDER.index)


def pyi(i):
    """index -> int if concrete"""
    if isinstance(i, z3.ArithRef):
        if z3.is_int_value(i):
            return i.as_long()
        return i
    if isinstance(i, SInt):
        return i.t
    return int(i)


def iterm(i):
    return z3.IntVal(i) if isinstance(i, int) else i


def dim_eq(a, b):
    """are two dimensions equal?  raw bool"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    x, y = int_term(a), int_term(b)
    if x.eq(y):
        return True
    return z3.simplify(x == y)


def canon_len(t):
    """canonical representative of a length term on this path"""
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    c = cur()
    cache = c.__dict__.setdefault("canon", {})
    k = t.get_id()
    if k in cache:
        return cache[k][1]
    lens = c.__dict__.setdefault("lens", [])
    for u in lens:
        if u.eq(t):
            r = SInt(t)
            break
    else:
        r = None
        if z3.is_const(t):
            lens.append(t)
            r = SInt(t)
        else:
            for u in lens:
                if c.implied(u == t):
                    r = SInt(u)
                    break
            if r is None:
                m = c._check()[1]
                if m is not None:
                    v = m.eval(t, model_completion=True)
                    if c.implied(t == v):
                        r = v.as_long()
            if r is None:
                lens.append(t)
                r = SInt(t)
    cache[k] = (t, r)
    return r


def lenterm(t):
    return canon_len(t)


def imax0(t):
    if isinstance(t, int):
        return max(0, t)
    if cur().implied(t >= 0):
        return t
    return z3.If(t >= 0, t, z3.IntVal(0))


def imin(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    a, b = iterm(a), iterm(b)
    if cur().implied(a <= b):
        return a
    if cur().implied(b <= a):
        return b
    return z3.If(a <= b, a, b)


def _npval(v):
    """element as a numpy scalar"""
    if isinstance(v, Num):
        if v.npy:
            return v
        return Num(v.t, v.pi, v.ni, v.na, True, v.isint)
    if isinstance(v, SComplex):
        return v if v.npy else SComplex(v.re, v.im, True)
    if isinstance(v, SBool):
        return v if v.npy else SBool(v.b, True)
    if isinstance(v, bool):
        return SBool(v, True)
    if isinstance(v, complex):
        return _npval(tocomplex(v))
    if isinstance(v, SInt):
        return Num(z3.ToReal(v.t), npy=True, isint=True)
    if isinstance(v, int):
        return Num(Fraction(v), npy=True, isint=True)
    if isinstance(v, float):
        return _npval(tonum(v))
    return v


def cast_elem(v, dt):
    """element stored into an array of dtype dt"""
    if dt == "O":
        return v
    if dt == "c":
        z = tocomplex(v)
        if z is None:
            if isinstance(v, (str, SStr)):
                raise Unsupported("string to complex")
            raise TypeError("must be real number, not %s" % type(v).__name__)
        return z
    if dt == "b":
        if isinstance(v, (SBool, bool)):
            return v
        n = tonum(v)
        if n is None:
            z = tocomplex(v)
            if z is None:
                raise Unsupported("cast to bool")
            return mkbool(b_not(raw_bool(z == 0)), True)
        return mkbool(b_not(raw_bool(n == 0)), True)
    if isinstance(v, (SComplex, complex)):
        z = tocomplex(v)
        return z.re if dt == "f" else cast_elem(z.re, "i")
    if isinstance(v, str):
        from . import shims
        v = shims.pfloat(v)
    n = tonum(v)
    if n is None:
        if isinstance(v, SArr) and v.size == 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        if v is None:
            raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
        raise Unsupported("array element of type %s" % type(v).__name__)
    if dt == "f":
        return Num(n.t, n.pi, n.ni, n.na, True)
    # integer
    if n.isint or is_intlike(v):
        return Num(n.t, npy=True, isint=True)
    bad = b_not(n.fin())
    if not is_false(bad) and cur().branch(bad):
        raise OverflowError("cannot convert float infinity to integer")
    if isc(n.t):
        return Num(Fraction(int(n.t)), npy=True, isint=True)
    if z3.is_to_real(n.t):
        return Num(n.t, npy=True, isint=True)
    tr = z3.If(n.t >= 0, z3.ToReal(z3.ToInt(n.t)), -z3.ToReal(z3.ToInt(-n.t)))
    return Num(tr, npy=True, isint=True)


class SArr(Proxy):
    _sarr = True
    __slots__ = ("shape_", "dt", "_f", "base", "bmap", "wlog", "serial", "ro")

    def __init__(self, shape, dt, f, base=None, bmap=None):
        self.shape_ = tuple(shape)
        self.dt = dt
        self._f = f
        self.base = base
        self.bmap = bmap
        self.wlog = None
        self.ro = False
        c = cur()
        if c is not None:
            c.serial = getattr(c, "serial", 0) + 1
            self.serial = c.serial
        else:
            self.serial = 0

    # ---- reading
    @property
    def f(self):
        if self.base is not None:
            bf, m = self.base.f, self.bmap
            return lambda *ix: bf(*m(*ix))
        return self._f

    def at(self, *ix):
        """element with numpy-scalar flavour; ix ints or z3 terms, in range"""
        for i in ix:
            if isinstance(i, z3.ArithRef) and not z3.is_int_value(i):
                cur().register_index(i)
        return _npval(self.f(*ix))

    @property
    def shape(self):
        return self.shape_

    @shape.setter
    def shape(self, s):
        r = self.reshape(s)
        self.shape_, self._f, self.base = r.shape_, r.f, None

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def size(self):
        r = 1
        for d in self.shape_:
            r = r * d
        return r

    @property
    def dtype(self):
        return DT[self.dt]

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *a):
        if a:
            raise Unsupported("transpose with axes")
        if self.ndim < 2:
            return self
        n = self.ndim
        return SArr(self.shape_[::-1], self.dt, None, self, lambda *ix: ix[::-1])

    @property
    def flat(self):
        return self.ravel()

    def concrete(self, limit=64):
        if not all(isinstance(d, int) for d in self.shape_):
            return False
        k = 1
        for d in self.shape_:
            k *= d
        return k <= limit

    def indices(self):
        out = [()]
        for d in self.shape_:
            out = [ix + (j,) for ix in out for j in range(d)]
        return out

    def __len__(self):
        raise Unsupported("native len of an array")

    def len_(self):
        if self.ndim == 0:
            raise TypeError("len() of unsized object")
        return self.shape_[0]

    def snapshot(self):
        return SArr(self.shape_, self.dt, self.f)

    def copy(self, *a, **k):
        return self.snapshot()

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.snapshot()

    def view(self, *a):
        if a:
            raise Unsupported("view with dtype")
        return SArr(self.shape_, self.dt, None, self, lambda *ix: ix)

    def astype(self, dt, copy=True, **k):
        d = dtkey(dt)
        if d == self.dt:
            return self.snapshot() if copy else self
        f = self.f
        return SArr(self.shape_, d, lambda *ix: cast_elem(f(*ix), d))

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        if isinstance(self.shape_[0], int):
            if self.ndim == 1:
                return [_pyval(self.f(i)) for i in range(self.shape_[0])]
            return [self[i].tolist() for i in range(self.shape_[0])]
        f = self.f
        if self.ndim == 1:
            return SList(self.shape_[0], lambda i: _pyval(f(i)))
        if self.ndim == 2 and isinstance(self.shape_[1], int):
            m = self.shape_[1]
            return SList(self.shape_[0], lambda i: [_pyval(f(i, j)) for j in range(m)])
        raise Unsupported("tolist")

    def item(self, *a):
        if a:
            return _pyval(self[a if len(a) > 1 else a[0]])
        if self.concrete() and len(self.indices()) == 1:
            return _pyval(self.f(*self.indices()[0]))
        s = self.size
        if cur().branch(raw_bool(s == 1)):
            return _pyval(self.f(*([0] * self.ndim)))
        raise ValueError("can only convert an array of size 1 to a Python scalar")

    def fill(self, v):
        self[...] = v

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = tuple(shape)
        return reshape(self, shape)

    def ravel(self, *a):
        return reshape(self, (-1,))

    flatten = ravel

    def squeeze(self, *a):
        keep = [k for k, d in enumerate(self.shape_) if d != 1] if self.concrete() or True else None
        ks = []
        for k, d in enumerate(self.shape_):
            if isinstance(d, int):
                if d != 1:
                    ks.append(k)
            elif not cur().branch(raw_bool(d == 1)):
                ks.append(k)
        f, nd = self.f, self.ndim

        def g(*ix):
            full = [0] * nd
            for p, i in zip(ks, ix):
                full[p] = i
            return f(*full)
        return SArr([self.shape_[k] for k in ks], self.dt, g)

    # ---- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, v):
        setitem(self, key, v)

    def __iter__(self):
        d = self.len_()
        if isinstance(d, int):
            return iter([self[i] for i in range(d)])
        raise Unsupported("native iteration over an array of symbolic length")

    # ---- operators
    def _b(self, o, op, rev=False):
        if not is_operand(o):
            return NotImplemented
        return ew2(op, o, self) if rev else ew2(op, self, o)

    def __add__(self, o): return self._b(o, "+")
    def __radd__(self, o): return self._b(o, "+", True)
    def __sub__(self, o): return self._b(o, "-")
    def __rsub__(self, o): return self._b(o, "-", True)
    def __mul__(self, o): return self._b(o, "*")
    def __rmul__(self, o): return self._b(o, "*", True)
    def __truediv__(self, o): return self._b(o, "/")
    def __rtruediv__(self, o): return self._b(o, "/", True)
    def __pow__(self, o): return self._b(o, "**")
    def __rpow__(self, o): return self._b(o, "**", True)
    def __lt__(self, o): return self._b(o, "<")
    def __le__(self, o): return self._b(o, "<=")
    def __gt__(self, o): return self._b(o, ">")
    def __ge__(self, o): return self._b(o, ">=")
    def __eq__(self, o): return self._b(o, "==") if is_operand(o) or isinstance(o, (str, SStr)) else False
    def __ne__(self, o): return self._b(o, "!=") if is_operand(o) or isinstance(o, (str, SStr)) else True
    def __and__(self, o): return self._b(o, "&")
    def __rand__(self, o): return self._b(o, "&", True)
    def __or__(self, o): return self._b(o, "|")
    def __ror__(self, o): return self._b(o, "|", True)
    def __xor__(self, o): return self._b(o, "^")
    def __rxor__(self, o): return self._b(o, "^", True)
    __hash__ = None

    def _ip(self, o, op):
        r = ew2(op, self, o)
        if isinstance(self, MSel):
            return r
        if len(r.shape_) != len(self.shape_):
            raise ValueError("non-broadcastable output operand")
        if ORDER.index(r.dt) > ORDER.index(self.dt):
            raise TypeError("Cannot cast ufunc output from %s to %s" % (r.dt, self.dt))
        f, dt = r.f, self.dt
        store(self, lambda *ix: cast_elem(f(*ix), dt) if r.dt != dt else f(*ix))
        return self

    def __iadd__(self, o): return self._ip(o, "+")
    def __isub__(self, o): return self._ip(o, "-")
    def __imul__(self, o): return self._ip(o, "*")

    def __itruediv__(self, o):
        if self.dt in "ib":
            raise TypeError("Cannot cast ufunc 'divide' output from float64 to int64")
        return self._ip(o, "/")

    def __ipow__(self, o): return self._ip(o, "**")
    def __iand__(self, o): return self._ip(o, "&")
    def __ior__(self, o): return self._ip(o, "|")

    def __neg__(self):
        return ew1(lambda v: -v, self)

    def __pos__(self):
        return self.snapshot()

    def __abs__(self):
        return ew1(abs, self, "f" if self.dt == "c" else self.dt)

    def __invert__(self):
        if self.dt != "b":
            raise Unsupported("~ of a non-boolean array")
        return ew1(lambda v: mkbool(b_not(raw_bool(v)), True), self)

    def __bool__(self):
        if self.concrete() and len(self.indices()) == 1:
            return bool(self.f(*self.indices()[0]))
        s = self.size
        if is_true(raw_bool(s == 1)) or (not isinstance(s, int) and cur().branch(raw_bool(s == 1))):
            return bool(_npval(self.f(*([0] * self.ndim))))
        raise ValueError("The truth value of an array with more than one element is ambiguous. "
                         "Use a.any() or a.all()")

    def __float__(self):
        return self.item().__float__()

    def __contains__(self, v):
        return bool(any_(ew2("==", self, v)))

    # ---- reductions / methods
    def min(self, axis=None, **k): return minmax(self, True, axis)
    def max(self, axis=None, **k): return minmax(self, False, axis)
    def sum(self, axis=None, **k): return sum_(self, axis)
    def any(self, axis=None, **k): return any_(self, axis)
    def all(self, axis=None, **k): return all_(self, axis)

    def mean(self, axis=None, **k):
        return sum_(self, axis) / (self.size if axis is None else self.shape_[axis])

    def prod(self, axis=None, **k):
        if self.concrete() and axis is None:
            r = 1
            for ix in self.indices():
                r = _npval(self.f(*ix)) * r
            return r
        raise Unsupported("prod")

    @property
    def real(self):
        if self.dt != "c":
            return self
        return ew1(lambda v: tocomplex(v).re, self, "f")

    @property
    def imag(self):
        if self.dt != "c":
            return ew1(lambda v: Num(Fraction(0), npy=True), self)
        return ew1(lambda v: tocomplex(v).im, self, "f")

    def conj(self):
        return ew1(lambda v: tocomplex(v).conj() if self.dt == "c" else v, self)

    conjugate = conj

    def round(self, decimals=0):
        from . import shim_np
        return shim_np.round(self, decimals)

    def clip(self, lo=None, hi=None):
        from . import shim_np
        return shim_np.clip(self, lo, hi)

    def dot(self, o):
        return sum_(self * o)

    def sort(self, *a, **k):
        from . import shim_np
        r = shim_np.sort(self)
        store(self, r.f)

    def argsort(self, *a, **k):
        raise Unsupported("argsort")

    def nonzero(self):
        from . import shim_np
        return shim_np.nonzero(self)

    def argmin(self, *a):
        from . import shim_np
        return shim_np.argmin(self)

    def argmax(self, *a):
        from . import shim_np
        return shim_np.argmax(self)

    def setflags(self, write=None, **k):
        if write is False:
            self.ro = True
        elif write:
            self.ro = False

    @property
    def flags(self):
        a = self

        class Flags:
            @property
            def writeable(self):
                return not a.ro

            @writeable.setter
            def writeable(self, v):
                a.ro = not v
        return Flags()

    @property
    def nbytes(self):
        return self.size * 8

    def _subst(self, pairs):
        f = self.f

        def g(*ix):
            return subst(f(*ix), pairs)
        return SArr([subst(d, pairs) if isinstance(d, SInt) else d for d in self.shape_], self.dt, g)

    def __repr__(self):
        return "<array>"
    __str__ = __repr__

    def __format__(self, s):
        return "<array>"

    def pyname(self):
        return "numpy.ndarray"


class MSel(SArr):
    """arr[mask]: the elements where mask holds, indexed by their position in the full array"""
    __slots__ = ("mask", "full", "g")

    def __init__(self, full_shape, dt, g, mask):
        self.full = tuple(full_shape)
        self.g = g
        self.mask = mask        # function full index -> raw bool
        c = cur()
        cnt = z3.Int(c.fresh("cnt"))
        n = self.full[0]
        c.add(cnt >= 0)
        c.add(cnt <= int_term(n))
        w = z3.Int(c.fresh("w"))
        c.add(z3.Implies(cnt > 0, z3.And(w >= 0, w < int_term(n), zb(mask(w)))))
        c.register_index(w)
        c.assume_forall(n, lambda i: b_or(b_not(mask(i)), cnt > 0))
        SArr.__init__(self, (SInt(cnt),), dt, None)

    @property
    def f(self):
        raise Unsupported("positional access to a boolean selection")

    def concrete(self, limit=64):
        return False

    def like(self, dt, g):
        r = object.__new__(MSel)
        SArr.__init__(r, self.shape_, dt, None)
        r.full, r.mask, r.g = self.full, self.mask, g
        return r

    def copy(self, *a, **k):
        return self.like(self.dt, self.g)

    snapshot = copy


def same_mask(a, b):
    if a.mask is b.mask:
        return True
    k = z3.Int(cur().fresh("mk"))
    x, y = zb(a.mask(k)), zb(b.mask(k))
    if x.eq(y):
        return True
    return cur().implied(z3.Implies(z3.And(k >= 0, k < int_term(a.full[0])), x == y))


def _pyval(v):
    if isinstance(v, Num):
        if v.isint:
            if isc(v.t):
                return int(v.t)
            if z3.is_to_real(v.t):
                return SInt(v.t.arg(0))
        return Num(v.t, v.pi, v.ni, v.na)
    if isinstance(v, SComplex):
        return SComplex(v.re, v.im, False)
    if isinstance(v, SBool):
        return mkbool(v.b)
    return v


def is_operand(o):
    return isinstance(o, (SArr, Num, SComplex, SInt, SBool, int, float, complex, list, tuple, SList)) or tonum(o) is not None


def reshape(a, shape):
    f = a.f
    if len(shape) == 2 and a.ndim == 2:
        r, c = shape
        if r == -1 and not isinstance(c, SInt) and dim_eq(c, a.shape_[1]) is True:
            return a.snapshot()
        if is_true(dim_eq(r, a.shape_[0])) and (c == -1 or is_true(dim_eq(c, a.shape_[1]))):
            return a.snapshot()
    if a.ndim == 1 and len(shape) == 1:
        if shape[0] == -1 or is_true(dim_eq(shape[0], a.shape_[0])):
            return SArr(a.shape_, a.dt, f)
    if a.ndim == 1 and len(shape) == 2:
        r, c = shape
        n = a.shape_[0]
        if c == 1 and (r == -1 or is_true(dim_eq(r, n)) or (not isinstance(n, int) and cur().implied(int_term(r) == int_term(n)))):
            return SArr((n, 1), a.dt, lambda i, j: f(i))
        if r == 1 and (c == -1 or is_true(dim_eq(c, n))):
            return SArr((1, n), a.dt, lambda i, j: f(j))
        if r == -1 and isinstance(c, int) and isinstance(n, SInt):
            m = canon_len(n.t / c)
            return SArr((m, c), a.dt, lambda i, j: f(pyi(iterm(i) * c + j)))
    if a.ndim == 2 and len(shape) == 1 and shape[0] == -1:
        if is_true(dim_eq(a.shape_[1], 1)):
            return SArr((a.shape_[0],), a.dt, lambda i: f(i, 0))
        if is_true(dim_eq(a.shape_[0], 1)):
            return SArr((a.shape_[1],), a.dt, lambda i: f(0, i))
    if a.ndim == 0:
        if shape in ((-1,), (1,)):
            return SArr((1,), a.dt, lambda i: f())
    if a.concrete(4096):
        els = [f(*ix) for ix in a.indices()]
        tot = len(els)
        shape = list(shape)
        known = 1
        for d in shape:
            if d != -1:
                known *= int(d)
        if -1 in shape:
            if known == 0 or tot % known:
                raise ValueError("cannot reshape array of size %d" % tot)
            shape[shape.index(-1)] = tot // known
            known = tot
        if known != tot:
            raise ValueError("cannot reshape array of size %d into shape %s" % (tot, tuple(shape)))
        return from_flat(els, shape, a.dt)
    raise Unsupported("reshape of an array of symbolic size")


def from_flat(els, shape, dt):
    shape = tuple(shape)

    def f(*ix):
        return pick(els, shape, ix)
    return SArr(shape, dt, f)


def pick(els, shape, ix):
    """element of a flat list at a (possibly symbolic) index"""
    ix = [pyi(i) for i in ix]
    if all(isinstance(i, int) for i in ix):
        k = 0
        for d, i in zip(shape, ix):
            k = k * d + i
        return els[k]
    for p, i in enumerate(ix):
        if not isinstance(i, int):
            d = shape[p]
            r = pick(els, shape, list(ix[:p]) + [d - 1] + list(ix[p + 1:]))
            for j in range(d - 2, -1, -1):
                v = pick(els, shape, list(ix[:p]) + [j] + list(ix[p + 1:]))
                r = ite(i == j, v, r)
            return r


def broadcast(sa, sb):
    n = max(len(sa), len(sb))
    A = (1,) * (n - len(sa)) + tuple(sa)
    B = (1,) * (n - len(sb)) + tuple(sb)
    out = []
    for x, y in zip(A, B):
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        else:
            e = dim_eq(x, y)
            if is_true(e):
                out.append(x)
                continue
            # equal, or one of them is 1
            if not is_false(e) and cur().branch(e):
                out.append(x)
            elif not isinstance(x, int) and cur().branch(raw_bool(x == 1)):
                out.append(y)
            elif not isinstance(y, int) and cur().branch(raw_bool(y == 1)):
                out.append(x)
            else:
                raise ValueError("operands could not be broadcast together with shapes")
    return tuple(out)


def bget(f, shape, out):
    """reader of an array of `shape` broadcast to `out`"""
    off = len(out) - len(shape)
    c = cur()
    ones = []
    for k, d in enumerate(shape):
        o = out[off + k]
        if isinstance(d, int):
            ones.append(d == 1 and not (isinstance(o, int) and o == 1))
        else:
            ones.append(is_true(dim_eq(d, 1)) or (not is_true(dim_eq(d, o)) and c.implied(int_term(d) == 1)))

    def g(*ix):
        return f(*[0 if ones[k] else ix[off + k] for k in range(len(shape))])
    return g


def lift(x):
    """operand -> SArr or scalar"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, (list, tuple, SList)):
        from . import shim_np
        return shim_np.array(x)
    return x


def sc(op, a, b):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        return a / b
    if op == "**":
        return a ** b
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    if op == ">=":
        return a >= b
    if op == "==":
        return a == b
    if op == "!=":
        return a != b
    if op == "&":
        return mkbool(b_and(raw_bool(a), raw_bool(b)), True)
    if op == "|":
        return mkbool(b_or(raw_bool(a), raw_bool(b)), True)
    if op == "^":
        return mkbool(b_ite(raw_bool(a), b_not(raw_bool(b)), raw_bool(b)), True)
    raise Unsupported(op)


CMP = {"<", "<=", ">", ">=", "==", "!="}


def op_dt(op, a, b):
    if op in CMP or op in "&|^":
        return "b"
    d = dt_join(dt_of(a), dt_of(b))
    if op == "/" and d in "bi":
        return "f"
    if op == "**" and d == "i":
        bb = b
        if isinstance(bb, SArr):
            if bb.concrete():
                if any(raw_bool(_npval(bb.f(*ix)) < 0) is not False for ix in bb.indices()):
                    if any(is_true(raw_bool(_npval(bb.f(*ix)) < 0)) for ix in bb.indices()):
                        raise ValueError("Integers to negative integer powers are not allowed.")
                    raise Unsupported("integer power")
        elif isinstance(bb, (int, SInt, Num)):
            if cur().branch(raw_bool(bb < 0)):
                raise ValueError("Integers to negative integer powers are not allowed.")
    if d == "b":
        return "i"
    return d


def ew2(op, a, b):
    a, b = lift(a), lift(b)
    if not isinstance(a, SArr) and not isinstance(b, SArr):
        return sc(op, _npval(a), b)
    dt = op_dt(op, a, b)
    isl = dt == "i"

    def fin(v):
        if isl and isinstance(v, Num) and not v.isint:
            return Num(v.t, npy=True, isint=True)
        return v
    if isinstance(a, MSel) or isinstance(b, MSel):
        m = a if isinstance(a, MSel) else b
        if isinstance(a, SArr) and isinstance(b, SArr):
            if not (isinstance(a, MSel) and isinstance(b, MSel)):
                o = b if m is a else a
                if o.ndim == 1 and is_true(dim_eq(o.shape_[0], 1)):
                    x = _npval(o.f(0))
                    g = m.g
                    if m is a:
                        return m.like(dt, lambda i: fin(sc(op, _npval(g(i)), x)))
                    return m.like(dt, lambda i: fin(sc(op, x, _npval(g(i)))))
                raise Unsupported("boolean selection combined with an array")
            if not same_mask(a, b):
                raise Unsupported("boolean selections with different masks")
            ga, gb = a.g, b.g
            return a.like(dt, lambda i: fin(sc(op, _npval(ga(i)), _npval(gb(i)))))
        if isinstance(a, MSel):
            ga = a.g
            return a.like(dt, lambda i: fin(sc(op, _npval(ga(i)), b)))
        gb = b.g
        return b.like(dt, lambda i: fin(sc(op, a, _npval(gb(i)))))
    if not isinstance(a, SArr):
        fb = b.f
        return SArr(b.shape_, dt, lambda *ix: fin(sc(op, a, _npval(fb(*ix)))))
    if not isinstance(b, SArr):
        fa = a.f
        return SArr(a.shape_, dt, lambda *ix: fin(sc(op, _npval(fa(*ix)), b)))
    out = broadcast(a.shape_, b.shape_)
    ga, gb = bget(a.f, a.shape_, out), bget(b.f, b.shape_, out)
    return SArr(out, dt, lambda *ix: fin(sc(op, _npval(ga(*ix)), _npval(gb(*ix)))))


def ew1(fn, a, dt=None):
    a = lift(a)
    if not isinstance(a, SArr):
        return fn(_npval(a))
    dt = dt or a.dt
    if isinstance(a, MSel):
        g = a.g
        return a.like(dt, lambda i: fn(_npval(g(i))))
    f = a.f
    return SArr(a.shape_, dt, lambda *ix: fn(_npval(f(*ix))))


def ewn(fn, dt, *args):
    """n-ary elementwise with broadcasting"""
    args = [lift(a) for a in args]
    if not any(isinstance(a, SArr) for a in args):
        return fn(*[_npval(a) for a in args])
    ms = [a for a in args if isinstance(a, MSel)]
    if ms:
        for a in args:
            if isinstance(a, SArr) and not (isinstance(a, MSel) and same_mask(a, ms[0])):
                raise Unsupported("boolean selection combined with an array")
        gs = [a.g if isinstance(a, MSel) else (lambda i, a=a: a) for a in args]
        return ms[0].like(dt, lambda i: fn(*[_npval(g(i)) for g in gs]))
    out = ()
    for a in args:
        if isinstance(a, SArr):
            out = broadcast(out, a.shape_) if out else tuple(a.shape_)
    gs = [bget(a.f, a.shape_, out) if isinstance(a, SArr) else (lambda *ix, a=a: a) for a in args]
    return SArr(out, dt, lambda *ix: fn(*[_npval(g(*ix)) for g in gs]))


# ------------------------------------------------------------------ writes

def store(a, f):
    """replace all elements of a (write through views)"""
    if a.ro:
        raise ValueError("assignment destination is read-only")
    c = cur()
    if c is not None:
        chk = c.hooks.get("heap_write")
        if chk:
            chk(a)
    if a.base is None:
        a._f = f
        return
    inv = getattr(a.bmap, "inv", None)
    if inv is None:
        raise Unsupported("writing through a view")
    bf = a.base.f

    def g(*ix):
        cond, vix = inv(*ix)
        if is_false(cond):
            return bf(*ix)
        if is_true(cond):
            return f(*vix)
        return ite(cond, f(*vix), bf(*ix))
    store(a.base, g)


def setitem(a, key, v):
    if a.base is not None:
        tmp = a.snapshot()
        setitem(tmp, key, v)
        store(a, tmp._f)
        return
    old, dt = a.f, a.dt
    if isinstance(key, tuple) and len(key) == 1:
        key = key[0]
    if isinstance(key, list):
        from . import shim_np
        key = shim_np.array(key)
    if isinstance(key, SArr) and key.dt == "b":
        if key.ndim != a.ndim:
            if key.ndim == 1 and a.ndim == 2 and not isinstance(v, SArr):
                kf = key.f
                w = cast_elem(v, dt)
                store(a, lambda i, j: ite(raw_bool(kf(i)), w, old(i, j)))
                return
            raise Unsupported("boolean assignment with different rank")
        kf = key.f
        for x, y in zip(key.shape_, a.shape_):
            e = dim_eq(x, y)
            if not is_true(e) and not cur().implied(zb(e)):
                raise IndexError("boolean index did not match indexed array")
        if isinstance(v, MSel):
            k = z3.Int(cur().fresh("mk"))
            x, y = zb(raw_bool(kf(k))), zb(v.mask(k))
            if not x.eq(y) and not cur().implied(z3.Implies(z3.And(k >= 0, k < int_term(a.shape_[0])), x == y)):
                raise Unsupported("assignment of a selection with a different mask")
            g = v.g
            store(a, lambda i: _case(raw_bool(kf(i)), lambda: cast_elem(g(i), dt), lambda: old(i)))
            return
        if isinstance(v, (SArr, list, tuple)):
            v = lift(v)
            if v.ndim == 0 or is_true(dim_eq(v.shape_[0], 1)):
                v = v.f(*([0] * v.ndim))
            else:
                if a.ndim == 1 and v.ndim == 1 and key.concrete() and isinstance(v.shape_[0], int) and \
                        all(isinstance(raw_bool(kf(i)), bool) for (i,) in key.indices()):
                    sel = [i for (i,) in key.indices() if raw_bool(kf(i))]
                    if len(sel) != v.shape_[0]:
                        raise ValueError("NumPy boolean array indexing assignment cannot assign %d input values to the %d "
                                         "output values where the mask is true" % (v.shape_[0], len(sel)))
                    w = {i: cast_elem(v.f(j), dt) for j, i in enumerate(sel)}

                    def put(i):
                        if isinstance(i, int):
                            return w[i] if i in w else old(i)
                        r = old(i)
                        for j, x in w.items():
                            r = _case(z3.simplify(iterm(i) == j), lambda: x, lambda: r)
                        return r
                    store(a, put)
                    return
                k = z3.Int(cur().fresh("mk"))
                e = dim_eq(v.shape_[0], a.shape_[0])
                if a.ndim == 1 and v.ndim == 1 and is_true(fold(raw_bool(kf(k)))) and \
                        (is_true(e) or cur().implied(zb(e))):
                    vf = v.f
                    store(a, lambda i: cast_elem(vf(i), dt))
                    return
                raise Unsupported("array assigned to a boolean selection")
        w0 = v
        if dt == "i" and not is_intlike(v):
            cast_elem(v, dt)      # may raise (inf into an integer array)
        store(a, lambda *ix: _case(raw_bool(kf(*ix)), lambda: cast_elem(w0, dt), lambda: old(*ix)))
        return
    if isinstance(key, SArr):
        raise Unsupported("assignment with an index array")
    sel = parse_key(a, key)
    # sel: per dimension ('i', idx) or ('s', start, step, length)
    if any(s[0] == "n" for s in sel):
        raise Unsupported("assignment with newaxis")
    if any(s[0] == "a" for s in sel):
        raise Unsupported("assignment with an index list")
    v = lift(v)
    vshape = tuple(s[3] for s in sel if s[0] == "s")
    if isinstance(v, SArr):
        if len(vshape) == 0:
            if v.ndim == 0 or v.concrete():
                w = v.item()
                vf = lambda *ix: w
            else:
                raise ValueError("setting an array element with a sequence.")
        else:
            out = broadcast(vshape, v.shape_)
            if len(out) > len(vshape) and not all(is_true(dim_eq(d, 1)) for d in out[:len(out) - len(vshape)]):
                raise ValueError("could not broadcast input array")
            if len(v.shape_) > len(vshape):
                vv = v.f
                ex = len(v.shape_) - len(vshape)
                v = SArr(v.shape_[ex:], v.dt, lambda *ix: vv(*([0] * ex + list(ix))))
            vf = bget(v.f, v.shape_, vshape)
    else:
        w = cast_elem(v, dt)
        vf = lambda *ix: w
    if a.wlog is not None and all(s[0] == "i" for s in sel):
        a.wlog.append((tuple(s[1] for s in sel), cast_elem(vf(), dt)))

    def g(*ix):
        cond = True
        vix = []
        for i, s in zip(ix, sel):
            if s[0] == "i":
                if isinstance(i, int) and isinstance(s[1], int):
                    cond = b_and(cond, i == s[1])
                else:
                    cond = b_and(cond, z3.simplify(iterm(i) == iterm(s[1])))
            else:
                c2, k = inv_slice(i, s)
                cond = b_and(cond, c2)
                vix.append(k)
        return _case(cond, lambda: cast_elem(vf(*vix), dt), lambda: old(*ix))
    store(a, g)


def _case(cond, x, y):
    cond = fold(cond)
    if is_true(cond):
        return x()
    if is_false(cond):
        return y()
    return ite(zb(cond), x(), y())


def inv_slice(i, s):
    """base index i -> (raw bool membership, view index)"""
    _, start, step, ln = s
    if isinstance(start, int) and start == 0 and step == 1:
        if isinstance(i, int) and isinstance(ln, int):
            return i < ln, i
        return z3.simplify(iterm(i) < int_term(ln)), i
    if isinstance(i, int) and isinstance(start, int) and isinstance(ln, int):
        d = i - start
        if step > 0:
            ok = d >= 0 and d % step == 0 and d // step < ln
            return ok, (d // step if ok else 0)
        d = -d
        ok = d >= 0 and d % (-step) == 0 and d // (-step) < ln
        return ok, (d // (-step) if ok else 0)
    d = iterm(i) - iterm(start)
    if step == 1:
        return z3.simplify(z3.And(d >= 0, d < int_term(ln))), pyi(z3.simplify(d))
    if step == -1:
        d = -d
        return z3.simplify(z3.And(d >= 0, d < int_term(ln))), pyi(z3.simplify(d))
    if step < 0:
        raise Unsupported("negative step assignment")
    return z3.And(d >= 0, d % step == 0, d / step < int_term(ln)), pyi(z3.simplify(d / step))


def norm_index(i, n):
    """python index -> non-negative index; IndexError when out of range (forks)"""
    if isinstance(i, (Num, float)) and not (isinstance(i, Num) and i.isint):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or "
                         "boolean arrays are valid indices")
    if isinstance(i, Num):
        i = _pyval(i)
    if isinstance(i, SBool):
        raise Unsupported("boolean scalar index")
    i = pyi(i)
    c = cur()
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n:
            raise IndexError("index %d is out of bounds for axis 0 with size %d" % (i, n))
        return i if i >= 0 else i + n
    nt = int_term(n)
    if isinstance(i, int):
        bad = nt < (i + 1 if i >= 0 else -i)
        if c.branch(z3.simplify(bad)):
            raise IndexError("index %d is out of bounds" % i)
        return i if i >= 0 else pyi(z3.simplify(nt + i))
    if c.branch(z3.Or(i < -nt, i >= nt)):
        raise IndexError("index out of bounds")
    if not c.implied(i >= 0):
        if c.branch(i < 0):
            return z3.simplify(i + nt)
    return i


def slice_params(s, n):
    """slice -> (start, step, length)"""
    def g(x):
        if x is None:
            return None
        if isinstance(x, Num):
            x = _pyval(x)
            if isinstance(x, Num):
                raise TypeError("slice indices must be integers or None or have an __index__ method")
        return pyi(x)
    a, b, st = g(s.start), g(s.stop), g(s.step)
    st = 1 if st is None else st
    if not isinstance(st, int):
        raise Unsupported("symbolic slice step")
    if isinstance(n, int) and (a is None or isinstance(a, int)) and (b is None or isinstance(b, int)):
        lo, hi, st2 = slice(a, b, st).indices(n)
        return lo, st2, len(range(lo, hi, st2))
    nt = int_term(n)
    c = cur()

    def clamp(x, default):
        if x is None:
            return default
        if isinstance(x, int) and x < 0:
            return imax0(nt + x)
        if isinstance(x, int):
            return imin(x, nt)
        if not c.implied(x >= 0):
            if c.branch(x < 0):
                return imax0(nt + x)
        return imin(x, nt)
    if st > 0:
        lo = clamp(a, 0)
        hi = clamp(b, nt)
        d = iterm(hi) - iterm(lo)
        d = z3.simplify(d)
        if st == 1:
            ln = imax0(d)
        else:
            ln = imax0(z3.simplify(d + (st - 1)))
            ln = ln / st if not isinstance(ln, int) else ln // st
        return pyi(z3.simplify(iterm(lo))) if not isinstance(lo, int) else lo, st, canon_len(ln)
    if st == -1 and a is None and b is None:
        return pyi(z3.simplify(nt - 1)), -1, n
    raise Unsupported("symbolic slice")


def parse_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    out = []
    n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
    dim = 0
    for k in key:
        if k is Ellipsis:
            for _ in range(a.ndim - n_real):
                out.append(("s", 0, 1, a.shape_[dim]))
                dim += 1
            continue
        if k is None:
            out.append(("n",))
            continue
        if dim >= a.ndim:
            raise IndexError("too many indices for array: array is %d-dimensional" % a.ndim)
        n = a.shape_[dim]
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                out.append(("s", 0, 1, n))
            else:
                st, step, ln = slice_params(k, n)
                out.append(("s", st, step, ln))
        elif isinstance(k, (list, tuple)) or (isinstance(k, SArr)):
            if isinstance(k, SArr):
                if k.dt == "b":
                    out.append(("m", k))
                    dim += 1
                    continue
                if not k.concrete():
                    out.append(("v", k))
                    dim += 1
                    continue
                k = k.tolist()
            if k and all(isinstance(x, bool) for x in k):
                k = [j for j, x in enumerate(k) if x]
            out.append(("a", [norm_index(x, n) for x in k]))
        elif isinstance(k, (bool, SBool)):
            raise Unsupported("boolean scalar index")
        elif isinstance(k, (str, SStr)):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or "
                             "boolean arrays are valid indices")
        else:
            out.append(("i", norm_index(k, n)))
        dim += 1
    while dim < a.ndim:
        out.append(("s", 0, 1, a.shape_[dim]))
        dim += 1
    return out


def getitem(a, key):
    if isinstance(a, MSel):
        if is_intlike(key) and key == 0:
            c = cur()
            cnt = a.shape_[0]
            if c.branch(cnt.t <= 0):
                raise IndexError("index 0 is out of bounds")
            k = z3.Int(c.fresh("first"))
            c.add(z3.And(k >= 0, k < int_term(a.full[0]), zb(a.mask(k))))
            c.register_index(k)
            m = a.mask
            c.assume_forall(a.full[0], lambda i: b_or(b_not(m(i)), i >= k))
            return _npval(a.g(k))
        raise Unsupported("indexing a boolean selection")
    if isinstance(key, tuple) and len(key) == 1:
        key = key[0]
    if isinstance(key, SList):
        from . import shim_np
        key = shim_np.array(key)
    if isinstance(key, SArr) and key.dt == "b":
        if key.concrete() and all(isinstance(raw_bool(key.f(*ix)), bool) for ix in key.indices()) and a.ndim == 1 and a.concrete(4096):
            els = [a.f(i) for (i,) in key.indices() if raw_bool(key.f(i))]
            return from_flat(els, (len(els),), a.dt)
        if a.ndim == 1 and key.ndim == 1:
            e = dim_eq(key.shape_[0], a.shape_[0])
            if not is_true(e) and cur().branch(b_not(e)):
                raise IndexError("boolean index did not match indexed array along axis 0")
            kf = key.f
            return MSel(a.shape_, a.dt, a.f, lambda i: raw_bool(kf(i)))
        if a.ndim == 0 and key.ndim == 0:
            kb = raw_bool(key.f())
            if cur().branch(kb):
                v = a.f()
                return SArr((1,), a.dt, lambda i: v)
            return SArr((0,), a.dt, lambda i: Num(Fraction(0)))
        if a.ndim == 2 and key.ndim == 1:
            return MSel2(a, key)
        raise Unsupported("boolean index of this rank")
    sel = parse_key(a, key)
    if all(s[0] == "i" for s in sel) and len(sel) == a.ndim:
        return _npval(a.at(*[s[1] for s in sel]))
    if any(s[0] == "m" for s in sel):
        ms = [k for k, s in enumerate(sel) if s[0] == "m"]
        if len(ms) == 1 and a.ndim == 2:
            o = 1 - ms[0]
            so = sel[o]
            if so[0] == "i":
                f = a.f
                col = SArr((a.shape_[ms[0]],), a.dt,
                           (lambda i: f(i, so[1])) if ms[0] == 0 else (lambda i: f(so[1], i)))
                return getitem(col, sel[ms[0]][1])
            if ms[0] == 0 and so[0] == "s" and so[1] == 0 and so[2] == 1:
                return MSel2(a, sel[0][1])
        raise Unsupported("mixed boolean index")
    shape = []
    for s in sel:
        if s[0] == "s":
            shape.append(s[3])
        elif s[0] == "a":
            shape.append(len(s[1]))
        elif s[0] == "v":
            shape.append(s[1].shape_[0])
        elif s[0] == "n":
            shape.append(1)
    if sum(1 for s in sel if s[0] in "av") > 1:
        raise Unsupported("several index arrays")

    def m(*ix):
        ix = list(ix)
        out = []
        for s in sel:
            if s[0] == "i":
                out.append(s[1])
            elif s[0] == "s":
                k = ix.pop(0)
                if isinstance(s[1], int) and s[1] == 0 and s[2] == 1:
                    out.append(k)
                elif isinstance(k, int) and isinstance(s[1], int):
                    out.append(s[1] + s[2] * k)
                else:
                    t = z3.simplify(iterm(s[1]) + s[2] * iterm(k))
                    out.append(pyi(t))
            elif s[0] == "n":
                ix.pop(0)
            elif s[0] == "v":
                k = ix.pop(0)
                w = _pyval(s[1].f(k))
                out.append(pyi(w))
            else:
                k = pyi(ix.pop(0))
                if isinstance(k, int):
                    out.append(s[1][k])
                else:
                    r = iterm(s[1][-1])
                    for j in range(len(s[1]) - 2, -1, -1):
                        r = z3.If(k == j, iterm(s[1][j]), r)
                    out.append(r)
        return tuple(out)
    if any(s[0] in "av" for s in sel):
        f = a.f
        return SArr(shape, a.dt, lambda *ix: f(*m(*ix)))

    class Map:
        __slots__ = ()

        def __call__(self, *ix):
            return m(*ix)

        def inv(self, *ix):
            cond, out = True, []
            p = 0
            for s in sel:
                if s[0] == "n":
                    out.append(0)
                    continue
                i = ix[p]
                p += 1
                if s[0] == "i":
                    if isinstance(i, int) and isinstance(s[1], int):
                        cond = b_and(cond, i == s[1])
                    else:
                        cond = b_and(cond, z3.simplify(iterm(i) == iterm(s[1])))
                else:
                    c2, k = inv_slice(i, s)
                    cond = b_and(cond, c2)
                    out.append(k)
            return cond, tuple(out)
    base, mp = a, Map()
    if a.base is not None:
        am, ab = a.bmap, a.base
        inner = mp

        class Map2:
            __slots__ = ()

            def __call__(self, *ix):
                return am(*inner(*ix))

            def inv(self, *ix):
                if not hasattr(am, "inv"):
                    raise Unsupported("writing through a view")
                c1, k1 = am.inv(*ix)
                if is_false(c1):
                    return False, ()
                c2, k2 = inner.inv(*k1)
                return b_and(c1, c2), k2
        base, mp = ab, Map2()
    return SArr(shape, a.dt, None, base, mp)


def MSel2(a, key):
    """rows of a 2-D array selected by a boolean mask -> filtered table"""
    from . import filt
    return filt.filter_rows(a, key)


def scalar_getitem(v, key):
    """indexing a numpy scalar"""
    if isinstance(key, (SBool, bool)) and (isinstance(key, bool) or key.npy):
        b = raw_bool(key)
        if cur().branch(b):
            return SArr((1,), "f", lambda i: v)
        return SArr((0,), "f", lambda i: Num(Fraction(0)))
    if key == () and isinstance(key, tuple):
        return v
    raise IndexError("invalid index to scalar variable.")


# ------------------------------------------------------------------ reductions

def reduce_axis(a, axis, fn):
    """apply fn to every 1-D line along axis of a 2-D array"""
    if a.ndim == 1 and axis in (0, -1):
        return fn(a)
    if a.ndim != 2:
        raise Unsupported("axis reduction")
    axis = axis % 2
    other = 1 - axis
    f = a.f
    n, m = a.shape_[axis], a.shape_[other]
    if not isinstance(m, int):
        if isinstance(n, int):
            def g(j):
                line = SArr((n,), a.dt, (lambda i: f(i, j)) if axis == 0 else (lambda i: f(j, i)))
                return fn(line)
            dt = dt_of(g(z3.Int(cur().fresh("ax"))))
            return SArr((m,), dt, g)
        raise Unsupported("axis reduction over symbolic columns")
    els = []
    for j in range(m):
        line = SArr((n,), a.dt, (lambda i, j=j: f(i, j)) if axis == 0 else (lambda i, j=j: f(j, i)))
        els.append(fn(line))
    return from_flat(els, (m,), dt_of(els[0]) if els else "f")


def nonempty(a):
    s = a.size
    if isinstance(s, int):
        return s > 0
    return not cur().branch(int_term(s) <= 0)


def minmax(a, lo, axis=None):
    a = lift(a)
    if not isinstance(a, SArr):
        return _npval(a)
    if axis is not None and a.ndim > 1:
        return reduce_axis(a, axis, lambda l: minmax(l, lo))
    if a.dt == "O":
        raise Unsupported("min/max of objects")
    if a.dt == "c":
        raise Unsupported("min/max of complex values")
    if not nonempty(a):
        raise ValueError("zero-size array to reduction operation %s which has no identity" %
                         ("minimum" if lo else "maximum"))
    c = cur()
    if isinstance(a, MSel):
        k = z3.Int(c.fresh("mm"))
        c.add(z3.And(k >= 0, k < int_term(a.full[0]), zb(a.mask(k))))
        c.register_index(k)
        g, m = a.g, a.mask
        v = tonum(g(k))
        c.assume_forall(a.full[0], lambda i: b_or(b_not(m(i)), n_le(v, tonum(g(i))) if lo else n_le(tonum(g(i)), v)))
        return _npval(v)
    if a.concrete(12):
        vs = [tonum(a.f(*ix)) for ix in a.indices()]
        r = vs[0]
        for v in vs[1:]:
            r = decided(r, v, lo) or (n_min(r, v) if lo else n_max(r, v))
        return _npval(r)
    if a.ndim == 2 and isinstance(a.shape_[1], int):
        return minmax(reduce_axis(a, 0, lambda l: minmax(l, lo)), lo)
    if a.ndim == 2 and isinstance(a.shape_[0], int):
        return minmax(reduce_axis(a, 1, lambda l: minmax(l, lo)), lo)
    if a.ndim != 1:
        raise Unsupported("min/max of this shape")
    cache = c.__dict__.setdefault("mmcache", {})
    f = a.f
    probe = tonum(f(z3.Int("mmprobe!")))
    key = (lo, str(a.shape_[0] if isinstance(a.shape_[0], int) else a.shape_[0].t.get_id()),
           probe.t.get_id() if not isc(probe.t) else probe.t)
    if key in cache and probe.plain():
        return cache[key][0]
    k = z3.Int(c.fresh("mm"))
    c.add(z3.And(k >= 0, k < int_term(a.shape_[0])))
    c.register_index(k)
    v = tonum(f(k))
    if probe.plain() and not isc(v.t):
        # an end of the array, where the order is known
        for e in (z3.IntVal(0), z3.simplify(int_term(a.shape_[0]) - 1)):
            w = tonum(f(e))
            if w.plain() and c.implied_lin(zt(w.t) <= zt(v.t) if lo else zt(w.t) >= zt(v.t), 80):
                v = w
                break
    c.assume_forall(a.shape_[0], lambda i: n_le(v, tonum(f(i))) if lo else n_le(tonum(f(i)), v))
    r = _npval(v)
    cache[key] = (r, probe)
    return r


def decided(a, b, lo):
    """the smaller (lo) or larger one, where that is known"""
    if not (a.plain() and b.plain()) or isc(a.t) and isc(b.t):
        return None
    c = cur()
    if c.implied_lin(zt(a.t) <= zt(b.t), 80):
        return a if lo else b
    if c.implied_lin(zt(b.t) <= zt(a.t), 80):
        return b if lo else a
    return None


def n_min(a, b):
    na = b_or(a.na, b.na)
    r = n_ite(n_lt(b, a), b, a)
    return Num(r.t, b_and(r.pi, b_not(na)), b_and(r.ni, b_not(na)), na, a.npy or b.npy, a.isint and b.isint)


def n_max(a, b):
    na = b_or(a.na, b.na)
    r = n_ite(n_lt(a, b), b, a)
    return Num(r.t, b_and(r.pi, b_not(na)), b_and(r.ni, b_not(na)), na, a.npy or b.npy, a.isint and b.isint)


def truth(v):
    if isinstance(v, (SBool, bool)):
        return raw_bool(v)
    if isinstance(v, (SComplex, complex)):
        return b_not(raw_bool(tocomplex(v) == 0))
    if isinstance(v, (str, SStr)):
        return raw_bool(v != "")
    return b_not(raw_bool(tonum(v) == 0))


def solve_consts(t):
    from .solve import all_consts
    return all_consts(t)


def forall_bool(n, fn):
    """raw bool equivalent to forall 0<=i<n: fn(i) (fn: z3 Int -> raw bool)"""
    c = cur()
    if isinstance(n, int):
        if n <= 64:
            return b_and(*[fn(i) for i in range(n)])
    b = z3.Bool(c.fresh("all"))
    w = z3.Int(c.fresh("cx"))
    nt = int_term(n)
    # w: a counterexample if there is one, else any index (if there are any)
    c.add(z3.Or(nt < 1, z3.And(w >= 0, w < nt)))
    c.register_index(w)
    bw = fn(w)
    if not isinstance(bw, bool):
        # indices derived from w (reversed accesses)
        from .externs import int_args
        k = 0
        for y in int_args(bw).values():
            if not z3.is_const(y) and k < 3 and w.decl().name() in solve_consts(y) and \
                    w.decl().name() not in solve_consts(z3.simplify(y + w)):
                c.register_index(y)
                k += 1
    c.add(z3.Or(b, z3.And(w >= 0, w < nt, zb(b_not(bw)))))
    c.assume_forall(n, lambda i: b_or(z3.Not(b), fn(i)))
    return b


def exists_bool(n, fn):
    return b_not(forall_bool(n, lambda i: b_not(fn(i))))


def all_(a, axis=None):
    a = lift(a)
    if not isinstance(a, SArr):
        return mkbool(truth(a), True)
    if axis is not None and a.ndim > 1:
        return reduce_axis(a, axis, all_)
    if isinstance(a, MSel):
        g, m = a.g, a.mask
        return mkbool(forall_bool(a.full[0], lambda i: b_or(b_not(m(i)), truth(g(i)))), True)
    if a.concrete():
        return mkbool(b_and(*[truth(a.f(*ix)) for ix in a.indices()]), True)
    f = a.f
    if a.ndim == 2 and isinstance(a.shape_[1], int):
        m = a.shape_[1]
        return mkbool(forall_bool(a.shape_[0], lambda i: b_and(*[truth(f(i, j)) for j in range(m)])), True)
    if a.ndim != 1:
        raise Unsupported("all() of this shape")
    return mkbool(forall_bool(a.shape_[0], lambda i: truth(f(i))), True)


def any_(a, axis=None):
    a = lift(a)
    if not isinstance(a, SArr):
        return mkbool(truth(a), True)
    if axis is not None and a.ndim > 1:
        return reduce_axis(a, axis, any_)
    if isinstance(a, MSel):
        g, m = a.g, a.mask
        return mkbool(exists_bool(a.full[0], lambda i: b_and(m(i), truth(g(i)))), True)
    if a.concrete():
        return mkbool(b_or(*[truth(a.f(*ix)) for ix in a.indices()]), True)
    f = a.f
    if a.ndim == 2 and isinstance(a.shape_[1], int):
        m = a.shape_[1]
        return mkbool(exists_bool(a.shape_[0], lambda i: b_or(*[truth(f(i, j)) for j in range(m)])), True)
    if a.ndim != 1:
        raise Unsupported("any() of this shape")
    return mkbool(exists_bool(a.shape_[0], lambda i: truth(f(i))), True)


def sum_fn(n, fn):
    """sum over 0<=j<n of fn(j) (symbolic scalar)"""
    if isinstance(n, int) and n <= 64:
        r = Num(Fraction(0))
        for j in range(n):
            r = fn(j) + r if j else fn(j)
        return r
    J = z3.Int("J!")
    v = fn(J)
    if isinstance(v, (SBool, bool)):
        v = Num(t_ite(raw_bool(v), Fraction(1), Fraction(0)), npy=True, isint=True)
    if isinstance(v, SInt):
        v = v.num()
    nt = int_term(n)
    if isinstance(v, SComplex):
        if not (v.re.plain() and v.im.plain()):
            raise Unsupported("sum of infinite values")
        return SComplex(Num(sum_atom(nt, zt(v.re.t), J)), Num(sum_atom(nt, zt(v.im.t), J)), v.npy)
    v = tonum(v)
    if v is None:
        raise Unsupported("sum of non-numbers")
    if not v.plain():
        raise Unsupported("sum of infinite values")
    return Num(sum_atom(nt, zt(v.t), J), npy=v.npy)


def sum_(a, axis=None):
    a = lift(a)
    if not isinstance(a, SArr):
        return _npval(a)
    if axis is not None and a.ndim > 1:
        if a.ndim == 2:
            axis = axis % 2
            f = a.f
            n = a.shape_[axis]
            m = a.shape_[1 - axis]
            return SArr((m,), "c" if a.dt == "c" else ("f" if a.dt == "f" else "i"),
                        (lambda j: sum_fn(n, lambda i: f(i, j))) if axis == 0 else
                        (lambda j: sum_fn(n, lambda i: f(j, i))))
        raise Unsupported("sum over this axis")
    if isinstance(a, MSel):
        g, m = a.g, a.mask
        return _npval(sum_fn(a.full[0], lambda i: ite(zb(m(i)), g(i), Num(Fraction(0)) if a.dt != "b" else False)))
    if a.ndim == 1:
        f = a.f
        return _npval(sum_fn(a.shape_[0], lambda i: _npval(f(i)) if a.dt != "b" else SBool(raw_bool(f(i)), True)._num()))
    if a.ndim == 2:
        return sum_(sum_(a, 0))
    if a.ndim == 0:
        return _npval(a.f())
    raise Unsupported("sum")


# ------------------------------------------------------------------ lists

class SList(Proxy):
    """Python list (or tuple) of symbolic length"""
    __slots__ = ("n", "f", "tup", "tail", "serial")

    def __init__(self, n, f, tup=False):
        self.n = n            # int or SInt
        self.f = f
        self.tup = tup
        c = cur()
        if c is not None:
            c.serial = getattr(c, "serial", 0) + 1
            self.serial = c.serial

    def len_(self):
        return self.n

    def elem(self, i):
        i = pyi(i)
        if isinstance(i, z3.ArithRef):
            cur().register_index(i)
        return self.f(i)

    def __getitem__(self, k):
        if isinstance(k, slice):
            st, step, ln = slice_params(k, self.n)
            f = self.f
            if isinstance(st, int) and st == 0 and step == 1:
                return SList(ln, f, self.tup)
            return SList(ln, lambda i: f(pyi(z3.simplify(iterm(st) + step * iterm(i)))), self.tup)
        try:
            return self.elem(norm_index(k, self.n))
        except IndexError:
            raise IndexError("list index out of range")

    def _w(self):
        c = cur()
        if self.tup:
            raise TypeError("'tuple' object does not support item assignment")
        chk = c.hooks.get("heap_write")
        if chk:
            chk(self)

    def __setitem__(self, k, v):
        self._w()
        i = norm_index(k, self.n)
        old = self.f

        def g(j):
            if isinstance(i, int) and isinstance(j, int):
                return v if i == j else old(j)
            return ite(z3.simplify(iterm(i) == iterm(j)), v, old(j))
        self.f = g

    def append(self, v):
        self._w()
        n, old = self.n, self.f
        nt = int_term(n)

        def g(j):
            c = z3.simplify(iterm(j) == nt)
            if z3.is_true(c):
                return v
            if z3.is_false(c) or cur().implied(iterm(j) < nt):
                return old(j)
            return ite(c, v, old(j))
        self.n = mkint(nt + 1)
        self.f = g

    def copy(self):
        return SList(self.n, self.f, self.tup)

    def __add__(self, o):
        return concat_lists(self, o)

    def __radd__(self, o):
        return concat_lists(o, self)

    def __contains__(self, v):
        f = self.f
        return cur().branch(exists_bool(self.n, lambda i: raw_bool(f(i) == v)))

    def __bool__(self):
        return cur().branch(int_term(self.n) > 0)

    def __eq__(self, o):
        raise Unsupported("comparison of symbolic lists")

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.elem(i) for i in range(self.n)])
        raise Unsupported("native iteration over a list of symbolic length")

    def pop(self, i=-1):
        self._w()
        if i != -1:
            raise Unsupported("pop from a symbolic list")
        if cur().branch(int_term(self.n) <= 0):
            raise IndexError("pop from empty list")
        self.n = mkint(int_term(self.n) - 1)
        return self.elem(self.n)

    def __repr__(self):
        return "<list>"
    __str__ = __repr__

    def __format__(self, s):
        return "<list>"

    def _subst(self, pairs):
        f = self.f
        return SList(subst(self.n, pairs), lambda i: subst(f(i), pairs), self.tup)

    def pyname(self):
        return "tuple" if self.tup else "list"
    __hash__ = None


def concat_lists(a, b):
    def parts(x):
        if isinstance(x, SList):
            return x.n, x.f
        return len(x), lambda i: pick(list(x), (len(x),), (i,)) if len(x) else None
    (na, fa), (nb, fb) = parts(a), parts(b)
    nat = int_term(na)

    def g(j):
        if isinstance(j, int) and isinstance(na, int):
            return fa(j) if j < na else fb(j - na)
        c = z3.simplify(iterm(j) < nat)
        if z3.is_true(c) or cur().implied(c):
            return fa(j)
        if z3.is_false(c) or cur().implied(z3.Not(c)):
            return fb(pyi(z3.simplify(iterm(j) - nat)))
        return ite(c, fa(j), fb(pyi(z3.simplify(iterm(j) - nat))))
    return SList(mkint(nat + int_term(nb)), g)
