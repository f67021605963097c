"""Python builtins as seen by the code under verification."""
import builtins as B
from fractions import Fraction
import z3
from .core import cur, Unsupported, PathEnd, is_true, is_false, zb, b_and, b_or, b_not
from .values import (Proxy, Num, SComplex, SBool, SInt, SStr, tonum, tocomplex, raw_bool, mkbool, mkint,
                     int_term, is_intlike, ite, subst)
from .arrays import SArr, SList, MSel, iterm, pyi, exists_bool, forall_bool, sum_fn, minmax, n_min, n_max, _pyval


class _Meta(type):
    def __new__(mcls, name, bases, ns):
        if bases:
            raise Unsupported("subclass of a builtin type")
        return type.__new__(mcls, name, bases, ns)

    def __instancecheck__(cls, x):
        return cls._inst(x)

    def __subclasscheck__(cls, k):
        return k is cls or B.issubclass(k, cls._real)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __eq__(cls, o):
        return cls is o or o is cls._real

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)

    def __getattr__(cls, k):
        return getattr(cls._real, k)


def mk(name, real, inst, make):
    return _Meta(name, (), {"_real": real, "_inst": staticmethod(inst), "_make": staticmethod(make)})


def _float(x=0.0, *a):
    if isinstance(x, SArr):
        if x.ndim == 0:
            return _float(x.f())
        if x.concrete() and len(x.indices()) == 1:
            return _float(x.f(*x.indices()[0]))
        if isinstance(x.size, int):
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        if cur().branch(int_term(x.size) == 1):
            return _float(x.f(0))
        raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
    if isinstance(x, Num):
        return Num(x.t, x.pi, x.ni, x.na)
    if isinstance(x, SInt):
        return x.num()
    if isinstance(x, SBool):
        return x._num()
    if isinstance(x, (SComplex, complex)):
        raise TypeError("float() argument must be a string or a real number, not 'complex'")
    if isinstance(x, str):
        from . import text
        return text.parse_float(x)
    if isinstance(x, SStr):
        return text_float(x)
    if isinstance(x, (int, float, bool)):
        return tonum(float(x)) if not isinstance(x, int) else Num(Fraction(int(x)))
    if isinstance(x, Fraction):
        return Num(x)
    if hasattr(x, "_pv_float"):
        return x._pv_float()
    if isinstance(x, Proxy):
        raise Unsupported("float(%s)" % type(x).__name__)
    return tonum(float(x))


def text_float(x):
    raise Unsupported("float() of an arbitrary string")


def _int(x=0, *a):
    if isinstance(x, SInt):
        return x
    if isinstance(x, Num):
        if x.const():
            return int(x.t)
        if x.isint and z3.is_to_real(x.t):
            return mkint(x.t.arg(0))
        if not x.plain():
            if cur().branch(b_not(x.fin())):
                raise OverflowError("cannot convert float infinity to integer")
        return mkint(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
    if isinstance(x, SBool):
        return mkint(z3.If(zb(x.b), z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, Proxy):
        raise Unsupported("int(%s)" % type(x).__name__)
    return int(x, *a)


def _bool(x=False):
    if isinstance(x, SBool):
        return mkbool(x.b)
    if isinstance(x, Num):
        return mkbool(b_not(raw_bool(x == 0)))
    return bool(x)


def _complex(a=0, b=None):
    if isinstance(a, SArr) and a.ndim == 0:
        a = a.f()
    if not isinstance(a, Proxy) and not isinstance(b, Proxy):
        if isinstance(a, str):
            raise Unsupported("complex(str)")
        z = tocomplex(complex(a, b) if b is not None else complex(a))
        return SComplex(z.re, z.im, False)
    z = tocomplex(a)
    if z is None:
        raise Unsupported("complex()")
    if b is not None:
        z = z + tocomplex(b) * 1j
    return SComplex(Num(z.re.t, z.re.pi, z.re.ni, z.re.na), Num(z.im.t, z.im.pi, z.im.ni, z.im.na), False)


def _str(x="", *a, **k):
    if isinstance(x, SStr):
        return x
    if hasattr(x, "_pv_str"):
        return x._pv_str()
    return str(x, *a, **k)


def _list(x=()):
    if isinstance(x, SList):
        return SList(x.n, x.f)
    if isinstance(x, SArr):
        return seq_of(x, False)
    if isinstance(x, SymSeq):
        return SList(x.n, x.item)
    return note(list(x))


def _tuple(x=()):
    if isinstance(x, SList):
        return SList(x.n, x.f, True)
    if isinstance(x, SArr):
        return seq_of(x, True)
    if isinstance(x, SymSeq):
        return SList(x.n, x.item, True)
    return tuple(x)


def seq_of(a, tup):
    if a.ndim == 0:
        raise TypeError("iteration over a 0-d array")
    n = a.shape_[0]
    f = a.f
    if isinstance(n, int):
        r = [a[i] for i in range(n)]
        return tuple(r) if tup else r
    if a.ndim != 1:
        return SList(n, lambda i: a[mkint(iterm(i))], tup)
    from .arrays import _npval
    return SList(n, lambda i: _npval(f(i)), tup)


def note(x):
    """a container created by the code (symbolic loops may mutate it)"""
    c = cur()
    if c is not None and c.hooks.get("loop_depth"):
        c.hooks.setdefault("created", []).append(x)
    return x


def _dict(*a, **k):
    return note(dict(*a, **k))


def _set(x=()):
    if isinstance(x, (SList, SymSeq, SArr)):
        raise Unsupported("set of a symbolic sequence")
    return note(set(x))


def is_pyfloat(x):
    if isinstance(x, Num):
        return not x.isint          # numpy float64 is a float too
    return B.isinstance(x, float)


pfloat = mk("float", float, is_pyfloat, _float)
pint = mk("int", int, lambda x: isinstance(x, (SInt, int)), _int)
pbool = mk("bool", bool, lambda x: isinstance(x, bool) or (isinstance(x, SBool) and not x.npy), _bool)
pcomplex = mk("complex", complex, lambda x: isinstance(x, (SComplex, complex)), _complex)
pstr = mk("str", str, lambda x: isinstance(x, (str, SStr)) or hasattr(type(x), "_pv_isstr"), _str)
plist = mk("list", list, lambda x: isinstance(x, list) or (isinstance(x, SList) and not x.tup), _list)
ptuple = mk("tuple", tuple, lambda x: isinstance(x, tuple) or (isinstance(x, SList) and x.tup), _tuple)
pdict = mk("dict", dict, lambda x: isinstance(x, dict), _dict)
pset = mk("set", set, lambda x: isinstance(x, set), _set)


def class_of(x):
    from . import shim_np
    if isinstance(x, Num):
        if x.npy:
            return shim_np.int64 if x.isint else shim_np.float64
        return pfloat
    if isinstance(x, SComplex):
        return shim_np.complex128 if x.npy else pcomplex
    if isinstance(x, SBool):
        return shim_np.bool_ if x.npy else pbool
    if isinstance(x, SInt):
        return pint
    if isinstance(x, SStr):
        return pstr
    if isinstance(x, SArr):
        return shim_np.ndarray
    if isinstance(x, SList):
        return ptuple if x.tup else plist
    if isinstance(x, Proxy):
        raise Unsupported("type of %s" % B.type(x).__name__)
    t = B.type(x)
    return {float: pfloat, int: pint, bool: pbool, complex: pcomplex, str: pstr, list: plist, tuple: ptuple,
            dict: pdict, set: pset}.get(t, t)


def _type(*a, **k):
    if len(a) == 1:
        return class_of(a[0])
    return type(*a, **k)


ptype = mk("type", type, lambda x: isinstance(x, type), _type)


# ---------------------------------------------------------------- sequences

class SymSeq:
    """iterable of symbolic length"""

    def __init__(self, n, item):
        self.n, self.item = n, item

    def len_(self):
        return self.n

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.item(i) for i in range(self.n)])
        raise Unsupported("native iteration over a symbolic sequence")

    def __getitem__(self, k):
        return SList(self.n, self.item)[k]


def symiter(x):
    """-> native iterable or SymSeq"""
    if isinstance(x, SymSeq):
        return x if not isinstance(x.n, int) else [x.item(i) for i in range(x.n)]
    if isinstance(x, SList):
        if isinstance(x.n, int):
            return [x.elem(i) for i in range(x.n)]
        return SymSeq(x.n, x.elem)
    if isinstance(x, SArr):
        if x.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        if isinstance(x, MSel):
            raise Unsupported("iteration over a boolean selection")
        n = x.shape_[0]
        if isinstance(n, int):
            return [x[i] for i in range(n)]
        return SymSeq(n, lambda i: x[mkint(iterm(i))])
    if hasattr(x, "_pv_iter"):
        return symiter(x._pv_iter())
    if isinstance(x, Proxy):
        raise TypeError("'%s' object is not iterable" % x.pyname())
    return x


def plen(x):
    if isinstance(x, (SArr, SList, SymSeq)):
        return x.len_()
    if hasattr(x, "_pv_len"):
        return x._pv_len()
    return len(x)


def prange(*a):
    def g(x):
        if isinstance(x, Num):
            if x.npy and x.isint:
                return _int(x)
            raise TypeError("'float' object cannot be interpreted as an integer")
        return x
    a = [g(x) for x in a]
    if not any(isinstance(x, SInt) for x in a):
        return range(*a)
    lo, step = 0, 1
    if len(a) == 1:
        hi = a[0]
    else:
        lo, hi = a[0], a[1]
        if len(a) == 3:
            step = a[2]
    if not isinstance(step, int) or step == 0:
        raise Unsupported("range with symbolic step")
    lt, ht = int_term(lo), int_term(hi)
    if step > 0:
        cnt = (ht - lt + (step - 1)) / z3.IntVal(step)
    else:
        cnt = (lt - ht + (-step - 1)) / z3.IntVal(-step)
    c = cur()
    if c.implied(z3.simplify(cnt >= 0)):
        n = mkint(cnt)
    else:
        n = mkint(z3.If(cnt >= 0, cnt, z3.IntVal(0)))
    return SymSeq(n, lambda i: mkint(lt + step * iterm(i)))


def _seqs(args):
    xs = [symiter(x) for x in args]
    return xs, any(isinstance(x, SymSeq) for x in xs)


def pzip(*args, strict=False):
    xs, sym = _seqs(args)
    if not sym:
        return zip(*xs)
    ns, fs = [], []
    for x in xs:
        if isinstance(x, SymSeq):
            ns.append(x.n)
            fs.append(x.item)
        else:
            x = list(x)
            ns.append(len(x))
            from .arrays import pick
            fs.append(lambda i, x=x: pick(x, (len(x),), (i,)))
    n = ns[0]
    for m in ns[1:]:
        a, b = int_term(n), int_term(m)
        if a.eq(b):
            continue
        if cur().branch(a <= b):
            pass
        else:
            n = m
    if isinstance(n, int):
        return [tuple(f(i) for f in fs) for i in range(n)]
    return SymSeq(n, lambda i: tuple(f(i) for f in fs))


def penumerate(x, start=0):
    s = symiter(x)
    if isinstance(s, SymSeq):
        return SymSeq(s.n, lambda i: (mkint(iterm(i) + start) if isinstance(start, int) else mkint(iterm(i) + int_term(start)), s.item(i)))
    return enumerate(s, start)


def preversed(x):
    s = symiter(x)
    if isinstance(s, SymSeq):
        nt = int_term(s.n)
        return SymSeq(s.n, lambda i: s.item(pyi(z3.simplify(nt - 1 - iterm(i)))))
    return reversed(list(s)) if not isinstance(s, (list, tuple, str, range)) else reversed(s)


def pmap(f, *its):
    xs, sym = _seqs(its)
    if not sym:
        return map(f, *xs)
    z = pzip(*xs)
    if not isinstance(z, SymSeq):
        return [f(*t) for t in z]
    return comp_seq(z, lambda t: f(*t))


def comp_seq(s, fn):
    """SList of fn(item) for a symbolic sequence; fn must not branch on the element"""
    c = cur()
    if not c.branch(int_term(s.n) > 0):
        return []
    J = z3.Int(c.fresh("C"))
    c.add(z3.And(J >= 0, J < int_term(s.n)))
    c.register_index(J)
    t0, f0 = len(c.trace), len(c.fresh_log)
    v = fn(s.item(J))
    if len(c.trace) != t0:
        raise Unsupported("comprehension branches on its element")
    fr = set(c.fresh_log[f0:])
    from .loops import terms_of, names_in, IDX
    if isinstance(v, SArr):
        f, sh, dt = v.f, v.shape_, v.dt
        ts = terms_of(f(*IDX[:len(sh)]))
        if any(names_in(t, c) & fr for t in ts):
            raise Unsupported("comprehension element")
        return SList(s.n, lambda i: SArr(sh, dt, lambda *ix: subst(f(*ix), [(J, iterm(i))])))
    if any(names_in(t, c) & fr for t in terms_of(v)):
        raise Unsupported("comprehension element")
    subst(v, [(J, J)])
    return SList(s.n, lambda i: subst(v, [(J, iterm(i))]))


def pfilter(f, x):
    s = symiter(x)
    if isinstance(s, SymSeq):
        raise Unsupported("filter of a symbolic sequence")
    return filter(f, s)


def psorted(x, key=None, reverse=False):
    s = symiter(x)
    if isinstance(s, SymSeq):
        raise Unsupported("sorted of a symbolic sequence")
    return note(sorted(s, key=key, reverse=reverse))


def psum(x, start=0):
    s = symiter(x)
    if isinstance(s, SymSeq):
        return sum_fn(s.n, lambda i: s.item(i)) + start
    r = start
    for y in s:
        r = r + y
    return r


def _mm(lo):
    def f(*a, key=None, default=None):
        if key is not None:
            raise Unsupported("min/max with key")
        if len(a) == 1:
            s = symiter(a[0])
            if isinstance(s, SymSeq):
                if not cur().branch(int_term(s.n) > 0):
                    if default is not None:
                        return default
                    raise ValueError("min() arg is an empty sequence")
                r = minmax(SArr((s.n,), "f", lambda i: tonum(s.item(i))), lo)
                return _pyval(r) if not isinstance(a[0], SArr) else r
            a = list(s)
            if not a:
                if default is not None:
                    return default
                raise ValueError("min() arg is an empty sequence")
        r = a[0]
        for y in a[1:]:
            if isinstance(y, (Num, SInt)) or isinstance(r, (Num, SInt)):
                cnd = raw_bool(y < r) if lo else raw_bool(y > r)
                r = ite(cnd, y, r)
            else:
                r = (min if lo else max)(r, y)
        return r
    return f


pmin, pmax = _mm(True), _mm(False)


def pall(x):
    s = symiter(x)
    if isinstance(s, SymSeq):
        from .arrays import truth
        return mkbool(forall_bool(s.n, lambda i: truth(s.item(i))))
    for y in s:
        if not y:
            return False
    return True


def pany(x):
    s = symiter(x)
    if isinstance(s, SymSeq):
        from .arrays import truth
        return mkbool(exists_bool(s.n, lambda i: truth(s.item(i))))
    for y in s:
        if y:
            return True
    return False


def pabs(x):
    return abs(x)


def pround(x, nd=None):
    if isinstance(x, (Num,)):
        from . import shim_np
        return shim_np.round(x, nd or 0)
    return round(x, nd) if nd is not None else round(x)


def pisinstance(x, t):
    if isinstance(t, tuple):
        return any(pisinstance(x, y) for y in t)
    if t is bool:
        return pbool._inst(x)
    real = {float: pfloat, int: pint, bool: pbool, complex: pcomplex, str: pstr, list: plist, tuple: ptuple}.get(t)
    if real is not None:
        return real._inst(x)
    if hasattr(t, "_pv_instancecheck"):
        return t._pv_instancecheck(x)
    try:
        import numbers
        import collections.abc as cabc
        if t in (numbers.Number, numbers.Complex):
            return isinstance(x, (Num, SInt, SComplex)) or B.isinstance(x, t)
        if t is numbers.Real:
            return isinstance(x, (Num, SInt)) or B.isinstance(x, t)
        if t is numbers.Integral:
            return isinstance(x, SInt) or (isinstance(x, Num) and x.isint) or B.isinstance(x, t)
        if t is cabc.Sequence:
            return isinstance(x, SList) or (B.isinstance(x, t) and not isinstance(x, Proxy))
        if t in (cabc.Iterable, cabc.Sized):
            return isinstance(x, (SList, SArr)) or (not isinstance(x, Proxy) and B.isinstance(x, t))
    except TypeError:
        pass
    return B.isinstance(x, t)


def phasattr(x, k):
    if isinstance(x, Proxy):
        try:
            getattr(x, k)
            return True
        except AttributeError:
            return False
        except Unsupported:
            if isinstance(x, Num) and not x.npy or isinstance(x, (SInt, SStr, SBool)):
                import builtins
                t = {"Num": float, "SInt": int, "SStr": str, "SBool": bool}[type(x).__name__]
                return hasattr(t, k)
            if k in ("__len__", "__iter__", "__getitem__"):
                return isinstance(x, (SArr, SList))
            raise
    return hasattr(x, k)


def pnext(it, *d):
    return next(it, *d)


def pcallable(x):
    return callable(x) and not isinstance(x, Proxy)


def pinput(prompt=""):
    c = cur()
    h = c.hooks.get("input")
    if h is None:
        raise Unsupported("input()")
    return h(prompt)


def pprint(*a, **k):
    return None


def popen(path, mode="r", *a, **k):
    c = cur()
    if c.vfs is None:
        raise Unsupported("open()")
    return c.vfs.open(path, mode)


def pdir(*a):
    raise Unsupported("dir()")


def no(name):
    def f(*a, **k):
        raise Unsupported(name + "()")
    return f


def make_builtins(importer):
    d = dict(vars(B))
    d.update(float=pfloat, int=pint, bool=pbool, complex=pcomplex, str=pstr, list=plist, tuple=ptuple, dict=pdict,
             set=pset, type=ptype, len=plen, range=prange, zip=pzip, enumerate=penumerate, reversed=preversed, map=pmap,
             filter=pfilter, sorted=psorted, sum=psum, min=pmin, max=pmax, all=pall, any=pany, abs=pabs, round=pround,
             isinstance=pisinstance, hasattr=phasattr, callable=pcallable, input=pinput, print=pprint, open=popen,
             exec=no("exec"), eval=no("eval"), compile=no("compile"), breakpoint=no("breakpoint"), __import__=importer)
    return d
