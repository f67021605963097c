"""pandas, the part the catalogue uses (assumed contracts).

A frame has n rows (a number, or symbolic), a label for every row (labels are distinct) and columns given as functions of
the row position.  Cells are strings, numbers or NaN.  read_csv(to_csv(f, index=False)) = f is assumed for the catalogue's
columns; with the default NA handling empty and NA-like strings become NaN."""
import z3
from .core import cur, Unsupported, b_and, b_not, b_or, zb
from .shim_np import ModProxy
from .shims import pstr
from .values import raw_bool, SStr, SInt, SBool, Num, Proxy, mkbool, mkint, tonum, int_term, str_term

NAN = float("nan")
NA = {"", "NA", "NaN", "nan", "N/A", "NULL", "null", "None", "n/a", "#N/A", "<NA>", "-nan", "-NaN"}


def eq(a, b):
    from .loader import RT
    if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
        return False
    sa, sb = isinstance(a, (str, SStr)), isinstance(b, (str, SStr))
    if sa != sb:
        return False
    return raw_bool(RT.eq(a, b))


def pick(c, a, b):
    """cell: a if c else b"""
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return SStr(z3.If(c, str_term(a), str_term(b)))
    raise Unsupported("conditional cell")


class Vec:
    """a column, or an array of its values"""
    _series = False

    def __init__(self, n, f, labels=None, frame=None, name=None):
        self.n, self.f, self.labels, self._frame, self.name = n, f, labels, frame, name

    def _arr(self):
        return Vec(self.n, self.f)
    values = property(_arr)
    array = property(_arr)

    def to_numpy(self, *a, **k):
        return self._arr()

    def copy(self, *a, **k):
        return type(self)(self.n, self.f, self.labels)

    @property
    def index(self):
        return Index(self.n, self.labels[0], self.labels[1])

    def _pv_len(self):
        return self.n

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported("native length")

    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    def _pv_iter(self):
        from .shims import SymSeq
        return SymSeq(self.n, lambda i: self.f(i if isinstance(i, int) else int_term(i)))

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.f(i) for i in range(self.n)])
        raise Unsupported("native iteration")

    def tolist(self):
        if isinstance(self.n, int):
            return [self.f(i) for i in range(self.n)]
        return self._arr()
    to_list = tolist

    def _pv_contains(self, a):
        if self._series:
            return self.index._pv_contains(a)
        return self._some(lambda i: eq(self.f(i), a))

    def _some(self, p):
        if isinstance(self.n, int):
            return mkbool(b_or(*[p(i) for i in range(self.n)]))
        from .arrays import exists_bool
        return mkbool(exists_bool(self.n, p))

    def _map(self, g):
        f = self.f
        return type(self)(self.n, lambda i: g(f(i)), self.labels)

    def __eq__(self, o):
        if isinstance(o, (Vec, list)):
            raise Unsupported("comparison of columns")
        return self._map(lambda x: mkbool(eq(x, o)))

    def __ne__(self, o):
        return self._map(lambda x: mkbool(b_not(eq(x, o))))
    __hash__ = None

    def isin(self, xs):
        xs = list(xs)
        return self._map(lambda x: mkbool(b_or(*[eq(x, y) for y in xs])))

    def isna(self):
        return self._map(lambda x: isinstance(x, float) and x != x)

    def __and__(self, o):
        f, g = self.f, o.f
        return type(self)(self.n, lambda i: mkbool(b_and(raw_bool(f(i)), raw_bool(g(i)))), self.labels)

    def __or__(self, o):
        f, g = self.f, o.f
        return type(self)(self.n, lambda i: mkbool(b_or(raw_bool(f(i)), raw_bool(g(i)))), self.labels)

    def __invert__(self):
        return self._map(lambda x: mkbool(b_not(raw_bool(x))))

    def any(self, *a, **k):
        return self._some(lambda i: raw_bool(self.f(i)))

    def all(self, *a, **k):
        return mkbool(b_not(raw_bool(self._some(lambda i: b_not(raw_bool(self.f(i)))))))

    def sum(self, *a, **k):
        if not isinstance(self.n, int):
            raise Unsupported("sum of a mask")
        return sum(1 for i in range(self.n) if cur().branch(raw_bool(self.f(i))))

    def __getitem__(self, k):
        if is_mask(k):
            return type(self)(*select(self.n, k, self.f, None)[:2])
        i = posn(self.n, k)
        return self.f(i)

    @property
    def iloc(self):
        return Ix(lambda k: self.f(posn(self.n, k)))

    def __setitem__(self, k, v):
        raise Unsupported("write to a column")


class Series(Vec):
    _series = True


def is_mask(k):
    return isinstance(k, (Vec, list)) or type(k).__name__ == "SArr"


def posn(n, k):
    """position k (negative: from the end)"""
    c = cur()
    if isinstance(k, slice) or not isinstance(k, (int, SInt)):
        raise Unsupported("selection by %s" % type(k).__name__)
    if isinstance(n, int):
        if isinstance(k, int):
            if not -n <= k < n:
                raise IndexError("single positional indexer is out-of-bounds")
            return k % n if n else k
        for i in range(n):
            if c.branch(zb(b_or(raw_bool(k == i), raw_bool(k == i - n)))):
                return i
        raise IndexError("single positional indexer is out-of-bounds")
    t, nt = int_term(k), int_term(n)
    if c.branch(z3.And(t >= 0, t < nt)):
        c.register_index(t)
        return t
    if c.branch(z3.And(t < 0, t >= -nt)):
        c.register_index(t + nt)
        return z3.simplify(t + nt)
    raise IndexError("single positional indexer is out-of-bounds")


def mask_fn(n, m):
    if isinstance(m, Vec):
        return lambda i: raw_bool(m.f(i))
    if isinstance(m, list):
        if not all(isinstance(x, (bool, SBool)) for x in m):
            raise Unsupported("selection by a list")
        if len(m) != n:
            raise IndexError("Boolean index has wrong length")
        return lambda i: raw_bool(m[i])
    f = m.f
    return lambda i: raw_bool(f(i))


def select(n, m, f, labels):
    """rows where the mask holds: (n', f', labels')"""
    p = mask_fn(n, m)
    c = cur()
    if isinstance(n, int):
        keep = [i for i in range(n) if c.branch(p(i))]
        return len(keep), (lambda i: f(keep[i]) if isinstance(i, int) else nope()), keep
    # symbolic: only the number of rows being 0 or not, and the first row, are known
    from .arrays import exists_bool
    some = exists_bool(n, p)
    k = z3.Int(c.fresh("nsel"))
    w = z3.Int(c.fresh("first"))
    nt = int_term(n)
    c.add(z3.And(k >= 0, k <= nt))
    c.add(zb(some) == (k >= 1))
    c.add(z3.Or(k < 1, z3.And(w >= 0, w < nt)))
    c.register_index(w)
    c.add(z3.Or(k < 1, zb(p(w))))
    c.assume_forall(n, lambda i: b_or(k < 1, i >= w, b_not(p(i))))

    def g(i):
        if isinstance(i, int) and i == 0 or z3.is_int_value(i) and i.as_long() == 0:
            return f(w)
        raise Unsupported("rows of a selection")
    return mkint(k), g, w


def nope():
    raise Unsupported("symbolic position in a small frame")


class Index(Vec):
    def __init__(self, n, f, pos=None):
        Vec.__init__(self, n, f)
        self.pos = pos

    def _map(self, g):
        f = self.f
        return Vec(self.n, lambda i: g(f(i)))

    def _pv_contains(self, a):
        if not isinstance(a, (int, SInt)) or isinstance(a, bool):
            return False
        return mkbool(has(self.n, self.f, self.pos, a))

    def __getitem__(self, k):
        if is_mask(k):
            n, f, keep = select(self.n, k, self.f, None)
            return Index(n, f)
        return self.f(posn(self.n, k))

    def get_loc(self, a):
        return mkint(locate(self.n, self.f, self.pos, a)) if not isinstance(self.n, int) else locate(self.n, self.f, self.pos, a)

    @property
    def empty(self):
        return mkbool(raw_bool(self.n == 0))

    @property
    def is_unique(self):
        return True


def has(n, lab, pos, a):
    if isinstance(n, int):
        return b_or(*[raw_bool(lab(i) == a) for i in range(n)])
    p = pos(int_term(a))
    cur().register_index(p)
    return z3.And(p >= 0, p < int_term(n), int_term(lab(p)) == int_term(a))


def locate(n, lab, pos, a):
    """position of label a"""
    c = cur()
    if not isinstance(a, (int, SInt)):
        raise KeyError(a)
    if isinstance(n, int):
        for i in range(n):
            if c.branch(raw_bool(lab(i) == a)):
                return i
        raise KeyError(a)
    if not c.branch(has(n, lab, pos, a)):
        raise KeyError(a)
    return pos(int_term(a))


class Ix:
    def __init__(self, get, put=None):
        self.get, self.put = get, put

    def __getitem__(self, k):
        return self.get(k)

    def __setitem__(self, k, v):
        if self.put is None:
            raise Unsupported("this kind of write to a frame")
        self.put(k, v)


class Row:
    """one row"""

    def __init__(self, frame, i):
        self.__dict__["_c"] = {k: (lambda f=f, k=k: frame.cell(f, i, k)) for k, f in frame.cols.items()}
        self.__dict__["_name"] = (lambda: frame.lab(i))

    def __getattr__(self, k):
        if k.startswith("_") or k not in self._c:
            raise AttributeError(k)
        return self._c[k]()

    def __getitem__(self, k):
        if k not in self._c:
            raise KeyError(k)
        return self._c[k]()

    @property
    def name(self):
        return self._name()

    def get(self, k, d=None):
        return self[k] if k in self._c else d

    def to_dict(self):
        return {k: f() for k, f in self._c.items()}

    def copy(self):
        return self


class DataFrame:
    def __init__(self, data=None, columns=None, index=None, dtype=None, **k):
        rows = []
        if data is not None:
            if not isinstance(data, list) or not all(isinstance(r, dict) for r in data):
                raise Unsupported("DataFrame of %s" % type(data).__name__)
            rows = data
        if columns is None:
            columns = list(dict.fromkeys(c for r in rows for c in r))
        cs = list(columns)
        self.__dict__["n"] = len(rows)
        cells = [[r[c] if c in r else NAN for r in rows] for c in cs]
        self.__dict__["cols"] = {c: (lambda i, x=x: x[i] if isinstance(i, int) else nope()) for c, x in zip(cs, cells)}
        lab = list(index) if index is not None else list(range(len(rows)))
        self.__dict__["lab"] = lambda i: lab[i]
        self.__dict__["pos"] = None
        self.__dict__["options"] = {}

    @classmethod
    def _make(cls, n, lab, cols, pos=None, options=None):
        f = cls.__new__(cls)
        f.__dict__.update(n=n, lab=lab, cols=dict(cols), pos=pos, options=options or {})
        return f

    def cell(self, f, i, k):
        x = f(i)
        if isinstance(x, SStr) and k in self.options:
            for o in self.options[k]:
                if cur().branch(raw_bool(x == o)):
                    return o
        return x

    # shape
    @property
    def shape(self):
        return (self.n, len(self.cols))

    def _pv_len(self):
        return self.n

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported("native length")

    @property
    def empty(self):
        return mkbool(raw_bool(self.n == 0))

    @property
    def size(self):
        return self.n * len(self.cols)

    @property
    def columns(self):
        return list(self.cols)

    @property
    def index(self):
        return Index(self.n, self.lab, self.pos)

    def _pv_contains(self, a):
        return a in self.cols

    # columns
    def _col(self, k):
        if k not in self.cols:
            raise KeyError(k)
        return Series(self.n, self.cols[k], (self.lab, self.pos), self, k)

    def __getattr__(self, k):
        if k.startswith("_") or k not in self.__dict__.get("cols", {}):
            if k.startswith("_") or k == "dtypes":
                raise AttributeError(k)
            raise Unsupported("DataFrame.%s" % k)
        return self._col(k)

    def __setattr__(self, k, v):
        raise Unsupported("write to a frame")

    def __getitem__(self, k):
        if isinstance(k, str):
            return self._col(k)
        if is_mask(k):
            return self._sel(k)
        raise Unsupported("frame[...]")

    def __setitem__(self, k, v):
        if isinstance(k, str) and isinstance(v, (str, SStr, float)):
            self.cols[k] = lambda i: v
            return
        raise Unsupported("write to a frame")

    def _sel(self, m):
        if not isinstance(self.n, int):
            n, _, w = select(self.n, m, lambda i: i, None)
            wrap = lambda f: (lambda i: f(w) if isinstance(i, int) and i == 0 or z3.is_int_value(i) and i.as_long() == 0 else nope())
            return DataFrame._make(n, wrap(self.lab), {c: wrap(f) for c, f in self.cols.items()}, None, self.options)
        n, _, keep = select(self.n, m, lambda i: i, None)
        wrap = lambda f: (lambda i: f(keep[i]))
        return DataFrame._make(n, wrap(self.lab), {c: wrap(f) for c, f in self.cols.items()}, None, self.options)

    # cells
    def _loc(self, k):
        if isinstance(k, tuple) and len(k) == 2:
            r, c = k
            if isinstance(r, slice) and r == slice(None):
                return self if isinstance(c, slice) else self._col(c)
            if is_mask(r):
                s = self._sel(r)
                return s if isinstance(c, slice) else s._col(c)
            i = locate(self.n, self.lab, self.pos, r)
            if isinstance(c, slice):
                return Row(self, i)
            if c not in self.cols:
                raise KeyError(c)
            return self.cell(self.cols[c], i, c)
        if is_mask(k):
            return self._sel(k)
        return Row(self, locate(self.n, self.lab, self.pos, k))

    def _put(self, k, v):
        r, c = k
        if not isinstance(c, str) or isinstance(r, slice):
            raise Unsupported("this kind of write to a frame")
        old = self.cols.get(c) or (lambda i: NAN)
        if is_mask(r):
            p = mask_fn(self.n, r)
            if isinstance(self.n, int):
                hit = [cur().branch(p(i)) for i in range(self.n)]
                self.cols[c] = lambda i: v if hit[i] else old(i)
            else:
                self.cols[c] = lambda i: pick(p(i), v, old(i))
            return
        try:
            i0 = locate(self.n, self.lab, self.pos, r)
        except KeyError:
            # enlargement
            if not isinstance(self.n, int):
                raise Unsupported("enlargement of a frame")
            n, lab, cols = self.n, self.lab, dict(self.cols)
            self.__dict__["n"] = n + 1
            self.__dict__["lab"] = lambda i: lab(i) if i < n else r
            for q, f in cols.items():
                self.cols[q] = lambda i, f=f, q=q: f(i) if i < n else (v if q == c else NAN)
            return
        self._set(c, old, i0, v)

    def _set(self, c, old, i0, v):
        if isinstance(self.n, int):
            self.cols[c] = lambda i: v if i == i0 else old(i)
        else:
            self.cols[c] = lambda i: pick(z3.simplify(iz(i) == i0), v, old(i)) if not iz(i).eq(i0) else v

    @property
    def loc(self):
        return Ix(self._loc, self._put)

    @property
    def at(self):
        return Ix(self._loc, self._put)

    def _iloc(self, k):
        if isinstance(k, tuple):
            r, c = k
            i = posn(self.n, r)
            if isinstance(c, slice):
                return Row(self, i)
            name = list(self.cols)[c] if isinstance(c, int) else c
            return self.cell(self.cols[name], i, name)
        return Row(self, posn(self.n, k))

    def _iput(self, k, v):
        r, c = k
        name = list(self.cols)[c]
        self._set(name, self.cols[name], posn(self.n, r), v)

    @property
    def iloc(self):
        return Ix(self._iloc, self._iput)
    iat = iloc

    # whole frames
    def copy(self, *a, **k):
        return DataFrame._make(self.n, self.lab, self.cols, self.pos, self.options)

    def reset_index(self, drop=False, inplace=False, **k):
        if not drop or inplace:
            raise Unsupported("reset_index")
        return DataFrame._make(self.n, (lambda i: i if isinstance(i, int) else mkint(i)), self.cols, lambda t: t, self.options)

    def iterrows(self):
        if not isinstance(self.n, int):
            raise Unsupported("iterrows")
        return [(self.lab(i), Row(self, i)) for i in range(self.n)]

    def rows(self):
        return [{c: self.cell(f, i, c) for c, f in self.cols.items()} for i in range(self.n)]

    def to_csv(self, path=None, index=True, index_label=None, **k):
        if k or not isinstance(self.n, int):
            raise Unsupported("to_csv")
        c = cur()
        docs = c.__dict__.setdefault("csvdocs", {})
        key = "CSVDOC%d" % (len(docs) + 1)
        rows = self.rows()
        cols = list(self.cols)
        if index:
            cols = [index_label or "Unnamed: 0"] + cols
            rows = [dict(r, **{cols[0]: self.lab(i)}) for i, r in enumerate(rows)]
        docs[key] = (cols, rows)
        if path is None:
            return key + "\n"
        with c.vfs.open(path, "w") as f:
            f.write(key + "\n")


def iz(i):
    return z3.IntVal(i) if isinstance(i, int) else i


def read_csv(path, dtype=None, na_values=None, keep_default_na=True, **k):
    if k:
        raise Unsupported("read_csv options")
    c = cur()
    s = c.vfs.open(path, "r").read().strip()
    docs = c.__dict__.get("csvdocs", {})
    if s not in docs:
        raise Unsupported("csv text")
    cols, rows = docs[s]
    dtype = dict(dtype or {})

    def load(col, x):
        num = col in dtype and dtype[col] not in (str, pstr, object, "str", "object")
        if isinstance(x, float) and x != x:
            x = ""
        if isinstance(x, (str, SStr)):
            nas = set(NA) if keep_default_na else set()
            if isinstance(na_values, dict):
                nas |= set(na_values.get(col, []))
            elif na_values is not None:
                nas |= set([na_values] if isinstance(na_values, str) else na_values)
            for q in sorted(nas):
                if isinstance(x, str):
                    if x == q:
                        return NAN
                elif c.branch(raw_bool(x == q)):
                    return NAN
            if num:
                raise ValueError("could not convert string to float")
        return x
    return DataFrame([{q: load(q, r[q]) for q in cols} for r in rows], columns=cols)


def concat(objs, ignore_index=False, sort=False, axis=0, **k):
    if k or axis:
        raise Unsupported("concat options")
    objs = list(objs)
    if not all(isinstance(o, DataFrame) for o in objs):
        raise TypeError("cannot concatenate object")
    if not all(isinstance(o.n, int) for o in objs):
        raise Unsupported("concat of symbolic frames")
    cols = list(dict.fromkeys(c for o in objs for c in o.cols))
    rows = [r for o in objs for r in o.rows()]
    labs = [o.lab(i) for o in objs for i in range(o.n)]
    return DataFrame(rows, columns=cols, index=None if ignore_index else labs)


def make(ctx):
    core = ModProxy("pandas.core", dict(frame=ModProxy("pandas.core.frame", dict(DataFrame=DataFrame))))
    return ModProxy("pandas", dict(__version__="3.1.1", DataFrame=DataFrame, Series=Series, core=core, read_csv=read_csv, concat=concat))
