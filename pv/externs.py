"""Modules imported by the package, as assumed contracts."""
import posixpath
import types
from fractions import Fraction
import z3
from . import shim_np, shims, text
from .core import cur, Unsupported, PathEnd, b_and, b_or, b_not, zb
from .values import Num, SComplex, SBool, SInt, SStr, Proxy, tonum, tocomplex, mkbool, raw_bool, int_term, uf, zt, isc, ite, mkint
from .arrays import SArr, SList, MSel, iterm, pyi, ew1, forall_bool, lift, _npval
from .shim_np import ModProxy


def constants(ctx):
    """CODATA values that are exact by definition of the SI, as rationals"""
    R = lambda s: Num(Fraction(s))
    h, c, e, k = Fraction("6.62607015e-34"), Fraction(299792458), Fraction("1.602176634e-19"), Fraction("1.380649e-23")
    pi = Num(ctx.pi)
    d = dict(c=Num(c), speed_of_light=Num(c), h=Num(h), Planck=Num(h), e=Num(e), elementary_charge=Num(e), eV=Num(e),
             electron_volt=Num(e), k=Num(k), Boltzmann=Num(k), N_A=R("6.02214076e23"), pi=pi, hbar=Num(h) / (2 * pi),
             angstrom=R("1e-10"), nano=R("1e-9"), micro=R("1e-6"), milli=R("1e-3"), centi=R("1e-2"), kilo=R("1e3"),
             mega=R("1e6"), giga=R("1e9"), tera=R("1e12"), pico=R("1e-12"), femto=R("1e-15"), micron=R("1e-6"))
    return ModProxy("scipy.constants", d)


# ---------------------------------------------------------------- interpolation

class interp1d:
    """scipy.interpolate.interp1d(x, y, kind): for strictly increasing x, a function of (table, kind, point);
    for kind 1 the chord through the neighbouring points, so exact at the table points; refuses points outside."""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        c = cur()
        x, y = shim_np.asarray(x), shim_np.asarray(y)
        if x.ndim != 1:
            raise ValueError("the x array must have exactly one dimension.")
        if y.ndim != 1:
            raise Unsupported("interp1d of a matrix")
        n, m = x.shape_[0], y.shape_[0]
        e = int_term(n) == int_term(m)
        if not c.branch(z3.simplify(e)):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if isinstance(kind, Num) and kind.const():
            kind = int(kind.t)
        order = {"linear": 1, "slinear": 1, "quadratic": 2, "cubic": 3, "zero": 0}.get(kind, kind)
        if isinstance(order, SInt):
            pass
        elif not isinstance(order, int) or isinstance(order, bool):
            raise Unsupported("interpolation kind %r" % (kind,))
        if fill_value is not None and fill_value != "extrapolate":
            raise Unsupported("interp1d fill_value")
        self.extrap = fill_value == "extrapolate" or bounds_error is False
        if bounds_error is False and fill_value is None:
            self.fillnan = True
        else:
            self.fillnan = False
        self.order = order
        # snapshots: later changes of the arrays do not matter (copy=True)
        self.x, self.y, self.n = x.snapshot(), y.snapshot(), n
        self.x0, self.y0, self.dec = self.x, self.y, False
        ot = order if isinstance(order, int) else order
        need = (order + 1) if isinstance(order, int) else mkint(order.t + 1)
        if c.branch(int_term(n) < int_term(need)):
            raise ValueError("The number of derivatives at boundaries does not match")
        # outside the assumed contract unless the abscissae are strictly increasing
        from . import solve
        xf = self.x.f
        if isinstance(n, int):
            inc = b_and(*[raw_bool(tonum(xf(i)) < tonum(xf(i + 1))) for i in range(n - 1)])
        else:
            inc = forall_bool(mkint(int_term(n) - 1), lambda i: raw_bool(tonum(xf(i)) < tonum(xf(pyi(z3.simplify(iterm(i) + 1))))))
        if c.branch(zb(inc)):
            self.sorted = True
        else:
            # strictly decreasing points are taken in reversed order (assume_sorted=False)
            if isinstance(n, int):
                dec = b_and(*[raw_bool(tonum(xf(i)) > tonum(xf(i + 1))) for i in range(n - 1)])
            else:
                dec = forall_bool(mkint(int_term(n) - 1), lambda i: raw_bool(tonum(xf(i)) > tonum(xf(pyi(z3.simplify(iterm(i) + 1))))))
            if not assume_sorted and c.branch(zb(dec)):
                self.sorted = True
                rev = lambda g: (lambda i: g(pyi(z3.simplify(int_term(n) - 1 - iterm(i)))))
                self.x, self.y = SArr((n,), x.dt, rev(self.x.f)), SArr((n,), y.dt, rev(self.y.f))
                self.dec = True
            else:
                c.imprecise = True
                self.sorted = False
        self.mname = c.fresh("itp")

    def __call__(self, v):
        c = cur()
        scalar = not isinstance(v, (SArr, list, tuple, SList))
        a = v if not scalar else None
        if not scalar:
            a = shim_np.asarray(v)
            if not (self.extrap):
                bad = shim_np.any((a < self.x.f(0)) | (a > self.x.f(pyi(z3.simplify(int_term(self.n) - 1)))))
                if bad:
                    raise ValueError("A value in x_new is outside the interpolation range.")
            return ew1(self.at, a, "c" if self.y.dt == "c" else "f")
        t = tonum(v)
        if t is None:
            raise Unsupported("interpolating %s" % type(v).__name__)
        if not self.extrap:
            if (t < tonum(self.x.f(0))) or (t > tonum(self.x.f(pyi(z3.simplify(int_term(self.n) - 1))))):
                raise ValueError("A value in x_new is outside the interpolation range.")
        r = self.at(t)
        return SArr((), "f", lambda: r)

    def key(self):
        return (self.x, self.y, self.order)

    def at(self, t):
        """value at one point"""
        c = cur()
        t = tonum(t)
        if not t.plain():
            raise Unsupported("interpolation at inf/nan")
        o = self.order
        if isinstance(o, SInt):
            v = o.conc()
            if v is not None:
                o = v
        if self.sorted and not isc(t.t):
            t = Num(settle(c, zt(t.t)), npy=True)
            j = self.node(t)
            if j is not None:
                return _npval(self.y0.f(j))
        f = interp_fn(self, o)
        r = Num(f(zt(t.t)), npy=True)
        seen = c.__dict__.setdefault("itp_seen", set())
        k = (f.name(), zt(t.t).get_id())
        if k in seen:
            return r
        seen.add(k)
        c.__dict__.setdefault("itp_keep", []).append(zt(t.t))
        if self.sorted:
            self.lemmas(f, t, r, o)
        return r

    def node(self, t):
        """an index in play whose abscissa is t, by algebra"""
        from . import solve
        c = cur()
        n = int_term(self.n)
        try:
            N = solve.Norm(c)
            N.syntactic = True
            k = N.norm(zt(t.t))
            inside = int_args(zt(t.t))
            for j in list(c.idx):
                if z3.simplify(j).get_id() not in inside:
                    continue
                x = tonum(self.x0.f(pyi(j)))
                if x.plain() and not isc(x.t) and N.rf_eq(k, N.norm(zt(x.t))) and c.implied_lin(z3.And(j >= 0, j < n), 100):
                    return pyi(j)
        except (solve.Blow, solve.Bail, ZeroDivisionError, RecursionError):
            pass
        return None

    def lemmas(self, f, t, r, o):
        c = cur()
        xf, yf = self.x0.f, self.y0.f
        n = int_term(self.n)
        mid = (lambda p, q: z3.And(q <= tt, tt <= p)) if self.dec else (lambda p, q: z3.And(p <= tt, tt <= q))
        X = lambda i: zt(tonum(xf(i)).t)
        Y = lambda i: zt(tonum(yf(i)).t)
        tt = zt(t.t)
        if isinstance(self.n, int) and self.n <= 6:
            for i in range(self.n):
                c.lemma(z3.Implies(tt == X(i), r.t == Y(i)))
            if o == 1:
                for i in range(self.n - 1):
                    c.lemma(z3.Implies(mid(X(i), X(i + 1)),
                                       (r.t - Y(i)) * (X(i + 1) - X(i)) == (Y(i + 1) - Y(i)) * (tt - X(i))))
            return
        # exact at the points, chord between neighbours: instantiated at every index in play
        c.assume_forall(self.n, lambda i: z3.Implies(tt == X(i), r.t == Y(i)), lemma=True)
        if o == 1:
            def chord(i):
                i1 = pyi(z3.simplify(iterm(i) + 1))
                return z3.Implies(z3.And(iterm(i) + 1 < n, mid(X(i), X(i1))),
                                  (r.t - Y(i)) * (X(i1) - X(i)) == (Y(i1) - Y(i)) * (tt - X(i)))
            c.assume_forall(self.n, chord, lemma=True)


def int_args(t):
    """ids of the indices occurring in t"""
    out, st, seen = {}, [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.sort() == z3.IntSort():
            y = z3.simplify(x)
            out[y.get_id()] = y
        st.extend(x.children())
    return out


def settle(c, t):
    """t with its decided Ifs removed"""
    from . import solve
    memo = c.__dict__.setdefault("settled", {})
    got = memo.get(t.get_id())
    if got is not None:
        return got[1]
    r = t
    for _ in range(12):
        q = solve.find_ite(r)
        if q is None:
            break
        if c.implied_lin(q, 100):
            v = True
        elif c.implied_lin(z3.Not(q), 100):
            v = False
        else:
            break
        r = z3.simplify(z3.substitute(r, (q, z3.BoolVal(v))), som=False)
    memo[t.get_id()] = (t, r)
    return r


def interp_fn(itp, o):
    """the same (table, order) always gives the same function"""
    c = cur()
    got = itp.__dict__.setdefault("fns", {}).get(str(o))
    if got is not None:
        return got
    f = itp.fns[str(o)] = _interp_fn(itp, o)
    return f


def _interp_fn(itp, o):
    c = cur()
    lst = c.__dict__.setdefault("itps", [])
    for (x, y, n, oo, f) in lst:
        if oo == o if not isinstance(oo, SInt) and not isinstance(o, SInt) else (isinstance(oo, SInt) and isinstance(o, SInt) and oo.t.eq(o.t)):
            if same_arr(x, itp.x, n, itp.n) and same_arr(y, itp.y, n, itp.n):
                return f
    f = z3.Function(c.fresh("interp"), z3.RealSort(), z3.RealSort())
    lst.append((itp.x, itp.y, itp.n, o, f))
    return f


def same_arr(a, b, n, m):
    if isinstance(n, int) != isinstance(m, int):
        return False
    if isinstance(n, int):
        if n != m:
            return False
        if n <= 6:
            for i in range(n):
                if not same_num(a.f(i), b.f(i)):
                    return False
            return True
    elif not int_term(n).eq(int_term(m)):
        return False
    I = z3.Int("I!9")
    return same_num(a.f(I), b.f(I))


def same_num(p, q):
    p, q = tonum(p), tonum(q)
    if p is None or q is None or not (p.plain() and q.plain()):
        return False
    if isc(p.t) or isc(q.t):
        return isc(p.t) and isc(q.t) and p.t == q.t
    if p.t.eq(q.t):
        return True
    from . import solve
    s = z3.simplify(p.t - q.t, som=True)
    if z3.is_rational_value(s) and s.as_fraction() == 0:
        return True
    return cur().implied_lin(p.t == q.t, 100)


class Spline:
    def __init__(self, x, y, k, name):
        self.x, self.y, self.k, self.name = x, y, k, name


def splrep(x, y, w=None, xb=None, xe=None, k=3, **kw):
    """a spline of order k through (x, y): an arbitrary function, defined everywhere"""
    c = cur()
    if kw or w is not None:
        raise Unsupported("splrep options")
    x, y = shim_np.asarray(x), shim_np.asarray(y)
    if x.ndim != 1 or y.ndim != 1:
        raise Unsupported("splrep shapes")
    if y.dt == "c":
        raise Unsupported("complex spline")
    kk = k
    if isinstance(kk, int) and not 1 <= kk <= 5:
        raise TypeError("1<=k= %d <=5 must hold" % kk)
    if isinstance(kk, SInt) and c.branch(z3.Or(kk.t < 1, kk.t > 5)):
        raise TypeError("1<=k<=5 must hold")
    if c.branch(int_term(x.shape_[0]) != int_term(y.shape_[0])):
        raise TypeError("Lengths of the first three arguments must be equal")
    return Spline(x.snapshot(), y.snapshot(), k, c.fresh("spl"))


def splev(x, tck, der=0, ext=0):
    if not isinstance(tck, Spline) or der or ext:
        raise Unsupported("splev")
    f = z3.Function(tck.name, z3.RealSort(), z3.RealSort())

    def at(v):
        v = tonum(v)
        if not v.plain():
            raise Unsupported("spline at inf")
        return Num(f(zt(v.t)), npy=True)
    if isinstance(x, SArr):
        return ew1(at, x, "f")
    r = at(x)
    return SArr((), "f", lambda: r)


# ---------------------------------------------------------------- os, files

class FileNotFound(FileNotFoundError):
    pass


class VFile:
    def __init__(self, vfs, path, mode):
        self.vfs, self.path, self.mode = vfs, path, mode
        self.closed = False
        self.pos = 0
        if "w" in mode or "x" in mode:
            vfs.files[path] = ""
            vfs.written.append(path)
        elif "a" in mode:
            vfs.files.setdefault(path, "")
            vfs.written.append(path)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        self.closed = True

    def _r(self):
        if "r" not in self.mode and "+" not in self.mode:
            import io
            raise io.UnsupportedOperation("not readable")
        return self.vfs.files[self.path]

    def read(self, *a):
        s = self._r()[self.pos:]
        self.pos = len(self._r())
        return s

    def readlines(self):
        return self.read().splitlines(True)

    def readline(self):
        s = self._r()
        j = s.find("\n", self.pos)
        j = len(s) if j < 0 else j + 1
        r = s[self.pos:j]
        self.pos = j
        return r

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def seek(self, p, *a):
        self.pos = p

    def write(self, s):
        if "r" in self.mode and "+" not in self.mode:
            import io
            raise io.UnsupportedOperation("not writable")
        if isinstance(s, SStr):
            s = text.string_token(s)
        if not isinstance(s, str):
            raise TypeError("write() argument must be str")
        self.vfs.files[self.path] += s
        return len(s)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        pass


class VFS:
    def __init__(self):
        self.files = {}
        self.dirs = {"/", "/tmp", "/home", "/home/u", "/home/u/.config", "/base"}
        self.written = []
        self.made = []
        self.ntmp = 0
        self.denied = set()

    def norm(self, p):
        if isinstance(p, SStr):
            raise Unsupported("symbolic path")
        if not isinstance(p, str):
            raise TypeError("expected str, bytes or os.PathLike object, not %s" % type(p).__name__)
        if "\0" in p:
            raise ValueError("embedded null byte")
        return posixpath.normpath(posixpath.join("/cwd", p))

    def open(self, path, mode="r"):
        p = self.norm(path)
        if max(len(x.encode()) for x in p.split("/")) > 255:
            raise OSError(36, "File name too long", path)
        if path.endswith("/") or p in self.dirs:
            raise IsADirectoryError(21, "Is a directory", path)
        if posixpath.dirname(p) not in self.dirs:
            raise FileNotFoundError(2, "No such file or directory", path)
        if p in self.denied:
            raise PermissionError(13, "Permission denied", path)
        if "r" in mode and p not in self.files:
            raise FileNotFoundError(2, "No such file or directory", path)
        return VFile(self, p, mode)

    def isfile(self, p):
        return self.norm(p) in self.files

    def isdir(self, p):
        return self.norm(p) in self.dirs

    def exists(self, p):
        return self.isfile(p) or self.isdir(p)

    def mkdir(self, p, *a, **k):
        q = self.norm(p)
        if q in self.dirs or q in self.files:
            raise FileExistsError(17, "File exists", p)
        if posixpath.dirname(q) not in self.dirs:
            raise FileNotFoundError(2, "No such file or directory", p)
        self.dirs.add(q)
        self.made.append(q)

    def makedirs(self, p, mode=0o777, exist_ok=False):
        q = self.norm(p)
        if q in self.dirs:
            if exist_ok:
                return
            raise FileExistsError(17, "File exists", p)
        parts = q.split("/")
        for i in range(2, len(parts) + 1):
            d = "/".join(parts[:i])
            if d not in self.dirs:
                self.dirs.add(d)
                self.made.append(d)

    def listdir(self, p="."):
        q = self.norm(p)
        if q not in self.dirs:
            raise FileNotFoundError(2, "No such file or directory", p)
        out = []
        for x in sorted(self.files) + sorted(self.dirs):
            if posixpath.dirname(x) == q and x != q:
                out.append(posixpath.basename(x))
        return out


def os_mod(ctx, vfs):
    path = ModProxy("os.path", dict(
        join=posixpath.join, split=posixpath.split, splitext=posixpath.splitext, basename=posixpath.basename,
        dirname=posixpath.dirname, normpath=posixpath.normpath, isabs=posixpath.isabs, abspath=vfs.norm,
        realpath=lambda p: vfs.norm(p), isfile=vfs.isfile, isdir=vfs.isdir, exists=vfs.exists, sep="/", altsep=None,
        expanduser=lambda p: p.replace("~", "/home/u"), commonpath=posixpath.commonpath, relpath=posixpath.relpath))
    return ModProxy("os", dict(path=path, name="posix", sep="/", altsep=None, pardir="..", curdir=".",
                               environ=dict(ctx.hooks.get("environ", {"HOME": "/home/u"})),
                               mkdir=vfs.mkdir, makedirs=vfs.makedirs, listdir=vfs.listdir, getcwd=lambda: "/cwd",
                               getenv=lambda k, d=None: dict(ctx.hooks.get("environ", {"HOME": "/home/u"})).get(k, d),
                               linesep="\n", fspath=lambda p: p)), path


class TemporaryDirectory:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        v = cur().vfs
        v.ntmp += 1
        self.name = "/tmp/pv_tmp%d" % v.ntmp
        v.mkdir(self.name)
        return self.name

    def __exit__(self, *a):
        self.cleanup()
        return False

    def cleanup(self):
        v = cur().vfs
        for f in list(v.files):
            if f.startswith(self.name + "/"):
                del v.files[f]
        for d in list(v.dirs):
            if d == self.name or d.startswith(self.name + "/"):
                v.dirs.discard(d)


def codecs_mod():
    import codecs
    return ModProxy("codecs", dict(open=lambda p, mode="r", encoding=None, *a, **k: shims.popen(p, mode),
                                   encode=codecs.encode, decode=codecs.decode))


def np_extra(ctx):
    def array2string(a, max_line_width=None, precision=None, suppress_small=None, separator=" ", prefix="",
                     threshold=None, floatmode=None, formatter=None, **k):
        if not isinstance(a, SArr):
            if isinstance(a, (list, tuple, SList)):
                raise AttributeError("'list' object has no attribute 'size'")
            raise Unsupported("array2string")
        if formatter is not None:
            raise Unsupported("array2string formatter")
        if isinstance(threshold, Num) and threshold.pi is True:
            threshold = float("inf")
        thr = 1000 if threshold is None else threshold
        if isinstance(thr, Num):
            thr = float(thr)
        if not a.concrete(limit=100000):
            raise Unsupported("array2string of symbolic length")
        size = 1
        for d in a.shape_:
            size *= d
        prec = 8 if precision is None else int(precision)
        spec = "" if floatmode == "unique" else "np%d" % prec
        if floatmode == "unique" and precision is not None:
            spec = "np%d" % prec
        width = 75 if max_line_width is None else (float(max_line_width) if isinstance(max_line_width, Num) else max_line_width)
        if a.ndim > 2:
            raise Unsupported("array2string of this rank")
        if size > thr:
            return "[..." + separator + "...]"

        def num(v):
            if isinstance(v, SComplex):
                raise Unsupported("array2string of complex values")
            if isinstance(v, (SBool, bool)):
                raise Unsupported("array2string of booleans")
            n = tonum(v)
            if isc(n.t) and n.cflags():
                if n.pi:
                    return "inf"
                if n.ni:
                    return "-inf"
                if n.na:
                    return "nan"
            return text.token(n, "" if n.isint else spec)

        def row(fn, m, indent):
            words = [num(fn(j)) for j in range(m)]
            # a printed number takes up to 24 characters
            per = max(1, int((width - len(indent)) // 25)) if width != float("inf") else m
            lines = [separator.join(words[i:i + per]) for i in range(0, m, max(per, 1))] or [""]
            return ("\n" + indent).join(lines)
        f = a.f
        if a.ndim == 0:
            return num(f())
        if a.ndim == 1:
            return "[" + row(f, a.shape_[0], " ") + "]"
        rows = ["[" + row(lambda j, i=i: f(i, j), a.shape_[1], "  ") + "]" for i in range(a.shape_[0])]
        return "[" + (separator.rstrip() + "\n ").join(rows) + "]"

    def savetxt(fname, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", encoding=None):
        X = shim_np.asarray(X)
        if not X.concrete(limit=100000):
            raise Unsupported("savetxt of symbolic length")
        if X.ndim == 1:
            f0 = X.f
            rows = [[f0(i)] for i in range(X.shape_[0])]
        elif X.ndim == 2:
            rows = [[X.f(i, j) for j in range(X.shape_[1])] for i in range(X.shape_[0])]
        else:
            raise ValueError("Expected 1D or 2D array")
        if not isinstance(fmt, str):
            raise Unsupported("savetxt fmt")
        v = cur().vfs
        fh = fname if isinstance(fname, VFile) else v.open(fname, "w")
        if header:
            fh.write(comments + header.replace("\n", "\n" + comments) + newline)
        for r in rows:
            fh.write(delimiter.join(text.percent(fmt, (x if not isinstance(x, SComplex) else x.re,)) for x in r) + newline)
        if footer:
            fh.write(comments + footer.replace("\n", "\n" + comments) + newline)

    def loadtxt(fname, dtype=float, comments="#", delimiter=None, converters=None, skiprows=0, usecols=None, unpack=False,
                ndmin=0, encoding=None, max_rows=None, **k):
        if converters is not None or max_rows is not None or k:
            raise Unsupported("loadtxt options")
        if isinstance(fname, VFile):
            s = fname.read()
        else:
            s = cur().vfs.open(fname, "r").read()
        rows = []
        cm = [comments] if isinstance(comments, str) else list(comments or [])
        for i, line in enumerate(s.split("\n")):
            if i < skiprows:
                continue
            for q in cm:
                if q in line:
                    line = line[:line.index(q)]
            line = line.strip(" \t\r\n") if delimiter is None else line.strip("\r\n")
            if not line.strip():
                continue
            words = line.split(delimiter)
            if usecols is not None:
                words = [words[j] for j in usecols]
            rows.append([text.parse_float(w) for w in words])
        m = {len(r) for r in rows}
        if len(m) > 1:
            raise ValueError("the number of columns changed")
        if not rows:
            arr = shim_np.zeros((0,)) if ndmin < 2 else shim_np.zeros((0, 1))
            return arr
        arr = shim_np.array(rows)
        if unpack:
            arr = arr.T
        if ndmin == 2:
            return arr
        return arr.squeeze()
    return dict(array2string=array2string, savetxt=savetxt, loadtxt=loadtxt)


# ---------------------------------------------------------------- yaml

class YamlShim:
    """PyYAML: load(dump(x)) = x for trees of dicts, lists, strings, numbers, booleans (assumed)"""

    def __init__(self):
        self.FullLoader = self.SafeLoader = self.Loader = object
        self.Dumper = self.SafeDumper = object
        import yaml
        self.YAMLError = yaml.YAMLError
        self._n = 0

    def _get(self, f):
        if isinstance(f, VFile):
            return f.read()
        return f

    def load(self, f, Loader=None):
        s = self._get(f)
        if isinstance(s, SStr):
            raise Unsupported("yaml of a symbolic string")
        c = cur()
        docs = c.__dict__.get("yamldocs", {})
        body = "\n".join(l for l in s.split("\n") if not l.startswith("#")).strip()
        if body in docs:
            return clone(docs[body])
        if text.has_tok(s):
            raise Unsupported("yaml text with symbolic numbers")
        import yaml
        return tosym(yaml.load(s, Loader=yaml.FullLoader))

    safe_load = load

    def dump(self, d, stream=None, **k):
        c = cur()
        check_plain(d)
        docs = c.__dict__.setdefault("yamldocs", {})
        key = "YAMLDOC%d" % (len(docs) + 1)
        docs[key] = clone(d)
        if stream is None:
            return key + "\n"
        stream.write(key + "\n")

    safe_dump = dump


def check_plain(d):
    if isinstance(d, dict):
        for k, v in d.items():
            check_plain(k)
            check_plain(v)
    elif isinstance(d, (list, tuple)):
        for v in d:
            check_plain(v)
    elif isinstance(d, Num) and d.npy:
        raise YamlBad()
    elif isinstance(d, SArr):
        raise YamlBad()
    elif isinstance(d, (str, SStr, int, float, bool, type(None), Num, SInt, SBool)):
        return
    else:
        raise Unsupported("yaml dump of %s" % type(d).__name__)


class YamlBad(Exception):
    """numpy objects are written with python tags that the loader refuses"""


def clone(d):
    if isinstance(d, dict):
        return {clone(k): clone(v) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return [clone(v) for v in d]
    return d


def tosym(d):
    if isinstance(d, dict):
        return {k: tosym(v) for k, v in d.items()}
    if isinstance(d, list):
        return [tosym(v) for v in d]
    if isinstance(d, float):
        return tonum(d)
    return d


def build(ctx):
    if ctx.vfs is None:
        ctx.vfs = VFS()
    np_ = shim_np.make(ctx, np_extra(ctx))
    om, path = os_mod(ctx, ctx.vfs)
    cst = constants(ctx)
    itp = ModProxy("scipy.interpolate", dict(interp1d=interp1d, splrep=splrep, splev=splev))
    sp = ModProxy("scipy", dict(constants=cst, interpolate=itp))
    import yaml as _y
    from . import shim_pd
    pd = shim_pd.make(ctx)
    warn = ModProxy("warnings", dict(warn=lambda *a, **k: ctx.log.append(("warn", a)), catch_warnings=_nullctx,
                                     simplefilter=lambda *a, **k: None, filterwarnings=lambda *a, **k: None))
    git = ctx.hooks.get("git")
    ext = {"numpy": np_, "scipy": sp, "scipy.constants": cst, "scipy.interpolate": itp, "os": om, "os.path": path,
           "tempfile": ModProxy("tempfile", dict(TemporaryDirectory=TemporaryDirectory)), "codecs": codecs_mod(),
           "yaml": YamlShim(), "ruamel": None, "ruamel.yaml": None, "ruamel.yaml.comments": None, "git": git,
           "matplotlib": None, "matplotlib.pyplot": None, "qgrid": None, "pandas": pd, "warnings": warn}
    ext.update(ctx.hooks.get("ext", {}))
    return ext


class _nullctx:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return []

    def __exit__(self, *a):
        return False
