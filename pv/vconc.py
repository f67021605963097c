"""The contract interface over the real package: random, mined or given (replayed) inputs."""
import ast
import math
import os
import random
import sys
import traceback
from .api import Out, Reject, Fail

REPO = os.environ.get("PV_REPO", "/repo")


def mine(repo=REPO):
    """numbers and strings occurring in the source: candidates for special cases"""
    nums, strs = set(), set()
    for dp, dn, fs in os.walk(os.path.join(repo, "src", "dispersion")):
        for f in fs:
            if f.endswith(".py"):
                try:
                    tree = ast.parse(open(os.path.join(dp, f), encoding="utf-8").read())
                except SyntaxError:
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant):
                        if isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                            nums.add(n.value)
                        elif isinstance(n.value, str) and 0 < len(n.value) < 25 and "\n" not in n.value:
                            strs.add(n.value)
    return sorted(nums), sorted(strs)


_MINED = None


class VConc:
    sym = False
    bnd = False

    def __init__(self, rng, given=None, opts=None):
        global _MINED
        if _MINED is None:
            _MINED = mine()
        self.rng = rng
        self.given = given
        self.opts = opts or {}
        self.log = {}
        self.pool = []
        self.checked = 0
        self.used = 0
        import numpy
        self.numpy = numpy
        self.pi = math.pi
        self.tmp = None
        self.cleanup = []

    def close(self):
        for f in reversed(self.cleanup):
            try:
                f()
            except Exception:
                pass
        self.cleanup = []

    def mod(self, name=None):
        import importlib
        return importlib.import_module("dispersion" + ("." + name if name else ""))

    def grain(self):
        pass

    def q(self, s):
        return float(s)

    # ---- inputs
    def _given(self, name):
        if self.given is not None and self.given.get(name) is not None:
            self.used += 1
            return True, self.given[name]
        return False, None

    def _log(self, name, val):
        self.log[name] = val
        return val

    def choice(self, name, options):
        options = list(options)
        ok, k = self._given(name)
        if not ok or not isinstance(k, int) or not 0 <= k < len(options):
            k = self.rng.randrange(len(options))
        self._log(name, k)
        return options[k]

    def some(self, name, options):
        """a subset, in order"""
        ok, k = self._given(name)
        if not ok or not isinstance(k, list):
            k = [i for i in range(len(options)) if self.rng.random() < 0.5]
        self._log(name, k)
        return [options[i] for i in k if i < len(options)]

    def shuffled(self, name, xs):
        ok, k = self._given(name)
        if not ok or sorted(k) != list(range(len(xs))):
            k = list(range(len(xs)))
            self.rng.shuffle(k)
        self._log(name, k)
        return [xs[i] for i in k]

    def bool(self, name):
        return self.choice(name, [False, True])

    def flag(self, name):
        ok, v = self._given(name)
        if not ok:
            v = self.rng.random() < 0.5
        return bool(self._log(name, bool(v)))

    def _draw(self, lo, hi, open_lo, gen):
        r = self.rng
        if gen is None:
            gen = (lo if lo is not None else -20.0, hi if hi is not None else (20.0 if lo is None else float(lo) + 20.0))
        a, b = float(gen[0]), float(gen[1])
        k = r.random()
        if k < 0.08 and self.pool:
            x = r.choice(self.pool)
            if not a <= x <= b:
                x = None
        elif k < 0.16:
            c = [float(m) for m in _MINED[0] if a <= m <= b]
            c += [float(round(m * s, 9)) for m in c[:] for s in (0.999999, 1.000001)] if k < 0.10 else []
            c = [m for m in c if a <= m <= b]
            x = r.choice(c) if c else None
        elif k < 0.24:
            x = r.choice([a, b, float(round(r.uniform(a, b)))])
            if not a <= x <= b:
                x = None
        else:
            x = None
        if x is None:
            if a > 0 and b / a > 20:
                x = math.exp(r.uniform(math.log(a), math.log(b)))
            else:
                x = r.uniform(a, b)
            if r.random() < 0.3:
                x = float("%.3g" % x)
                if not a <= x <= b:
                    x = r.uniform(a, b)
        if lo is not None and (x < lo or (open_lo and x == lo)):
            x = r.uniform(float(lo), float(lo) + 1) or 0.5
        if hi is not None and x > hi:
            x = float(hi)
        self.pool.append(x)
        return x

    def _ok(self, x, lo, hi, open_lo):
        if not isinstance(x, (int, float)):
            raise Reject("given")
        if lo is not None and (x < lo or (open_lo and x == lo)):
            raise Reject("range")
        if hi is not None and x > hi:
            raise Reject("range")

    def _sane(self, x, gen):
        """replayed solver values outside the sensible magnitude are rejected (floating point noise)"""
        if gen is None or x == 0 or math.isinf(x):
            return
        m = max(abs(float(gen[0])), abs(float(gen[1])))
        s = min(abs(float(gen[0])), abs(float(gen[1])))
        if abs(x) > 1e3 * m or (s > 0 and abs(x) < 1e-3 * s):
            raise Reject("magnitude")

    def real(self, name, lo=None, hi=None, open_lo=False, gen=None, npy=False):
        ok, x = self._given(name)
        if ok:
            self._ok(x, lo, hi, open_lo)
            self._sane(x, gen)
            x = float(x)
        else:
            x = self._draw(lo, hi, open_lo, gen)
        self._log(name, x)
        return self.numpy.float64(x) if npy else float(x)

    def pos(self, name, gen=(0.05, 50.0)):
        return self.real(name, 0, None, True, gen)

    def ext(self, name, gen=(0.05, 50.0)):
        ok, x = self._given(name)
        if not ok:
            x = self.rng.choice([0.0, math.inf]) if self.rng.random() < 0.2 else self._draw(0, None, False, gen)
        else:
            self._sane(x, gen)
        return float(self._log(name, float(x)))

    def int(self, name, lo=None, hi=None):
        ok, x = self._given(name)
        if ok:
            self._ok(x, lo, hi, False)
            x = int(x)
        else:
            a = lo if lo is not None else -10
            b = hi if hi is not None else a + 30
            c = [int(m) for m in _MINED[0] if a <= m <= b and m == int(m)]
            x = self.rng.choice(c) if c and self.rng.random() < 0.3 else self.rng.randint(a, b)
        return int(self._log(name, x))

    def length(self, name, lo=0, sizes=None, cap=6):
        ok, x = self._given(name)
        if ok:
            if not isinstance(x, int) or x < lo or x > 4000:
                raise Reject("length")
        else:
            r = self.rng.random()
            if r < 0.06 and cap >= 6:
                c = [int(m) for m in _MINED[0] if max(lo, 1) <= m <= 130 and m == int(m)] + [17, 33, 64]
                x = max(lo, self.rng.choice(c) + self.rng.choice([-1, 0, 1]))
            else:
                x = self.rng.randint(lo, max(lo, cap))
        return int(self._log(name, x))

    def _n(self, n):
        return int(n)

    def array(self, name, n, lo=None, hi=None, open_lo=False, increasing=False, decreasing=False, kind="f", gen=None,
              ext=False):
        ok, xs = self._given(name)
        if ok:
            if len(xs) < n:
                raise Reject("length")
            xs = [float(x) for x in xs[:n]]
            for x in xs:
                self._ok(x, lo, hi, open_lo)
                self._sane(x, gen)
            if kind == "i":
                xs = [int(x) for x in xs]
        else:
            if kind == "i":
                a, b = (gen or (0, 50))
                xs = [self.rng.randint(int(math.ceil(a)), int(b)) for _ in range(n)]
            else:
                xs = [self._draw(lo, hi, open_lo, gen) for _ in range(n)]
                if ext:
                    xs = [math.inf if self.rng.random() < 0.12 else (0.0 if lo is None or lo == 0 and self.rng.random() < 0.1 else x)
                          for x in xs]
            if increasing or decreasing:
                xs = self._spread(xs, n, lo, hi, open_lo, gen)
                if decreasing:
                    xs = xs[::-1]
        if increasing and any(x >= y for x, y in zip(xs, xs[1:])):
            raise Reject("order")
        if decreasing and any(x <= y for x, y in zip(xs, xs[1:])):
            raise Reject("order")
        self._log(name, list(xs))
        return self.numpy.array(xs, dtype=int if kind == "i" else float)

    def _spread(self, xs, n, lo, hi, open_lo, gen):
        for _ in range(20):
            s = sorted(xs)
            out = []
            for x in s:
                if not out or x > out[-1] * (1 + 1e-6) + 1e-12:
                    out.append(x)
            if len(out) == n:
                return out
            xs = out + [self._draw(lo, hi, open_lo, gen) for _ in range(n - len(out))]
        raise Reject("spread")

    def list(self, name, n, lo=None, hi=None, open_lo=False, gen=None):
        return [float(x) for x in self.array(name, n, lo, hi, open_lo, gen=gen)]

    def interp(self, x, y, order, t):
        from scipy.interpolate import interp1d
        return interp1d(x, y, kind=order)(t)

    def table(self, name, n, ncols, lo=None, increasing=True, gen=None, colgen=None, decreasing=False):
        ok, rows = self._given(name)
        if ok:
            if len(rows) < n:
                raise Reject("rows")
            rows = [[float(x) for x in r] for r in rows[:n]]
            for r in rows:
                self._ok(r[0], lo, None, True)
                self._sane(r[0], gen)
                for x in r[1:]:
                    self._sane(x, colgen or (-20., 20.))
        else:
            xs = [self._draw(lo, None, True, gen) for _ in range(n)]
            if increasing:
                xs = self._spread(xs, n, lo, None, True, gen)
            if decreasing:
                xs = xs[::-1]
            rows = [[x] + [self._draw(None, None, False, colgen or (-20., 20.)) for _ in range(ncols - 1)] for x in xs]
        if decreasing and any(x[0] <= y[0] for x, y in zip(rows, rows[1:])):
            raise Reject("order")
        if increasing and not decreasing and any(x[0] >= y[0] for x, y in zip(rows, rows[1:])):
            raise Reject("order")
        self._log(name, rows)
        return self.numpy.array(rows, dtype=float).reshape(n, ncols)

    def phrase(self, name, base, lines=False):
        """one of base, or words put together (lines: of several lines)"""
        ok, s = self._given(name)
        if not ok or not isinstance(s, str):
            r = self.rng
            if r.random() < 0.4:
                s = r.choice(base)
            else:
                one = lambda: r.choice(["", " ", ", ", ": ", "-"]).join(
                    r.choice([r.choice(_MINED[1]), r.choice(["a", "of", "1.5", "Ü", "#", ";", "'q'", '"q"', "%s", "{0}", "[1]", "\\n", "3 4", "x" * 60, "NA", "y: z"])])
                    for _ in range(r.choice([1, 1, 2, 3, 4, 9]))).strip()
                s = "\n".join(one() for _ in range(r.choice([1, 2, 3, 5]))).strip() if lines else one()
                if lines and r.random() < 0.3:
                    s = s.replace("\n", r.choice(["\n\n", "\n  ", "\n \n"]))
                s = "".join(c for c in s if c.isprintable() or c == "\n")
        self._log(name, s)
        return s

    def string(self, name, gen=None):
        ok, s = self._given(name)
        if not ok:
            r = self.rng
            c = list(gen or []) if gen and r.random() < 0.5 else _MINED[1]
            s = r.choice(c)
            k = r.random()
            if k < 0.2:
                s = s + r.choice(["x", "s", " ", "1"])
            elif k < 0.3:
                s = s[:-1]
            elif k < 0.5:
                s = "".join(ch.upper() if r.random() < 0.5 else ch for ch in s)
            elif k < 0.55:
                s = ""
        return str(self._log(name, s))

    # ---- logic
    def assume(self, c):
        if not c:
            raise Reject("assume")

    def assume_all(self, n, fn):
        for i in range(int(n)):
            self.assume(fn(i))

    def cases(self, c):
        return bool(c)

    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b)

    def If(self, c, a, b):
        return a if c else b

    def well(self, c):
        return bool(c() if callable(c) else c)

    def apart(self, x, y, rel=1e-5):
        x, y = float(x), float(y)
        return abs(x - y) > rel * max(abs(x), abs(y)) or (math.isinf(x) or math.isinf(y)) and x != y

    def name(self, x):
        return x

    def each(self, n, name="i"):
        n = int(n)
        if n <= 60:
            return range(n)
        return sorted(set([0, 1, n - 2, n - 1] + [self.rng.randrange(n) for _ in range(40)]))

    def sum(self, n, fn):
        r = 0.0
        for j in range(int(n)):
            r = r + fn(j)
        return r

    def ensure(self, c, label):
        self.checked += 1
        if not c:
            raise Fail(label)

    def fail(self, label):
        raise Fail(label)

    def ensure_eq(self, a, b, label, rtol=1e-7, atol=0.0):
        self.checked += 1
        if not close(a, b, rtol, atol):
            raise Fail(label, "got %r, expected %r" % (short(a), short(b)))

    def ensure_close(self, a, b, tol, label, rtol=1e-9):
        self.checked += 1
        a, b = float(a), float(b)
        if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
            if not (a == b or (math.isnan(a) and math.isnan(b))):
                raise Fail(label, "got %r, expected %r" % (a, b))
            return
        if not abs(a - b) <= tol * 1.000001 + rtol * abs(b):
            raise Fail(label, "got %r, expected %r within %r" % (a, b, tol))

    # ---- calls
    def call(self, fn, *a, **k):
        try:
            with self.numpy.errstate(all="ignore"):
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    r = fn(*a, **k)
        except (Reject, Fail):
            raise
        except Exception as e:
            return Out(False, None, e, traceback.format_exc(limit=-6))
        return Out(True, r)

    def call_warn(self, fn, *a, **k):
        """the call, and how many warnings (not of numpy) it gave"""
        import warnings
        seen = []

        def go():
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    return fn(*a, **k)
                finally:
                    seen.extend(x for x in w if not issubclass(x.category, (RuntimeWarning, DeprecationWarning, FutureWarning, ResourceWarning)))
        out = self.call(go)
        return out, len(seen)

    def ok(self, out, label):
        self.checked += 1
        if not out.ok:
            raise Fail(label, out.show())
        return out.value

    def raises(self, out, types, label):
        self.checked += 1
        types = types if isinstance(types, tuple) else (types,)
        if not out.raised(*types):
            raise Fail(label, out.show() + (" %r" % (short(out.value),) if out.ok else ""))

    # ---- values
    def num(self, x):
        return x

    def elem(self, a, i):
        if isinstance(a, self.numpy.ndarray) and a.ndim == 0:
            return a[()]
        return a[i]

    def cell(self, t, i, j):
        return t[i][j]

    def len(self, a):
        return len(a)

    def is_array(self, a):
        return isinstance(a, self.numpy.ndarray) and a.ndim > 0

    def is_scalar(self, a):
        return isinstance(a, (int, float, complex, self.numpy.generic)) or (isinstance(a, self.numpy.ndarray) and a.ndim == 0)

    def snap(self, a):
        import copy
        return copy.deepcopy(a)

    def same(self, a, b, label):
        self.checked += 1
        r = differ(a, b, label)
        if r:
            raise Fail(*r)

    def lst(self, xs):
        return list(xs)

    def arr(self, xs, kind="f"):
        return self.numpy.array(list(xs), dtype={"f": float, "i": int, "c": complex}[kind])

    def mkarr(self, n, fn, kind="f"):
        return self.numpy.array([fn(i) for i in range(int(n))], dtype={"f": float, "i": int, "c": complex}[kind])

    def mklist(self, n, fn):
        return [fn(i) for i in range(int(n))]

    def astuple(self, x):
        return tuple(x)

    def state(self, o):
        return state(o)

    # ---- frames (pandas)
    def frame(self, name, kinds, cols):
        import pandas as pd
        n = self.choice(name + "_n", [1, 2, 3, 5, 9])
        n = n + 0
        ks, al, labs = self._given(name)[1] if self._given(name)[0] else (None, None, None)
        if ks is None or len(ks) != n:
            r = self.rng
            ks = [r.randrange(len(kinds)) for _ in range(n)]
            pool = ["a", "b", "Ag", "ag", "Ag ", "x y", "0", "1", "nan", "Alias", "c", "d"]
            r.shuffle(pool)
            al = [pool[i] if r.random() < 0.7 else "" for i in range(n)]
            labs = r.choice([list(range(n)), r.sample(range(n), n), r.sample(range(3 * n), n), list(range(n, 2 * n)), list(range(n))[::-1]])
        self._log(name, [ks, al, labs])
        df = pd.DataFrame([dict({q: kinds[k][q] for q in cols}, Alias=a) for k, a in zip(ks, al)], columns=list(cols), index=labs)
        self._kinds = ks
        return df

    def subframe(self, df, ps):
        return df.iloc[list(ps)]

    def nrows(self, df):
        return len(df)

    def cellof(self, df, i, col):
        return df.iloc[i][col]

    def labelof(self, df, i):
        return int(df.index[i])

    def kindof(self, df, i, n):
        return self._kinds[i]

    def copyframe(self, df):
        return df.copy(deep=True)

    def position(self, name, n):
        ok, k = self._given(name)
        if not ok or not isinstance(k, int) or not 0 <= k < n:
            k = self.rng.randrange(n)
        return self._log(name, k)

    def put_csv(self, path, rows, cols):
        import pandas as pd
        pd.DataFrame(rows, columns=list(cols)).to_csv(path, index=False)

    def isnan(self, x):
        return isinstance(x, float) and x != x

    # ---- text and files
    def text(self, x):
        return repr(float(x))

    def folder(self):
        import shutil
        import tempfile
        d = os.path.realpath(tempfile.mkdtemp(prefix="pv", dir=os.environ["HOME"]))
        self.cleanup.append(lambda: shutil.rmtree(d, ignore_errors=True))
        return d

    def answers(self, name, pool=None, last=None):
        r = self.rng
        ok, xs = self._given(name)
        if not ok or not isinstance(xs, list):
            xs = [r.choice(pool) for _ in range(r.choice([0, 1, 2, 5, 12]))] + [r.choice(last)]
        self._log(name, xs)
        n = self.script(xs)
        return n, (lambda i: xs[i])

    def script(self, xs):
        import builtins
        n = [0]

        def ask(prompt=""):
            if n[0] >= len(xs):
                raise EOFError("no more answers")
            n[0] += 1
            return xs[n[0] - 1]
        old = builtins.input
        self.cleanup.append(lambda: setattr(builtins, "input", old))
        builtins.input = ask
        return lambda: n[0]

    def predicate(self, name):
        ok, m = self._given(name)
        if not ok or not isinstance(m, int):
            m = self.rng.randrange(64)
        self._log(name, m)
        import zlib
        return lambda s: bool((m >> (zlib.crc32(str(s).encode()) % 6)) & 1)

    def git(self, clone):
        import sys
        import types
        old = sys.modules.get("git")
        m = types.ModuleType("git")
        m.Repo = type("Repo", (), {"clone_from": staticmethod(clone)})
        sys.modules["git"] = m
        self.cleanup.append(lambda: sys.modules.__setitem__("git", old) if old is not None else sys.modules.pop("git", None))

    def _env(self, key, value):
        old = os.environ.get(key)
        self.cleanup.append(lambda: os.environ.__setitem__(key, old) if old is not None else os.environ.pop(key, None))
        os.environ[key] = value

    def home(self, name, config=True):
        d = self.folder() + "/" + name
        os.makedirs(d + ("/.config" if config else ""))
        self._env("HOME", d)
        return d

    def package(self):
        """a copy of the package in a scratch folder"""
        import importlib
        import shutil
        import sys
        src = os.path.dirname(os.path.realpath(self.mod("config").__file__))
        lib = self.folder()
        shutil.copytree(src, lib + "/dispersion", ignore=shutil.ignore_patterns("__pycache__"))
        old = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "dispersion" or k.startswith("dispersion.")}

        def restore():
            for k in list(sys.modules):
                if k == "dispersion" or k.startswith("dispersion."):
                    del sys.modules[k]
            sys.modules.update(old)
            if lib in sys.path:
                sys.path.remove(lib)
        self.cleanup.append(restore)
        sys.path.insert(0, lib)
        importlib.invalidate_caches()
        m = self.mod("config")
        if os.path.realpath(m.__file__) != os.path.realpath(lib + "/dispersion/config.py"):
            raise Reject("package")
        return self.mod, lib + "/dispersion"

    def scratch_temp(self):
        import tempfile
        d = self.folder()
        os.mkdir(d + "/t")
        self._env("TMPDIR", d + "/t")
        old = tempfile.tempdir
        tempfile.tempdir = d + "/t"
        self.cleanup.append(lambda: setattr(tempfile, "tempdir", old))
        return d, lambda: {p: x for p, x in self.tree(d).items() if not p.startswith("t/tmp")}

    def put(self, path, s):
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(s)

    def put_yaml(self, path, d, comment=""):
        import yaml
        self.put(path, comment + yaml.safe_dump(d, allow_unicode=True, sort_keys=False))

    def got(self, path):
        with open(path, encoding="utf-8", newline="") as f:
            return f.read()

    def mkdir(self, path):
        os.makedirs(path, exist_ok=True)

    def tree(self, root):
        out = {}
        for dp, dn, fs in os.walk(root):
            for d in dn:
                out[os.path.relpath(os.path.join(dp, d), root)] = None
            for f in fs:
                p = os.path.join(dp, f)
                with open(p, encoding="utf-8", errors="replace", newline="") as h:
                    out[os.path.relpath(p, root)] = h.read()
        return out

    def note(self, *a):
        pass


def short(x):
    s = repr(x)
    return x if len(s) < 300 else s[:300]


def close(a, b, rtol=1e-7, atol=0.0):
    import numpy as np
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return isinstance(a, str) == isinstance(b, str) and a == b
    if isinstance(a, (list, tuple, dict)):
        return a == b
    try:
        a, b = complex(a), complex(b)
    except (TypeError, ValueError):
        return False
    for p, q in ((a.real, b.real), (a.imag, b.imag)):
        if math.isnan(p) or math.isnan(q):
            if not (math.isnan(p) and math.isnan(q)):
                return False
        elif math.isinf(p) or math.isinf(q):
            if p != q:
                return False
    if any(math.isnan(x) or math.isinf(x) for x in (a.real, a.imag, b.real, b.imag)):
        return True
    return abs(a - b) <= rtol * max(abs(a), abs(b)) + atol


def state(o, seen=None):
    import numpy as np
    seen = seen or []
    if any(o is s for s in seen):
        return "<cycle>"
    if type(o).__module__.startswith("dispersion"):
        return {"__class__": type(o).__name__, **{k: state(v, seen + [o]) for k, v in sorted(vars(o).items())
                                                   if not k.startswith("_")}}
    if isinstance(o, dict):
        return {k: state(v, seen + [o]) for k, v in o.items()}
    if isinstance(o, list):
        return [state(v, seen + [o]) for v in o]
    if isinstance(o, tuple):
        return tuple(state(v, seen + [o]) for v in o)
    if isinstance(o, np.ndarray):
        return o.copy()
    if isinstance(o, (np.generic, str, int, float, complex, bool, type(None))):
        return o
    return "<%s>" % type(o).__name__


def differ(a, b, label):
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray) or a.shape != b.shape:
            return label, "shape/kind changed"
        if not np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"):
            return label, "values changed: %r -> %r" % (short(a), short(b))
        return None
    if isinstance(a, dict):
        if not isinstance(b, dict) or (set(a) != set(b) if "__class__" not in b else not set(b) <= set(a)):
            return label, "keys changed"
        for k in b:
            r = differ(a[k], b[k], "%s.%s" % (label, k))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return label, "length changed"
        for i, (x, y) in enumerate(zip(a, b)):
            r = differ(x, y, "%s[%d]" % (label, i))
            if r:
                return r
        return None
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return None
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return label, "%r -> %r" % (short(a), short(b))
    if not a == b:
        return label, "%r -> %r" % (short(a), short(b))
    return None
