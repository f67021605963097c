"""The contract interface over the symbolic engine."""
import time
import traceback
from fractions import Fraction
import z3
from . import core, shim_np, loader, values
from .api import Out
from .core import cur, Unsupported, PathEnd, Sig, zb, b_and, b_or, b_not, is_true, is_false
from .values import (str_term, Num, SComplex, SBool, SInt, SStr, Proxy, tonum, tocomplex, raw_bool, mkbool, mkint, int_term,
                     zt, isc, ite)
from .arrays import SArr, SList, MSel, iterm, pyi, _npval

ENGINE_NAMES = ("Num", "SArr", "SComplex", "SInt", "SStr", "SList", "SBool", "MSel", "Proxy", "SymSeq", "ModProxy",
                "Fraction", "pv.")


class VSym:
    sym = True

    def __init__(self, ctx, opts=None):
        self.c = ctx
        self.opts = opts or {}
        self.bnd = ctx.ex.mode == "bnd"
        self._w = None
        self.np = None

    # ---- world
    @property
    def world(self):
        if self._w is None:
            self._w = loader.World(self.c)
        return self._w

    def mod(self, name=None):
        return self.world.load("dispersion" + ("." + name if name else ""))

    @property
    def numpy(self):
        return self.world.ext["numpy"]

    def interp(self, x, y, order, t):
        """scipy's interpolation of the points (x, y), at t"""
        r = self.world.ext["scipy.interpolate"].interp1d(x, y, kind=order)(t)
        return r.f() if isinstance(r, SArr) and r.ndim == 0 else r

    def grain(self):
        """model rounding in np.round as an error of at most half a unit (default: identity)"""
        self.c.round_exact = False

    @property
    def pi(self):
        return Num(self.c.pi)

    def q(self, s):
        """decimal constant"""
        return Num(Fraction(s))

    # ---- inputs
    def _in(self, name, kind, payload, hint=None):
        self.c.inputs.append((name, kind, payload))
        if hint:
            self.c.__dict__.setdefault("hints", {})[name] = hint

    def choice(self, name, options):
        options = list(options)
        k = self.c.choice(len(options))
        self._in(name, "choice", k)
        return options[k]

    def bool(self, name):
        return self.choice(name, [False, True])

    def flag(self, name):
        b = z3.Bool(self.c.fresh("in_" + name))
        self._in(name, "bool", b)
        return SBool(b)

    def real(self, name, lo=None, hi=None, open_lo=False, gen=None, npy=False):
        t = z3.Real(self.c.fresh("in_" + name))
        n = Num(t, npy=npy)
        if lo is not None:
            l = zt(tonum(lo).t)
            if open_lo and tonum(lo).t == 0 and isc(tonum(lo).t):
                self.c.positive[t.decl().name()] = True
                self.c.add_raw(t > 0)
            self.c.add(t > l if open_lo else t >= l)
        if hi is not None:
            self.c.add(t <= zt(tonum(hi).t))
        self._in(name, "num", n, gen)
        return n

    def pos(self, name, gen=(0.05, 50.0)):
        return self.real(name, 0, None, True, gen)

    def ext(self, name, gen=(0.05, 50.0)):
        """non-negative number or infinity"""
        t = z3.Real(self.c.fresh("in_" + name))
        p = z3.Bool(self.c.fresh("inf_" + name))
        self.c.add(t >= 0)
        n = Num(t, p, False, False)
        self._in(name, "num", n, gen)
        return n

    def int(self, name, lo=None, hi=None):
        if self.bnd and lo is not None and hi is not None and hi - lo <= 6:
            return self.choice(name + "#", list(range(lo, hi + 1)))
        t = z3.Int(self.c.fresh("in_" + name))
        if lo is not None:
            self.c.add(t >= int_term(lo))
        if hi is not None:
            self.c.add(t <= int_term(hi))
        self._in(name, "int", t)
        return SInt(t)

    def length(self, name, lo=0, sizes=None, cap=6):
        if self.bnd:
            sizes = sizes or [k for k in (0, 1, 2, 3) if k >= lo] or [lo, lo + 1]
            k = self.c.choice(len(sizes))
            self._in(name, "len", sizes[k])
            return sizes[k]
        t = z3.Int(self.c.fresh("n_" + name))
        self.c.add(t >= lo)
        self._in(name, "int", t)
        return SInt(t)

    def _fun(self, name, nd):
        nm = self.c.fresh("in_" + name)
        return z3.Function(nm, *([z3.IntSort()] * nd + [z3.RealSort()]))

    def array(self, name, n, lo=None, hi=None, open_lo=False, increasing=False, decreasing=False, kind="f", gen=None,
              ext=False):
        """1-D array of n finite numbers (ext: or infinite)"""
        fn = self._fun(name, 1)
        fi = z3.Function(fn.name() + "_inf", z3.IntSort(), z3.BoolSort()) if ext else None
        if kind == "i":
            fz = z3.Function(fn.name() + "_z", z3.IntSort(), z3.IntSort())
            g = lambda i: Num(z3.ToReal(fz(iterm(i))), npy=True, isint=True)
        elif ext:
            g = lambda i: Num(fn(iterm(i)), fi(iterm(i)), False, False, npy=True)
        else:
            g = lambda i: Num(fn(iterm(i)), npy=True)
        a = SArr((n,), kind, g)
        if lo is not None and open_lo and not ext and kind == "f" and isinstance(lo, (int, float)) and lo >= 0:
            self.c.positive[fn.name()] = True
        self._facts(n, g, lo, hi, open_lo, increasing, decreasing)
        self._in(name, "arr", (n, g), gen)
        return a

    def _facts(self, n, g, lo, hi, open_lo, increasing, decreasing=False):
        c = self.c
        if lo is not None or hi is not None:
            def fact(i):
                t = g(i).t
                cs = []
                if lo is not None:
                    l = zt(tonum(lo).t)
                    cs.append(t > l if open_lo else t >= l)
                if hi is not None:
                    cs.append(t <= zt(tonum(hi).t))
                return z3.And(*cs)
            self._forall(n, fact)
        if increasing or decreasing:
            less = (lambda x, y: x < y) if increasing else (lambda x, y: x > y)
            if isinstance(n, int):
                for i in range(n - 1):
                    c.add(less(g(i).t, g(i + 1).t))
            else:
                nt = int_term(n)

                def mono(i):
                    i = iterm(i)
                    cs = []
                    seen = set()
                    for u in list(c.idx) + [z3.IntVal(0), z3.simplify(nt - 1), z3.simplify(i + 1), z3.simplify(i - 1)]:
                        if u.get_id() in seen or u.eq(i):
                            continue
                        seen.add(u.get_id())
                        gi, gu = g(i).t, g(u).t
                        cs.append(z3.Implies(z3.And(i < u, u < nt), less(gi, gu)))
                        cs.append(z3.Implies(z3.And(u < i, u >= 0), less(gu, gi)))
                    return z3.And(*cs) if cs else True
                c.assume_forall(n, mono)
                c.register_index(z3.IntVal(0))
                c.register_index(z3.simplify(nt - 1))

    def _forall(self, n, fact):
        if isinstance(n, int):
            for i in range(n):
                self.c.add(fact(i))
        else:
            self.c.assume_forall(n, fact)
            self.c.register_index(z3.IntVal(0))

    def list(self, name, n, lo=None, hi=None, open_lo=False, gen=None):
        fn = self._fun(name, 1)
        g = lambda i: Num(fn(iterm(i)))
        self._facts(n, g, lo, hi, open_lo, False)
        self._in(name, "arr", (n, g), gen)
        if isinstance(n, int):
            return [g(i) for i in range(n)]
        return SList(n, g)

    def table(self, name, n, ncols, lo=None, increasing=True, gen=None, colgen=None, decreasing=False):
        """2-D array n x ncols with positive, strictly increasing (or decreasing) first column"""
        increasing = increasing and not decreasing
        fn = self._fun(name, 2)
        g = lambda i, j: Num(fn(iterm(i), iterm(j)), npy=True)
        a = SArr((n, ncols), "f", g)
        g0 = lambda i: g(i, 0)
        if isinstance(lo, (int, float)) and lo >= 0:
            self.c.positive[fn.name()] = "col0"
        self._facts(n, g0, lo, None, True, increasing, decreasing)
        self._in(name, "table", (n, ncols, g), (gen, colgen))
        return a

    def string(self, name, gen=None):
        s = SStr(z3.String(self.c.fresh("in_" + name)))
        self._in(name, "str", s, gen)
        return s

    # ---- logic
    def assume(self, c):
        self.c.assume(raw_bool(c))

    def assume_all(self, n, fn):
        if isinstance(n, int):
            for i in range(n):
                self.assume(fn(i))
            return
        self.c.assume_forall(n, lambda i: raw_bool(fn(mkint(iterm(i)))))
        self.c.register_index(z3.IntVal(0))

    def cases(self, c):
        """split on a condition"""
        return self.c.branch(raw_bool(c))

    def And(self, *xs):
        return mkbool(b_and(*[raw_bool(x) for x in xs]))

    def Or(self, *xs):
        return mkbool(b_or(*[raw_bool(x) for x in xs]))

    def Not(self, x):
        return mkbool(b_not(raw_bool(x)))

    def Implies(self, a, b):
        return mkbool(b_or(b_not(raw_bool(a)), raw_bool(b)))

    def If(self, c, a, b):
        return ite(raw_bool(c), a, b)

    def well(self, c):
        """restrict executions to numerically well-conditioned cases; no restriction for the verifier"""
        return True

    def apart(self, x, y, rel=1e-5):
        return True

    def name(self, x):
        """let the normaliser treat this number as one symbol wherever it appears"""
        t = tonum(x).t
        if not isc(t):
            self.c.named.append(t)
        return x

    def each(self, n, name="i"):
        """an arbitrary index below n"""
        c = self.c
        if isinstance(n, int) and n <= 3:
            yield from range(n)
            return
        nt = int_term(n)
        if not c.branch(z3.simplify(nt > 0)):
            return
        i = z3.Int(c.fresh("ix_" + name))
        c.add(z3.And(i >= 0, i < nt))
        c.register_index(i)
        c.register_index(z3.simplify(i + 1))
        yield SInt(i)

    def sum(self, n, fn):
        """sum of fn(j) for 0 <= j < n"""
        from .arrays import sum_fn
        if isinstance(n, int):
            r = Num(Fraction(0))
            for j in range(n):
                r = r + fn(j)
            return r
        return sum_fn(n, lambda j: fn(mkint(iterm(j))))

    def ensure(self, c, label):
        self.c.prove(zb(raw_bool(c)), label)

    def ensure_some(self, n, fn, label):
        """there is an index below n with fn (sym: one of the indices the path talks about)"""
        from . import solve
        cand = [t for t in self.c.idx if z3.is_const(t) and not z3.is_int_value(t)][::-1]
        best = None
        for t in cand[:4]:
            inside = z3.And(t >= 0, t < int_term(n))
            goal = zb(raw_bool(fn(mkint(t))))
            t0 = time.time()
            m = solve.matched(self.c, goal, t)
            ob = solve.discharge(self.c, z3.And(inside, m if m is not None else goal), label, ())
            ob.secs = time.time() - t0
            ob.imprecise = self.c.imprecise
            if ob.status == "proved":
                self.c.ex.obligations.append(ob)
                return
            best = best or ob
        if best is None:
            return self.fail(label)
        if best.status == "refuted":
            best.status = "unknown"
        if not isinstance(best.model, dict):
            best.model = self.c.extract(best.model)
        self.c.ex.obligations.append(best)

    def fail(self, label):
        self.c.prove(z3.BoolVal(False), label)

    def ensure_eq(self, a, b, label, rtol=1e-7, atol=0.0):
        self._eq(a, b, label)

    def _eq(self, a, b, label):
        if isinstance(a, SArr) and a.ndim == 0:
            a = a.f()
        if isinstance(b, SArr) and b.ndim == 0:
            b = b.f()
        if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)) or a is None or b is None or isinstance(a, (list, dict, tuple)):
            r = loader.RT.eq(a, b)
            return self.c.prove(zb(raw_bool(r)), label)
        if isinstance(a, (SComplex, complex)) or isinstance(b, (SComplex, complex)):
            x, y = tocomplex(a), tocomplex(b)
            if x is None or y is None:
                return self.c.prove(z3.BoolVal(False), label)
            prs = [(x.re, y.re), (x.im, y.im)]
        else:
            x, y = tonum(a), tonum(b)
            if x is None or y is None:
                return self.c.prove(z3.BoolVal(False), label)
            prs = [(x, y)]
        if all(p.plain() and q.plain() for p, q in prs):
            return self.c.prove(True, label, [(p.t, q.t) for p, q in prs])
        flags, eqs = [], []
        for p, q in prs:
            flags += [b_iff(p.pi, q.pi), b_iff(p.ni, q.ni), b_iff(p.na, q.na)]
        if not self.c.prove(zb(b_and(*flags)), label + " (finite/infinite alike)"):
            return
        for p, q in prs:
            fin = p.fin()
            if self.c.branch(zb(fin)):
                self.c.prove(True, label, [(p.t, q.t)])

    def ensure_close(self, a, b, tol, label, rtol=1e-9):
        """|a-b| <= tol (a symbolic tolerance)"""
        x, y, t = tonum(a), tonum(b), tonum(tol)
        d = zt(x.t) - zt(y.t)
        self.c.prove(zb(b_and(b_iff(x.pi, y.pi), b_iff(x.ni, y.ni), b_iff(x.na, y.na),
                              b_or(b_not(x.fin()), z3.And(d <= zt(t.t), -d <= zt(t.t))))), label)

    # ---- calls
    def call(self, fn, *a, **k):
        c = self.c
        try:
            r = fn(*a, **k)
        except Sig:
            raise
        except Exception as e:
            self.judge(e)
            return Out(False, None, e, traceback.format_exc(limit=-6))
        return Out(True, r)

    def call_warn(self, fn, *a, **k):
        """the call, and how many warnings it gave"""
        count = lambda: sum(1 for x in self.c.log if x[0] == "warn")
        n = count()
        out = self.call(fn, *a, **k)
        return out, count() - n

    def judge(self, e):
        m = str(e)
        tb = e.__traceback__
        last = None
        while tb is not None:
            last = tb
            tb = tb.tb_next
        fn = last.tb_frame.f_code.co_filename
        if isinstance(e, (TypeError, AttributeError)) and any(x in m for x in ENGINE_NAMES):
            self.c.imprecise = True
        if isinstance(e, (RecursionError, z3.Z3Exception, AssertionError, NameError, NotImplementedError)) and "/pv/" in fn:
            raise Unsupported("engine: %s %s" % (type(e).__name__, m[:100]))

    def ok(self, out, label):
        if not out.ok:
            self.c.last_exc = out.tb
        self.c.prove(z3.BoolVal(bool(out.ok)), label + ("" if out.ok else " [%s]" % out.show()))
        if not out.ok:
            raise PathEnd("call failed")
        return out.value

    def raises(self, out, types, label):
        self.c.prove(z3.BoolVal(out.raised(*(types if isinstance(types, tuple) else (types,)))),
                     label + ("" if not out.ok else " [returned]") + ("" if out.ok else " [%s]" % out.show()))

    # ---- values
    def num(self, x):
        return x

    def elem(self, a, i):
        """entry i of an array or list"""
        if isinstance(a, SArr):
            if a.ndim == 0:
                return _npval(a.f())
            if isinstance(a, MSel):
                return a[i]
            if a.ndim == 1:
                return a.at(pyi(i))
            return a[i]
        if isinstance(a, SList):
            return a.elem(pyi(i))
        return loader.RT.getitem(a, i)

    def cell(self, t, i, j):
        """entry (i, j) of a table, for an index known to be in range"""
        return _npval(t.f(pyi(i), j))

    def len(self, a):
        from .shims import plen
        return plen(a)

    def is_array(self, a):
        return isinstance(a, SArr) and a.ndim > 0

    def is_scalar(self, a):
        return isinstance(a, (Num, SComplex, SInt, int, float, complex)) or (isinstance(a, SArr) and a.ndim == 0)

    def snap(self, a):
        return snap(a)

    def same(self, a, b, label):
        """structural equality of two snapshots/values, entry by entry"""
        for lab, x, y in walk(self, a, b, label):
            if x is MISMATCH:
                self.fail(lab)
            else:
                self._eq(x, y, lab)

    def lst(self, xs):
        """python list -> list passed to the code (numbers become decimal constants)"""
        return [tonum(x) if isinstance(x, float) else x for x in xs]

    def arr(self, xs, kind="f"):
        return self.numpy.array(self.lst(xs), dtype=kind)

    def mkarr(self, n, fn, kind="f"):
        """array with entries fn(i)"""
        return SArr((n,), kind, lambda i: fn(mkint(iterm(i))))

    def mklist(self, n, fn):
        if isinstance(n, int):
            return [fn(i) for i in range(n)]
        return SList(n, lambda i: fn(mkint(iterm(i))))

    def astuple(self, x):
        return tuple(x) if isinstance(x, list) else SList(x.n, x.f, True)

    def state(self, o):
        return state(o)

    def note(self, *a):
        pass

    # ---- frames (pandas)
    def frame(self, name, kinds, cols):
        """an arbitrary catalogue: any number of rows (at least one), distinct labels, unique aliases (or empty), each row of
        one of the given kinds"""
        from .shim_pd import DataFrame
        self.world
        c = self.c
        n = self.length(name + "_n", 1)
        nt = int_term(n)
        alias = z3.Function(c.fresh(name + "_alias"), z3.IntSort(), z3.StringSort())
        apos = z3.Function(c.fresh(name + "_apos"), z3.StringSort(), z3.IntSort())
        lab = z3.Function(c.fresh(name + "_label"), z3.IntSort(), z3.IntSort())
        pos = z3.Function(c.fresh(name + "_pos"), z3.IntSort(), z3.IntSort())
        kind = z3.Function(c.fresh(name + "_kind"), z3.IntSort(), z3.IntSort())
        c.assume_forall(n, lambda i: z3.And(pos(lab(i)) == i, z3.Or(alias(i) == z3.StringVal(""), apos(alias(i)) == i), kind(i) >= 0,
                                            kind(i) < len(kinds)))
        c.register_index(z3.IntVal(0))

        def col(q):
            vals = [k[q] for k in kinds]
            if isinstance(vals[0], str):
                def f(i):
                    i = z3.IntVal(i) if isinstance(i, int) else i
                    t = z3.StringVal(vals[-1])
                    for j in range(len(vals) - 2, -1, -1):
                        t = z3.If(kind(i) == j, z3.StringVal(vals[j]), t)
                    return SStr(t)
                return f
            return lambda i: vals[0]
        fs = {q: (col(q) if q != "Alias" else (lambda i: SStr(alias(z3.IntVal(i) if isinstance(i, int) else i)))) for q in cols}
        opts = {q: sorted(set(k[q] for k in kinds)) for q in cols if q != "Alias" and isinstance(kinds[0][q], str)}
        df = DataFrame._make(n, lambda i: mkint(lab(z3.IntVal(i) if isinstance(i, int) else i)), fs, pos, opts)
        self._kindfn = kind
        return df

    def subframe(self, df, ps):
        from .shim_pd import DataFrame
        ps = [int_term(p) for p in ps]
        w = lambda f: (lambda i: f(ps[i]))
        return DataFrame._make(len(ps), w(df.lab), {k: w(f) for k, f in df.cols.items()}, None, df.options)

    def nrows(self, df):
        return df.n

    def cellof(self, df, i, col):
        return df.cols[col](i if isinstance(i, int) else int_term(i))

    def labelof(self, df, i):
        return df.lab(i if isinstance(i, int) else int_term(i))

    def kindof(self, df, i, n):
        t = self._kindfn(int_term(i))
        for k in range(n - 1):
            if self.c.branch(t == k):
                return k
        return n - 1

    def copyframe(self, df):
        return df.copy()

    def position(self, name, n):
        """an index below n"""
        t = z3.Int(self.c.fresh("in_" + name))
        self.c.assume(z3.And(t >= 0, t < int_term(n)))
        self.c.register_index(t)
        return mkint(t)

    def put_csv(self, path, rows, cols):
        docs = self.c.__dict__.setdefault("csvdocs", {})
        key = "CSVDOC%d" % (len(docs) + 1)
        docs[key] = (list(cols), [dict(r) for r in rows])
        self.put(path, key + "\n")

    def isnan(self, x):
        return isinstance(x, float) and x != x or isinstance(x, Num) and x.na is True

    # ---- text and files
    def text(self, x):
        """printed number"""
        from . import text
        n = tonum(x)
        if n.const():
            return repr(float(n))
        return text.token(n, "")

    def folder(self):
        """an empty scratch folder"""
        self.world
        d = "/base/pv%d" % len([x for x in self.c.vfs.dirs if x.startswith("/base/pv")])
        self.c.vfs.mkdir(d)
        return d

    # ---- answers of the user
    def answers(self, name, pool=None, last=None):
        """any stream of answers: (number used so far, answer i)"""
        self.world
        c = self.c
        f = z3.Function(c.fresh("in_" + name), z3.IntSort(), z3.StringSort())

        def ask(prompt=""):
            i = int_term(c.inpos)
            c.register_index(i)
            c.inpos = mkint(z3.simplify(i + 1))
            return SStr(f(i))
        c.hooks["input"] = ask
        c.inpos = 0
        return (lambda: c.inpos), (lambda i: SStr(f(int_term(i))))

    def script(self, xs):
        """exactly these answers; number used so far"""
        self.world
        xs = list(xs)
        n = [0]

        def ask(prompt=""):
            if n[0] >= len(xs):
                raise EOFError("no more answers")
            n[0] += 1
            return xs[n[0] - 1]
        self.c.hooks["input"] = ask
        return lambda: n[0]

    def predicate(self, name):
        """any predicate of strings"""
        p = z3.Function(self.c.fresh("in_" + name), z3.StringSort(), z3.BoolSort())
        return lambda s: mkbool(p(str_term(s)))

    def git(self, clone):
        """stand-in for GitPython (before anything else)"""
        from .shim_np import ModProxy
        self.c.hooks["git"] = ModProxy("git", dict(Repo=ModProxy("git.Repo", dict(clone_from=clone))))

    def home(self, name, config=True):
        """the home folder of the user (call before anything else)"""
        d = "/base/" + name
        self.c.hooks["environ"] = {"HOME": d}
        self.world
        self.c.vfs.makedirs(d + ("/.config" if config else ""), exist_ok=True)
        return d

    def package(self):
        """(loader of modules, folder of the package)"""
        import posixpath
        d = posixpath.dirname(self.mod("config").__file__)
        self.c.vfs.makedirs(d, exist_ok=True)
        return self.mod, d

    def scratch_temp(self):
        """snapshot of everything outside temporary folders"""
        self.world

        def snap():
            v = self.c.vfs
            t = lambda p: p.startswith("/tmp/pv_tmp")
            return {p: None for p in v.dirs if not t(p)} | {p: x for p, x in v.files.items() if not t(p)}
        return "/base", snap

    def put(self, path, s):
        self.world
        with self.c.vfs.open(path, "w") as f:
            f.write(s)
        self.c.vfs.written.pop()

    def put_yaml(self, path, d, comment=""):
        """a file holding the tree d in YAML (and comment lines before it)"""
        from .externs import clone
        docs = self.c.__dict__.setdefault("yamldocs", {})
        key = "YAMLDOC%d" % (len(docs) + 1)
        docs[key] = clone(d)
        self.put(path, comment + key + "\n")

    def got(self, path):
        return self.c.vfs.open(path, "r").read()

    def mkdir(self, path):
        self.world
        self.c.vfs.makedirs(path, exist_ok=True)

    def tree(self, root):
        """{relative path: content, or None for folders}"""
        out = {}
        for p in self.c.vfs.dirs:
            if p.startswith(root + "/"):
                out[p[len(root) + 1:]] = None
        for p, s in self.c.vfs.files.items():
            if p.startswith(root + "/"):
                out[p[len(root) + 1:]] = s
        return out


class _Mis:
    pass


MISMATCH = _Mis()


def b_iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return zb(a) == zb(b)


def snap(a):
    if isinstance(a, MSel):
        raise Unsupported("snapshot of a selection")
    if isinstance(a, SArr):
        return a.snapshot()
    if isinstance(a, SList):
        return SList(a.n, a.f, a.tup)
    if isinstance(a, dict):
        return {k: snap(v) for k, v in a.items()}
    if isinstance(a, list):
        return [snap(v) for v in a]
    if isinstance(a, tuple):
        return tuple(snap(v) for v in a)
    return a


def state(o, seen=None):
    """deep snapshot of an object of the package"""
    seen = seen or []
    if any(o is s for s in seen):
        return "<cycle>"
    m = type(o).__module__
    if m.startswith("dispersion"):
        return {"__class__": type(o).__name__,
                **{k: state(v, seen + [o]) for k, v in sorted(vars(o).items()) if not k.startswith("_")}}
    if isinstance(o, dict):
        return {k: state(v, seen + [o]) for k, v in o.items()}
    if isinstance(o, list):
        return [state(v, seen + [o]) for v in o]
    if isinstance(o, tuple):
        return tuple(state(v, seen + [o]) for v in o)
    if isinstance(o, (SArr, SList)):
        return snap(o)
    if isinstance(o, (Proxy, str, int, float, complex, bool, type(None))):
        return o
    return "<%s>" % type(o).__name__


def walk(v, a, b, label):
    if isinstance(a, SArr) or isinstance(b, SArr):
        if not (isinstance(a, SArr) and isinstance(b, SArr)) or a.ndim != b.ndim:
            yield label + ": kind", MISMATCH, None
            return
        for x, y in zip(a.shape_, b.shape_):
            if not (isinstance(x, int) and isinstance(y, int) and x == y) and not int_term(x).eq(int_term(y)):
                yield label + ": length", mkint(int_term(x)), mkint(int_term(y))
        if a.ndim == 0:
            yield label, a.f(), b.f()
        elif a.ndim == 1:
            for i in v.each(a.shape_[0]):
                yield label, a[i], b[i]
        else:
            for i in v.each(a.shape_[0]):
                for j in v.each(a.shape_[1]):
                    yield label, a[i, j], b[i, j]
        return
    if isinstance(a, SList) or isinstance(b, SList):
        from .shims import plen
        if not isinstance(a, (SList, list)) or not isinstance(b, (SList, list)):
            yield label + ": kind", MISMATCH, None
            return
        yield label + ": length", plen(a), plen(b)
        for i in v.each(plen(a)):
            yield label, loader.RT.getitem(a, i), loader.RT.getitem(b, i)
        return
    if isinstance(a, dict):
        if not isinstance(b, dict) or (set(a) != set(b) if "__class__" not in b else not set(b) <= set(a)):
            yield label + ": keys", MISMATCH, None
            return
        for k in b:
            yield from walk(v, a[k], b[k], "%s.%s" % (label, k))
        return
    if isinstance(a, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            yield label + ": length", MISMATCH, None
            return
        for i, (x, y) in enumerate(zip(a, b)):
            yield from walk(v, x, y, "%s[%d]" % (label, i))
        return
    yield label, a, b
