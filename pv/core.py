"""Path exploration, path conditions, obligations.

A contract is executed once per path.  All branching on symbolic conditions goes
through Ctx.branch / Ctx.choice; the outcome list of a path is its replay script, so
exploration re-executes the contract from the start for every path (no heap cloning).
"""
import time
from fractions import Fraction
import z3


class Sig(BaseException):
    """engine control flow; never caught by code under verification"""


class PathEnd(Sig):
    pass


class Unsupported(Sig):
    """the code left the verifier's subset"""


class Restart(Sig):
    """re-run from a loop head with a different treatment of the loop"""

    def __init__(self, prefix):
        self.prefix = tuple(prefix)


class Probe(Sig):
    def __init__(self, n):
        self.n = n


class Stop(Sig):
    """budget exhausted"""


CUR = None  # current Ctx


def cur():
    return CUR


def is_true(c):
    return c is True or (isinstance(c, z3.BoolRef) and z3.is_true(c))


def is_false(c):
    return c is False or (isinstance(c, z3.BoolRef) and z3.is_false(c))


def zb(c):
    """python bool / z3 Bool -> z3 Bool"""
    if c is True:
        return z3.BoolVal(True)
    if c is False:
        return z3.BoolVal(False)
    return c


def b_not(a):
    if is_true(a):
        return False
    if is_false(a):
        return True
    return z3.Not(a)


def b_and(*xs):
    out = []
    for x in xs:
        if is_false(x):
            return False
        if is_true(x):
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if is_true(x):
            return True
        if is_false(x):
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.backends = {}

    def add(self, backend):
        self.backends[backend] = self.backends.get(backend, 0) + 1


class Obligation:
    __slots__ = ("label", "status", "backend", "model", "why", "secs", "imprecise", "smt")

    def __init__(self, label, status, backend, model=None, why="", secs=0.0, imprecise=False, smt=None):
        self.label, self.status, self.backend = label, status, backend
        self.model, self.why, self.secs, self.imprecise = model, why, secs, imprecise
        self.smt = smt


class Explorer:
    """runs one contract over all its paths"""

    def __init__(self, mode, budget_s=120.0, qtimeout_ms=4000, max_paths=20000, keep_smt=False):
        self.mode = mode            # 'sym' or 'bnd'
        self.deadline = time.time() + budget_s
        self.qtimeout = qtimeout_ms
        self.max_paths = max_paths
        self.stats = Stats()
        self.obligations = []
        self.unsupported = []
        self.paths = 0
        self.ended = 0              # paths that ran to the end of the contract
        self.loop_info = {}         # summaries: (prefix, loop id) -> LoopSummary
        self.shared = {}            # for harness caches
        self.loop_obls = 0
        self.keep_smt = keep_smt
        self.stopped = None
        self.precond_ok = 0
        self.restarts = 0
        self.errors = []
        self.bounded = []           # bounds hit on some path

    def probe(self, fn, depth=2, limit=120):
        """script prefixes that split the paths by the first choices of the contract"""
        global CUR
        done, todo = [], [()]
        while todo and len(done) + len(todo) < limit:
            p = todo.pop(0)
            ctx = Ctx(self, p)
            ctx.probing = True
            CUR = ctx
            n = None
            try:
                fn(ctx)
            except Probe as e:
                n = e.n
            except BaseException:
                n = None
            finally:
                CUR = None
            if n is None:
                done.append(p)
            elif len(p) + 1 >= depth:
                done.extend(p + (k,) for k in range(n))
            else:
                todo.extend(p + (k,) for k in range(n))
        return done + todo

    def run(self, fn, start=()):
        global CUR
        stack = [tuple(start)]
        while stack:
            if time.time() > self.deadline:
                self.stopped = "time budget"
                break
            if self.paths >= self.max_paths:
                self.stopped = "path budget"
                break
            prefix = stack.pop()
            ctx = Ctx(self, prefix)
            CUR = ctx
            self.paths += 1
            try:
                fn(ctx)
                self.ended += 1
                if ctx.feasible():
                    self.precond_ok += 1
            except PathEnd:
                pass
            except Restart as e:
                self.restarts += 1
                if self.restarts > 200:
                    self.stopped = "restarts"
                    break
                k = len(e.prefix)
                ctx.pending = [p for p in ctx.pending if p[:k] != e.prefix]
                stack = [p for p in stack if p[:k] != e.prefix or len(p) <= k]
                stack.extend(ctx.pending)
                stack.append(e.prefix)
                continue
            except Stop as e:
                self.stopped = str(e)
                break
            except Unsupported as e:
                self.unsupported.append(str(e))
            except Exception as e:
                import traceback
                self.errors.append(traceback.format_exc(limit=-8))
                self.unsupported.append("contract body: %s: %s" % (type(e).__name__, str(e)[:200]))
            finally:
                CUR = None
            stack.extend(ctx.pending)
            if self.unsupported and len(self.unsupported) > 5:
                self.stopped = "unsupported"
                break
        return self


class Ctx:
    def __init__(self, ex, prefix):
        self.ex = ex
        self.probing = False
        self.prefix = prefix
        self.trace = []
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 1500)
        self.solver.set("smt.arith.nl.nra", False)
        self.lin = None           # the same assertions, products uninterpreted (fast, sound for unsat)
        self.lin_n = 0
        self.pc = []
        self.polished = {}
        self.named = []           # terms the normaliser treats as atoms
        self.positive = {"pi": True}
        self.pos_seen = {}
        self.lemmas = []          # added only for obligations
        self.counter = {}
        self.fresh_log = []
        self.inpos = 0            # position in the stream of user answers
        self.poles = []
        self.pole_ids = {}
        self.idx = []             # index terms (z3 Int) for instantiation
        self.idx_keys = set()
        self.pc_seen, self.pc_keep, self.pc_ids = 0, [], set()
        self.facts = []           # (n, fn) universally quantified facts
        self.inputs = []          # (name, kind, payload)
        self.imprecise = False
        self.exact_div = False
        self.round_exact = True   # np.round is the identity unless a contract asks otherwise
        self.sums = {}
        self.uf_seen = set()
        self.log = []
        self.hooks = {}
        self.vfs = None
        self.depth = 0
        pi = z3.Real("pi")
        self.pi = pi
        self.base = [pi > z3.RealVal("3.14159265"), pi < z3.RealVal("3.14159266")]
        for b in self.base:
            self.solver.add(b)

    # ---- names
    def fresh(self, base):
        self.fresh_log.append(None)
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        r = base if k == 0 else "%s!%d" % (base, k)
        self.fresh_log[-1] = r
        return r

    # ---- constraints
    def add(self, c):
        if is_true(c):
            return
        from .solve import polish
        c = polish(self, zb(c))
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)

    def add_raw(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def lemma(self, c):
        if is_true(c):
            return
        self.lemmas.append(zb(c))

    def register_index(self, t):
        if isinstance(t, int):
            t = z3.IntVal(t)
        key = t.get_id()
        if key in self.idx_keys:
            return
        self.idx_keys.add(key)
        self.idx.append(t)
        if len(self.idx) > 60:
            return
        for n, fn, lem in list(self.facts):
            self._inst(n, fn, t, lem)

    def _inst(self, n, fn, t, lem=False):
        from .values import raw_bool, int_term
        nt = int_term(n)
        g = z3.And(t >= 0, t < nt)
        self.depth += 1
        try:
            if self.depth > 3:
                return
            body = raw_bool(fn(t))
        finally:
            self.depth -= 1
        if is_true(body):
            return
        if lem:
            from .solve import polish
            self.lemma(polish(self, z3.Implies(g, zb(body))))
        else:
            self.add(z3.Implies(g, zb(body)))

    def assume_forall(self, n, fn, lemma=False):
        """fn: z3 Int -> bool-ish; holds for all 0<=k<n (lemma: used for obligations only, not for branching)"""
        self.facts.append((n, fn, lemma))
        for t in list(self.idx):
            self._inst(n, fn, t, lemma)

    # ---- solving
    def _check(self, *extra, timeout=None):
        self.ex.stats.queries += 1
        t0 = time.time()
        if t0 > self.ex.deadline:
            raise Stop("time budget")
        self.solver.push()
        try:
            for e in extra:
                self.solver.add(e)
            if timeout:
                self.solver.set("timeout", timeout)
            r = self.solver.check()
            if timeout:
                self.solver.set("timeout", 1500)
            m = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
        self.ex.stats.solver_s += time.time() - t0
        return r, m

    def pc_set(self):
        """ids of the (simplified) conditions of the path"""
        while self.pc_seen < len(self.pc):
            p = z3.simplify(self.pc[self.pc_seen])
            self.pc_seen += 1
            self.pc_keep.append(p)
            self.pc_ids.add(p.get_id())
        return self.pc_ids

    def lin_unsat(self, *extra, ms=400):
        """unsatisfiable already by linear reasoning"""
        if self.lin is None:
            self.lin = z3.SimpleSolver()
            self.lin.set("arith.nl", False)
            self.lin_ms = None
            for b in self.base:
                self.lin.add(b)
        self.ex.stats.queries += 1
        t0 = time.time()
        while self.lin_n < len(self.pc):
            self.lin.add(self.pc[self.lin_n])
            self.lin_n += 1
        self.lin.push()
        try:
            for e in extra:
                self.lin.add(e)
            if ms != self.lin_ms:
                self.lin.set("timeout", ms)
                self.lin_ms = ms
            r = self.lin.check()
        finally:
            self.lin.pop()
        self.ex.stats.solver_s += time.time() - t0
        return r == z3.unsat

    def feasible(self, *extra):
        r, _ = self._check(*extra, timeout=500)
        return r != z3.unsat

    def implied(self, c):
        c = zb(c)
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        from .solve import polish
        c = polish(self, c)
        if z3.is_true(c) or self.lin_unsat(z3.Not(c)):
            return True
        r, _ = self._check(z3.Not(c))
        return r == z3.unsat

    def implied_lin(self, c, ms=400):
        from .solve import polish
        c = z3.simplify(polish(self, c))
        return z3.is_true(c) or (not z3.is_false(c) and self.lin_unsat(z3.Not(c), ms=ms))

    def implied_l(self, c):
        """implied, with the lemmas"""
        if is_true(c):
            return True
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        from .solve import polish, has_real
        c = polish(self, c)
        if z3.is_true(c):
            return True
        if self.lin_unsat(z3.Not(c)):
            return True
        if not has_real(c):
            return False
        r, _ = self._check(*(self.lemmas[-200:] + [z3.Not(c)]), timeout=600)
        return r == z3.unsat

    # ---- decisions
    def _next(self):
        d = len(self.trace)
        if d < len(self.prefix):
            return self.prefix[d]
        return None

    def branch(self, c):
        if is_true(c):
            return True
        if is_false(c):
            return False
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        nxt = self._next()
        if nxt is not None:
            self.trace.append(nxt)
            v = bool(nxt)
            self.add(c if v else z3.Not(c))
            return v
        if self.probing:
            raise Probe(None)
        from .solve import polish
        c = z3.simplify(polish(self, c))
        if z3.is_true(c) or z3.is_false(c):
            self.trace.append(int(z3.is_true(c)))
            return z3.is_true(c)
        # decided by linear reasoning alone: the other side need not be examined (an infeasible path proves nothing wrong)
        rt = rf = None
        ids = self.pc_set()
        if c.get_id() in ids:
            rt, rf = z3.sat, z3.unsat
        elif z3.simplify(z3.Not(c)).get_id() in ids:
            rt, rf = z3.unsat, z3.sat
        for ms in (60, 300):
            if rt is None and self.lin_unsat(z3.Not(c), ms=ms):
                rt, rf = z3.sat, z3.unsat
            elif rt is None and self.lin_unsat(c, ms=ms):
                rt, rf = z3.unsat, z3.sat
        if rt is None:
            rt = self._check(c)[0]
            rf = self._check(z3.Not(c))[0]
        if rt == z3.unsat and rf == z3.unsat:
            raise PathEnd("infeasible")
        if rt == z3.unsat:
            self.trace.append(0)
            self.add(z3.Not(c))
            return False
        if rf == z3.unsat:
            self.trace.append(1)
            self.add(c)
            return True
        self.pending.append(tuple(self.trace) + (0,))
        self.trace.append(1)
        self.add(c)
        return True

    def choice(self, n):
        """pick 0..n-1, all explored"""
        if n == 1:
            return 0
        nxt = self._next()
        if nxt is not None:
            self.trace.append(nxt)
            return nxt
        if self.probing:
            raise Probe(n)
        for k in range(n - 1, 0, -1):
            self.pending.append(tuple(self.trace) + (k,))
        self.trace.append(0)
        return 0

    # ---- obligations
    def assume(self, c):
        if is_true(c):
            return
        if is_false(c):
            raise PathEnd("assume false")
        self.add(c)
        if not self.feasible():
            raise PathEnd("assume infeasible")

    def prove(self, c, label, eqs=()):
        """record an obligation; returns True when discharged"""
        from . import solve
        t0 = time.time()
        ob = solve.discharge(self, c, label, eqs)
        ob.secs = time.time() - t0
        ob.imprecise = self.imprecise
        self.ex.obligations.append(ob)
        if ob.status != "proved":
            if not isinstance(ob.model, dict):
                ob.model = self.extract(ob.model)
        return ob.status == "proved"

    # ---- models
    def extract(self, m):
        from . import values
        out = {}
        for name, kind, payload in self.inputs:
            try:
                out[name] = values.extract_input(m, kind, payload)
            except Exception as e:      # model extraction is best effort
                out[name] = None
        return out
