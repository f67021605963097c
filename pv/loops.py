"""Loops over symbolic ranges: an arbitrary iteration is executed once per body path on havocked
state; from the transitions a closed form of the state after k iterations is derived."""
import z3
from fractions import Fraction
from .core import (cur, Unsupported, PathEnd, Restart, is_true, is_false, zb, b_and, b_or, b_not)
from .values import (Num, SComplex, SBool, SInt, SStr, Proxy, tonum, raw_bool, mkbool, mkint, int_term, ite,
                     subst, sum_atom, zt, isc, t_add, b_ite, t_ite)
from .arrays import SArr, SList, iterm, pyi, exists_bool, forall_bool, cast_elem, ORDER
from . import solve


class Info:
    def __init__(self):
        self.retype = {}
        self.paths = []
        self.J = None
        self.hav = None
        self.fresh0 = None


class Undef:
    pass


UNDEF = Undef()


class HList(SList):
    """a list on entry to an arbitrary iteration: contents unknown, appends recorded"""
    __slots__ = ("log", "orig")

    def __init__(self, orig):
        n = z3.Int(cur().fresh("hlen"))
        cur().add(n >= 0)
        SList.__init__(self, SInt(n), self._no)
        self.log = []
        self.orig = orig

    def _no(self, i):
        raise Unsupported("reading a list under construction in a symbolic loop")

    def append(self, v):
        self.log.append(v)


def names_in(t, ctx):
    out = set(solve.all_consts(t))
    for nm in list(out):
        if nm in ctx.sums:
            n, b, J = ctx.sums[nm]
            out |= names_in(n, ctx) | names_in(b, ctx)
    return out


def terms_of(v):
    if isinstance(v, Num):
        return [x for x in (v.t, v.pi, v.ni, v.na) if not isinstance(x, (bool, Fraction))]
    if isinstance(v, SComplex):
        return terms_of(v.re) + terms_of(v.im)
    if isinstance(v, (SInt, SStr)):
        return [v.t]
    if isinstance(v, SBool):
        return [v.b] if not isinstance(v.b, bool) else []
    if isinstance(v, (list, tuple)):
        return [t for x in v for t in terms_of(x)]
    if isinstance(v, dict):
        return [t for x in v.values() for t in terms_of(x)]
    return []


IDX = [z3.Int("I!0"), z3.Int("I!1"), z3.Int("I!2")]


class Loop:
    def __init__(self, n, item, lid, names, loc, kind="for"):
        c = cur()
        self.c = c
        self.kind = kind
        self.n, self.item, self.names = n, item, names
        self.entry = tuple(c.trace)
        key = (self.entry, lid)
        self.info = c.ex.loop_info.setdefault(key, Info())
        self.loc0 = {k: loc[k] for k in names if k in loc}
        self.broke = False
        self.ended = False
        self.in0 = c.inpos
        self.vals = {}
        self.prevhook = c.hooks.get("heap_write")
        self.phase = c.choice(3)
        if self.phase == 0:
            self._learn_start()
        else:
            self._closed_start()

    # ---- phase 0
    def _learn_start(self):
        c, info = self.c, self.info
        self.serial0 = getattr(c, "serial", 0)
        J = z3.Int(c.fresh("J"))
        self.J = J
        if self.kind == "for":
            c.add(z3.And(J >= 0, J < int_term(self.n)))
            if not c.feasible():
                raise PathEnd("empty loop")
        else:
            c.add(J >= 0)
        c.register_index(J)
        self.f0 = len(c.fresh_log)
        self.hav = {}
        for k in self.names:
            if k not in self.loc0:
                continue
            self.vals[k] = self.havoc(k, self.loc0[k])
        if not isinstance(self.in0, int) or self.kind == "while" or True:
            h = z3.Int(c.fresh("inpos"))
            self.hav["$in"] = ("int", h)
            c.add(h >= int_term(self.in0))
            self.hin = SInt(h)
            c.inpos = self.hin
        self.f1 = len(c.fresh_log)
        self.pc0 = len(c.pc)
        self.created = []
        c.hooks["heap_write"] = self._heap_write
        c.hooks["loop_depth"] = c.hooks.get("loop_depth", 0) + 1

    def _heap_write(self, obj):
        if isinstance(obj, (SArr, SList)):
            if obj.serial > self.serial0:
                return
            for k in self.vals:
                if self.vals[k] is obj:
                    return
            if isinstance(obj, SArr) and obj.base is not None:
                return
        else:
            if any(obj is x for x in self.c.hooks.get("created", ())):
                return
            for k in self.vals:
                if self.vals[k] is obj:
                    return
            d = getattr(obj, "__dict__", None)
            if d is not None and d.get("_pv_serial", -1) > self.serial0:
                return
        raise Unsupported("a symbolic loop writes to an object created before it")

    def havoc(self, k, v):
        c = self.c
        rt = self.info.retype.get(k)
        if rt == "keep":
            self.hav[k] = ("same", v)
            return v
        if rt and rt[0] == "arr":
            v = SArr(rt[1], rt[2], lambda *ix: Num(Fraction(0)))
        elif rt == "num":
            v = tonum(v)
        elif rt == "complex":
            v = SComplex(0, 0)
        if isinstance(v, bool) or isinstance(v, SBool):
            h = z3.Bool(c.fresh("h_" + k))
            self.hav[k] = ("bool", h)
            return SBool(h, isinstance(v, SBool) and v.npy)
        if isinstance(v, (int, SInt)):
            h = z3.Int(c.fresh("h_" + k))
            self.hav[k] = ("int", h)
            return SInt(h)
        if isinstance(v, (Num, float)):
            n = tonum(v)
            if not n.plain():
                self.hav[k] = ("same", v)
                return v
            h = z3.Real(c.fresh("h_" + k))
            self.hav[k] = ("num", h)
            return Num(h, npy=n.npy)
        if isinstance(v, (SComplex, complex)):
            a, b = z3.Real(c.fresh("h_" + k)), z3.Real(c.fresh("h_" + k))
            self.hav[k] = ("cplx", (a, b))
            return SComplex(Num(a), Num(b), getattr(v, "npy", False))
        if isinstance(v, (str, SStr)):
            h = z3.String(c.fresh("h_" + k))
            self.hav[k] = ("str", h)
            return SStr(h)
        if isinstance(v, SArr) and v.base is None and v.dt in "fcib" and type(v) is SArr:
            nd = max(1, v.ndim)
            nm = c.fresh("h_" + k)
            fr = z3.Function(nm, *([z3.IntSort()] * nd + [z3.RealSort()]))
            fi = z3.Function(nm + "_im", *([z3.IntSort()] * nd + [z3.RealSort()]))
            dt = v.dt

            def f(*ix):
                ii = [iterm(i) for i in ix] or [z3.IntVal(0)]
                if dt == "c":
                    return SComplex(Num(fr(*ii)), Num(fi(*ii)), True)
                if dt == "b":
                    return mkbool(fr(*ii) > 0, True)
                return Num(fr(*ii), npy=True, isint=dt == "i")
            self.hav[k] = ("arr", (v, v.f, nm, fr, fi, dt))
            if rt:
                r = SArr(v.shape_, dt, f)
            else:
                r = v
                v._f = f
            r.wlog = []
            return r
        if isinstance(v, (list, SList)):
            h = HList(v)
            self.hav[k] = ("list", h)
            return h
        if v is None:
            self.hav[k] = ("none", None)
            return None
        self.hav[k] = ("same", v)
        return v

    # ---- access from generated code
    def has(self, k):
        return k in self.vals

    def get(self, k):
        return self.vals[k]

    def one(self):
        if self.kind == "while":
            return (0,)
        return (self.item(self.J),)

    def stop(self):
        raise PathEnd("loop test")

    # while: the test is evaluated again after the body, so that recorded iterations are those followed by another one,
    # and the last iteration is executed (phase 2) rather than approximated
    def tested(self):
        return not self.broke

    def again(self):
        if self.phase == 2:
            raise PathEnd("not the last iteration")

    def over(self):
        if self.phase == 0:
            raise PathEnd("last iteration while learning")
        self.ended = True

    def leave(self):
        """the body leaves the loop by return or exception"""
        if self.phase == 0:
            raise PathEnd("leaves the loop while learning")

    def brk(self):
        self.broke = True

    def end(self, loc):
        c = self.c
        if self.phase == 2:
            if self.broke or self.ended:
                return
            raise PathEnd("no early exit")
        c.hooks["heap_write"] = self.prevhook
        c.hooks["loop_depth"] -= 1
        if self.broke:
            raise PathEnd("break while learning")
        # record the transition
        info = self.info
        base = set(x for x in c.fresh_log[:self.f1])
        bodyfresh = set(c.fresh_log[self.f1:])
        cond = b_and(*[x for x in c.pc[self.pc0:]])
        vals = {}
        for k in self.names:
            vals[k] = loc.get(k, UNDEF)
        self._check_types(vals)
        snap = {}
        for k, v in vals.items():
            if isinstance(v, SArr):
                v = (v, v.f, v.shape_, v.dt, list(v.wlog or []))
            snap[k] = v
        info.paths.append(dict(cond=cond, vals=snap, fresh=bodyfresh, inpos=c.inpos))
        info.J, info.hav = self.J, self.hav
        info.obj = {k: self.vals[k] for k in self.vals}
        info.keep = (self.c.sums,)
        raise PathEnd("iteration done")

    def _check_types(self, vals):
        for k, (kind, p) in self.hav.items():
            if k == "$in":
                continue
            v = vals.get(k, UNDEF)
            want = None
            if isinstance(v, SArr) and kind in ("int", "num", "cplx", "same") and not (kind == "same" and v is p):
                want = ("arr", v.shape_, v.dt)
            elif isinstance(v, SArr) and kind == "arr" and v.dt != p[5] and ORDER.index(v.dt) > ORDER.index(p[5]):
                want = ("arr", v.shape_, v.dt)
            elif isinstance(v, SComplex) and kind in ("int", "num"):
                want = "complex"
            elif isinstance(v, (Num, float)) and kind == "int":
                want = "num"
            if want is not None and self.info.retype.get(k) != want:
                if isinstance(want, tuple):
                    # only when the value accumulates (depends on the havocked one); otherwise a temporary
                    pass
                self.info.retype[k] = want
                self.info.paths = []
                raise Restart(self.entry)

    # ---- phases 1 and 2
    def _closed_start(self):
        c, info = self.c, self.info
        if not info.paths:
            # no iteration completes normally
            if self.phase == 1:
                if self.kind == "for":
                    c.assume(int_term(self.n) <= 0)
                self.vals = dict(self.loc0)
                self.k = z3.IntVal(0)
                return
            self.J = z3.IntVal(0)
            if self.kind == "for":
                c.assume(int_term(self.n) > 0)
            self.vals = dict(self.loc0)
            return
        if self.phase == 1:
            if self.kind == "for":
                k = int_term(self.n)
            else:
                # no iteration at all
                self.k = z3.IntVal(0)
                self.vals = dict(self.loc0)
                return
        else:
            k = z3.Int(c.fresh("K"))
            c.add(k >= 0)
            if self.kind == "for":
                c.add(k < int_term(self.n))
            c.register_index(k)
            self.J = k
        self.k = k
        self.vals = {}
        for name in self.names:
            v = self.closed(name, k, self.phase == 1)
            if v is not UNDEF:
                self.vals[name] = v
        c.inpos = self.closed_in(k)
        # every earlier iteration completed normally
        def normal(j):
            return b_or(*[self.at(p["cond"], j, p) for p in info.paths])
        if not any(self._bad(p) for p in info.paths):
            bound = self.n if (self.phase == 1 and self.kind == "for") else SInt(k)
            c.assume_forall(bound, normal)
            if not c.feasible():
                raise PathEnd("infeasible")

    def _bad(self, p):
        """condition mentions constants created inside the body"""
        if isinstance(p["cond"], bool):
            return False
        return bool(names_in(p["cond"], self.c) & p["fresh"])

    def at(self, b, j, p):
        """body-path condition at iteration j (havocked state replaced by its closed form)"""
        if isinstance(b, bool):
            return b
        info = self.info
        pairs = [(info.J, iterm(j))]
        used = names_in(b, self.c)
        for k, (kind, h) in info.hav.items():
            hs = {"bool": [h], "int": [h], "num": [h], "str": [h]}.get(kind)
            if kind == "cplx":
                hs = list(h)
            if kind == "arr":
                if h[2] in {d.name() for d in decls_in(b)}:
                    raise Unsupported("array state in a loop condition")
                continue
            if not hs or not any(x.decl().name() in used for x in hs):
                continue
            v = self.closed(k, iterm(j), False) if k != "$in" else self.closed_in(iterm(j))
            if kind == "bool":
                pairs.append((h, zb(raw_bool(v))))
            elif kind == "int":
                pairs.append((h, int_term(v)))
            elif kind == "num":
                pairs.append((h, zt(tonum(v).t)))
            elif kind == "str":
                from .values import str_term
                pairs.append((h, str_term(v)))
            elif kind == "cplx":
                pairs.append((h[0], zt(v.re.t)))
                pairs.append((h[1], zt(v.im.t)))
        return z3.substitute(b, *pairs)

    def closed_in(self, k):
        info = self.info
        h = info.hav["$in"][1]
        ds = set()
        for p in info.paths:
            d = z3.simplify(int_term(p["inpos"]) - h)
            if not z3.is_int_value(d):
                raise Unsupported("user input consumed irregularly in a loop")
            ds.add(d.as_long())
        if len(ds) != 1:
            raise Unsupported("user input consumed irregularly in a loop")
        return mkint(int_term(self.in0) + ds.pop() * k)

    def hnames(self):
        out = set()
        for k, (kind, h) in self.info.hav.items():
            if kind in ("bool", "int", "num", "str"):
                out.add(h.decl().name())
            elif kind == "cplx":
                out |= {x.decl().name() for x in h}
            elif kind == "arr":
                out |= {h[2], h[2] + "_im"}
            elif kind == "list":
                out.add(h.n.t.decl().name())
        return out

    def dep(self, ts):
        """do the terms mention havocked state?"""
        hn = self.hnames()
        for t in ts:
            if names_in(t, self.c) & hn:
                return True
            if {d.name() for d in decls_in(t)} & hn:
                return True
        return False

    def fresh_in(self, ts, fr):
        for t in ts:
            if names_in(t, self.c) & fr:
                return True
        return False

    def closed(self, name, k, final):
        """value of `name` after k iterations"""
        info, c = self.info, self.c
        paths = info.paths
        hav = info.hav.get(name)
        v0 = self.loc0.get(name, UNDEF)
        vs = [p["vals"].get(name, UNDEF) for p in paths]
        J = info.J
        # unchanged
        if hav is not None:
            kind, h = hav
            if all(self.unchanged(kind, h, v) for v in vs):
                return v0
        else:
            kind = h = None
        if kind == "same":
            if all(v is h for v in vs):
                return v0
        if kind == "list" and all(isinstance(v, HList) and v is h for v in vs):
            logs = [len(p["vals"][name].log) for p in paths]
            return self.closed_list(name, v0, h, k)
        if kind == "arr":
            r = self.closed_arr(name, v0, h, vs, k, final)
            if r is not None:
                return r
        if kind == "int" and all(isinstance(v, (int, SInt)) for v in vs):
            ds = [z3.simplify(int_term(v) - h) for v in vs]
            if all(z3.is_int_value(d) for d in ds) and len({d.as_long() for d in ds}) == 1:
                return mkint(int_term(v0) + ds[0].as_long() * k)
            conds_ok = not any(self._bad(p) or (not isinstance(p["cond"], bool) and self.dep([p["cond"]])) for p in paths)
            if all(z3.is_int_value(d) for d in ds) and conds_ok:
                body = z3.RealVal(0)
                for p, d in zip(paths, ds):
                    body = z3.If(zb(p["cond"]), z3.ToReal(d), body)
                s = sum_atom(k, body, J)
                r = z3.Int(c.fresh("cnt"))
                c.add(z3.ToReal(r) == zt(tonum(v0).t) + s)
                return SInt(r)
        if kind in ("num", "cplx") and all(tonum(v) is not None or isinstance(v, (SComplex, complex)) for v in vs if v is not UNDEF) \
                and not any(v is UNDEF for v in vs):
            r = self.closed_acc(v0, kind, h, vs, paths, k)
            if r is not None:
                return r
        if kind == "bool":
            r = self.closed_flag(v0, h, vs, paths, k)
            if r is not None:
                return r
        # temporary: assigned in every iteration from data independent of the state
        r = self.closed_temp(name, v0, vs, paths, k, final)
        if r is not None:
            return r
        return self.closed_last(name, v0, kind, h, vs, paths, k)

    def unchanged(self, kind, h, v):
        if kind == "bool":
            return isinstance(v, SBool) and not isinstance(v.b, bool) and v.b.eq(h)
        if kind == "int":
            return isinstance(v, SInt) and v.t.eq(h)
        if kind == "num":
            return isinstance(v, Num) and not isc(v.t) and v.t.eq(h) and v.plain()
        if kind == "str":
            return isinstance(v, SStr) and v.t.eq(h)
        if kind == "cplx":
            return isinstance(v, SComplex) and not isc(v.re.t) and v.re.t.eq(h[0]) and not isc(v.im.t) and v.im.t.eq(h[1])
        if kind == "none":
            return v is None
        if kind == "same":
            return v is h
        if kind == "list":
            return v is h and not h.log
        if kind == "arr":
            if not isinstance(v, tuple):
                return False
            arr, f = v[0], v[1]
            if arr is not self.info.obj.get(self._nm(h)):
                return False
            ix = IDX[:len(v[2])]
            a = f(*ix)
            b = self._hval(h, ix)
            return same_val(a, b)
        return False

    def _nm(self, h):
        for k, (kind, p) in self.info.hav.items():
            if kind == "arr" and p is h:
                return k

    def _hval(self, h, ix):
        v, f0, nm, fr, fi, dt = h
        ii = [iterm(i) for i in ix] or [z3.IntVal(0)]
        if dt == "c":
            return SComplex(Num(fr(*ii)), Num(fi(*ii)), True)
        if dt == "b":
            return mkbool(fr(*ii) > 0, True)
        return Num(fr(*ii), npy=True)

    def closed_acc(self, v0, kind, h, vs, paths, k):
        """x' = x + g(J)"""
        c, J = self.c, self.info.J
        if any(self._bad(p) for p in paths):
            return None
        hs = [h] if kind == "num" else list(h)

        def comps(v):
            if kind == "num":
                n = tonum(v)
                return None if n is None or not n.plain() else [n.t]
            from .values import tocomplex
            z = tocomplex(v)
            return None if not (z.re.plain() and z.im.plain()) else [z.re.t, z.im.t]
        gs = []
        for v in vs:
            cs = comps(v)
            if cs is None:
                return None
            row = []
            for x, hh in zip(cs, hs):
                g = z3.simplify(zt(x) - hh)
                if self.dep([g]):
                    g = z3.simplify(zt(x) - hh, som=True)
                if self.dep([g]):
                    return None
                row.append(g)
            gs.append(row)
        conds = [zb(p["cond"]) for p in paths]
        if len(paths) > 1 and self.dep([x for x in conds]):
            return None
        for p, row in zip(paths, gs):
            if self.fresh_in(row, p["fresh"]):
                return None
        out = []
        base = comps(v0)
        if base is None:
            return None
        for q in range(len(hs)):
            body = gs[-1][q]
            for p, row in list(zip(conds, gs))[:-1][::-1]:
                body = z3.If(p, row[q], body)
            out.append(t_add(base[q], sum_atom(k, body, J)))
        npy = any(getattr(v, "npy", False) for v in vs)
        if kind == "num":
            return Num(out[0], npy=npy)
        return SComplex(Num(out[0]), Num(out[1]), npy)

    def closed_arr(self, name, v0, h, vs, k, final):
        c, info = self.c, self.info
        J = info.J
        arr0, f0, nm, fr, fi, dt = h
        if not all(isinstance(v, tuple) for v in vs):
            return None
        if any(self._bad(p) for p in info.paths):
            return None
        obj = info.obj[name]
        inplace = all(v[0] is obj for v in vs)
        base = self.loc0[name]
        base = base if isinstance(base, SArr) else None
        basef = base.f if base is not None else (lambda *ix, b=self.loc0[name]: b)
        shape = vs[0][2]
        nd = len(shape)
        ix = IDX[:nd]
        # indexed store  a[J] = e(J)
        if all(len(v[4]) == 1 for v in vs) and inplace and nd == 1:
            ok = True
            for v in vs:
                (wi,), val = v[4][0]
                d = z3.simplify(iterm(wi) - J)
                if not z3.is_int_value(d):
                    ok = False
                    break
            if ok and len(vs) == 1:
                off = d.as_long()
                val = vs[0][4][0][1]
                ts = terms_of(val)
                if not self.dep(ts) and not self.fresh_in(ts, info.paths[0]["fresh"]):
                    kt = k

                    def g(i):
                        v = subst(val, [(J, z3.simplify(iterm(i) - off))])
                        cnd = z3.simplify(z3.And(iterm(i) >= off, iterm(i) < kt + off))
                        if z3.is_true(cnd) or c.implied(cnd):
                            return v
                        return ite(cnd, v, basef(i))
                    return self._setarr(base, inplace, shape, dt, g, final)
            return None
        if any(v[4] for v in vs):
            return None
        # elementwise accumulation
        rows = []
        for v in vs:
            e = v[1](*ix)
            hv = self._hval(h, ix)
            if dt == "c":
                from .values import tocomplex
                e = tocomplex(e)
                if not (e.re.plain() and e.im.plain()):
                    return None
                g = [z3.simplify(zt(e.re.t) - hv.re.t), z3.simplify(zt(e.im.t) - hv.im.t)]
            elif dt in "fi":
                e = tonum(e)
                if not e.plain():
                    return None
                g = [z3.simplify(zt(e.t) - hv.t)]
            else:
                return None
            if self.dep(g):
                g = [z3.simplify(x, som=True) for x in g]
            if self.dep(g):
                return None
            rows.append(g)
        conds = [zb(p["cond"]) for p in info.paths]
        if len(conds) > 1 and self.dep(conds):
            return None
        for p, g in zip(info.paths, rows):
            if self.fresh_in(g, p["fresh"]):
                return None
        bodies = []
        for q in range(len(rows[0])):
            b = rows[-1][q]
            for cd, g in list(zip(conds, rows))[:-1][::-1]:
                b = z3.If(cd, g[q], b)
            bodies.append(b)

        def g(*i):
            pr = [(I, iterm(x)) for I, x in zip(ix, i)]
            ss = [sum_atom(k, z3.substitute(b, *pr) if pr else b, J) for b in bodies]
            b0 = basef(*i)
            if dt == "c":
                return b0 + SComplex(Num(ss[0]), Num(ss[1]), True)
            return b0 + Num(ss[0], npy=True)
        return self._setarr(base, inplace, shape, dt, g, final)

    def _setarr(self, base, inplace, shape, dt, g, final):
        if inplace and base is not None and base.base is None and base.dt == dt:
            if final or self.phase == 2:
                base._f = g
                return base
            return SArr(shape, dt, g)
        return SArr(shape, dt, g)

    def closed_flag(self, v0, h, vs, paths, k):
        """x' = K under c(J), else unchanged"""
        if any(self._bad(p) for p in paths):
            return None
        hn = h.decl().name()
        setc, K = [], None
        for p, v in zip(paths, vs):
            if isinstance(v, SBool) and not isinstance(v.b, bool) and v.b.eq(h):
                continue
            if isinstance(v, SBool):
                v = v.b
            if not isinstance(v, bool):
                if isinstance(v, z3.BoolRef) and z3.is_or(v) and len(v.children()) == 2 and v.arg(0).eq(h) and not self.dep([v.arg(1)]):
                    if K not in (None, True):
                        return None
                    K = True
                    setc.append(b_and(p["cond"], v.arg(1)))
                    continue
                if isinstance(v, z3.BoolRef) and z3.is_and(v) and len(v.children()) == 2 and v.arg(0).eq(h) and not self.dep([v.arg(1)]):
                    if K not in (None, False):
                        return None
                    K = False
                    setc.append(b_and(p["cond"], z3.Not(v.arg(1))))
                    continue
                return None
            if K is not None and v != K:
                return None
            K = v
            setc.append(p["cond"])
        cond = b_or(*setc)
        if not isinstance(cond, bool):
            # drop conjuncts that mention the state (loop test): they only restrict when it is set
            if self.dep([cond]):
                cond = b_or(*[b_and(*[x for x in flat(c) if not self.dep([x])]) for c in setc])
                rest = [x for c in setc for x in flat(c) if self.dep([x])]
                if not all(only_not(x, h, K) for x in rest):
                    return None
        J = self.info.J
        e = exists_bool(SInt(k) if not z3.is_int_value(k) else k.as_long(),
                        lambda j: cond if isinstance(cond, bool) else z3.substitute(cond, (J, iterm(j))))
        b0 = raw_bool(v0)
        return mkbool(b_ite(e, K, b0))

    def closed_temp(self, name, v0, vs, paths, k, final):
        c, J = self.c, self.info.J
        if any(v is UNDEF for v in vs) or any(self._bad(p) for p in paths):
            return None
        if not all(simple(v) for v in vs):
            return None
        for p, v in zip(paths, vs):
            ts = terms_of(v)
            if self.dep(ts) or self.fresh_in(ts, p["fresh"]):
                return None
        conds = []
        for p in paths:
            cd = b_and(*[x for x in flat(p["cond"]) if not self.dep([x])])
            if len(paths) > 1 and any(self.dep([x]) for x in flat(p["cond"])):
                rest = {str(x) for x in flat(p["cond"]) if self.dep([x])}
                other = [{str(x) for x in flat(q["cond"]) if self.dep([x])} for q in paths]
                if any(o != rest for o in other):
                    return None
            conds.append(cd)
        val = vs[-1]
        try:
            for cd, v in list(zip(conds, vs))[:-1][::-1]:
                val = ite(zb(cd), v, val)
        except Unsupported:
            return None
        last = subst(val, [(J, z3.simplify(k - 1))])
        if c.implied(k >= 1):
            return last
        if v0 is UNDEF or not compatible(v0, last):
            if c.branch(k >= 1):
                return last
            return v0
        if not final:
            return ite(z3.simplify(k >= 1), last, v0)
        return ite(z3.simplify(k >= 1), last, v0)

    def closed_list(self, name, v0, h, k):
        """append-only list: exactly one element per iteration"""
        c, info = self.c, self.info
        J = info.J
        logs = [p.get("logs", {}).get(name) for p in info.paths]
        # logs were recorded on the HList objects of each path
        if len(info.paths) == 1 and len(h.log) == 1:
            x = h.log[0]
            xs = elem_fn(x, self, info.paths[0])
            if xs is None:
                raise Unsupported("list built in a symbolic loop")
            n0 = len(v0) if isinstance(v0, list) else v0.n
            if isinstance(n0, int) and n0 == 0:
                return SList(mkint(k), lambda j: xs(j))
            from .arrays import concat_lists
            return concat_lists(v0, SList(mkint(k), lambda j: xs(j)))
        if len(info.paths) == 1 and not h.log:
            return v0
        raise Unsupported("list built conditionally in a symbolic loop")

    def closed_last(self, name, v0, kind, h, vs, paths, k):
        """no closed form: an arbitrary value (sound, imprecise)"""
        c = self.c
        if kind in ("num", "int", "bool", "cplx") and all(v is not UNDEF for v in vs):
            c.imprecise = True
            if kind == "bool":
                return SBool(z3.Bool(c.fresh("any")))
            if kind == "int":
                return SInt(z3.Int(c.fresh("any")))
            if kind == "num":
                return Num(z3.Real(c.fresh("any")), npy=True)
            return SComplex(Num(z3.Real(c.fresh("any"))), Num(z3.Real(c.fresh("any"))), True)
        if kind == "str":
            c.imprecise = True
            return SStr(z3.String(c.fresh("any")))
        if kind is None:
            # a name first bound inside the loop: unusable afterwards
            return Poison(name)
        raise Unsupported("loop state %s has no closed form" % name)


class Poison(Proxy):
    __slots__ = ("nm",)

    def __init__(self, nm):
        self.nm = nm

    def __getattribute__(self, k):
        if k in ("__class__", "nm"):
            return object.__getattribute__(self, k)
        raise Unsupported("use of a loop temporary after the loop")

    def __bool__(self):
        raise Unsupported("use of a loop temporary after the loop")


def simple(v):
    return isinstance(v, (Num, SComplex, SInt, SBool, SStr, int, float, bool, str, complex)) or \
        (isinstance(v, (list, tuple)) and all(simple(x) for x in v))


def compatible(a, b):
    num = (Num, SInt, int, float)
    return (isinstance(a, num) and isinstance(b, num)) or (isinstance(a, (str, SStr)) and isinstance(b, (str, SStr))) or \
        (isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)))


def elem_fn(x, loop, path):
    """value appended at iteration J -> function of the iteration"""
    J = loop.info.J
    if isinstance(x, HList):
        xs = [elem_fn(y, loop, path) for y in x.log]
        return None
    if isinstance(x, SArr):
        f, shape, dt = x.f, x.shape_, x.dt
        if len(shape) != 1:
            return None
        I = IDX[0]
        e = f(I)
        ts = terms_of(e)
        if loop.dep(ts) or loop.fresh_in(ts, path["fresh"]):
            return None
        return lambda j: SArr(shape, dt, lambda i: subst(f(i), [(J, iterm(j))]))
    if isinstance(x, (list, tuple)):
        ts = terms_of(x)
        if not simple(x) or loop.dep(ts) or loop.fresh_in(ts, path["fresh"]):
            return None
        return lambda j: subst(x, [(J, iterm(j))])
    if simple(x):
        ts = terms_of(x)
        if loop.dep(ts) or loop.fresh_in(ts, path["fresh"]):
            return None
        return lambda j: subst(x, [(J, iterm(j))])
    return None


def flat(c):
    if isinstance(c, bool):
        return [] if c else [z3.BoolVal(False)]
    if z3.is_and(c):
        return [y for x in c.children() for y in flat(x)]
    return [c]


def only_not(x, h, K):
    """x is (equivalent to) `the flag is not yet K`"""
    if K is True:
        return z3.is_not(x) and x.arg(0).eq(h)
    return x.eq(h)


def decls_in(t):
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
            out.add(x.decl())
        st.extend(x.children())
    return out


def same_val(a, b):
    if isinstance(a, SComplex) and isinstance(b, SComplex):
        return same_val(a.re, b.re) and same_val(a.im, b.im)
    if isinstance(a, Num) and isinstance(b, Num):
        if isc(a.t) or isc(b.t):
            return isc(a.t) and isc(b.t) and a.t == b.t
        return a.plain() and b.plain() and a.t.eq(b.t)
    if isinstance(a, SBool) and isinstance(b, SBool):
        return not isinstance(a.b, bool) and not isinstance(b.b, bool) and a.b.eq(b.b)
    return False
