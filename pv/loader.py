"""Reads the package source from /repo on every run, rewrites the constructs that need symbolic
treatment (see transform()), and executes the rewritten modules with shimmed imports and builtins.

What the rewriting changes: float literals denote their decimal value; `a / b`, `a % b`, `a ** b`
on two plain ints go through the engine; `in`, `is True/False`, subscripts, attribute stores and
loops call the engine; nothing is dropped.
"""
import ast
import os
import sys
import types
from fractions import Fraction
import z3
from . import core, shims
from .core import cur, Unsupported, PathEnd, Restart, Sig, is_true, is_false, b_or, b_and, b_not, zb
from .values import Num, SComplex, SBool, SInt, SStr, Proxy, mkbool, mkint, int_term, raw_bool, tonum, ite
from .arrays import SArr, SList, MSel, exists_bool, iterm
from .shims import SymSeq, symiter, note
from . import loops

REPO = os.environ.get("PV_REPO", "/repo")
PKG = "dispersion"

MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "add", "discard",
            "sort", "reverse", "fill", "popitem", "resize", "put", "itemset"}


def names_stored(nodes):
    out = []

    def add(n):
        if n not in out and not n.startswith("_pv_rt"):
            out.append(n)

    def base(n):
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            if isinstance(n, ast.Attribute):
                return None
            n = n.value
        return n.id if isinstance(n, ast.Name) else None

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                add(n.id)

        def visit_Subscript(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                b = base(n)
                if b:
                    add(b)
            self.generic_visit(n)

        def visit_Call(self, n):
            if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                b = base(n.func.value)
                if b:
                    add(b)
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            b = base(n.target)
            if b:
                add(b)
            self.generic_visit(n)

        def visit_FunctionDef(self, n):
            add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name:
                add(n.name)
            self.generic_visit(n)
    v = V()
    for n in nodes:
        v.visit(n)
    return out


def call(fn, *args):
    return ast.Call(func=ast.Attribute(value=ast.Name(id="_pv_rt", ctx=ast.Load()), attr=fn, ctx=ast.Load()),
                    args=list(args), keywords=[])


def load(n):
    return ast.Name(id=n, ctx=ast.Load())


def store(n):
    return ast.Name(id=n, ctx=ast.Store())


def const(v):
    return ast.Constant(value=v)


def meth(obj, m, *args):
    return ast.Call(func=ast.Attribute(value=load(obj), attr=m, ctx=ast.Load()), args=list(args), keywords=[])


def locs():
    return ast.Call(func=load("locals"), args=[], keywords=[])


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.k = 0
        self.loopstack = []      # names of enclosing symbolic loop objects (per function)
        self.inclass = False

    def uid(self):
        self.k += 1
        return self.k

    # ---- scopes
    def visit_FunctionDef(self, n):
        sv, self.loopstack = self.loopstack, []
        ic, self.inclass = self.inclass, False
        n.args = self.visit(n.args)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.body = self.block(n.body)
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs:
            a.annotation = None
        self.loopstack, self.inclass = sv, ic
        return n

    def visit_AsyncFunctionDef(self, n):
        raise Unsupported("async function")

    def visit_Lambda(self, n):
        sv, self.loopstack = self.loopstack, []
        self.generic_visit(n)
        self.loopstack = sv
        return n

    def visit_ClassDef(self, n):
        ic, self.inclass = self.inclass, True
        n.bases = [self.visit(b) for b in n.bases]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.body = self.block(n.body)
        self.inclass = ic
        return n

    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out or [ast.Pass()]

    # ---- expressions
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(call("flt", const(repr(n.value))), n)
        return n

    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
                if v.conversion == -1 and v.format_spec is None:
                    pass
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        f = {ast.Div: "div", ast.Mod: "mod", ast.Pow: "pow_", ast.Add: "add", ast.FloorDiv: "fdiv", ast.Mult: "mul"}.get(type(n.op))
        if f is None:
            return n
        return ast.copy_location(call(f, n.left, n.right), n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            op, a, b = n.ops[0], n.left, n.comparators[0]
            if isinstance(op, ast.In):
                return ast.copy_location(call("in_", a, b), n)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(call("notin", a, b), n)
            if isinstance(op, ast.Is):
                return ast.copy_location(call("is_", a, b), n)
            if isinstance(op, ast.IsNot):
                return ast.copy_location(call("isnot", a, b), n)
            if isinstance(op, ast.Eq):
                return ast.copy_location(call("eq", a, b), n)
            if isinstance(op, ast.NotEq):
                return ast.copy_location(call("ne", a, b), n)
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(call("not_", n.operand), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(call("getitem", n.value, self.key(n.slice)), n)
        return n

    def key(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(func=load("slice"), args=[s.lower or const(None), s.upper or const(None), s.step or const(None)],
                            keywords=[])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self.key(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Name) and n.func.value.id == "_pv_rt"):
            # method call: engine sees receiver and name (mutation tracking, strings with tokens)
            if isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super":
                return n
            return ast.copy_location(
                ast.Call(func=call("meth", n.func.value, const(n.func.attr)), args=n.args, keywords=n.keywords), n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(call("note", n), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return ast.copy_location(call("note", n), n)

    def comp(self, n, kind):
        if self.inclass:
            raise Unsupported("comprehension at class level")
        g = n.generators
        self.generic_visit(n)
        n.generators[0].iter = ast.Call(func=load("_pv_ci"), args=[n.generators[0].iter], keywords=[])
        for x in n.generators[1:]:
            x.iter = ast.Call(func=load("_pv_cj"), args=[x.iter], keywords=[])
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg("_pv_ci"), ast.arg("_pv_cj")], kwonlyargs=[],
                                            kw_defaults=[], defaults=[]), body=n)
        flags = const((kind, len(g), any(x.ifs for x in g)))
        return ast.copy_location(call("comp", flags, lam), n)

    def visit_ListComp(self, n):
        return self.comp(n, "list")

    def visit_SetComp(self, n):
        return self.comp(n, "set")

    def visit_DictComp(self, n):
        return self.comp(n, "dict")

    def visit_GeneratorExp(self, n):
        m = ast.copy_location(ast.ListComp(elt=n.elt, generators=n.generators), n)
        return self.comp(m, "gen")

    # ---- statements
    def visit_Assign(self, n):
        n.value = self.visit(n.value)
        return self.assign(n.targets, n.value, n)

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.copy_location(ast.Pass(), n)
        return self.assign([n.target], self.visit(n.value), n)

    def assign(self, targets, value, n):
        if all(isinstance(t, ast.Name) for t in targets):
            return ast.copy_location(ast.Assign(targets=targets, value=value), n)
        if len(targets) == 1 and isinstance(targets[0], (ast.Attribute, ast.Subscript)):
            return [ast.copy_location(s, n) for s in self.store_to(targets[0], value)]
        u = "_pv_t%d" % self.uid()
        out = [ast.Assign(targets=[store(u)], value=value)]
        for t in targets:
            out.extend(self.unpack(t, load(u)))
        return [ast.copy_location(s, n) for s in out]

    def unpack(self, t, val):
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                return [ast.Assign(targets=[t], value=val)]
            if all(isinstance(e, ast.Name) for e in t.elts):
                return [ast.Assign(targets=[t], value=call("unpack", val, const(len(t.elts))))]
            us = ["_pv_t%d" % self.uid() for _ in t.elts]
            out = [ast.Assign(targets=[ast.Tuple(elts=[store(u) for u in us], ctx=ast.Store())],
                              value=call("unpack", val, const(len(t.elts))))]
            for e, u in zip(t.elts, us):
                out.extend(self.unpack(e, load(u)))
            return out
        return self.store_to(t, val)

    def store_to(self, t, val):
        if isinstance(t, ast.Name):
            return [ast.Assign(targets=[t], value=val)]
        if isinstance(t, ast.Attribute):
            return [ast.Expr(value=call("setattr", self.visit(t.value), const(t.attr), val))]
        if isinstance(t, ast.Subscript):
            return [ast.Expr(value=call("setitem", self.visit(t.value), self.key(self.visit(t.slice)), val))]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, val)
        return [ast.Assign(targets=[t], value=val)]

    def visit_AugAssign(self, n):
        t = n.target
        val = self.visit(n.value)
        op = const(type(n.op).__name__)
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign(targets=[store(t.id)], value=call("iop", op, load(t.id), val)), n)
        u = "_pv_t%d" % self.uid()
        if isinstance(t, ast.Attribute):
            out = [ast.Assign(targets=[store(u)], value=self.visit(t.value)),
                   ast.Expr(value=call("setattr", load(u), const(t.attr),
                                       call("iop", op, ast.Attribute(value=load(u), attr=t.attr, ctx=ast.Load()), val)))]
        else:
            w = "_pv_t%d" % self.uid()
            out = [ast.Assign(targets=[store(u)], value=self.visit(t.value)),
                   ast.Assign(targets=[store(w)], value=self.key(self.visit(t.slice))),
                   ast.Expr(value=call("setitem", load(u), load(w),
                                       call("iop", op, call("getitem", load(u), load(w)), val)))]
        return [ast.copy_location(s, n) for s in out]

    def visit_Delete(self, n):
        out = []
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(value=call("delitem", self.visit(t.value), self.key(self.visit(t.slice)))))
            else:
                out.append(ast.Delete(targets=[t]))
        return [ast.copy_location(s, n) for s in out]

    def visit_Return(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        if not self.loopstack:
            return n
        u = "_pv_r%d" % self.uid()
        out = [ast.Assign(targets=[store(u)], value=n.value or const(None))]
        for L, sym in self.loopstack[::-1]:
            if sym:
                out.append(ast.Expr(value=meth(L, "leave")))
        out.append(ast.Return(value=load(u)))
        return [ast.copy_location(s, n) for s in out]

    def visit_Break(self, n):
        if self.loopstack and self.loopstack[-1][1]:
            L = self.loopstack[-1][0]
            return [ast.copy_location(ast.Expr(value=meth(L, "brk")), n), n]
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = load("Exception")
        return n

    def visit_Try(self, n):
        n.body = self.block(n.body)
        n.handlers = [self.visit(h) for h in n.handlers]
        n.orelse = self.block(n.orelse) if n.orelse else []
        n.finalbody = self.block(n.finalbody) if n.finalbody else []
        return n

    def visit_If(self, n):
        n.test = self.visit(n.test)
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse) if n.orelse else []
        return n

    def visit_With(self, n):
        for i in n.items:
            i.context_expr = self.visit(i.context_expr)
        n.body = self.block(n.body)
        return n

    def visit_Assert(self, n):
        n.test = self.visit(n.test)
        return n

    def rebind(self, L, names):
        out = []
        for a in names:
            out.append(ast.If(test=meth(L, "has", const(a)),
                              body=[ast.Assign(targets=[store(a)], value=meth(L, "get", const(a)))], orelse=[]))
        return out

    def target_names(self, t):
        return [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]

    def visit_For(self, n):
        import copy
        if isinstance(n.target, (ast.Attribute, ast.Subscript)):
            raise Unsupported("for target")
        k = self.uid()
        it, L = "_pv_it%d" % k, "_pv_L%d" % k
        lid = "%s:%d:%d" % (self.mod, n.lineno, n.col_offset)
        src_iter = self.visit(n.iter)
        names = names_stored([n.target] + n.body)
        body0, else0 = copy.deepcopy(n.body), copy.deepcopy(n.orelse)
        # symbolic version
        self.loopstack.append((L, True))
        sbody = self.block(copy.deepcopy(body0))
        self.loopstack.pop()
        selse = self.block(copy.deepcopy(else0)) if else0 else []
        inner = ast.For(target=copy.deepcopy(n.target), iter=meth(L, "one"), body=sbody, orelse=[])
        guarded = ast.Try(body=[inner], handlers=[ast.ExceptHandler(
            type=load("Exception"), name=None, body=[ast.Expr(value=meth(L, "leave")), ast.Raise()])], orelse=[], finalbody=[])
        sym = [ast.Assign(targets=[store(L)], value=call("loop", load(it), const(lid), const(tuple(names)), locs()))]
        sym += self.rebind(L, names)
        sym.append(ast.If(test=ast.Compare(left=ast.Attribute(value=load(L), attr="phase", ctx=ast.Load()), ops=[ast.NotEq()],
                                           comparators=[const(1)]),
                          body=[guarded, ast.Expr(value=meth(L, "end", locs()))], orelse=selse))
        # native version
        self.loopstack.append((L, False))
        nbody = self.block(copy.deepcopy(body0))
        self.loopstack.pop()
        nelse = self.block(copy.deepcopy(else0)) if else0 else []
        nat = [ast.For(target=copy.deepcopy(n.target), iter=load(it), body=nbody, orelse=nelse)]
        out = [ast.Assign(targets=[store(it)], value=call("iter", src_iter)),
               ast.If(test=call("issym", load(it)), body=sym, orelse=nat)]
        return [ast.copy_location(s, n) for s in out]

    def visit_While(self, n):
        import copy
        k = self.uid()
        W, L = "_pv_W%d" % k, "_pv_L%d" % k
        lid = "%s:%d:%d" % (self.mod, n.lineno, n.col_offset)
        names = names_stored(n.body + [n.test])
        body0, else0, test0 = copy.deepcopy(n.body), copy.deepcopy(n.orelse), copy.deepcopy(n.test)
        self.loopstack.append((L, True))
        sbody = self.block(copy.deepcopy(body0))
        self.loopstack.pop()
        selse = self.block(copy.deepcopy(else0)) if else0 else []
        stop1 = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=self.visit(copy.deepcopy(test0))),
                       body=[ast.Expr(value=meth(L, "stop"))], orelse=[])
        inner = ast.For(target=store("_pv_x"), iter=meth(L, "one"), body=[stop1] + sbody, orelse=[])
        guarded = ast.Try(body=[inner], handlers=[ast.ExceptHandler(
            type=load("Exception"), name=None, body=[ast.Expr(value=meth(L, "leave")), ast.Raise()])], orelse=[], finalbody=[])
        sym = [ast.Assign(targets=[store(L)], value=meth(W, "loop", const(tuple(names)), locs()))]
        sym += self.rebind(L, names)
        sym.append(ast.If(test=ast.Compare(left=ast.Attribute(value=load(L), attr="phase", ctx=ast.Load()), ops=[ast.NotEq()],
                                           comparators=[const(1)]),
                          body=[guarded,
                                ast.If(test=meth(L, "tested"), body=[
                                    ast.If(test=self.visit(copy.deepcopy(test0)), body=[ast.Expr(value=meth(L, "again"))],
                                           orelse=[ast.Expr(value=meth(L, "over"))])], orelse=[]),
                                ast.Expr(value=meth(L, "end", locs()))] + (
                                    [ast.If(test=meth(L, "tested"), body=copy.deepcopy(selse), orelse=[])] if selse else []),
                          orelse=[ast.If(test=self.visit(copy.deepcopy(test0)), body=[ast.Expr(value=meth(L, "stop"))], orelse=[])] + selse))
        self.loopstack.append((L, False))
        nbody = self.block(copy.deepcopy(body0))
        self.loopstack.pop()
        nelse = self.block(copy.deepcopy(else0)) if else0 else []
        nat = [ast.While(test=self.visit(copy.deepcopy(test0)), body=[ast.Expr(value=meth(W, "tick"))] + nbody, orelse=nelse)]
        out = [ast.Assign(targets=[store(W)], value=call("wloop", const(lid))),
               ast.If(test=meth(W, "issym"), body=sym, orelse=nat)]
        return [ast.copy_location(s, n) for s in out]

    def visit_Yield(self, n):
        self.generic_visit(n)
        return n

    def visit_Global(self, n):
        return n

    def visit_Match(self, n):
        return self.generic_visit(n)


# ---------------------------------------------------------------- runtime

class While:
    def __init__(self, lid):
        self.c = cur()
        self.lid = lid
        self.entry = tuple(self.c.trace)
        self.n = 0

    def issym(self):
        return (self.entry, self.lid) in self.c.ex.shared.setdefault("symwhile", set())

    def loop(self, names, loc):
        return loops.Loop(None, None, self.lid, names, loc, kind="while")

    def tick(self):
        c = self.c
        self.n += 1
        if self.n >= 2 and len(c.trace) > len(self.entry):
            if c.ex.mode == "bnd":
                if self.n > 4:
                    c.ex.bounded.append("while loop %s cut after 4 iterations" % self.lid)
                    raise PathEnd("bounded while")
                return
            c.ex.shared.setdefault("symwhile", set()).add((self.entry, self.lid))
            raise Restart(self.entry)
        if self.n > 5000:
            raise Unsupported("loop does not end")


class RT:
    """engine entry points called by rewritten code"""
    note = staticmethod(note)

    @staticmethod
    def flt(s):
        v = float(s)
        if v != v or v in (float("inf"), float("-inf")):
            return tonum(v)
        return Num(Fraction(s))

    @staticmethod
    def div(a, b):
        if type(a) is int and type(b) is int:
            if b == 0:
                raise ZeroDivisionError("division by zero")
            return Num(Fraction(a, b))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return tonum(a) / tonum(b)
        return a / b

    @staticmethod
    def fdiv(a, b):
        return a // b

    @staticmethod
    def add(a, b):
        if isinstance(a, str) and isinstance(b, SStr):
            return b.__radd__(a)
        return a + b

    @staticmethod
    def mul(a, b):
        return a * b

    @staticmethod
    def pow_(a, b):
        if type(a) is int and type(b) is int and b < 0:
            return Num(Fraction(a)) ** b
        return a ** b

    @staticmethod
    def mod(a, b):
        if isinstance(a, str):
            from . import text
            return text.percent(a, b)
        return a % b

    @staticmethod
    def not_(a):
        return not a

    @staticmethod
    def eq(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and (any(isinstance(x, Proxy) for x in a) or any(isinstance(x, Proxy) for x in b)):
            if len(a) != len(b):
                return False
            return mkbool(b_and(*[raw_bool(x == y) for x, y in zip(a, b)]))
        if isinstance(a, (str, int, float, type(None), bool)) and isinstance(b, (SArr, Proxy)):
            return b == a
        return a == b

    @staticmethod
    def ne(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and (any(isinstance(x, Proxy) for x in a) or any(isinstance(x, Proxy) for x in b)):
            r = RT.eq(a, b)
            return mkbool(b_not(raw_bool(r)))
        if isinstance(a, (str, int, float, type(None), bool)) and isinstance(b, (SArr, Proxy)):
            return b != a
        return a != b

    @staticmethod
    def in_(a, b):
        if hasattr(b, "_pv_contains"):
            return b._pv_contains(a)
        if isinstance(b, (set, frozenset, dict, list, tuple)) or isinstance(b, (type({}.keys()), type({}.values()))):
            if isinstance(a, (SStr, SInt, Num)) or any(isinstance(x, Proxy) for x in b):
                if isinstance(a, Num) and a.const() and isinstance(b, (dict, set, frozenset)):
                    return a in b
                return mkbool(b_or(*[raw_bool(RT.eq(x, a)) for x in b]))
            if isinstance(a, Proxy):
                raise Unsupported("in")
            return a in b
        if isinstance(b, (SList, SymSeq)):
            s = symiter(b)
            if isinstance(s, SymSeq):
                return mkbool(exists_bool(s.n, lambda i: raw_bool(RT.eq(s.item(i), a))))
            return mkbool(b_or(*[raw_bool(RT.eq(x, a)) for x in s]))
        if isinstance(b, SArr):
            from .arrays import any_
            r = any_(b == a)
            return mkbool(raw_bool(r))
        if isinstance(b, range) and isinstance(a, SInt):
            if b.step == 1:
                return mkbool(z3.And(a.t >= b.start, a.t < b.stop))
            return mkbool(b_or(*[raw_bool(a == x) for x in b]))
        if isinstance(b, str) and isinstance(a, SStr):
            raise Unsupported("symbolic substring")
        if isinstance(b, SStr):
            if isinstance(a, (str, SStr)):
                from .values import str_term
                return mkbool(z3.Contains(b.t, str_term(a)))
            raise TypeError("'in <string>' requires string as left operand")
        return a in b

    @staticmethod
    def notin(a, b):
        r = RT.in_(a, b)
        return mkbool(b_not(raw_bool(r)))

    @staticmethod
    def is_(a, b):
        if b is True or b is False or a is True or a is False:
            if isinstance(a, bool) and isinstance(b, bool):
                return a is b
            x, y = (a, b) if isinstance(b, bool) else (b, a)
            if isinstance(x, SBool) and not x.npy:
                return mkbool(x.b if y else b_not(x.b))
            return False
        return a is b

    @staticmethod
    def isnot(a, b):
        r = RT.is_(a, b)
        return mkbool(b_not(raw_bool(r)))

    @staticmethod
    def getitem(o, k):
        if isinstance(o, (list, tuple, str)) and not hasattr(o, "_pv_getitem"):
            if isinstance(k, Num) and not (k.npy and k.isint):
                raise TypeError("list indices must be integers or slices, not float")
            if isinstance(k, Num):
                k = shims._int(k)
            if isinstance(k, SInt):
                v = k.conc()
                if v is not None:
                    return o[v]
                c = cur()
                n = len(o)
                for i in range(n):
                    if c.branch(z3.Or(k.t == i, k.t == i - n)):
                        return o[i]
                raise IndexError("list index out of range")
            if isinstance(k, slice) and any(isinstance(x, Proxy) for x in (k.start, k.stop, k.step)):
                def g(x):
                    if isinstance(x, SInt):
                        return x.__index__()
                    if isinstance(x, Num):
                        raise TypeError("slice indices must be integers")
                    return x
                k = slice(g(k.start), g(k.stop), g(k.step))
            return o[k]
        if isinstance(o, dict):
            if isinstance(k, (SStr, SInt)) or (isinstance(k, Num) and not k.const()):
                c = cur()
                for x in list(o):
                    if isinstance(x, str) != isinstance(k, SStr):
                        continue
                    if c.branch(raw_bool(k == x)):
                        return o[x]
                raise KeyError(k)
            return o[k]
        return o[k]

    @staticmethod
    def _write(o):
        c = cur()
        if c is None:
            return
        h = c.hooks.get("heap_write")
        if h is not None and not isinstance(o, (SArr, SList)):
            h(o)

    @staticmethod
    def setitem(o, k, v):
        RT._write(o)
        if isinstance(o, dict) and isinstance(k, SStr):
            c = cur()
            for x in list(o):
                if isinstance(x, str) and c.branch(raw_bool(k == x)):
                    o[x] = v
                    return
            raise Unsupported("dict store with a symbolic key")
        if isinstance(o, list) and isinstance(k, SInt):
            c = cur()
            for i in range(len(o)):
                if c.branch(z3.Or(k.t == i, k.t == i - len(o))):
                    o[i] = v
                    return
            raise IndexError("list assignment index out of range")
        o[k] = v

    @staticmethod
    def delitem(o, k):
        RT._write(o)
        del o[k]

    @staticmethod
    def setattr(o, name, v):
        if isinstance(o, (Num, SInt, SStr, SComplex, SBool)):
            raise AttributeError("can't set attribute")
        RT._write(o)
        setattr(o, name, v)

    @staticmethod
    def meth(o, name):
        if name in MUTATORS and isinstance(o, (list, dict, set)):
            RT._write(o)
        if isinstance(o, str) and name in ("join", "format", "startswith", "endswith", "split", "replace", "strip"):
            from . import text
            r = text.str_method(o, name)
            if r is not None:
                return r
        if isinstance(o, list) and name in ("extend", "index", "count"):
            if name == "extend":
                def ext(x):
                    s = symiter(x)
                    if isinstance(s, SymSeq):
                        raise Unsupported("extend by a symbolic sequence")
                    o.extend(s)
                return ext
        return getattr(o, name)

    @staticmethod
    def iop(op, a, b):
        if isinstance(a, list) and op == "Add":
            s = symiter(b)
            if isinstance(s, SymSeq):
                return loops.concat_lists(a, SList(s.n, s.item)) if hasattr(loops, "concat_lists") else a + b
            RT._write(a)
            a += list(s)
            return a
        if op == "Add":
            a += b
        elif op == "Sub":
            a -= b
        elif op == "Mult":
            a *= b
        elif op == "Div":
            if type(a) is int and type(b) is int:
                return RT.div(a, b)
            a /= b
        elif op == "Pow":
            a **= b
        elif op == "BitAnd":
            a &= b
        elif op == "BitOr":
            a |= b
        elif op == "BitXor":
            a ^= b
        elif op == "Mod":
            return RT.mod(a, b)
        elif op == "FloorDiv":
            a //= b
        else:
            raise Unsupported("augmented " + op)
        return a

    @staticmethod
    def unpack(v, n):
        if isinstance(v, (list, tuple)):
            return v
        s = symiter(v)
        if isinstance(s, SymSeq):
            c = cur()
            if c.branch(int_term(s.n) == n):
                return [s.item(i) for i in range(n)]
            raise ValueError("wrong number of values to unpack")
        return s

    @staticmethod
    def iter(x):
        if isinstance(x, types.GeneratorType):
            return x
        s = symiter(x)
        if isinstance(s, SymSeq):
            c = cur()
            nt = int_term(s.n)
            # small provable bound: fork on the count instead
            if c.implied(nt <= 3) and not c.hooks.get("loop_depth"):
                for k in range(4):
                    if c.branch(nt == k):
                        return [s.item(i) for i in range(k)]
                raise PathEnd("negative count")
            return s
        return s

    @staticmethod
    def issym(x):
        return isinstance(x, SymSeq)

    @staticmethod
    def loop(it, lid, names, loc):
        return loops.Loop(it.n, it.item, lid, names, loc)

    @staticmethod
    def wloop(lid):
        return While(lid)

    @staticmethod
    def comp(flags, fn):
        kind, ngen, ifs = flags
        st = {}

        def ci(x):
            s = symiter(x)
            if not isinstance(s, SymSeq):
                return s
            st["s"] = s
            raise _SymComp()

        def cj(x):
            s = symiter(x)
            if isinstance(s, SymSeq):
                raise Unsupported("nested symbolic comprehension")
            return s
        try:
            r = fn(ci, cj)
        except _SymComp:
            s = st["s"]
            if ifs or ngen > 1 or kind in ("dict", "set"):
                raise Unsupported("comprehension over a symbolic sequence")
            return shims.comp_seq(s, lambda item: fn(lambda x: [item], cj)[0])
        if kind == "gen":
            return iter(r) if isinstance(r, list) else r
        return note(r)


class _SymComp(Exception):
    pass


# ---------------------------------------------------------------- modules

_CODE = {}


def source_files(repo=None):
    root = os.path.join(repo or REPO, "src", PKG)
    out = {}
    for dp, dn, fs in os.walk(root):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, os.path.join(repo or REPO, "src"))[:-3].replace(os.sep, ".")
                ispkg = rel.endswith(".__init__")
                if ispkg:
                    rel = rel[:-9]
                out[rel] = (p, ispkg)
    return out


_FILES = None


def code_for(mod):
    global _FILES
    if _FILES is None:
        _FILES = source_files()
    if mod in _CODE:
        return _CODE[mod]
    if mod not in _FILES:
        return None
    p, ispkg = _FILES[mod]
    src = open(p, encoding="utf-8").read()
    tree = ast.parse(src, p)
    t = T(mod)
    tree.body = t.block(tree.body)
    ast.fix_missing_locations(tree)
    _CODE[mod] = (compile(tree, p, "exec", dont_inherit=True), p, ispkg)
    return _CODE[mod]


class World:
    """one fresh instance of the package under verification"""

    def __init__(self, ctx, extern=None):
        self.ctx = ctx
        self.mods = {}
        from . import externs
        self.ext = externs.build(ctx)
        if extern:
            self.ext.update(extern)
        self.builtins = shims.make_builtins(self._import)

    def _import(self, name, glob=None, loc=None, fromlist=(), level=0):
        if level:
            pkg = glob.get("__package__") or glob["__name__"]
            base = pkg.split(".")
            base = base[:len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        if name == PKG or name.startswith(PKG + "."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and name + "." + f in (_FILES or {}):
                        self.load(name + "." + f)
                return m
            return self.load(PKG)
        if name in self.ext:
            m = self.ext[name]
            if m is None:
                raise ModuleNotFoundError("No module named '%s'" % name)
            if fromlist or "." not in name:
                return m
            return self.ext[name.split(".")[0]]
        top = name.split(".")[0]
        if top in self.ext and self.ext[top] is None:
            raise ModuleNotFoundError("No module named '%s'" % name)
        if top in ("re", "sys", "warnings", "collections", "math", "numbers", "itertools", "functools", "operator", "copy",
                   "typing", "abc", "enum", "string", "contextlib", "__future__", "dataclasses", "types", "textwrap"):
            return __import__(name, None, None, fromlist, 0)
        raise Unsupported("import of " + name)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        cc = code_for(name)
        if cc is None:
            raise ModuleNotFoundError("No module named '%s'" % name)
        code, path, ispkg = cc
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rsplit(".", 1)[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["_pv_rt"] = RT
        self.mods[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if "." in name:
            parent, child = name.rsplit(".", 1)
            setattr(self.mods[parent], child, m)
        return m
