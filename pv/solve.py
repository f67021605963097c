"""Discharging obligations: algebraic normaliser for equalities of rational functions, then SMT."""
import time
from fractions import Fraction
import z3
from . import core
from .core import Obligation, is_true, is_false, zb, b_and, b_not, Stop
from .values import zt

# ------------------------------------------------------------------ polynomials
# poly: dict mono -> Fraction ; mono: tuple of (atom id, exp) sorted by atom id


class Blow(Exception):
    pass


LIMIT = 60000


def p_const(c):
    return {(): c} if c else {}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_neg(a):
    return {m: -c for m, c in a.items()}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = dict(a)
    for x, e in b:
        r[x] = r.get(x, 0) + e
    return tuple(sorted(r.items()))


DEADLINE = [0.0]


def p_mul(a, b):
    if len(a) * len(b) > LIMIT:
        raise Blow()
    if len(a) * len(b) > 400 and DEADLINE[0] and time.time() > DEADLINE[0]:
        raise Blow()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def p_pow(a, k):
    r = p_const(Fraction(1))
    for _ in range(k):
        r = p_mul(r, a)
    return r


def p_key(a):
    return tuple(sorted(a.items()))


def p_scale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


def p_monic(a):
    """(leading coefficient, poly / leading coefficient)"""
    lead = max(a)
    c = a[lead]
    return c, ({m: v / c for m, v in a.items()} if c != 1 else a)


class RF:
    """num / prod(den factors); den: key -> (poly, exp)"""
    __slots__ = ("num", "den")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}


def rf_key(r):
    return p_key(r.num), tuple(sorted((k, e) for k, (p, e) in r.den.items()))


def rf_mul(a, b):
    den = dict(a.den)
    for k, (p, e) in b.den.items():
        den[k] = (p, den[k][1] + e) if k in den else (p, e)
    return cancel(RF(p_mul(a.num, b.num), den))


def cancel(r):
    """cancel denominators that divide the numerator as a monomial or exactly"""
    if not r.den or not r.num:
        return RF(r.num) if not r.num else r
    num, den = r.num, dict(r.den)
    for k in list(den):
        p, e = den[k]
        while e > 0:
            q = p_divexact(num, p)
            if q is None:
                break
            num = q
            e -= 1
        if e:
            den[k] = (p, e)
        else:
            del den[k]
    return RF(num, den)


def p_divexact(a, b):
    """a / b when exact, cheap cases only"""
    if len(b) == 1:
        (mb, cb), = b.items()
        db = dict(mb)
        out = {}
        for m, c in a.items():
            d = dict(m)
            for x, e in db.items():
                if d.get(x, 0) < e:
                    return None
                d[x] -= e
                if not d[x]:
                    del d[x]
            out[tuple(sorted(d.items()))] = c / cb
        return out
    if len(a) < len(b) or len(a) > 400 or len(b) > 20:
        return None
    # multivariate division by leading terms
    rem = dict(a)
    lb = max(b, key=mkey)
    q = {}
    steps = 0
    while rem:
        steps += 1
        if steps > 400:
            return None
        lr = max(rem, key=mkey)
        d = dict(lr)
        for x, e in lb:
            if d.get(x, 0) < e:
                return None
            d[x] -= e
            if not d[x]:
                del d[x]
        m = tuple(sorted(d.items()))
        c = rem[lr] / b[lb]
        q[m] = c
        for n, v in b.items():
            k = m_mul(m, n)
            w = rem.get(k, 0) - c * v
            if w:
                rem[k] = w
            else:
                rem.pop(k, None)
    return q


def mkey(m):
    return (sum(e for _, e in m), m)


def rf_add(a, b):
    if not a.num:
        return b
    if not b.num:
        return a
    den = {}
    fa, fb = p_const(Fraction(1)), p_const(Fraction(1))
    for k in set(a.den) | set(b.den):
        ea = a.den[k][1] if k in a.den else 0
        eb = b.den[k][1] if k in b.den else 0
        p = (a.den.get(k) or b.den.get(k))[0]
        e = max(ea, eb)
        den[k] = (p, e)
        fa = p_mul(fa, p_pow(p, e - ea))
        fb = p_mul(fb, p_pow(p, e - eb))
    return cancel(RF(p_add(p_mul(a.num, fa), p_mul(b.num, fb)), den))


def rf_neg(a):
    return RF(p_neg(a.num), a.den)


def rf_inv(a, split=None):
    if not a.num:
        raise ZeroDivisionError
    num = p_const(Fraction(1))
    for p, e in a.den.values():
        num = p_mul(num, p_pow(p, e))
    c, p = p_monic(a.num)
    if len(p) == 1:
        # monomial: one factor per atom
        (m, _), = p.items()
        den = {}
        for x, e in m:
            q = {((x, 1),): Fraction(1)}
            den[p_key(q)] = (q, e)
        return RF(p_scale(num, 1 / c), den)
    return RF(p_scale(num, 1 / c), {p_key(p): (p, 1)})


class Bail(Exception):
    pass


CMP = {z3.Z3_OP_LE: "<=", z3.Z3_OP_GE: ">=", z3.Z3_OP_LT: "<", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "=="}
BOOLOPS = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES}


def has_real(c):
    st, seen = [c], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.sort() == z3.RealSort():
            return True
        st.extend(x.children())
    return False


def polish(ctx, c):
    """an equivalent condition: comparisons of rational functions become comparisons of polynomials (positive
    denominators and positive common factors removed, signs decided where all atoms are positive; positive:
    ctx.positive), decided conditions are folded"""
    if not z3.is_expr(c):
        return c
    memo = ctx.polished
    r = memo.get(c.get_id())
    if r is not None:
        return r[1]
    # iterative post-order
    stack = [(c, False)]
    while stack:
        t, ready = stack.pop()
        k = t.get_id()
        if k in memo:
            continue
        if not z3.is_app(t) or not t.num_args():
            memo[k] = (t, t)
            continue
        if not ready:
            stack.append((t, True))
            for x in t.children():
                if x.get_id() not in memo:
                    stack.append((x, False))
            continue
        ch = t.children()
        memo[k] = (t, rebuild(ctx, t, ch, [memo[x.get_id()][1] for x in ch]))
    return memo[c.get_id()][1]


def rebuild(ctx, t, ch, new):
    kind = t.decl().kind()
    if kind == z3.Z3_OP_AND or kind == z3.Z3_OP_OR:
        stop = z3.is_false if kind == z3.Z3_OP_AND else z3.is_true
        skip = z3.is_true if kind == z3.Z3_OP_AND else z3.is_false
        out, seen = [], set()
        for x in new:
            if stop(x):
                return z3.BoolVal(kind == z3.Z3_OP_OR)
            if skip(x) or x.get_id() in seen:
                continue
            seen.add(x.get_id())
            out.append(x)
        if not out:
            return z3.BoolVal(kind == z3.Z3_OP_AND)
        if len(out) == 1:
            return out[0]
        return z3.And(*out) if kind == z3.Z3_OP_AND else z3.Or(*out)
    if kind == z3.Z3_OP_NOT:
        x = new[0]
        if z3.is_true(x) or z3.is_false(x):
            return z3.BoolVal(z3.is_false(x))
        if z3.is_not(x):
            return x.arg(0)
        return z3.Not(x)
    if kind == z3.Z3_OP_IMPLIES:
        if z3.is_false(new[0]) or z3.is_true(new[1]):
            return z3.BoolVal(True)
        if z3.is_true(new[0]):
            return new[1]
        return z3.Implies(*new)
    if kind == z3.Z3_OP_ITE:
        if z3.is_true(new[0]):
            return new[1]
        if z3.is_false(new[0]):
            return new[2]
        if new[1].eq(new[2]):
            return new[1]
        return z3.If(*new)
    if any(not a.eq(b) for a, b in zip(ch, new)):
        t = t.decl()(*new) if kind not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) else (
            z3.Sum(*new) if kind == z3.Z3_OP_ADD else z3.Product(*new))
    if kind in CMP and z3.is_app(t) and t.num_args() == 2:
        if t.arg(0).sort() == z3.RealSort():
            return cmp_ite(ctx, t, kind, 0)
        if kind == z3.Z3_OP_EQ and t.arg(0).sort() == z3.BoolSort():
            t = z3.simplify(t)
    return t


def cmp_ite(ctx, t, kind, depth):
    a, b = t.arg(0), t.arg(1)
    if depth < 4:
        for i, x in enumerate((a, b)):
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                f = lambda y: cmp_ite(ctx, mkcmp(kind, *((y, b) if i == 0 else (a, y))), kind, depth + 1)
                p, q = f(x.arg(1)), f(x.arg(2))
                c = x.arg(0)
                if p.eq(q):
                    return p
                if z3.is_true(p):
                    return z3.Or(c, q) if not z3.is_false(q) else c
                if z3.is_false(p):
                    return z3.And(z3.Not(c), q) if not z3.is_true(q) else z3.Not(c)
                if z3.is_true(q):
                    return z3.Or(z3.Not(c), p)
                if z3.is_false(q):
                    return z3.And(c, p)
                return z3.If(c, p, q)
    try:
        return polish_cmp(ctx, t, CMP[kind])
    except (Bail, Blow, ZeroDivisionError, RecursionError):
        return t


def mkcmp(kind, a, b):
    return {"<=": a <= b, ">=": a >= b, "<": a < b, ">": a > b, "==": a == b}[CMP[kind]]


def light(ctx, t, atoms, st):
    if z3.is_rational_value(t):
        return RF(p_const(Fraction(t.numerator_as_long(), t.denominator_as_long())))
    k = t.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL):
        ch = t.children()
        r = light(ctx, ch[0], atoms, st)
        for x in ch[1:]:
            y = light(ctx, x, atoms, st)
            if k == z3.Z3_OP_MUL:
                r = rf_mul(r, y)
                if len(r.num) > 40:
                    raise Bail()
            else:
                r = rf_add(r, y if k == z3.Z3_OP_ADD else rf_neg(y))
                if len(r.num) > 40:
                    raise Bail()
        return r
    if k == z3.Z3_OP_UMINUS:
        return rf_neg(light(ctx, t.arg(0), atoms, st))
    if k == z3.Z3_OP_DIV:
        d = light(ctx, t.arg(1), atoms, st)
        if not d.num:
            raise Bail()
        st.append(1)
        return rf_mul(light(ctx, t.arg(0), atoms, st), rf_inv(d))
    if k == z3.Z3_OP_UNINTERPRETED:
        i = t.get_id()
        if i not in atoms:
            atoms[i] = (t, positive_atom(ctx, t))
        return RF({((i, 1),): Fraction(1)})
    raise Bail()


def positive_atom(ctx, t):
    nm = t.decl().name()
    p = ctx.positive.get(nm)
    if p is None:
        return False
    if p == "col0" and not (z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == 0):
        return False
    if t.num_args() and t.get_id() not in ctx.pos_seen:
        ctx.pos_seen[t.get_id()] = t
        ctx.add_raw(t > 0)
    return True


def polish_cmp(ctx, c, op):
    atoms, st = {}, []
    r = rf_add(light(ctx, c.arg(0), atoms, st), rf_neg(light(ctx, c.arg(1), atoms, st)))
    lin = not st and all(sum(e for _, e in m) <= 1 for m in r.num)
    for p, e in r.den.values():
        for m, k in p.items():
            if k < 0 or any(not atoms[x][1] for x, _ in m):
                raise Bail()
    num = r.num
    if not num:
        return z3.BoolVal(op in ("<=", ">=", "=="))
    if all(atoms[x][1] for m in num for x, e in m):
        if all(k > 0 for k in num.values()):
            return z3.BoolVal(op in (">", ">="))
        if all(k < 0 for k in num.values()):
            return z3.BoolVal(op in ("<", "<="))
    if lin:
        return c
    # common positive factor
    common = None
    for m in num:
        d = {x: e for x, e in m if atoms[x][1]}
        common = d if common is None else {x: min(e, d[x]) for x, e in common.items() if x in d}
    if common:
        num = {tuple((x, e - common.get(x, 0)) for x, e in m if e - common.get(x, 0)): k for m, k in num.items()}
    s = max(abs(k) for k in num.values())
    pos, neg = [], []
    for m, k in sorted(num.items()):
        fs = [atoms[x][0] for x, e in m for _ in range(e)]
        q = z3.RealVal(str(abs(k) / s)) if abs(k) != s or not fs else None
        fs = ([q] if q is not None else []) + fs
        t = fs[0] if len(fs) == 1 else z3.Product(*fs) if len(fs) > 1 else z3.RealVal(1)
        (pos if k > 0 else neg).append(t)
    a = z3.Sum(*pos) if len(pos) > 1 else pos[0] if pos else z3.RealVal(0)
    b = z3.Sum(*neg) if len(neg) > 1 else neg[0] if neg else z3.RealVal(0)
    return {"<=": a <= b, ">=": a >= b, "<": a < b, ">": a > b, "==": a == b}[op]


class Norm:
    """term -> RF over atoms, with per-path registries"""
    syntactic = False

    def __init__(self, ctx):
        self.ctx = ctx
        self.cache = {}
        self.atoms = []            # id -> (kind, payload)
        self.by_key = {}
        self.ufs = {}              # name -> [(atom id, [arg RF])]
        self.sums = []             # (atom id, n term, RF)
        self.keep = []
        self.free = {}             # atom id -> set of constant names inside
        self.rules = {}            # atom id -> RF for atom^2
        self.prod = {}             # (a, b) -> RF for a*b
        self.deadline = time.time() + 8

    def atom(self, key, kind, payload, free):
        i = self.by_key.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append((kind, payload))
            self.by_key[key] = i
            self.free[i] = free
        return i

    def av(self, i):
        return RF({((i, 1),): Fraction(1)})

    def consts(self, t):
        out = set()
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
                s = self.ctx.sums.get(x.decl().name())
                if s is not None:
                    st.append(s[0])
                    st.append(s[1])
            st.extend(x.children())
        return out

    def norm(self, t):
        if isinstance(t, Fraction):
            return RF(p_const(t))
        k = t.get_id()
        r = self.cache.get(k)
        if r is None:
            if time.time() > self.deadline:
                raise Blow()
            r = self.reduce(self._norm(t))
            self.cache[k] = r
            self.keep.append(t)
        return r

    def _norm(self, t):
        if z3.is_rational_value(t):
            return RF(p_const(Fraction(t.numerator_as_long(), t.denominator_as_long())))
        if z3.is_int_value(t):
            return RF(p_const(Fraction(t.as_long())))
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = rf_add(r, self.norm(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = rf_add(r, rf_neg(self.norm(c)))
            return r
        if k == z3.Z3_OP_UMINUS:
            return rf_neg(self.norm(ch[0]))
        if k == z3.Z3_OP_MUL:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self.reduce(rf_mul(r, self.norm(c)))
            return r
        if k == z3.Z3_OP_DIV:
            d = self.norm(ch[1])
            if not d.num:
                return self.opaque(t)
            return rf_mul(self.norm(ch[0]), rf_inv(d))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            e = Fraction(ch[1].numerator_as_long(), ch[1].denominator_as_long())
            if e.denominator == 1 and 0 <= e <= 64:
                b = self.norm(ch[0])
                r = RF(p_const(Fraction(1)))
                for _ in range(int(e)):
                    r = rf_mul(r, b)
                return r
        if k == z3.Z3_OP_TO_REAL:
            a = z3.simplify(ch[0])
            kk = a.decl().kind()
            if z3.is_int_value(a):
                return RF(p_const(Fraction(a.as_long())))
            if kk in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
                subs = [self.norm(z3.ToReal(c)) for c in a.children()]
                r = subs[0]
                if kk == z3.Z3_OP_UMINUS:
                    return rf_neg(r)
                for s in subs[1:]:
                    if kk == z3.Z3_OP_ADD:
                        r = rf_add(r, s)
                    elif kk == z3.Z3_OP_SUB:
                        r = rf_add(r, rf_neg(s))
                    else:
                        r = rf_mul(r, s)
                return r
            return self.opaque(z3.ToReal(a))
        if k == z3.Z3_OP_UNINTERPRETED:
            name = t.decl().name()
            if not ch:
                s = self.ctx.sums.get(name)
                if s is not None:
                    return self.nsum(t, s)
                i = self.atom(("c", name), "const", t, {name})
                return self.av(i)
            return self.ufapp(t, name, ch)
        return self.opaque(t)

    def opaque(self, t):
        t2 = z3.simplify(t)
        i = self.atom(("o", t2.sexpr()), "opaque", t, self.consts(t))
        return self.av(i)

    def ufapp(self, t, name, ch):
        args = []
        for c in ch:
            if c.sort() == z3.RealSort():
                args.append(self.norm(c))
            else:
                args.append(z3.simplify(c))
        lst = self.ufs.setdefault((name, len(ch)), [])
        for i, a2 in lst:
            if all(self.argeq(x, y) for x, y in zip(args, a2)):
                return self.av(i)
        i = self.atom(("u", name, len(lst), t.get_id()), "uf", t, self.consts(t))
        lst.append((i, args))
        if name == "sqrt" and len(args) == 1:
            if self.ctx.implied_l(ch[0] >= 0):
                self.rules[i] = args[0]
        if name in ("csqrt_re", "csqrt_im"):
            # u*u = v*v + x ; u*v = y/2
            other = "csqrt_im" if name == "csqrt_re" else "csqrt_re"
            for j, a2 in self.ufs.get((other, 2), []):
                if all(self.argeq(x, y) for x, y in zip(args, a2)):
                    u, v = (i, j) if name == "csqrt_re" else (j, i)
                    self.rules[u] = rf_add(rf_mul(self.av(v), self.av(v)), args[0])
                    half = RF(p_const(Fraction(1, 2)))
                    self.prod[(min(u, v), max(u, v))] = rf_mul(args[1], half)
        return self.av(i)

    def argeq(self, x, y):
        if isinstance(x, RF) != isinstance(y, RF):
            return False
        if isinstance(x, RF):
            return self.rf_eq(x, y)
        if x.eq(y):
            return True
        if x.sort() == z3.IntSort():
            d = z3.simplify(x - y)
            if z3.is_int_value(d):
                return d.as_long() == 0
            if self.syntactic:
                return False
            memo = self.ctx.__dict__.setdefault("ieq", {})
            k = (x.get_id(), y.get_id())
            got = memo.get(k)
            if got is not None and (got[0] or got[1] == len(self.ctx.pc)):
                return got[0]
            r = self.ctx.implied_l(x == y)
            memo[k] = (r, len(self.ctx.pc), x, y)
            return r
        return False

    def rf_eq(self, a, b):
        try:
            return not self.diff(a, b).num
        except (Blow, ZeroDivisionError):
            return False

    def diff(self, a, b):
        return self.reduce(rf_add(a, rf_neg(b)))

    def reduce(self, r):
        """apply atom^2 rules in the numerator"""
        if not self.rules and not self.prod:
            return r
        for _ in range(40):
            hit = None
            for m in r.num:
                for x, e in m:
                    if e >= 2 and x in self.rules:
                        hit = ("s", x)
                        break
                if hit is None and self.prod:
                    ids = [x for x, _ in m]
                    for (u, v) in self.prod:
                        if u in ids and v in ids:
                            hit = ("p", u, v)
                            break
                if hit:
                    break
            if not hit:
                return r
            out = RF({})
            rest = {}
            groups = {}
            for m, c in r.num.items():
                d = dict(m)
                if hit[0] == "s":
                    k = d.get(hit[1], 0) // 2
                    if k:
                        d[hit[1]] -= 2 * k
                        if not d[hit[1]]:
                            del d[hit[1]]
                else:
                    k = min(d.get(hit[1], 0), d.get(hit[2], 0))
                    for x in hit[1:]:
                        if k:
                            d[x] -= k
                            if not d[x]:
                                del d[x]
                g = groups.setdefault(k, {})
                mm = tuple(sorted(d.items()))
                v = g.get(mm, 0) + c
                if v:
                    g[mm] = v
                else:
                    g.pop(mm, None)
            rule = self.rules[hit[1]] if hit[0] == "s" else self.prod[(hit[1], hit[2])]
            for k, g in groups.items():
                t = RF(g)
                for _k in range(k):
                    t = rf_mul(t, rule)
                out = rf_add(out, t)
            if r.den:
                out = rf_mul(out, RF(p_const(Fraction(1)), r.den))
            r = out
        return r

    def jfree(self, poly, jn):
        for m in poly:
            for x, _ in m:
                if jn in self.free[x]:
                    return False
        return True

    def nsum(self, t, s):
        n, body, J = s
        jn = J.decl().name()
        b = self.norm(body)
        # denominators free of J come out
        outer = {}
        inner = {}
        for k, (p, e) in b.den.items():
            (outer if self.jfree(p, jn) else inner)[k] = (p, e)
        groups = {}
        for m, c in b.num.items():
            mj = tuple((x, e) for x, e in m if jn in self.free[x])
            mo = tuple((x, e) for x, e in m if jn not in self.free[x])
            groups.setdefault(mj, {})[mo] = c
        res = RF({})
        for mj, coef in groups.items():
            if not mj and not inner:
                a = self.norm(z3.ToReal(n)) if not z3.is_int_value(n) else RF(p_const(Fraction(n.as_long())))
                if not self.ctx.implied_l(n >= 0):
                    a = self.opaque(z3.If(n >= 0, z3.ToReal(n), z3.RealVal(0)))
                res = rf_add(res, rf_mul(RF(coef), a))
                continue
            key_rf = RF({mj: Fraction(1)}, inner)
            a = None
            for i, n2, r2 in self.sums:
                if (n2.eq(n) or self.ctx.implied_l(n == n2)) and self.rf_eq(key_rf, r2):
                    a = i
                    break
            if a is None:
                fr = set()
                for x, _ in mj:
                    fr |= self.free[x]
                for p, e in inner.values():
                    for m in p:
                        for x, _ in m:
                            fr |= self.free[x]
                fr |= self.consts(n)
                fr.discard(jn)
                a = self.atom(("sum", len(self.sums)), "sum", None, fr)
                self.sums.append((a, n, key_rf))
            res = rf_add(res, rf_mul(RF(coef), self.av(a)))
        if outer:
            res = rf_mul(res, RF(p_const(Fraction(1)), outer))
        return res


def sum_atoms(t, ctx):
    """sum atoms occurring in t: name -> z3 const"""
    out = {}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            if nm in ctx.sums:
                out[nm] = x
        st.extend(x.children())
    return out


def find_ite(*ts):
    """an innermost-condition If inside the terms (condition without Ifs)"""
    seen = set()
    st = [t for t in ts if not isinstance(t, Fraction)]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            c = x.arg(0)
            inner = find_ite_bool(c)
            return inner if inner is not None else c
        st.extend(x.children())
    return None


def find_ite_bool(c):
    seen = set()
    st = [c]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return x.arg(0)
        st.extend(x.children())
    return None


def all_consts(t):
    out, seen, st = {}, set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.decl().name()] = x
        st.extend(x.children())
    return out


def name_terms(ctx, ts):
    """(terms, back): named quantities, wherever they occur, become constants"""
    if not ctx.named:
        return ts, []
    atoms = {}
    keys, back = {}, []
    for t in ctx.named:
        try:
            r = light(ctx, t, atoms, [])
        except (Bail, Blow, ZeroDivisionError):
            continue
        if not r.num or (not r.den and len(r.num) == 1 and all(sum(e for _, e in m) <= 1 for m in r.num)):
            continue
        k = rf_key(r)
        if k not in keys:
            keys[k] = z3.Real("named!%d" % len(keys))
            back.append((keys[k], t))
    if not keys:
        return ts, []
    hits, seen = {}, set()
    for t in ts:
        st = [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_MUL) or z3.is_app_of(x, z3.Z3_OP_DIV):
                try:
                    r = light(ctx, x, atoms, [])
                    c = keys.get(rf_key(r)) if len(r.num) == 1 else None
                except (Bail, Blow, ZeroDivisionError):
                    c = None
                if c is not None:
                    hits[x.get_id()] = (x, c)
                    continue
            st.extend(x.children())
    if not hits:
        return ts, []
    return [z3.substitute(t, *hits.values()) for t in ts], back


def prove_eq(ctx, a, b, depth=0, extra=(), back=None):
    """True if a = b follows by algebra (case splitting on Ifs under the path condition)"""
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b
    a, b = zt(a), zt(b)
    if back is None:
        (a, b), back = name_terms(ctx, [a, b])
    if a.eq(b):
        return True
    c = find_ite(a, b)
    if c is not None and depth < 12:
        for case in (True, False):
            c0 = z3.substitute(c, *back) if back else c
            lit = polish(ctx, c0 if case else z3.Not(c0))
            if z3.is_false(lit) or ctx.lin_unsat(*(extra + (lit,))):
                continue
            v = z3.BoolVal(case)
            a2 = z3.simplify(z3.substitute(a, (c, v)), som=False)
            b2 = z3.simplify(z3.substitute(b, (c, v)), som=False)
            if not prove_eq(ctx, a2, b2, depth + 1, extra + (lit,), back):
                return False
        return True
    try:
        N = Norm(ctx)
        DEADLINE[0] = time.time() + 12
        return N.rf_eq(N.norm(a), N.norm(b))
    except (Blow, ZeroDivisionError, RecursionError):
        return False


def matched(ctx, goal, t):
    """a comparison of the path condition about the index t that is algebraically the goal (or None)"""
    goal = polish(ctx, goal)
    if not (z3.is_app(goal) and goal.num_args() == 2 and goal.decl().kind() in CMP):
        return None
    seen, stack, found = set(), list(ctx.pc), []
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x) or x.sort() != z3.BoolSort():
            continue
        seen.add(x.get_id())
        if x.decl().kind() in CMP and x.arg(0).sort() == z3.RealSort():
            if mentions(x, t):
                found.append(x)
            continue
        stack.extend(x.children())
    kind = CMP[goal.decl().kind()]
    d = goal.arg(0) - goal.arg(1)
    for x in sorted(found, key=lambda x: -len(x.sexpr()))[:4]:
        e = x.arg(0) - x.arg(1)
        for q in (e, -e):
            if prove_eq(ctx, d, q):
                return {"<": q < 0, "<=": q <= 0, ">": q > 0, ">=": q >= 0, "==": q == 0}[kind]
    return None


def mentions(x, t):
    seen, stack = set(), [x]
    while stack:
        y = stack.pop()
        if y.eq(t):
            return True
        if y.get_id() not in seen:
            seen.add(y.get_id())
            stack.extend(y.children())
    return False


def discharge(ctx, c, label, eqs=()):
    st = ctx.ex.stats
    eqs = [(x, y) for x, y in eqs]
    left = []
    for x, y in eqs:
        if isinstance(x, Fraction) and isinstance(y, Fraction) and x == y:
            continue
        t0 = time.time()
        ok = prove_eq(ctx, x, y)
        st.solver_s += time.time() - t0
        if not ok:
            left.append((x, y))
    goal = b_and(c, *[zt(x) == zt(y) for x, y in left])
    if is_true(goal):
        b = "algebra" if eqs else "trivial"
        st.add(b)
        return Obligation(label, "proved", b)
    g = z3.simplify(zb(goal))
    if z3.is_true(g):
        st.add("simplify")
        return Obligation(label, "proved", "simplify")
    r, m, backend = smt(ctx, z3.Not(zb(goal)))
    if r == z3.unsat:
        st.add(backend)
        return Obligation(label, "proved", backend)
    if r == z3.sat:
        return Obligation(label, "refuted", backend, model=m)
    return Obligation(label, "unknown", backend, why="solver returned unknown")


def smt(ctx, neg):
    """(verdict, model, back end); nonlinear engines run in a child that can be stopped"""
    ex = ctx.ex
    neg = polish(ctx, neg)
    ex.stats.queries += 1
    t0 = time.time()
    try:
        if ctx.lin_unsat(neg):
            return z3.unsat, None, "z3"
        if ctx.lemmas and ctx.lin_unsat(neg, *[polish(ctx, l) for l in ctx.lemmas[-400:]]):
            return z3.unsat, None, "z3"
        s = z3.Solver()
        s.set("timeout", min(1500, ex.qtimeout))
        s.set("smt.arith.nl.nra", False)
        for p in ctx.pc + ctx.base + ctx.lemmas:
            s.add(p)
        s.add(neg)
        r = s.check()
        if r == z3.sat:
            return r, nicer(ctx, s, s.model()), "z3"
        if r == z3.unsat:
            return r, None, "z3"
        if time.time() > ex.deadline:
            raise Stop("time budget")
        got = in_child(lambda: smt_hard(ctx, neg), 3.2 * ex.qtimeout / 1000 + 2)
        if got is None:
            return z3.unknown, None, "z3"
        st, model, backend = got
        return {"sat": z3.sat, "unsat": z3.unsat}.get(st, z3.unknown), model, backend
    finally:
        ex.stats.solver_s += time.time() - t0


def smt_hard(ctx, neg):
    ex = ctx.ex
    s = z3.Solver()
    s.set("timeout", ex.qtimeout)
    for p in ctx.pc + ctx.base + ctx.lemmas:
        s.add(p)
    s.add(neg)
    r = s.check()
    m = s.model() if r == z3.sat else None
    backend = "z3"
    if r == z3.unknown:
        try:
            s2 = z3.Then("simplify", "solve-eqs", "smt").solver()
            s2.set("timeout", ex.qtimeout)
            for a in s.assertions():
                s2.add(a)
            r = s2.check()
            m = s2.model() if r == z3.sat else None
            backend = "z3/solve-eqs"
        except z3.Z3Exception:
            r = z3.unknown
    if r == z3.unknown and ex.shared.get("cvc5", True):
        try:
            r = cvc5_check(s, ex.qtimeout)
            if r == z3.unsat:
                backend = "cvc5"
        except Exception:
            r = z3.unknown
    if r == z3.sat and m is not None:
        m = nicer(ctx, s, m)
    return str(r), (ctx.extract(m) if m is not None else None), backend


def in_child(fn, seconds):
    """run fn in a forked child; None when it does not finish in time"""
    import os
    import pickle
    import select
    import signal
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rd)
            data = pickle.dumps(fn())
            while data:
                data = data[os.write(wr, data):]
        except BaseException:
            code = 1
        os._exit(code)
    os.close(wr)
    buf = b""
    end = time.time() + seconds
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([rd], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                return None
            x = os.read(rd, 1 << 16)
            if not x:
                break
            buf += x
        return pickle.loads(buf) if buf else None
    except Exception:
        return None
    finally:
        os.close(rd)
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass


def cvc5_check(s, ms):
    import cvc5
    tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
    slv = cvc5.Solver(tm) if tm else cvc5.Solver()
    slv.setOption("tlimit", str(int(ms)))
    slv.setOption("nl-ext-tplanes", "true")
    p = cvc5.InputParser(slv)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
    sm = p.getSymbolManager()
    while True:
        cmd = p.nextCommand()
        if cmd.isNull():
            break
        out = cmd.invoke(slv, sm)
        o = str(out).strip()
        if o == "unsat":
            return z3.unsat
        if o in ("sat", "unknown"):
            return z3.unknown
    return z3.unknown


def nicer(ctx, s, m):
    """prefer moderate values in the counterexample"""
    soft = []
    for name, kind, payload in ctx.inputs:
        try:
            if kind == "num" and not isinstance(payload.t, Fraction):
                soft.append(z3.And(payload.t <= 1000, payload.t >= -1000))
            elif kind == "arr":
                n, fn = payload
                if not isinstance(n, int):
                    soft.append(zb(n.t <= 6))
        except Exception:
            pass
    if not soft:
        return m
    s.push()
    try:
        s.set("timeout", 1500)
        for c in soft:
            s.add(c)
        if s.check() == z3.sat:
            return s.model()
    except z3.Z3Exception:
        pass
    finally:
        s.pop()
    return m
