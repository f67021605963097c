"""Text with embedded numbers: a printed number is one private-use character inside an ordinary str.

ctx.tokens maps the character to (Num, printf-style spec).  Reading it back with float() yields the
number, up to the precision of the format it was printed with."""
import re
from fractions import Fraction
import z3
from .core import cur, Unsupported, zb, b_and
from .values import Num, SComplex, SBool, SInt, SStr, Proxy, tonum, zt, isc

LO, HI = 0xE000, 0xF8FF


def is_tok(ch):
    return LO <= ord(ch) <= HI


def has_tok(s):
    return any(is_tok(ch) for ch in s)


def _reg(kind, payload):
    c = cur()
    d = c.__dict__.setdefault("tokens", {})
    k = len(d)
    if LO + k > HI:
        raise Unsupported("too much symbolic text")
    ch = chr(LO + k)
    d[ch] = (kind, payload)
    return ch


def token(num, spec=""):
    return _reg("num", (num, spec))


def string_token(sstr):
    """an arbitrary string embedded in text"""
    c = cur()
    d = c.__dict__.setdefault("strtok", {})
    k = sstr.t.get_id()
    if k in d:
        return d[k][0]
    ch = _reg("str", sstr)
    d[k] = (ch, sstr)
    return ch


def lookup(ch):
    return cur().__dict__.get("tokens", {}).get(ch)


_SPEC = re.compile(r"^[+\- #0]*\d*(?:\.(\d+))?([a-zA-Z]?)$")


def reread(num, spec):
    """value obtained by parsing the text printed for num with the given format"""
    c = cur()
    if spec in ("", "r", "s"):
        return num
    if spec.startswith("np"):
        digits = int(spec[2:])
        kind = "n"
    else:
        m = _SPEC.match(spec)
        if not m:
            raise Unsupported("number format %r" % spec)
        digits = int(m.group(1)) if m.group(1) else 6
        kind = m.group(2) or "g"
    if kind in "eE" and digits >= 15 or kind in "gG" and digits >= 16 or kind == "n" and digits >= 16:
        return num
    if not num.plain():
        raise Unsupported("formatting of inf/nan")
    x = zt(num.t)
    cache = c.__dict__.setdefault("reread", {})
    key = (x.get_id(), spec)
    if key in cache:
        return cache[key][0]
    r = z3.Real(c.fresh("prt"))
    ax = z3.If(x >= 0, x, -x)
    if kind in "fF" or kind == "n":
        e = z3.RealVal("0." + "0" * digits + "5")
        c.add(z3.And(r - x <= e, x - r <= e))
        # a magnitude below half a unit in the last place prints as zero
        c.add(z3.Implies(ax < e, r == 0))
    elif kind in "eE":
        e = z3.RealVal("0." + "0" * digits + "5") * 10
        c.add(z3.And(r - x <= e * ax, x - r <= e * ax))
    elif kind in "gG":
        e = z3.RealVal("0." + "0" * max(digits - 1, 0) + "5") * 10
        c.add(z3.And(r - x <= e * ax, x - r <= e * ax))
    else:
        raise Unsupported("number format %r" % spec)
    n = Num(r, npy=False)
    cache[key] = (n, num)
    return n


def parse_float(s):
    t = s.strip()
    if len(t) == 1 and is_tok(t):
        kind, p = lookup(t)
        if kind != "num":
            raise Unsupported("float() of an arbitrary string")
        n = reread(*p)
        return Num(n.t, n.pi, n.ni, n.na)
    if has_tok(t):
        m = [x for x in t if is_tok(x)]
        if all(lookup(x)[0] == "num" for x in m):
            raise ValueError("could not convert string to float: %r" % s)
        raise Unsupported("float() of symbolic text")
    v = float(t)
    if v != v or v in (float("inf"), float("-inf")):
        return tonum(v)
    try:
        return Num(Fraction(t.replace("_", "")))
    except (ValueError, ZeroDivisionError):
        return tonum(v)


_PCT = re.compile(r"%(?:\((\w+)\))?([#0\- +]*\d*(?:\.\d+)?)([a-zA-Z%])")


def fmt_one(x, spec, conv):
    if conv in "sr":
        if isinstance(x, SStr):
            return string_token(x)
        return ("%" + spec + conv) % (x,) if not isinstance(x, Proxy) else str(x)
    if conv in "di" and isinstance(x, SInt):
        return str(x)
    if isinstance(x, (Num, SInt)):
        n = tonum(x)
        if n.const():
            return ("%" + spec + conv) % float(n)
        return token(n, spec + conv)
    return ("%" + spec + conv) % (x,)


def percent(f, args):
    if isinstance(args, SStr):
        args = (args,)
    if not isinstance(args, (tuple, dict)):
        args = (args,)
    if isinstance(args, dict):
        return f % args
    if not any(isinstance(a, Proxy) for a in args):
        return f % args
    it = iter(args)

    def rep(m):
        if m.group(3) == "%":
            return "%"
        return fmt_one(next(it), m.group(2), m.group(3))
    return _PCT.sub(rep, f)


def str_method(o, name):
    if name == "join":
        def join(it):
            from .shims import symiter, SymSeq
            s = symiter(it)
            if isinstance(s, SymSeq):
                raise Unsupported("join of a symbolic sequence")
            return o.join([string_token(x) if isinstance(x, SStr) else x for x in s])
        return join
    if name == "format":
        def fmt(*a, **k):
            return o.format(*[conv(x) for x in a], **{q: conv(x) for q, x in k.items()})
        return fmt
    if name == "split" and has_tok(o):
        def split(sep=None, maxsplit=-1):
            for ch in o:
                if is_tok(ch) and lookup(ch)[0] == "str":
                    _check_split(ch, sep)
            return o.split(sep, maxsplit)
        return split
    return None


def _check_split(ch, sep):
    c = cur()
    ok = c.hooks.get("str_no", {})
    props = ok.get(ch, "")
    if sep is None or sep not in props:
        if not (sep is None and " " in props):
            raise Unsupported("splitting symbolic text")


def conv(x):
    return x
