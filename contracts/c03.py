"""C03 Evaluation is refused exactly when a request leaves the valid range."""
from pv.api import contract
from contracts._lib import (UNITS, GEN, UM, EV, conv, request, points, at, inside_of, clear_of, valid_range, make_model,
                            FORMULAS, EPSMODELS, home, shape_ok)


def judge(v, d, rng, a, b, where, arg, n, ent):
    """evaluate d, whose range rng is given in unit a, on the request (in unit b)"""
    S = v.mod("spectrum").Spectrum
    ins = inside_of(v, rng, a, b)
    if n is None:
        x = ent(None)
        if not clear_of(v, rng, a, b, x):
            return
        s = v.ok(v.call(S, arg, spectrum_type=b[0], unit=b[1]), "request accepted")
        out = v.call(d.evaluate, s)
        if v.cases(ins(x)):
            v.ok(out, "a point inside the range is evaluated")
        else:
            v.raises(out, ValueError, "a point outside the range is refused")
        return
    s = v.ok(v.call(S, arg, spectrum_type=b[0], unit=b[1]), "request accepted")
    if not v.sym:
        xs = [ent(i) for i in range(n)]
        if not all(clear_of(v, rng, a, b, x) for x in xs):
            return
        where = "in" if all(ins(x) for x in xs) else "out"
    if where == "in":
        v.assume_all(n, lambda i: ins(ent(i)))
        r = v.ok(v.call(d.evaluate, s), "points inside the range are evaluated")
        shape_ok(v, r, n)
    else:
        if v.sym:
            k = v.int("k", 0)
            v.assume(k < n)
            from pv.values import int_term
            v.c.register_index(int_term(k))
            v.assume(v.Not(ins(ent(k))))
        v.raises(v.call(d.evaluate, s), ValueError, "a request with a point outside the range is refused")


def draw(v, name, rng, a, b, inside):
    """executions: requests that are often inside"""
    lo, hi = rng
    lo, hi = sorted((float(lo), float(hi)))
    ends = sorted((conv(v, a, b, lo), conv(v, a, b, hi)))
    r = v.rng
    k = r.random()
    if k < 0.45 or inside:
        c = r.random()
        if c < 0.15 and a == b:
            return r.choice([lo, hi])
        return r.uniform(*ends)
    return v._draw(0, None, True, GEN[b[1]])


def req(v, rng, a, b):
    if v.sym:
        arg, n, ent = request(v, "x", b)
        where = v.choice("where", ["in", "out"]) if n is not None else None
        return arg, n, ent, where
    form = v.choice("x_form", ["scalar", "array"])
    if form == "scalar":
        ok, x = v._given("x")
        x = float(x) if ok else draw(v, "x", rng, a, b, False)
        v._log("x", x)
        return x, None, (lambda i: x), None
    n = v.length("x_n", 1)
    ok, xs = v._given("x")
    ins = v.rng.random() < 0.6
    xs = [float(y) for y in xs[:n]] if ok and len(xs) >= n else [draw(v, "x", rng, a, b, ins) for _ in range(n)]
    v._log("x", xs)
    arr = v.numpy.array(xs)
    return arr, n, (lambda i: xs[i]), None


@contract("C03", "spectral_data.Constant.evaluate", "spectrum.Spectrum.contains", n=800)
def constant(v):
    """a constant with a valid range in any unit, requests in any unit"""
    a = v.choice("range_unit", UNITS)
    b = v.choice("request_unit", UNITS)
    rng = valid_range(v, "r", a)
    up = v.bool("descending")
    d = v.ok(v.call(v.mod("spectral_data").Constant, 1.5, valid_range=(rng[1], rng[0]) if up else rng,
                    spectrum_type=a[0], unit=a[1]), "created")
    arg, n, ent, where = req(v, rng, a, b)
    judge(v, d, rng, a, b, where, arg, n, ent)


@contract("C03", "spectral_data.Interpolation.evaluate", "spectrum.Spectrum.contains", n=600)
def table(v):
    """a table in any unit, requests in any unit"""
    a = v.choice("table_unit", UNITS)
    b = v.choice("request_unit", UNITS)
    n = v.length("rows", 2)
    t = v.table("t", n, 2, lo=0, gen=GEN[a[1]])
    d = v.ok(v.call(v.mod("spectral_data").Interpolation, t, spectrum_type=a[0], unit=a[1]), "created")
    rng = (v.elem(v.elem(t, 0), 0), v.elem(v.elem(t, n - 1), 0))
    arg, m, ent, where = req(v, rng, a, b)
    judge(v, d, rng, a, b, where, arg, m, ent)


@contract("C03", *["spectral_data.%s.evaluate" % m for m in FORMULAS + EPSMODELS + ["Fano"]], n=800)
def models(v):
    """every dispersion model, requests in any unit"""
    m = v.choice("model", FORMULAS + EPSMODELS + ["Fano"])
    a = home(m)
    b = v.choice("request_unit", UNITS)
    rng = valid_range(v, "r", a)
    d = v.ok(make_model(v, m, v.lst(rng), 1), "created")
    arg, n, ent, where = req(v, rng, a, b)
    judge(v, d, rng, a, b, where, arg, n, ent)


@contract("C03", "spectral_data.Constant.evaluate", "spectrum.Spectrum.contains", n=300)
def unbounded(v):
    """the default range of a constant accepts every positive point; the bounds 0 and infinity are handled"""
    b = v.choice("request_unit", UNITS)
    lohi = v.choice("range", ["all", "from", "upto"])
    a = v.choice("range_unit", [UNITS[0], UNITS[3], EV])
    r = v.pos("r", gen=GEN[a[1]])
    rng = {"all": (0.0, v.numpy.inf), "from": (r, v.numpy.inf), "upto": (0.0, r)}[lohi]
    d = v.ok(v.call(v.mod("spectral_data").Constant, 1.5, valid_range=rng, spectrum_type=a[0], unit=a[1]), "created")
    x = v.pos("x", gen=GEN[b[1]])
    y = conv(v, b, a, x)
    if not v.apart(y, r):
        return
    s = v.ok(v.call(v.mod("spectrum").Spectrum, x, spectrum_type=b[0], unit=b[1]), "request accepted")
    out = v.call(d.evaluate, s)
    if v.cases(v.And(y >= rng[0], y <= rng[1])):
        v.ok(out, "a point inside the range is evaluated")
    else:
        v.raises(out, ValueError, "a point outside the range is refused")
