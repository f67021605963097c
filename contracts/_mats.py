"""materials of every kind, as inputs of contracts"""
from contracts._lib import UNITS, GEN, UM, EV, valid_range, model_params, home
from contracts.c05 import cplx

FIXED = ["fixed_n", "fixed_nk", "fixed_eps_r", "fixed_eps"]
TABLES = ["tabulated_n", "tabulated_nk", "tabulated_eps", "tabulated_n_alpha"]
MODELS = ["Sellmeier", "Cauchy", "Drude", "DrudeLorentz"]
ALL = FIXED + TABLES + ["model:" + m for m in MODELS] + ["mixed"]


class Mat:
    """material, and what it was made from"""

    def __init__(self, mat, kind, name, ranges, given):
        self.mat, self.kind, self.name, self.ranges, self.given = mat, kind, name, ranges, given
        self.complex = kind in ("model:Drude", "model:DrudeLorentz", "model:TaucLorentz")


def fixed_value(v, name, kind):
    g = (0.1, 6.0)
    if kind in ("fixed_n", "fixed_eps_r"):
        return v.real(name + "_re", gen=g)
    return cplx(v, v.real(name + "_re", gen=(-8.0, 8.0)), v.real(name + "_im", gen=(-6.0, 6.0)))


def some_material(v, name="m", kinds=ALL, units=UNITS, terms=1, colgen=(0.2, 5.0)):
    """a material of some kind; .make() makes the same one again from fresh copies of the same input"""
    kind = v.choice(name + "_kind", list(kinds))
    M = v.mod().Material
    sd = v.mod("spectral_data")
    if kind in FIXED:
        x = fixed_value(v, name, kind)

        def make():
            return v.ok(v.call(M, **{kind: x}), "%s material created" % kind)
        r = Mat(make(), kind, "eps" if "eps" in kind else "nk", [], x)
    elif kind in TABLES:
        a = v.choice(name + "_unit", units)
        n = v.length(name + "_rows", 2, cap=5)
        t = v.table(name + "_t", n, 2 if kind == "tabulated_n" else 3, lo=0, gen=GEN[a[1]], colgen=colgen)
        t0 = v.snap(t)

        def make(t=None):
            t = v.snap(t0) if t is None else t
            return v.ok(v.call(M, **{kind: t, "spectrum_type": a[0], "unit": a[1]}), "%s material created" % kind)
        r = Mat(make(t), kind, "eps" if "eps" in kind else "nk", [(a, v.cell(t0, 0, 0), v.cell(t0, n - 1, 0))], (a, n, t))
    elif kind == "const_k":
        # constant n, k from a table
        x = v.real(name + "_re", gen=(0.1, 6.0))
        a = v.choice(name + "_unit", units)
        n = v.length(name + "_rows", 2, cap=5)
        t = v.table(name + "_t", n, 2, lo=0, gen=GEN[a[1]], colgen=colgen)
        t0 = v.snap(t)

        def make(t=None):
            t = v.snap(t0) if t is None else t
            mat = v.ok(v.call(M, fixed_n=x), "fixed_n material created")
            mat.data["imag"] = v.ok(v.call(sd.Interpolation, t, spectrum_type=a[0], unit=a[1]), "table created")
            return mat
        r = Mat(make(t), kind, "nk", [(a, v.cell(t0, 0, 0), v.cell(t0, n - 1, 0))], (x, a, n, t))
    elif kind == "mixed":
        # n from a model, k from a table on other points and in another unit
        rng = valid_range(v, name + "_r", UM, (0.2, 20.0))
        p = model_params(v, "Cauchy", terms)
        a = v.choice(name + "_unit", units)
        n = v.length(name + "_rows", 2, cap=5)
        t = v.table(name + "_t", n, 2, lo=0, gen=GEN[a[1]], colgen=colgen)
        t0 = v.snap(t)

        def make(t=None):
            t = v.snap(t0) if t is None else t
            mat = v.ok(v.call(M, model_kw={"name": "Cauchy", "parameters": v.arr(p), "valid_range": v.lst(rng), "spectrum_type": UM[0],
                                           "unit": UM[1]}), "model material created")
            mat.data["imag"] = v.ok(v.call(sd.Interpolation, t, spectrum_type=a[0], unit=a[1]), "table created")
            return mat
        r = Mat(make(t), kind, "nk", [(UM, rng[0], rng[1]), (a, v.cell(t0, 0, 0), v.cell(t0, n - 1, 0))], (p, a, n, t))
    else:
        m = kind.split(":")[1]
        a = home(m)
        rng = valid_range(v, name + "_r", a)
        p = model_params(v, m, terms)

        def make():
            return v.ok(v.call(M, model_kw={"name": m, "parameters": v.arr(p), "valid_range": v.lst(rng), "spectrum_type": a[0],
                                            "unit": a[1]}), "%s material created" % m)
        r = Mat(make(), kind, "eps" if a == EV else "nk", [(a, rng[0], rng[1])], p)
    r.make = make
    return r


def bounds_in(v, ranges, b):
    """intersection of ranges, in unit b (numbers for executions only)"""
    from contracts._lib import conv
    lo, hi = GEN[b[1]]
    for a, x, y in ranges:
        p, q = sorted((float(conv(v, a, b, float(x))), float(conv(v, a, b, float(y)))))
        lo, hi = max(lo, p), min(hi, q)
    return lo, hi


def request_in(v, name, ranges, b, forms=("scalar", "array")):
    """request within all ranges, in unit b: (argument, n, entry)"""
    from contracts._lib import request, inside_of
    if v.sym:
        arg, n, ent = request(v, name, b, forms)
        for a, lo, hi in ranges:
            ins = inside_of(v, (lo, hi), a, b)
            if n is None:
                v.assume(ins(ent(None)))
            else:
                v.assume_all(n, lambda i, ins=ins: ins(ent(i)))
        return arg, n, ent
    from pv.api import Reject
    lo, hi = bounds_in(v, ranges, b)
    w = hi - lo
    lo, hi = lo + 1e-6 * w, hi - 1e-6 * w
    if not lo < hi or w < 1e-6 * hi:
        raise Reject("empty range")
    form = v.choice(name + "_form", list(forms)) if len(forms) > 1 else forms[0]
    ok, g = v._given(name)

    def draw():
        if v.rng.random() < 0.15:
            c = [x for x in v.pool if lo <= x <= hi]
            if c:
                return v.rng.choice(c)
        return v.rng.uniform(lo, hi)
    if form == "scalar":
        x = float(g) if ok and isinstance(g, (int, float)) else draw()
        if not lo <= x <= hi:
            raise Reject("outside")
        v._log(name, x)
        return x, None, (lambda i: x)
    n = v.length(name + "_n", 1)
    xs = [float(y) for y in g[:n]] if ok and isinstance(g, list) and len(g) >= n else [draw() for _ in range(n)]
    if any(not lo <= x <= hi for x in xs):
        raise Reject("outside")
    v._log(name, xs)
    if form == "list":
        return list(xs), n, (lambda i: xs[i])
    return v.numpy.array(xs), n, (lambda i: xs[i])
