"""C06 Tabulated data is interpolated in its own unit, column by column."""
from pv.api import contract
from contracts._lib import UNITS, GEN, conv, points, shape_ok, at
from contracts.c05 import parts

KINDS = {"n": 2, "nk": 3, "eps": 3, "n_alpha": 3}
CM = ("wavelength", "cm")


def cell(v, t, i, j):
    return v.cell(t, i, j)


def material(v, t, kind, a, order):
    kw = {"tabulated_" + kind: t, "spectrum_type": a[0], "unit": a[1]}
    if order is not None:
        kw["interp_order"] = order
    return v.ok(v.call(v.mod().Material, **kw), "material created")


def evaluate(v, mat, kind, arg, b):
    S = v.ok(v.call(v.mod("spectrum").Spectrum, arg, spectrum_type=b[0], unit=b[1]), "request created")
    return v.ok(v.call(mat.get_permittivity if kind == "eps" else mat.get_nk_data, S), "evaluates")


def column(v, t, kind, a, i, part):
    """the value a part has at row i"""
    if part == 1 and kind == "n":
        return 0.0
    y = cell(v, t, i, 1 + part)
    if part == 1 and kind == "n_alpha":
        return y * conv(v, a, CM, cell(v, t, i, 0)) / (4 * v.pi)
    return y


def spaced(v, t, n, a, b, rel=2e-2, o=1):
    """executions: points far enough apart for floating-point conversions"""
    if v.sym or (a == b and o in (None, 0, 1)):
        return True
    return all(v.apart(t[i][0], t[i + 1][0], rel) for i in range(n - 1))


def setting(v, orders, decs=(False, True)):
    """kind, units, order, direction: all unit pairs for the default setting, two pairs per unit for the others"""
    kind = v.choice("kind", list(KINDS))
    a = v.choice("table_unit", UNITS)
    order = v.choice("order", orders)
    dec = v.choice("descending", decs) if len(decs) > 1 else decs[0]
    k = UNITS.index(a)
    if v.sym and not (kind == "nk" and order == orders[0] and not dec):
        b = v.choice("request_unit", [a, UNITS[(k + 4) % 9]])
    else:
        b = v.choice("request_unit", UNITS[k:] + UNITS[:k])
    return kind, a, b, order, dec


def scale(v, t, kind, a, n, part):
    if v.sym:
        return 0.0
    return 1e-4 * max([abs(column(v, t, kind, a, i, part)) for i in range(n)] + [0.0])


@contract("C06", "material.Material._process_table", "material.Material._spec_data_from_table", "material.Material.get_nk_data",
          "material.Material.get_permittivity", "spectral_data.Interpolation.evaluate", "spectral_data.Interpolation.interpolate_data",
          n=600, split=3)
def nodes(v):
    """exact at every tabulated point, for every kind of table, order of the rows, unit and interpolation order"""
    kind, a, b, order, dec = setting(v, [None, 1, 2, 3])
    n = v.length("rows", (order or 1) + 1)
    t = v.table("t", n, KINDS[kind], lo=0, gen=GEN[a[1]], decreasing=dec, colgen=(0.0, 10.0))
    if not spaced(v, t, n, a, b, o=order) or (not v.sym and order in (2, 3) and n > 8):
        return
    t0 = v.snap(t)
    mat = material(v, t, kind, a, order)
    for i in v.each(n):
        if not v.sym and a != b and i in (0, n - 1):
            continue  # bounds in another unit: rounding decides
        x = conv(v, a, b, cell(v, t0, i, 0))
        if not v.sym:
            x = float(x)
        r = evaluate(v, mat, kind, x, b)
        shape_ok(v, r, None)
        re, im = parts(v, at(v, r, None))
        v.ensure_eq(re, column(v, t0, kind, a, i, 0), "%s: first column at a tabulated point" % kind, 1e-7, scale(v, t0, kind, a, n, 0))
        v.ensure_eq(im, column(v, t0, kind, a, i, 1), "%s: second column at a tabulated point" % kind, 1e-7, scale(v, t0, kind, a, n, 1))


def inside(v, t, n, dec, a, b, name):
    """a request inside the table"""
    if v.sym:
        x = v.pos(name, gen=GEN[b[1]])
        y = conv(v, b, a, x)
        first, last = cell(v, t, 0, 0), cell(v, t, n - 1, 0)
        lo, hi = (last, first) if dec else (first, last)
        v.assume(v.And(y >= lo, y <= hi))
        return x, y
    e = sorted((conv(v, a, b, float(t[0][0])), conv(v, a, b, float(t[n - 1][0]))))
    ok, x = v._given(name)
    x = float(x) if ok else v.rng.uniform(*e)
    v._log(name, x)
    y = conv(v, b, a, x)
    lo, hi = sorted((float(t[0][0]), float(t[n - 1][0])))
    v.assume(lo <= y <= hi)
    return float(x), y


@contract("C06", "material.Material._process_table", "spectral_data.Interpolation.evaluate", n=600, split=3)
def between(v):
    """linear between neighbouring points by default and for order 1"""
    kind, a, b, order, dec = setting(v, [None, 1])
    n = v.length("rows", 2)
    t = v.table("t", n, KINDS[kind], lo=0, gen=GEN[a[1]], decreasing=dec, colgen=(0.0, 10.0))
    if not spaced(v, t, n, a, b):
        return
    t0 = v.snap(t)
    mat = material(v, t, kind, a, order)
    x, y = inside(v, t0, n, dec, a, b, "x")
    r = evaluate(v, mat, kind, x, b)
    got = parts(v, at(v, r, None))
    for i in v.each(n - 1):
        j = i + 1
        xi, xj = cell(v, t0, i, 0), cell(v, t0, j, 0)
        if not v.cases(v.And(y >= xj, y <= xi) if dec else v.And(y >= xi, y <= xj)):
            continue
        for p in (0, 1):
            yi, yj = column(v, t0, kind, a, i, p), column(v, t0, kind, a, j, p)
            if v.sym and (a != b or kind != "n") and not (kind == "n" and p == 1):
                # order-1 interpolation of scipy, assumed to be the chord
                xs = v.mkarr(n, lambda i: cell(v, t0, i, 0))
                ys = v.mkarr(n, lambda i: column(v, t0, kind, a, i, p))
                v.ensure_eq(got[p], v.interp(xs, ys, 1, y), "%s: linear between neighbours" % kind)
            elif v.sym:
                v.ensure_eq((got[p] - yi) * (xj - xi), (yj - yi) * (y - xi), "%s: linear between neighbours" % kind)
            else:
                v.ensure_eq(got[p], yi + (yj - yi) * (y - xi) / (xj - xi), "%s: linear between neighbours" % kind, 1e-6,
                            scale(v, t0, kind, a, n, p))


@contract("C06", "spectral_data.Interpolation.__init__", "material.Material._spec_data_from_table", n=400, split=3)
def order(v):
    """the requested interpolation order is used, in the table's own unit"""
    kind, a, b, o, dec = setting(v, [2, 0, 3], (False,))
    n = v.length("rows", o + 1 if o else 2)
    t = v.table("t", n, KINDS[kind], lo=0, gen=GEN[a[1]], colgen=(0.0, 10.0))
    if not spaced(v, t, n, a, b, 0.1, o):
        return
    t0 = v.snap(t)
    mat = material(v, t, kind, a, o)
    x, y = inside(v, t0, n, False, a, b, "x")
    if not v.sym and o == 0 and any(not v.apart(y, t0[i][0]) for i in range(n)):
        return
    r = evaluate(v, mat, kind, x, b)
    got = parts(v, at(v, r, None))
    xs = v.mkarr(n, lambda i: cell(v, t0, i, 0))
    for p in (0, 1):
        if kind == "n" and p == 1:
            v.ensure_eq(got[p], 0.0, "n: no absorption")
            continue
        ys = v.mkarr(n, lambda i: column(v, t0, kind, a, i, p))
        v.ensure_eq(got[p], v.interp(xs, ys, o, y), "%s: interpolation of the requested order" % kind, 1e-4, 10 * scale(v, t0, kind, a, n, p))


@contract("C06", "material.Material._spec_data_from_table", "spectral_data.Constant.evaluate", n=300, split=3)
def one_row(v):
    """a one-row table is defined at its point only"""
    kind, a, b, o, dec = setting(v, [None], (False,))
    t = v.table("t", 1, KINDS[kind], lo=0, gen=GEN[a[1]], colgen=(0.0, 10.0))
    t0 = v.snap(t)
    mat = material(v, t, kind, a, None)
    x0 = cell(v, t0, 0, 0)
    hit = v.bool("at_the_point")
    if hit:
        x = conv(v, a, b, x0) if v.sym or a != b else float(x0)
        if not v.sym:
            x = float(x)
            if a != b:
                return
        r = evaluate(v, mat, kind, x, b)
        got = parts(v, at(v, r, None))
        for p in (0, 1):
            v.ensure_eq(got[p], column(v, t0, kind, a, 0, p), "%s: the only value" % kind, 1e-7, 1e-12)
        return
    x = v.pos("x", gen=GEN[b[1]])
    y = conv(v, b, a, x)
    if not v.apart(y, x0):
        return
    v.assume(v.Not(y == x0))
    S = v.ok(v.call(v.mod("spectrum").Spectrum, x, spectrum_type=b[0], unit=b[1]), "request created")
    v.raises(v.call(mat.get_permittivity if kind == "eps" else mat.get_nk_data, S), ValueError, "any other point is refused")
