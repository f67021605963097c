"""C10 The reported valid range is the common range of both parts."""
from pv.api import contract
from contracts._lib import UNITS, GEN, UM, EV, conv, points, at, valid_range, model_params
from contracts._mats import some_material, ALL, FIXED, TABLES
from contracts.c05 import parts
from contracts.c08 import spectrum

NM = ("wavelength", "nm")
SOME = [UNITS[3], UNITS[6], UNITS[0], UNITS[8]]


def two_parts(v, u1, u2):
    """a material whose real and imaginary data are defined separately: (material, ranges)"""
    M = v.mod().Material
    sd = v.mod("spectral_data")
    mat = v.ok(v.call(M, fixed_n=v.q("1.5") if v.sym else 1.5), "material created")
    rs = []
    k = v.choice("parts", ["tables", "table and constant", "constant and table", "constants"])
    for part, a, tab in (("real", u1, k in ("tables", "table and constant")), ("imag", u2, k in ("tables", "constant and table"))):
        if tab:
            n = v.length(part + "_rows", 2, cap=4)
            t = v.table(part + "_t", n, 2, lo=0, gen=GEN[a[1]], colgen=(0.2, 5.0))
            mat.data[part] = v.ok(v.call(sd.Interpolation, t, spectrum_type=a[0], unit=a[1]), "table created")
            rs.append((a, v.cell(t, 0, 0), v.cell(t, n - 1, 0)))
        else:
            r = valid_range(v, part + "_r", a)
            mat.data[part] = v.ok(v.call(sd.Constant, v.real(part + "_c", gen=(0.1, 3.0)), valid_range=v.lst(r), spectrum_type=a[0], unit=a[1]),
                                  "constant created")
            rs.append((a, r[0], r[1]))
    return mat, rs


def ends(v, ranges, d):
    """bounds of each range, in unit d, ascending"""
    out = []
    for a, lo, hi in ranges:
        p, q = conv(v, a, d, lo), conv(v, a, d, hi)
        out.append((p, q) if (a[0] == "wavelength") == (d[0] == "wavelength") else (q, p))
    return out


def check_range(v, mat, ranges, d, label=""):
    """the range reported in unit d is the intersection of ranges; returns it"""
    r = v.ok(v.call(mat.get_maximum_valid_range), "range reported")
    v.ensure_eq(v.len(r), 2, "two bounds")
    lo, hi = v.elem(r, 0), v.elem(r, 1)
    es = ends(v, ranges, d)
    v.ensure(lo <= hi, "ascending")
    tol = 0.0 if v.sym else 1e-6
    for p, q in es:
        v.ensure(lo >= p * (1 - tol), "not below the range of a part")
        v.ensure(hi <= q * (1 + tol), "not above the range of a part")
    v.ensure(v.Or(*[lo <= p * (1 + tol) for p, q in es]), "lower bound is that of a part")
    v.ensure(v.Or(*[hi >= q * (1 - tol) for p, q in es]), "upper bound is that of a part")
    return lo, hi


def overlap(v, ranges, d):
    es = ends(v, ranges, d)
    for p, _ in es:
        for _, q in es:
            v.assume(p < q)
            if not v.sym:
                v.assume(v.apart(p, q, 1e-3))


@contract("C10", "material.Material.get_maximum_valid_range", n=900, split=5)
def intersection(v):
    """separate parts in units of their own, reported in the default unit, ascending"""
    d = v.choice("default_unit", [SOME[0], SOME[1]] if v.sym else UNITS)
    u1 = v.choice("real_unit", [SOME[0], SOME[1]] if v.sym else UNITS)
    u2 = v.choice("imag_unit", [SOME[0], SOME[1]] if v.sym else UNITS)
    mat, rs = two_parts(v, u1, u2)
    mat.defaults["spectrum_type"], mat.defaults["unit"] = d
    if v.bool("permittivity"):
        mat.data["name"] = "eps"
    overlap(v, rs, d)
    check_range(v, mat, rs, d)


@contract("C10", "material.Material.get_maximum_valid_range", n=700, split=3)
def kinds(v):
    """every kind of material, in every default unit"""
    d = v.choice("default_unit", SOME if v.sym else UNITS)
    m = some_material(v, kinds=[k for k in ALL if k not in FIXED and k != "mixed"], units=SOME[:2] if v.sym else UNITS)
    m.mat.defaults["spectrum_type"], m.mat.defaults["unit"] = d
    check_range(v, m.mat, m.ranges, d)


@contract("C10", "material.Material.get_maximum_valid_range", "material.Material.__init__", n=500, split=2)
def own_default(v):
    """the default unit is the one the material was defined in"""
    m = some_material(v, kinds=TABLES + ["model:Sellmeier", "model:Drude"], units=UNITS)
    a, lo, hi = m.ranges[0]
    check_range(v, m.mat, m.ranges, a)


@contract("C10", "material.Material.get_maximum_valid_range", n=300)
def unbounded(v):
    """constants are valid everywhere: 0 to infinity in every unit"""
    m = some_material(v, kinds=FIXED)
    d = v.choice("default_unit", UNITS)
    m.mat.defaults["spectrum_type"], m.mat.defaults["unit"] = d
    r = v.ok(v.call(m.mat.get_maximum_valid_range), "range reported")
    v.ensure_eq(v.elem(r, 0), 0.0, "from 0")
    v.ensure_eq(v.elem(r, 1), v.numpy.inf, "to infinity")


def half_open_parts(v, u1, u2):
    """parts whose ranges may start at 0 or go on to infinity"""
    M, sd = v.mod().Material, v.mod("spectral_data")
    inf = v.numpy.inf
    mat = v.ok(v.call(M, fixed_n=v.q("1.5") if v.sym else 1.5), "material created")
    rs = []
    for part, a in (("real", u1), ("imag", u2)):
        r = valid_range(v, part + "_r", a)
        how = v.choice(part + "_ends", ["from 0", "to infinity", "bounded"])
        lo, hi = {"from 0": (0.0, r[1]), "to infinity": (r[0], inf), "bounded": r}[how]
        mat.data[part] = v.ok(v.call(sd.Constant, v.real(part + "_c", gen=(0.1, 3.0)), valid_range=(lo, hi), spectrum_type=a[0], unit=a[1]),
                              "constant created")
        rs.append((a, how, r))
    return mat, rs


def half_ends(v, rs, d):
    """(lower, upper) of each part in unit d; None: 0 or infinity"""
    out = []
    for a, how, r in rs:
        p = None if how == "from 0" else conv(v, a, d, r[0])
        q = None if how == "to infinity" else conv(v, a, d, r[1])
        out.append((p, q) if (a[0] == "wavelength") == (d[0] == "wavelength") else (q, p))
    return out


@contract("C10", "material.Material.get_maximum_valid_range", "material.Material.get_sample_spectrum", n=900, split=4)
def half_open(v):
    """ranges that start at 0 or go on to infinity"""
    d = v.choice("default_unit", SOME[:2] if v.sym else UNITS)
    u1 = v.choice("real_unit", SOME[:2] if v.sym else UNITS)
    u2 = v.choice("imag_unit", SOME[:2] if v.sym else UNITS)
    mat, rs = half_open_parts(v, u1, u2)
    mat.defaults["spectrum_type"], mat.defaults["unit"] = d
    es = half_ends(v, rs, d)
    for p, _ in es:
        for _, q in es:
            if p is not None and q is not None:
                v.assume(p < q)
                if not v.sym:
                    v.assume(v.apart(p, q, 1e-3))
    r = v.ok(v.call(mat.get_maximum_valid_range), "range reported")
    v.ensure_eq(v.len(r), 2, "two bounds")
    lo, hi = v.elem(r, 0), v.elem(r, 1)
    tol = 0.0 if v.sym else 1e-6
    ps, qs = [p for p, q in es if p is not None], [q for p, q in es if q is not None]
    for x, known, far, name in ((lo, ps, 0.0, "lower"), (hi, qs, v.numpy.inf, "upper")):
        if not known:
            v.ensure_eq(x, far, "%s bound: unbounded" % name)
            continue
        for p in known:
            if name == "lower":
                v.ensure(x >= p * (1 - tol), "not below the range of a part")
            else:
                v.ensure(x <= p * (1 + tol), "not above the range of a part")
        v.ensure(v.Or(*[(x <= p * (1 + tol) if name == "lower" else x >= p * (1 - tol)) for p in known]), "%s bound is that of a part" % name)
    s = v.ok(v.call(mat.get_sample_spectrum), "sample spectrum")
    n = v.len(s.values)
    v.ensure(n >= 2, "several points")
    if ps and qs:
        v.ensure(s.spectrum_type == d[0] and s.unit == d[1], "in the default type and unit")
        for i in v.each(n):
            x = v.elem(s.values, i)
            v.ensure(v.And(x >= lo, x <= hi), "within the range")
        v.ensure(v.Or(v.elem(s.values, 0) <= lo, v.elem(s.values, n - 1) <= lo), "reaches the lower end")
        v.ensure(v.Or(v.elem(s.values, 0) >= hi, v.elem(s.values, n - 1) >= hi), "reaches the upper end")
    else:
        w = v.ok(v.call(s.convert_to, "wavelength", "nm"), "converts")
        v.ensure_eq(v.elem(w, 0), 100.0, "from 100 nm", 1e-9)
        v.ensure_eq(v.elem(w, n - 1), 2000.0, "to 2000 nm", 1e-9)


@contract("C10", "material.Material.get_maximum_valid_range", "material.Material.get_nk_data", "material.Material.get_permittivity",
          n=700, split=4)
def requests(v):
    """requests inside the reported range evaluate, requests outside raise ValueError"""
    d = v.choice("default_unit", [SOME[0], SOME[1]] if v.sym else UNITS)
    u2 = v.choice("imag_unit", [SOME[0], SOME[1]] if v.sym else UNITS)
    where = v.choice("where", ["inside", "below", "above"])
    f = v.choice("quantity", ["get_nk_data", "get_permittivity"])
    mat, rs = two_parts(v, SOME[0] if v.sym else v.choice("real_unit", UNITS), u2)
    mat.defaults["spectrum_type"], mat.defaults["unit"] = d
    overlap(v, rs, d)
    r = v.ok(v.call(mat.get_maximum_valid_range), "range reported")
    lo, hi = v.elem(r, 0), v.elem(r, 1)
    if v.sym:
        x = v.pos("x")
        v.assume({"inside": v.And(x >= lo, x <= hi), "below": x < lo, "above": x > hi}[where])
    else:
        t = v.real("t", gen=(0.01, 0.99))
        v.assume(0.001 < t < 0.999)
        lo, hi = float(lo), float(hi)
        x = {"inside": lo + t * (hi - lo), "below": lo * t, "above": hi / t}[where]
    out = v.call(getattr(mat, f), x, spectrum_type=d[0], unit=d[1])
    if where == "inside":
        v.ok(out, "evaluates inside the reported range")
    else:
        v.raises(out, ValueError, "%s the reported range" % where)


@contract("C10", "material.Material.get_sample_spectrum", n=500, split=3)
def sample(v):
    """the sample spectrum lies within the range and reaches both ends"""
    d = v.choice("default_unit", SOME if v.sym else UNITS)
    m = some_material(v, kinds=TABLES[:3] + ["model:Cauchy", "model:Drude", "mixed"], units=SOME[:2] if v.sym else UNITS)
    m.mat.defaults["spectrum_type"], m.mat.defaults["unit"] = d
    overlap(v, m.ranges, d)
    r = v.ok(v.call(m.mat.get_maximum_valid_range), "range reported")
    lo, hi = v.elem(r, 0), v.elem(r, 1)
    s = v.ok(v.call(m.mat.get_sample_spectrum), "sample spectrum")
    n = v.len(s.values)
    v.ensure(n >= 2, "several points")
    v.ensure_eq(s.spectrum_type, d[0], "default type")
    v.ensure_eq(s.unit, d[1], "default unit")
    for i in v.each(n):
        x = v.elem(s.values, i)
        v.ensure(v.And(x >= lo, x <= hi), "within the range")
    v.ensure(v.Or(v.elem(s.values, 0) <= lo, v.elem(s.values, n - 1) <= lo), "reaches the lower end")
    v.ensure(v.Or(v.elem(s.values, 0) >= hi, v.elem(s.values, n - 1) >= hi), "reaches the upper end")


@contract("C10", "material.Material.get_sample_spectrum", n=200, split=2)
def sample_unbounded(v):
    """100 to 2000 nm when the range is unbounded"""
    m = some_material(v, kinds=FIXED)
    d = v.choice("default_unit", UNITS)
    m.mat.defaults["spectrum_type"], m.mat.defaults["unit"] = d
    s = v.ok(v.call(m.mat.get_sample_spectrum), "sample spectrum")
    w = v.ok(v.call(s.convert_to, "wavelength", "nm"), "converts")
    n = v.len(w)
    v.ensure(n >= 2, "several points")
    for i in v.each(n):
        x = v.elem(w, i)
        v.ensure(v.And(x >= v.q("99.9999999"), x <= v.q("2000.000001")), "100 to 2000 nm")
    v.ensure_eq(v.elem(w, 0), 100.0, "from 100 nm", 1e-9)
    v.ensure_eq(v.elem(w, n - 1), 2000.0, "to 2000 nm", 1e-9)
