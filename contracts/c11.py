"""C11 Extrapolation extends the range and leaves the original data alone."""
from pv.api import contract
from contracts._lib import UNITS, GEN, UM, conv, points, at, shape_ok, valid_range, model_params, home
from contracts._mats import some_material, request_in, ALL, FIXED, TABLES
from contracts.c05 import parts
from contracts.c08 import spectrum, req_state, some_data, eq

SOME = [UNITS[3], UNITS[6], UNITS[8], UNITS[0]]
BASES = ["Interpolation", "Cauchy", "Sellmeier2", "Retro"]


def base_data(v, units):
    d, rngs, ins, make = some_data(v, BASES[:2] if v.sym else BASES, units)
    a, lo, hi = rngs[0]
    if not v.sym:
        v.assume(v.apart(lo, hi, 1e-2))
    return d, a, lo, hi, make


def beyond(v, name, a, lo, hi, b, side):
    """a point below or above the range, in unit b; and its value in unit a"""
    if v.sym:
        e = v.pos(name)
        x = conv(v, b, a, e)
        v.assume(x < lo if side == "below" else x > hi)
        return e, x
    f = v.real(name + "_f", gen=(0.2, 0.97))
    v.assume(0.05 < f < 0.99)
    x = lo * f if side == "below" else hi / f
    return float(conv(v, a, b, x)), x


FORMS = ["below", "above", "both", "both reversed", "below array", "above array"]


def extension(v, a, lo, hi, b, form):
    """one or two points beyond the range: (argument, new lo, new hi)"""
    nlo, nhi = lo, hi
    if not form.startswith("both"):
        side = form.split()[0]
        e, x = beyond(v, "e", a, lo, hi, b, side)
        if side == "below":
            nlo = x
        else:
            nhi = x
        return (e if form == side else v.arr([e])), nlo, nhi
    e1, nlo = beyond(v, "e1", a, lo, hi, b, "below")
    e2, nhi = beyond(v, "e2", a, lo, hi, b, "above")
    return v.arr([e1, e2] if form == "both" else [e2, e1]), nlo, nhi


def in_range(v, name, a, lo, hi, b):
    if v.sym:
        x = v.pos(name)
        y = conv(v, b, a, x)
        v.assume(v.And(y >= lo, y <= hi))
        return x
    if a == b:
        edge = v.choice(name + "_edge", ["no", "no", "lower", "upper"])
        if edge != "no":
            e = float(lo if edge == "lower" else hi)
            # up to the rounding grain of conversions (C01)
            v.assume(v.mod("spectrum").Spectrum(e, a[0], a[1]).convert_to(a[0], a[1]) == e)
            return e
    f = v.real(name + "_f", gen=(0.001, 0.999))
    v.assume(0.0005 < f < 0.9995)
    return float(conv(v, a, b, lo + f * (hi - lo)))


@contract("C11", "spectral_data.Extrapolation.__init__", "spectral_data.Extrapolation.get_extrap_spectrum",
          "spectral_data.Extrapolation.validate_extrap_val", "spectral_data.Extrapolation.extrapolate_data",
          "spectral_data.Extrapolation.evaluate", "spectral_data.SpectralData.suggest_spectrum", n=900, split=5)
def extended(v):
    """original values inside, success up to the new bounds, refusal beyond them; the spectra passed in stay as they are"""
    b = v.choice("extension_unit", SOME[:2] if v.sym else UNITS)
    c = v.choice("request_unit", [SOME[1], SOME[2]] if v.sym else UNITS)
    q = v.choice("request", ["inside", "extended", "beyond below", "beyond above"])
    form = v.choice("points", FORMS)
    d, a, lo, hi, make = base_data(v, SOME[:2] if v.sym else UNITS)
    arg, nlo, nhi = extension(v, a, lo, hi, b, form)
    s = spectrum(v, arg, b)
    before, st = v.state(req_state(s)), v.state(d)
    order = v.choice("order", [None, 3] if not v.sym else [None])
    E = v.ok(v.call(v.mod("spectral_data").Extrapolation, d, s, **({} if order is None else {"spline_order": order})), "extrapolation created")
    v.same(v.state(req_state(s)), before, "spectrum passed in unchanged")
    v.same(v.state(d), st, "original data unchanged")
    if q.startswith("beyond"):
        x, _ = beyond(v, "x", a, nlo, nhi, c, q.split()[1])
        sx = spectrum(v, x if v.bool("scalar") else v.arr([x]), c)
        v.raises(v.call(E.evaluate, sx), ValueError, "beyond the extended range")
        return
    x = in_range(v, "x", a, lo, hi, c) if q == "inside" else in_range(v, "x", a, nlo, nhi, c)
    sx = spectrum(v, x, c)
    r = v.ok(v.call(E.evaluate, sx), "evaluates inside the extended range")
    v.ensure(v.is_scalar(r), "number for a number")
    if q == "inside":
        o = v.ok(v.call(d.evaluate, sx), "original data evaluates")
        eq(v, at(v, r, None), at(v, o, None), "original value inside the original range", 1e-12)


@contract("C11", "spectral_data.Extrapolation.evaluate", "spectral_data.Extrapolation.get_extrap_spectrum", n=600, split=5)
def many_points(v):
    """requests of any length: each point inside the original range has its original value, all points in the extended range succeed"""
    b = v.choice("extension_unit", SOME[:1] if v.sym else UNITS)
    c = v.choice("request_unit", SOME[:2] if v.sym else UNITS)
    form = v.choice("points", FORMS)
    d, a, lo, hi, make = base_data(v, SOME[:1] if v.sym else UNITS)
    arg, nlo, nhi = extension(v, a, lo, hi, b, form)
    E = v.ok(v.call(v.mod("spectral_data").Extrapolation, d, spectrum(v, arg, b)), "extrapolation created")
    x, n, ent = request_in(v, "x", [(a, nlo, nhi)], c, ("array",))
    r = v.ok(v.call(E.evaluate, spectrum(v, x, c)), "evaluates inside the extended range")
    shape_ok(v, r, n)
    for i in points(v, n):
        y = conv(v, c, a, ent(i))
        if not v.sym and not (v.apart(y, lo) and v.apart(y, hi)):
            continue
        one = spectrum(v, ent(i), c)
        w = v.ok(v.call(E.evaluate, one), "the point alone evaluates")
        eq(v, at(v, r, i), at(v, w, None), "the value at the point alone", 1e-8)
        if v.cases(v.And(y >= lo, y <= hi)):
            o = v.ok(v.call(d.evaluate, one), "original data evaluates")
            eq(v, at(v, r, i), at(v, o, None), "original value inside the original range", 1e-9)


@contract("C11", "spectral_data.Extrapolation.get_extrap_spectrum", "spectral_data.Extrapolation.validate_extrap_val", n=500, split=3)
def refused(v):
    """a point inside the original range, or more than two points: ValueError"""
    d, a, lo, hi, make = base_data(v, SOME[:2] if v.sym else UNITS)
    b = v.choice("extension_unit", SOME if v.sym else UNITS + [a] * 5)
    E = v.mod("spectral_data").Extrapolation
    how = v.choice("how", ["inside", "inside array", "first inside", "second inside", "many"])
    if how == "many":
        n = v.length("n", 3)
        arg = v.array("e", n, lo=0, open_lo=True, gen=GEN[b[1]])
    else:
        e = in_range(v, "e", a, lo, hi, b)
        if how == "inside":
            arg = e
        elif how == "inside array":
            arg = v.arr([e])
        else:
            f, _ = beyond(v, "f", a, lo, hi, b, v.choice("side", ["below", "above"]))
            arg = v.arr([e, f] if how == "first inside" else [f, e])
    s = spectrum(v, arg, b)
    before = v.state(req_state(s))
    v.raises(v.call(E, d, s), ValueError, "%s: refused" % how)
    v.same(v.state(req_state(s)), before, "spectrum passed in unchanged")


@contract("C11", "material.Material.extrapolate", n=500, split=5)
def material(v):
    """a material is extended part by part; constants stay, complex models refuse"""
    c = v.choice("request_unit", SOME[:2] if v.sym else UNITS)
    inside = v.bool("inside")
    form = v.choice("form", ["scalar", "array"])
    m = some_material(v, kinds=[k for k in ALL + ["const_k"] if k not in ("tabulated_n_alpha", "tabulated_n", "tabulated_eps", "model:DrudeLorentz", "model:Sellmeier", "fixed_nk", "fixed_eps_r")] if v.sym else ALL + ["const_k"] * 2, units=SOME[:1] if v.sym else UNITS)
    if m.complex:
        st = v.state(m.mat)
        s = spectrum(v, v.pos("e", gen=(0.2, 20.0)), UM)
        v.raises(v.call(m.mat.extrapolate, s), NotImplementedError, "complex model refuses")
        v.same(v.state(m.mat), st, "material unchanged")
        return
    if m.kind in FIXED:
        s = spectrum(v, v.pos("e", gen=(0.2, 20.0)), UM)
        st = v.state(m.mat.data)
        v.ok(v.call(m.mat.extrapolate, s), "extrapolated")
        v.same(v.state(m.mat.data), st, "constants stay as they are")
        return
    # a bound beyond all ranges, on the side of long wavelengths
    S0 = UM
    wl = [sorted2(v, conv(v, a, S0, lo), conv(v, a, S0, hi), a) for a, lo, hi in m.ranges]
    if v.sym:
        e = v.pos("e")
        for p, q in wl:
            v.assume(e > q)
    else:
        if any(not v.apart(p, q, 1e-2) for p, q in wl):
            return
        e = max(q for p, q in wl) * v.real("e_f", gen=(1.05, 3.0))
    s = spectrum(v, e, S0)
    before = v.state(req_state(s))
    old = m.make()
    v.ok(v.call(m.mat.extrapolate, s, **({"spline_order": 1} if not v.sym and v.bool("order") else {})), "extrapolated")
    v.same(v.state(req_state(s)), before, "spectrum passed in unchanged")
    f = "get_nk_data" if m.name == "nk" else "get_permittivity"
    if inside:
        x, n, ent = request_in(v, "x", m.ranges, c, (form,))
        r = v.ok(v.call(getattr(m.mat, f), spectrum(v, x, c)), "evaluates")
        o = v.ok(v.call(getattr(old, f), spectrum(v, x, c)), "original evaluates")
        shape_ok(v, r, n)
        for i in points(v, n):
            for p, q in zip(parts(v, at(v, r, i)), parts(v, at(v, o, i))):
                eq(v, p, q, "original value inside the original range", 1e-12)
    else:
        x, n, ent = request_in(v, "x", [(S0, max(p for p, q in wl), e)] if not v.sym else [(S0, p, e) for p, q in wl], c, (form,))
        r = v.ok(v.call(getattr(m.mat, f), spectrum(v, x, c)), "evaluates inside the extended range")
        shape_ok(v, r, n)
        y = beyond(v, "y", S0, e, e, c, "above")[0]
        v.raises(v.call(getattr(m.mat, f), spectrum(v, y, c)), ValueError, "beyond the extended range")


def sorted2(v, p, q, a):
    """bounds in wavelengths, ascending"""
    return (p, q) if a[0] == "wavelength" else (q, p)
