"""C07 Refractive index and permittivity of a material are one quantity."""
from pv.api import contract
from contracts._lib import UNITS, GEN, points, at, shape_ok
from contracts._mats import some_material, request_in, ALL, FIXED, fixed_value
from contracts.c05 import parts, cplx

SOME = [UNITS[0], UNITS[3], UNITS[6], UNITS[8]]


def both(v, mat, arg, b, how):
    """nk and eps of a request, given as a Spectrum or as numbers"""
    if how:
        s = v.ok(v.call(v.mod("spectrum").Spectrum, arg, spectrum_type=b[0], unit=b[1]), "request created")
        nk = v.ok(v.call(mat.get_nk_data, s), "refractive index")
        ep = v.ok(v.call(mat.get_permittivity, s), "permittivity")
    else:
        nk = v.ok(v.call(mat.get_nk_data, arg, spectrum_type=b[0], unit=b[1]), "refractive index")
        ep = v.ok(v.call(mat.get_permittivity, arg, spectrum_type=b[0], unit=b[1]), "permittivity")
    return nk, ep


@contract("C07", "material.Material.get_nk_data", "material.Material.get_permittivity", "material.Material._complete_partial_data",
          n=600, split=3)
def square(v):
    """eps = (n+ik)^2; n+ik is the principal root when the permittivity was given"""
    b = v.choice("request_unit", SOME)
    how = v.bool("as_spectrum")
    m = some_material(v, units=SOME[:2] if v.sym else UNITS)
    arg, n, ent = request_in(v, "x", m.ranges, b)
    nk, ep = both(v, m.mat, arg, b, how)
    shape_ok(v, nk, n)
    shape_ok(v, ep, n)
    for i in points(v, n):
        x, y = parts(v, at(v, nk, i))
        p, q = parts(v, at(v, ep, i))
        sc = 0.0 if v.sym else 1e-9 * (x * x + y * y)
        v.ensure_eq(p, x * x - y * y, "permittivity is the square (real part)", 1e-9, sc)
        v.ensure_eq(q, 2 * x * y, "permittivity is the square (imaginary part)", 1e-9, sc)
        if m.name == "eps":
            v.ensure(x >= 0, "principal root: non-negative real part")
            v.ensure(v.Or(x > 0, y >= 0), "principal root: upper half plane on the cut")


@contract("C07", "material.Material._process_fixed_value", "material.Material._complete_partial_data", "spectral_data.Constant.evaluate",
          n=400)
def fixed(v):
    """a material defined by a fixed value returns that value everywhere"""
    kind = v.choice("kind", FIXED)
    x = fixed_value(v, "c", kind)
    re, im = parts(v, x)
    mat = v.ok(v.call(v.mod().Material, **{kind: x}), "%s created" % kind)
    b = v.choice("request_unit", UNITS)
    arg, n, ent = request_in(v, "x", [], b, ("scalar", "array", "list"))
    nk, ep = both(v, mat, arg, b, v.bool("as_spectrum"))
    got = ep if "eps" in kind else nk
    shape_ok(v, got, n)
    for i in points(v, n):
        p, q = parts(v, at(v, got, i))
        v.ensure_eq(p, re, "%s: real part" % kind, 1e-14)
        v.ensure_eq(q, im, "%s: imaginary part" % kind, 1e-14)


@contract("C07", "material.Material._process_model_dict", "material.Material._str_to_class", "material.Material.get_nk_data", n=300)
def model_parts(v):
    """index models give the real part of n+ik, permittivity models the complex permittivity"""
    b = v.choice("request_unit", SOME)
    m = some_material(v, kinds=[k for k in ALL if k.startswith("model:")])
    arg, n, ent = request_in(v, "x", m.ranges, b)
    nk, ep = both(v, m.mat, arg, b, True)
    name = m.kind.split(":")[1]
    a, lo, hi = m.ranges[0]
    d = v.ok(v.call(getattr(v.mod("spectral_data"), name), v.arr(m.given), v.lst([lo, hi]), spectrum_type=a[0], unit=a[1]), "model")
    s = v.ok(v.call(v.mod("spectrum").Spectrum, arg, spectrum_type=b[0], unit=b[1]), "request created")
    r = v.ok(v.call(d.evaluate, s), "model evaluates")
    for i in points(v, n):
        p, q = parts(v, at(v, r, i))
        x, y = parts(v, at(v, ep if m.name == "eps" else nk, i))
        v.ensure_eq(x, p, "real part of the model")
        v.ensure_eq(y, q if m.name == "eps" else 0.0, "imaginary part of the model")


@contract("C07", "material.Material._complete_partial_data", "material.Material.get_nk_data", n=300)
def separate_parts(v):
    """the real data is the real part and the imaginary data the imaginary part, in units of their own"""
    b = v.choice("request_unit", SOME)
    kind = v.choice("quantity", ["nk", "eps"])
    S = v.mod("spectrum").Spectrum
    sd = v.mod("spectral_data")
    m = some_material(v, kinds=["mixed"], units=SOME)
    m.mat.data["name"] = kind
    arg, n, ent = request_in(v, "x", m.ranges, b)
    s = v.ok(v.call(S, arg, spectrum_type=b[0], unit=b[1]), "request created")
    nk, ep = both(v, m.mat, arg, b, True)
    re = v.ok(v.call(m.mat.data["real"].evaluate, s), "real data")
    im = v.ok(v.call(m.mat.data["imag"].evaluate, s), "imaginary data")
    for i in points(v, n):
        x, y = parts(v, at(v, nk if kind == "nk" else ep, i))
        v.ensure_eq(x, at(v, re, i), "%s: real data in the real part" % kind)
        v.ensure_eq(y, at(v, im, i), "%s: imaginary data in the imaginary part" % kind)


@contract("C07", "material.Material.remove_absorption", n=400, split=2)
def no_absorption(v):
    """removing absorption keeps the real part and makes the imaginary part zero"""
    b = v.choice("request_unit", SOME)
    m = some_material(v, kinds=[k for k in ALL if k not in ("model:Drude", "model:DrudeLorentz")], units=SOME[:2] if v.sym else UNITS)
    arg, n, ent = request_in(v, "x", m.ranges, b)
    s = v.ok(v.call(v.mod("spectrum").Spectrum, arg, spectrum_type=b[0], unit=b[1]), "request created")
    f = m.mat.get_nk_data if m.name == "nk" else m.mat.get_permittivity
    r0 = v.ok(v.call(f, s), "evaluates")
    v.ok(v.call(m.mat.remove_absorption), "absorption removed")
    r1 = v.ok(v.call(f, s), "evaluates")
    shape_ok(v, r1, n)
    for i in points(v, n):
        x, y = parts(v, at(v, r1, i))
        v.ensure_eq(y, 0.0, "no imaginary part")
        v.ensure_eq(x, parts(v, at(v, r0, i))[0], "same real part")
