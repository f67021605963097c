"""C08 Evaluation is pointwise, repeatable and free of side effects."""
from pv.api import contract
from contracts._lib import UNITS, GEN, UM, EV, FORMULAS, EPSMODELS, points, at, shape_ok, valid_range, model_params, home
from contracts._mats import some_material, request_in, ALL, FIXED, TABLES
from contracts.c05 import parts

SOME = [UNITS[0], UNITS[3], UNITS[6], UNITS[8]]
DATA = ["Constant", "Interpolation"] + FORMULAS + EPSMODELS + ["Fano"]


def spectrum(v, arg, b):
    return v.ok(v.call(v.mod("spectrum").Spectrum, arg, spectrum_type=b[0], unit=b[1]), "request created")


def req_state(s):
    """what a request denotes"""
    return {"values": s.values, "type": s.spectrum_type, "unit": s.unit, "standard": s.standard_rep}


def some_data(v, names=DATA, units=UNITS):
    """a data set: (object, ranges, inputs it was made from, maker)"""
    sd = v.mod("spectral_data")
    name = v.choice("data", list(names))
    if name == "Constant":
        a = v.choice("data_unit", units)
        rng = valid_range(v, "r", a)
        x = v.real("const", gen=(-5.0, 5.0))
        ins = v.lst(rng)
        make = lambda ins: v.ok(v.call(sd.Constant, x, valid_range=ins, spectrum_type=a[0], unit=a[1]), "constant created")
    elif name == "Interpolation":
        a = v.choice("data_unit", units)
        n = v.length("rows", 2, cap=5)
        ins = v.table("t", n, 2, lo=0, gen=GEN[a[1]], colgen=(0.2, 5.0))
        rng = (v.cell(ins, 0, 0), v.cell(ins, n - 1, 0))
        make = lambda ins: v.ok(v.call(sd.Interpolation, ins, spectrum_type=a[0], unit=a[1]), "table created")
    else:
        a = home(name)
        rng = valid_range(v, "r", a)
        p = model_params(v, name, 1)
        ins = v.arr(p)
        make = lambda ins: v.ok(v.call(getattr(sd, name), ins, v.lst(rng), spectrum_type=a[0], unit=a[1]), "%s created" % name)
    i0 = v.snap(ins)
    return make(ins), [(a, rng[0], rng[1])], ins, (lambda: make(v.snap(i0)))


def eq(v, a, b, label, rtol=1e-9):
    """equal values; both undefined counts as equal"""
    if v.sym:
        return v.ensure_eq(a, b, label)
    x, y = complex(a), complex(b)
    import cmath
    if cmath.isnan(x) and cmath.isnan(y):
        return
    v.ensure_eq(a, b, label, rtol, rtol * abs(y))


@contract("C08", "spectral_data.Constant.evaluate", "spectral_data.Interpolation.evaluate", "spectral_data.Model.preprocess",
          *["spectral_data.%s.evaluate" % m for m in FORMULAS + EPSMODELS + ["Fano"]], n=700, split=3)
def data_pointwise(v):
    """a data set on n points: n values, each the value at that point alone; request, inputs and data set unchanged"""
    d, rngs, ins, make = some_data(v, units=SOME if v.sym else UNITS)
    b = v.choice("request_unit", SOME[:3])
    arg, n, ent = request_in(v, "x", rngs, b, ("array", "scalar") if not v.sym else ("array",))
    s = spectrum(v, arg, b)
    before, st, in0 = v.state(req_state(s)), v.state(d), v.snap(ins)
    r = v.ok(v.call(d.evaluate, s), "evaluates")
    r0 = v.snap(r)
    shape_ok(v, r, n)
    v.same(v.state(req_state(s)), before, "request unchanged")
    v.same(v.state(d), st, "data set unchanged")
    v.same(ins, in0, "table or coefficients unchanged")
    again = v.ok(v.call(d.evaluate, s), "evaluates again")
    for i in points(v, n):
        s1 = spectrum(v, ent(i), b)
        one = v.ok(v.call(d.evaluate, s1), "a single point evaluates")
        v.ensure(v.is_scalar(one), "number for a number")
        eq(v, at(v, r0, i), at(v, one, None), "the value at the point alone")
        eq(v, at(v, again, i), at(v, r0, i), "same answer again", 0.0)
    v.same(r, r0, "an answer given stays as it was")


@contract("C08", "material.Material.get_nk_data", "material.Material.get_permittivity", n=700, split=3)
def material_pointwise(v):
    """a material on n points: n values, each the value at that point alone, request and material unchanged"""
    m = some_material(v, units=SOME[:2] if v.sym else UNITS)
    b = v.choice("request_unit", SOME[:3])
    f = v.choice("quantity", ["get_nk_data", "get_permittivity"])
    arg, n, ent = request_in(v, "x", m.ranges, b, ("array", "list") if not v.sym else ("array",))
    raw = v.bool("as_numbers")
    a0 = v.snap(arg)
    st = v.state(m.mat)
    if raw:
        r = v.ok(v.call(getattr(m.mat, f), arg, spectrum_type=b[0], unit=b[1]), "evaluates")
    else:
        s = spectrum(v, arg, b)
        before = v.state(req_state(s))
        r = v.ok(v.call(getattr(m.mat, f), s), "evaluates")
        v.same(v.state(req_state(s)), before, "request unchanged")
    v.same(arg, a0, "values given unchanged")
    v.same(v.state(m.mat), st, "material unchanged")
    shape_ok(v, r, n)
    for i in points(v, n):
        one = v.ok(v.call(getattr(m.mat, f), ent(i), spectrum_type=b[0], unit=b[1]), "a single point evaluates")
        v.ensure(v.is_scalar(one), "number for a number")
        p, q = parts(v, at(v, r, i))
        x, y = parts(v, at(v, one, None))
        eq(v, p, x, "the value at the point alone (real part)")
        eq(v, q, y, "the value at the point alone (imaginary part)")


def related(v, x, n, y, m):
    """executions: a second request that resembles the first (same length, ends, or the same array with new content)"""
    how = v.choice("related", ["no", "reversed", "shuffled", "middle", "in place", "first", "last"])
    if how == "no":
        return y, m
    z = v.numpy.array(x, dtype=float)
    new = float(y[0]) if m is not None else float(y)
    if how == "reversed":
        return z[::-1], n
    if how == "shuffled":
        return v.numpy.array(sorted(z, key=lambda t: hash(t))), n
    if how == "in place":
        x[:] = x[::-1].copy()
        x[n // 2] = new
        return x, n
    z[{"middle": n // 2, "first": 0, "last": -1}[how]] = new
    return z, n


@contract("C08", "material.Material.get_nk_data", "material.Material.get_permittivity", "material.Material.get_maximum_valid_range",
          "material.Material.get_sample_spectrum", n=500, split=3)
def history(v):
    """what was evaluated or asked before makes no difference"""
    m = some_material(v, units=SOME[:1] if v.sym else UNITS)
    b = SOME[1]
    x, n1, e1 = request_in(v, "x", m.ranges, b, ("array", "scalar"))
    y, n2, e2 = request_in(v, "y", m.ranges, b, ("array", "scalar"))
    ops = ["get_nk_data", "get_permittivity", "get_maximum_valid_range", "prepare_file_dict"] if not v.sym else ["get_nk_data", "get_permittivity",
                                                                                       "get_maximum_valid_range"]
    first = v.choice("before", ops)
    if first.startswith("get_n") or first.startswith("get_p"):
        v.call(getattr(m.mat, first), x, spectrum_type=b[0], unit=b[1])
        v.call(getattr(m.mat, first), v.real("wild", gen=(1.0, 50.0)), spectrum_type="wavelength", unit="um")
    else:
        v.call(getattr(m.mat, first))
    f = v.choice("quantity", ["get_nk_data", "get_permittivity"])
    if not v.sym and n1 is not None and n1 >= 2:
        y, n2 = related(v, x, n1, y, n2)
    r = v.ok(v.call(getattr(m.mat, f), y, spectrum_type=b[0], unit=b[1]), "evaluates")
    q = v.ok(v.call(getattr(m.make(), f), y, spectrum_type=b[0], unit=b[1]), "a fresh material evaluates")
    shape_ok(v, r, n2)
    for i in points(v, n2):
        for u, w in zip(parts(v, at(v, r, i)), parts(v, at(v, q, i))):
            eq(v, u, w, "same answer as a fresh material")


@contract("C08", "material.Material.__init__", "spectral_data.SpectralData.__init__", "material.Material.remove_absorption",
          "material.Material.extrapolate", n=500, split=3)
def independent(v):
    """creating, evaluating and changing another material, even from the same input, leaves a material alone"""
    m = some_material(v, units=SOME[:1] if v.sym else UNITS)
    b = SOME[0]
    x, n, e = request_in(v, "x", m.ranges, b, ("array",) if v.sym else ("array", "scalar"))
    s = spectrum(v, x, b)
    st = v.state(m.mat)
    r = v.ok(v.call(m.mat.get_nk_data, s), "evaluates")
    M = v.mod().Material
    how = v.choice("other", ["same input", "fixed_n", "fixed_eps", "other table"])
    if how == "same input":
        if m.kind in TABLES:
            o = v.ok(v.call(M, **{m.kind: m.given[2], "spectrum_type": m.given[0][0], "unit": m.given[0][1]}), "another one")
        else:
            o = m.make()
    elif how == "fixed_n":
        o = v.ok(v.call(M, fixed_n=v.real("c", gen=(0.1, 4.0))), "another one")
    elif how == "fixed_eps":
        from contracts.c05 import cplx
        o = v.ok(v.call(M, fixed_eps=cplx(v, v.real("c", gen=(0.1, 4.0)), v.real("d", gen=(0.1, 4.0)))), "another one")
    else:
        k = v.length("o_rows", 2, cap=4)
        t = v.table("o_t", k, 3, lo=0, gen=GEN["ev"])
        o = v.ok(v.call(M, tabulated_nk=t, spectrum_type="energy", unit="ev"), "another one")
    v.call(o.get_permittivity, s)
    o.meta_data["Name"] = "other"
    o.defaults["unit"] = "other"
    act = v.choice("then", ["remove_absorption", "evaluate"])
    if act == "remove_absorption":
        v.ok(v.call(o.remove_absorption), "absorption removed")
    q = v.ok(v.call(m.mat.get_nk_data, s), "evaluates")
    for i in points(v, n):
        for u, w in zip(parts(v, at(v, q, i)), parts(v, at(v, r, i))):
            eq(v, u, w, "same answer as before")
    v.same(v.state(m.mat), st, "material unchanged")
