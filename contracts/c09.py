"""C09 A material is created from exactly one well-formed source."""
from pv.api import contract
from contracts._lib import UNITS, GEN, UM, EV, conv, points, at, shape_ok
from contracts._mats import FIXED, TABLES, fixed_value, request_in
from contracts.c05 import parts, cplx

SOURCES = ["file_path"] + FIXED + TABLES + ["model_kw"]
OPTS = ["spectrum_type", "unit", "interp_order"]


def source(v, name, unit=None):
    """a well-formed value of a source (units: those of the arguments)"""
    if name == "file_path":
        return "no/such/folder/file.txt"
    if name in FIXED:
        return fixed_value(v, name, name)
    if name in TABLES:
        n = v.length(name + "_rows", 2, cap=4)
        return v.table(name, n, 2 if name == "tabulated_n" else 3, lo=0, gen=GEN[(unit or UNITS[3])[1]], colgen=(0.2, 5.0))
    return {"name": "Cauchy", "parameters": v.arr([v.real("c0", gen=(1.0, 2.0)), v.real("c1", gen=(0.0, 0.1)), -2.0]),
            "valid_range": v.lst([0.2, 2.0]), "spectrum_type": "wavelength", "unit": "um"}


@contract("C09", "material.Material._parse_args", "material.Material.__init__", n=900, split=4)
def exactly_one(v):
    """every combination of sources: exactly one succeeds, none or several raise ValueError"""
    M = v.mod().Material
    given = [s for s in SOURCES if v.bool(s)]
    if v.sym is False and v.bool("few"):
        given = given[:v.rng.randint(0, 2)]
    kw = {s: source(v, s) for s in given}
    fill = v.choice("others", ["absent", "None"])
    if fill == "None":
        for s in SOURCES:
            kw.setdefault(s, None)
    out = v.call(M, **kw)
    if len(given) == 1:
        if given[0] != "file_path":
            v.ok(out, "one source (%s)" % given[0])
    else:
        v.raises(out, ValueError, "%d sources" % len(given))


@contract("C09", "material.Material._parse_args", "material.Material.__init__", n=300, split=2)
def two_sources(v):
    """two sources raise ValueError in whatever order, with options given too"""
    M = v.mod().Material
    a = v.choice("first", SOURCES)
    b = v.choice("second", [s for s in SOURCES if s != a])
    kw = {a: source(v, a), b: source(v, b)}
    if v.bool("options"):
        kw.update(spectrum_type="wavelength", unit="nm", interp_order=1)
    v.raises(v.call(M, **kw), ValueError, "two sources")


def wrong_values(v, name):
    x, y = v.real("w", gen=(0.5, 3.0)), v.real("w2", gen=(0.5, 3.0))
    z = cplx(v, x, y)
    a = v.array("wa", v.length("wn", 1), gen=(0.5, 3.0))
    tab = {"list of rows": [[400.0, 1.5, 0.1], [500.0, 1.6, 0.1]], "text": "400 1.5 0.1\n500 1.6 0.1", "number": x, "dict": {"a": 1}}
    return {"file_path": {"number": x, "integer": 3, "bytes": b"a.txt", "list": ["a.txt"], "dict": {}},
            "fixed_n": {"text": "1.5", "complex": z, "list": [1.5], "integer": 2, "array": a, "dict": {}},
            "fixed_eps_r": {"text": "1.5", "complex": z, "list": [1.5], "integer": 2, "array": a, "dict": {}},
            "fixed_nk": {"text": "1.5", "float": x, "list": [1.5], "integer": 2, "array": a, "tuple": (1.5, 0.1)},
            "fixed_eps": {"text": "1.5", "float": x, "list": [1.5], "integer": 2, "array": a, "tuple": (1.5, 0.1)},
            "model_kw": {"text": "Cauchy", "list": [1.0], "number": x, "array": a},
            "spectrum_type": {"integer": 1, "list": ["wavelength"], "bytes": b"wavelength", "number": x},
            "unit": {"integer": 1, "list": ["nm"], "bytes": b"nm", "number": x},
            "interp_order": {"text": "linear", "float": 2.0, "list": [1], "number": x}}.get(name, tab)


@contract("C09", "material.Material._check_type", "material.Material._parse_args", n=600, split=1)
def wrong_type(v):
    """a source or option of the wrong type raises TypeError"""
    M = v.mod().Material
    name = v.choice("argument", SOURCES + OPTS)
    w = wrong_values(v, name)
    k = v.choice("value", sorted(w))
    kw = {name: w[k]}
    if name in OPTS:
        s = v.choice("source", [s for s in SOURCES if s != "file_path"])
        kw[s] = source(v, s)
    v.raises(v.call(M, **kw), TypeError, "%s given as %s" % (name, k))


@contract("C09", "material._check_table_shape", "material.Material._parse_args", n=400, split=2)
def wrong_shape(v):
    """a table with the wrong number of columns or dimensions raises ValueError, the right one is accepted"""
    M = v.mod().Material
    name = v.choice("table", TABLES)
    want = 2 if name == "tabulated_n" else 3
    dims = v.choice("dims", [2, 1, 3, 0])
    n = v.length("rows", 2, cap=4)
    np = v.numpy
    if dims == 2:
        cols = v.choice("columns", [1, 2, 3, 4, 5])
        t = v.table("t", n, cols, lo=0, gen=GEN["nm"], colgen=(0.2, 5.0))
        out = v.call(M, **{name: t})
        if cols == want:
            v.ok(out, "well-formed table")
        else:
            v.raises(out, ValueError, "%d columns" % cols)
        return
    if dims == 1:
        k = v.length("entries", 0, cap=5)
        t = v.array("t1", k, gen=(100.0, 900.0))
    elif dims == 3:
        t = np.zeros((2, want, v.choice("depth", [1, 2, 3]))) if v.bool("last") else np.zeros((2, 2, want))
    else:
        t = np.array(1.5)
    v.raises(v.call(M, **{name: t}), ValueError, "%d dimensions" % dims)


@contract("C09", "material.Material._parse_args", "material.Material._process_fixed_value", "material.Material.__init__", n=700, split=2)
def alone(v):
    """the given source alone determines the data; None counts as not given; wavelength and nanometre by default"""
    M = v.mod().Material
    name = v.choice("source", [s for s in SOURCES if s != "file_path"])
    val = source(v, name)
    v0 = v.snap(val)
    none = {k: None for k in SOURCES + OPTS if k != name}
    some = v.choice("nones", ["all", "options", "sources", "one"])
    if some == "options":
        none = {k: None for k in OPTS}
    elif some == "sources":
        none = {k: x for k, x in none.items() if k not in OPTS}
    elif some == "one":
        k = v.choice("which", sorted(none))
        none = {k: None}
    m1 = v.ok(v.call(M, **{name: v.snap(v0)}), "created")
    m2 = v.ok(v.call(M, **{name: v.snap(v0), **none}), "created with None")
    v.same(v.state(m2.data), v.state(m1.data), "same data with None")
    b = ("wavelength", "nm") if name != "model_kw" else ("wavelength", "um")
    for m in (m1, m2):
        v.ensure(v.mod("spectrum").Spectrum.check_type(m.defaults["spectrum_type"], b[0]), "default type")
        s = v.ok(v.call(v.mod("spectrum").Spectrum, 1.0, spectrum_type=m.defaults["spectrum_type"], unit=m.defaults["unit"]), "default unit")
        v.ensure_eq(s.unit, b[1], "default unit")
    if name in TABLES:
        n = v.len(v0)
        r = v.ok(v.call(m2.get_maximum_valid_range), "range")
        v.ensure_eq(v.elem(r, 0), v.cell(v0, 0, 0), "range in nanometres", 1e-9)
        v.ensure_eq(v.elem(r, 1), v.cell(v0, n - 1, 0), "range in nanometres", 1e-9)
        x, k, ent = request_in(v, "x", [(b, v.cell(v0, 0, 0), v.cell(v0, n - 1, 0))], b)
    elif name == "model_kw":
        x, k, ent = request_in(v, "x", [(b, v.q("0.2"), v.q("2.0"))], b)
    else:
        x, k, ent = request_in(v, "x", [], b)
    f = "get_permittivity" if "eps" in name else "get_nk_data"
    r1 = v.ok(v.call(getattr(m1, f), x, spectrum_type=b[0], unit=b[1]), "evaluates")
    r2 = v.ok(v.call(getattr(m2, f), x, spectrum_type=b[0], unit=b[1]), "evaluates")
    for i in points(v, k):
        p, q = parts(v, at(v, r1, i)), parts(v, at(v, r2, i))
        v.ensure_eq(p[0], q[0], "same value with None")
        v.ensure_eq(p[1], q[1], "same value with None")
        if name in FIXED:
            w = parts(v, v0)
            v.ensure_eq(p[0], w[0], "the given value")
            v.ensure_eq(p[1], w[1], "the given value")


@contract("C09", "material.Material.__init__", "material.Material._process_table", "material.Material._spec_data_from_table", n=400, split=2)
def options(v):
    """spectrum type, unit and interpolation order given with a table are the ones used"""
    M = v.mod().Material
    a = v.choice("unit", UNITS)
    name = v.choice("source", TABLES)
    order = v.choice("order", [None, 1, 2, 3])
    n = v.length("rows", 5, sizes=[5], cap=7)
    t = v.table("t", n, 2 if name == "tabulated_n" else 3, lo=0, gen=GEN[a[1]], colgen=(0.2, 5.0))
    t0 = v.snap(t)
    kw = {} if order is None else {"interp_order": order}
    m = v.ok(v.call(M, **{name: t, "spectrum_type": a[0], "unit": a[1]}, **kw), "created")
    r = v.ok(v.call(m.get_maximum_valid_range), "range")
    v.ensure_eq(v.elem(r, 0), v.cell(t0, 0, 0), "range in the given unit")
    v.ensure_eq(v.elem(r, 1), v.cell(t0, n - 1, 0), "range in the given unit")
    if not v.sym and not all(v.apart(t0[i][0], t0[i + 1][0], 1e-3) for i in range(n - 1)):
        return
    x, k, ent = request_in(v, "x", [(a, v.cell(t0, 0, 0), v.cell(t0, n - 1, 0))], a, ("scalar",))
    f = "get_permittivity" if "eps" in name else "get_nk_data"
    g = parts(v, at(v, v.ok(v.call(getattr(m, f), x, spectrum_type=a[0], unit=a[1]), "evaluates"), None))
    w = v.interp(t0[:, 0], t0[:, 1], order or 1, x)
    v.ensure_eq(g[0], w if v.sym else float(w), "interpolated with the given order", 1e-6, 1e-6)
