"""C15 YAML material files survive a write/read round trip."""
from pv.api import contract
from contracts._lib import UNITS, FORMULAS, EPSMODELS, GEN, UM, EV, model_params, home
from contracts.c14 import KEYS, WORDS, META, close8, in_unit, is_zero, part_is, rows, set_meta, table, words, write

SPECS = [{}, {"temperature": "20 C"}, {"substrate": "glass: BK7", "n_absolute": True, "custom": "x"}, {"film_thickness": 50.5, "zz": {"a": [1, 2]}}]


SPECKEYS = ["n_absolute", "wavelength_vacuum", "film_thickness", "substrate", "temperature", "pressure", "deposition_temperature", "direction",
            "custom", "zz", "Temperature", "pressure (bar)"]


def specification(v):
    if v.sym or v.bool("spec listed"):
        return dict(v.choice("spec", SPECS[:2] if v.sym else SPECS))
    keys = v.shuffled("spec order", v.some("spec keys", SPECKEYS))
    return {k: v.choice("spec " + k, [k + " of this", True, False, 50.5, 3, ["a", 1], {"a": [1, 2]}, "20 C", "1.5", ""]) for k in keys}


def parameters(v, name, tag=""):
    """coefficients of the shape the model documents; any number of them in executions"""
    if v.sym:
        return model_params(v, name, 1)
    r = v.rng
    many = {"Sellmeier": 2, "Sellmeier2": 2, "Gases": 2, "Polynomial": 2, "Cauchy": 2, "DrudeLorentz": 3}
    fixed = {"RefractiveIndexInfo": 11, "Herzberger": 6, "Exotic": 6, "Retro": 4, "Drude": 2, "TaucLorentz": 5, "Fano": 3}
    n = fixed[name] if name in fixed else 1 + many[name] * r.choice([1, 2, 3, 8, 40, 600])
    p = [r.choice([-1, 1, 1]) * r.choice([r.uniform(0, 9), 10 ** r.uniform(-14, 14), float(r.randrange(9)), 1.0 / 3]) for _ in range(n)]
    v._log("p" + tag, p)
    return p


def bounds(v, name, a):
    if v.sym:
        lo, hi = v.pos(name + "_lo"), v.pos(name + "_hi")
    else:
        lo, hi = sorted(10 ** v.rng.uniform(-3, 3) * GEN[a[1]][0] for _ in range(2))
        v._log(name, [lo, hi])
    v.assume(lo < hi)
    return lo, hi


def model_is(v, part, name, p, rng, label):
    v.ensure(type(part).__name__ == name, "%s: %s" % (label, name))
    a = home(name)
    in_unit(v, part, a, label)
    v.ensure_eq(v.len(part.model_parameters), len(p), label + ": number of parameters")
    for i, x in enumerate(p):
        close8(v, v.elem(part.model_parameters, i), x, label + ": parameters")
    for i in range(2):
        close8(v, v.elem(part.valid_range.values, i), rng[i], label + ": valid range")


def model_kw(v, name, p, rng):
    a = home(name)
    return {"name": name, "parameters": v.arr(p), "valid_range": v.lst(rng), "spectrum_type": a[0], "unit": a[1]}


def there_and_back(v, mat, meta, comment, spec):
    for k, s in meta.items():
        mat.meta_data[k] = s
    mat.meta_data["MetaComment"] = comment
    mat.meta_data["Specification"] = spec
    path = v.folder() + "/m.yml"
    before = v.state(mat)
    v.ok(write(v, path, mat), "written")
    v.same(v.state(mat), before, "material unchanged")
    got = v.ok(v.call(v.mod().Material, file_path=path), "read back")
    for k in KEYS:
        v.ensure(got.meta_data[k] == meta[k], "%s survives" % k)
    v.ensure(got.meta_data["MetaComment"] == comment, "meta-comment survives")
    v.ensure(got.meta_data["Specification"] == spec, "specification survives")
    return got


def some_meta(v):
    w = words(v, "word")
    meta = {k: (w if v.sym else words(v, k)) for k in KEYS}
    comment = v.choice("meta", META[:3]) if v.sym else v.phrase("meta", META, lines=True)
    return meta, comment, specification(v)


def other_points(v, n, a, t, same, name="t2"):
    """a second table, on the points of t or on others"""
    u, m = table(v, "n", n, name)
    if same:
        if v.sym:
            rows_ = [[v.cell(t, i, 0), v.cell(u, i, 1)] for i in range(n)]
            return v.arr(rows_)
        u[:, 0] = t[:, 0]
    return u


RT = ("io.Writer.write_file", "io.Writer._write_yaml_file", "io.write_yaml_file", "io.read_yaml_file", "io.Reader._read_yaml_mat_file",
      "io.Reader._process_mat_dict", "io.Reader._process_mat_data_dict", "io._numeric_to_string_table", "io._str_table_to_numeric",
      "material.Material._process_file_data", "material.Material.dataset_to_dict", "material.Material.collapse_datasets")


@contract("C15", *RT, kind="bounded", n=900, split=5)
def tables(v):
    """tabulated data survives"""
    kind = v.choice("kind", ["n", "nk", "eps"])
    n = rows(v)
    a = v.choice("unit", [UNITS[0], UNITS[6]] if v.sym else UNITS)
    t, m = table(v, kind, n)
    mat = v.ok(v.call(v.mod().Material, spectrum_type=a[0], unit=a[1], **{"tabulated_" + kind: t}), "material created")
    got = there_and_back(v, mat, *some_meta(v))
    v.ensure(got.data["name"] == ("eps" if kind == "eps" else "nk"), "kind of data")
    v.ensure(got.data["complex"] is None, "separate parts")
    part_is(v, got.data["real"], t, n, 1, a, "real part")
    if kind == "n":
        is_zero(v, got.data["imag"], a, "imaginary part")
    else:
        part_is(v, got.data["imag"], t, n, 2, a, "imaginary part")


@contract("C15", "material.Material._process_formula_data", "material.Material._process_model_dict", "spectral_data.Model.dict_repr", *RT,
          kind="bounded", n=900, split=5)
def models(v):
    """models survive, with every parameter and the range"""
    name = v.choice("model", FORMULAS + EPSMODELS)
    a = home(name)
    p = parameters(v, name)
    rng = bounds(v, "r", a)
    mat = v.ok(v.call(v.mod().Material, model_kw=model_kw(v, name, p, rng)), "material created")
    got = there_and_back(v, mat, *some_meta(v))
    v.ensure(got.data["name"] == ("nk" if a == UM else "eps"), "kind of data")
    if a == UM:
        v.ensure(got.data["complex"] is None, "separate parts")
        model_is(v, got.data["real"], name, p, rng, "real part")
        is_zero(v, got.data["imag"], a, "imaginary part")
    else:
        model_is(v, got.data["complex"], name, p, rng, "complex data")


@contract("C15", "material.Material._process_table", "spectral_data.Interpolation.dict_repr", *RT, kind="bounded", n=600, split=5)
def mixed(v):
    """parts of different kinds, on different points or in different units are kept apart"""
    what = v.choice("what", ["model+table", "tables", "eps tables"])
    n1 = rows(v)
    a1 = v.choice("unit1", [UNITS[0], UNITS[6]] if v.sym else UNITS)
    a2 = a1 if v.flag("same unit") else v.choice("unit2", [UNITS[2], UNITS[7]] if v.sym else UNITS)
    sd = v.mod("spectral_data")
    M = v.mod().Material
    if what == "model+table":
        name = v.choice("model", ["Sellmeier", "Cauchy"] if v.sym else FORMULAS)
        p = parameters(v, name)
        rng = bounds(v, "r", UM)
        mat = v.ok(v.call(M, model_kw=model_kw(v, name, p, rng)), "material created")
    else:
        t, m = table(v, "n", n1)
        mat = v.ok(v.call(M, tabulated_n=t, spectrum_type=a1[0], unit=a1[1]), "material created")
        if what == "eps tables":
            mat.data["name"] = "eps"
    same = what != "model+table" and v.flag("same points")
    n2 = n1 if same else (v.length("n2", 2, sizes=[2, 3]) if v.sym else v.choice("n2", [2, 3, 9, 700]))
    u = other_points(v, n2, a2, None if what == "model+table" else t, same)
    mat.data["imag"] = v.ok(v.call(sd.Interpolation, u, spectrum_type=a2[0], unit=a2[1]), "table created")
    meta, comment, spec = some_meta(v) if not v.sym else ({k: "w" for k in KEYS}, "", {})
    got = there_and_back(v, mat, meta, comment, spec)
    v.ensure(got.data["name"] == ("eps" if what == "eps tables" else "nk"), "kind of data")
    v.ensure(got.data["complex"] is None, "separate parts")
    if what == "model+table":
        model_is(v, got.data["real"], name, p, rng, "real part")
    else:
        part_is(v, got.data["real"], t, n1, 1, a1, "real part")
    part_is(v, got.data["imag"], u, n2, 1, a2, "imaginary part")
