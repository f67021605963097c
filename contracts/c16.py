"""C16 Files are interpreted as their headers declare."""
from pv.api import contract
from contracts._lib import UNITS, FORMULAS, EPSMODELS, UM, EV, ALIASES, home
from contracts.c14 import part_is, is_zero, table, rows
from contracts.c15 import parameters, bounds, model_is

NUM = {1: "Sellmeier", 2: "Sellmeier2", 3: "Polynomial", 4: "RefractiveIndexInfo", 5: "Cauchy", 6: "Gases", 7: "Herzberger", 8: "Retro",
       9: "Exotic"}
RANGES = ["ValidRange", "validRange", "range", "spectra_range", "wavelength_range", "VALIDRANGE", "Range"]
RD = ("io.Reader.read_file", "io.Reader._read_yaml_mat_file", "io.Reader._process_mat_dict", "io.Reader._process_mat_data_dict",
      "io._str_table_to_numeric", "material.Material._process_file_data")


def line(v, xs, sep=" "):
    return sep.join(v.text(x) for x in xs)


def table_text(v, t, n, cols, sep=" "):
    return "\n".join(line(v, [v.cell(t, i, j) for j in cols], sep) for i in range(n))


def names(v, a, key):
    """some spelling of the type and unit"""
    if v.sym:
        return a
    al = [x for x, u in ALIASES[a[0]].items() if u == a[1]]
    f = v.rng.choice([str, str.upper, str.capitalize])
    r = f(a[0]), f(v.rng.choice(al))
    v._log(key, list(r))
    return r


def caller(v, a, how):
    return {} if how == "none" else dict(spectrum_type=a[0], unit=a[1])


def state_units(v, ds, a, key):
    st, un = names(v, a, key)
    if v.sym:
        ds["SpectrumType"], ds["Unit"] = st, un
    else:
        ds[v.rng.choice(["SpectrumType", "spectrumtype", "SPECTRUMTYPE"])] = st
        ds[v.rng.choice(["Unit", "unit", "UNIT"])] = un


def formula_set(v, tag=""):
    """(data set, model name, parameters, range)"""
    if v.bool("numbered" + tag):
        k = v.choice("formula" + tag, [1, 5, 9] if v.sym and tag else list(range(1, 10)))
        name, dtype = NUM[k], "formula %d" % k
    else:
        name = v.choice("model" + tag, ["Cauchy", "Drude"] if v.sym and tag else FORMULAS + EPSMODELS)
        dtype = "model " + name
    p = parameters(v, name, tag)
    a = home(name)
    rng = bounds(v, "r" + tag, a)
    rii = v.bool("spelling" + tag)
    ds = {"type" if rii else "DataType": dtype, "coefficients" if rii else "Parameters": line(v, p),
          v.choice("range key" + tag, [RANGES[0], RANGES[4]] if v.sym else RANGES): line(v, rng)}
    return ds, name, p, rng


@contract("C16", "material.Material._process_formula_data", "material.Material._process_model_dict", *RD, kind="bounded", n=900, split=5)
def formulas(v):
    """formula N and model NAME are the models of that name, with the coefficients and range of the file"""
    ds, name, p, rng = formula_set(v)
    a = home(name)
    stated = v.bool("stated")
    if stated:
        state_units(v, ds, a, "units")
        kw = caller(v, UNITS[0] if v.sym else v.choice("caller", UNITS), "none" if v.bool("no defaults") else "given")
    else:
        kw = caller(v, names(v, a, "units"), "given")
    path = v.folder() + "/f.yml"
    v.put_yaml(path, {"REFERENCES": "r", "DATA": [ds]})
    got = v.ok(v.call(v.mod().Material, file_path=path, **kw), "read")
    v.ensure(got.data["name"] == ("nk" if a == UM else "eps"), "kind of data")
    if a == UM:
        v.ensure(got.data["complex"] is None, "separate parts")
        model_is(v, got.data["real"], name, p, rng, "real part")
        is_zero(v, got.data["imag"], a, "imaginary part")
    else:
        model_is(v, got.data["complex"], name, p, rng, "complex data")


SETS = [["n"], ["k"], ["nk"], ["eps"], ["n", "k"], ["k", "n"], ["eps_r", "eps_k"], ["formula", "k"], ["k", "formula"]]


@contract("C16", "material.Material._process_table", *RD, kind="bounded", n=900, split=5)
def tables(v):
    """each data set is the declared table in its own type and unit, or in those given by the caller"""
    what = v.choice("sets", SETS)
    default = v.choice("default", [UNITS[0], UNITS[6], None] if v.sym else UNITS + [None, None])
    n = v.length("n", 2, sizes=[2]) if v.sym else v.choice("n", [2, 3, 5, 200])
    sets, want = [], {}
    for j, kind in enumerate(what):
        stated = v.bool("stated%d" % j)
        if kind == "formula":
            ds, name, p, rng = formula_set(v, "f")
            if home(name) != UM:
                v.assume(False)
            # models need their own unit
            state_units(v, ds, UM, "units%d" % j)
            want["real"] = ("model", name, p, rng)
            sets.append(ds)
            continue
        a = v.choice("unit%d" % j, [UNITS[2], UNITS[7]] if v.sym else UNITS) if stated else (default or ("wavelength", "nm"))
        t, m = table(v, "nk" if kind in ("nk", "eps") else "n", n, "t%d" % j)
        ds = {"type": "tabulated " + kind, "data": table_text(v, t, n, range(m))} if v.sym or v.rng.random() < 0.5 else \
            {"DataType": "tabulated " + kind, "Data": table_text(v, t, n, range(m))}
        if stated:
            state_units(v, ds, a, "units%d" % j)
        sets.append(ds)
        if kind in ("nk", "eps"):
            want["real"], want["imag"] = ("table", t, 1, a), ("table", t, 2, a)
        else:
            want["real" if kind in ("n", "eps_r") else "imag"] = ("table", t, 1, a)
    kw = {} if default is None else dict(zip(("spectrum_type", "unit"), names(v, default, "default units")))
    path = v.folder() + "/f.yml"
    v.put_yaml(path, {"DATA": sets, "REFERENCES": "r"} if len(what) == 1 else {"REFERENCES": "r", "DATA": sets})
    got = v.ok(v.call(v.mod().Material, file_path=path, **kw), "read")
    v.ensure(got.data["name"] == ("eps" if what[0].startswith("eps") else "nk"), "kind of data")
    v.ensure(got.data["complex"] is None, "separate parts")
    for part in ("real", "imag"):
        if part not in want:
            is_zero(v, got.data[part], None, part + " part")
        elif want[part][0] == "model":
            model_is(v, got.data[part], *want[part][1:], label=part + " part")
        else:
            _, t, col, a = want[part]
            part_is(v, got.data[part], t, n, col, a, part + " part")


HEAD = {"Reference": ["REFERENCES", "Reference", "references"], "Author": ["AUTHOR", "author", "Author"], "Name": ["NAME", "name", "Name"],
        "FullName": ["FULLNAME", "FullName", "fullname"], "Comment": ["COMMENTS", "Comment", "comments"]}
VALUES = ["plain", "a: b", "see http://x.org/?a=1:2", "Name: x", "UNIT: mm", "", "50 % of 3"]
DOCUMENTED = ("COMMENT", "REFERENCE", "AUTHOR", "NAME", "FULLNAME", "METACOMMENT", "VALIDRANGE", "DATATYPE", "SPECTRUMTYPE", "UNIT", "YIELDS")
LINES = ["a remark", "two: words", "http://x.org: y", "", "   spaced"]


@contract("C16", "io.Reader._read_text_file", "io.Reader._read_text_data", "io.Reader._read_text_comment", "io.Reader.read_file",
          "material.Material._process_file_data", kind="bounded", n=1800, split=5)
def text_files(v):
    """headers of text files: keys in any case, colons in values, remaining lines kept, default data type"""
    ext = v.choice("ext", [".txt", ".csv", ".nk"])
    kind = v.choice("kind", ["n", "nk", "k", "eps"])
    typed = kind in ("k", "eps") or v.bool("typed")
    stated = v.bool("stated")
    a = v.choice("unit", [UNITS[2], UNITS[7]] if v.sym else UNITS)
    default = v.choice("default", [None, UNITS[6]] if v.sym else UNITS + [None])
    n = v.length("n", 2, sizes=[2]) if v.sym else v.choice("n", [2, 3, 30])
    t, m = table(v, kind, n)
    c = ";" if ext == ".nk" else "#"
    entries = []
    meta = {k: "" for k in HEAD}
    for k in (["Name", "FullName"] if v.sym else v.some("given", list(HEAD))):
        w = v.choice(k, VALUES[:2]) if v.sym else v.phrase(k, VALUES)
        meta[k] = w
        entries.append(v.choice(k + "_key", HEAD[k][:1] if v.sym else HEAD[k]) + ": " + w)
    if typed:
        entries.append((v.choice("tkey", ["DATATYPE", "DataType", "datatype"]) if not v.sym else "DataType") + ": tabulated " + kind)
    if stated:
        st, un = names(v, a, "units")
        entries.append("SPECTRUMTYPE: " + st if v.sym or v.rng.random() < 0.5 else "SpectrumType:" + st)
        entries.append("UNIT: " + un if v.sym or v.rng.random() < 0.5 else "Unit: " + un)
    rest = [v.choice("line%d" % j, LINES[:2]) if v.sym else v.phrase("line%d" % j, LINES) for j in range(1 if v.sym else v.rng.randrange(4))]
    if not v.sym:
        rest = [s for s in rest if not s.upper().lstrip().startswith(DOCUMENTED)]
    if not v.sym:
        entries = v.shuffled("order", entries)
    lines = [c + " " + s for s in rest + entries]
    sep = "," if ext == ".csv" else "\t"
    path = v.folder() + "/f" + ext
    v.put(path, "\n".join(lines + [table_text(v, t, n, range(m), sep)]) + "\n")
    kw = {} if default is None else dict(spectrum_type=default[0], unit=default[1])
    got = v.ok(v.call(v.mod().Material, file_path=path, **kw), "read")
    a = a if stated else (default or ("wavelength", "nm"))
    v.ensure(got.data["name"] == ("eps" if kind == "eps" else "nk"), "kind of data")
    if kind == "k":
        is_zero(v, got.data["real"], a, "real part")
        part_is(v, got.data["imag"], t, n, 1, a, "imaginary part")
    else:
        part_is(v, got.data["real"], t, n, 1, a, "real part")
        if kind == "n":
            is_zero(v, got.data["imag"], a, "imaginary part")
        else:
            part_is(v, got.data["imag"], t, n, 2, a, "imaginary part")
    for k in HEAD:
        v.ensure(got.meta_data[k] == meta[k], "%s as stated" % k)
    v.ensure([s.strip() for s in got.meta_data["MetaComment"].split("\n") if s.strip()] == [s.strip() for s in rest if s.strip()],
             "remaining lines kept")


BAD = ["tabulated foo", "tabulated", "formula 10", "formula 0", "formula x", "model Nope", "model spectrum", "constant n", "banana n", "n",
       "tabulated n k", "formula 1.5"]


@contract("C16", "material.Material._process_file_data", "material.Material._process_formula_data", "io.Reader.read_file", n=60)
def refused(v):
    """unsupported extensions and data types give an error, not a material"""
    d = v.folder()
    how = v.choice("how", ["ext", "yaml", "text"])
    one, two = (v.q("0.4"), v.q("0.8")) if v.sym else (0.4, 0.8)
    body = "\n".join(v.text(x) + " " + v.text(one) for x in (one, two))
    if how == "ext":
        ext = v.choice("ext", ["", ".dat", ".TXT", ".yaml", ".json", ".YML", ".nkx"])
        path = d + "/f" + ext
        v.put(path, body + "\n")
    elif how == "text":
        bad = v.choice("bad", BAD)
        path = d + "/f.txt"
        v.put(path, "# DATATYPE: %s\n" % bad + body + "\n")
    else:
        bad = v.choice("bad", BAD)
        path = d + "/f.yml"
        v.put_yaml(path, {"DATA": [{"DataType": bad, "SpectrumType": "wavelength", "Unit": "um", "ValidRange": "0.3 0.9", "Data": body,
                                    "Parameters": body.replace("\n", " "), "Value": "1.5"}]})
    v.raises(v.call(v.mod().Material, file_path=path), Exception, "refused")
