"""C18 Rebuilding the catalogue affects exactly the chosen modules."""
from pv.api import contract
from contracts._lib import UNITS, ALIASES, GEN, UM, conv
from contracts.c16 import line, table_text
from contracts.c17 import COLS, NAN, config, num

MODULES = ["UserData", "Filmetrics", "RefractiveIndexInfo"]
NM = ("wavelength", "nm")
STRINGS = ["Alias", "Name", "FullName", "Author", "Comment", "Reference", "SpectrumType", "Unit", "Path", "Module"]
SAYS = ["", "plain", "a: b", "first, \"second\"", "NA", "nan", "Ünï"]
JUNK = ["notes.md", "x.dat", "README", ".txt", "x.TXT", "y.json"]
STEMS = ["Ag", "au 2", "a.b", "Cu-x", "z"]
ORDERS = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]
KINDS = ["n", "nk", "two", "cauchy"]


def says(v, key):
    return v.choice(key, SAYS[:1] + SAYS[2:3]) if v.sym else v.phrase(key, SAYS)


def two(v, key, a, factor=1.0):
    """0 < lo < hi in unit a"""
    if v.sym:
        lo, hi = v.pos(key + "_lo"), v.pos(key + "_hi")
        v.assume(lo < hi)
        return lo, hi
    g = GEN[a[1]]
    ok, x = v._given(key)
    if not ok:
        x = sorted(float("%.6g" % (g[0] * (g[1] / g[0]) ** v.rng.random())) for _ in range(2))
    v._log(key, x)
    v.assume(x[1] > x[0] * 1.0001)
    return x[0], x[1]


def curve(v, key, rng):
    """(rows, value at x): a line through two points, or more rows of one value"""
    lo, hi = rng
    if v.sym or v.choice(key + "_rows", [2, 2, 3, 6]) == 2:
        p, q = v.real(key + "_p", gen=(0.1, 4.0)), v.real(key + "_q", gen=(0.1, 4.0))
        return [(lo, p), (hi, q)], (lambda x: p + (q - p) * (x - lo) / (hi - lo))
    p = v.real(key + "_p", gen=(0.1, 4.0))
    n = 5
    return [(lo + (hi - lo) * i / (n - 1.0) if i < n - 1 else hi, p) for i in range(n)], (lambda x: p)


class File:
    """what a file holds: metadata, unit, ranges, and the refractive index at x"""

    def __init__(self, meta, a, ranges, n, k):
        self.meta, self.a, self.ranges, self.n, self.k = meta, a, ranges, n, k

    def bounds(self, v):
        lo = hi = None
        for l, h in self.ranges:
            lo = l if lo is None else v.If(lo >= l, lo, l) if v.sym else max(lo, l)
            hi = h if hi is None else v.If(hi <= h, hi, h) if v.sym else min(hi, h)
        return lo, hi


def text_file(v, path, tag):
    """a text file in the default (nm) or in stated units"""
    stated = v.bool(tag + "stated")
    a = (v.choice(tag + "unit", [UNITS[6], UNITS[7]] if v.sym else UNITS)) if stated else NM
    rng = two(v, tag + "r", a)
    rows, n = curve(v, tag + "n", rng)
    kind = v.choice(tag + "kind", ["n", "nk"])
    lines = []
    meta = dict(FullName="", Author="", Comment="", Reference="")
    for key in meta:
        meta[key] = says(v, tag + key) if not v.sym or key == "Author" else "x"
        if meta[key]:
            lines.append("# %s: %s" % ({"FullName": "FULLNAME", "Reference": "REFERENCES", "Comment": "COMMENTS", "Author": "AUTHOR"}[key], meta[key]))
    if stated:
        lines += ["# SPECTRUMTYPE: " + a[0], "# UNIT: " + a[1]]
    sep = "," if path.endswith(".csv") else "\t"
    k = lambda x: 0
    cells = [list(r) for r in rows]
    if kind == "nk":
        p, q = v.real(tag + "k_p", gen=(0.0, 3.0)), v.real(tag + "k_q", gen=(0.0, 3.0))
        if len(rows) != 2:
            q = p
        for i, c in enumerate(cells):
            c.append(p if i == 0 else q)
        k = lambda x: p + (q - p) * (x - rng[0]) / (rng[1] - rng[0])
    v.put(path, "\n".join(lines + [line(v, c, sep) for c in cells]) + "\n")
    return File(meta, a, [rng], n, k)


def yaml_file(v, path, tag, default):
    """a YAML file; default: the unit used where none is stated"""
    kind = v.choice(tag + "ykind", KINDS[1:] if v.sym else KINDS)
    stated = kind == "cauchy" or v.bool(tag + "stated")
    a = UM if kind == "cauchy" else (v.choice(tag + "unit", [UNITS[7]] if v.sym else UNITS) if stated else default)
    if kind == "cauchy" and default == UM:
        stated = False
    meta = dict(FullName="", Author="", Comment="", Reference="")
    doc = {}
    for key, top in (("Reference", "REFERENCES"), ("Comment", "COMMENTS")):
        meta[key] = says(v, tag + key) if not v.sym or key == "Comment" else "r"
        if meta[key]:
            doc[top] = meta[key]
    if not v.sym:
        for key, top in (("FullName", "FULLNAME"), ("Author", "AUTHOR")):
            meta[key] = v.choice(tag + key, ["", "An author"])
            if meta[key]:
                doc[top] = meta[key]
    rng = two(v, tag + "r", a)
    units = {"SpectrumType": a[0], "Unit": a[1]} if stated else {}
    ranges, zero = [rng], (lambda x: 0)
    if kind == "cauchy":
        c0, c1 = v.real(tag + "c0", gen=(1.0, 3.0)), v.real(tag + "c1", gen=(0.0, 0.5))
        sets = [dict({"type": "formula 5", "wavelength_range": line(v, rng), "coefficients": line(v, [c0, c1, 2.0])}, **units)]
        n, k = (lambda x: c0 + c1 * x * x), zero
    else:
        rows, n = curve(v, tag + "n", rng)
        sets = [dict({"type": "tabulated " + ("n" if kind in ("n", "two") else "nk"), "data": "\n".join(line(v, r) for r in rows)}, **units)]
        k = zero
        if kind == "nk":
            p = v.real(tag + "k_p", gen=(0.0, 3.0))
            sets[0]["data"] = "\n".join(line(v, list(r) + [p]) for r in rows)
            k = lambda x: p
        elif kind == "two":
            rng2 = two(v, tag + "s", a)
            ranges.append(rng2)
            v.assume(v.And(rng2[0] < rng[1], rng[0] < rng2[1]))
            rows2, k = curve(v, tag + "k", rng2)
            sets.append(dict({"type": "tabulated k", "data": "\n".join(line(v, r) for r in rows2)}, **units))
    doc["DATA"] = sets
    v.put_yaml(path, doc)
    return File(meta, a, ranges, n, k)


def text_module(v, base, module, tag, count):
    """fills the folder of the module; {path: row}"""
    d = base + "/" + module
    v.mkdir(d)
    out = {}
    for j in range(count):
        ext = v.choice("%sext%d" % (tag, j), [".txt", ".yml"] if v.sym else [".txt", ".csv", ".yml"])
        name = STEMS[j] if v.sym else v.choice("%sname%d" % (tag, j), STEMS)
        if name + ext in out:
            name += str(j)
        path = d + "/" + name + ext
        f = yaml_file(v, path, "%s%d" % (tag, j), NM) if ext == ".yml" else text_file(v, path, "%s%d" % (tag, j))
        out[name + ext] = (f, dict(f.meta, Alias="", Name=name, Module=module))
    for j in JUNK[:2] if v.sym else v.some(tag + "junk", JUNK):
        v.put(d + "/" + j, "not data\n")
    v.mkdir(d + "/sub.txt")
    v.put(d + "/sub.txt/inner.txt", "not data\n")
    return out


def rii_module(v, base, tag, count):
    d = base + "/RefractiveIndexInfo/database"
    sub = v.choice(tag + "data", ["data", "data-nk"])
    v.mkdir(d + "/" + sub + "/main")
    old = sub == "data" if v.sym else v.bool(tag + "file")
    out, shelves, missing = {}, [], 0
    nshelf = 1 if v.sym else v.choice(tag + "shelves", [1, 2])
    pages = []
    for j in range(count):
        name = "main/%s%d.yml" % (STEMS[j % 5], j)
        if j == count - 1 and (v.sym or v.bool(tag + "missing")):
            missing += 1
            if not v.sym and v.bool(tag + "dir"):
                v.mkdir(d + "/" + sub + "/" + name)
        else:
            f = yaml_file(v, d + "/" + sub + "/" + name, "%s%d" % (tag, j), UM)
            out["database/" + sub + "/" + name] = (f, dict(f.meta, Alias="", Module="RefractiveIndexInfo"))
        pages.append(name)
    if not v.sym:
        pages = v.shuffled(tag + "pages", pages)
    for s in range(nshelf):
        mine = [p for i, p in enumerate(pages) if i % nshelf == s]
        books = [{"DIVIDER": "Group %d" % s}]
        half = len(mine) // 2
        for b, part in enumerate([mine[:half], mine[half:]]):
            book, full = "Bk%d%d" % (s, b), "The book %d-%d" % (s, b)
            content = []
            for i, p in enumerate(part):
                if i % 2 == 0:
                    content.append({"DIVIDER": "part"})
                content.append({"PAGE": "author " + p, "name": "long " + p, "data": p})
                key = "database/" + sub + "/" + p
                if key in out:
                    out[key][1].update(Name=book, FullName=full, Author="author " + p)
            books.append({"BOOK": book, "name": full, "content": content})
        shelves.append({"SHELF": "s%d" % s, "name": "Shelf %d" % s, "content": books})
    v.put_yaml(d + ("/library.yml" if old else "/catalog-nk.yml"), shelves)
    return out, missing


def previous(v, module, j):
    """a row of the catalogue before rebuilding"""
    if not v.sym:
        say = lambda key, xs: v.choice("%s%d" % (key, j), xs)
        a = say("munit", [("wavelength", "nanometer"), ("energy", "electronvolt"), ("wavelength", "micrometer")])
        return dict(Alias=say("alias", ["", "al%d" % j, "NA", "Ag %d" % j]), Name=say("name", ["old", "Ag", "NA"]), FullName=say("full", ["", "f, x", "nan"]),
                    Author=say("author", ["", "x", "None"]), Comment=say("comment", ["c", "", "two\nlines"]), Reference=say("reference", ["", 'a "q", b']),
                    SpectrumType=a[0], Unit=a[1], SpectrumLowerBound=say("lower", [0.5, 0.0, 1.0 / 3]), SpectrumUpperBound=say("upper", [2.75, 1e-30, 1e9]),
                    N_Reference=say("nref", [1.25, NAN, 0.0]), K_Reference=say("kref", [0.0, NAN, 1e-7]), Path=say("path", ["gone.txt", "sub/x.yml", "new.txt"]),
                    Module=module)
    return dict(Alias=v.choice("alias%d" % j, ["", "ali"] if v.sym else ["", "al%d" % j, "NA", "Ag %d" % j]), Name="old%d" % j, FullName="f, %d" % j,
                Author="", Comment="c", Reference="", SpectrumType="energy", Unit="electronvolt", SpectrumLowerBound=0.5 + j,
                SpectrumUpperBound=2.75 + j, N_Reference=1.25 if j % 2 else NAN, K_Reference=0.0 if j % 2 else NAN, Path="gone%d.txt" % j,
                Module=module)


def same_cells(v, got, i, row, label):
    for c in COLS:
        a, b = v.cellof(got, i, c), row[c]
        if isinstance(b, float) and b != b:
            v.ensure(v.isnan(a), "%s: %s" % (label, c))
        else:
            v.ensure(a == b, "%s: %s" % (label, c))


def fresh_row(v, got, i, f, row, ref, label):
    for c, x in row.items():
        v.ensure(v.cellof(got, i, c) == x, "%s: %s" % (label, c))
    st, un = str(v.cellof(got, i, "SpectrumType")).lower(), str(v.cellof(got, i, "Unit")).lower()
    v.ensure(st in ALIASES and un in ALIASES[st], label + ": type and unit")
    b = (st, ALIASES[st][un])
    lo, hi = f.bounds(v)
    x, y = conv(v, f.a, b, lo), conv(v, f.a, b, hi)
    l, u = v.cellof(got, i, "SpectrumLowerBound"), v.cellof(got, i, "SpectrumUpperBound")
    if f.a == b:
        want = (lo, hi)
    elif v.sym:
        want = (v.If(x <= y, x, y), v.If(x <= y, y, x))
    else:
        want = (min(x, y), max(x, y))
    v.ensure_eq(l, want[0], label + ": lower bound")
    v.ensure_eq(u, want[1], label + ": upper bound")
    r = conv(v, ref[0], f.a, ref[1])
    if not v.sym:
        for e in [e for p in f.ranges for e in p]:
            v.assume(v.apart(r, e))
    inside = v.cases(v.And(*[v.And(r >= p[0], r <= p[1]) for p in f.ranges]))
    n, k = v.cellof(got, i, "N_Reference"), v.cellof(got, i, "K_Reference")
    if inside:
        v.ensure_eq(n, f.n(r), label + ": n at the reference point", atol=1e-9)
        v.ensure_eq(k, f.k(r), label + ": k at the reference point", atol=1e-9)
    else:
        v.ensure(v.isnan(v.num(n)), label + ": n not known at the reference point")
        v.ensure(v.isnan(v.num(k)), label + ": k not known at the reference point")


def reference(v):
    a = v.choice("ref unit", [NM, UNITS[7]] if v.sym else UNITS)
    return a, v.pos("ref", gen=GEN[a[1]])


def ref_config(v, base, ref, modules):
    c = config(v, base, modules)
    c["ReferenceSpectrum"] = {"Value": ref[1], "SpectrumType": ref[0][0], "Unit": ref[0][1]}
    return c


@contract("C18", "catalogue.Catalogue.__init__", "catalogue.Catalogue._read_text_db", "catalogue.Catalogue.read_user_data_db",
          "catalogue.Catalogue.read_filmetrics_db", "catalogue.Catalogue.read_ri_info_db", "catalogue.Catalogue._iterate_shelves",
          "catalogue.Catalogue._iterate_books", "catalogue.Catalogue._iterate_pages", "catalogue.Catalogue.make_reference_spectrum",
          kind="bounded", n=900, split=5)
def fresh(v):
    """the rows read for one module"""
    base = v.folder()
    module = v.choice("module", MODULES)
    count = (2 if module == MODULES[2] else 1) if v.sym else v.choice("count", [0, 1, 2, 4])
    missing = 0
    if module == MODULES[2]:
        want, missing = rii_module(v, base, "f", count)
    else:
        want = text_module(v, base, module, "f", count)
    ref = reference(v)
    how = ("All" if module == MODULES[1] else module) if v.sym else v.choice("rebuild", ["All", module])
    if how != "All":
        v.put_csv(base + "/catalogue.csv", [previous(v, module, 0)], COLS)
    out, warned = v.call_warn(v.mod("catalogue").Catalogue, config=ref_config(v, base, ref, {module: True}), rebuild=how)
    got = v.ok(out, "rebuilt").get_database()
    v.ensure(v.nrows(got) == len(want), "one row per supported file: %s rows, not %d" % (v.nrows(got), len(want)))
    v.ensure(warned >= missing, "warning for every unreadable page")
    seen = set()
    for i in range(len(want)):
        p = str(v.cellof(got, i, "Path")).replace("\\", "/")
        v.ensure(p in want and p not in seen, "row names a file of its module")
        seen.add(p)
        fresh_row(v, got, i, want[p][0], want[p][1], ref, "row")


@contract("C18", "catalogue.Catalogue.__init__", "catalogue.Catalogue.build_catalogue", kind="bounded", n=900, split=5)
def chosen(v):
    """chosen modules are read again, the other enabled ones keep their rows, disabled ones are dropped or refused"""
    base = v.folder()
    names = [MODULES[i] for i in v.choice("order", ORDERS)]
    on = {m: v.bool("on_" + m) for m in names}
    keep = [m for m in names if v.sym or v.choice("in_" + m, [0] + [1] * 9)]
    modules = {m: on[m] for m in keep}
    how = v.choice("how", ["All", "one", "list", "tuple"] if not v.sym else ["All", "one", "list"])
    if how == "All":
        rebuild, picked = "All", list(names)
    elif how == "one":
        rebuild = v.choice("which", names)
        picked = [rebuild]
    else:
        picked = [m for m in names if v.bool("re_" + m)]
        if not v.sym:
            picked = v.shuffled("picked", picked)
        rebuild = picked if how == "list" else tuple(picked)
    old = []
    for j in range(3 if v.sym else v.choice("old", [0, 1, 3, 6])):
        old.append(previous(v, MODULES[j] if v.sym else v.choice("m%d" % j, MODULES), j))
    v.put_csv(base + "/catalogue.csv", old, COLS)
    before = v.got(base + "/catalogue.csv")
    # one simple file per module
    files = {}
    for m in MODULES:
        if m == MODULES[2]:
            d = base + "/" + m + "/database"
            v.mkdir(d + "/data-nk/main")
            v.put_yaml(d + "/catalog-nk.yml", [{"SHELF": "s", "name": "S", "content": [
                {"BOOK": "Bk", "name": "Book", "content": [{"PAGE": "p", "name": "P", "data": "main/new.yml"}]}]}])
            body = "%s %s" % (line(v, [num(v, 0.5), num(v, 1.5)]), v.text(num(v, 0))) + "\n" + line(v, [num(v, 0.75), num(v, 2), num(v, 0)])
            v.put_yaml(d + "/data-nk/main/new.yml", {"REFERENCES": "r", "COMMENTS": "c", "DATA": [{"type": "tabulated nk", "data": body}]})
            files[m] = "database/data-nk/main/new.yml"
        else:
            v.mkdir(base + "/" + m)
            v.put(base + "/" + m + "/new.txt", line(v, [num(v, 500), num(v, 1.5)], "\t") + "\n" + line(v, [num(v, 750), num(v, 2)], "\t") + "\n")
            files[m] = "new.txt"
    out = v.call(v.mod("catalogue").Catalogue, config=config(v, base, modules, value="600"), rebuild=rebuild)
    v.ensure(v.got(base + "/catalogue.csv") == before, "the file is not changed before saving")
    if how != "All" and any(m in picked and not on[m] for m in modules):
        v.raises(out, ValueError, "a disabled module is refused")
        return
    cat = v.ok(out, "rebuilt")
    got = cat.get_database()
    want = []
    for m in modules:
        if not on[m]:
            continue
        if m in picked:
            want.append((m, None))
        else:
            want += [(m, r) for r in old if r["Module"] == m]
    v.ensure(v.nrows(got) == len(want), "rows of the enabled modules: %s rows, not %d" % (v.nrows(got), len(want)))
    for i, (m, r) in enumerate(want):
        v.ensure(v.cellof(got, i, "Module") == m, "modules in the order of the configuration")
        if r is not None:
            same_cells(v, got, i, r, "rows of other modules unchanged")
            continue
        v.ensure(str(v.cellof(got, i, "Path")).replace("\\", "/") == files[m], "chosen module read again: Path")
        v.ensure(v.cellof(got, i, "Alias") == "", "chosen module read again: Alias")
        x = num(v, 1.5) + (num(v, 600) - num(v, 500)) / num(v, 500)
        v.ensure_eq(v.cellof(got, i, "N_Reference"), x, "chosen module read again: n at the reference point")
        v.ensure_eq(v.cellof(got, i, "K_Reference"), 0, "chosen module read again: k at the reference point")
