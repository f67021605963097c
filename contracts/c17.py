"""C17 Catalogue aliases stay unique and lead to the registered material."""
from pv.api import contract
from contracts.c14 import part_is

COLS = ["Alias", "Name", "FullName", "Author", "Comment", "Reference", "SpectrumType", "Unit", "SpectrumLowerBound", "SpectrumUpperBound",
        "N_Reference", "K_Reference", "Path", "Module"]
NAN = float("nan")


def entry(module, path, st, unit, name="x"):
    return dict(Alias="", Name=name, FullName="", Author="", Comment="", Reference="", SpectrumType=st, Unit=unit, SpectrumLowerBound=0.5,
                SpectrumUpperBound=2.75, N_Reference=NAN, K_Reference=NAN, Path=path, Module=module)


KINDS = [entry("UserData", "a.txt", "wavelength", "nanometer"), entry("UserData", "b.txt", "energy", "electronvolt", "y"),
         entry("RefractiveIndexInfo", "database\\data-nk\\c.txt", "wavelength", "micrometer"),
         entry("Filmetrics", "a.txt", "frequency", "hertz", "z")]
UNIT = [("wavelength", "nm"), ("energy", "ev"), ("wavelength", "um"), ("frequency", "hz")]


def num(v, x):
    return v.q(str(x)) if v.sym else float(x)


def config(v, base, modules=None, value="632.8", st="wavelength", unit="nanometer", **more):
    d = {"Path": base, "File": "catalogue.csv", "Interactive": False, "WarnMissingPackages": False,
         "Modules": dict({"UserData": True} if modules is None else modules), "ReferenceSpectrum": {"Value": num(v, value), "SpectrumType": st, "Unit": unit}}
    d.update(more)
    return d


def table_of(v, k):
    """the table in the file of kind k"""
    return [[num(v, 0.5 + k), num(v, 1.25 + k)], [num(v, 1.5 + k), num(v, 2.5 + k)], [num(v, 2.75 + k), num(v, 3 + k)]]


def catalogue(v):
    base = v.folder()
    for k, e in enumerate(KINDS):
        path = base + "/" + e["Module"] + "/" + e["Path"].replace("\\", "/")
        v.mkdir(path.rsplit("/", 1)[0])
        v.put(path, "\n".join(v.text(x) + "\t" + v.text(y) for x, y in table_of(v, k)) + "\n")
    v.put_csv(base + "/catalogue.csv", [dict(KINDS[0], Alias="q")], COLS)
    cat = v.ok(v.call(v.mod("catalogue").Catalogue, config=config(v, base)), "catalogue opened")
    df = v.frame("cat", KINDS, COLS)
    v.ok(v.call(cat.set_database, df), "catalogue set")
    return cat, df


def some_alias(v, df):
    if v.sym:
        return v.string("alias")
    held = [str(v.cellof(df, i, "Alias")) for i in range(v.nrows(df))]
    return v.string("alias", gen=["a", "b", "Ag", "new", "0", "nan", " "] + ["%s" % e[c] for e in KINDS for c in ("Name", "Path", "Module")] * 2
                    + held + [f(h) for h in held for f in (str.upper, str.lower, str.strip, lambda h: h + " ")])


def same_rows(v, df, old, label, skip=None):
    """every cell of every row as before (skip: the alias of that row)"""
    v.ensure_eq(v.nrows(df), v.nrows(old), label + ": number of rows")
    for i in v.each(v.nrows(old)):
        v.ensure_eq(v.labelof(df, i), v.labelof(old, i), label + ": row labels")
        for c in COLS:
            a, b = v.cellof(df, i, c), v.cellof(old, i, c)
            if v.isnan(b):
                v.ensure(v.isnan(a), "%s: %s" % (label, c))
                continue
            if c == "Alias" and skip is not None:
                if v.sym:
                    v.ensure(v.Or(i == skip, a == b), "%s: %s" % (label, c))
                    continue
                if i == skip:
                    continue
            v.ensure(a == b, "%s: %s" % (label, c))


OTHER = [None, "0", 0.0, (0,), [0]]


@contract("C17", "catalogue.Catalogue.register_alias", "catalogue.Catalogue.get_database", "catalogue.Catalogue.set_database", n=500, split=3)
def register(v):
    """one registration on any catalogue with unique aliases: only that alias changes, or ValueError and nothing does; aliases
    stay unique (so, by induction, through any history)"""
    cat, df = catalogue(v)
    n = v.nrows(df)
    old = v.copyframe(df)
    how = v.choice("selection", ["label", "one row", "absent label", "no row", "two rows", "other"])
    alias = some_alias(v, df)
    v.assume(alias != "")
    p = v.position("p", n)
    good = how in ("label", "one row")
    if how == "label":
        sel = v.labelof(df, p)
    elif how == "one row":
        sel = v.subframe(df, [p])
    elif how == "absent label":
        sel = v.int("r")
        v.assume_all(n, lambda i: v.labelof(df, i) != sel)
    elif how == "no row":
        sel = v.subframe(df, [])
    elif how == "two rows":
        q = v.position("q", n)
        v.assume(p != q)
        sel = v.subframe(df, [p, q])
    else:
        sel = v.choice("what", OTHER)
    taken = good and v.bool("taken")
    if good:
        if taken:
            q = v.position("holder", n)
            v.assume(p != q)
            v.assume(v.cellof(df, q, "Alias") == alias)
        elif v.sym:
            v.assume_all(n, lambda i: v.Or(i == p, v.cellof(df, i, "Alias") != alias))
        else:
            v.assume(all(i == p or v.cellof(df, i, "Alias") != alias for i in range(n)))
    out = v.call(cat.register_alias, sel, alias)
    got = v.ok(v.call(cat.get_database), "database")
    if good and not taken:
        v.ok(out, "registered")
        v.ensure(v.cellof(got, p, "Alias") == alias, "the chosen row holds the alias")
        same_rows(v, got, old, "only that alias changes", p)
    else:
        v.raises(out, ValueError, "%s%s: refused" % (how, ", taken" if taken else ""))
        same_rows(v, got, old, "nothing changes")
    i, j = v.position("i", n), v.position("j", n)
    x, y = v.cellof(got, i, "Alias"), v.cellof(got, j, "Alias")
    v.ensure(v.Or(i == j, x == "", x != y), "aliases stay unique")


@contract("C17", "catalogue.Catalogue.get_material", n=400, split=2)
def lookup(v):
    """an alias or row position loads the file of that row in the row's type and unit; other identifiers raise ValueError"""
    cat, df = catalogue(v)
    n = v.nrows(df)
    old = v.copyframe(df)
    how = v.choice("identifier", ["alias", "position", "unknown alias", "other"])
    if how == "other":
        v.raises(v.call(cat.get_material, v.choice("what", [None, 0.0, (0,), [0]])), ValueError, "other identifier")
        same_rows(v, cat.get_database(), old, "nothing changes")
        return
    if how == "unknown alias":
        a = some_alias(v, df)
        if v.sym:
            v.assume_all(n, lambda i: v.cellof(df, i, "Alias") != a)
        else:
            v.assume(all(v.cellof(df, i, "Alias") != a for i in range(n)))
        v.raises(v.call(cat.get_material, a), ValueError, "unknown alias")
        same_rows(v, cat.get_database(), old, "nothing changes")
        return
    p = v.position("p", n)
    if how == "alias":
        who = v.cellof(df, p, "Alias")
        v.assume(who != "")
        who = who if v.sym else str(who)
    else:
        who = p
    mat = v.ok(v.call(cat.get_material, who), "loaded")
    k = v.kindof(df, p, len(KINDS))
    t = v.arr(table_of(v, k))
    part_is(v, mat.data["real"], t, 3, 1, UNIT[k], "the material of the row")
    v.ensure(mat.data["name"] == "nk", "kind of data")
    same_rows(v, cat.get_database(), old, "nothing changes")
