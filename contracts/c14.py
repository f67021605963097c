"""C14 Text material files survive a write/read round trip."""
from pv.api import contract
from contracts._lib import UNITS, ALIASES

EXT = [".txt", ".csv", ".nk"]
KINDS = ["n", "nk", "eps"]
WORDS = ["", "plain", "two words", "a: b", "http://x.org/?a=1:2", "Ünï çödé", "50 % #3", "Name", "a;b"]
META = ["", "one line", "first\nsecond", "Name: other\nsee http://a.b:80/", "with: colon", " indented", "a\n\nb"]
KEYS = ["Reference", "Author", "Name", "FullName", "Comment"]


def words(v, name):
    return v.choice(name, WORDS[:4]) if v.sym else v.phrase(name, WORDS)


def rows(v):
    return v.length("n", 2, sizes=[2, 3]) if v.sym else v.choice("n", [2, 3, 5, 9, 2, 3, 40, 700, 1100])


def table(v, kind, n, name="t"):
    m = 2 if kind in ("n", "k") else 3
    if v.sym:
        return v.table(name, n, m, lo=0), m
    r = v.rng
    np = v.numpy
    xs = np.cumsum([r.choice([1.0, 0.125, 10 ** r.uniform(-9, 9)]) for _ in range(n)]) * 10 ** r.uniform(-12, 12)
    v.assume(all(b > a * (1 + 1e-10) for a, b in zip(xs, xs[1:])))
    cols = [[r.choice([-1, 1, 1]) * r.choice([r.uniform(0, 9), 10 ** r.uniform(-14, 14), 0.0, 1.0 / 3]) for _ in range(n)] for _ in range(m - 1)]
    t = np.array([xs] + cols).T
    v._log(name, t.tolist())
    return t, m


def set_meta(v, mat, values, comment):
    for k, s in values.items():
        mat.meta_data[k] = s
    mat.meta_data["MetaComment"] = comment


def write(v, path, mat, **k):
    return v.call(lambda: v.mod("io").Writer(path, mat).write_file(**k))


def close8(v, a, b, label):
    """equal to 8 significant digits"""
    if v.sym:
        d = a - b
        e = v.If(b >= 0, b, -b) * v.q("1e-8")
        v.ensure(v.And(d <= e, -d <= e), label)
    else:
        v.ensure(abs(a - b) <= 1.001e-8 * abs(b), "%s: %r, not %r" % (label, a, b))


def in_unit(v, part, a, label):
    """the part is defined in type and unit a (whatever alias it is spelled with)"""
    for o in (part, part.valid_range):
        ty = str(o.spectrum_type).lower()
        v.ensure(ty == a[0] and ALIASES[ty].get(str(o.unit).lower()) == a[1], label + ": spectrum type and unit")


def part_is(v, part, t, n, col, a, label):
    """the part is the table of columns 0 and col of t in unit a"""
    v.ensure(type(part).__name__ == "Interpolation", label + ": a table")
    in_unit(v, part, a, label)
    d = part.data
    v.ensure_eq(v.len(d), n, label + ": number of rows")
    for i in range(n):
        close8(v, v.cell(d, i, 0), v.cell(t, i, 0), label + ": abscissae")
        close8(v, v.cell(d, i, 1), v.cell(t, i, col), label + ": values")


def is_zero(v, part, a, label):
    if type(part).__name__ == "Interpolation":
        d = part.data
        for i in range(int(v.len(d))):
            v.ensure_eq(v.cell(d, i, 1), 0, label + ": zero")
    else:
        v.ensure(type(part).__name__ == "Constant", label + ": constant")
        v.ensure_eq(part.constant, 0, label + ": zero")


@contract("C14", "io.Writer.write_file", "io.Writer._write_text_file", "io.Reader._read_text_file", "io.Reader._read_text_data",
          "io._numeric_to_string_table", "io._str_table_to_numeric", "material.Material._process_file_data",
          "material.Material._process_table", "material.Material.dataset_to_dict", "material.Material.collapse_datasets",
          kind="bounded", n=1500, split=5)
def round_trip(v):
    """kind, spectrum type, unit, metadata and table survive"""
    kind = v.choice("kind", KINDS)
    ext = v.choice("ext", EXT)
    n = rows(v)
    comment = v.choice("meta", META[:4]) if v.sym else v.phrase("meta", META, lines=True)
    a = v.choice("unit", [UNITS[0], UNITS[6]] if v.sym else UNITS)
    t, m = table(v, kind, n)
    w = words(v, "word")
    meta = {k: (w if v.sym else words(v, k)) for k in KEYS}
    mat = v.ok(v.call(v.mod().Material, spectrum_type=a[0], unit=a[1], **{"tabulated_" + kind: t}), "material created")
    set_meta(v, mat, meta, comment)
    path = v.folder() + "/m" + ext
    before = v.state(mat)
    v.ok(write(v, path, mat), "written")
    v.same(v.state(mat), before, "material unchanged")
    got = v.ok(v.call(v.mod().Material, file_path=path), "read back")
    v.ensure(got.data["name"] == ("eps" if kind == "eps" else "nk"), "kind of data")
    v.ensure(got.data["complex"] is None, "separate parts")
    part_is(v, got.data["real"], t, n, 1, a, "real part")
    if kind == "n":
        is_zero(v, got.data["imag"], a, "imaginary part")
    else:
        part_is(v, got.data["imag"], t, n, 2, a, "imaginary part")
    for k in KEYS:
        v.ensure(got.meta_data[k] == meta[k], "%s survives" % k)


@contract("C14", "io.Writer.write_file", n=40)
def extension(v):
    """other extensions are refused and nothing is written"""
    ext = v.choice("ext", ["", ".dat", ".TXT", ".yaml", ".nk2", ".text"])
    mat = v.ok(v.call(v.mod().Material, fixed_n=1.5 if not v.sym else v.q("1.5")), "material created")
    d = v.folder()
    v.raises(write(v, d + "/m" + ext, mat), ValueError, "extension refused")
    v.ensure(not v.tree(d), "nothing written")
