"""C13 Tables read from data are strictly ordered and lose only offending rows."""
from pv.api import contract

F = "io._str_table_to_numeric"


def convert(v, data):
    return v.call(v.mod("io")._str_table_to_numeric, data)


def rows_are(v, got, n, m, want, label):
    """got is an n x m array with entries want(i, j)"""
    if not v.sym:
        a = v.numpy.asarray(got)
        v.ensure(a.shape == (n, m), label + ": shape %s, not %s" % (a.shape, (n, m)))
        for i in range(n):
            for j in range(m):
                v.ensure(a[i, j] == want(i, j), label + ": entries")
        return
    v.ensure(v.is_array(got) and got.ndim == 2, label + ": a table")
    v.ensure_eq(v.len(got), n, label + ": number of rows")
    v.ensure_eq(got.shape[1], m, label + ": number of columns")
    for i in range(n) if isinstance(n, int) else v.each(n):
        for j in range(m):
            v.ensure_eq(v.cell(got, i, j), want(i, j), label + ": entries")


@contract("C13", F, "io.validate_table", n=300)
def increasing(v):
    """a strictly increasing table is kept as it is"""
    m = v.choice("columns", [2, 3, 1])
    n = v.length("n", 1, cap=8)
    t = v.table("t", n, m, gen=(-50.0, 50.0), colgen=(-9.0, 9.0))
    before = v.snap(t)
    got = v.ok(convert(v, t), "converts")
    rows_are(v, got, n, m, lambda i, j: v.cell(t, i, j), "same table")
    v.same(v.snap(t), before, "argument unchanged")


@contract("C13", F, "io.validate_table", n=300)
def decreasing(v):
    """a strictly decreasing table is reversed"""
    m = v.choice("columns", [2, 3, 1])
    n = v.length("n", 1, cap=8)
    t = v.table("t", n, m, decreasing=True, gen=(-50.0, 50.0), colgen=(-9.0, 9.0))
    before = v.snap(t)
    got = v.ok(convert(v, t), "converts")
    rows_are(v, got, n, m, lambda i, j: v.cell(t, n - 1 - i, j), "reversed table")
    v.same(v.snap(t), before, "argument unchanged")


def kept(v, t, n):
    """indices of the rows kept (bounded or executed: decides the comparisons)"""
    out, last = [0], v.cell(t, 0, 0)
    for i in range(1, n):
        x = v.cell(t, i, 0)
        if v.cases(x > last):
            out.append(i)
            last = x
    return out


def ordered(v, t, n, up):
    for i in range(1, n):
        a, b = v.cell(t, i - 1, 0), v.cell(t, i, 0)
        if not v.cases(a < b if up else a > b):
            return False
    return True


def expected(v, t, n):
    """rows of the result, as indices"""
    if ordered(v, t, n, False):
        return list(range(n))[::-1]
    return kept(v, t, n)


@contract("C13", F, "io.fix_table", "io.validate_table", kind="bounded", n=800, split=6)
def filtered(v):
    """rows that do not exceed the rows kept before are dropped, all others kept"""
    m = v.choice("columns", [2, 1, 3] if not v.sym else [2])
    n = v.length("n", 1, sizes=[1, 2, 3, 4, 5], cap=12)
    t = v.table("t", n, m, increasing=False, gen=(-5.0, 5.0), colgen=(-9.0, 9.0))
    if not v.sym and v.flag("ties"):
        t[:, 0] = v.numpy.round(t[:, 0])
    want = expected(v, t, int(n))
    before = v.snap(t)
    got = v.ok(convert(v, t), "converts")
    rows_are(v, got, len(want), m, lambda i, j: v.cell(t, want[int(i)], j), "rows kept")
    v.same(v.snap(t), before, "argument unchanged")


@contract("C13", F, kind="bounded", n=600, split=6)
def text(v):
    """text rows are parsed entry by entry up to the first blank line"""
    m = v.choice("columns", [2, 3, 1])
    n = v.length("n", 1, sizes=[1, 2, 3], cap=8)
    sep = v.choice("sep", [" ", "\t", "   "])
    lead = v.choice("lead", ["", " "])
    end = v.choice("end", ["", "\n", "\n\n5 6\n", "\n \t\n1 1 1"])
    t = v.table("t", n, m, increasing=False, gen=(-5.0, 5.0), colgen=(-9.0, 9.0))
    s = "\n".join(lead + sep.join(v.text(v.cell(t, i, j)) for j in range(m)) for i in range(n)) + end
    want = expected(v, t, n)
    got = v.ok(convert(v, s), "converts")
    rows_are(v, got, len(want), m, lambda i, j: v.cell(t, want[int(i)], j), "rows parsed")


@contract("C13", F, n=30)
def wrong_type(v):
    """data that is neither text nor an array raises TypeError"""
    x = v.choice("data", [None, 3, [[1.0, 2.0], [2.0, 3.0]], {}, (1.0,), b"1 2"])
    v.raises(convert(v, v.lst(x) if isinstance(x, list) and x and isinstance(x[0], float) else x), TypeError, "wrong type")
