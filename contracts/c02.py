"""C02 Type and unit names resolve exactly; every other name is refused."""
from pv.api import contract
from contracts._lib import UNITS, GEN, ALIASES, conv, request, points, at

PAIRS = [(t, u, ALIASES[t][u]) for t in ALIASES for u in sorted(ALIASES[t])]
CASES = [str.lower, str.upper, str.title, str.swapcase, lambda s: "".join(c.upper() if i % 2 else c for i, c in enumerate(s))]


def named(v):
    """a type name and a unit name that are arbitrary strings"""
    t = v.string("t", gen=list(ALIASES))
    u = v.string("u", gen=[p[1] for p in PAIRS])
    return t, u


def meaning(v, t, u):
    """(type, unit) meant by the names, or None"""
    tl, ul = t.lower(), u.lower()
    for st in ALIASES:
        if v.cases(tl == st):
            for al in sorted(ALIASES[st]):
                if v.cases(ul == al):
                    return st, ALIASES[st][al]
            return None
    return None


@contract("C02", "spectrum.Spectrum.__init__", "spectrum.Spectrum.standardise_unit", n=600)
def create(v):
    """creating a spectrum accepts exactly the supported names, for arbitrary strings"""
    t, u = named(v)
    x = v.pos("x")
    out = v.call(v.mod("spectrum").Spectrum, x, spectrum_type=t, unit=u)
    m = meaning(v, t, u)
    if m is None:
        v.raises(out, ValueError, "unknown names are refused")
    else:
        s = v.ok(out, "supported names are accepted")
        v.ensure_eq(s.spectrum_type, m[0], "type name resolved")
        v.ensure_eq(s.unit, m[1], "unit name resolved")


@contract("C02", "spectrum.Spectrum.__init__", "spectrum.Spectrum.convert_to", n=300)
def aliases(v):
    """every alias in every letter case is accepted and means the same unit"""
    t, u, std = v.choice("name", PAIRS)
    k = v.choice("case", list(range(len(CASES))))
    k2 = v.choice("case2", [0, 1, 4])
    f, f2 = CASES[k], CASES[k2]
    S = v.mod("spectrum").Spectrum
    x = v.pos("x", gen=GEN[std])
    s = v.ok(v.call(S, x, spectrum_type=f(t), unit=f2(u)), "alias accepted on creation")
    v.ensure_eq(s.spectrum_type, t, "type resolved")
    v.ensure_eq(s.unit, std, "unit resolved")
    r = v.ok(v.call(s.convert_to, f2(t), f(u)), "alias accepted on conversion")
    v.ensure_eq(r, x, "same unit, same value", rtol=1e-6)
    v.ensure_eq(v.ok(v.call(s.convert_to, "wavelength", "m"), "converts"), conv(v, (t, std), ("wavelength", "m"), x),
                "denotes the quantity")


@contract("C02", "spectrum.Spectrum.convert_to", n=600)
def convert(v):
    """conversion accepts exactly the supported names; refusals and plain conversions change nothing"""
    t, u = named(v)
    a = v.choice("from", [UNITS[3], UNITS[6]])
    inp = v.bool("in_place")
    arg, n, ent = request(v, "x", a)
    s = v.ok(v.call(v.mod("spectrum").Spectrum, arg, spectrum_type=a[0], unit=a[1]), "created")
    before = v.state(s)
    out = v.call(s.convert_to, t, u, in_place=inp)
    m = meaning(v, t, u)
    if m is None:
        v.raises(out, ValueError, "unknown names are refused")
        v.same(v.state(s), before, "a refused conversion changes nothing")
        return
    r = v.ok(out, "supported names are accepted")
    if not inp:
        v.same(v.state(s), before, "a plain conversion changes nothing")
        for i in points(v, n):
            v.ensure_eq(at(v, r, i), conv(v, a, m, ent(i)), "converted value", rtol=1e-6)
    else:
        v.ensure_eq(s.spectrum_type, m[0], "type changes with the values")
        v.ensure_eq(s.unit, m[1], "unit changes with the values")
        for i in points(v, n):
            v.ensure_eq(at(v, s.values, i), conv(v, a, m, ent(i)), "values change with the unit", rtol=1e-6)


@contract("C02", "spectrum.Spectrum.convert_to", n=600)
def in_place(v):
    """after any in-place conversions the spectrum denotes the same quantity"""
    a = v.choice("from", UNITS)
    b = v.choice("to", UNITS)
    b2 = v.choice("then", [None, UNITS[3], UNITS[6]])
    c = v.choice("finally", [UNITS[2]] if v.sym else [UNITS[0], UNITS[2], UNITS[6]])
    arg, n, ent = request(v, "x", a)
    S = v.mod("spectrum").Spectrum
    s = v.ok(v.call(S, arg, spectrum_type=a[0], unit=a[1]), "created")
    v.ok(v.call(s.convert_to, b[0], b[1], in_place=True), "in-place conversion")
    last = b
    if b2 is not None:
        v.ok(v.call(s.convert_to, b2[0], b2[1], in_place=True), "in-place conversion")
        last = b2
    v.ensure_eq(s.spectrum_type, last[0], "type after the conversions")
    v.ensure_eq(s.unit, last[1], "unit after the conversions")
    r = v.ok(v.call(s.convert_to, c[0], c[1]), "later conversion")
    s2 = v.ok(v.call(S, s.values, spectrum_type=s.spectrum_type, unit=s.unit), "the values are a spectrum")
    r2 = v.ok(v.call(s2.convert_to, c[0], c[1]), "converts")
    for i in points(v, n):
        v.ensure_eq(at(v, s.values, i), conv(v, a, last, ent(i)), "values denote the same quantity", rtol=1e-5)
        v.ensure_eq(at(v, r, i), conv(v, a, c, ent(i)), "later conversions denote the same quantity", rtol=1e-5)
        v.ensure_eq(at(v, r2, i), conv(v, a, c, ent(i)), "values, type and unit agree", rtol=1e-5)
