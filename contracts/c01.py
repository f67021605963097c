"""C01 Spectral quantities convert faithfully between all types and units."""
from pv.api import contract

# unit -> (type, power p, factor as decimal string, tolerance kind): wavelength[m] = factor * value   (p = +1)
# or wavelength[m] = factor / value (p = -1); factors use the SI defining constants.
C = "299792458"
H = "6.62607015e-34"
E = "1.602176634e-19"
UNITS = [("wavelength", "m"), ("wavelength", "cm"), ("wavelength", "um"), ("wavelength", "nm"), ("wavelength", "a"),
         ("frequency", "hz"), ("energy", "ev"), ("angularfrequency", "1/s"), ("wavenumber", "1/cm")]
SCALE = {"m": "1", "cm": "1e-2", "um": "1e-6", "nm": "1e-9", "a": "1e-10"}
# sensible magnitudes for concrete runs (wavelengths 10 nm .. 1 mm)
MAG = {"m": (1e-8, 1e-3), "cm": (1e-6, 1e-1), "um": (1e-2, 1e3), "nm": (1e1, 1e6), "a": (1e2, 1e7),
       "hz": (3e11, 3e16), "ev": (1.3e-3, 120.0), "1/s": (2e12, 2e17), "1/cm": (63.0, 6.3e6)}


def wl(v, st, unit, x):
    """wavelength in metres of the quantity x (x > 0 finite)"""
    c, h, e = v.q(C), v.q(H), v.q(E)
    if st == "wavelength":
        return v.q(SCALE[unit]) * x
    if st == "frequency":
        return c / x
    if st == "energy":
        return h * c / e / x
    if st == "angularfrequency":
        return 2 * v.pi * c / x
    return 2 * v.pi / (x * 100)


def unwl(v, st, unit, w):
    """quantity of the wavelength w in metres"""
    c, h, e = v.q(C), v.q(H), v.q(E)
    if st == "wavelength":
        return w / v.q(SCALE[unit])
    if st == "frequency":
        return c / w
    if st == "energy":
        return h * c / e / w
    if st == "angularfrequency":
        return 2 * v.pi * c / w
    return 2 * v.pi / (w * 100)


def grain(v, st, unit):
    if st == "wavelength":
        return v.q("1e-15") / v.q(SCALE[unit])
    if st == "energy":
        return v.q("1e-9")
    return v.q("0")


def expected(v, a, b, x):
    """the quantity x given in a, expressed in b: 0 and infinity swap in reciprocal conversions"""
    inf = v.numpy.inf
    flip = (a[0] == "wavelength") != (b[0] == "wavelength")
    if v.cases(x == 0):
        return inf if flip else 0.0
    if v.cases(x == inf):
        return 0.0 if flip else inf
    return unwl(v, b[0], b[1], wl(v, a[0], a[1], x))


@contract("C01", "spectrum.Spectrum.__init__", "spectrum.Spectrum.convert_to", "spectrum.Spectrum.convert_from",
          "spectrum.safe_inverse", "spectrum.safe_inverse_scalar", n=400)
def scalar(v):
    """a scalar converts to the physically equivalent quantity within the rounding grain"""
    v.grain()
    a = v.choice("from", UNITS)
    b = v.choice("to", UNITS)
    x = v.ext("x", gen=MAG[a[1]])
    S = v.mod("spectrum").Spectrum
    s = v.ok(v.call(S, x, spectrum_type=a[0], unit=a[1]), "a number is accepted")
    r = v.ok(v.call(s.convert_to, b[0], b[1]), "conversion succeeds")
    v.ensure(v.is_scalar(r), "a number converts to a number")
    v.ensure_close(r, expected(v, a, b, x), grain(v, b[0], b[1]), "%s->%s equivalent quantity" % (a[1], b[1]))


@contract("C01", "spectrum.Spectrum.__init__", "spectrum.Spectrum.convert_to", "spectrum.safe_inverse_array", n=400)
def arrays(v):
    """arrays, lists, tuples and integer arrays convert entry by entry"""
    v.grain()
    a = v.choice("from", UNITS)
    b = v.choice("to", UNITS)
    form = v.choice("form", ["array", "list", "tuple", "int"])
    n = v.length("n", 1)
    g = MAG[a[1]] if form != "int" else (max(1, MAG[a[1]][0]), max(50, min(MAG[a[1]][1], 9e17)))
    if form == "int":
        x = v.array("x", n, kind="i", lo=0, gen=g)
    else:
        x = v.array("x", n, lo=0, gen=g, ext=True)
    x0 = v.snap(x)
    arg = x if form in ("array", "int") else (v.mklist(n, lambda i: v.elem(x, i)))
    if form == "tuple":
        arg = v.astuple(arg)
    S = v.mod("spectrum").Spectrum
    s = v.ok(v.call(S, arg, spectrum_type=a[0], unit=a[1]), "values are accepted")
    r = v.ok(v.call(s.convert_to, b[0], b[1]), "conversion succeeds")
    v.ensure(v.is_array(r), "an array results")
    v.ensure_eq(v.len(r), n, "length kept")
    for i in v.each(n):
        v.ensure_close(v.elem(r, i), expected(v, a, b, v.elem(x0, i)), grain(v, b[0], b[1]),
                       "%s->%s entry by entry" % (a[1], b[1]))
    v.same(x0, x, "given values unchanged")
