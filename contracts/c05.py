"""C05 Permittivity models return their published complex value."""
from pv.api import contract
from contracts._lib import UNITS, GEN, EV, conv, request, points, at, shape_ok, div


def cplx(v, re, im):
    if v.sym:
        from pv.values import SComplex, tonum
        return SComplex(tonum(re), tonum(im))
    return complex(re, im)


def parts(v, z):
    if v.sym:
        from pv.values import tocomplex
        z = tocomplex(z)
        return z.re, z.im
    z = complex(z)
    return z.real, z.imag


def tauc(v, A, E0, C, Eg, einf, E, known):
    """Jellison and Modine (with erratum); known(x): x > 0"""
    np = v.numpy
    pi = v.pi
    e2, e02, eg2, c2 = E * E, E0 * E0, Eg * Eg, C * C
    al = np.sqrt(4 * e02 - c2)
    g2 = e02 - c2 / 2
    z4 = (e2 - g2) * (e2 - g2) + (4 * e02 - c2) * c2 / 4
    a_ln = (eg2 - e02) * e2 + eg2 * c2 - e02 * (e02 + 3 * eg2)
    a_at = (e2 - e02) * (e02 + eg2) + eg2 * c2
    p1 = div(v, A * C * a_ln, 2 * pi * z4 * al * E0) * np.log(div(v, e02 + eg2 + al * Eg, e02 + eg2 - al * Eg))
    p2 = -div(v, A * a_at, pi * z4 * E0) * (pi - np.arctan(div(v, 2 * Eg + al, C)) + np.arctan(div(v, al - 2 * Eg, C)))
    if v.sym:
        # pi/2 + arctan(2(g2-eg2)/(al C)) written as a sum of two arctangents (addition theorem)
        at2 = 2 * (np.arctan2(al + 2 * Eg, C) + np.arctan2(al - 2 * Eg, C))
    else:
        at2 = pi + 2 * np.arctan(2 * (g2 - eg2) / (al * C))
    p3 = div(v, 2 * A * E0 * Eg * (e2 - g2), pi * z4 * al) * at2
    p4 = -div(v, A * E0 * C * (e2 + eg2), pi * z4 * E) * np.log(div(v, np.abs(E - Eg), E + Eg))
    p5 = div(v, 2 * A * E0 * C * Eg, pi * z4) * np.log(div(v, np.abs(E - Eg) * (E + Eg),
                                                       np.sqrt((e02 - eg2) * (e02 - eg2) + eg2 * c2)))
    re = einf + p1 + p2 + p3 + p4 + p5
    den = (e2 - e02) * (e2 - e02) + c2 * e2
    im = div(v, A * E0 * C * (E - Eg) * (E - Eg), den * E)
    return re, im


def params(v, m):
    r = lambda nm, lo=None, op=False, gen=(0.05, 3.0): v.real(nm, lo=lo, open_lo=op, gen=gen)
    if m == "Drude":
        return [r("wp", gen=(0.5, 12.0)), r("g", gen=(0.01, 2.0))]
    if m == "DrudeLorentz":
        return [r("wp", gen=(0.5, 12.0)), r("f"), r("w0", gen=(0.3, 8.0)), r("g", gen=(0.01, 2.0))]
    if m == "TaucLorentz":
        e0 = r("e0", 0, True, (2.0, 5.0))
        c = r("c", 0, True, (0.3, 2.5))
        v.assume(c * c < 2 * e0 * e0)
        return [r("A", gen=(1.0, 100.0)), e0, c, r("eg", 0, True, (0.5, 2.0)), r("einf", gen=(0.5, 4.0))]
    return [r("q"), r("er", gen=(0.3, 8.0)), r("g", 0, True, (0.05, 2.0))]


def published(v, m, p, E):
    e2 = E * E
    if m == "Drude":
        d = e2 * e2 + p[1] * p[1] * e2
        return 1 - div(v, p[0] * p[0] * e2, d), div(v, p[0] * p[0] * p[1] * E, d)
    if m == "DrudeLorentz":
        a = p[2] * p[2] - e2
        d = a * a + p[3] * p[3] * e2
        return 1 + div(v, p[1] * p[0] * p[0] * a, d), div(v, p[1] * p[0] * p[0] * p[3] * E, d)
    if m == "TaucLorentz":
        re, im = tauc(v, p[0], p[1], p[2], p[3], p[4], E, None)
        return re, (im if v.cases(E > p[3]) else 0.0)
    e = div(v, 2 * (E - p[1]), p[2])
    return div(v, (p[0] + e) * (p[0] + e), (1 + p[0] * p[0]) * (1 + e * e)), 0.0


def tame(v, m, p, E):
    if v.sym:
        return True
    if m == "TaucLorentz":
        return abs(E - p[3]) > 1e-3
    if m == "DrudeLorentz":
        return abs(p[2] - E) > 1e-3 or abs(p[3]) > 1e-3
    return True


def evaluated(v, forms=("array", "list", "int")):
    m = v.choice("model", ["Drude", "DrudeLorentz", "TaucLorentz", "Fano"])
    b = v.choice("request_unit", UNITS)
    p = params(v, m)
    form = v.choice("form", ["array", "list"])
    arg, n, ent = request(v, "x", b)
    for i in points(v, n):
        if m == "TaucLorentz" and v.sym:
            v.assume(v.Not(conv(v, b, EV, ent(i)) == p[3]))
        if not tame(v, m, p, conv(v, b, EV, ent(i))):
            return None
    d = v.ok(v.call(getattr(v.mod("spectral_data"), m), v.arr(p) if form == "array" else v.lst(p), v.lst([0.0, v.numpy.inf]),
                    spectrum_type="energy", unit="ev"), "model created")
    s = v.ok(v.call(v.mod("spectrum").Spectrum, arg, spectrum_type=b[0], unit=b[1]), "request created")
    r = v.ok(v.call(d.evaluate, s), "evaluates")
    return m, b, p, n, ent, r


@contract("C05", "spectral_data.Drude.evaluate", "spectral_data.DrudeLorentz.evaluate", "spectral_data.TaucLorentz.evaluate",
          "spectral_data.TaucLorentz._calc_eps_imag", "spectral_data.TaucLorentz._calc_eps_real", "spectral_data.Fano.evaluate",
          "spectral_data.Model.preprocess", n=1200, split=4)
def value(v):
    """the published value at every point, for every request unit"""
    got = evaluated(v)
    if got is None:
        return
    m, b, p, n, ent, r = got
    shape_ok(v, r, n)
    for i in points(v, n):
        E = v.name(conv(v, b, EV, ent(i)))
        re, im = published(v, m, p, E)
        x, y = parts(v, at(v, r, i))
        if v.sym:
            v.ensure_eq(x, re, "%s: real part" % m)
            v.ensure_eq(y, im, "%s: imaginary part" % m)
        else:
            sc = 1 + abs(re) + abs(im) + (abs(p[0]) if m == "TaucLorentz" else 0)
            v.ensure_eq(x, re, "%s: real part" % m, rtol=1e-6, atol=1e-6 * sc)
            v.ensure_eq(y, im, "%s: imaginary part" % m, rtol=1e-6, atol=1e-9)


@contract("C05", "spectral_data.Drude.evaluate", "spectral_data.DrudeLorentz.evaluate", "spectral_data.TaucLorentz.evaluate", n=300)
def passive(v):
    """non-negative strengths and losses give a non-negative imaginary part"""
    m = v.choice("model", ["Drude", "DrudeLorentz", "TaucLorentz"])
    p = params(v, m)
    for k in {"Drude": [0, 1], "DrudeLorentz": [0, 1, 2, 3], "TaucLorentz": [0]}[m]:
        v.assume(p[k] >= 0)
    arg, n, ent = request(v, "x", EV)
    d = v.ok(v.call(getattr(v.mod("spectral_data"), m), v.lst(p), v.lst([0.0, v.numpy.inf]), spectrum_type="energy", unit="ev"),
             "model created")
    s = v.ok(v.call(v.mod("spectrum").Spectrum, arg, spectrum_type="energy", unit="ev"), "request created")
    r = v.ok(v.call(d.evaluate, s), "evaluates")
    for i in points(v, n):
        if not tame(v, m, p, ent(i)):
            continue
        v.ensure(parts(v, at(v, r, i))[1] >= 0, "%s: no negative absorption" % m)
