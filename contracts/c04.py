"""C04 Each refractive-index formula returns its published value (refractiveindex.info formulas 1 to 9)."""
from pv.api import contract
from contracts._lib import UNITS, GEN, UM, FORMULAS, conv, request, points, at, shape_ok, div

ANY_TERMS = ["Sellmeier", "Sellmeier2", "Polynomial", "RefractiveIndexInfo", "Cauchy", "Gases"]
ROOT = {"Sellmeier", "Sellmeier2", "Polynomial", "RefractiveIndexInfo", "Retro", "Exotic"}


def published(v, m, c, terms, x):
    """value of formula m (or its square, for ROOT) at the wavelength x in micrometres; c(j): coefficient j"""
    pw = v.numpy.power
    x2 = x * x
    if m == "Sellmeier":
        return 1 + c(0) + v.sum(terms, lambda t: c(2 * t + 1) * div(v, x2, x2 - c(2 * t + 2) * c(2 * t + 2)))
    if m == "Sellmeier2":
        return 1 + c(0) + v.sum(terms, lambda t: c(2 * t + 1) * div(v, x2, x2 - c(2 * t + 2)))
    if m in ("Polynomial", "Cauchy"):
        return c(0) + v.sum(terms, lambda t: c(2 * t + 1) * pw(x, c(2 * t + 2)))
    if m == "Gases":
        return 1 + c(0) + v.sum(terms, lambda t: div(v, c(2 * t + 1), c(2 * t + 2) - 1 / x2))
    if m == "Herzberger":
        d = x2 - v.q("0.028")
        return c(0) + div(v, c(1), d) + div(v, c(2), d * d) + c(3) * x2 + c(4) * x2 * x2 + c(5) * x2 * x2 * x2
    if m == "Retro":
        s = c(0) + div(v, c(1) * x2, x2 - c(2)) + c(3) * x2
        return div(v, 1 + 2 * s, 1 - s)
    if m == "Exotic":
        return c(0) + div(v, c(1), x2 - c(2)) + div(v, c(3) * (x - c(4)), (x - c(4)) * (x - c(4)) + c(5))
    raise KeyError(m)


def rii(v, c, nrat, terms, x):
    pw = v.numpy.power
    r = c(0)
    for k in range(nrat):
        b = 4 * k + 1
        r = r + div(v, c(b) * pw(x, c(b + 1)), x * x - pw(c(b + 2), c(b + 3)))
    return r + v.sum(terms, lambda t: c(2 * t + 9) * pw(x, c(2 * t + 10)))


def tame(v, m, c, n, nrat, terms, x):
    """executions: not close to a pole or a zero of the radicand (conditioning)"""
    if v.sym:
        return True
    try:
        val = rii(v, c, nrat, terms, x) if m == "RefractiveIndexInfo" else published(v, m, c, terms, x)
        dv = rii(v, c, nrat, terms, x * 1.00001) if m == "RefractiveIndexInfo" else published(v, m, c, terms, x * 1.00001)
    except ZeroDivisionError:
        return False
    import math
    if not math.isfinite(val) or not math.isfinite(dv):
        return False
    big = 1 + sum(abs(c(j)) for j in range(n))
    return abs(val) < 1e4 * big and abs(val - dv) < 0.05 * (abs(val) + 1e-3) and (m not in ROOT or val > 1e-3)


def check(v, m, p, n, nrat, terms):
    sd = v.mod("spectral_data")
    c = (lambda j: v.elem(p, j)) if not isinstance(p, list) else (lambda j: p[j])
    b = v.choice("request_unit", UNITS)
    arg, npt, ent = request(v, "x", b)
    d = v.ok(v.call(getattr(sd, m), p, v.lst([0.0, v.numpy.inf]), spectrum_type="wavelength", unit="um"), "model created")
    s = v.ok(v.call(v.mod("spectrum").Spectrum, arg, spectrum_type=b[0], unit=b[1]), "request created")
    if not v.sym and not all(tame(v, m, c, n, nrat, terms, conv(v, b, UM, ent(i))) for i in points(v, npt)):
        return
    r = v.ok(v.call(d.evaluate, s), "evaluates")
    shape_ok(v, r, npt)
    for i in points(v, npt):
        x = conv(v, b, UM, ent(i))
        val = rii(v, c, nrat, terms, x) if m == "RefractiveIndexInfo" else published(v, m, c, terms, x)
        y = at(v, r, i)
        if m in ROOT:
            # np.sqrt is the non-negative root wherever the published value is defined
            v.ensure_eq(y, v.numpy.sqrt(val), "%s: published value" % m, rtol=1e-5)
        else:
            v.ensure_eq(y, val, "%s: published value" % m, rtol=1e-5, atol=1e-9)


def coefficients(v, n, form):
    g = (0.02, 2.0)
    if form == "list":
        return v.list("c", n, gen=g)
    return v.array("c", n, gen=g)


@contract("C04", *["spectral_data.%s.evaluate" % m for m in FORMULAS if m in ANY_TERMS and m != "RefractiveIndexInfo"],
          "spectral_data.Model.preprocess", n=900)
def sums(v):
    """formulas with any number of terms"""
    m = v.choice("model", [m for m in ANY_TERMS if m != "RefractiveIndexInfo"])
    form = v.choice("form", ["array", "list"])
    terms = v.length("terms", 0)
    n = 1 + 2 * terms
    check(v, m, coefficients(v, n, form), n, 0, terms)


@contract("C04", "spectral_data.RefractiveIndexInfo.evaluate", "spectral_data.Model.preprocess", n=600, split=3)
def formula4(v):
    """RefractiveIndex.INFO: none, one or two rational terms and any number of powers"""
    form = v.choice("form", ["array", "list"])
    nrat = v.choice("rational", [0, 1, 2])
    terms = v.length("terms", 0) if nrat == 2 else 0
    n = 9 + 2 * terms if nrat == 2 else 1 + 4 * nrat
    check(v, "RefractiveIndexInfo", coefficients(v, n, form), n, nrat, terms)


@contract("C04", "spectral_data.Herzberger.evaluate", "spectral_data.Retro.evaluate", "spectral_data.Exotic.evaluate",
          "spectral_data.Model.preprocess", n=600)
def fixed(v):
    """formulas with a fixed number of coefficients"""
    m = v.choice("model", ["Herzberger", "Retro", "Exotic"])
    form = v.choice("form", ["array", "list"])
    n = 4 if m == "Retro" else 6
    check(v, m, coefficients(v, n, form), n, 0, 0)
