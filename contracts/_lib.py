"""shared parts of the contracts"""
from contracts.c01 import UNITS, MAG, SCALE, wl, unwl, expected  # noqa: F401

ALIASES = {"wavelength": {"m": "m", "meter": "m", "metre": "m", "cm": "cm", "centimeter": "cm", "centimetre": "cm",
                          "um": "um", "micrometer": "um", "micrometre": "um", "nm": "nm", "nanometer": "nm",
                          "nanometre": "nm", "a": "a", "angstrom": "a"},
           "frequency": {"hz": "hz", "hertz": "hz"},
           "energy": {"ev": "ev", "electronvolt": "ev"},
           "angularfrequency": {"1/s": "1/s", "rad/s": "1/s"},
           "wavenumber": {"1/cm": "1/cm"}}

FORMULAS = ["Sellmeier", "Sellmeier2", "Polynomial", "RefractiveIndexInfo", "Cauchy", "Gases", "Herzberger", "Retro",
            "Exotic"]
EPSMODELS = ["Drude", "DrudeLorentz", "TaucLorentz"]
UM = ("wavelength", "um")
EV = ("energy", "ev")
GEN = {"um": (0.2, 20.0), "ev": (0.1, 12.0), "nm": (200.0, 20000.0), "m": (2e-7, 2e-5), "cm": (2e-5, 2e-3), "a": (2e3, 2e5),
       "hz": (3e13, 3e15), "1/s": (1e14, 2e16), "1/cm": (3000.0, 300000.0)}


def conv(v, a, b, x):
    """positive finite quantity x in unit a, expressed in unit b"""
    if a == b:
        return x
    return unwl(v, b[0], b[1], wl(v, a[0], a[1], x))


def request(v, name, b, forms=("scalar", "array"), lo_n=1, gen=None):
    """(argument, number of points or None, entry) : a request in unit b"""
    form = v.choice(name + "_form", list(forms)) if len(forms) > 1 else forms[0]
    g = gen or GEN[b[1]]
    if form == "scalar":
        x = v.pos(name, gen=g)
        return x, None, (lambda i: x)
    n = v.length(name + "_n", lo_n)
    x = v.array(name, n, lo=0, open_lo=True, gen=g)
    if form == "list":
        return v.mklist(n, lambda i: v.elem(x, i)), n, (lambda i: v.elem(x, i))
    x0 = v.snap(x)
    return x, n, (lambda i: v.elem(x0, i))


def points(v, n):
    """indices of a request with n points (None: scalar)"""
    if n is None:
        return [None]
    return v.each(n)


def at(v, r, i):
    """entry i of a result (None: the scalar itself)"""
    if i is None:
        return v.elem(r, 0) if v.is_array(r) else scalar(v, r)
    return v.elem(r, i)


def scalar(v, r):
    if v.sym:
        from pv.arrays import SArr
        return r.f() if isinstance(r, SArr) and r.ndim == 0 else r
    return r[()] if isinstance(r, v.numpy.ndarray) else r


def shape_ok(v, r, n, label="one value per point"):
    if n is None:
        v.ensure(v.is_scalar(r), label + " (number for a number)")
    else:
        v.ensure(v.is_array(r), label)
        v.ensure_eq(v.len(r), n, label)


def inside_of(v, rng, a, b):
    """x (in unit b) lies within the range rng=(lo,hi) given in unit a"""
    lo, hi = rng

    def f(x):
        y = conv(v, b, a, x)
        if a == b:
            return v.And(x >= lo, x <= hi)
        return v.And(y >= lo, y <= hi)
    return f


def clear_of(v, rng, a, b, x):
    """executions: away from the bounds when units differ (floating point)"""
    if a == b:
        return True
    y = conv(v, b, a, x)
    return v.apart(y, rng[0]) and v.apart(y, rng[1])


def valid_range(v, name, a, gen=None):
    """0 < lo < hi in unit a"""
    g = gen or GEN[a[1]]
    lo = v.pos(name + "_lo", gen=g)
    hi = v.pos(name + "_hi", gen=g)
    if not v.sym and lo > hi:
        lo, hi = hi, lo
    v.assume(lo < hi)
    return lo, hi


def model_params(v, name, terms=2):
    """well-shaped parameters of a model (bounded number of terms)"""
    r = lambda nm, lo=None, hi=None, gen=(0.05, 3.0), op=False: v.real(nm, lo=lo, hi=hi, open_lo=op, gen=gen)
    if name in ("Sellmeier", "Sellmeier2", "Gases"):
        return [r("c%d" % j) for j in range(1 + 2 * terms)]
    if name in ("Polynomial", "Cauchy"):
        return [r("c0"), r("c1"), 2.0, r("c3"), -2.0][:1 + 2 * terms]
    if name == "RefractiveIndexInfo":
        return [r("c0"), r("c1"), 0.0, r("c3"), 2.0, r("c5"), 2.0, r("c7"), 1.0, r("c9"), -4.0]
    if name in ("Herzberger", "Exotic"):
        return [r("c%d" % j) for j in range(6)]
    if name == "Retro":
        return [r("c%d" % j) for j in range(4)]
    if name == "Drude":
        return [r("wp"), r("g", lo=0)]
    if name == "DrudeLorentz":
        return [r("wp"), r("f", lo=0), r("w0"), r("g", lo=0)]
    if name == "TaucLorentz":
        e0 = r("e0", lo=0, op=True, gen=(2.0, 5.0))
        cc = r("c", lo=0, op=True, gen=(0.3, 2.0))
        v.assume(cc * cc < 2 * e0 * e0)
        return [r("A", lo=0), e0, cc, r("eg", lo=0, op=True, gen=(0.5, 2.0)), r("einf")]
    if name == "Fano":
        return [r("q"), r("er"), r("g", lo=0, op=True)]
    raise KeyError(name)


def home(name):
    """the type and unit a model requires"""
    return UM if name in FORMULAS else EV


def make_model(v, name, rng, terms=2, params=None, arr=True):
    sd = v.mod("spectral_data")
    a = home(name)
    p = params if params is not None else model_params(v, name, terms)
    if arr:
        p = v.arr(p) if params is None else p
    return v.call(getattr(sd, name), p, rng, spectrum_type=a[0], unit=a[1])


def div(v, a, b):
    """a / b away from poles"""
    if v.sym:
        from pv.values import Num, SComplex, tonum, tocomplex
        if isinstance(b, (SComplex, complex)) or isinstance(a, (SComplex, complex)):
            x, y = tocomplex(a), tocomplex(b)
            return SComplex(x.re, x.im, True) / SComplex(y.re, y.im, True)
        x, y = tonum(a), tonum(b)
        return Num(x.t, x.pi, x.ni, x.na, True) / Num(y.t, y.pi, y.ni, y.na, True)
    return v.numpy.float64(a) / b if not isinstance(a, complex) else a / b
