"""C12 Effective media obey their mixing laws."""
from pv.api import contract
from contracts._lib import UNITS, GEN, UM, conv, points, at, shape_ok, div
from contracts._mats import some_material, request_in, FIXED, TABLES, fixed_value
from contracts.c05 import parts, cplx
from contracts.c08 import spectrum, req_state

M_ = ("wavelength", "m")
SOME = [UNITS[3], UNITS[6]]
RULES = ["Simple", "MaxwellGarnett", "Bruggeman"]


def eps_table(v, name, n, xs, a):
    """a material given by its permittivity at the points xs (unit a), and its columns"""
    re = v.array(name + "_re", n, gen=(-9.0, 9.0))
    im = v.array(name + "_im", n, gen=(-3.0, 6.0))
    t = v.ok(v.call(lambda: v.numpy.vstack([xs, re, im]).T), "table")
    m = v.ok(v.call(v.mod().Material, tabulated_eps=t, spectrum_type=a[0], unit=a[1]), "material created")
    return m, (lambda i: cplx(v, v.elem(re, i), v.elem(im, i)))


def two(v, kinds, a):
    """spectrum and two materials with a common range: (spectrum, n, materials, permittivities, wavelengths in m)"""
    n = v.length("n", 2, cap=6)
    xs = v.array("x", n, lo=0, open_lo=True, increasing=True, gen=GEN[a[1]])
    if not v.sym and n > 1:
        v.assume(all(v.apart(p, q, 1e-3) for p, q in zip(xs, xs[1:])))
    mats, eps = [], []
    for k, kind in enumerate(kinds):
        if kind == "table":
            m, e = eps_table(v, "e%d" % k, n, xs, a)
        else:
            z = cplx(v, v.real("c%d_re" % k, gen=(-9.0, 9.0)), v.real("c%d_im" % k, gen=(-3.0, 6.0)))
            m, e = v.ok(v.call(v.mod().Material, fixed_eps=z), "material created"), (lambda i, z=z: z)
        mats.append(m)
        eps.append(e)
    return xs, n, mats, eps


def fraction(v):
    f = v.choice("f", ["any", "0", "1"])
    return v.real("frac", lo=0, hi=1, gen=(0.0, 1.0)) if f == "any" else v.q(f) if v.sym else float(f)


def effective(v, cls, s, mats, f):
    return v.call(getattr(v.mod("material"), cls), s, mats[0], mats[1], f)


def value_at(v, em, x, a):
    """effective permittivity at a point of the spectrum"""
    p = v.ok(v.call(em.get_permittivity, x, spectrum_type=a[0], unit=a[1]), "evaluates at a point of the spectrum")
    return at(v, p, None)


def mod2(v, z):
    p, q = parts(v, z)
    return p * p + q * q


def setting(v, light=False):
    a = v.choice("unit", SOME if v.sym else UNITS)
    kinds = v.choice("kinds", [["table", "table"], ["fixed", "fixed"]] if light and v.sym else [["table", "table"], ["table", "fixed"], ["fixed", "table"], ["fixed", "fixed"]])
    return a, kinds


def inner(v, n):
    """indices of the points (executions: bounds are left out, rounding decides there)"""
    return v.each(n) if v.sym else range(1, int(n) - 1)


def close(v, got, want, label, tol=1e-6):
    p, q = parts(v, got)
    r, s = parts(v, want)
    sc = 0.0 if v.sym else 30 * tol * (abs(r) + abs(s) + 1.0)
    v.ensure_eq(p, r, label + " (real part)", tol, sc)
    v.ensure_eq(q, s, label + " (imaginary part)", tol, sc)


@contract("C12", "material.Simple.create_effective_data", "material.EffectiveMedium.__init__", n=600, split=4)
def simple(v):
    """(1-f) e1 + f e2 at each point of the spectrum"""
    a, kinds = setting(v)
    f = fraction(v)
    xs, n, mats, eps = two(v, kinds, a)
    em = v.ok(effective(v, "Simple", spectrum(v, xs, a), mats, f), "effective medium created")
    for i in inner(v, n):
        e1, e2 = eps[0](i), eps[1](i)
        got = value_at(v, em, v.elem(xs, i), a)
        close(v, got, e1 * (1 - f) + e2 * f, "mixing law")


@contract("C12", "material.MaxwellGarnett.create_effective_data", n=600, split=4)
def maxwell_garnett(v):
    """the Maxwell-Garnett value at each point; (nearly) singular denominators anywhere raise ValueError"""
    a, kinds = setting(v)
    f = fraction(v)
    xs, n, mats, eps = two(v, kinds, a)
    down = lambda i: eps[0](i) * (2 + f) + eps[1](i) * (1 - f)
    out = effective(v, "MaxwellGarnett", spectrum(v, xs, a), mats, f)
    if not out.ok:
        v.raises(out, ValueError, "refusal is a ValueError")
        # only if nearly singular somewhere
        if v.sym:
            v.ensure_some(n, lambda i: mod2(v, down(i)) <= v.q("1e-12"), "refused only when nearly singular")
        else:
            v.ensure(any(mod2(v, down(i)) < 1e-11 for i in range(n)), "refused only when nearly singular")
        return
    for i in inner(v, n):
        e1, e2 = eps[0](i), eps[1](i)
        d = down(i)
        v.ensure(mod2(v, d) >= v.q("0.9e-12"), "nearly singular denominators are refused")
        if not v.sym and mod2(v, d) < 1e-4:
            continue
        got = value_at(v, em_of(out), v.elem(xs, i), a)
        close(v, got, div(v, e1 * (e1 * (2 * (1 - f)) + e2 * (1 + 2 * f)), d), "Maxwell-Garnett value")


def em_of(out):
    return out.value


@contract("C12", "material.MaxwellGarnett.create_effective_data", n=300, split=3)
def singular(v):
    """a vanishing denominator at some point raises ValueError"""
    a = v.choice("unit", SOME if v.sym else UNITS)
    f = v.real("frac", lo=0, hi=1, gen=(0.0, 0.95))
    v.assume(f < 0.99)
    n = v.length("n", 2, cap=6)
    xs = v.array("x", n, lo=0, open_lo=True, increasing=True, gen=GEN[a[1]])
    m1, e1 = eps_table(v, "e0", n, xs, a)
    # the second material makes the denominator vanish at point j
    j = v.int("j", 0, None) if v.sym else v.rng.randrange(n)
    if v.sym:
        v.assume(j < n)
    else:
        v._log("j", j)
    z = e1(j) * div(v, -(2 + f), 1 - f)
    m2 = v.ok(v.call(v.mod().Material, fixed_eps=z), "material created")
    if not v.sym:
        # executions: interpolation between close points is off by slope times the grain of the spectrum
        p = at(v, v.ok(v.call(m1.get_permittivity, v.elem(xs, j), spectrum_type=a[0], unit=a[1]), "evaluates"), None)
        v.assume(mod2(v, p * (2 + f) + z * (1 - f)) < 1e-14)
    v.raises(effective(v, "MaxwellGarnett", spectrum(v, xs, a), [m1, m2], f), ValueError, "singular at a point")


@contract("C12", "material.Bruggeman.create_effective_data", "material.Bruggeman._get_bruggeman_solution1",
          "material.Bruggeman._get_bruggeman_solution2", n=600, split=4)
def bruggeman(v):
    """a solution of the Bruggeman equation, with non-negative imaginary part whenever one exists"""
    a, kinds = setting(v)
    f = fraction(v)
    xs, n, mats, eps = two(v, kinds, a)
    em = v.ok(effective(v, "Bruggeman", spectrum(v, xs, a), mats, f), "effective medium created")
    for i in inner(v, n):
        e1, e2 = eps[0](i), eps[1](i)
        e = value_at(v, em, v.elem(xs, i), a)
        # cleared of denominators: f (e2-e)(e1+2e) + (1-f)(e1-e)(e2+2e) = 0, i.e. e^2 + p e + q = 0
        p = (e1 * f - e2 * (2 * f) + e2 * (1 - f) - e1 * (2 * (1 - f))) * v.q("0.5")
        q = e1 * e2 * v.q("-0.5")
        # the other root
        o = -p - e
        if v.sym:
            r = e * e + p * e + q
            x, y = parts(v, r)
            v.ensure_eq(x, 0.0, "solves the equation (real part)")
            v.ensure_eq(y, 0.0, "solves the equation (imaginary part)")
            v.ensure(v.Or(parts(v, e)[1] >= 0, parts(v, o)[1] < 0), "non-negative imaginary part whenever one exists")
        else:
            sc = abs(e) ** 2 + abs(p * e) + abs(q) + 1e-9
            v.ensure(abs(e * e + p * e + q) <= 1e-5 * sc, "solves the equation")
            v.ensure(e.imag >= -1e-6 * abs(e) or o.imag < 1e-6 * (abs(o) + abs(e)), "non-negative imaginary part whenever one exists")


@contract("C12", "material.Simple.create_effective_data", "material.MaxwellGarnett.create_effective_data", n=400, split=4)
def limits(v):
    """f = 0 gives the first and f = 1 the second material"""
    a, kinds = setting(v)
    cls = v.choice("rule", RULES[:2])
    one = v.bool("one")
    xs, n, mats, eps = two(v, kinds, a)
    out = effective(v, cls, spectrum(v, xs, a), mats, v.q("1") if one else v.q("0"))
    if not out.ok and cls == "MaxwellGarnett":
        return
    em = v.ok(out, "effective medium created")
    for i in inner(v, n):
        want = eps[1 if one else 0](i)
        d = eps[0](i) * 3 if one else eps[0](i) * 2 + eps[1](i)
        if not v.sym and mod2(v, d) < 1e-4:
            continue
        close(v, value_at(v, em, v.elem(xs, i), a), want, "f = %d" % one)


@contract("C12", "material.EffectiveMedium.__init__", n=400, split=3)
def refused(v):
    """a fraction outside [0,1] raises ValueError"""
    a, kinds = setting(v)
    cls = v.choice("rule", RULES)
    f = v.real("frac", gen=(-3.0, 4.0))
    v.assume(v.Or(f < 0, f > 1))
    xs, n, mats, eps = two(v, kinds, a)
    v.raises(effective(v, cls, spectrum(v, xs, a), mats, f), ValueError, "fraction outside [0,1]")


@contract("C12", "material.EffectiveMedium.__init__", *["material.%s.create_effective_data" % r for r in RULES], n=400, split=4)
def unchanged(v):
    """input materials and spectrum are unchanged"""
    a, kinds = setting(v, True)
    cls = v.choice("rule", RULES)
    f = v.real("frac", gen=(-0.2, 1.2))
    xs, n, mats, eps = two(v, kinds, a)
    s = spectrum(v, xs, a)
    before = v.state(req_state(s)), v.state(mats[0]), v.state(mats[1])
    effective(v, cls, s, mats, f)
    v.same(v.state(req_state(s)), before[0], "spectrum unchanged")
    v.same(v.state(mats[0]), before[1], "first material unchanged")
    v.same(v.state(mats[1]), before[2], "second material unchanged")


@contract("C12", "material.EffectiveMedium.__init__", *["material.%s.create_effective_data" % r for r in RULES], n=300, split=4)
def any_materials(v):
    """materials defined by refractive index or tables in other units are mixed by their permittivities"""
    cls = v.choice("rule", RULES[:2])
    a = v.choice("unit", SOME if v.sym else UNITS)
    k1 = v.choice("kind1", ["fixed_n", "fixed_nk", "fixed_eps_r", "fixed_eps"])
    k2 = v.choice("kind2", ["fixed_nk", "fixed_eps"])
    z1, z2 = fixed_value(v, "z1", k1), fixed_value(v, "z2", k2)
    M = v.mod().Material
    m1, m2 = v.ok(v.call(M, **{k1: z1}), "first"), v.ok(v.call(M, **{k2: z2}), "second")
    f = v.real("frac", lo=0, hi=1, gen=(0.0, 1.0))
    n = v.length("n", 2, cap=4)
    xs = v.array("x", n, lo=0, open_lo=True, increasing=True, gen=GEN[a[1]])
    if not v.sym:
        v.assume(all(v.apart(p, q, 1e-3) for p, q in zip(xs, xs[1:])))
    out = effective(v, cls, spectrum(v, xs, a), [m1, m2], f)
    if not out.ok and cls == "MaxwellGarnett":
        return
    em = v.ok(out, "effective medium created")
    e1 = z1 if "eps" in k1 else z1 * z1
    e2 = z2 if "eps" in k2 else z2 * z2
    d = e1 * (2 + f) + e2 * (1 - f)
    if not v.sym and cls == "MaxwellGarnett" and abs(d) < 1e-2:
        return
    want = e1 * (1 - f) + e2 * f if cls == "Simple" else div(v, e1 * (e1 * (2 * (1 - f)) + e2 * (1 + 2 * f)), d)
    for i in inner(v, n):
        close(v, value_at(v, em, v.elem(xs, i), a), want, "mixing law")
