"""C28: angles and distances compute like the quantities they are, in any units."""
import quaxed.lax as qlax
import quaxed.numpy as qnp
from plum import convert

import coordinax.angle as ca
import coordinax.distance as cd

from .common import *  # noqa: F403

# kind -> (class, base unit, {unit: factor}, domain must stay non-negative)
KINDS = {
    "angle": (ca.Angle, "rad", {"rad": 1.0, "deg": 180.0 / float(jnp.pi)}, False),
    "distance": (cd.Distance, "km", {"km": 1.0, "m": 1000.0}, False),
    "parallax": (cd.Parallax, "mas", {"mas": 1.0, "arcsec": 0.001}, True),
    "modulus": (cd.DistanceModulus, "mag", {"mag": 1.0}, False),
}

MORE = {"angle": ("rad", "deg", "arcmin", "arcsec", "mas", "hourangle"), "distance": ("km", "m", "pc", "kpc", "Mpc", "au"),
        "parallax": ("mas", "arcsec", "uas", "deg", "rad"), "modulus": ("mag",)}

# name -> (operation, the same on numbers in the base unit, power of the unit, domain)
UN = {
    "square": (qnp.square, lambda x: x * x, 2, None),
    "pow2": (lambda x: x**2, lambda x: x * x, 2, None),
    "pow3": (lambda x: x**3, lambda x: x * x * x, 3, None),
    "pow-1": (lambda x: x**-1, lambda x: 1 / x, -1, "nz"),
    "power": (lambda x: qnp.power(x, 2), lambda x: x * x, 2, None),
    "integer_pow": (lambda x: qlax.integer_pow(x, 3), lambda x: x * x * x, 3, None),
    "reciprocal": (qnp.reciprocal, lambda x: 1 / x, -1, "nz"),
    "sqrt": (qnp.sqrt, jnp.sqrt, 0.5, "pos"),
    "cbrt cubed": (lambda x: qnp.cbrt(x) ** 3, lambda x: x, 1, "pos"),
    "neg": (lambda x: -x, lambda x: -x, 1, "sign"),
    "abs": (qnp.abs, jnp.abs, 1, None),
    "twice": (lambda x: 2 * x, lambda x: 2 * x, 1, None),
    "times 3": (lambda x: x * 3, lambda x: x * 3, 1, None),
    "half": (lambda x: x / 2, lambda x: x / 2, 1, None),
    "sum": (qnp.sum, jnp.sum, 1, None),
    "mean": (qnp.mean, jnp.mean, 1, None),
    "max": (qnp.max, jnp.max, 1, None),
    "flip": (lambda x: x[::-1], lambda x: x[::-1], 1, None),
}
BI = {
    "add": (lambda a, b: a + b, lambda a, b: a + b, 1, None),
    "sub": (lambda a, b: a - b, lambda a, b: a - b, 1, "sign"),
    "dot": (lambda a, b: a @ b, lambda a, b: a @ b, 2, None),
    "maximum": (qnp.maximum, jnp.maximum, 1, None),
    "concatenate": (lambda a, b: qnp.concatenate([a, b]), lambda a, b: jnp.concatenate([a, b]), 1, None),
    "mul": (lambda a, b: a * b, lambda a, b: a * b, 2, "mixed"),
    "div": (lambda a, b: a / b, lambda a, b: a / b, 0, "mixed"),
    "lt": (lambda a, b: a < b, lambda a, b: a < b, None, None),
    "ge": (lambda a, b: a >= b, lambda a, b: a >= b, None, None),
    "eq": (lambda a, b: a == b, lambda a, b: a == b, None, None),
}


def in_unit(x, unit):
    """Value of any quantity-like result in `unit` (its dimension must match)."""
    return u.uconvert(unit, u.Quantity(x.value, x.unit)).value


def harnesses(tier):
    hs = []
    A = lambda **k: Ang(None, None, **k)  # noqa: E731

    def add(name, fn, ins, assume=None):
        hs.append(Harness("C28", name, fn, ins, assume=assume))

    for kind, (cls, base, units, nonneg) in KINDS.items():
        spec = lambda d, k=kind, nn=nonneg, **kw: Pos(**kw) if d == "pos" or (nn and d == "nz") else NonNeg(**kw) if nn else Real(**kw)  # noqa: E731
        U = u.unit(base)
        for un, f in units.items():
            for nm, (op, ref, pw, dom) in UN.items():
                if dom == "sign" and nonneg:
                    continue

                def fn(c, x, op=op, ref=ref, pw=pw, cls=cls, un=un, f=f, U=U):
                    r = op(cls(x * f, un))
                    (rel if (un == "deg" or pw == 0.5) and pw not in (0, 1) else lambda c, *a: c.eq(*a))(c, "value", in_unit(r, U**pw), ref(x))
                add(f"{kind} {nm} {un}", fn, dict(x=spec(dom, shape=(2,))), (lambda x: [x != 0]) if dom == "nz" else None)
            for un2, f2 in units.items():
                for nm, (op, ref, pw, dom) in BI.items():
                    def fn(c, x, y, op=op, ref=ref, pw=pw, dom=dom, cls=cls, un=un, un2=un2, f=f, f2=f2, U=U, nonneg=nonneg):
                        for tag, l, r in (("aa", cls, cls), ("aq", cls, u.Quantity), ("qa", u.Quantity, cls)):
                            if (dom == "mixed" and tag == "aa") or (dom == "sign" and nonneg and tag != "qa"):
                                continue
                            w = op(l(x * f, un), r(y * f2, un2))
                            if pw is None:
                                got, want = jnp.asarray(w), ref(x, y)
                                c.true(f"{tag} value", jnp.all(got == want))
                            else:
                                c.eq(f"{tag} value", in_unit(w, U**pw), ref(x, y))
                    if nm == "eq" and un != un2:
                        continue      # equality after a rounded unit factor is not exact
                    add(f"{kind} {nm} {un} {un2}", fn, dict(x=spec(dom, shape=(2,)), y=spec("nz" if nm == "div" else dom, shape=(2,))),
                        (lambda y: [y != 0]) if nm == "div" else None)

            def conv(c, x, cls=cls, un=un, f=f, base=base):
                a = cls(x * f, un)
                for T_ in (u.Quantity, u.quantity.UncheckedQuantity) if cls is ca.Angle else (u.Quantity,):
                    qq = convert(a, T_)
                    c.true(f"{T_.__name__} kind", type(qq) is T_ or isinstance(qq, T_))
                    c.true(f"{T_.__name__} unit", qq.unit == a.unit)
                    c.eq(f"{T_.__name__} value", qq.value, x * f)
                    back = convert(qq, cls)
                    c.true(f"{T_.__name__} back kind", type(back) is cls and back.unit == a.unit)
                    c.eq(f"{T_.__name__} back", back.value, x * f)
                same_tree(c, "itself", convert(a, cls), a)
                for un3, f3 in KINDS[[k for k, v in KINDS.items() if v[0] is cls][0]][2].items():
                    w = u.uconvert(un3, a)
                    c.true(f"uconvert {un3}", type(w) is cls and w.unit == u.unit(un3))
                    c.eq(f"uconvert {un3} value", w.value, x * f3)
            for shp in ((), (2,), (2, 2)):
                add(f"{kind} conversions {un} {len(shp)}", conv, dict(x=spec(None, shape=shp)))
        # every other unit of the kind is kept by conversions
        def keeps(c, cls=cls, kind=kind, **inp):
            for x in inp.values():
                for un in MORE[kind]:
                    a = cls(x, un)
                    q = convert(a, u.Quantity)
                    c.true(f"{un} kinds", type(a) is cls and type(q) is not cls)
                    for nm, r in (("quantity", q), ("back", convert(q, cls)), ("from_", cls.from_(q)), ("from_ value", cls.from_(x, un)), ("from_ itself", cls.from_(a)), ("class call", a)):
                        c.true(f"{un} {nm} unit", r.unit == u.unit(un))
                        c.eq(f"{un} {nm} value", r.value, x)
                    for un2 in MORE[kind]:
                        k = u.Quantity(1.0, un).to_value(un2)
                        w = u.uconvert(un2, a)
                        c.true(f"{un}->{un2} kind", type(w) is cls and w.unit == u.unit(un2))
                        rel(c, f"{un}->{un2} value", w.value, x * k)
        add(f"{kind} keeps units", keeps, dict(x=spec(None), y=spec(None, shape=(2,)), z=spec(None, shape=(2, 1))))
    # trigonometry
    for un, f in ANG.items():
        def trig(c, x, un=un, f=f):
            a = ca.Angle(x * f, un)
            c.true("dimensionless", qnp.sin(a).unit == u.unit("") and qnp.cos(a).unit == u.unit(""))
            c.eq("sin", qnp.sin(a).value, jnp.sin(x))
            c.eq("cos", qnp.cos(a).value, jnp.cos(x))
        for sh in ((), (2,)):
            add(f"trigonometry {un} {sh}", trig, dict(x=A(shape=sh)))

        def plx(c, x, un=un, f=f):
            p = cd.Parallax(x * f, un)
            c.true("dimensionless", qnp.tan(p).unit == u.unit(""))
            c.eq("tan", qnp.tan(p).value, jnp.tan(x))
        add(f"parallax tan {un}", plx, dict(x=Ang(0, "1/2", lo_open=True, hi_open=True)))
    return hs


from fractions import Fraction as _F2  # noqa: E402

_orig = harnesses


def harnesses(tier):  # noqa: F811
    hs = _orig(tier)
    for h in hs:
        for s in h.inputs.values():
            if isinstance(s, Ang):
                s.lo = None if s.lo is None else _F2(s.lo)
                s.hi = None if s.hi is None else _F2(s.hi)
    return hs
