"""C26: a parallax or distance modulus serves as a radius exactly like the distance it stands for.

Every harness applies one operation to a position holding a parallax (or modulus) and to the same position holding
that object's `.distance`, and claims that the results agree (distances compared as lengths).
"""
import warnings
from fractions import Fraction as F

from .common import *  # noqa: F403
from .ops import OPS

D = cx.distance
CAN = {"length": "pc", "angle": "rad"}


def canon(x):
    """Array of a component, in canonical units; any kind of distance as a length."""
    if isinstance(x, D.AbstractDistance):
        x = x.distance
    if hasattr(x, "unit"):
        for dim, un in CAN.items():
            if u.is_unit_convertible(un, x):
                return val(x, un)
        return x.value
    return x


def fields(v):
    import dataclasses
    if isinstance(v, (tuple, list)):
        return [p for i, x in enumerate(v) for p in [(f"{i}.{k}", y) for k, y in fields(x)]]
    if hasattr(v, "unit") or not dataclasses.is_dataclass(v):
        return [("", v)]
    return [(f"{f.name}.{k}", y) for f in dataclasses.fields(v) for k, y in fields(getattr(v, f.name))]


# class key -> (build(radius, angles), angles)
FULL = Ang(F(-2), F(2))
CLS = {
    "sph": (lambda r, t, p: cxv.SphericalPos(r=r, theta=qa(t), phi=qa(p)), dict(t=Ang(F(0), F(1)), p=Ang(F(0), F(2), hi_open=True))),
    "msph": (lambda r, t, p: cxv.MathSphericalPos(r=r, phi=qa(t), theta=qa(p)), dict(t=Ang(F(0), F(1)), p=Ang(F(0), F(2), hi_open=True))),
    "ll": (lambda r, t, p: cxv.LonLatSphericalPos(distance=r, lat=qa(t), lon=qa(p)), dict(t=Ang(F(-1, 2), F(1, 2)), p=Ang(F(0), F(2), hi_open=True))),
    "polar": (lambda r, p: cxv.PolarPos(r=r, phi=qa(p)), dict(p=Ang(F(0), F(2), hi_open=True))),
    "rad1": (lambda r: cxv.RadialPos(r=r), {}),
}
FROM = {
    "sph": lambda r, t, p: (cxv.SphericalPos.from_(r=r, theta=qa(t), phi=qa(p)),),
    "msph": lambda r, t, p: (cxv.MathSphericalPos.from_(r=r, phi=qa(t), theta=qa(p)),),
    "ll": lambda r, t, p: (cxv.LonLatSphericalPos.from_(distance=r, lat=qa(t), lon=qa(p)),),
}
KINDS = {
    "parallax": (dict(plx=Ang(F(0), F(1, 2), lo_open=True, hi_open=True)), lambda i: D.Parallax(i.pop("plx") * 648000000.0 / PI, "mas")),
    "modulus": (dict(mod=Real()), lambda i: D.DistanceModulus(i.pop("mod"), "mag")),
}


def harnesses(tier):
    hs = []
    QT, T = ("quick", "thorough"), ("thorough",)

    def add(name, kind, build, ins, f, tiers=QT, shape=(), **kw):
        """f(position, inputs) is the same for the position with either kind of radius."""
        kins, mk = KINDS[kind]

        def fn(c, **inp):
            inp = dict(inp)
            x = mk(inp)
            ang = {k: inp.pop(k) for k in ("t", "p") if k in inp}
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                a, b = f(build(x, **ang), inp), f(build(x.distance, **ang), inp)
            fa, fb = fields(a), fields(b)
            c.true("structure", [k for k, _ in fa] == [k for k, _ in fb])
            for (k, xa), (_, xb) in zip(fa, fb):
                if isinstance(xb, str) or xb is None:
                    continue
                c.eq(k or "value", canon(xa), canon(xb))
        hs.append(Harness("C26", f"{name} {kind}", fn, {k: type(s)(**{**s.__dict__, "shape": shape}) if k in ("plx", "mod", "t", "p") else s for k, s in {**kins, **ins}.items()}, tiers=tiers, **kw))

    for kind in KINDS:
        for a, (build, angs) in CLS.items():
            add(f"{a} components", kind, build, angs, lambda v, i: v)
            add(f"{a} norm", kind, build, angs, lambda v, i: v.norm())

            def islen(c, build=build, angs=angs, kind=kind, a=a, **inp):
                inp = dict(inp)
                x = KINDS[kind][1](inp)
                n = build(x, **inp).norm()
                c.true("norm is a length", bool(u.is_unit_convertible("m", n)) and not isinstance(n, D.Parallax | D.DistanceModulus))
                c.eq("norm", val(n, "pc") if not isinstance(n, D.AbstractDistance) else val(n.distance, "pc"), val(x.distance, "pc"))
            hs.append(Harness("C26", f"{a} norm value {kind}", islen, {**KINDS[kind][0], **angs}))
            for b, B in REPS.items():
                dims = [set(g) for g in (R1, R2, R3)]
                da, db = (next(i for i, g in enumerate(dims) if n in g) for n in (a, b))
                if da < db or (a == "ll" and db < 2):
                    continue
                if b == "prol":
                    add(f"{a}->{b}", kind, build, {**angs, "Dnew": Pos()}, lambda v, i: v.represent_as(cxv.ProlateSpheroidalPos, Delta=u.Quantity(i["Dnew"], "pc")), tiers=T)
                    continue
                if (a, b) == ("rad1", "rad1"):
                    continue
                for shp in ((), (1,)) if da > db else ((),):
                    add(f"{a}->{b} {shp}", kind, build, angs, lambda v, i, B=B: v.represent_as(B.cls), shape=shp)
            # raising the dimension, with the extra components given
            az, pol, L = Ang(F(0), F(2), hi_open=True), Ang(F(0), F(1)), Real()
            ups = {"rad1": [("cart2", dict(y=L)), ("polar", dict(phi=az)), ("cart", dict(y=L, z=L)), ("cyl", dict(phi=az, z=L)), ("sph", dict(theta=pol, phi=az)), ("msph", dict(theta=az, phi=pol))],
                   "polar": [("cart", dict(z=L)), ("cyl", dict(z=L)), ("sph", dict(theta=pol)), ("msph", dict(phi=pol))]}
            for b, extra in ups.get(a, []):
                def up(v, i, b=b, extra=extra):
                    return v.represent_as(REPS[b].cls, **{k: (qa(i["e_" + k]) if isinstance(s, Ang) else u.Quantity(i["e_" + k], "pc")) for k, s in extra.items()})
                add(f"{a}->{b} raised", kind, build, {**angs, **{"e_" + k: s for k, s in extra.items()}}, up)
            # arithmetic
            if a != "rad1":
                add(f"{a} neg", kind, build, angs, lambda v, i: -v, tiers=QT)
            k = Pos() if a == "rad1" else Real()
            add(f"{a} times", kind, build, {**angs, "k": k}, lambda v, i: (i["k"] * v, v * i["k"]))
            add(f"{a} over", kind, build, {**angs, "k": k}, lambda v, i: v / i["k"], assume=lambda k: [k != 0])
            if a != "rad1":
                c_ = "cart2" if a == "polar" else "cart"
                C = REPS[c_]

                def arith(v, i, C=C):
                    w = C.cls(**{x: u.Quantity(i[x], "pc") for x in C.comps})
                    return v + w, w + v, w - v
                add(f"{a} sum", kind, build, {**angs, **C.inputs}, arith, tiers=QT if kind != "parallax" or a == "polar" else T)
        for a, f in FROM.items():
            add(f"{a} from_", kind, f, dict(t=FULL, p=FULL), lambda v, i: v[0])
        # velocities, accelerations and operators at such positions
        for a in ("sph", "msph", "ll"):
            build, angs = CLS[a]
            for tgt in ("cart", "cyl"):
                def vel(v, i, a=a, tgt=tgt):
                    w = build_vel(a, i)
                    return w.represent_as(VELCLS[tgt], v)
                off = (lambda t: [jnp.cos(t) > 0]) if a == "ll" else (lambda t: [jnp.sin(t) > 0])
                add(f"{a}->{tgt} velocity", kind, build, {**angs, **diff_inputs(a)}, vel, assume=off, tiers=QT)

            def cvel(v, i, a=a):
                w = cxv.CartesianVel3D(**{"d_" + k: u.Quantity(i["d_" + k], "km / s") for k in "xyz"})
                return w.represent_as(VELCLS[a], v), w.represent_as(cxv.CylindricalVel, v)
            add(f"cart->{a} velocity", kind, build, {**angs, **diff_inputs("cart")}, cvel, assume=off)
            for o in ("translation", "rotation"):
                def oper(v, i, o=o):
                    return OPS[o].build(**OPS[o].sub("d0_", i))(v).represent_as(cxv.CartesianPos3D)
                add(f"{a} {o}", kind, build, {**angs, **OPS[o].ins("d0_")}, oper, tiers=QT if a == "sph" and o == "translation" and kind != "parallax" else T, assume=OPS[o].asm("d0_"))

            def four(v, i):
                f = cxv.FourVector(t=u.Quantity(i["ti"], "yr"), q=v, c=u.Quantity(2.0, "pc / yr"))
                return f._norm2().uconvert("pc2").value, (-f).q.represent_as(cxv.CartesianPos3D)
            add(f"{a} four", kind, build, {**angs, "ti": Real()}, four, tiers=QT)
    return hs
