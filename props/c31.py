"""C31: arrays, quantities, mappings and vectors convert into each other without mixing components."""
from plum import convert
from unxt.quantity import AbstractQuantity, UncheckedQuantity

from coordinax.distance import Distance

from .common import *  # noqa: F403

UN = {"pos": ("km", "m", 1000.0), "vel": ("km/s", "m/s", 1000.0), "acc": ("km/s2", "m/s2", 1000.0)}
CART = {
    ("pos", 1): (cxv.CartesianPos1D, ("x",)), ("vel", 1): (cxv.CartesianVel1D, ("d_x",)), ("acc", 1): (cxv.CartesianAcc1D, ("d2_x",)),
    ("pos", 2): (cxv.CartesianPos2D, ("x", "y")), ("vel", 2): (cxv.CartesianVel2D, ("d_x", "d_y")), ("acc", 2): (cxv.CartesianAcc2D, ("d2_x", "d2_y")),
    ("pos", 3): (cxv.CartesianPos3D, ("x", "y", "z")), ("vel", 3): (cxv.CartesianVel3D, ("d_x", "d_y", "d_z")),
    ("acc", 3): (cxv.CartesianAcc3D, ("d2_x", "d2_y", "d2_z")), ("generic", 3): (cxv.CartesianGeneric3D, ("x", "y", "z")),
    ("radial pos", 1): (cxv.RadialPos, ("r",)), ("radial vel", 1): (cxv.RadialVel, ("d_r",)), ("radial acc", 1): (cxv.RadialAcc, ("d2_r",)),
}
ND = {"pos": (cxv.CartesianPosND, "q"), "vel": (cxv.CartesianVelND, "d_q"), "acc": (cxv.CartesianAccND, "d2_q")}


def harnesses(tier):
    hs = []
    for (kind, n), (cls, names) in CART.items():
        un, un2, f = UN[{"generic": "pos"}.get(kind, kind.split()[-1])]
        dom = (lambda v: [x >= 0 for x in jnp.ravel(v)]) if kind == "radial pos" else None
        for shape in ((), (2,), (2, 3)):
            def build(c, v, kind=kind, n=n, cls=cls, names=names, un=un, un2=un2, f=f, shape=shape):
                ways = [("quantity", cls.from_(u.Quantity(v, un))), ("other unit", cls.from_(u.Quantity(v * f, un2))), ("array", cls.from_(v, un)),
                        ("mapping", cls.from_({k: u.Quantity(v[..., i], un) for i, k in enumerate(names)})),
                        ("reversed mapping", cls.from_({k: u.Quantity(v[..., i] * f, un2) for i, k in reversed(list(enumerate(names)))}))]
                if not kind.startswith(("generic", "radial")) and n > 1:
                    ways.append(("unchecked", cls.from_(UncheckedQuantity(v, un))))
                if shape == () and n == 1:
                    ways.append(("scalar", cls.from_(u.Quantity(v[0], un))))
                for nm, w in ways:
                    c.true(nm + " class", type(w) is cls)
                    c.true(nm + " shape", w.shape == shape)
                    for i, k in enumerate(names):
                        c.eq(f"{nm} {k}", val(getattr(w, k), un), v[..., i])
                if kind == "generic":
                    return
                w = ways[0][1]
                same_tree(c, "from itself", cls.from_(w), w)
                # mixed units: the quantity has one unit
                mixed = cls(**{k: u.Quantity(v[..., i] * (f if i % 2 else 1.0), un2 if i % 2 else un) for i, k in enumerate(names)})
                targets = [("Quantity", u.Quantity)]
                if not kind.startswith("radial"):
                    targets.append(("UncheckedQuantity", UncheckedQuantity))
                if kind == "pos":
                    targets += [("AbstractQuantity", AbstractQuantity)]
                for tn, T in targets:
                    for nm, x in (("same unit", w), ("mixed units", mixed)):
                        r = convert(x, T)
                        c.true(f"{tn} {nm} type", isinstance(r, T))
                        c.true(f"{tn} {nm} shape", r.shape == v.shape)
                        c.eq(f"{tn} {nm}", val(r, un), v)
                        if tn == "Quantity":
                            b = cls.from_(r)
                            for i, k in enumerate(names):
                                c.eq(f"back {nm} {k}", val(getattr(b, k), un), v[..., i])
                if n > 1 and len(shape) == 2:
                    # components of different shapes are broadcast first
                    part = cls(**{k: u.Quantity(v[..., i] if i else v[0, :, i], un) for i, k in enumerate(names)})
                    r = val(convert(part, u.Quantity), un)
                    c.true("broadcast shape", r.shape == v.shape)
                    for i in range(n):
                        c.eq(f"broadcast {i}", r[..., i], v[..., i] if i else jnp.broadcast_to(v[0, :, 0], shape))
            hs.append(Harness("C31", f"{kind} {n} {shape}", build, dict(v=Real(shape=(*shape, n))), assume=dom, tiers=("quick", "thorough") if kind != "radial pos" or len(shape) < 2 else ("thorough",)))

    for kind, (cls, nm) in ND.items():
        un, un2, f = UN[kind]
        for n in (1, 2, 3, 5):
            for shape in ((), (2,), (2, 1)):
                def nd(c, v, kind=kind, cls=cls, nm=nm, un=un, un2=un2, f=f, shape=shape):
                    for w, x in (("quantity", cls.from_(u.Quantity(v, un))), ("array", cls.from_(v * f, un2)), ("direct", cls(u.Quantity(v, un))), ("mapping", cls.from_({nm: u.Quantity(v, un)}))):
                        c.true(w + " class", type(x) is cls)
                        c.true(w + " shape", x.shape == shape)
                        c.eq(w, val(getattr(x, nm), un), v)
                        for T in (u.Quantity, UncheckedQuantity, AbstractQuantity) if kind == "pos" else (u.Quantity,):
                            r = convert(x, T)
                            c.true(f"{w} {T.__name__} shape", r.shape == v.shape)
                            c.eq(f"{w} {T.__name__}", val(r, un), v)
                        c.eq(w + " back", val(getattr(cls.from_(convert(x, u.Quantity)), nm), un), v)
                hs.append(Harness("C31", f"{kind} ND {n} {shape}", nd, dict(v=Real(shape=(*shape, n)))))

    # an array which does not have one entry per component is refused (1D: a plain batch of numbers is a batch of vectors)
    for (kind, n), (cls, names) in CART.items():
        un = UN[{"generic": "pos"}.get(kind, kind.split()[-1])][0]
        ms = [m for m in (1, 2, 3, 4, 5) if m != n]

        def wrong(c, kind=kind, n=n, cls=cls, names=names, un=un, **vs):
            for v in vs.values():
                m = v.shape[-1]
                for nm, make in (("array", lambda x: cls.from_(x, un)), ("quantity", lambda x: cls.from_(u.Quantity(x, un)))):
                    for bn, x in (("one", v[0]), ("batch", v)):
                        try:
                            w = make(x)
                        except Exception:
                            w = None
                        if n > 1:
                            c.true(f"{nm} {bn} of {m} entries is refused", w is None)
                        else:
                            c.true(f"{nm} {bn} of {m} numbers is that batch", w is not None and w.shape == x.shape)
                            if w is not None and w.shape == x.shape:
                                c.eq(f"{nm} {bn} of {m} numbers", val(getattr(w, names[0]), un), x)
        hs.append(Harness("C31", f"{kind} {n} from another number", wrong, {f"v{m}": Real(lo=0, shape=(2, m)) for m in ms}))

    def dist(c, v):
        for nm, x in (("3D", cxv.CartesianPos3D.from_(v, "km")), ("ND", cxv.CartesianPosND.from_(v, "km"))):
            r = convert(x, Distance)
            c.true(nm, isinstance(r, Distance) and r.shape == v.shape)
            c.eq(nm + " value", val(r, "km"), v)
    hs.append(Harness("C31", "to distance", dist, dict(v=Real(lo=0, shape=(2, 3)))))

    def scalar_nd(c, s):
        for kind, (cls, nm) in ND.items():
            x = cls.from_(u.Quantity(s, UN[kind][0]))
            c.true(kind + " shape", getattr(x, nm).shape == (1,))
            c.eq(kind, val(getattr(x, nm), UN[kind][0]), s[None])
    hs.append(Harness("C31", "scalar ND", scalar_nd, dict(s=Real())))

    # positions of every kind become their Cartesian quantity
    for a, A in REPS.items():
        if a in ("cart", "cart1", "cart2"):
            continue
        for lu, au in (("km", "rad"), ("m", "deg")):
            def other(c, a=a, A=A, lu=lu, au=au, **inp):
                x = A.build(**inp, lu=lu, au=au)
                for T in (u.Quantity, UncheckedQuantity, AbstractQuantity):
                    c.eq(T.__name__, val(convert(x, T), "km"), A.point(**inp))
            hs.append(Harness("C31", f"{a} {lu}", other, A.inputs, assume=A.assume))

    # spacetime vectors <-> (c t, x, y, z)
    for shape in ((), (2,)):
        def four(c, t, v, cc, shape=shape):
            w = cxv.FourVector(t=u.Quantity(t / 3600.0, "h"), q=cxv.CartesianPos3D(x=ql(v[..., 0]), y=ql(v[..., 1], "m"), z=ql(v[..., 2])), c=u.Quantity(cc, "km/s"))
            r = val(convert(w, u.Quantity), "km")
            c.true("shape", r.shape == (*shape, 4))
            c.eq("c t", r[..., 0], cc * t)
            c.eq("q", r[..., 1:], v)
            k = 299792.458
            w2 = cxv.FourVector.from_(u.Quantity(jnp.concatenate([k * t[..., None], v], -1) * 1000.0, "m"))
            c.true("from shape", w2.shape == shape)
            c.eq("from t", val(w2.t, "s"), t)
            c.eq("from q", point("cart", w2.q), v)
            w3 = cxv.FourVector.from_(jnp.concatenate([k * t[..., None], v], -1), "km")
            c.eq("array t", val(w3.t, "s"), t)
            c.eq("array q", point("cart", w3.q), v)
            r2 = val(convert(w2, u.Quantity), "km")
            c.eq("there and back", r2, jnp.concatenate([k * t[..., None], v], -1))
        hs.append(Harness("C31", f"four {shape}", four, dict(t=Real(shape=shape), v=Real(shape=(*shape, 3)), cc=Pos())))
    return hs
