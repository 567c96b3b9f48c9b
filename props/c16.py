"""C16: spacetime vectors keep time, space and light speed consistent."""
from .c08 import by_suffix
from .common import *  # noqa: F403


def harnesses(tier):
    hs = []
    QT, T = ("quick", "thorough"), ("thorough",)

    def four(A, inp, p, c=None, tu="s", lu="km", au="rad"):
        t = u.Quantity(inp["t" + p] / SEC[tu] if tu != "s" else inp["t" + p], tu)
        kw = {} if c is None else {"c": u.Quantity(c, "km/s")}
        return cxv.FourVector(t=t, q=A.build(**{k: inp[k + p] for k in A.inputs}, lu=lu, au=au), **kw)

    def ins(A, p):
        return {"t" + p: Real(), **{k + p: v for k, v in A.inputs.items()}}

    def cond(A, p):
        return None if A.assume is None else lambda **kw: A.assume(**{k: kw[k + p] for k in A.inputs})

    def P(A, inp, p):
        return A.point(**{k: inp[k + p] for k in A.inputs})

    for a, A in R3.items():
        for tu, lu, au in (("s", "km", "rad"), ("h", "m", "deg")):
            def expose(c, a=a, A=A, tu=tu, lu=lu, au=au, **inp):
                f = four(A, inp, "_1", inp["cc"], tu, lu, au)
                c.eq("t", val(f.t, "s"), inp["t_1"])
                c.true("q class", type(f.q) is A.cls)
                for k, un in zip(A.comps, UNITS[a]):
                    c.eq(k, val(getattr(f.q, k), un), inp[k + "_1"])
                    c.eq("four." + k, val(getattr(f, k), un), inp[k + "_1"])
                c.eq("c", val(f.c, "km/s"), inp["cc"])
                p = P(A, inp, "_1")
                n2 = (inp["cc"] * inp["t_1"]) ** 2 - jnp.sum(p * p)
                c.eq("interval", val(f._norm2(), "km2"), n2)
                for nm, n in (("norm", f.norm()), ("abs", abs(f))):
                    v = u.uconvert("km", n).value
                    re, im = jnp.real(v), jnp.imag(v)
                    c.eq(nm + " squared", re * re - im * im, n2)
                    c.eq(nm + " real or imaginary", re * im, jnp.zeros(()))
                    c.le(nm + " re >= 0", 0.0, re)
                    c.le(nm + " im >= 0", 0.0, im)
            hs.append(Harness("C16", f"expose {a} {tu}", expose, {**ins(A, "_1"), "cc": Pos()}, assume=cond(A, "_1"), tiers=QT if tu == "s" or a != "prol" else T))

    def default_c(c, t_1, x_1, y_1, z_1):
        f = four(R3["cart"], dict(t_1=t_1, x_1=x_1, y_1=y_1, z_1=z_1), "_1")
        c.eq("c", val(f.c, "km/s"), 299792.458 * jnp.ones(()))
        c.eq("interval", val(f._norm2(), "km2"), (299792.458 * t_1) ** 2 - (x_1 * x_1 + y_1 * y_1 + z_1 * z_1))
        g = cxv.FourVector(t=u.Quantity(t_1, "s"), q=u.Quantity(jnp.stack([x_1, y_1, z_1]), "km"))
        c.true("cartesian", type(g.q) is cxv.CartesianPos3D)
        h = cxv.FourVector.from_({"t": u.Quantity(t_1, "s"), "q": g.q, "c": u.Quantity(5.0, "km/s")})
        c.eq("mapping c", val(h.c, "km/s"), 5.0 * jnp.ones(()))
        c.eq("mapping t", val(h.t, "s"), t_1)
        w = cxv.FourVector.from_(u.Quantity(jnp.stack([t_1 * 299792.458, x_1, y_1, z_1]), "km"))
        more = []
        for un in ("m", "kpc", "au", "pc"):
            k = u.Quantity(1.0, "km").to_value(un)
            more.append((cxv.FourVector.from_(u.Quantity(jnp.stack([t_1 * 299792.458, x_1, y_1, z_1]) * k, un)), f"4-quantity {un}"))
            more.append((cxv.FourVector.from_(jnp.stack([t_1 * 299792.458, x_1, y_1, z_1]) * k, un), f"4-array {un}"))
        for tu, k in (("ms", 1e3), ("Myr", u.Quantity(1.0, "s").to_value("Myr"))):
            more.append((cxv.FourVector(t=u.Quantity(t_1 * k, tu), q=g.q), f"time in {tu}"))
        for v, nm in ((g, "array"), (h, "mapping"), (w, "4-quantity"), (cxv.FourVector.from_(f), "from itself"), *more):
            same = rel if nm[-2:] in ("pc", "au", "yr") or nm.startswith("4-") and nm[-2:] != " m" else lambda c, *a: c.eq(*a)
            same(c, nm + " t", val(v.t, "s"), t_1)
            for k, x in (("x", x_1), ("y", y_1), ("z", z_1)):
                same(c, f"{nm} {k}", val(getattr(v, k), "km"), x)
    hs.append(Harness("C16", "default c", default_c, ins(R3["cart"], "_1")))

    reps = list(R3)
    for i, a in enumerate(reps):
        for j, b in enumerate(reps):
            A, B = R3[a], R3[b]
            heavy = "prol" in (a, b)
            if heavy and tier == "quick":
                continue
            if a == "prol":
                continue      # sums landing on prolate coordinates are decided in C08
            for op in ("add", "sub"):
                def arith(c, a=a, b=b, A=A, B=B, op=op, **inp):
                    f = four(A, inp, "_1", inp["cc"])
                    g = four(B, inp, "_2", 7.0, "h", "m", "deg")
                    r = f + g if op == "add" else f - g
                    s = 1 if op == "add" else -1
                    c.true("class", type(r) is cxv.FourVector and type(r.q) is A.cls)
                    c.eq("t", val(r.t, "s"), inp["t_1"] + s * inp["t_2"])
                    c.eq("q", point(a, r.q), P(A, inp, "_1") + s * P(B, inp, "_2"))
                    c.eq("c", val(r.c, "km/s"), inp["cc"])
                hs.append(Harness("C16", f"{op} {a} {b}", arith, {**ins(A, "_1"), **ins(B, "_2"), "cc": Pos()},
                                  assume=conj(cond(A, "_1"), cond(B, "_2")), cut=by_suffix, tiers=QT if (op == "add") == ((i + j) % 2 == 0) else T))
    for a, A in R3.items():
        def scale(c, a=a, A=A, **inp):
            f = four(A, inp, "_1", inp["cc"])
            for nm, r, k in (("neg", -f, -1.0), ("pos", +f, 1.0), ("div", f / inp["s"], 1 / inp["s"]), ("div 4", f / 4.0, 0.25)):
                c.true(nm + " class", type(r) is cxv.FourVector and type(r.q) is A.cls)
                c.eq(nm + " t", val(r.t, "s"), k * inp["t_1"])
                c.eq(nm + " q", point(a, r.q), k * P(A, inp, "_1"))
                c.eq(nm + " c", val(r.c, "km/s"), inp["cc"])
        asm = (lambda s: [s != 0])
        tiers = QT
        if a == "prol":
            asm, tiers = (lambda s, **kw: [s != 0] + R3["prol"].offaxis(**{k: kw[k + "_1"] for k in R3["prol"].inputs}) + [kw["nu_1"] > 0]), T
        hs.append(Harness("C16", f"scale {a}", scale, {**ins(A, "_1"), "cc": Pos(), "s": Real()}, assume=conj(cond(A, "_1"), asm), tiers=tiers))

    # batches: the time broadcasts against the space
    def bt(c, t, x, y, cc, t2, x2):
        f = cxv.FourVector(t=u.Quantity(t, "s"), q=cxv.CartesianPos3D(x=ql(x), y=ql(y), z=ql(jnp.zeros(()))), c=u.Quantity(cc, "km/s"))
        g = cxv.FourVector(t=u.Quantity(t2, "s"), q=cxv.CartesianPos3D(x=ql(x2, "m"), y=ql(y), z=ql(x2)))
        for nm, r, s in (("add", f + g, 1), ("sub", f - g, -1)):
            T_ = jnp.broadcast_to(t + s * t2, (2, 2))
            c.eq(nm + " t", jnp.broadcast_to(val(r.t, "s"), (2, 2)), T_)
            c.eq(nm + " x", jnp.broadcast_to(val(r.q.x, "km"), (2, 2)), jnp.broadcast_to(x + s * x2, (2, 2)))
            c.eq(nm + " c", val(r.c, "km/s"), cc)
        c.eq("interval", val(f._norm2(), "km2"), (cc * t) ** 2 - (x * x + y * y) + jnp.zeros((2, 2)))
    hs.append(Harness("C16", "batch", bt, dict(t=Real(shape=(2,)), x=Real(shape=(2, 2)), y=Real(), cc=Pos(), t2=Real(), x2=Real(shape=(2, 1)))))
    return hs
