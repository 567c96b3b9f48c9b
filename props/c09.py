"""C09: equality compares the components as physical quantities (converted to the left operand's kind)."""
from .c08 import by_suffix
from .common import *  # noqa: F403


def all_eq(xs, ys):
    r = jnp.asarray(True)
    for x, y in zip(xs, ys):
        r = r & (x == y)
    return r


def harnesses(tier):
    hs = []

    def pre(ins, p):
        return {k + p: v for k, v in ins.items()}

    def sub(inp, p, names):
        return {k: inp[k + p] for k in names}

    def cond(A, p):
        if A.assume is None:
            return None
        return lambda **kw: A.assume(**{k: kw[k + p] for k in A.inputs})

    def iff(c, nm, got, want):
        c.true(nm + " shape", jnp.shape(got) == jnp.shape(want))
        c.eq(nm, got, want)

    for a, A in REPS.items():
        for lu2, au2 in (("km", "rad"), ("m", "deg")):
            def same(c, a=a, A=A, lu2=lu2, au2=au2, **inp):
                x = A.build(**sub(inp, "_1", A.inputs))
                y = A.build(**sub(inp, "_2", A.inputs), lu=lu2, au=au2)
                want = all_eq([inp[k + "_1"] for k in A.inputs], [inp[k + "_2"] for k in A.inputs])
                iff(c, "x==y", x == y, want)
                iff(c, "jnp.equal", jaxeq(y, x), want)
                c.true("x==x", x == A.build(**sub(inp, "_1", A.inputs), lu=lu2, au=au2))
            hs.append(Harness("C09", f"pos {a} {lu2}", same, {**pre(A.inputs, "_1"), **pre(A.inputs, "_2")},
                              assume=conj(cond(A, "_1"), cond(A, "_2"))))
        for order in (1, 2):
            ins = {**diff_inputs(a, "u_"), **diff_inputs(a, "w_")}

            def dif(c, a=a, order=order, **inp):
                x = build_vel(a, inp, order=order, pre="u_")
                y = build_vel(a, inp, order=order, pre="w_", lu="m", au="deg", tu="h")
                want = all_eq([inp["u_" + k] for k in DIFFC[a]], [inp["w_" + k] for k in DIFFC[a]])
                iff(c, "x==y", x == y, want)
                if a.startswith("cart"):
                    iff(c, "jnp.equal", jaxeq(x, y), want)
            hs.append(Harness("C09", f"{'vel' if order == 1 else 'acc'} {a}", dif, ins))
    # comparing kinds: the right operand is converted; equal only for the same point
    for grp in (R2, R3):
        for a, A in grp.items():
            for b, B in grp.items():
                if a == b:
                    continue

                def cross(c, a=a, b=b, A=A, B=B, **inp):
                    x = A.build(**sub(inp, "_1", A.inputs))
                    y = B.build(**sub(inp, "_2", B.inputs))
                    kw = {"Delta": x.Delta} if a == "prol" else {}
                    yc = y.represent_as(A.cls, **kw)
                    want = all_eq([val(getattr(x, k), un) for k, un in zip(A.comps, UNITS[a])], comps(a, yc))
                    e = x == y
                    iff(c, "x==y", e, want)
                asm = conj(cond(A, "_1"), cond(B, "_2"))
                ins = {**pre(A.inputs, "_1"), **pre(B.inputs, "_2")}
                tiers = ("quick", "thorough")
                if "prol" in (a, b) and not (b == "prol" and a in ("cart", "sph")):
                    tiers = ("thorough",)
                hs.append(Harness("C09", f"cross {a} {b}", cross, ins, assume=asm, cut=by_suffix, tiers=tiers))
    # 1D across kinds
    def c1(c, x, r):
        X, Rr = cxv.CartesianPos1D(x=ql(x)), cxv.RadialPos(r=ql(r, "m"))
        iff(c, "cart==radial", X == Rr, x == r)
    hs.append(Harness("C09", "cross cart1 rad1", c1, dict(x=Real(), r=NonNeg())))
    # N-dimensional and batches: one flag per batch element
    def nd(c, p, w):
        x, y = cxv.CartesianPosND(q=u.Quantity(p, "km")), cxv.CartesianPosND(q=u.Quantity(w * 1000.0, "m"))
        iff(c, "pos", x == y, jnp.all(p == w, axis=-1))
        x, y = cxv.CartesianVelND(u.Quantity(p, "km/s")), cxv.CartesianVelND(u.Quantity(w * 1000.0, "m/s"))
        iff(c, "vel", x == y, jnp.all(p == w, axis=-1))
        x, y = cxv.CartesianAccND(u.Quantity(p, "km/s2")), cxv.CartesianAccND(u.Quantity(w * 1000.0, "m/s2"))
        iff(c, "acc", x == y, jnp.all(p == w, axis=-1))
    hs.append(Harness("C09", "ND", nd, dict(p=Real(shape=(2,)), w=Real(shape=(2,)))))
    hs.append(Harness("C09", "ND batch", nd, dict(p=Real(shape=(2, 2)), w=Real(shape=(2, 2)))))

    def bt(c, x, y, z, x2, y2):
        a = cxv.CartesianPos3D(x=ql(x), y=ql(y), z=ql(z))
        b = cxv.CartesianPos3D(x=ql(x2, "m"), y=ql(y2), z=ql(z))
        iff(c, "batch", a == b, (x == x2) & (y == y2))
        a = cxv.SphericalVel(d_r=u.Quantity(x, "km/s"), d_theta=u.Quantity(y, "rad/s"), d_phi=u.Quantity(z, "rad/s"))
        b = cxv.SphericalVel(d_r=u.Quantity(x2, "km/s"), d_theta=u.Quantity(y2, "rad/s"), d_phi=u.Quantity(z, "rad/s"))
        iff(c, "batch vel", a == b, (x == x2) & (y == y2))
    hs.append(Harness("C09", "batch", bt, dict(x=Real(shape=(2,)), y=Real(), z=Real(shape=(2,)), x2=Real(shape=(2,)), y2=Real())))

    # batches of different rank, of the same and of different representations: one flag per element of the common batch
    for a, b in (("cart", "cart"), ("cart", "cyl"), ("cyl", "cart"), ("sph", "sph"), ("polar", "cart2"), ("cart2", "polar"), ("ll", "ll"), ("cyl", "sph")):
        for s1, s2 in (((), (2,)), ((2,), ()), ((2, 1), (2,)), ((2,), (2, 2)), ((1,), (2,)), ((2, 2), (2,))):
            A, B = REPS[a], REPS[b]
            if tier == "quick" and a != b and len(s1) + len(s2) > 2 and a not in ("cart", "cart2"):
                continue
            if (a, b) == ("cyl", "sph") and len(s1) + len(s2) > 1:
                continue
            k1, k2 = A.comps[0], B.comps[0]           # one component varies over the batch, the others are shared

            def ranks(c, A=A, B=B, a=a, s1=s1, s2=s2, **inp):
                x = A.build(**sub(inp, "_1", A.inputs))
                y = B.build(**sub(inp, "_2", B.inputs), lu="m", au="deg")
                yc = y.represent_as(A.cls)
                shp = jnp.broadcast_shapes(s1, s2)
                want = jnp.broadcast_to(all_eq([val(getattr(x, k), un) for k, un in zip(A.comps, UNITS[a])], comps(a, yc)), shp)
                iff(c, "x==y", x == y, want)
                iff(c, "jnp.equal", jaxeq(x, y), want)
            ins = {**pre(A.inputs, "_1"), **pre(B.inputs, "_2")}
            for k, sh in ((k1 + "_1", s1), (k2 + "_2", s2)):
                ins[k] = type(ins[k])(**{**ins[k].__dict__, "shape": sh})
            hs.append(Harness("C09", f"ranks {a} {b} {s1} {s2}", ranks, ins, assume=conj(cond(A, "_1"), cond(B, "_2")), cut=by_suffix))

    def fv(c, t, x, y, z, t2, x2):
        q1, q2 = cxv.CartesianPos3D(x=ql(x), y=ql(y), z=ql(z)), cxv.CartesianPos3D(x=ql(x2, "m"), y=ql(y), z=ql(z))
        a = cxv.FourVector(t=u.Quantity(t, "s"), q=q1)
        b = cxv.FourVector(t=u.Quantity(t2 / 3600, "h"), q=q2)
        iff(c, "four-vector", a == b, (t == t2) & (x == x2))
    hs.append(Harness("C09", "FourVector", fv, {k: Real() for k in ("t", "x", "y", "z", "t2", "x2")}))
    return hs


def jaxeq(x, y):
    import quaxed.numpy as qnp
    return qnp.equal(x, y)
