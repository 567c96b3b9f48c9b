"""C08: vector arithmetic equals arithmetic on the Cartesian components."""
from .common import *  # noqa: F403


def by_suffix(name):
    return name[-2:] if name[-2:] in ("_1", "_2") else None


def harnesses(tier):
    hs = []

    def pre(ins, p):
        return {k + p: v for k, v in ins.items()}

    def sub(inp, p, names):
        return {k: inp[k + p] for k in names}

    def cond(A, p):
        if A.assume is None:
            return None
        return lambda **kw: A.assume(**{k: kw[k + p] for k in A.inputs})

    for grp in (R2, R3):
        for a, A in grp.items():
            for b, B in grp.items():
                for op in ("add", "sub"):
                    # quick: every ordered pair, with the operation alternating over the table for the expensive prolate ones
                    heavy = "prol" in (a, b) and (a, b) != ("prol", "prol")
                    tiers = ("quick", "thorough")
                    i = list(grp).index(a) + list(grp).index(b)
                    if op == "sub" and (i % 2 or heavy) and a != b:
                        tiers = ("thorough",)
                    lus = ("km", "m") if op == "sub" else ("km", "km")

                    def fn(c, a=a, b=b, A=A, B=B, op=op, lus=lus, **inp):
                        x = A.build(**sub(inp, "_1", A.inputs), lu=lus[0])
                        y = B.build(**sub(inp, "_2", B.inputs), lu=lus[1])
                        r = x + y if op == "add" else x - y
                        c.true("class", type(r) is A.cls)
                        px = A.point(**sub(inp, "_1", A.inputs))
                        py = B.point(**sub(inp, "_2", B.inputs))
                        c.eq("point", point(a, r), px + py if op == "add" else px - py)
                    asm = conj(cond(A, "_1"), cond(B, "_2"))
                    if a == "prol" and tier == "quick":
                        if b not in ("cart", "cyl"):
                            tiers = ("thorough",)

                        def asm(a=a, b=b, A=A, B=B, op=op, **kw):   # noqa: F811  generic points: off the axis and the equator
                            x, y = sub(kw, "_1", A.inputs), sub(kw, "_2", B.inputs)
                            s = A.point(**x) + B.point(**y) if op == "add" else A.point(**x) - B.point(**y)
                            return A.offaxis(**x) + [x["nu"] > 0] + (B.offaxis(**y) + [y["nu"] < 0] if b == "prol" else []) + \
                                [s[0] > 0, s[2] > 0]
                    hs.append(Harness("C08", f"{a} {op} {b}", fn, {**pre(A.inputs, "_1"), **pre(B.inputs, "_2")},
                                      assume=asm, tiers=tiers, cut=by_suffix))
    for a, A in REPS.items():
        def fneg(c, a=a, A=A, **inp):
            r = -A.build(**inp)
            c.true("class", type(r) is A.cls)
            c.eq("point", point(a, r), -A.point(**inp))
            v = A.build(**inp, lu="m", au="deg")
            same_tree(c, "+v", +v, v)
        if a != "rad1":
            hs.append(Harness("C08", f"neg {a}", fneg, A.inputs, assume=A.assume))
        gen = A.assume
        if a == "prol" and tier == "quick":
            gen = conj(A.assume, A.offaxis, lambda nu, phi: [nu > 0])
        for lu in ("km", "m") if a in ("cart", "sph") else ("km",):
            def fmul(c, a=a, A=A, lu=lu, **inp):
                s = inp.pop("s")
                x = A.build(**inp, lu=lu)
                r, l = x * s, s * x
                c.true("class", type(r) is A.cls)
                c.eq("v*s", point(a, r), A.point(**inp) * s)
                c.eq("s*v", point(a, l), A.point(**inp) * s)
            hs.append(Harness("C08", f"mul {a} {lu}", fmul, {**A.inputs, "s": NonNeg() if a == "rad1" else Real()}, assume=gen))

            def fdiv(c, a=a, A=A, lu=lu, **inp):
                s = inp.pop("s")
                r = A.build(**inp, lu=lu) / s
                c.true("class", type(r) is A.cls)
                c.eq("v/s", point(a, r) * s, A.point(**inp))
            hs.append(Harness("C08", f"div {a} {lu}", fdiv, {**A.inputs, "s": Pos() if a == "rad1" else Real()},
                              assume=conj(gen, lambda s: [s != 0])))
    # 1D Cartesian, and radial with Cartesian
    def f1(c, x, y):
        X, Y = cxv.CartesianPos1D(x=ql(x)), cxv.CartesianPos1D(x=ql(y, "m"))
        c.eq("add", comps("cart1", X + Y)[0], x + y)
        c.eq("sub", comps("cart1", X - Y)[0], x - y)
        c.eq("sub units", comps("cart1", Y - X)[0], y - x)
    hs.append(Harness("C08", "cart1 add sub", f1, dict(x=Real(), y=Real())))
    # vectors of different dimension: the right one enters through its Cartesian coordinates, cut off or filled up with zeros
    dim = {**dict.fromkeys(R1, 1), **dict.fromkeys(R2, 2), **dict.fromkeys(R3, 3)}
    for a in ("cart1", "cart2", "polar", "cart", "cyl"):
        for b, B in REPS.items():
            if dim[a] == dim[b] or "two" in b or b == "ll":      # longitude/latitude positions cannot be lowered (an error)
                continue

            def mixed(c, a=a, b=b, A=REPS[a], B=B, **inp):
                x, y = A.build(**sub(inp, "_1", A.inputs)), B.build(**sub(inp, "_2", B.inputs), lu="m")
                px, py = A.point(**sub(inp, "_1", A.inputs)), B.point(**sub(inp, "_2", B.inputs))
                py = py[..., :dim[a]] if dim[b] > dim[a] else jnp.concatenate([py, jnp.zeros(dim[a] - dim[b])])
                for nm, r, w in (("add", x + y, px + py), ("sub", x - y, px - py)):
                    c.true(nm + " class", type(r) is A.cls)
                    c.eq(nm, point(a, r), w)
            hs.append(Harness("C08", f"mixed {a} {b}", mixed, {**pre(REPS[a].inputs, "_1"), **pre(B.inputs, "_2")},
                              assume=conj(cond(REPS[a], "_1"), cond(B, "_2")), cut=by_suffix, tiers=("quick", "thorough") if b != "prol" or a != "cyl" else ("thorough",)))
    # Cartesian velocities and accelerations
    for order, CL in ((1, VELCLS), (2, ACCCLS)):
        nm = "vel" if order == 1 else "acc"
        pre1, pre2 = "u_", "w_"
        for n, k in (("cart1", 1), ("cart2", 2), ("cart", 3)):
            ins = {**diff_inputs(n, pre1), **diff_inputs(n, pre2)}
            has_sub = (order, k) in ((1, 3), (2, 1), (2, 3))
            has_mul = k < 3

            def fd(c, n=n, order=order, has_sub=has_sub, has_mul=has_mul, pre1=pre1, pre2=pre2, **inp):
                x = build_vel(n, inp, order=order, pre=pre1)
                y = build_vel(n, inp, order=order, pre=pre2, lu="m", tu="h")
                vx = [inp[pre1 + q] for q in DIFFC[n]]
                vy = [inp[pre2 + q] for q in DIFFC[n]]
                c.eq("add", jnp.stack(dcomps(n, x + y, order)), jnp.stack([p + q for p, q in zip(vx, vy)]))
                if has_sub:
                    c.eq("sub", jnp.stack(dcomps(n, x - y, order)), jnp.stack([p - q for p, q in zip(vx, vy)]))
                c.eq("neg", jnp.stack(dcomps(n, -y, order)), jnp.stack([-p for p in vy]))
                same_tree(c, "+v", +y, y)
                if has_mul:
                    s = inp["s"]
                    c.eq("s*v", jnp.stack(dcomps(n, s * y, order)), jnp.stack([p * s for p in vy]))
            hs.append(Harness("C08", f"{nm} {n}", fd, {**ins, "s": Real()}))
    # N-dimensional Cartesian positions
    def fN(c, p, w, s):
        x, y = cxv.CartesianPosND(q=u.Quantity(p, "km")), cxv.CartesianPosND(q=u.Quantity(w * 1000.0, "m"))
        c.eq("add", val((x + y).q, "km"), p + w)
        c.eq("sub", val((x - y).q, "km"), p - w)
        c.eq("neg", val((-y).q, "km"), -w)
        c.eq("pos", val((+y).q, "km"), w)
        c.eq("v*s", val((y * s).q, "km"), w * s)
        c.eq("s*v", val((s * y).q, "km"), w * s)
        c.eq("v/s", val((y / s).q, "km") * s, w)
    for shp in ((4,), (2, 3)):
        hs.append(Harness("C08", f"ND {len(shp)}", fN, dict(p=Real(shape=shp), w=Real(shape=shp), s=Real()), assume=lambda s: [s != 0]))
    # velocities and accelerations of curvilinear kinds can be negated, componentwise
    for n in ("cyl", "sph", "polar"):
        def fnd(c, n=n, **inp):
            c.eq("neg", jnp.stack(dcomps(n, -build_vel(n, inp))), jnp.stack([-inp["d_" + q] for q in DIFFC[n]]))
            for o in (1, 2):
                same_tree(c, f"+v {o}", +build_vel(n, inp, order=o), build_vel(n, inp, order=o))
            c.eq("neg acc", jnp.stack(dcomps(n, -build_vel(n, inp, order=2), 2)), jnp.stack([-inp["d_" + q] for q in DIFFC[n]]))
        hs.append(Harness("C08", f"neg diff {n}", fnd, diff_inputs(n)))
    # a moving scalar times a batch of positions
    def fb(c, r, theta, phi, s):
        x = cxv.SphericalPos(r=ql(r), theta=qa(theta), phi=qa(phi))
        out = x * s
        c.eq("point", point("sph", out), s * sph_point(r, *jnp.broadcast_arrays(theta, phi, r)[:2]))
    hs.append(Harness("C08", "mul batch", fb, dict(r=NonNeg(shape=(2,)), theta=Ang(0, 1), phi=Ang(**TWO), s=Real())))
    return hs
