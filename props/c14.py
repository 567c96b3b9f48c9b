"""C14: operators act on the physical point and time, whatever the form of the argument."""
from .ops import *  # noqa: F403
from .ops import _boost, _four

MAT = {f"m{i}{j}": Real() for i in range(3) for j in range(3)}


def mat(kw):
    return jnp.stack([jnp.stack([kw[f"m{i}{j}"] for j in range(3)]) for i in range(3)])


# any matrix at all: the action must be multiplication by it
GENERIC = Op("matrix", MAT, lambda **kw: O.GalileanRotation(mat(kw)), lambda P, t, **kw: (_rot_(mat(kw), P), t))


def _rot_(M, P):
    return jnp.stack([sum(M[i, j] * P[..., j] for j in range(3)) for i in range(3)], -1)


def euler_mat(seq, angs):
    """Extrinsic for lower case, intrinsic for upper case letters."""
    from .ops import rot_axis
    M = jnp.eye(3)
    for ax, a in zip(seq, angs):
        r = rot_axis(ax.lower(), a)
        M = (r @ M) if seq.islower() else (M @ r)
    return M


def harnesses(tier):
    hs = []
    T, QT = ("thorough",), ("quick", "thorough")
    def gbuild(t, x, y, z, vx, vy, vz, **m):
        return O.GalileanOperator(rotation=O.GalileanRotation(mat(m)), translation=_four(t, x, y, z), velocity=_boost(vx, vy, vz))

    def gstages(P, time, *, t, x, y, z, vx, vy, vz, **m):
        a = _rot_(mat(m), P)
        b = a + jnp.stack([x, y, z])
        return a, b, b + jnp.stack([vx, vy, vz]) * (time + t), time + t

    gm = Op("galilean-matrix", {**MAT, **{k: Real() for k in ("t", "x", "y", "z", "vx", "vy", "vz")}}, gbuild, lambda P, time, **kw: gstages(P, time, **kw)[2:], needs_time=True)
    gm.generic = lambda P, time, **kw: [s[0] ** 2 + s[1] ** 2 > 0 for s in (P, *gstages(P, time, **kw)[:3])]
    ops = {**OPS, "matrix": GENERIC, "galilean-matrix": gm}

    def mk(oname, a, f, tiers=QT):
        o, A, F = ops[oname], R3[a], FORMS[f]

        def fn(c, **inp):
            op = o.build(**o.sub("d0_", inp))
            args = F.make(A, inp)
            P, t = A.point(**pos_args(A, inp)), inp.get("t_ime")
            r = op(*args)
            wp, wt = o.act(P, t, **o.sub("d0_", inp))
            p2, t2 = F.read(a, r)
            c.eq("point", p2, wp)
            if F.time:
                c.eq("time", t2, wt)
            r0 = as_args(r)[0]
            c.true("class", type(r0) is type(args[0]))
            c.true("arity", len(as_args(r)) == len(args))
            if f == "four":
                c.true("class of q", type(r0.q) is A.cls)
                c.eq("light speed", val(r0.c, "km/s"), inp["a_c"])
        gen = None
        if a != "cart" and hasattr(o, "generic"):    # several conversions in a row: generic points, off the axis at every stage
            def gen(**kw):
                return o.generic(A.point(**pos_args(A, kw)), kw["t_ime"], **o.sub("d0_", kw))
        hs.append(Harness("C14", f"{oname} {f} {a}", fn, {**arg_ins(A), **form_ins(f), **o.ins("d0_")},
                          assume=conj(arg_asm(A), o.asm("d0_"), gen), cut=by_group, tiers=tiers))

    for oname, o in ops.items():
        for f, F in FORMS.items():
            if o.needs_time and not F.time:
                continue
            if oname not in ("rotation-x", "rotation-y", "rotation-z"):
                mk(oname, "cart", f)
    for a in ("cyl", "sph", "msph", "ll", "prol"):
        for oname in ("translation", "translation-sph", "boost", "spacetime-translation", "matrix", "galilean-matrix", "velocity-boost", "identity", "translation-cyl", "translation-ll"):
            o = ops[oname]
            light = oname in ("translation", "boost", "matrix", "identity")
            for f in ("pos", "pos,t", "four"):
                if o.needs_time and f == "pos":
                    continue
                mk(oname, a, f, QT if (light or (a, f) in (("sph", "four"), ("cyl", "pos,t"))) and a != "prol" else T)

    # translations in one and two dimensions
    for grp in (R1, R2):
        for a, A in grp.items():
            for b, B in grp.items():
                def low(c, a=a, b=b, A=A, B=B, **inp):
                    op = O.GalileanSpatialTranslation(B.build(**{k: inp["d0_" + k] for k in B.inputs}, lu="m"))
                    x = A.build(**pos_args(A, inp))
                    D = B.point(**{k: inp["d0_" + k] for k in B.inputs})
                    P = A.point(**pos_args(A, inp))
                    c.eq("point", point(a, op(x)), P + D)
                    y, t = op(x, u.Quantity(inp["t_ime"], "s"))
                    c.eq("with time", point(a, y), P + D)
                    c.eq("time", val(t, "s"), inp["t_ime"])
                    if b != "rad1":     # the negative of a radius is no radius
                        c.eq("undone", point(a, op.inverse(op(x))), P)
                if a == "rad1":
                    continue      # a bare radius has no direction to translate in
                hs.append(Harness("C14", f"low {a} {b}", low, {**arg_ins(A), **{"d0_" + k: v for k, v in B.inputs.items()}, "t_ime": Real()}, cut=by_group))
    for n, cls in ((1, cxv.CartesianPos1D), (2, cxv.CartesianPos2D), (3, cxv.CartesianPos3D)):
        def lowq(c, p, d, t, n=n):
            op = O.GalileanSpatialTranslation(u.Quantity(d, "km"))
            qx = u.Quantity(p * 1000.0, "m")
            c.true("translation class", type(op.translation) is {1: cxv.CartesianPos1D, 2: cxv.CartesianPos2D, 3: cxv.CartesianPos3D}[n])
            c.eq("quantity", val(op(qx), "km"), p + d)
            r, t2 = op(qx, u.Quantity(t, "s"))
            c.eq("with time", val(r, "km"), p + d)
            c.eq("time", val(t2, "s"), t)
            op2 = O.GalileanSpatialTranslation.from_(d * 1000.0, "m")
            c.eq("from_ array", val(op2(qx), "km"), p + d)
        hs.append(Harness("C14", f"quantity {n}D", lowq, dict(p=Real(shape=(n,)), d=Real(shape=(n,)), t=Real())))

    # position and velocity together: a translation leaves the physical velocity alone, a velocity boost adds to it
    for a, A in R3.items():
        for kind in ("translation", "velocity-boost"):
            if kind == "velocity-boost" and a != "cart":
                continue

            def qp(c, a=a, A=A, kind=kind, **inp):
                o = OPS[kind]
                op = o.build(**o.sub("d0_", inp))
                q0 = A.build(**pos_args(A, inp))
                p0 = build_vel(a, inp, pre="v_")
                q1, p1 = op(q0, p0)
                P = A.point(**pos_args(A, inp))
                dP = jnp.stack([inp["d0_x"], inp["d0_y"], inp["d0_z"]], -1)
                V = phys_vel(a, [inp["a_" + k] for k in A.inputs], [inp["v_" + k] for k in DIFFC[a]])
                c.eq("point", point(a, q1), P + dP if kind == "translation" else P)
                c.true("class", type(p1) is type(p0) and type(q1) is type(q0))
                c.eq("velocity", phys_vel(a, comps(a, q1), dcomps(a, p1)), V if kind == "translation" else V + dP)
            ins = {**arg_ins(A), **diff_inputs(a, "v_"), **OPS[kind].ins("d0_")}

            def asm(a=a, A=A, kind=kind, **kw):
                pa = pos_args(A, kw)
                P = A.point(**pa)
                s = [P[0] + kw["d0_x"], P[1] + kw["d0_y"]]
                return (A.offaxis(**pa) if A.offaxis else []) + ([s[0] ** 2 + s[1] ** 2 > 0] if kind == "translation" else [])
            hs.append(Harness("C14", f"{kind} q,p {a}", qp, ins, assume=asm, cut=by_group,
                              tiers=QT if a in ("cart", "cyl") else T))

    def vb(c, **inp):
        op = OPS["velocity-boost"].build(**OPS["velocity-boost"].sub("d0_", inp))
        p0 = cxv.CartesianVel3D(d_x=kms(inp["vx"], "m/s"), d_y=kms(inp["vy"]), d_z=kms(inp["vz"]))
        p1 = op(p0)
        for k in "xyz":
            c.eq(f"d_{k}", val(getattr(p1, "d_" + k), "km/s"), inp["v" + k] + inp["d0_" + k])
        p2 = op.inverse(p1)
        for k in "xyz":
            c.eq(f"undone d_{k}", val(getattr(p2, "d_" + k), "km/s"), inp["v" + k])
    hs.append(Harness("C14", "velocity-boost velocity", vb, {**{"v" + k: Real() for k in "xyz"}, **OPS["velocity-boost"].ins("d0_")}))

    # a proper orthogonal matrix preserves lengths and dot products; the Euler constructor gives the product of axis rotations
    def orth(c, qw, qx, qy, qz, x, y, z, x2, y2, z2):
        op = O.GalileanRotation(quat(qw, qx, qy, qz))
        a, b = op(u.Quantity(jnp.stack([x, y, z]), "km")).value, op(cxv.CartesianPos3D(x=ql(x2), y=ql(y2, "m"), z=ql(z2)))
        b = point("cart", b)
        c.eq("dot", jnp.sum(a * b), x * x2 + y * y2 + z * z2)
        c.eq("length", jnp.sum(a * a), x * x + y * y + z * z)
    hs.append(Harness("C14", "orthogonal", orth, {**Q4, **{k: Real() for k in ("x", "y", "z", "x2", "y2", "z2")}}, assume=nonzero))
    HALF = Ang(0, 1, hi_open=True)
    for seq in ("x", "y", "z", "xy", "zx", "xyz", "zxz", "Z", "XZ", "ZYX", "ZXZ") if tier == "quick" else ("x", "y", "z", "xy", "zx", "yz", "Z", "XZ", "xyz", "zxz", "ZXZ", "ZYX", "yzx", "XYX"):
        n = len(seq)

        def eul(c, seq=seq, n=n, **inp):
            angs = [2 * inp[f"h{i}"] for i in range(n)]
            arg = jnp.stack(angs) if n > 1 else angs[0]
            R = O.GalileanRotation.from_euler(seq, u.Quantity(arg, "rad"))
            M = R.rotation
            c.eq("matrix", M, euler_mat(seq, angs))
            c.eq("orthogonal", M @ M.T, jnp.eye(3))
            det = jnp.sum(M[0] * jnp.cross(M[1], M[2]))
            c.eq("proper", det, jnp.ones(()))
            R2 = O.GalileanRotation.from_euler(seq, cx.angle.Angle(arg * 180.0 / PI, "deg"))
            c.eq("degrees", R2.rotation, M)
        hs.append(Harness("C14", f"euler {seq}", eul, {f"h{i}": HALF for i in range(n)}))
    return hs
