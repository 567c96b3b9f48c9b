"""C10: norms are Euclidean lengths in every representation."""
import quaxed.numpy as qnp

from .common import *  # noqa: F403


def sq(p):
    return jnp.sum(p * p, axis=-1)


def claims(c, nm, n, P):
    c.true(nm + " shape", jnp.shape(n) == jnp.shape(P)[:-1])
    c.eq(nm + " squared", n * n, sq(P))
    c.le(nm + " >= 0", jnp.zeros(jnp.shape(n)), n)


def by_prefix(n):
    return n[:2] if n[:2] in ("a_", "d_") else None


def harnesses(tier):
    hs = []
    for a, A in REPS.items():
        for lu, au in (("km", "rad"), ("m", "deg")):
            def fn(c, a=a, A=A, lu=lu, au=au, **inp):
                v = A.build(**inp, lu=lu, au=au)
                P = A.point(**inp)
                claims(c, "norm", val(v.norm(), "km"), P)
                claims(c, "abs", val(abs(v), "km"), P)
                c.eq("zero iff zero vector", val(v.norm(), "km") == 0, sq(P) == 0)
                claims(c, "vector_norm", val(qnp.linalg.vector_norm(v, axis=-1), "km"), P)
                c.eq("square", val(v * v, "km2"), P * P)
            hs.append(Harness("C10", f"pos {a} {lu}", fn, A.inputs, assume=A.assume))
    # componentwise products of two positions (what dot products are made of)
    for grp in (R1, R2, R3):
        for a, A in grp.items():
            for b, B in grp.items():
                if "prol" in (a, b) and a != b and "cart" not in (a, b):
                    continue

                def fp(c, A=A, B=B, **inp):
                    p, q_ = A.build(**{k: inp["a_" + k] for k in A.inputs}), B.build(**{k: inp["b_" + k] for k in B.inputs}, lu="m", au="deg")
                    P, Q = A.point(**{k: inp["a_" + k] for k in A.inputs}), B.point(**{k: inp["b_" + k] for k in B.inputs})
                    c.eq("product", val(p * q_, "km2"), P * Q)
                    c.eq("dot", val(qnp.sum(p * q_, axis=-1), "km2"), jnp.sum(P * Q, axis=-1))

                def asm(A=A, B=B, **kw):
                    return [x for R, pre in ((A, "a_"), (B, "b_")) if R.assume for x in R.assume(**{k: kw[pre + k] for k in R.inputs})]
                hs.append(Harness("C10", f"product {a} {b}", fp, {**{"a_" + k: x for k, x in A.inputs.items()}, **{"b_" + k: x for k, x in B.inputs.items()}}, assume=asm))
    # velocities & accelerations
    for a, A in REPS.items():
        assume = conj(A.assume, A.offaxis, (lambda nu: [nu != 0]) if a == "prol" else None)
        ins = {**A.inputs, **diff_inputs(a)}

        def fv(c, a=a, A=A, **inp):
            pos = A.build(**pick(inp, *A.inputs))
            v = build_vel(a, inp)
            pc, dc = [inp[k] for k in A.inputs], [inp["d_" + k] for k in DIFFC[a]]
            V = phys_vel(a, pc, dc)
            claims(c, "norm", val(v.norm(pos), "km/s"), V)
            if a.startswith("cart"):
                claims(c, "norm alone", val(v.norm(), "km/s"), V)
        hs.append(Harness("C10", f"vel {a}", fv, ins, assume=assume))

        if a.startswith("cart"):
            def fa(c, a=a, A=A, **inp):
                acc = build_vel(a, inp, order=2, lu="m")
                pos = A.build(**{k: jnp.zeros(()) for k in A.inputs})
                vel = build_vel(a, inp)
                claims(c, "norm with companions", val(acc.norm(vel, pos), "km/s2"), jnp.stack([inp["d_" + k] for k in DIFFC[a]], -1))
                claims(c, "norm alone", val(acc.norm(), "km/s2"), jnp.stack([inp["d_" + k] for k in DIFFC[a]], -1))
            hs.append(Harness("C10", f"acc {a}", fa, diff_inputs(a)))
        elif a in ("sph", "cyl", "polar", "rad1", "ll", "msph") or tier == "thorough":
            def fa2(c, a=a, A=A, **inp):
                pos = A.build(**pick(inp, *A.inputs))
                vel = build_vel(a, {"d_" + k: inp["d_" + k] for k in DIFFC[a]})
                acc = build_vel(a, {"d_" + k: inp["a_" + k] for k in DIFFC[a]}, order=2)
                pc = [inp[k] for k in A.inputs]
                dc, ac = [inp["d_" + k] for k in DIFFC[a]], [inp["a_" + k] for k in DIFFC[a]]
                claims(c, "norm", val(acc.norm(vel, pos), "km/s2"), phys_acc(a, pc, dc, ac))
            hs.append(Harness("C10", f"acc {a}", fa2, {**ins, **diff_inputs(a, "a_")}, assume=assume, cut=by_prefix,
                              tiers=("quick", "thorough")))
    # velocity given at a position of another kind
    for a, b in (("cart", "sph"), ("sph", "cart"), ("cyl", "sph"), ("ll", "cyl"), ("polar", "cart2")):
        A, B = REPS[a], REPS[b]

        def fx(c, a=a, b=b, A=A, B=B, **inp):
            pos = B.build(**pick(inp, *B.inputs))
            v = build_vel(a, inp)
            own = pos.represent_as(A.cls)
            V = phys_vel(a, comps(a, own), [inp["d_" + k] for k in DIFFC[a]])
            claims(c, "norm", val(v.norm(pos), "km/s"), V)
        hs.append(Harness("C10", f"vel {a} at {b}", fx, {**B.inputs, **diff_inputs(a)}, assume=conj(B.assume, B.offaxis)))

    def lc(c, **inp):
        A = REPS["ll"]
        pos = A.build(**pick(inp, *A.inputs))
        v = build_vel("ll", inp)
        w = cxv.LonCosLatSphericalVel(d_lon_coslat=u.Quantity(inp["d_lon"] * jnp.cos(inp["lat"]), "rad/s"), d_lat=v.d_lat, d_distance=v.d_distance)
        V = phys_vel("ll", [inp[k] for k in A.inputs], [inp["d_" + k] for k in DIFFC["ll"]])
        claims(c, "norm", val(w.norm(pos), "km/s"), V)
    hs.append(Harness("C10", "vel loncoslat", lc, {**REPS["ll"].inputs, **diff_inputs("ll")}, assume=REPS["ll"].offaxis))
    # N dimensions
    for shp in ((4,), (2, 3)):
        def nd(c, p):
            claims(c, "pos", val(cxv.CartesianPosND(u.Quantity(p, "km")).norm(), "km"), p)
            claims(c, "vel", val(cxv.CartesianVelND(u.Quantity(p, "km/s")).norm(), "km/s"), p)
            claims(c, "acc", val(cxv.CartesianAccND(u.Quantity(p, "km/s2")).norm(), "km/s2"), p)
        hs.append(Harness("C10", f"ND {len(shp)}", nd, dict(p=Real(shape=shp))))

    # a batch, with components of different shapes
    def bt(c, x, y, z):
        v = cxv.CartesianPos3D(x=ql(x), y=ql(y, "m"), z=ql(z))
        claims(c, "norm", val(v.norm(), "km"), jnp.stack(jnp.broadcast_arrays(x, y, z), -1))
        w = cxv.CartesianVel3D(d_x=u.Quantity(x, "km/s"), d_y=u.Quantity(y, "km/s"), d_z=u.Quantity(z, "km/s"))
        claims(c, "vel", val(w.norm(), "km/s"), jnp.stack(jnp.broadcast_arrays(x, y, z), -1))
    hs.append(Harness("C10", "batch", bt, dict(x=Real(shape=(2,)), y=Real(), z=Real(shape=(2,)))))

    def bs(c, rho, phi, z):
        v = cxv.CylindricalPos(rho=ql(rho), phi=qa(phi), z=ql(z, "m"))
        claims(c, "cyl", val(v.norm(), "km"), jnp.stack([rho * jnp.cos(phi), rho * jnp.sin(phi), z + 0 * rho], -1))
    hs.append(Harness("C10", "batch cyl", bs, dict(rho=NonNeg(shape=(2,)), phi=Ang(**TWO), z=Real())))
    return hs
