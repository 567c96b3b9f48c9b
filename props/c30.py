"""C30: vectors and operators go through jax transformations.

Results inside jit, vmap, scan and cond agree with those outside, and derivatives of results (forward and reverse)
are those of the coordinate formulas.
"""
import warnings
from fractions import Fraction as _F

import equinox as eqx
from plum import convert as _convert

from .common import *  # noqa: F403
from .c03 import REG
from .ops import OPS, _vec

QT, T = ("quick", "thorough"), ("thorough",)


def axes(v):
    return jax.tree.map(lambda x: 0 if jnp.ndim(x) else None, v)


def agree(c, nm, R, r, i=None):
    """Leaf i of the mapped result = the unmapped result."""
    LR, Lr = jax.tree.leaves(R), jax.tree.leaves(r)
    c.true(nm + " structure", jax.tree.structure(R) == jax.tree.structure(r))
    for k, (a, b) in enumerate(zip(LR, Lr)):
        if i is not None:
            c.true(f"{nm} leaf {k} shape", jnp.shape(a) == (2, *jnp.shape(b)))
        c.eq(f"{nm} leaf {k}" + ("" if i is None else f" at {i}"), a if i is None else a[i], b)


def batch(ins, scalar=("Delta", "Dnew")):
    return {k: x if k in scalar else type(x)(**{**x.__dict__, "shape": (2,)}) for k, x in ins.items()}


def each(f):
    """Assumption on one element -> on both."""
    if f is None:
        return None

    def g(**kw):
        return [x for i in (0, 1) for x in f(**{k: (v[i] if jnp.ndim(v) else v) for k, v in kw.items()})]
    return g


def at(inp, i):
    return {k: (v[i] if jnp.ndim(v) else v) for k, v in inp.items()}


def harnesses(tier):
    hs = []

    def add(name, fn, ins, assume=None, tiers=QT, **kw):
        hs.append(Harness("C30", name, fn, ins, assume=assume, tiers=tiers, **kw))

    # ------------------------------------------------------------------- positions: conversion, norm, arithmetic
    def unary(a, nm, f, tiers=QT, extra={}, scalar=("Delta", "Dnew")):
        A = REPS[a]

        def jit(c, **inp):
            p = A.build(**pick(inp, *A.inputs), lu="m")
            ex = pick(inp, *extra)
            agree(c, "jit", eqx.filter_jit(f)(p, *ex.values()), f(p, *ex.values()))

        def vmap(c, **inp):
            v = A.build(**pick(inp, *A.inputs), lu="m")
            ex = list(pick(inp, *extra).values())
            R = jax.vmap(lambda p, *e: f(p, *e), in_axes=(axes(v), *[axes(e) for e in ex]))(v, *ex)
            for i in (0, 1):
                one = at(inp, i)
                agree(c, "vmap", R, f(A.build(**pick(one, *A.inputs), lu="m"), *pick(one, *extra).values()), i)
        asm = conj(A.assume)
        asm = (lambda g: lambda **kw: g(**pick(kw, *A.inputs)))(asm) if asm else None
        add(f"jit {a} {nm}", jit, {**A.inputs, **extra}, asm, tiers)
        add(f"vmap {a} {nm}", vmap, batch({**A.inputs, **extra}, scalar), each(asm), T if nm == "to prol" else tiers)

    for grp in (R1, R2, R3):
        for a in grp:
            for b in grp:
                if a == b or grp is R1 and a == "cart1":
                    continue
                B = REPS[b]
                if b == "prol":
                    unary(a, "to prol", lambda p, D, B=B: p.represent_as(B.cls, Delta=ql(D)), tiers=QT if a in ("cart", "cyl") else T, extra=dict(Dnew=Pos()),
                          scalar=("Delta", "Dnew", "phi", "z"))
                else:
                    unary(a, f"to {b}", lambda p, B=B: p.represent_as(B.cls))
            if a == "rad1":
                continue
            unary(a, "norm", lambda p: p.norm())
            if a != "prol":
                unary(a, "neg", lambda p: -p, tiers=QT if a in ("cart", "cyl", "cart2", "polar", "cart1") else T)
                unary(a, "times", lambda p, k: (k * p, p / 4.0), tiers=QT if a in ("cart", "cyl", "cart2", "cart1") else T, extra=dict(k=Real()))
            unary(a, "units", lambda p: p.uconvert({u.dimension("length"): "km", u.dimension("angle"): "deg", u.dimension("area"): "km2"}))

    # ---------------------------------------------------------------------------- two operands, either one mapped
    def binary(a, b, nm, f, which, tiers=QT):
        A, B = REPS[a], REPS[b]
        ia = {"p_" + k: x for k, x in A.inputs.items()}
        ib = {"q_" + k: x for k, x in B.inputs.items()}
        ins = {**(batch(ia) if "p" in which else ia), **(batch(ib) if "q" in which else ib)}

        def mk(inp):
            return A.build(**{k: inp["p_" + k] for k in A.inputs}), B.build(**{k: inp["q_" + k] for k in B.inputs}, lu="m", au="deg")

        def fn(c, **inp):
            p, q_ = mk(inp)
            R = jax.vmap(f, in_axes=(axes(p), axes(q_)))(p, q_)
            for i in (0, 1):
                agree(c, nm, R, f(*mk(at(inp, i))), i)
        add(f"vmap {a} {nm} {b} {which}", fn, ins, tiers=tiers)

    for a, b in (("cart", "cart"), ("cart", "sph"), ("cart", "cyl"), ("cyl", "cart"), ("cart2", "polar"), ("cart1", "cart1")):
        for which in ("p", "q", "pq"):
            t = QT if which == "pq" or a in ("cart", "cart1", "cart2") else T
            binary(a, b, "plus,minus", lambda p, q_: (p + q_, p - q_), which, t)
            if a == b:
                binary(a, b, "eq", lambda p, q_: p == q_, which)

    # -------------------------------------------------------------------------------- velocities and accelerations
    def diff(a, b, order, which, tiers=QT):
        A = REPS[a]
        ins = dict(batch(A.inputs) if "p" in which else A.inputs)
        for o, pre in ((1, "v_"), (2, "a_"))[:order]:
            dd = {pre + k: Real() for k in DIFFC[a]}
            ins.update(batch(dd) if pre[0] in which else dd)

        def mk(inp):
            out = (A.build(**pick(inp, *A.inputs)), build_vel(a, inp, pre="v_", lu="m"))
            return out + ((build_vel(a, inp, pre="a_", order=2),) if order == 2 else ())

        def f(p, v, acc=None):
            w = v.represent_as(VELCLS[b], p)
            return w if acc is None else acc.represent_as(ACCCLS[b], v, p)

        def fn(c, **inp):
            args = mk(inp)
            R = jax.vmap(f, in_axes=tuple(axes(x) for x in args))(*args)
            for i in (0, 1):
                agree(c, "vmap", R, f(*mk(at(inp, i))), i)

        def jit(c, **inp):
            args = mk(inp)
            agree(c, "jit", eqx.filter_jit(f)(*args), f(*args))
        asm = conj(A.assume, A.offaxis, REG["prol"] if a == "prol" else None)
        asm = (lambda g: lambda **kw: g(**pick(kw, *A.inputs)))(asm) if asm else None
        add(f"vmap {'vel' if order == 1 else 'acc'} {a} to {b} {which}", fn, ins, each(asm), tiers)
        if which == "pva"[:order + 1]:
            one = {**A.inputs, **{pre + k: Real() for pre in ("v_", "a_")[:order] for k in DIFFC[a]}}
            add(f"jit {'vel' if order == 1 else 'acc'} {a} to {b}", jit, one, asm, tiers)

    for grp in (R2, R3):
        for a in grp:
            for b in grp:
                if a != b and b != "prol":
                    diff(a, b, 1, "pv")
                    diff(a, b, 2, "pva", QT if "cyl" in (a, b) and "prol" not in (a, b) or grp is R2 else T)
    for which in ("p", "v"):
        diff("cart", "cyl", 1, which)
        diff("sph", "cart", 1, which)
        diff("cyl", "cart", 2, which)

    # ------------------------------------------------------------- operators: mapped arguments, mapped parameters
    def oper(o, a, which, tiers=QT):
        P, A = OPS[o], REPS[a]
        ip, ia = P.ins("d0_"), {"a_" + k: x for k, x in A.inputs.items()}
        ins = {**(batch(ip) if "o" in which else ip), **(batch(ia) if "a" in which else ia), "t_ime": Real(shape=(2,) if "a" in which else ())}

        def mk(inp):
            # the library's operators hold one set of parameters: a mapped one is built inside the map
            return {k: inp["d0_" + k] for k in P.inputs}, A.build(**{k: inp["a_" + k] for k in A.inputs}), inp["t_ime"]

        def f(par, p, t):
            op = P.build(**par)
            return op(p, u.Quantity(t, "s")), op.inverse(p, u.Quantity(t, "s"))

        def fn(c, **inp):
            args = mk(inp)
            R = jax.vmap(f, in_axes=tuple(axes(x) for x in args))(*args)
            for i in (0, 1):
                agree(c, "vmap", R, f(*mk(at(inp, i))), i)
            if which == "a":
                op = P.build(**args[0])
                S = jax.vmap(lambda p, t: op(p, u.Quantity(t, "s")), in_axes=(axes(args[1]), 0))(*args[1:])
                agree(c, "closure", S, R[0])
            if which == "o":
                op = jax.vmap(lambda par: P.build(**par), in_axes=(axes(args[0]),))(args[0])
                S = jax.vmap(lambda op: op(args[1], u.Quantity(args[2], "s")))(op)
                agree(c, "operator as argument", S, R[0])

        def asm(**kw):
            out = []
            if P.assume is not None:
                out += P.assume(**{k: kw["d0_" + k] for k in P.inputs})
            return out
        add(f"vmap operator {o} {a} {which}", fn, ins, each(asm) if P.assume is not None else None, tiers)

        def jit(c, **inp):
            par, p, t = mk(inp)
            op, time = P.build(**par), u.Quantity(t, "s")
            want = op(p, time)
            agree(c, "jit, operator closed over", eqx.filter_jit(lambda p, t: op(p, t))(p, time), want)
            agree(c, "jit, operator as argument", eqx.filter_jit(lambda op, p, t: op(p, t))(op, p, time), want)
            agree(c, "jit of the inverse", eqx.filter_jit(lambda op, p, t: op.inverse(p, t))(op, p, time), op.inverse(p, time))
        if which == "a":
            add(f"jit operator {o} {a}", jit, {**ip, **ia, "t_ime": Real()}, asm if P.assume is not None else None, tiers)

    for o in ("translation", "spacetime-translation", "rotation", "boost", "velocity-boost", "galilean", "identity"):
        for which in ("a", "o") if o != "identity" else ("a",):
            oper(o, "cart", which)
    oper("translation", "cyl", "a")
    oper("rotation", "cyl", "a", T)
    oper("boost", "sph", "a", T)

    # --------------------------------------------------------------------------------- carries of scan, branches
    def scan(o, a, tiers=QT):
        P, A = OPS[o], REPS[a]

        def fn(c, **inp):
            op = P.build(**P.sub("d0_", inp))
            p, t = A.build(**{k: inp["a_" + k] for k in A.inputs}), u.Quantity(inp["t_ime"], "s")

            def step(carry, _):
                return op(*carry), carry[0]
            (P2, T2), hist = jax.lax.scan(step, (p, t), None, length=2)
            p1, t1 = op(p, t)
            p2, t2 = op(p1, t1)
            agree(c, "final", (P2, T2), (p2, t2))
            agree(c, "history", hist, p, 0)
            agree(c, "history", hist, p1, 1)
        add(f"scan {o} {a}", fn, {**P.ins("d0_"), **{"a_" + k: x for k, x in A.inputs.items()}, "t_ime": Real()}, P.asm("d0_"), tiers)
    for o in ("translation", "spacetime-translation", "boost"):
        scan(o, "cart")
    scan("rotation", "cart", T)

    def cond(c, x, y, z, k):
        p = R3["cart"].build(x, y, z)
        f, g = (lambda v: v.represent_as(cxv.CylindricalPos)), (lambda v: (2.0 * v).represent_as(cxv.CylindricalPos))
        r = jax.lax.cond(k > 0, f, g, p)
        a, b = f(p), g(p)
        for nm, m, n, w in zip(("rho", "phi", "z"), comps("cyl", r), comps("cyl", a), comps("cyl", b)):
            c.eq(nm, m, jnp.where(k > 0, n, w))
    add("cond", cond, dict(x=Real(), y=Real(), z=Real(), k=Real()))

    # ------------------------------------------------------------------------------------------------ derivatives
    def tangent(v, vals):
        """A tangent of v with the given values of its leaves (in the order of the leaves)."""
        leaves, tree = jax.tree.flatten(v)
        return jax.tree.unflatten(tree, vals)

    def jvp(a, b, lu, au, tiers=QT):
        A, B = REPS[a], REPS[b]

        def fn(c, **inp):
            p = A.build(**pick(inp, *A.inputs), lu=lu, au=au)
            fac = [_fac2(un, lu, au) for un in UNITS[a]]
            t = [inp["d_" + k] for k in DIFFC[a]]
            names = A.comps
            vals = {k: x * f for k, x, f in zip(names, t, fac)}
            tp = eqx.tree_at(lambda v: tuple(getattr(v, k).value for k in vals), jax.tree.map(jnp.zeros_like, p), tuple(vals.values()))
            f = lambda v: v.represent_as(B.cls)  # noqa: E731
            out, tan = jax.jvp(f, (p,), (tp,))
            agree(c, "value", out, f(p))
            c.eq("derivative", phys_vel(b, comps(b, out), comps(b, tan)[:len(DIFFC[b])]), phys_vel(a, comps(a, p), t))
        asm = conj(A.assume, A.offaxis, REG["prol"] if a == "prol" else None)
        asm = (lambda g: lambda **kw: g(**pick(kw, *A.inputs)))(asm) if asm else None
        add(f"jvp {a} to {b} {lu},{au}", fn, {**A.inputs, **{"d_" + k: Real() for k in DIFFC[a]}}, asm, tiers)

    def vjp(a, b, tiers=QT):
        """<ct, J t> = <J^T ct, t>: the reverse derivative is the transpose of the forward one."""
        A, B = REPS[a], REPS[b]

        def fn(c, **inp):
            p = A.build(**pick(inp, *A.inputs))
            L, tree = jax.tree.flatten(p)
            n = len(DIFFC[a])
            t = [inp["d_" + k] for k in DIFFC[a]]
            tp = jax.tree.unflatten(tree, [*t, *[jnp.zeros_like(x) for x in L[n:]]])
            f = lambda v: v.represent_as(B.cls)  # noqa: E731
            _, tan = jax.jvp(f, (p,), (tp,))
            out, back = jax.vjp(f, p)
            m = len(DIFFC[b])
            ct = [inp[f"c{i}"] for i in range(m)]
            Lo, treeo = jax.tree.flatten(out)
            (g,) = back(jax.tree.unflatten(treeo, [*ct, *[jnp.zeros_like(x) for x in Lo[m:]]]))
            c.eq("transpose", sum(x * y for x, y in zip(jax.tree.leaves(g)[:n], t)), sum(x * y for x, y in zip(ct, jax.tree.leaves(tan)[:m])))
        asm = conj(A.assume, A.offaxis, REG["prol"] if a == "prol" else None)
        asm = (lambda g: lambda **kw: g(**pick(kw, *A.inputs)))(asm) if asm else None
        add(f"vjp {a} to {b}", fn, {**A.inputs, **{"d_" + k: Real() for k in DIFFC[a]}, **{f"c{i}": Real() for i in range(len(DIFFC[b]))}}, asm, tiers)

    def norm(a, tiers=QT):
        A = REPS[a]

        def fn(c, **inp):
            p = A.build(**pick(inp, *A.inputs))
            g = jax.grad(lambda v: v.norm().value)(p)
            t = [inp["d_" + k] for k in DIFFC[a]]
            got = sum(x * y for x, y in zip(jax.tree.leaves(g), t))
            P, V = A.point(**pick(inp, *A.inputs)), phys_vel(a, comps(a, p), t)
            c.eq("gradient", got * val(p.norm(), "km"), jnp.sum(P * V))
        asm = conj(A.assume, A.offaxis, REG["prol"] if a == "prol" else None, lambda **kw: [jnp.sum(A.point(**kw) ** 2) > 0])
        add(f"grad norm {a}", fn, {**A.inputs, **{"d_" + k: Real() for k in DIFFC[a]}}, lambda **kw: asm(**pick(kw, *A.inputs)), tiers)

    for grp in (R2, R3):
        for a in grp:
            for b in grp:
                if a != b and b != "prol":
                    jvp(a, b, "km", "rad")
                    jvp(a, b, "m", "deg", QT if "cyl" in (a, b) else T)
                    vjp(a, b)
            norm(a)
    norm("cart1")

    # derivative of the moved point with respect to the operator's parameters and the time
    def dop(c, x, y, z, t, a_x, a_y, a_z, a_t, e_x, e_y, e_z, e_t):
        from .ops import O, kms

        def f(par, t):
            op = O.GalileanSpatialTranslation(u.Quantity(par, "km")) | O.GalileanBoost(cxv.CartesianVel3D(*[kms(par[i]) for i in range(3)]))
            r, _ = op(R3["cart"].build(x, y, z), u.Quantity(t, "s"))
            return point("cart", r)
        par, dpar = _vec(a_x, a_y, a_z), _vec(e_x, e_y, e_z)
        _, tan = jax.jvp(f, (par, t), (dpar, e_t))
        c.eq("derivative", tan, dpar + dpar * t + par * e_t)
    add("jvp operator parameters", dop, {k: Real() for k in ("x", "y", "z", "t", "a_x", "a_y", "a_z", "a_t", "e_x", "e_y", "e_z", "e_t")})
    # ------------------------------------- everything else: building, spaces, spacetime, dimensions, frames, distances
    def whole(nm, ins, f, assume=None, tiers=QT, vmap=True, scalar=()):
        """f(inputs) -> pytree, inside jit and mapped over all inputs."""
        asm = (lambda **kw: assume(**kw)) if assume else None

        def fj(c, **inp):
            agree(c, "jit", eqx.filter_jit(lambda kw: f(**kw))(inp), f(**inp))

        def fv(c, **inp):
            R = jax.vmap(lambda kw: f(**kw), in_axes=({k: None if k in scalar else 0 for k in inp},))(inp)
            for i in (0, 1):
                agree(c, "vmap", R, f(**{k: x if k in scalar else x[i] for k, x in inp.items()}), i)

        def both(**kw):
            return [x for i in (0, 1) for x in asm(**{k: (v if k in scalar else v[i]) for k, v in kw.items()})]
        add(f"jit {nm}", fj, ins, asm, tiers)
        if vmap:
            add(f"vmap {nm}", fv, {k: x if k in scalar else type(x)(**{**x.__dict__, "shape": (2, *(x.shape or ()))}) for k, x in ins.items()}, both if asm else None, tiers)

    def quiet(f):
        def g(**kw):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return f(**kw)
        return g

    X3 = dict(x=Real(), y=Real(), z=Real())
    whole("from array", dict(v=Real(shape=(3,))), lambda v: (cxv.CartesianPos3D.from_(v, "km"), cxv.CartesianVel3D.from_(u.Quantity(v, "m/s")), cxv.CartesianPosND(u.Quantity(v, "km")).norm()))
    whole("from mapping", X3, lambda x, y, z: cxv.CartesianPos3D.from_({"x": ql(x), "y": ql(y, "m"), "z": ql(z)}))
    whole("to quantity", R3["sph"].inputs, lambda **i: _convert(R3["sph"].build(**i).represent_as(cxv.CartesianPos3D), u.Quantity))
    whole("spherical from_", dict(r=Real(), theta=Ang(-1, 2), phi=Real()), lambda r, theta, phi: cxv.SphericalPos.from_(r=ql(r), theta=qa(theta), phi=qa(phi)), scalar=("theta", "phi"))
    whole("mathspherical from_", dict(r=Real(), theta=Real(), phi=Ang(-1, 2)), lambda r, theta, phi: cxv.MathSphericalPos.from_(r=ql(r), theta=qa(theta), phi=qa(phi)), tiers=T)
    whole("lonlat from_", dict(lon=Real(), lat=Ang(-1, 1), d=Real()), lambda lon, lat, d: cxv.LonLatSphericalPos.from_(lon=qa(lon), lat=qa(lat), distance=ql(d)), tiers=T)
    V3 = {"d_" + k: Real() for k in "xyz"}
    A3 = {"a_" + k: Real() for k in "xyz"}

    def space(x, y, z, **i):
        s = cx.Space(length=R3["cart"].build(x, y, z), speed=build_vel("cart", i), acceleration=build_vel("cart", {"d_" + k: i["a_" + k] for k in "xyz"}, order=2))
        return s.represent_as(cxv.CylindricalPos)._data, (-s)._data
    whole("space", {**X3, **V3, **A3}, space, lambda x, y, **_: [x * x + y * y > 0])

    def four(t, x, y, z, t2, x2, y2, z2):
        a = cxv.FourVector(t=u.Quantity(t, "s"), q=R3["cart"].build(x, y, z), c=u.Quantity(2.0, "km/s"))
        b = cxv.FourVector(t=u.Quantity(t2, "h"), q=R3["cart"].build(x2, y2, z2, lu="m"), c=u.Quantity(2.0, "km/s"))
        return a + b, a - b, -a, a._norm2(), a == b
    whole("spacetime", {k: Real() for k in ("t", "x", "y", "z", "t2", "x2", "y2", "z2")}, four)
    whole("velocity times time", {**V3, **A3, "t": Real()}, lambda t, **i: (build_vel("cart", i) * u.Quantity(t, "h"), build_vel("cart", {"d_" + k: i["a_" + k] for k in "xyz"}, order=2) * u.Quantity(t, "s")))
    for a, b in (("sph", "polar"), ("cart", "rad1"), ("cyl", "cart2"), ("polar", "cart1")):
        whole(f"{a} lowered to {b}", REPS[a].inputs, quiet(lambda a=a, b=b, **i: REPS[a].build(**i).represent_as(REPS[b].cls)))
    whole("polar raised to cyl", {**R2["polar"].inputs, "h": Real()}, quiet(lambda h, **i: R2["polar"].build(**i).represent_as(cxv.CylindricalPos, z=ql(h))))
    whole("poincare", {**{k: x for k, x in R3["cyl"].inputs.items() if k != "rho"}, "rho": Pos(), **{"d_" + k: Real() for k in DIFFC["cyl"]}},
          lambda **i: cx.Space(length=R3["cyl"].build(**pick(i, *R3["cyl"].inputs)), speed=build_vel("cyl", i)).represent_as(cxv.PoincarePolarVector))
    whole("unit vector", X3, lambda x, y, z: cxv.normalize_vector(R3["cart"].build(x, y, z)), lambda x, y, z: [x * x + y * y + z * z > 0])
    import coordinax.distance as cd
    whole("parallax", dict(p=Ang(0, _F(1, 2), lo_open=True, hi_open=True), m=Real()), lambda p, m: (cd.Parallax(p, "rad").distance, cd.DistanceModulus(m, "mag").distance))
    whole("distance", dict(d=Pos()), lambda d: (cd.Distance(d, "pc").distance_modulus, cd.Distance(d, "km").parallax))

    from .c17 import CF, Params
    pr = Params("lon", "lat", "roll", "tilt", "dist", "vx", "vy", "vz")

    def frame(**i):
        op = CF.frame_transform_op(CF.ICRS(), pr.frame(i))
        p, v = R3["cart"].build(i["x"], i["y"], i["z"]), build_vel("cart", i)
        return op(p), op(p, v), op.inverse(p), op.inverse(p, v)
    whole("frame", {**pr.ins(), **X3, **V3}, frame, vmap=False)
    whole("frame events", {**pr.ins(), **X3, **V3}, frame, scalar=tuple(pr.ins()))
    return hs


def _fac2(un, lu, au):
    return {"km": LEN[lu], "rad": ANG[au], "km2": LEN[lu] ** 2}[un]
