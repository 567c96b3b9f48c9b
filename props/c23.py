"""C23: a batch is treated element by element.

Every harness applies the same operation to a batch (built from the batched inputs) and to each element (built from
the inputs at one batch index), and claims that all leaves of the results agree at that index.
"""
import math

import numpy as np
import quaxed.numpy as qnp

from .common import *  # noqa: F403
from .c03 import REG
from .ops import OPS


def leaves(c, nm, R, r, full, idx):
    """Leaves of the batch result R at idx equal the leaves of the element result r."""
    LR, TR = jax.tree.flatten(R)
    Lr, Tr = jax.tree.flatten(r)
    if idx == tuple(0 for _ in idx):
        c.true(f"{nm} structure", TR == Tr)
    for i, (a, b) in enumerate(zip(LR, Lr)):
        extra = jnp.shape(b)            # non-batch axes (N-dimensional vectors, quantities of components)
        if jnp.shape(a) == extra:
            got = a                      # shared by all elements
        else:
            got = jnp.broadcast_to(a, (*full, *extra))[idx]
        c.eq(f"{nm} leaf {i} at {idx}", got, b)


def harnesses(tier):
    hs = []
    T, QT = ("thorough",), ("quick", "thorough")

    def at(x, s, full, idx):
        """Element of an input of batch shape s at index idx of the common shape (extra axes are kept)."""
        s0 = jnp.shape(x)[:len(s)]
        return jnp.broadcast_to(x, (*full, *jnp.shape(x)[len(s0):]))[idx] if s == full else jnp.reshape(jnp.broadcast_to(jnp.reshape(x, (*(1,) * (len(full) - len(s)), *jnp.shape(x))), (*full, *jnp.shape(x)[len(s):])), (*full, *jnp.shape(x)[len(s):]))[idx]

    def mk(name, spec, shapes, op, assume=None, elem=None, tiers=QT, checks_ok=False, **kw):
        """spec: input -> kind; shapes: input -> batch shape; op(inputs) -> pytree."""
        full = jnp.broadcast_shapes(*shapes.values())
        ins = {k: type(x)(**{**x.__dict__, "shape": (*shapes.get(k, ()), *(x.shape or ()))}) for k, x in spec.items()}

        def fn(c, **inp):
            R = op(**inp)
            for idx in np.ndindex(*full):
                one = {k: at(x, shapes.get(k, ()), full, idx) for k, x in inp.items()}
                leaves(c, name, R, op(**one), full, idx)

        def asm(**kws):
            out = []
            for idx in np.ndindex(*full):
                out += assume(**{k: at(x, shapes.get(k, ()), full, idx) for k, x in kws.items()})
            return out
        if assume is not None:
            import inspect
            names = [p for p in inspect.signature(assume).parameters]
            if not any(p.kind == p.VAR_KEYWORD for p in inspect.signature(assume).parameters.values()):
                f0 = assume
                assume = lambda **k: f0(**{n: k[n] for n in names})  # noqa: E731
        hs.append(Harness("C23", name, fn, ins, assume=asm if assume is not None else None, tiers=tiers, extra=dict(checks_ok=checks_ok), **kw))

    def shapes_for(keys, style):
        """A batch shape per component."""
        keys = list(keys)
        if style == "same":
            return {k: (2,) for k in keys}
        if style == "first":
            return {k: ((2,) if i == 0 else ()) for i, k in enumerate(keys)}
        if style == "last":
            return {k: ((2,) if i == len(keys) - 1 else ()) for i, k in enumerate(keys)}
        if style == "cross":
            return {k: ((2, 1) if i == 0 else (2,) if i == 1 else ()) for i, k in enumerate(keys)}
        raise ValueError(style)

    # ------------------------------------------------ positions: conversion, norm, scaling, negation
    for grp in (R1, R2, R3):
        for a, A in grp.items():
            for style in ("same", "first", "last", "cross"):
                sh = shapes_for([k for k in A.inputs if k != "Delta"], style)
                if "Delta" in A.inputs:
                    sh["Delta"] = ()
                for b, B in grp.items():
                    if a == b or (b == "prol") or (grp is R1 and a == "cart1"):
                        continue
                    mk(f"pos {a}->{b} {style}", A.inputs, sh, lambda A=A, B=B, **i: A.build(**i).represent_as(B.cls), A.assume,
                       tiers=QT if style in ("same", "first") else T)
                if grp is R3 and a != "prol":
                    mk(f"pos {a}->prol {style}", {**A.inputs, "Dnew": Pos()}, {**sh, "Dnew": ()},
                       lambda A=A, **i: A.build(**pick(i, *A.inputs)).represent_as(cxv.ProlateSpheroidalPos, Delta=ql(i["Dnew"])), A.assume, tiers=QT if (a, style) == ("", "") else T, budget=600.0)

                if a in ("rad1", "prol"):
                    continue
                for nm, f in (("norm", lambda v, k: v.norm()), ("neg", lambda v, k: -v), ("scale", lambda v, k: (2.5 * v, v / 4.0)), ("times k", lambda v, k: v * k)):
                    def own(A=A, f=f, **i):
                        return f(A.build(**pick(i, *A.inputs), lu="m"), i["k"])
                    cheap = a in ("cart", "cart1", "cart2", "cyl", "polar") or nm == "norm"
                    mk(f"pos {a} {nm} {style}", {**A.inputs, "k": Real()}, {**sh, "k": ()}, own, conj(A.assume), tiers=QT if style == "last" and cheap or nm != "times k" and style == "same" and (cheap or nm == "neg") else T, budget=600.0)

    # -------------------------------------------------- positions: sums (of different batch shapes), equality
    pairs = [("cart", "cart"), ("cart", "sph"), ("cyl", "cart"), ("sph", "ll"), ("polar", "cart2"), ("cart2", "polar"), ("cart1", "rad1"), ("msph", "cyl"), ("ll", "prol")]
    for a, b in pairs:
        ck = a not in ("cart", "cart1", "cart2")     # whether a range check can fire is decided by C08 and C14
        A, B = REPS[a], REPS[b]
        for nm, sa, sb in (("2+2", (2,), (2,)), ("2+0", (2,), ()), ("0+2", (), (2,))):
            spec = {**{"p_" + k: x for k, x in A.inputs.items()}, **{"q_" + k: x for k, x in B.inputs.items()}}
            sh = {**{"p_" + k: sa for k in A.inputs}, **{"q_" + k: (() if k == "Delta" else sb) for k in B.inputs}}

            def add(A=A, B=B, **i):
                p = A.build(**{k: i["p_" + k] for k in A.inputs})
                q_ = B.build(**{k: i["q_" + k] for k in B.inputs}, lu="m", au="deg")
                return p + q_, p - q_

            def asm(A=A, B=B, **i):
                f, g = conj(A.assume), conj(B.assume)
                return (f(**{k: i["p_" + k] for k in A.inputs}) if f else []) + (g(**{k: i["q_" + k] for k in B.inputs}) if g else [])
            mk(f"add {a},{b} {nm}", spec, sh, add, lambda asm=asm, **i: asm(**i), tiers=QT if a in ("cart", "cart1", "cart2") and b != "polar" or (nm, a) in (("2+2", "polar"), ("0+2", "cyl")) else T, checks_ok=ck, budget=600.0)

            def eq(A=A, B=B, **i):
                p = A.build(**{k: i["p_" + k] for k in A.inputs})
                q_ = B.build(**{k: i["q_" + k] for k in B.inputs})
                return p == q_
            if a == b:
                mk(f"eq {a} {nm}", spec, sh, eq, None)

    # -------------------------------------------------- velocities and accelerations
    def vel(a, b, sp, sv, tiers=QT, order=1, sa=()):
        A = REPS[a]
        spec = {**A.inputs, **{"v_" + k: Real() for k in DIFFC[a]}}
        sh = {**{k: (() if k == "Delta" else sp) for k in A.inputs}, **{"v_" + k: sv for k in DIFFC[a]}}
        if order == 2:
            spec.update({"a_" + k: Real() for k in DIFFC[a]})
            sh.update({"a_" + k: sa for k in DIFFC[a]})

        def op(**i):
            p = A.build(**pick(i, *A.inputs))
            v = build_vel(a, i, pre="v_", lu="m")
            if order == 1:
                return v.represent_as(VELCLS[b], p)
            acc = build_vel(a, i, pre="a_", order=2)
            return acc.represent_as(ACCCLS[b], v, p)
        asm = conj(A.assume, A.offaxis, REG["prol"] if a == "prol" else None)
        mk(f"{'vel' if order == 1 else 'acc'} {a}->{b} {sp}{sv}{sa if order == 2 else ''}", spec, sh, op, (lambda **i: asm(**pick(i, *A.inputs))) if asm else None, tiers=tiers)

    for grp in (R1, R2, R3):
        for a in grp:
            for b in grp:
                if a == b or b == "prol":
                    continue
                if grp is R1:
                    continue
                vel(a, b, (2,), (2,), tiers=QT)
    for a, b in (("cart", "cyl"), ("cyl", "cart"), ("sph", "cart"), ("cart2", "polar"), ("polar", "cart2")):
        for sp, sv in (((2,), ()), ((), (2,)), ((2, 1), (2,)), ((1, 2), (2, 1)), ((2,), (2, 1))):
            vel(a, b, sp, sv, tiers=QT if a != "sph" else T)
    for a, b in (("cart", "cyl"), ("cyl", "cart"), ("polar", "cart2"), ("sph", "cart"), ("cart", "sph")):
        for sp, sv, sa in (((2,), (2,), (2,)), ((2,), (), ()), ((), (2,), ()), ((), (), (2,)), ((2, 1), (2,), ())):
            vel(a, b, sp, sv, order=2, sa=sa, tiers=QT if a in ("cyl", "polar") or sp == (2,) == sv else T)

    # accelerations whose velocity and position come in other representations
    for a, vb, pb, b in (("cyl", "cart", "cyl", "cart"), ("cart", "cyl", "cart", "cyl"), ("cyl", "cart", "cart", "cart"), ("polar", "cart2", "polar", "cart2"),
                         ("cart2", "polar", "polar", "polar"), ("cart", "sph", "sph", "cyl")):
        for sp, sv, sa in (((2,), (2,), (2,)), ((), (2,), ()), ((2,), (), (2,)), ((3,), (3,), (3,)), ((1,), (2,), (2,))):
            P = REPS[pb]

            def mixed(a=a, vb=vb, P=P, b=b, **i):
                return build_vel(a, i, pre="a_", order=2).represent_as(ACCCLS[b], build_vel(vb, i, pre="v_", lu="m"), P.build(**pick(i, *P.inputs)))
            asm = conj(P.assume, P.offaxis)
            mk(f"acc {a} with vel {vb} at {pb} -> {b} {sp}{sv}{sa}", {**P.inputs, **{"v_" + k: Real() for k in DIFFC[vb]}, **{"a_" + k: Real() for k in DIFFC[a]}},
               {**{k: sp for k in P.inputs}, **{"v_" + k: sv for k in DIFFC[vb]}, **{"a_" + k: sa for k in DIFFC[a]}}, mixed,
               (lambda asm=asm, P=P, **i: asm(**pick(i, *P.inputs))) if asm else None, tiers=T if vb == "sph" or (sp == (3,) and len(P.inputs) == 3) else QT)

    # norms of velocities and accelerations at positions of another batch shape
    for a in ("sph", "cyl", "cart", "polar"):
        A = REPS[a]
        for sp, sv in (((2,), (2,)), ((), (2,)), ((2,), ())):
            def nrm(A=A, a=a, **i):
                return build_vel(a, i, pre="v_").norm(A.build(**pick(i, *A.inputs)))
            asm = conj(A.assume, A.offaxis)
            if a == "cart" and sp != sv:
                continue
            mk(f"vel norm {a} {sp}{sv}", {**A.inputs, **{"v_" + k: Real() for k in DIFFC[a]}}, {**{k: sp for k in A.inputs}, **{"v_" + k: sv for k in DIFFC[a]}}, nrm, lambda asm=asm, A=A, **i: asm(**pick(i, *A.inputs)))

    # Cartesian velocities and accelerations: sums, multiples, equality
    for nm, sa, sb in (("2,2", (2,), (2,)), ("2,0", (2,), ())):
        def vv(**i):
            v = build_vel("cart", {"d_" + k: i["p_" + k] for k in "xyz"})
            w = build_vel("cart", {"d_" + k: i["q_" + k] for k in "xyz"}, lu="m")
            a = build_vel("cart", {"d_" + k: i["p_" + k] for k in "xyz"}, order=2)
            b = build_vel("cart", {"d_" + k: i["q_" + k] for k in "xyz"}, lu="m", order=2)
            return v + w, v - w, a + b, a - b, v == w, a == b, -v, -a, v.norm(), a.norm()
        mk(f"cart vel,acc {nm}", {**{"p_" + k: Real() for k in "xyz"}, **{"q_" + k: Real() for k in "xyz"}}, {**{"p_" + k: sa for k in "xyz"}, **{"q_" + k: sb for k in "xyz"}}, vv)

    # --------------------------------------------------- operators on batches of events, and batches of operators
    evs = {"cart": ("cart", "rotation", "translation", "boost", "spacetime-translation", "galilean", "velocity-boost", "identity", "reflection"), "sph": ("rotation", "translation", "boost"), "cyl": ("translation", "galilean")}
    for a, ops_ in evs.items():
        A = REPS[a]
        for o in ops_:
            if o == "cart":
                continue
            OP = OPS[o]
            for nm, sp, st, so in (("batch", (2,), (2,), ()), ("one time", (2,), (), ()), ("times", (), (2,), ()), ("operators", (), (), (2,)), ("all", (2,), (2,), (2,)), ("two axes", (2, 2), (2, 2), ())):
                if so and o in ("rotation", "reflection", "galilean", "identity"):
                    continue            # a rotation holds one matrix
                spec = {**{"a_" + k: x for k, x in A.inputs.items()}, "t_ime": Real(), **{"d0_" + k: x for k, x in OP.inputs.items()}}
                sh = {**{"a_" + k: sp for k in A.inputs}, "t_ime": st, **{"d0_" + k: so for k in OP.inputs}}

                def call(OP=OP, A=A, o=o, **i):
                    op = OP.build(**OP.sub("d0_", i))
                    p = A.build(**{k: i["a_" + k] for k in A.inputs})
                    return op(p, u.Quantity(i["t_ime"], "s"))

                def asm(OP=OP, A=A, **i):
                    out = []
                    if A.assume:
                        out += conj(A.assume)(**{k: i["a_" + k] for k in A.inputs})
                    if OP.assume:
                        out += OP.assume(**OP.sub("d0_", i))
                    return out
                mk(f"op {o} {a} {nm}", spec, sh, call, (lambda asm=asm, **i: asm(**i)) if OP.assume or A.assume else None, tiers=QT if a == "cart" or nm == "batch" and a == "cyl" and o != "galilean" else T, checks_ok=a != "cart", budget=600.0)

                if a == "cart" and o not in ("velocity-boost",) and nm in ("batch", "one time", "all", "two axes"):
                    def callq(OP=OP, A=A, **i):
                        op = OP.build(**OP.sub("d0_", i))
                        return op(u.Quantity(A.point(**{k: i["a_" + k] for k in A.inputs}), "km"), u.Quantity(i["t_ime"], "s"))
                    mk(f"op {o} quantity {nm}", spec, sh, callq, (lambda asm=asm, **i: asm(**i)) if OP.assume or A.assume else None)

                    def callf(OP=OP, A=A, **i):
                        op = OP.build(**OP.sub("d0_", i))
                        return op(cxv.FourVector(t=u.Quantity(i["t_ime"], "s"), q=A.build(**{k: i["a_" + k] for k in A.inputs}), c=u.Quantity(2.0, "km/s")))
                    mk(f"op {o} four {nm}", spec, sh, callf, (lambda asm=asm, **i: asm(**i)) if OP.assume or A.assume else None, tiers=QT)

    # ------------------------------------------------------------- spacetime vectors, unit vectors, unit conversion
    F4 = {"t": Real(), "x": Real(), "y": Real(), "z": Real(), "t_2": Real(), "x_2": Real(), "y_2": Real(), "z_2": Real()}
    for nm, sq, st, s2 in (("same", (2,), (2,), (2,)), ("space", (2,), (), (2,)), ("second", (), (), (2,))):
        def four(**i):
            f = cxv.FourVector(t=u.Quantity(i["t"], "s"), q=R3["cart"].build(i["x"], i["y"], i["z"]), c=u.Quantity(3.0, "km/s"))
            g = cxv.FourVector(t=u.Quantity(i["t_2"], "h"), q=R3["cart"].build(i["x_2"], i["y_2"], i["z_2"], lu="m"))
            return f + g, f - g, -f, f / 2.0, f._norm2()
        mk(f"four {nm}", F4, {**{k: sq for k in "xyz"}, "t": st, **{k + "_2": s2 for k in "txyz"}}, four)

    def unit(**i):
        v = R3["cart"].build(i["x"], i["y"], i["z"])
        w = build_vel("cart", {"d_" + k: i[k] for k in "xyz"})
        return cxv.normalize_vector(v) if hasattr(cxv, "normalize_vector") else cx.normalize_vector(v), v.uconvert({u.dimension("length"): "m"}), w
    for nm, s in (("same", shapes_for("xyz", "same")), ("first", shapes_for("xyz", "first")), ("cross", shapes_for("xyz", "cross"))):
        mk(f"unit vector {nm}", dict(x=Real(), y=Real(), z=Real()), s, unit, lambda x, y, z: [x * x + y * y + z * z > 0])

    # --------------------------------------------------------------- a batch axis of another length or number of axes
    for s in ((1,), (3,), (2, 2), (1, 2, 1)):
        mk(f"pos shapes {s}", R3["cart"].inputs, {k: s for k in "xyz"}, lambda **i: R3["cart"].build(**i).represent_as(cxv.SphericalPos), tiers=T if math.prod(s) > 2 else QT)
        mk(f"pos shapes {s} from cyl", R3["cyl"].inputs, {k: s for k in R3["cyl"].inputs}, lambda **i: R3["cyl"].build(**i).represent_as(cxv.CartesianPos3D))
        vel("cyl", "cart", s, s, tiers=QT if math.prod(s) < 4 else T)

    # as many elements as components
    s3 = (3,)
    for a in ("cyl", "sph", "ll", "msph", "prol"):
        A = REPS[a]
        mk(f"three {a}->cart, norm", A.inputs, {k: s3 for k in A.inputs if k != "Delta"}, lambda A=A, **i: (lambda v: (v.represent_as(cxv.CartesianPos3D), v.norm()))(A.build(**i)), A.assume)
        vel(a, "cart", s3, s3)
        vel(a, "cart", (), s3, tiers=QT if a == "cyl" else T)
        vel(a, "cart", s3, (), tiers=QT if a == "cyl" else T)
    for a, b in (("cyl", "sph"), ("cart", "cyl"), ("sph", "ll"), ("cart", "sph")):
        vel(a, b, s3, s3, tiers=QT if a == "cyl" else T)
    vel("cyl", "cart", s3, s3, order=2, sa=s3)
    vel("cyl", "cart", (3, 3), (3, 3))
    for nm, s, s2 in (("3", s3, s3), ("3,0", s3, ()), ("0,3", (), s3), ("3 by 3", (3, 3), (3, 3)), ("3 by 3,1 by 3", (3, 3), (1, 3))):
        def arith(**i):
            p, q_ = R3["cart"].build(*[i["p_" + k] for k in "xyz"]), R3["cart"].build(*[i["q_" + k] for k in "xyz"], lu="m")
            v, w = (build_vel("cart", {"d_" + k: i[n + k] for k in "xyz"}) for n in ("p_", "q_"))
            return p + q_, p - q_, -p, 2.0 * p, p / 3.0, p == q_, p.norm(), v + w, v - w, v == w, v.norm(), p.uconvert({u.dimension("length"): "m"})
        mk(f"cart arithmetic {nm}", {n + k: Real() for n in ("p_", "q_") for k in "xyz"}, {n + k: sh for n, sh in (("p_", s), ("q_", s2)) for k in "xyz"}, arith)
        for o in ("rotation", "translation", "boost", "spacetime-translation", "galilean"):
            OP = OPS[o]

            def call3(OP=OP, four=s != (), **i):
                op = OP.build(**OP.sub("d0_", i))
                p, t = R3["cart"].build(i["x"], i["y"], i["z"]), u.Quantity(i["t_ime"], "s")
                out = op(p, t), op.inverse(p, t), op(u.Quantity(_vec3(i), "km"), t)
                return out if not four else (*out, op(cxv.FourVector(t=t, q=p)))
            mk(f"op {o} {nm} events", {"x": Real(), "y": Real(), "z": Real(), "t_ime": Real(), **{"d0_" + k: x for k, x in OP.inputs.items()}},
               {"x": s, "y": s, "z": s, "t_ime": s2}, call3, (lambda OP=OP, **i: OP.assume(**OP.sub("d0_", i))) if OP.assume else None)
    mk("three four", F4, {k: s3 for k in F4}, four)
    mk("three unit vectors", dict(x=Real(), y=Real(), z=Real()), {k: s3 for k in "xyz"}, unit, lambda x, y, z: [x * x + y * y + z * z > 0])
    for n in ("translation", "boost"):
        OP = OPS[n]

        def ops3(OP=OP, **i):
            op = OP.build(**OP.sub("d0_", i))
            return op(R3["cart"].build(i["x"], i["y"], i["z"]), u.Quantity(i["t_ime"], "s"))
        for nm, so, sp in (("3 operators", s3, s3), ("3 operators, one event", s3, ())):
            mk(f"{nm} {n}", {"x": Real(), "y": Real(), "z": Real(), "t_ime": Real(), **{"d0_" + k: x for k, x in OP.inputs.items()}},
               {"x": sp, "y": sp, "z": sp, "t_ime": sp, **{"d0_" + k: so for k in OP.inputs}}, ops3)
    return hs


def _vec3(i):
    return jnp.stack([i["x"], i["y"], i["z"]], -1)
