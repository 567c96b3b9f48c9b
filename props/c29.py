"""C29: however an operator is built, and however its parts are taken out, it acts as the operator with those parameters."""
from jax.scipy.spatial.transform import Rotation

from .ops import *  # noqa: F403
from .ops import _rot, _vec

QT, T = ("quick", "thorough"), ("thorough",)
ST, GT, GB, VB, GR, GO = (O.GalileanSpatialTranslation, O.GalileanTranslation, O.GalileanBoost, O.VelocityBoost, O.GalileanRotation, O.GalileanOperator)


def harnesses(tier):
    hs = []
    EV = dict(p=Real(shape=(3,)), t=Real())

    def event(c, nm, op, p, t, want, twant, cls=None):
        """Apply op to the event as quantities, as a vector with time and as a spacetime vector."""
        if cls is not None:
            c.true(nm + " class", type(op) is cls)
        r, t1 = op(u.Quantity(p, "km"), u.Quantity(t, "s"))
        c.eq(nm + " point", val(r, "km"), want)
        c.eq(nm + " time", val(t1, "s"), twant)
        v, t2 = op(cxv.CartesianPos3D(x=ql(p[0]), y=ql(p[1], "m"), z=ql(p[2])), u.Quantity(t / 3600, "h"))
        c.eq(nm + " vector", point("cart", v), want)
        c.eq(nm + " vector time", val(t2, "s"), twant)

    # translations in space
    def trans(k):
        forms = {
            "call": lambda d, un: ST(u.Quantity(d, un)), "from_ array": lambda d, un: ST.from_(d, un), "from_ quantity": lambda d, un: ST.from_(u.Quantity(d, un)),
            "mapping": lambda d, un: ST.from_({"translation": u.Quantity(d, un)}), "vector": lambda d, un: ST(cxv.CartesianPos3D.from_(d, un)),
            "itself": lambda d, un: ST.from_(ST(u.Quantity(d, un))), "pos3d": lambda d, un: ST(cxv.AbstractPos3D.from_(u.Quantity(d, un))),
        }

        def fn(c, d, p, t):
            for un, f in LEN.items():
                op = forms[k](d * f, un)
                event(c, un, op, p, t, p + d, t, ST)
                for i, x in enumerate("xyz"):
                    c.eq(f"{un} parameter {x}", val(getattr(op.translation, x), "km"), d[i])
        return Harness("C29", f"spatial translation {k}", fn, dict(d=Real(shape=(3,)), **EV))
    hs += [trans(k) for k in ("call", "from_ array", "from_ quantity", "mapping", "vector", "itself", "pos3d")]

    # translations in space and time: the array holds c t, x, y, z
    def trans4(k):
        def mk(d, un, f):
            a = jnp.concatenate([jnp.stack([d[0] * CKMS * f]), d[1:] * f])
            return {"call": lambda: GT(u.Quantity(a, un)), "from_ array": lambda: GT.from_(a, un), "from_ quantity": lambda: GT.from_(u.Quantity(a, un)),
                    "mapping": lambda: GT.from_({"translation": u.Quantity(a, un)}), "itself": lambda: GT.from_(GT(u.Quantity(a, un))),
                    "four": lambda: GT(cxv.FourVector(t=u.Quantity(d[0], "s"), q=u.Quantity(d[1:] * f, un))),
                    "four c": lambda: GT(cxv.FourVector(t=u.Quantity(d[0], "s"), q=u.Quantity(d[1:] * f, un), c=u.Quantity(7.0, "km/s"))),
                    "four of mapping": lambda: GT({"t": u.Quantity(d[0] / 60, "min"), "q": u.Quantity(d[1:] * f, un)}),
                    "galilean": lambda: GO(translation=u.Quantity(a, un)), "galilean op": lambda: GO(translation=GT(u.Quantity(a, un)))}[k]()

        def fn(c, d, p, t):
            for un, f in LEN.items():
                event(c, un, mk(d, un, f), p, t, p + d[1:], t + d[0])
        return Harness("C29", f"spacetime translation {k}", fn, dict(d=Real(shape=(4,)), **EV))
    hs += [trans4(k) for k in ("call", "from_ array", "from_ quantity", "mapping", "itself", "four", "four c", "four of mapping", "galilean", "galilean op")]

    # boosts
    def boosts(cls, k):
        def mk(d, un):
            return {"call": lambda: cls(u.Quantity(d, un)), "from_ array": lambda: cls.from_(d, un), "from_ quantity": lambda: cls.from_(u.Quantity(d, un)),
                    "mapping": lambda: cls.from_({"velocity": u.Quantity(d, un)}), "vector": lambda: cls(cxv.CartesianVel3D.from_(d, un)),
                    "itself": lambda: cls.from_(cls(u.Quantity(d, un))), "galilean": lambda: GO(velocity=u.Quantity(d, un)),
                    "galilean op": lambda: GO(velocity=GB(u.Quantity(d, un)))}[k]()

        def fn(c, d, p, t, w):
            for un, f in (("km/s", 1.0), ("m/s", 1000.0)):
                op = mk(d * f, un)
                if cls is GB:
                    event(c, un, op, p, t, p + d * t, t)
                else:
                    r = op(cxv.CartesianVel3D.from_(w, "km/s"))
                    c.eq(un + " velocity", jnp.stack([val(getattr(r, "d_" + x), "km/s") for x in "xyz"]), w + d)
        return Harness("C29", f"{cls.__name__} {k}", fn, dict(d=Real(shape=(3,)), w=Real(shape=(3,)), **EV))
    hs += [boosts(cls, k) for cls in (GB, VB) for k in ("call", "from_ array", "from_ quantity", "mapping", "vector", "itself", *(("galilean", "galilean op") if cls is GB else ()))]

    # rotations
    def rots(k):
        def fn(c, p, t, **m):
            M = jnp.stack([jnp.stack([m[f"m{i}{j}"] for j in range(3)]) for i in range(3)])
            op = {"call": lambda: GR(M), "from_": lambda: GR.from_(M), "from_ unit": lambda: GR.from_(M, ""), "quantity": lambda: GR(u.Quantity(M, "")),
                  "scaled quantity": lambda: GR(u.Quantity(M / 1000, "km/m")), "mapping": lambda: GR.from_({"rotation": M}), "itself": lambda: GR.from_(GR(M)),
                  "galilean": lambda: GO(rotation=M), "galilean op": lambda: GO(rotation=GR(M)),
                  "galilean mapping": lambda: GO.from_({"rotation": GR(M), "translation": GT.from_([0, 0, 0, 0], "km"), "velocity": GB.from_([0, 0, 0], "km/s")})}[k]()
            event(c, k, op, p, t, _rot(M, p), t)
        return Harness("C29", f"rotation {k}", fn, dict(**{f"m{i}{j}": Real() for i in range(3) for j in range(3)}, **EV))
    hs += [rots(k) for k in ("call", "from_", "from_ unit", "quantity", "scaled quantity", "mapping", "itself", "galilean", "galilean op", "galilean mapping")]

    def rotobj(c, qw, qx, qy, qz, p, t):
        event(c, "object", GR.from_(Rotation.from_quat(jnp.stack([qx, qy, qz, qw]))), p, t, _rot(quat(qw, qx, qy, qz), p), t, GR)
    hs.append(Harness("C29", "rotation object", rotobj, dict(**Q4, **EV), assume=nonzero))

    # parts of composites
    PAR = dict(d=Real(shape=(4,)), w=Real(shape=(3,)), ang=Ang(None, None), **EV)

    def parts(c, d, w, ang, p, t):
        M = rot_axis("y", ang)
        g = GO(rotation=GR(M), translation=GT(cxv.FourVector(t=u.Quantity(d[0], "s"), q=u.Quantity(d[1:], "km"))), velocity=GB(u.Quantity(w, "km/s")))
        acts = [(_rot(M, p), t), (p + d[1:], t + d[0]), (p + w * t, t)]
        for i, (op, (P, t_), cls) in enumerate(zip(g, acts, (GR, GT, GB))):
            event(c, f"item {i}", op, p, t, P, t_, cls)
            event(c, f"index {i}", g[i], p, t, P, t_, cls)
            event(c, f"index {i - 3}", g[i - 3], p, t, P, t_, cls)
        for nm, op, (P, t_) in zip(("rotation", "translation", "velocity"), (g.rotation, g.translation, g.velocity), acts):
            event(c, nm, op, p, t, P, t_)
        t1 = t + d[0]
        whole = (_rot(M, p) + d[1:] + w * t1, t1)
        event(c, "whole", g, p, t, *whole, GO)
        event(c, "slice", g[:2], p, t, _rot(M, p) + d[1:], t1)
        event(c, "slice 1:", g[1:], p, t, p + d[1:] + w * t1, t1)
        event(c, "from_", GO.from_(g), p, t, *whole, GO)
    hs.append(Harness("C29", "galilean parts", parts, PAR))

    def pipes(c, d, w, ang, p, t):
        M = rot_axis("z", ang)
        ops = [GR(M), GT(cxv.FourVector(t=u.Quantity(d[0], "s"), q=u.Quantity(d[1:], "km"))), GB(u.Quantity(w, "km/s")), ST(u.Quantity(2 * d[1:], "km"))]
        acts = [lambda P, s: (_rot(M, P), s), lambda P, s: (P + d[1:], s + d[0]), lambda P, s: (P + w * s, s), lambda P, s: (P + 2 * d[1:], s)]

        def run(sel):
            P, s = p, t
            for i in sel:
                P, s = acts[i](P, s)
            return P, s
        pipe = O.Pipe(tuple(ops))
        for i in range(4):
            event(c, f"index {i}", pipe[i], p, t, *run([i]), type(ops[i]))
            event(c, f"index {i - 4}", pipe[i - 4], p, t, *run([i]), type(ops[i]))
        for i, op in enumerate(pipe):
            event(c, f"item {i}", op, p, t, *run([i]), type(ops[i]))
        for sl in (slice(None), slice(1, None), slice(None, 3), slice(1, 3), slice(None, None, 2), slice(2, 3), slice(None, None, -1)):
            event(c, f"slice {sl}", pipe[sl], p, t, *run(range(4)[sl]), O.Pipe)
        # every other slice: the very operators of the pipe, or operators which act like them
        def same(x, y):
            (lx, tx), (ly, ty) = (jax.tree_util.tree_flatten(o) for o in (x, y))
            return x is y or tx == ty and all(a is b for a, b in zip(lx, ly))
        ends, others = (None, *range(-5, 6)), 0
        for sl in [slice(a, b, k) for a in ends for b in ends for k in (None, 1, 2, 3, -1, -2, -3)]:
            r, sel = pipe[sl], range(4)[sl]
            if type(r) is O.Pipe and len(r.operators) == len(sel) and all(same(x, ops[i]) for x, i in zip(r.operators, sel)):
                c.true(f"slice {sl}", True)
            elif (others := others + 1) < 4:
                event(c, f"slice {sl}", r, p, t, *run(sel), O.Pipe)
        for nm, q_ in (("list", O.Pipe(ops)), ("mapping", O.Pipe.from_({"operators": tuple(ops)})), ("from_", O.Pipe.from_(pipe)),
                       ("|", ops[0] | ops[1] | ops[2] | ops[3]), ("pipe |", O.Pipe(tuple(ops[:2])) | O.Pipe(tuple(ops[2:])))):
            event(c, nm, q_, p, t, *run(range(4)), O.Pipe)
    hs.append(Harness("C29", "pipe parts", pipes, PAR))

    def identity(c, p, t):
        for nm, op in (("call", O.Identity()), ("from_", O.Identity.from_(O.Identity())), ("galilean", GO()), ("empty pipe", O.Pipe(()))):
            event(c, nm, op, p, t, p, t)
    hs.append(Harness("C29", "identity", identity, EV))
    return hs
