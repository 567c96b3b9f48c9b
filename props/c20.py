"""C20: a space treats its members as a family: conversion, item access, shape operations, negation, equality."""
import math

from .common import *  # noqa: F403
from .c03 import REG

NAMES = ("length", "speed", "acceleration")


def same(c, nm, x, y, order, name):
    """x and y are vectors of the same class with the same components."""
    c.true(nm + " class", type(x) is type(y))
    f = comps if order == 0 else (lambda n, v: dcomps(n, v, order))
    labels = REPS[name].comps if order == 0 else DIFFC[name]
    for k, g, w in zip(labels, f(name, x), f(name, y)):
        c.true(f"{nm} {k} shape", jnp.shape(g) == jnp.shape(w))
        c.eq(f"{nm} {k}", g, w)


def harnesses(tier):
    hs = []

    def conv(pa, va, aa, b, sp=(), sv=(), sa=(), tiers=("quick", "thorough"), only=None):
        """Space(length in pa, speed in va, acceleration in aa) -> b."""
        A, B = REPS[pa], REPS[b]
        sh = lambda spec, s: {k: type(x)(**{**x.__dict__, "shape": s}) for k, x in spec.items()}  # noqa: E731
        ins = {**sh(A.inputs, sp)}
        if va:
            ins.update({"v_" + k: Real(shape=sv) for k in DIFFC[va]})
        if aa:
            ins.update({"a_" + k: Real(shape=sa) for k in DIFFC[aa]})

        def fn(c, **inp):
            p = A.build(**pick(inp, *A.comps))
            d = {"length": p}
            if va:
                d["speed"] = v = build_vel(va, inp, "m", "deg", "h", pre="v_")
            if aa:
                d["acceleration"] = a = build_vel(aa, inp, pre="a_", order=2)
            s = cx.Space(**d)
            r = s.represent_as(B.cls)
            c.true("class", type(r) is cx.Space)
            c.true("keys", set(r.keys()) == set(d))
            want = {"length": p.represent_as(B.cls)}
            if va:
                want["speed"] = v.represent_as(VELCLS[b], p)
            if aa:
                want["acceleration"] = a.represent_as(ACCCLS[b], v, p)
            for i, k in enumerate(NAMES):
                if k in want:
                    same(c, k, r[k], want[k], i, b)
            for k in d:
                same_tree(c, f"input {k} untouched", s[k], d[k])

        def reg(**kw):
            sub = {k: x for k, x in kw.items() if k in A.comps}
            out = []
            n = math.prod(sp)
            fl = {k: jnp.ravel(x) for k, x in sub.items()}
            for i in range(n):
                one = {k: x[i] for k, x in fl.items()}
                f = conj(A.assume, A.offaxis, REG["prol"] if pa == "prol" else None)
                out += f(**one) if f else []
            return out
        hs.append(Harness("C20", f"{pa},{va},{aa}->{b} {sp}{sv}{sa}", fn, ins, assume=reg, tiers=tiers))

    for grp in (R1, R2, R3):
        for a in grp:
            for b in grp:
                if b == "prol" and a != "prol" or grp is R1 and a != b:
                    continue
                conv(a, a, a, b)
                conv(a, a, None, b, tiers=("thorough",))
    for b in R3:
        if b != "prol":
            conv("sph", None, None, b)
    conv("cart", "cyl", "sph", "ll")
    conv("sph", "cart", "cart", "cyl")
    conv("ll", "sph", "cart", "cart")
    conv("polar", "cart2", "polar", "cart2")
    # the position, or the velocity, already is in the target representation
    conv("cyl", "cart", "sph", "cyl")
    conv("cart", "sph", "cyl", "cart")
    conv("sph", "cart", "ll", "sph")
    conv("ll", "cyl", "ll", "ll")
    conv("msph", "msph", "cart", "msph")
    conv("cart2", "polar", "polar", "cart2")
    conv("polar", "polar", "cart2", "polar")
    # batches, members of different batch shapes
    conv("cart", "cart", "cart", "sph", (2,), (2,), (2,))
    conv("cart", "cart", None, "cyl", (2,), (), ())
    conv("sph", "sph", "sph", "cart", (), (2,), ())
    conv("cyl", "cyl", "cyl", "cart", (), (), (2,))
    conv("cart2", "cart2", "cart2", "polar", (1, 2), (2, 1), (2,))
    conv("cart", "cart", "cart", "cyl", (2, 1), (2,), (), tiers=("thorough",))

    # item access, shape operations, negation
    def access(c, p, v, a, sp, sv, sa):
        P = cx.CartesianPos3D.from_(u.Quantity(p, "km"))
        V = cx.CartesianVel3D.from_(u.Quantity(v, "km/s"))
        A = cxv.CartesianAcc3D.from_(u.Quantity(a, "km/s2"))
        s = cx.Space({"length": P, u.dimension("velocity"): V, "acceleration": A})
        raw = dict(zip(NAMES, (p, v, a)))
        full = jnp.broadcast_shapes(sp, sv, sa)
        c.true("keys", list(s.keys()) == list(NAMES) and len(dict(s.items())) == 3)
        c.true("shape", s.shape == full and s.ndim == len(full) and s.size == math.prod(full))
        c.true("len", full == () or len(s) == full[0])
        UNK = dict(zip(NAMES, ("km", "km/s", "km/s2")))

        def arr(x, k):  # noqa: F811
            return jnp.stack(jnp.broadcast_arrays(*[val(getattr(x, n), UNK[k]) for n in x.components]), -1)

        for k in NAMES:
            same_tree(c, k + " is the member", s[k], {"length": P, "speed": V, "acceleration": A}[k])
            same_tree(c, k + " by dimension", s[u.dimension(k)], s[k])
            same_tree(c, k + " asdict", s.asdict()[k], s[k])
            c.true(k + " shapes", s.shapes[k] == raw[k].shape[:-1] and s.sizes[k] == s[k].size)
        bc = {k: jnp.broadcast_to(x, (*full, 3)) for k, x in raw.items()}
        ops = [("neg", lambda s: -s, lambda x: -x), ("...", lambda s: s[...], lambda x: x)]
        if full:
            ops += [("[0]", lambda s: s[0], lambda x: x[0]), ("[-1]", lambda s: s[-1], lambda x: x[-1]), ("[1:]", lambda s: s[1:], lambda x: x[1:]),
                    ("[::-1]", lambda s: s[::-1], lambda x: x[::-1]), ("[None]", lambda s: s[None], lambda x: x[None])]
        if len(full) == 2:
            ops += [("[:,0]", lambda s: s[:, 0], lambda x: x[:, 0]), ("[1,0]", lambda s: s[1, 0], lambda x: x[1, 0]),
                    ("T", lambda s: s.T, lambda x: jnp.swapaxes(x, 0, 1)), ("mT", lambda s: s.mT, lambda x: jnp.swapaxes(x, 0, 1))]
        ops += [("reshape", lambda s: s.reshape(1, s.size), lambda x: x.reshape(1, -1, 3)), ("flatten", lambda s: s.flatten(), lambda x: x.reshape(-1, 3)), ("ravel", lambda s: s.ravel(), lambda x: x.reshape(-1, 3))]
        for nm, f, g in ops:
            r = f(s)
            c.true(nm + " class", type(r) is cx.Space and list(r.keys()) == list(NAMES))
            for k in NAMES:
                c.true(f"{nm} {k} class", type(r[k]) is type(s[k]))
                want = g(bc[k])
                got = arr(r[k], k)
                if nm in ("neg",):
                    got = jnp.broadcast_to(got, want.shape)
                c.true(f"{nm} {k} shape", got.shape == want.shape)
                c.eq(f"{nm} {k}", got, want)
    for sp, sv, sa in (((), (), ()), ((2,), (2,), (2,)), ((2,), (), (2,)), ((), (2,), (1,)), ((2, 3), (2, 3), (2, 3)), ((2, 1), (3,), ()),
                       ((2,), (1,), (2,)), ((1,), (1,), (1,)), ((2, 1), (2, 3), (1, 1)), ((1, 2), (1, 1), (2, 1))):
        hs.append(Harness("C20", f"access {sp}{sv}{sa}", lambda c, p, v, a, sp=sp, sv=sv, sa=sa: access(c, p, v, a, sp, sv, sa),
                          dict(p=Real(shape=(*sp, 3)), v=Real(shape=(*sv, 3)), a=Real(shape=(*sa, 3)))))

    # negation of curvilinear members: as the members' own negation (position: the opposite point)
    def neg(c, r, theta, phi, z, d_rho, d_phi, d_z):
        P = R3["sph"].build(r, theta, phi)
        V = build_vel("cyl", dict(d_rho=d_rho, d_phi=d_phi, d_z=d_z))
        s = -cx.Space(length=P, speed=V)
        c.eq("position", point3("sph", s["length"]), -R3["sph"].point(r, theta, phi))
        same(c, "velocity", s["speed"], -V, 1, "cyl")
    hs.append(Harness("C20", "neg sph", neg, dict(**R3["sph"].inputs, z=Real(), **diff_inputs("cyl"))))

    # equality
    def eq(c, p, v, p2, v2):
        def S(p, v, lu, vu):
            return cx.Space(length=cx.CartesianPos3D.from_(u.Quantity(p * LEN[lu], lu)), speed=cx.CartesianVel3D.from_(u.Quantity(v * LEN[lu], f"{lu}/s")))
        w = jnp.all(p == p2, -1) & jnp.all(v == v2, -1)
        c.eq("same units", S(p, v, "km", "") == S(p2, v2, "km", ""), w)
        c.eq("reflexive", S(p, v, "km", "") == S(p, v, "m", ""), jnp.ones((), bool))
        r = S(p, v, "km", "") == S(p2, v2, "m", "")
        c.eq("other units", r, w)
    hs.append(Harness("C20", "eq", eq, {k: Real(shape=(3,)) for k in ("p", "v", "p2", "v2")}))
    hs.append(Harness("C20", "eq batch", lambda c, p, v, p2, v2: eq(c, p, v, p2, v2), {k: Real(shape=(2, 3)) for k in ("p", "v", "p2", "v2")}, tiers=("thorough",)))

    # construction
    def build(c, p, v):
        P = cx.CartesianPos3D.from_(u.Quantity(p, "km"))
        V = cx.CartesianVel3D.from_(u.Quantity(v, "km/s"))
        for nm, s in (("from_", cx.Space.from_(P)), ("kw", cx.Space(length=P))):
            c.true(nm + " keys", list(s.keys()) == ["length"])
            same(c, nm, s["length"], P, 0, "cart")
        s = cx.Space(length=P, velocity=V)
        c.true("velocity is speed", set(s.keys()) == {"length", "speed"})
        same(c, "velocity", s["speed"], V, 1, "cart")
        same_tree(c, "from space", cx.Space.from_(s), s)
        same_tree(c, "to space", s.represent_as(cx.Space), s)
        for bad in ({"speed": V, "velocity": V}, {u.dimension("length"): P, "length": P}):
            try:
                cx.Space(bad)
                ok = False
            except Exception:  # noqa: BLE001
                ok = True
            c.true("duplicate dimensions rejected", ok)
    hs.append(Harness("C20", "build", build, dict(p=Real(shape=(3,)), v=Real(shape=(3,)))))
    return hs
