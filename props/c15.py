"""C15: pipes apply left to right; nesting does not matter; simplifying preserves the action."""
import itertools

from .ops import *  # noqa: F403
from .ops import _boost, _four

TOL = 1e-6

KINDS = ("translation", "spacetime-translation", "rotation", "boost", "velocity-boost", "identity", "galilean")


def chain(ops, P, t):
    for o, kw in ops:
        P, t = o.act(P, t, **kw)
    return P, t


def chain_inv(w, P, t, args, ops_):
    x = args
    for o in reversed(ops_):
        x = o.inverse(*x)
    return point("cart", x[0]), val(x[1], "s")


def harnesses(tier):
    hs = []
    T, QT = ("thorough",), ("quick", "thorough")

    def ev(inp):
        P = jnp.stack([inp["a_x"], inp["a_y"], inp["a_z"]], -1)
        return P, inp["t_ime"], (cxv.CartesianPos3D(x=ql(inp["a_x"]), y=ql(inp["a_y"], "m"), z=ql(inp["a_z"])), u.Quantity(inp["t_ime"], "s"))

    EV = dict(a_x=Real(), a_y=Real(), a_z=Real(), t_ime=Real())

    def build(names, inp):
        os_ = [OPS[n] for n in names]
        kws = [o.sub(f"d{i}_", inp) for i, o in enumerate(os_)]
        return [o.build(**kw) for o, kw in zip(os_, kws)], list(zip(os_, kws))

    def inputs(names):
        return {k: v for i, n in enumerate(names) for k, v in OPS[n].ins(f"d{i}_").items()}

    def asm(names):
        return conj(*[OPS[n].asm(f"d{i}_") for i, n in enumerate(names)])

    def add(name, names, fn, extra=(), tiers=QT, **k):
        hs.append(Harness("C15", name, fn, {**EV, **dict(extra), **inputs(names)}, assume=asm(names), tiers=tiers, **k))

    def claim(c, nm, r, P, t):
        c.eq(nm + " point", point("cart", r[0]), P)
        c.eq(nm + " time", val(r[1], "s"), t)

    # every ordered pair of kinds: the pipe, its class, its parts, its inverse
    for names in itertools.product(KINDS, repeat=2):
        def pair(c, names=names, **inp):
            P, t, args = ev(inp)
            (A, B), w = build(names, inp)
            wp, wt = chain(w, P, t)
            pipe = A | B
            c.true("is a pipe", isinstance(pipe, O.Pipe))
            claim(c, "A|B", pipe(*args), wp, wt)
            claim(c, "Pipe((A, B))", O.Pipe((A, B))(*args), wp, wt)
            claim(c, "Pipe([A, B])", O.Pipe([A, B])(*args), wp, wt)
            claim(c, "B(A(x))", B(*A(*args)), wp, wt)
            ip, it = chain(w, P, t)
            r = pipe.inverse(*pipe(*args))
            claim(c, "inverse", r, P, t)
            f = pipe(cxv.FourVector(t=args[1], q=args[0], c=u.Quantity(1000.0, "km/s")))
            claim(c, "four-vector", (f.q, f.t), wp, wt)
            c.eq("light speed", val(f.c, "km/s"), 1000.0 * jnp.ones(()))
            if not any(OPS[n].needs_time for n in names):
                c.eq("position alone", point("cart", pipe(args[0])), wp)
        heavy = sum(n in ("galilean", "rotation") for n in names) > 1
        add("pair " + " ".join(names), names, pair, tiers=T if heavy else QT)

    # three operators: grouping and slicing
    triples = [("translation", "rotation", "boost"), ("boost", "spacetime-translation", "translation"), ("rotation", "identity", "translation"),
               ("spacetime-translation", "boost", "rotation")]
    if tier != "quick":
        triples = [n for n in itertools.product(KINDS[:6], repeat=3) if sum(x == "rotation" for x in n) <= 1]
    for names in triples:
        def tri(c, names=names, **inp):
            P, t, args = ev(inp)
            (A, B, C), w = build(names, inp)
            wp, wt = chain(w, P, t)
            for nm, p in (("(A|B)|C", (A | B) | C), ("A|(B|C)", A | (B | C)), ("nested", O.Pipe((A, O.Pipe((B, C))))), ("nested2", O.Pipe((O.Pipe((A, B)), C))),
                          ("(A|B)|Pipe(C)", (A | B) | O.Pipe((C,)))):
                claim(c, nm, p(*args), wp, wt)
            p = A | B | C
            claim(c, "slice", p[1:](*p[:1](*args)), wp, wt)
            x = args
            for o in p:
                x = o(*x)
            claim(c, "iterate", x, wp, wt)
            claim(c, "item", p[2](*p[1](*p[0](*args))), wp, wt)
            claim(c, "inverse", p.inverse(*p(*args)), P, t)
        add("triple " + " ".join(names), names, tri)

    # joining pipes of several operators
    for n1, n2 in ((("translation", "rotation-x", "boost"), ("rotation-z",)), (("rotation-x",), ("translation", "boost", "rotation-z")), (("rotation-x", "translation"), ("rotation-z", "translation")),
                   (("boost", "translation"), ("spacetime-translation", "rotation-x", "boost")), (("translation", "rotation-x", "translation"), ("rotation-x", "translation"))):
        def join(c, n1=n1, n2=n2, **inp):
            P, t, args = ev(inp)
            ops_, w = build((*n1, *n2), inp)
            wp, wt = chain(w, P, t)
            p, r = O.Pipe(tuple(ops_[:len(n1)])), O.Pipe(tuple(ops_[len(n1):]))
            claim(c, "p|r", (p | r)(*args), wp, wt)
            claim(c, "r(p(x))", r(*p(*args)), wp, wt)
            c.true("length", len((p | r).operators) >= 2)
            claim(c, "inverse of p|r", (p | r).inverse(*args), *chain_inv(w, P, t, args, ops_))
            claim(c, "Pipe((p, r))", O.Pipe((p, r))(*args), wp, wt)
            claim(c, "op|pipe", (ops_[0] | O.Pipe(tuple(ops_[1:])))(*args), wp, wt)
            claim(c, "pipe|op", (O.Pipe(tuple(ops_[:-1])) | ops_[-1])(*args), wp, wt)
            claim(c, "middle slice", O.Pipe(tuple(ops_))[1:-1](*args), *chain(w[1:-1], P, t))
            claim(c, "last", O.Pipe(tuple(ops_))[-1](*args), *chain(w[-1:], P, t))
        add("join " + " ".join(n1) + " with " + " ".join(n2), (*n1, *n2), join)

    # a full Galilean transformation is the pipe of its parts
    def gal(c, **inp):
        P, t, args = ev(inp)
        (G,), w = build(("galilean",), inp)
        wp, wt = chain(w, P, t)
        claim(c, "pipe of operators", O.Pipe(G.operators)(*args), wp, wt)
        claim(c, "explicit", (G.rotation | G.translation | G.velocity)(*args), wp, wt)
        claim(c, "slice", G[1:](*G[0](*args)), wp, wt)
        claim(c, "inverse", G.inverse(*G(*args)), P, t)
        claim(c, "double inverse", G.inverse.inverse(*args), wp, wt)
    add("galilean parts", ("galilean",), gal)

    # simplification: the same action, up to the closeness the code uses to recognise an identity
    def same(c, nm, r, s, scale):
        c.close(nm + " point", point("cart", r[0]), point("cart", s[0]), TOL * scale)
        c.close(nm + " time", val(r[1], "s"), val(s[1], "s"), TOL)

    BOX = {k: Real(lo=-10, hi=10) for k in EV}

    def boxed(ins):
        return {k: (Real(lo=-10, hi=10, shape=v.shape) if isinstance(v, Real) and "_q" not in k else v) for k, v in ins.items()}

    singles = ("translation", "spacetime-translation", "boost", "velocity-boost", "identity", "rotation-x", "rotation-z")
    for n in singles:
        def simp(c, n=n, **inp):
            P, t, args = ev(inp)
            (A,), w = build((n,), inp)
            s = A.simplify()
            same(c, "simplified", s(*args), A(*args), 1.0)
            same(c, "simplify_op", O.simplify_op(A)(*args), A(*args), 1.0)
            if n == "identity":
                c.true("identity", isinstance(s, O.Identity))
        hs.append(Harness("C15", f"simplify {n}", simp, {**BOX, **boxed(inputs((n,)))}, assume=asm((n,))))
    zeros = {"translation": lambda: O.GalileanSpatialTranslation.from_([0, 0, 0], "km"), "spacetime-translation": lambda: O.GalileanTranslation.from_([0, 0, 0, 0], "km"),
             "boost": lambda: O.GalileanBoost.from_([0, 0, 0], "km/s"), "velocity-boost": lambda: O.VelocityBoost.from_([0, 0, 0], "km/s"),
             "rotation": lambda: O.GalileanRotation(jnp.eye(3))}

    for n, z in zeros.items():
        def triv(c, a_x, n=n, z=z):
            c.true(n, isinstance(z().simplify(), O.Identity))
        hs.append(Harness("C15", f"trivial {n}", triv, dict(a_x=Real())))

    def trivg(c, **inp):
        P, t, args = ev(inp)
        claim(c, "default", O.GalileanOperator().simplify()(*args), P, t)
    hs.append(Harness("C15", "trivial galilean", trivg, EV))

    # pipes: merging neighbours (same kinds in particular, where order matters for rotations)
    pipes = [p for p in itertools.product(("translation", "spacetime-translation", "boost", "velocity-boost", "identity", "rotation"), repeat=2)
             if sum(n == "rotation" for n in p) <= 1] + [("rotation-x", "rotation-z"), ("rotation-z", "rotation-x"), ("rotation-x", "rotation-y"),
             ("translation", "translation", "boost"), ("rotation-x", "rotation-z", "translation"), ("translation", "rotation-x", "rotation-z"), ("boost", "boost", "spacetime-translation"),
             ("identity", "boost", "identity"), ("translation", "rotation-x", "translation"), ("rotation-x", "translation", "rotation-z"), ("boost", "spacetime-translation", "boost"),
             ("rotation-x", "boost", "rotation-x"), ("boost", "rotation-z", "boost"), ("spacetime-translation", "boost", "spacetime-translation"), ("velocity-boost", "translation", "velocity-boost"),
             ("translation", "boost", "rotation-x", "translation"), ("rotation-x", "rotation-z", "translation", "rotation-x"), ("translation", "galilean"), ("galilean", "boost"), ("galilean",)]
    for names in pipes:
        def psimp(c, names=names, **inp):
            P, t, args = ev(inp)
            ops_, w = build(names, inp)
            p = O.Pipe(tuple(ops_))
            wp, wt = chain(w, P, t)
            s = p.simplify()
            claim(c, "simplified", s(*args), wp, wt)
            if isinstance(s, O.Pipe):
                claim(c, "simplified twice", s.simplify()(*args), wp, wt)
        add("simplify pipe " + " ".join(names), names, psimp)

    # translations by vectors of the same or of different representations
    reps_ = ("sph", "cyl", "ll")
    # (the first vector's representation is that of the merged one: polar angles of a sum are left to C08)
    for n1, n2 in [("translation-cyl", f"translation-{b}") for b in reps_] + [("translation-cyl", "translation")] + [("translation", f"translation-{a}") for a in reps_]:
        def two_t(c, n1=n1, n2=n2, **inp):
            P, t, args = ev(inp)
            (A, B), w = build((n1, n2), inp)
            r = chain(w, P, t)
            claim(c, "A|B", (A | B)(*args), *r)
            claim(c, "simplified", (A | B).simplify()(*args), *r)
            claim(c, "simplify_op(A, B)", O.simplify_op(A, B)(*args), *r)
        add(f"merge {n1} {n2}", (n1, n2), two_t)

    # pipes inside pipes
    for names in (("translation", "rotation-x", "boost", "rotation-z"), ("rotation-x", "rotation-z", "translation", "boost"), ("boost", "translation", "rotation-x", "spacetime-translation"),
                  ("identity", "rotation-x", "translation", "rotation-z")):
        def nest(c, names=names, **inp):
            P, t, args = ev(inp)
            (A, B, C, D), w = build(names, inp)
            r = chain(w, P, t)
            Q = O.Pipe
            for nm, p in (("(A,(B,C),D)", Q((A, Q((B, C)), D))), ("((A,B),(C,D))", Q((Q((A, B)), Q((C, D))))), ("(A,(B,(C,D)))", Q((A, Q((B, Q((C, D))))))),
                          ("(((A,B),C),D)", Q((Q((Q((A, B)), C)), D))), ("((A,B,C),D)", Q((Q((A, B, C)), D)))):
                claim(c, nm, p(*args), *r)
                claim(c, nm + " simplified", p.simplify()(*args), *r)
            for nm, x, y in (("op, pipe", A, Q((B, C, D))), ("pipe, op", Q((A, B, C)), D), ("pipe, pipe", Q((A, B)), Q((C, D)))):
                claim(c, "simplify_op of " + nm, O.simplify_op(x, y)(*args), *r)
                claim(c, nm, (x | y)(*args), *r)
            claim(c, "inverse", Q((A, Q((B, C)), D)).inverse(*args), *chain_inv(w, P, t, args, [A, B, C, D]))
        add("nested " + " ".join(names), names, nest)

    for n1, n2 in itertools.product(("translation", "spacetime-translation", "boost", "velocity-boost", "identity", "rotation-x"), repeat=2):
        def two(c, n1=n1, n2=n2, **inp):
            P, t, args = ev(inp)
            (A, B), w = build((n1, n2), inp)
            claim(c, "simplify_op(A, B)", O.simplify_op(A, B)(*args), *chain(w, P, t))
        add(f"simplify two {n1} {n2}", (n1, n2), two)

    # a Galilean transformation with some parts trivial
    for drop in itertools.product((0, 1), repeat=3):
        if drop == (0, 0, 0):
            continue
        tiers = QT if sum(drop) == 2 else T
        def gs(c, drop=drop, **inp):
            P, t, args = ev(inp)
            kw = {}
            if not drop[0]:
                kw["rotation"] = O.GalileanRotation(rot_axis("x", inp["d0_ang"]))
            if not drop[1]:
                kw["translation"] = _four(inp["d0_t"], inp["d0_x"], inp["d0_y"], inp["d0_z"])
            if not drop[2]:
                kw["velocity"] = _boost(inp["d0_vx"], inp["d0_vy"], inp["d0_vz"])
            G = O.GalileanOperator(**kw)
            same(c, "simplified", G.simplify()(*args), G(*args), 1.0)
        ins = {**BOX, "d0_ang": Ang(**TWO), **{"d0_" + k: Real(lo=-10, hi=10) for k in ("t", "x", "y", "z", "vx", "vy", "vz")}}
        used = (() if drop[0] else ("d0_ang",)) + (() if drop[1] else ("d0_t", "d0_x", "d0_y", "d0_z")) + (() if drop[2] else ("d0_vx", "d0_vy", "d0_vz"))
        hs.append(Harness("C15", f"simplify galilean {''.join(map(str, drop))}", gs, {**BOX, **{k: ins[k] for k in used}}, tiers=tiers, max_paths=4000, budget=600))
    return hs
