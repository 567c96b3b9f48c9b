"""C13: every operator's inverse undoes it (both orders), and the inverse of the inverse acts like the operator."""
from .ops import *  # noqa: F403

PARTS = ("fwd", "bwd", "invinv")


def harnesses(tier):
    hs = []

    def mk(oname, a, f, parts=PARTS, tiers=("quick", "thorough")):
        o, A, F = OPS[oname], R3[a], FORMS[f]

        def fn(c, **inp):
            op = o.build(**o.sub("d0_", inp))
            args = F.make(A, inp)
            P, t = A.point(**pos_args(A, inp)), inp.get("t_ime")
            for nm, o1, o2 in (("fwd", op, op.inverse), ("bwd", op.inverse, op)):
                if nm not in parts:
                    continue
                r = o2(*as_args(o1(*args)))
                p2, t2 = F.read(a, r)
                c.eq(nm, p2, P)
                if F.time:
                    c.eq(nm + " time", t2, t)
                q2 = as_args(r)[0]
                if f != "four":
                    c.true(nm + " class", type(q2) is type(args[0]))
                else:
                    c.true(nm + " class", type(q2.q) is A.cls)
                    c.eq(nm + " light speed", val(q2.c, "km/s"), inp["a_c"])
            if "invinv" in parts:
                r1, r2 = op(*args), op.inverse.inverse(*args)
                for x, y, k in zip(F.read(a, r1), F.read(a, r2), ("point", "time")):
                    if x is not None:
                        c.eq(f"inverse of inverse {k}", x, y)
        p = "" if parts is PARTS else " " + "".join(parts)
        hs.append(Harness("C13", f"{oname} {f} {a}{p}", fn, {**arg_ins(A), **form_ins(f), **o.ins("d0_")},
                          assume=conj(arg_asm(A), o.asm("d0_")), cut=by_group, tiers=tiers))

    for oname, o in OPS.items():
        for f, F in FORMS.items():
            if o.needs_time and not F.time:
                continue
            if oname not in ("translation-sph", "translation-ll"):
                mk(oname, "cart", f)
    T = ("thorough",)
    QT = ("quick", "thorough")
    for a in ("cyl", "sph", "msph", "ll"):
        for oname in ("translation", "translation-sph", "boost", "spacetime-translation", "rotation-x", "rotation-z", "velocity-boost", "identity"):
            f = "pos,t" if OPS[oname].needs_time else "pos"
            heavy = oname in ("translation-sph", "rotation-x") and a != "sph"
            for p in ("fwd", "bwd"):
                mk(oname, a, f, (p,), QT if (p == "fwd" and not heavy) or (a == "sph" and oname != "translation-sph") else T)
            mk(oname, a, "four", ("fwd",), T)

    # pipes of several operators, with repeated classes: the inverses are applied in the opposite order
    for names in (("rotation-x", "rotation-z", "translation"), ("translation", "rotation-x", "rotation-z"), ("rotation-x", "translation", "rotation-z"),
                  ("translation", "rotation-x", "translation"), ("translation", "boost", "rotation-z"), ("boost", "spacetime-translation", "boost"),
                  ("spacetime-translation", "spacetime-translation", "boost"), ("boost", "rotation-x", "spacetime-translation"),
                  ("rotation-x", "translation", "rotation-z", "translation"), ("translation", "translation", "rotation-x", "boost"), ("rotation-x", "rotation-y", "rotation-z")):
        for nest in (0, 2) if len(names) == 3 else (0, 3):
            A = R3["cart"]

            def pipe(c, names=names, nest=nest, A=A, **inp):
                ops_ = [OPS[n].build(**OPS[n].sub(f"d{i}_", inp)) for i, n in enumerate(names)]
                op = O.Pipe(tuple(ops_)) if nest == 0 else O.Pipe((O.Pipe(tuple(ops_[:nest])), *ops_[nest:]))
                P, args = A.point(**pos_args(A, inp)), FORMS["pos,t"].make(A, inp)
                for nm, o1, o2 in (("fwd", op, op.inverse), ("bwd", op.inverse, op)):
                    c.eq(nm, FORMS["pos,t"].read("cart", o2(*o1(*args)))[0], P)
                    c.eq(nm + " time", FORMS["pos,t"].read("cart", o2(*o1(*args)))[1], inp["t_ime"])
                ref = args
                for o in reversed(ops_):
                    ref = o.inverse(*ref)
                c.eq("inverses in the opposite order", point("cart", op.inverse(*args)[0]), point("cart", ref[0]))
            hs.append(Harness("C13", f"pipe {' '.join(names)} {nest}", pipe, {**arg_ins(A), **form_ins("pos,t"), **{k: x for i, n in enumerate(names) for k, x in OPS[n].ins(f"d{i}_").items()}},
                              assume=conj(*[OPS[n].asm(f"d{i}_") for i, n in enumerate(names)]), cut=None, tiers=QT if nest == 0 else T))
    return with_batched(hs, skip=lambda n: not ("_cart" in n and "pipe" not in n), scalar=tuple(f"d0_{k}" for k in ("qw", "qx", "qy", "qz", "ang")))
