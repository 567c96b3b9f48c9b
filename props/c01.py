"""C01: changing the representation of a position never moves the point."""
from .common import *  # noqa: F403


def pair(name, A, B, a, b, lu="km", au="rad", newd=False, tiers=("quick", "thorough")):
    ins = dict(A.inputs)
    if b == "prol" and (a != "prol" or newd):
        ins["Dnew"] = Pos()

    def fn(c, **inp):
        D = inp.pop("Dnew", None)
        kw = {} if D is None else {"Delta": ql(D, lu)}
        v = A.build(**inp, lu=lu, au=au)
        w = v.represent_as(B.cls, **kw)
        c.true("type", type(w) is B.cls)
        if newd:
            c.eq("focal length", val(w.Delta, "km"), D)
        c.eq("point", point(b, w), A.point(**inp))
    return Harness("C01", name, fn, ins, assume=conj(A.assume), tiers=tiers)


def harnesses(tier):
    hs = []
    for grp in (R1, R2, R3):
        for a, A in grp.items():
            for b, B in grp.items():
                if (a, b) == ("cart1", "rad1"):
                    continue        # a negative coordinate is not a radius
                hs.append(pair(f"{a}->{b}", A, B, a, b))
                if a != b and "prol" not in (a, b):
                    hs.append(pair(f"{a}->{b} m,deg", A, B, a, b, lu="m", au="deg", tiers=("quick", "thorough") if a in ("cart", "ll", "sph", "polar", "cart2") else ("thorough",)))
    hs.append(pair("prol->prol newDelta", R3["prol"], R3["prol"], "prol", "prol", newd=True))
    return with_batched(hs, skip=lambda n: "deg" in n)
