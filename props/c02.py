"""C02: conversions give defined components inside the documented ranges, for every point (axis and origin too)."""
from .common import *  # noqa: F403

RANGES = {
    "cart": lambda x, y, z: [],
    "cyl": lambda rho, phi, z: [("rho", 0, rho, None, False), ("phi", 0, phi, 2 * PI, True)],
    "sph": lambda r, theta, phi: [("r", 0, r, None, False), ("theta", 0, theta, PI, False), ("phi", 0, phi, 2 * PI, True)],
    "msph": lambda r, theta, phi: [("r", 0, r, None, False), ("phi", 0, phi, PI, False), ("theta", 0, theta, 2 * PI, True)],
    "ll": lambda lon, lat, distance: [("distance", 0, distance, None, False), ("lat", -PI / 2, lat, PI / 2, False), ("lon", 0, lon, 2 * PI, True)],
    "prol": lambda mu, nu, phi, Delta: [("mu", Delta**2, mu, None, False), ("nu", -(Delta**2), nu, Delta**2, False), ("phi", 0, phi, 2 * PI, True)],
    "cart1": lambda x: [], "rad1": lambda r: [("r", 0, r, None, False)],
    "cart2": lambda x, y: [], "polar": lambda r, phi: [("r", 0, r, None, False), ("phi", 0, phi, 2 * PI, True)],
}


def claim_ranges(c, b, w):
    cs = comps(b, w)
    for nm, x in zip(REPS[b].comps, cs):
        c.eq(f"{nm} defined", x, x)
    for nm, lo, x, hi, strict in RANGES[b](*cs):
        c.le(f"{nm} lower bound", lo, x)
        if hi is not None:
            (c.lt if strict else c.le)(f"{nm} upper bound", x, hi)


def harnesses(tier):
    hs = []
    for grp in (R1, R2, R3):
        for a, A in grp.items():
            for b, B in grp.items():
                ins = dict(A.inputs)
                if (a, b) == ("cart1", "rad1"):
                    continue
                if b == "prol" and a != "prol":
                    ins["Dnew"] = Pos()

                def fn(c, A=A, B=B, a=a, b=b, **inp):
                    D = inp.pop("Dnew", None)
                    kw = {} if D is None else {"Delta": ql(D)}
                    w = A.build(**inp).represent_as(B.cls, **kw)
                    claim_ranges(c, b, w)
                hs.append(Harness("C02", f"{a}->{b}", fn, ins, assume=A.assume))
    return with_batched(hs)
