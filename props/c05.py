"""C05: the normalising constructors keep the point and return in-range coordinates, for any radius and any angles."""
from fractions import Fraction as F

from .c02 import claim_ranges
from .common import *  # noqa: F403

ANGS = {"sph": ("theta", "phi"), "msph": ("theta", "phi"), "ll": ("lon", "lat")}
RAD = {"sph": "r", "msph": "r", "ll": "distance"}


def harnesses(tier):
    hs = []
    for name in ANGS:
        units = [("km", "rad"), ("m", "deg")] if tier == "quick" else [(a, b) for a in LEN for b in ANG]
        for lu, au in units:
            for kind in (("kw", "deg-mixed") if (lu, au) == ("km", "rad") and tier != "quick" else ("kw",)):
                ins = {RAD[name]: Real(), **{k: Ang() for k in ANGS[name]}}
                ins = {k: ins[k] for k in REPS[name].comps}

                def fn(c, name=name, lu=lu, au=au, kind=kind, **inp):
                    a1, a2 = ANGS[name]
                    aus = {a1: au, a2: "deg" if kind == "deg-mixed" else au}
                    kw = {RAD[name]: ql(inp[RAD[name]], lu), **{k: qa(inp[k], aus[k]) for k in ANGS[name]}}
                    w = REPS[name].cls.from_(**kw)
                    c.eq("point", point(name, w), REPS[name].point(*[inp[k] for k in REPS[name].comps]))
                    claim_ranges(c, name, w)
                hs.append(Harness("C05", f"{name} {lu} {au} {kind}", fn, ins))
        # a batch normalises element by element; the other values are shared by the batch
        polar, az = ANGS[name] if name == "sph" else ANGS[name][::-1]
        pr = ("-1/2", "1/2") if name == "ll" else (0, 1)
        for which in ("r", "polar"):
            if which == "r":
                ins = {RAD[name]: Real(shape=(2,)), polar: Ang(F(pr[0]), F(pr[1])), az: Ang()}
            else:
                ins = {RAD[name]: Pos(), polar: Ang(shape=(2,)), az: Ang(F(0), F(2), hi_open=True)}
                if tier == "quick":
                    ins[polar] = Ang(F(pr[0]) - 1, F(pr[1]) + 1, shape=(2,))
            ins = {k: ins[k] for k in REPS[name].comps}
            hs.append(Harness("C05", f"{name} batch {which}", make_fb(name), ins))
    return hs


def make_fb(name):
    def fb(c, **inp):
        kw = {RAD[name]: ql(inp[RAD[name]]), **{k: qa(inp[k]) for k in ANGS[name]}}
        w = REPS[name].cls.from_(**kw)
        c.true("shape", w.shape == (2,))
        b = jnp.broadcast_arrays(*[inp[k] for k in REPS[name].comps])
        c.eq("point", point(name, w), REPS[name].point(*b))
        claim_ranges(c, name, w)
    return fb
