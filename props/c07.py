"""C07: an azimuth given as a quantity is stored in [0, 360) deg and points in the same direction."""
from fractions import Fraction as F

from .common import *  # noqa: F403

OWN = {"cyl": "phi", "sph": "phi", "msph": "theta", "ll": "lon", "prol": "phi", "polar": "phi"}


def harnesses(tier):
    hs = []
    for name, az in list(OWN.items()) + [("two", "phi")]:
        for au in ("rad", "deg"):
            if name == "two":
                ins = dict(theta=Ang(F(0), F(1)))
                cls = cxv.TwoSpherePos
                build = lambda theta, phi, lu, au: cxv.TwoSpherePos(theta=qa(theta, au), phi=qa(phi, au))  # noqa: E731
                assume = None
            else:
                ins = {k: v for k, v in REPS[name].inputs.items() if k != az}
                build, assume = REPS[name].build, REPS[name].assume
            ins[az] = Ang()

            def fn(c, build=build, az=az, au=au, name=name, **inp):
                w = build(**inp, lu="km", au=au)
                got = val(getattr(w, az), "rad")
                c.angle("direction", got, inp[az])
                c.le("lower bound", 0.0, got)
                c.lt("upper bound", got, 2 * PI)
                if name != "two":
                    for k, un in zip(REPS[name].comps, UNITS[name]):
                        if k != az:
                            c.eq(f"{k} unchanged", val(getattr(w, k), un), inp[k])
            hs.append(Harness("C07", f"{name} {au}", fn, ins, assume=assume))
    # from_ a mapping goes through the same wrapping
    def fm(c, r, theta, phi):
        w = cxv.SphericalPos.from_({"r": ql(r), "theta": qa(theta), "phi": qa(phi)})
        got = val(w.phi, "rad")
        c.angle("direction", got, phi)
        c.le("lower bound", 0.0, got)
        c.lt("upper bound", got, 2 * PI)
    hs.append(Harness("C07", "from mapping", fm, dict(r=NonNeg(), theta=Ang(F(0), F(1)), phi=Ang())))
    return hs
