"""C06: constructors raise iff a component lies outside the documented (closed) domain."""
from fractions import Fraction as F

from .common import *  # noqa: F403

AZ = Ang(F(0), F(2), hi_open=True)
# inputs (unrestricted), and the condition for rejection in oracle terms (km, rad)
CASES = {
    "rad1": (dict(r=Real()), lambda r: r < 0),
    "polar": (dict(r=Real(), phi=AZ), lambda r, phi: r < 0),
    "cyl": (dict(rho=Real(), phi=AZ, z=Real()), lambda rho, phi, z: rho < 0),
    "sph": (dict(r=Real(), theta=Ang(), phi=AZ), lambda r, theta, phi: (r < 0) | (theta < 0) | (theta > PI)),
    "msph": (dict(r=Real(), theta=AZ, phi=Ang()), lambda r, theta, phi: (r < 0) | (phi < 0) | (phi > PI)),
    "ll": (dict(lon=AZ, lat=Ang(), distance=Real()), lambda lon, lat, distance: (distance < 0) | (lat < -PI / 2) | (lat > PI / 2)),
    "prol": (dict(mu=Real(), nu=Real(), phi=AZ, Delta=Real()),
             lambda mu, nu, phi, Delta: (Delta <= 0) | (mu < Delta**2) | (nu > Delta**2) | (nu < -(Delta**2))),
}


def harnesses(tier):
    hs = []
    units = [("km", "rad"), ("m", "deg")] if tier == "quick" else [(a, b) for a in LEN for b in ANG]
    for name, (ins, bad) in CASES.items():
        for lu, au in units:
            def fn(c, name=name, lu=lu, au=au, **inp):
                w = REPS[name].build(**inp, lu=lu, au=au)
                for k, un, got in zip(REPS[name].comps, UNITS[name], comps(name, w)):
                    c.eq(f"{k} kept", got, inp[k])
            hs.append(Harness("C06", f"{name} {lu} {au}", fn, ins, errors=bad))
    # batches: rejected iff any element is out of range
    def fb(c, r, theta, phi):
        w = cxv.SphericalPos(r=ql(r), theta=qa(theta), phi=qa(phi))
        c.eq("r kept", val(w.r, "km"), r)
    hs.append(Harness("C06", "sph batch", fb, dict(r=Real(shape=(2,)), theta=Ang(F(0), F(1)), phi=AZ),
                      errors=lambda r, theta, phi: (r[0] < 0) | (r[1] < 0)))

    # ... in every representation, whichever element of whichever component is out of range
    for name, (ins, bad) in CASES.items():
        for shape in ((2,), (3,), (2, 2)):
            for which in ins:
                if isinstance(ins[which], Ang) and ins[which] is AZ or name == "cyl" and which == "z":
                    continue
                T = ("quick", "thorough") if shape == (2,) or name in ("ll", "prol") and shape == (2, 2) else ("thorough",)
                if name == "prol" and which == "Delta":
                    continue            # one focal distance per vector, not per element
                i0 = ins[which]
                spec = {k: (type(i0)(**{**i0.__dict__, "shape": shape}) if k == which else v) for k, v in ins.items()}

                def bb(c, name=name, which=which, **inp):
                    w = REPS[name].build(**inp)
                    c.eq(f"{which} kept", val(getattr(w, which), dict(zip(REPS[name].comps, UNITS[name]))[which]), inp[which])

                def any_bad(bad=bad, which=which, **inp):
                    x = inp[which]
                    r = False
                    for i in range(x.size):
                        r = bad(**{**inp, which: jnp.ravel(x)[i]}) | r
                    return r
                hs.append(Harness("C06", f"{name} batch of {which} {shape}", bb, spec, errors=any_bad, tiers=T))

    def fbt(c, lat):
        w = cxv.LonLatSphericalPos(lon=qa(jnp.zeros(2)), lat=qa(lat), distance=ql(jnp.ones(())))
        c.eq("lat kept", val(w.lat, "rad"), lat)
    hs.append(Harness("C06", "ll batch", fbt, dict(lat=Ang(shape=(2,))),
                      errors=lambda lat: (lat[0] < -PI / 2) | (lat[1] < -PI / 2) | (lat[0] > PI / 2) | (lat[1] > PI / 2)))
    for au in ("rad", "deg"):
        def ft(c, theta, phi, au=au):
            w = cxv.TwoSpherePos(theta=qa(theta, au), phi=qa(phi, au))
            c.eq("theta kept", val(w.theta, "rad"), theta)
        hs.append(Harness("C06", f"two {au}", ft, dict(theta=Ang(), phi=AZ), errors=lambda theta, phi: (theta < 0) | (theta > PI)))

        def fp(c, p, au=au):
            w = cx.distance.Parallax(p * ANG[au], au)
            c.eq("kept", val(w, "rad"), p)
        hs.append(Harness("C06", f"parallax {au}", fp, dict(p=Real()), errors=lambda p: p < 0))

        def fpn(c, p, au=au):
            w = cx.distance.Parallax(p * ANG[au], au, check_negative=False)
            c.eq("kept", val(w, "rad"), p)
        hs.append(Harness("C06", f"parallax {au} unchecked", fpn, dict(p=Real())))
    # building from a mapping or an array-like applies the same checks
    def fm(c, r, theta, phi):
        w = cxv.MathSphericalPos.from_({"r": ql(r), "theta": qa(theta), "phi": qa(phi)})
        c.eq("r kept", val(w.r, "km"), r)
    hs.append(Harness("C06", "msph from mapping", fm, CASES["msph"][0], errors=CASES["msph"][1]))

    def fr(c, r):
        w = cxv.RadialPos.from_(u.Quantity(r[None] * 1000.0, "m"))
        c.eq("r kept", val(w.r, "km"), r)
    hs.append(Harness("C06", "rad1 from quantity", fr, dict(r=Real()), errors=lambda r: r < 0))
    return hs
