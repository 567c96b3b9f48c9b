"""C19: distance, parallax and distance modulus are consistent conversions of one another."""
from fractions import Fraction as F

from .common import *  # noqa: F403

D = cx.distance
AUKM = 149597870.7
PCAU = 648000.0 / float(jnp.pi)
FAC = {"pc": 1.0, "kpc": 1e-3, "AU": PCAU, "km": PCAU * AUKM}
AF = {"rad": 1.0, "deg": 180.0 / float(jnp.pi), "mas": 648000000.0 / float(jnp.pi)}
DU = ("pc", "kpc", "AU")


def harnesses(tier):
    hs = []

    def add(name, fn, ins, **k):
        hs.append(Harness("C19", name, fn, ins, **k))

    P = dict(p=Ang(0, F(1, 2), lo_open=True, hi_open=True))
    for un in DU:
        def d_p(c, d, un=un):
            x = D.Distance(d, un)
            p = val(x.parallax, "rad")
            c.eq("d tan p = 1 au", val(x, "AU") * jnp.tan(p), jnp.ones(()))
            c.le("p >= 0", 0.0, p)
            c.le("p <= pi/2", p, PI / 2)
            c.true("type", isinstance(x.parallax, D.Parallax))
            back = x.parallax.distance
            c.eq("distance of parallax", val(back, un), d)
            c.eq("from_ parallax", val(D.Distance.from_(D.Parallax.from_(x)), un), d)
            c.eq("from_ quantity", val(D.Parallax.from_(u.Quantity(d, un)), "rad"), p)
            c.eq("from_ = property", val(D.Parallax.from_(x), "rad"), p)
            c.eq("distance of distance", val(x.distance, un), d)
        add(f"distance-parallax {un}", d_p, dict(d=Pos()))

        def d_m(c, d, un=un):
            x = D.Distance(d, un)
            m = x.distance_modulus
            c.true("type", isinstance(m, D.DistanceModulus))
            c.eq("distance of modulus", val(m.distance, un), d)
            c.eq("from_ modulus", val(D.Distance.from_(m), un), d)
            c.eq("from_ quantity mag", val(D.Distance.from_(u.Quantity(m.value, "mag")), un), d)
            c.eq("m = 5 log10(d/10pc)", val(m, "mag"), 5 * jnp.log10(val(x, "pc") / 10))
            c.eq("parallax of modulus", jnp.tan(val(m.parallax, "rad")) * val(x, "AU"), jnp.ones(()))
            c.eq("modulus via parallax", val(x.parallax.distance_modulus, "mag"), val(m, "mag"))
        add(f"distance-modulus {un}", d_m, dict(d=Pos()))
    for au in AF:
        def p_d(c, p, au=au):
            x = D.Parallax(p * AF[au], au)
            c.eq("tan p d = 1 au", val(x.distance, "AU") * jnp.tan(p), jnp.ones(()))
            c.eq("from_ parallax", val(D.Distance.from_(x), "AU") * jnp.tan(p), jnp.ones(()))
            c.eq("from_ angle", val(D.Distance.from_(u.Quantity(p * AF[au], au)), "AU") * jnp.tan(p), jnp.ones(()))
            c.angle("parallax of distance", val(x.distance.parallax, "rad"), p)
            c.eq("parallax of parallax", val(x.parallax, "rad"), p)
        add(f"parallax {au}", p_d, P)

        def p_m(c, p, au=au):
            x = D.Parallax(p * AF[au], au)
            c.eq("modulus", val(x.distance_modulus, "mag"), 5 * jnp.log10(val(x.distance, "pc") / 10))
            c.angle("parallax of modulus", val(x.distance_modulus.parallax, "rad"), p)
        add(f"parallax-modulus {au}", p_m, P)

    def m_d(c, m):
        x = D.DistanceModulus(m, "mag")
        c.eq("d = 10^(1+m/5) pc", val(x.distance, "pc"), 10 ** (1 + m / 5))
        c.eq("from_", val(D.Distance.from_(x), "pc"), 10 ** (1 + m / 5))
        c.eq("from_ mag", val(D.Distance.from_(u.Quantity(m, "mag")), "pc"), 10 ** (1 + m / 5))
        c.eq("modulus of distance", val(x.distance.distance_modulus, "mag"), m)
        c.eq("modulus of modulus", val(x.distance_modulus, "mag"), m)
        c.eq("parallax", jnp.tan(val(x.parallax, "rad")) * val(x.distance, "AU"), jnp.ones(()))
    add("modulus", m_d, dict(m=Real()))

    def batch(c, d):
        x = D.Distance(d, "kpc")
        c.eq("parallax", jnp.tan(val(x.parallax, "rad")) * val(x, "AU"), jnp.ones(2))
        c.eq("modulus", val(x.distance_modulus, "mag"), 5 * jnp.log10(val(x, "pc") / 10))
        c.eq("back", val(x.distance_modulus.distance, "kpc"), d)
    add("batch", batch, dict(d=Pos(shape=(2,))))
    return hs
