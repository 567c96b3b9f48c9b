"""C21: Poincare polar coordinates: defining formulas and round trips."""
from .common import *  # noqa: F403

POL = ("rho", "pp_phi", "z", "d_rho", "d_pp_phi", "d_z")


def pcomps(w):
    h = "km rad(1/2) / s(1/2)"
    return [val(getattr(w, k), un) for k, un in zip(POL, ("km", h, "km", "km/s", h, "km/s"))]


def harnesses(tier):
    hs = []
    CYL = {"rho": Pos(), "phi": Ang(**TWO), "z": Real(), **diff_inputs("cyl")}
    import fractions
    CYL["phi"].lo, CYL["phi"].hi = fractions.Fraction(0), fractions.Fraction(2)

    def shaped(s):
        return {k: type(x)(**{**x.__dict__, "shape": s}) for k, x in CYL.items()}

    def space(inp, lu, au, tu):
        return cx.Space(length=R3["cyl"].build(inp["rho"], inp["phi"], inp["z"], lu=lu, au=au), speed=build_vel("cyl", inp, lu, au, tu))

    def formulas(c, w, rho, phi, z, d_rho, d_phi, d_z, eq=None):
        eq = eq or c.eq
        c.true("class", type(w) is cxv.PoincarePolarVector)
        g = dict(zip(POL, pcomps(w)))
        for k, x in (("rho", rho), ("z", z), ("d_rho", d_rho), ("d_z", d_z)):
            c.eq(k, g[k], x)
        s = jnp.sqrt(2 * rho**2 * jnp.abs(d_phi))
        eq("pp_phi", g["pp_phi"], s * jnp.cos(phi))
        eq("d_pp_phi", g["d_pp_phi"], s * jnp.sin(phi))

    def back(c, w, rho, phi, z, d_rho, d_phi, d_z):
        r = w.represent_as(cx.Space)
        c.true("space", type(r) is cx.Space and set(r.keys()) == {"length", "speed"})
        q, p = r["length"], r["speed"]
        c.true("classes", type(q) is cxv.CylindricalPos and type(p) is cxv.CylindricalVel)
        gr, gp, gz = comps("cyl", q)
        c.eq("back rho", gr, rho)
        c.eq("back z", gz, z)
        c.eq("back phi cos", jnp.cos(gp), jnp.cos(phi))
        c.eq("back phi sin", jnp.sin(gp), jnp.sin(phi))
        dr, dp, dz = dcomps("cyl", p)
        c.eq("back d_rho", dr, d_rho)
        c.eq("back d_z", dz, d_z)
        c.eq("back d_phi up to the sense", dp, jnp.abs(d_phi))

    for lu, au, tu, shp in (("km", "rad", "s", ()), ("m", "rad", "h", ()), ("km", "rad", "s", (2,)), ("km", "deg", "s", ())):
        ins = shaped(shp)
        hs.append(Harness("C21", f"formulas {lu}{au}{tu}{shp}", lambda c, lu=lu, au=au, tu=tu, **inp: formulas(c, space(inp, lu, au, tu).represent_as(cxv.PoincarePolarVector), **inp, eq=(lambda *a: rel(c, *a)) if au == "deg" else None), ins))
        hs.append(Harness("C21", f"round trip {lu}{au}{tu}{shp}", lambda c, lu=lu, au=au, tu=tu, **inp: back(c, space(inp, lu, au, tu).represent_as(cxv.PoincarePolarVector), **inp), ins,
                          assume=lambda d_phi: [x != 0 for x in jnp.ravel(d_phi)]))

    # from members in other representations: the same as by way of the cylindrical representation
    for a, b in (("cart", "cart"), ("sph", "sph"), ("cart", "sph"), ("ll", "ll"), ("msph", "cart"), ("cyl", "cart")):
        A = R3[a]

        def other(c, a=a, b=b, A=A, **inp):
            p = A.build(**pick(inp, *A.inputs))
            v = build_vel(b, inp)
            w = cx.Space(length=p, speed=v).represent_as(cxv.PoincarePolarVector)
            q = p.represent_as(cxv.CylindricalPos)
            d = v.represent_as(cxv.CylindricalVel, p)
            formulas(c, w, *comps("cyl", q), *dcomps("cyl", d))
            # and the physical position and the conserved parts
            P = A.point(**pick(inp, *A.inputs))
            g = dict(zip(POL, pcomps(w)))
            c.eq("rho2", g["rho"] ** 2, P[0] ** 2 + P[1] ** 2)
            c.eq("height", g["z"], P[2])
        hs.append(Harness("C21", f"from {a},{b}", other, {**A.inputs, **diff_inputs(b)}, assume=conj(A.assume, A.offaxis)))

    # Poincare -> space -> Poincare
    def pin(shp=()):
        return dict(rho=Pos(shape=shp), a=Real(shape=shp), z=Real(shape=shp), d_rho=Real(shape=shp), b=Real(shape=shp), d_z=Real(shape=shp))

    def build(rho, a, z, d_rho, b, d_z, lu="km"):
        k = LEN[lu]
        h = f"{lu} rad(1/2) / s(1/2)"
        return cxv.PoincarePolarVector(rho=ql(rho, lu), pp_phi=u.Quantity(a * k, h), z=ql(z, lu), d_rho=u.Quantity(d_rho * k, f"{lu}/s"), d_pp_phi=u.Quantity(b * k, h), d_z=u.Quantity(d_z * k, f"{lu}/s"))

    for lu, shp in (("km", ()), ("m", ()), ("km", (2,))):
        def there(c, lu=lu, **inp):
            w = build(**inp, lu=lu)
            s = w.represent_as(cx.Space)
            rho, phi, z = comps("cyl", s["length"])
            dr, dp, dz = dcomps("cyl", s["speed"])
            c.eq("rho", rho, inp["rho"])
            c.eq("z", z, inp["z"])
            c.eq("d_rho", dr, inp["d_rho"])
            c.eq("d_z", dz, inp["d_z"])
            m2 = inp["a"] ** 2 + inp["b"] ** 2
            c.eq("d_phi", dp * 2 * inp["rho"] ** 2, m2)
            c.eq("cos phi", jnp.cos(phi) * jnp.sqrt(m2), inp["a"])
            c.eq("sin phi", jnp.sin(phi) * jnp.sqrt(m2), inp["b"])
            w2 = s.represent_as(cxv.PoincarePolarVector)
            for k, g, x in zip(POL, pcomps(w2), pcomps(w)):
                c.eq("again " + k, g, x)
        hs.append(Harness("C21", f"back {lu}{shp}", there, pin(shp), assume=lambda a, b: [x > 0 for x in jnp.ravel(a**2 + b**2)]))

    # the same to itself
    hs.append(Harness("C21", "identity", lambda c, **inp: [c.eq(k, g, x) for k, g, x in zip(POL, pcomps(build(**inp).represent_as(cxv.PoincarePolarVector)), pcomps(build(**inp)))], pin()))
    return hs
