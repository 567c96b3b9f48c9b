"""C24: velocity x time, acceleration x time and acceleration x time^2 multiply component by component."""
from fractions import Fraction as _F

import quaxed.lax as qlax

from .common import *  # noqa: F403

TU = {"s": 1.0, "h": 3600.0}


def harnesses(tier):
    hs = []
    SH = [(), (2,)]

    def mk(name, A, shape, tshape, tu, order, power, lu="km", au="rad"):
        """order: 1 velocity, 2 acceleration; power of the time."""
        out = order - power
        ang = out == 0 and "rad" in UNITS[name]     # the angles covered are the inputs: rate = angle / time
        ins = {("d_" + k): Real(shape=shape) for k in DIFFC[name]}
        if ang:
            for k, un in zip(DIFFC[name], UNITS[name]):
                if un == "rad":
                    ins["d_" + k] = Ang(shape=shape) if k in AZ[name] else Ang(*((_F(-1, 2), _F(1, 2)) if k == "lat" else (_F(0), _F(1))), shape=shape)
        ins["t_ime"] = Real(shape=tshape)

        def fn(c, **inp):
            if ang:
                inp = {k: x / inp["t_ime"] if isinstance(ins[k], Ang) else x for k, x in inp.items()}
            v = build_vel(name, inp, lu=lu, au=au, order=order)
            t = u.Quantity(inp["t_ime"] / TU[tu] ** power if tu != "s" else inp["t_ime"], tu if power == 1 else tu + "2")
            rs = [("vec*t", v * t), ("lax", qlax.mul(v, t))]
            if order == 2 and tshape == () and power == 1 and name.startswith("cart"):
                rs.append(("t*vec", t * v))
            if order == 2 and power == 1:
                rs.append(("lax t*vec", qlax.mul(t, v)))
            if order == 2 and power == 2 and tu == "s":
                if tshape == () and name.startswith("cart"):
                    rs.append(("t2*vec", t * v))
                rs.append(("lax t2*vec", qlax.mul(t, v)))
            for nm, r in rs:
                if out == 0:
                    c.true(nm + " class", type(r) is A.cls)
                    got = comps(name, r)
                else:
                    c.true(nm + " class", type(r) is VELCLS[name])
                    got = dcomps(name, r)
                for k, un, g in zip(DIFFC[name], UNITS[name], got):
                    w = inp["d_" + k] * inp["t_ime"]
                    if out == 0 and un == "rad" and k in AZ[name]:
                        c.angle(f"{nm} {k}", g, w)      # azimuths are wrapped
                    else:
                        c.eq(f"{nm} {k}", g, w)

        # the displacement has to be in the documented domain of the position class
        def dom(**kw):
            conds = []
            t = kw["t_ime"]
            for k in DIFFC[name]:
                w = jnp.ravel(kw["d_" + k] * t)
                if k in RAD:
                    conds += [x >= 0 for x in w]
            if ang:
                conds += [x != 0 for x in jnp.ravel(t)]
            return conds
        need = out == 0 and (ang or any(k in RAD for k in DIFFC[name]))
        hs.append(Harness("C24", f"{'vel acc'.split()[order - 1]} t{power} {name} {shape}{tshape} {tu}{lu}", fn, ins, assume=dom if need else None,
                          tiers=("quick", "thorough") if shape == tshape == () or name in ("cart", "cart1", "cart2", "rad1") else ("thorough",)))

    RAD = {"r", "rho", "distance"}
    AZ = {"polar": ("phi",), "cyl": ("phi",), "sph": ("phi",), "msph": ("theta",), "ll": ("lon",)}
    AZ = {k: AZ.get(k, ()) for k in REPS}
    for name, A in REPS.items():
        for order, power in ((1, 1), (2, 1), (2, 2)):
            if name == "prol" and order - power == 0:
                continue        # no focal length to build a position with
            for shape, tshape, tu, lu, au in (((), (), "s", "km", "rad"), ((), (), "h", "m", "deg"), ((2,), (2,), "s", "km", "rad"), ((), (2,), "s", "m", "rad"), ((2,), (), "s", "km", "deg")):
                if order - power == 0 and name not in ("cart", "cart1", "cart2", "rad1") and (shape, tshape) != ((), ()) and tier == "quick":
                    continue
                mk(name, A, shape, tshape, tu, order, power, lu, au)

    # N-dimensional
    for n in (1, 2, 3, 4):
        for shape, tshape in (((), ()), ((2,), (2,)), ((3,), (3,)), ((), (2,)), ((2,), ()), ((2, 1), (3,))):
            def nd(c, d, t_ime, n=n, shape=shape, tshape=tshape):
                v = cxv.CartesianVelND(u.Quantity(d * 1000.0, "m/s"))
                a = cxv.CartesianAccND(u.Quantity(d, "km/s2"))
                t, t2 = u.Quantity(t_ime / 3600.0, "h"), u.Quantity(t_ime, "s2")
                w = d * t_ime[..., None]
                for nm, r, cls, at, un in (("v t", v * t, cxv.CartesianPosND, "q", "km"), ("a t", a * t, cxv.CartesianVelND, "d_q", "km/s"), ("a t2", a * t2, cxv.CartesianPosND, "q", "km"),
                                           ("lax v t", qlax.mul(v, t), cxv.CartesianPosND, "q", "km"), ("lax t a", qlax.mul(t, a), cxv.CartesianVelND, "d_q", "km/s"), ("lax t2 a", qlax.mul(t2, a), cxv.CartesianPosND, "q", "km")):
                    c.true(nm + " class", type(r) is cls)
                    g = val(getattr(r, at), un)
                    c.true(nm + " shape", g.shape == w.shape)
                    if g.shape == w.shape:
                        c.eq(nm, g, w)
            hs.append(Harness("C24", f"nd {n} {shape}{tshape}", nd, dict(d=Real(shape=(*shape, n)), t_ime=Real(shape=tshape))))

    # the cos(latitude) velocities and the two-sphere
    def coslat(c, d, t_ime):
        A = cxv.TwoSphereAcc(d2_theta=u.Quantity(d[0], "rad/s2"), d2_phi=u.Quantity(d[1] * ANG["deg"], "deg/s2"))
        t = u.Quantity(t_ime, "s")
        for nm, r in (("a t", A * t), ("t a", qlax.mul(t, A))):
            c.true(nm + " class", type(r) is cxv.TwoSphereVel)
            c.eq(nm + " theta", val(r.d_theta, "rad/s"), d[0] * t_ime)
            c.eq(nm + " phi", val(r.d_phi, "rad/s"), d[1] * t_ime)
    hs.append(Harness("C24", "two-sphere acc", coslat, dict(d=Real(shape=(2,)), t_ime=Real())))

    def twovel(c, th, ph, t_ime):
        V = cxv.TwoSphereVel(d_theta=u.Quantity(th / t_ime, "rad/s"), d_phi=u.Quantity(ph / t_ime * ANG["deg"], "deg/s"))
        r = V * u.Quantity(t_ime, "s")
        c.true("class", type(r) is cxv.TwoSpherePos)
        c.eq("theta", val(r.theta, "rad"), th)
        c.angle("phi", val(r.phi, "rad"), ph)
    hs.append(Harness("C24", "two-sphere vel", twovel, dict(th=Ang(_F(0), _F(1)), ph=Ang(), t_ime=Real()), assume=lambda th, ph, t_ime: [t_ime != 0]))
    return hs
