"""C03: changing the representation of a velocity keeps the physical velocity."""
from .common import *  # noqa: F403

# regular points for derivatives: off the axis and, for prolate spheroidal coordinates, off the plane z = 0
REG = {"prol": lambda nu: [nu != 0]}


def zne0(A):
    return lambda **kw: [A.point(*[kw[c] for c in A.comps])[..., 2] != 0]


def vel_pair(prop, name, A, B, a, b, pos=None, lu="km", au="rad", tu="s", quantity=False, newd=False, tiers=("quick", "thorough")):
    """a -> b with the position given in representation `pos` (default a)."""
    p_ = pos or a
    P = REPS[p_]
    ins = {**P.inputs, **diff_inputs(a)}
    if b == "prol" and (p_ != "prol" or newd):
        ins["Dnew"] = Pos()

    def fn(c, **inp):
        kw = {} if "Dnew" not in inp else {"Delta": ql(inp["Dnew"], lu)}
        pin = pick(inp, *P.comps)
        p = P.build(**pin, lu=lu, au=au)
        v = build_vel(a, inp, lu, au, tu)
        parg = u.Quantity(jnp.stack([pin[k] for k in P.comps], -1) * LEN[lu], lu) if quantity else p
        w = v.represent_as(VELCLS[b], parg, **kw)
        c.true("type", type(w) is VELCLS[b])
        pa = p.represent_as(A.cls)
        pb = p.represent_as(B.cls, **kw)
        truth = phys_vel(a, comps(a, pa), [inp["d_" + k] for k in DIFFC[a]])
        c.eq("velocity", phys_vel(b, comps(b, pb), dcomps(b, w)), truth)
    asm = [P.assume, P.offaxis]
    if "prol" in (a, b):
        asm.append(REG["prol"] if p_ == "prol" else zne0(P))
    return Harness(prop, name, fn, ins, assume=conj(*asm), tiers=tiers)


def loncoslat(direction, b, prop="C03"):
    """LonCosLat velocities: d_lon_coslat is d_lon * cos(lat)."""
    L = R3["ll"]
    ins = {**L.inputs, "dlc": Real(), "d_lat": Real(), "d_distance": Real()}
    cls = cxv.LonCosLatSphericalVel

    def fn(c, dlc, **inp):
        pin = pick(inp, *L.comps)
        p = L.build(**pin)
        lat = pin["lat"]
        if direction == "from":
            v = cls(d_lon_coslat=u.Quantity(dlc, "rad / s"), d_lat=u.Quantity(inp["d_lat"], "rad / s"), d_distance=u.Quantity(inp["d_distance"], "km / s"))
            w = v.represent_as(VELCLS[b], p)
            truth = phys_vel("ll", [pin[k] for k in L.comps], [dlc / jnp.cos(lat), inp["d_lat"], inp["d_distance"]])
            c.eq("velocity", phys_vel(b, comps(b, p.represent_as(REPS[b].cls)), dcomps(b, w)), truth)
        else:
            d = [dlc, inp["d_lat"], inp["d_distance"]]
            cv = phys_vel("ll", [pin[k] for k in L.comps], d)
            src = cxv.LonLatSphericalVel(d_lon=u.Quantity(d[0], "rad / s"), d_lat=u.Quantity(d[1], "rad / s"), d_distance=u.Quantity(d[2], "km / s")) \
                if b == "ll" else cxv.CartesianVel3D(*[u.Quantity(cv[..., i], "km / s") for i in range(3)])
            w = src.represent_as(cls, p)
            c.true("type", type(w) is cls)
            c.eq("d_lon_coslat", val(w.d_lon_coslat, "rad / s"), dlc * jnp.cos(lat))
            c.eq("d_lat", val(w.d_lat, "rad / s"), d[1])
            c.eq("d_distance", val(w.d_distance, "km / s"), d[2])
    return Harness(prop, f"loncoslat-{direction}-{b}", fn, ins, assume=L.offaxis)


def harnesses(tier):
    hs = []
    for grp in (R1, R2, R3):
        for a, A in grp.items():
            for b, B in grp.items():
                if grp is R1 and a != b:
                    continue
                hs.append(vel_pair("C03", f"{a}->{b}", A, B, a, b))
    hs.append(vel_pair("C03", "prol->prol'newDelta", R3["prol"], R3["prol"], "prol", "prol", newd=True))
    for b in ("cyl", "sph", "ll"):
        hs.append(vel_pair("C03", f"cart->{b} position in m,deg", R3["cart"], R3[b], "cart", b, lu="m", au="deg", tu="h"))
        hs.append(vel_pair("C03", f"cart->{b} position as quantity", R3["cart"], R3[b], "cart", b, quantity=True))
        hs.append(vel_pair("C03", f"{b}->cart position cartesian", R3[b], R3["cart"], b, "cart", pos="cart"))
    hs.append(vel_pair("C03", "sph->cyl position msph, deg", R3["sph"], R3["cyl"], "sph", "cyl", pos="msph", au="deg", lu="m"))
    hs.append(vel_pair("C03", "polar->cart2 deg", R2["polar"], R2["cart2"], "polar", "cart2", au="deg", lu="m", tu="h"))
    for b in ("ll", "cart", "sph"):
        hs.append(loncoslat("from", b))
    for b in ("ll", "cart"):
        hs.append(loncoslat("to", b))
    return with_batched(hs, skip=lambda n: "newDelta" in n)
