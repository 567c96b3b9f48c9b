"""C17: ICRS and Galactocentric frames are related by a rigid motion and its inverse."""
import functools

from .ops import *  # noqa: F403
from .ops import _rot
from fractions import Fraction as _F

CF = cx.frames
ROLL0 = 58.5986320306                     # degrees (Reid & Brunthaler 2004)
SYM = dict(lon=Ang(0, 2, hi_open=True), lat=Ang("-1/2", "1/2"), roll=Ang(-2, 2, hi_open=True), tilt=Ang("-1/2", "1/2", lo_open=True, hi_open=True), dist=Pos(),
           vx=Real(), vy=Real(), vz=Real())
for _s in SYM.values():
    if isinstance(_s, Ang):
        _s.lo, _s.hi = _F(_s.lo), _F(_s.hi)


class Params:
    """Frame parameters: the named ones symbolic (prefix pre), the others zero (distance 8 km, default velocity)."""

    def __init__(self, *names, pre="d0_", au="rad", share=()):
        self.names, self.pre, self.au, self.share = names, pre, au, share      # share: taken from the first frame

    def ins(self):
        return {self.key(k): SYM[k] for k in self.names}

    def key(self, k):
        return ("d0_" if k in self.share else self.pre) + k

    def get(self, inp):
        return {k: (inp[self.key(k)] if k in self.names else None) for k in SYM}

    def frame(self, inp):
        g, D = self.get(inp), {}
        kw = {}
        if True:
            kw["galcen"] = cxv.LonLatSphericalPos(
                lon=qa(g["lon"], self.au) if g["lon"] is not None else u.Quantity(0.0, "deg"),
                lat=qa(g["lat"], self.au) if g["lat"] is not None else u.Quantity(0.0, "deg"),
                distance=ql(g["dist"], "m") if g["dist"] is not None else u.Quantity(8.0, "km"))
        d = self.dist(inp)
        kw["roll"] = u.Quantity(ROLL0, "deg") + (qa(g["roll"], "deg") if g["roll"] is not None else u.Quantity(0.0, "deg"))
        kw["z_sun"] = ql(d * jnp.sin(g["tilt"])) if g["tilt"] is not None else u.Quantity(0.0, "m")
        if "vx" in self.names:
            kw["galcen_v_sun"] = cxv.CartesianVel3D(d_x=kms(g["vx"]), d_y=kms(g["vy"], "m/s"), d_z=kms(g["vz"]))
        return CF.Galactocentric(**kw)

    def dist(self, inp):
        g = self.get(inp)
        if g["dist"] is not None:
            return g["dist"]
        return 8.0

    def rot(self, inp):
        g = self.get(inp)
        z = jnp.zeros(())
        H = rot_axis("y", g["tilt"] if g["tilt"] is not None else z)
        M0 = rot_axis("x", g["roll"] if g["roll"] is not None else z)
        lon = g["lon"] if g["lon"] is not None else z
        lat = g["lat"] if g["lat"] is not None else z
        return H, H @ M0 @ rot_axis("y", lat) @ rot_axis("z", -lon)

    def map(self, inp, P):
        H, R = self.rot(inp)
        return _rot(R, P) - self.dist(inp) * H[:, 0]

    def vel(self, inp, V):
        g = self.get(inp)
        return _rot(self.rot(inp)[1], V) + jnp.stack([g["vx"], g["vy"], g["vz"]])


ALL = ("lon", "lat", "roll", "tilt", "dist", "vx", "vy", "vz")
Q3 = {"a_x": Real(), "a_y": Real(), "a_z": Real()}
V3 = {"v_x": Real(), "v_y": Real(), "v_z": Real()}


def vec3(inp, p="a_"):
    return jnp.stack([inp[p + "x"], inp[p + "y"], inp[p + "z"]])


def back(pr, inp, P):
    H, R = pr.rot(inp)
    return _rot(R.T, P + pr.dist(inp) * H[:, 0])


def backv(pr, inp, V):
    g = pr.get(inp)
    return _rot(pr.rot(inp)[1].T, V - jnp.stack([g["vx"], g["vy"], g["vz"]]))


def harnesses(tier):
    hs = []
    QT, T = ("quick", "thorough"), ("thorough",)
    icrs = CF.ICRS()

    def add(name, fn, ins, assume=None, tiers=QT):
        hs.append(Harness("C17", name, fn, ins, assume=assume, cut=by_group, tiers=tiers))

    for au in ("rad", "deg"):
        pr = Params(*ALL, au=au)

        def fwd(c, pr=pr, **inp):
            op = CF.frame_transform_op(icrs, pr.frame(inp))
            P, V = vec3(inp), vec3(inp, "v_")
            c.eq("point", val(op(u.Quantity(P * 1000.0, "m")), "km"), pr.map(inp, P))
            q1, p1 = op(u.Quantity(P, "km"), u.Quantity(V * 1000.0, "m/s"))
            c.eq("point of q,p", val(q1, "km"), pr.map(inp, P))
            c.eq("velocity", val(p1, "km/s"), pr.vel(inp, V))
        add(f"forward {au}", fwd, {**Q3, **V3, **pr.ins()})

        def bwd(c, pr=pr, **inp):
            op = CF.frame_transform_op(pr.frame(inp), icrs)
            P, V = vec3(inp), vec3(inp, "v_")
            c.eq("point", val(op(u.Quantity(P, "km")), "km"), back(pr, inp, P))
            q1, p1 = op(u.Quantity(P * 1000.0, "m"), u.Quantity(V, "km/s"))
            c.eq("point of q,p", val(q1, "km"), back(pr, inp, P))
            c.eq("velocity", val(p1, "km/s"), backv(pr, inp, V))
        add(f"backward {au}", bwd, {**Q3, **V3, **pr.ins()})
    pr = Params(*ALL)

    def rigid(c, **inp):
        fr = pr.frame(inp)
        op, inv = CF.frame_transform_op(icrs, fr), CF.frame_transform_op(fr, icrs)
        P, P2 = vec3(inp), vec3(inp, "b_")
        for nm, o in (("to galactocentric", op), ("to icrs", inv)):
            d = val(o(u.Quantity(P, "km")), "km") - val(o(u.Quantity(P2, "km")), "km")
            c.eq("distance " + nm, jnp.sum(d * d), jnp.sum((P - P2) ** 2))
        gc = cxv.LonLatSphericalPos(lon=qa(inp["d0_lon"]), lat=qa(inp["d0_lat"]), distance=ql(inp["d0_dist"]))
        z3 = jnp.zeros(3)
        g = u.Quantity(R3["ll"].point(lon=inp["d0_lon"], lat=inp["d0_lat"], distance=inp["d0_dist"]), "km")
        c.eq("centre", val(op(g), "km"), z3)
        gq, gv = op(gc, cxv.CartesianVel3D(d_x=kms(0.0), d_y=kms(0.0), d_z=kms(0.0)))
        c.eq("centre vector", point("cart", gq), z3)
        sun, vsun = op(u.Quantity(z3, "km"), u.Quantity(z3, "km/s"))
        s = val(sun, "km")
        c.lt("sun x < 0", s[0], jnp.zeros(()))
        c.eq("sun y", s[1], jnp.zeros(()))
        c.eq("sun z", s[2], val(fr.z_sun, "km"))
        c.eq("sun distance", jnp.sum(s * s), inp["d0_dist"] ** 2)
        c.eq("sun velocity", val(vsun, "km/s"), jnp.stack([inp["d0_vx"], inp["d0_vy"], inp["d0_vz"]]))
    add("rigid", rigid, {**Q3, "b_x": Real(), "b_y": Real(), "b_z": Real(), **pr.ins()})

    def round_trip(c, which=None, **inp):
        fr = pr.frame(inp)
        P, V = vec3(inp), vec3(inp, "v_")
        q, p = u.Quantity(P, "km"), u.Quantity(V, "km/s")
        op, inv = CF.frame_transform_op(icrs, fr), CF.frame_transform_op(fr, icrs)
        if which < 2:
            pairs = (("there and back", op, inv), ("inverse of forward", op, op.inverse))
        else:
            pairs = (("back and there", inv, op), ("inverse of backward", inv, inv.inverse))
        for nm, a, b in pairs[which % 2:which % 2 + 1]:
            c.eq(nm, val(b(a(q)), "km"), P)
            q2, p2 = b(*a(q, p))
            c.eq(nm + " q", val(q2, "km"), P)
            c.eq(nm + " p", val(p2, "km/s"), V)
        if which:
            return
        c.eq("pipe q alone", val((op | inv)(q), "km"), P)
        q3, p3 = (op | inv)(q, p)
        c.eq("pipe q", val(q3, "km"), P)
        c.eq("pipe p", val(p3, "km/s"), V)
    for w in range(4):
        add(f"round trip {w}", functools.partial(round_trip, which=w), {**Q3, **V3, **pr.ins()})

    # the documented default frame
    def default(c, **inp):
        fr = CF.Galactocentric()
        k = val(u.Quantity(1.0, "kpc"), "km")
        c.eq("lon", val(fr.galcen.lon, "deg"), 266.4051 * jnp.ones(()))
        c.eq("lat", val(fr.galcen.lat, "deg"), -28.936175 * jnp.ones(()))
        c.eq("distance", val(fr.galcen.distance, "kpc"), 8.122 * jnp.ones(()))
        c.eq("roll", val(fr.roll, "deg"), jnp.zeros(()))
        c.eq("z_sun", val(fr.z_sun, "pc"), 20.8 * jnp.ones(()))
        for a, b in zip("xyz", (12.9, 245.6, 7.78)):
            c.eq("v_sun " + a, val(getattr(fr.galcen_v_sun, "d_" + a), "km/s"), b * jnp.ones(()))
        c.eq("roll0", val(fr.roll0, "deg"), ROLL0 * jnp.ones(()))
    add("default", default, {"a_x": Real()})

    def ident(c, **inp):
        op = CF.frame_transform_op(icrs, CF.ICRS())
        P, V = vec3(inp), vec3(inp, "v_")
        c.eq("q", val(op(u.Quantity(P, "km")), "km"), P)
        q = cxv.CartesianPos3D.from_(u.Quantity(P, "km"))
        c.eq("vector", point("cart", op(q)), P)
        fr = pr.frame(inp)
        q2, p2 = CF.frame_transform_op(fr, fr)(u.Quantity(P, "km"), u.Quantity(V, "km/s"))
        c.eq("galactocentric q", val(q2, "km"), P)
        c.eq("galactocentric p", val(p2, "km/s"), V)
        q2, p2 = icrs.transform_op(fr)(u.Quantity(P, "km"), u.Quantity(V, "km/s"))
        c.eq("transform_op q", val(q2, "km"), pr.map(inp, P))
        c.eq("transform_op p", val(p2, "km/s"), pr.vel(inp, V))
    add("same frame", ident, {**Q3, **V3, **pr.ins()})

    # vectors in any representation
    for a, A in R3.items():
        for dirn in ("forward", "backward"):
            def vecs(c, a=a, A=A, dirn=dirn, **inp):
                fr = pr.frame(inp)
                op = CF.frame_transform_op(icrs, fr) if dirn == "forward" else CF.frame_transform_op(fr, icrs)
                qv, pv = op(A.build(**pos_args(A, inp)), build_vel(a, inp, pre="v_"))
                P = A.point(**pos_args(A, inp))
                V = phys_vel(a, [inp["a_" + k] for k in A.inputs], [inp["v_" + k] for k in DIFFC[a]])
                c.eq("q alone", point("cart", op(A.build(**pos_args(A, inp)))), pr.map(inp, P) if dirn == "forward" else back(pr, inp, P))
                c.eq("q", point("cart", qv), pr.map(inp, P) if dirn == "forward" else back(pr, inp, P))
                c.eq("p", jnp.stack(dcomps("cart", pv)), pr.vel(inp, V) if dirn == "forward" else backv(pr, inp, V))

            def asm(a=a, A=A, **kw):
                pa = pos_args(A, kw)
                return (A.offaxis(**pa) if A.offaxis else []) + ([pa["nu"] != 0] if a == "prol" else [])
            add(f"vectors {dirn} {a}", vecs, {**arg_ins(A), **diff_inputs(a, "v_"), **pr.ins()}, assume=conj(arg_asm(A), asm))

    # between two galactocentric frames
    SIX = ("lon", "lat", "dist", "vx", "vy", "vz")
    for nm, p1, p2, tiers in (("roll tilt to all", Params("roll", "tilt", "dist", "vx", "vy", "vz"), Params(*ALL, pre="d1_"), QT),
                              ("direction to roll", Params(*SIX), Params("roll", "dist", "vx", "vy", "vz", pre="d1_"), QT),
                              ("same angles", Params(*SIX), Params(*SIX, pre="d1_", share=("lon", "lat")), QT),
                              ("all to all", Params(*ALL), Params(*ALL, pre="d1_", au="deg"), T),
                              *((f"only {'+'.join(d)} differ", Params(*ks), Params(*ks, pre="d1_", share=tuple(k for k in ks if k not in d)), QT)
                                for d in (("tilt",), ("roll",), ("dist",), ("lon",), ("lat",), ("vx",), ("vy", "vz"), ("tilt", "vx"), ())
                                for ks in (tuple(k for k in ALL if k in {"dist", "vx", "vy", "vz", "roll", *d}),))):

        def chain(c, p1=p1, p2=p2, **inp):
            op = CF.frame_transform_op(p1.frame(inp), p2.frame(inp))
            P, V = vec3(inp), vec3(inp, "v_")
            q, p = op(u.Quantity(P, "km"), u.Quantity(V, "km/s"))
            c.eq("q", val(q, "km"), p2.map(inp, back(p1, inp, P)))
            c.eq("p", val(p, "km/s"), p2.vel(inp, backv(p1, inp, V)))
            c.eq("q alone", val(op(u.Quantity(P * 1000.0, "m")), "km"), p2.map(inp, back(p1, inp, P)))
            q, p = op.inverse(q, p)
            c.eq("undone q", val(q, "km"), P)
            c.eq("undone p", val(p, "km/s"), V)
        add(f"chain {nm}", chain, {**Q3, **V3, **p1.ins(), **p2.ins()}, tiers=tiers)
    return hs
