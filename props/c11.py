"""C11: unit conversion changes the units and nothing else."""
from .common import *  # noqa: F403
from vsym.harness import Claims
from coordinax.vecs import ToUnitsOptions  # noqa: E402

SYS = {"m h deg": ("m", "h", "kg", "deg"), "kpc Myr rad": ("kpc", "Myr", "Msun", "rad")}


def inner(mu, nu, Delta):
    """Off the edge of the domain: the kpc conversion rounds, and the constructor re-checks the range."""
    return [mu >= 1.001 * Delta**2, nu <= 0.999 * Delta**2, nu >= -0.999 * Delta**2]


def harnesses(tier):
    hs = []

    def claim_same(c, nm, v, w, names, attrs=()):
        c.true(nm + " class", type(w) is type(v))
        for k in names:
            x, y = getattr(v, k), getattr(w, k)
            c.true(f"{nm} {k} type", type(x) is type(y))
            (rel if "kpc" in nm else Claims.eq)(c, f"{nm} {k} same quantity", val(y, str(x.unit)), x.value)
        for k in attrs:
            x, y = getattr(v, k), getattr(w, k)
            c.true(f"{nm} {k} unit kept", x.unit == y.unit)
            c.eq(f"{nm} {k} kept", x.value, y.value)

    def convert_all(c, v, names, dims, attrs=()):
        """Every supported way of naming units, and back."""
        for sn, args in SYS.items():
            us = u.unitsystem(*args)
            w = v.uconvert(us)
            for k in names:
                c.true(f"sys {sn} {k} unit", getattr(w, k).unit == us[u.dimension_of(getattr(v, k))])
            claim_same(c, f"sys {sn}", v, w, names, attrs)
            claim_same(c, f"func {sn}", v, u.uconvert(us, v), names, attrs)
            back = w.uconvert({d: str(getattr(v, k).unit) for k, d in zip(names, dims)})
            for k in names:
                c.true(f"back {sn} {k} unit", getattr(back, k).unit == getattr(v, k).unit)
                (rel if "kpc" in sn else Claims.eq)(c, f"back {sn} {k}", getattr(back, k).value, getattr(v, k).value)
        mp = dict(zip(dims, [TARGET[d] for d in dims]))
        for key in ("str", "dim"):
            w = v.uconvert(mp if key == "str" else {u.dimension(d): t for d, t in mp.items()})
            for k, d in zip(names, dims):
                c.true(f"map {key} {k} unit", getattr(w, k).unit == u.unit(TARGET[d]))
            claim_same(c, f"map {key}", v, w, names, attrs)
        w = v.uconvert(ToUnitsOptions.consistent)
        claim_same(c, "consistent", v, w, names, attrs)
        first = {}
        for k, d in zip(names, dims):
            first.setdefault(d, getattr(v, k).unit)
        for k, d in zip(names, dims):
            c.true(f"consistent {k} unit", getattr(w, k).unit == first[d])

    DIM = {"km": "length", "rad": "angle", "km2": "area"}
    for a, A in REPS.items():
        names = [k for k in A.comps if k != "Delta"]
        dims = [DIM[x] for k, x in zip(A.comps, UNITS[a]) if k != "Delta"]
        attrs = ("Delta",) if a == "prol" else ()

        def fp(c, a=a, A=A, names=names, dims=dims, attrs=attrs, **inp):
            convert_all(c, A.build(**inp), names, dims, attrs)
        hs.append(Harness("C11", f"pos {a}", fp, A.inputs, assume=conj(A.assume, inner if a == "prol" else None)))
        for order in (1, 2):
            nm = [("d_" if order == 1 else "d2_") + k for k in DIFFC[a]]
            dd = [{"km": ("speed", "acceleration"), "rad": ("angular speed", "angular acceleration"),
                   "km2": ("diffusivity", "dose of ionizing radiation")}[x][order - 1] for x in DUN[a]]

            def fd(c, a=a, order=order, nm=nm, dd=dd, **inp):
                convert_all(c, build_vel(a, inp, order=order), nm, dd)
            hs.append(Harness("C11", f"{'vel' if order == 1 else 'acc'} {a}", fd, diff_inputs(a)))
    # mixed units: only "consistent" changes the odd ones
    def mx(c, x, y, z):
        v = cxv.CartesianPos3D(x=ql(x), y=ql(y, "m"), z=u.Quantity(z, "pc"))
        w = v.uconvert(ToUnitsOptions.consistent)
        for k in "xyz":
            c.true(f"{k} unit", getattr(w, k).unit == u.unit("km"))
        c.eq("x", w.x.value, x)
        c.eq("y", w.y.value, y)
        rel(c, "z", val(w.z, "pc"), z)
        w = v.uconvert({"length": "m"})
        c.eq("x m", w.x.value, 1000 * x)
        c.eq("y m", w.y.value, 1000 * y)
        rel(c, "z m", val(w.z, "pc"), z)
    hs.append(Harness("C11", "mixed", mx, dict(x=Real(), y=Real(), z=Real())))

    for shp in ((3,), (2, 3)):
        def nd(c, p):
            convert_all(c, cxv.CartesianPosND(u.Quantity(p, "km")), ["q"], ["length"])
            convert_all(c, cxv.CartesianVelND(u.Quantity(p, "km/s")), ["d_q"], ["speed"])
            convert_all(c, cxv.CartesianAccND(u.Quantity(p, "km/s2")), ["d2_q"], ["acceleration"])
        hs.append(Harness("C11", f"ND {len(shp)}", nd, dict(p=Real(shape=shp))))

    def two(c, theta, phi):
        convert_all(c, cxv.TwoSpherePos(theta=qa(theta), phi=qa(phi)), ["theta", "phi"], ["angle", "angle"])
    hs.append(Harness("C11", "two-sphere", two, dict(theta=Ang(0, 1), phi=Ang(**TWO))))

    def lc(c, x, y, z):
        v = cxv.LonCosLatSphericalVel(d_lon_coslat=u.Quantity(x, "rad/s"), d_lat=u.Quantity(y, "rad/s"), d_distance=u.Quantity(z, "km/s"))
        convert_all(c, v, ["d_lon_coslat", "d_lat", "d_distance"], ["angular speed", "angular speed", "speed"])
    hs.append(Harness("C11", "loncoslat", lc, dict(x=Real(), y=Real(), z=Real())))

    def gen(c, x, y, z):
        v = cxv.CartesianGeneric3D(x=u.Quantity(x, "km"), y=u.Quantity(y, "km"), z=u.Quantity(z, "km"))
        convert_all(c, v, ["x", "y", "z"], ["length"] * 3)
    hs.append(Harness("C11", "generic", gen, dict(x=Real(), y=Real(), z=Real())))
    # a batch with components of different shapes keeps them
    def bt(c, r, theta, phi):
        v = cxv.SphericalPos(r=ql(r), theta=qa(theta), phi=qa(phi))
        w = v.uconvert({"length": "m", "angle": "deg"})
        c.eq("r", val(w.r, "m"), 1000 * r)
        c.eq("theta", val(w.theta, "rad"), theta)
        c.eq("phi", val(w.phi, "rad"), phi)
    hs.append(Harness("C11", "batch", bt, dict(r=NonNeg(shape=(2,)), theta=Ang(0, 1), phi=Ang(shape=(1,), **TWO))))
    return hs


TARGET = {"length": "m", "angle": "deg", "area": "m2", "speed": "m/s", "acceleration": "m/s2", "angular speed": "deg/h",
          "angular acceleration": "deg/h2", "diffusivity": "m2/h", "dose of ionizing radiation": "m2/h2"}
