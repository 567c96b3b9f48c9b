"""C25: vectors and astropy representations convert into each other without mixing components or units.

astropy's classes hold concrete numpy arrays, so while the code is being traced they are replaced by recording
stand-ins: subclasses of the real classes (so the real dispatch picks the real conversion) which merely keep the
components they are given.  Concrete runs (validation and replay) use astropy itself.
"""
import contextlib
import functools
import sys
import types

import astropy.coordinates as apyc
import astropy.units as apyu
import numpy as np
from plum import convert

from .common import *  # noqa: F403
from vsym.alg import Unsupported


class FakeQ(apyu.Quantity):
    """A quantity whose value is an array being traced."""

    def __new__(cls, value, unit=None, **kw):
        if isinstance(value, FakeQ):
            return value if unit is None else value.to(unit)
        self = np.full(np.shape(value), np.nan).view(cls)
        self._v = jnp.asarray(value)
        self._set_unit(apyu.Unit(unit))
        return self

    def __array_finalize__(self, obj):
        pass

    value = property(lambda self: self._v)

    def to_value(self, unit=None, equivalencies=[]):
        return self._v if unit is None else u.uconvert(unit, u.Quantity(self._v, self.unit)).value

    def to(self, unit, equivalencies=[], copy=True):
        return FakeQ(self.to_value(unit), unit)

    def __array_ufunc__(self, f, method, *args, **kw):
        if f is np.negative:
            return FakeQ(-self._v, self.unit)
        if f is np.multiply and len(args) == 2 and any(isinstance(a, (int, float)) for a in args):
            return FakeQ(jnp.multiply(*[a._v if isinstance(a, FakeQ) else a for a in args]), self.unit)
        raise Unsupported(f"{f} of an astropy quantity")

    def __array_function__(self, f, *a, **k):
        raise Unsupported(f"{f} of an astropy quantity")

    def __getitem__(self, i):
        return FakeQ(self._v[i], self.unit)


@functools.cache
def fake(cls):
    def init(self, *args, **kw):
        names = list(cls.attr_classes) if hasattr(cls, "attr_classes") else []
        kw = {**dict(zip(names, args)), **{k: v for k, v in kw.items() if k in names}}
        if set(kw) != set(names):
            raise Unsupported(f"{cls.__name__}({', '.join(kw)})")
        object.__setattr__(self, "_c", kw)

    def represent_as(self, other, *a, **k):
        if not isinstance(self, other):
            raise Unsupported("conversion between astropy representations")
        return self
    ns = {n: property(lambda self, n=n: self._c[n]) for n in cls.attr_classes}
    ns.update(__init__=init, represent_as=represent_as, attr_classes=cls.attr_classes, __module__="vsym_" + cls.__name__,
              shape=property(lambda self: np.broadcast_shapes(*[np.shape(v._v) for v in self._c.values()])))
    if hasattr(cls, "base_representation"):
        ns["base_representation"] = cls.base_representation
    import astropy.coordinates.representation as r
    mods = [m for k, m in sys.modules.items() if k.startswith("astropy.coordinates.representation")]
    regs = {id(getattr(m, n)): getattr(m, n) for m in mods for n in ("REPRESENTATION_CLASSES", "DIFFERENTIAL_CLASSES", "_REPRDIFF_CLASSES") if hasattr(m, n)}
    del r
    saved = [(d, dict(d)) for d in regs.values() if isinstance(d, dict)]
    try:
        return type("Fake" + cls.__name__, (cls,), ns)
    finally:
        for d, s in saved:
            d.clear()
            d.update(s)


class _NS:
    def __init__(self, mod):
        self._m = mod

    def __getattr__(self, n):
        x = getattr(self._m, n)
        if x is apyu.Quantity:
            return FakeQ
        if isinstance(x, type) and issubclass(x, (apyc.BaseRepresentation, apyc.BaseDifferential)) and not n.startswith("Base"):
            return fake(x)
        return x


@contextlib.contextmanager
def stand_ins(on):
    """While tracing: the modules which build astropy objects build the stand-ins."""
    if not on:
        yield apyc, apyu
        return
    A, U = _NS(apyc), _NS(apyu)
    done = []
    for name, m in list(sys.modules.items()):
        if m is None or "interop_astropy" not in name:
            continue
        for k, v in list(vars(m).items()):
            new = A if v is apyc else U if v is apyu else FakeQ if v is apyu.Quantity else None
            if new is not None:
                done.append((m, k, v))
                setattr(m, k, new)
    try:
        yield A, U
    finally:
        for m, k, v in done:
            setattr(m, k, v)


class FakeFrame(apyc.Galactocentric):
    """A frame which keeps the parameters it is given."""

    def __init__(self, **par):
        object.__setattr__(self, "_par", par)

    has_data = False


for _n in ("galcen_coord", "galcen_distance", "roll", "z_sun", "galcen_v_sun"):
    setattr(FakeFrame, _n, property(lambda self, n=_n: self._par[n]))


def tracing(inp):
    import jax.core
    return any(isinstance(x, jax.core.Tracer) for x in inp.values())


REPCLS = {"cart": "CartesianRepresentation", "cyl": "CylindricalRepresentation", "sph": "PhysicsSphericalRepresentation",
          "ll": "SphericalRepresentation"}
DIFFCLS = {"cart": "CartesianDifferential", "cyl": "CylindricalDifferential", "sph": "PhysicsSphericalDifferential",
           "ll": "SphericalDifferential", "llc": "SphericalCosLatDifferential"}
VC = {**VELCLS, "llc": cxv.LonCosLatSphericalVel}
DC = {**{k: ["d_" + x for x in DIFFC[k]] for k in REPCLS}, "llc": ["d_lon_coslat", "d_lat", "d_distance"]}


def aq(v, unit, U):
    """astropy quantity of an array."""
    return U.Quantity(v, apyu.Unit(unit)) if U is not apyu else apyu.Quantity(np.asarray(v), unit)


def av(x, unit):
    """Value of a component of an astropy object, in `unit`."""
    return jnp.asarray(x.to_value(unit)) if isinstance(x, FakeQ) else jnp.asarray(np.asarray(x.to_value(apyu.Unit(unit))))


def unit_set(lu, au, i):
    """Units of the i-th component: "mixed" alternates."""
    return (("km", "m")[i % 2] if lu == "mixed" else lu), (("deg", "rad")[i % 2] if au == "mixed" else au)


def harnesses(tier):
    hs = []

    def cunits(a, lu, au):
        """component: (factor, unit)"""
        out = {}
        seen = {"km": 0, "rad": 0}
        for k, un in zip(R3[a].comps, UNITS[a]):
            L, A = unit_set(lu, au, seen[un])
            seen[un] += 1
            out[k] = (LEN[L], L) if un == "km" else (ANG[A], A)
        return out

    def to_apy(a, lu, au, target, sh):
        R = R3[a]

        def fn(c, **inp):
            f = cunits(a, lu, au)
            v = R.cls(**{k: u.Quantity(inp[k] * f[k][0], f[k][1]) for k in R.comps})
            with stand_ins(tracing(inp)):
                w = convert(v, getattr(apyc, target))
            c.true("class", isinstance(w, getattr(apyc, REPCLS[a])))
            for k, un in zip(R.comps, UNITS[a]):
                x = getattr(w, k)
                c.true(f"unit of {k}", x.unit == apyu.Unit(f[k][1]))
                c.eq(k, av(x, un), inp[k])
        return Harness("C25", f"{a} to {target} {lu},{au} {sh}", fn, {k: type(s)(**{**s.__dict__, "shape": sh}) for k, s in R.inputs.items()})

    def from_apy(a, lu, au, how, sh):
        R = R3[a]
        ins = {k: type(s)(**{**s.__dict__, "shape": sh}) for k, s in R.inputs.items()}

        def fn(c, **inp):
            with stand_ins(tracing(inp)) as (A, U):
                f = cunits(a, lu, au)
                r = getattr(A, REPCLS[a])(**{k: aq(inp[k] * f[k][0], f[k][1], U) for k in R.comps})
                v = R.cls.from_(r) if how == "from_" else cxv.AbstractPos3D.from_(r) if how == "abstract" else convert(r, R.cls)
            c.true("class", type(v) is R.cls)
            for k, un in zip(R.comps, UNITS[a]):
                x = getattr(v, k)
                c.true(f"unit of {k}", x.unit == apyu.Unit(f[k][1]))
                c.eq(k, val(x, un), inp[k])
        return Harness("C25", f"{a} from astropy {how} {lu},{au} {sh}", fn, ins)

    SHAPES = ((), (2,))
    for a in REPCLS:
        for lu, au in (("km", "rad"), ("m", "deg"), ("mixed", "mixed")):
            for sh in SHAPES:
                for target in (REPCLS[a], "BaseRepresentation"):
                    hs.append(to_apy(a, lu, au, target, sh))
                for how in ("from_", "abstract", "convert"):
                    hs.append(from_apy(a, lu, au, how, sh))

    def vunits(a, lu, au):
        out = []
        seen = [0, 0]
        for k in DC[a]:
            ang = any(x in k for x in ("phi", "theta", "lon", "lat"))
            out.append(("rad" if ang else "km", unit_set(lu, au, seen[ang])[ang]))
            seen[ang] += 1
        return out

    def vel_to(a, lu, au, tu, target, sh):
        def fn(c, **inp):
            un = vunits(a, lu, au)
            v = VC[a](**{k: u.Quantity(inp[k] * ({"km": LEN, "rad": ANG}[b][n] * SEC[tu]), f"{n} / {tu}") for k, (b, n) in zip(DC[a], un)})
            with stand_ins(tracing(inp)):
                w = convert(v, getattr(apyc, target))
            c.true("class", isinstance(w, getattr(apyc, DIFFCLS[a])))
            for k, (b, n) in zip(DC[a], un):
                c.true(f"unit of {k}", getattr(w, k).unit == apyu.Unit(f"{n} / {tu}"))
                c.eq(k, av(getattr(w, k), f"{b} / s"), inp[k])
        return Harness("C25", f"{a} velocity to {target} {lu},{au},{tu} {sh}", fn, {k: Real(shape=sh) for k in DC[a]})

    def vel_from(a, lu, au, tu, how, sh):
        def fn(c, **inp):
            un = vunits(a, lu, au)
            with stand_ins(tracing(inp)) as (A, U):
                r = getattr(A, DIFFCLS[a])(**{k: aq(inp[k] * ({"km": LEN, "rad": ANG}[b][n] * SEC[tu]), f"{n} / {tu}", U) for k, (b, n) in zip(DC[a], un)})
                v = VC[a].from_(r) if how == "from_" else cxv.AbstractVel3D.from_(r) if how == "abstract" else convert(r, VC[a])
            c.true("class", type(v) is VC[a])
            for k, (b, n) in zip(DC[a], un):
                c.true(f"unit of {k}", getattr(v, k).unit == apyu.Unit(f"{n} / {tu}"))
                c.eq(k, val(getattr(v, k), f"{b} / s"), inp[k])
        return Harness("C25", f"{a} velocity from astropy {how} {lu},{au},{tu} {sh}", fn, {k: Real(shape=sh) for k in DC[a]})

    for a in DIFFCLS:
        for lu, au, tu in (("km", "rad", "s"), ("m", "deg", "h"), ("mixed", "mixed", "s")):
            for sh in SHAPES:
                for target in (DIFFCLS[a], "BaseDifferential"):
                    hs.append(vel_to(a, lu, au, tu, target, sh))
                for how in ("from_", "abstract", "convert"):
                    hs.append(vel_from(a, lu, au, tu, how, sh))

    # quantities
    def to_q(a, sh):
        R = R3[a]

        def fn(c, **inp):
            v = R.build(**inp)
            with stand_ins(tracing(inp)):
                w = convert(v, apyu.Quantity)
            c.true("class", isinstance(w, apyu.Quantity))
            c.eq("cartesian", av(w, "km"), R.point(**inp))
        return Harness("C25", f"{a} to quantity {sh}", fn, {k: type(s)(**{**s.__dict__, "shape": sh if k != "Delta" else ()}) for k, s in R.inputs.items()}, assume=R.assume)

    for a in R3:
        for sh in SHAPES if a != "prol" else ((),):
            hs.append(to_q(a, sh))

    def diff_to_q(order, lu):
        cls = (cxv.CartesianVel3D, cxv.CartesianAcc3D)[order - 1]

        def fn(c, **inp):
            v = build_vel("cart", inp, lu=lu, order=order)
            with stand_ins(tracing(inp)):
                w = convert(v, apyu.Quantity)
            c.eq("components", av(w, "km / s" + ("" if order == 1 else "2")), jnp.stack([inp["d_" + k] for k in "xyz"], -1))
        return Harness("C25", f"{cls.__name__} to quantity {lu}", fn, diff_inputs("cart"))

    def from_q(cls, un, lu, k, sh):
        def fn(c, q):
            with stand_ins(tracing(dict(q=q))) as (_, U):
                v = cls.from_(aq(q * LEN[lu], un.replace("km", lu), U))
            c.eq("components", jnp.stack([val(getattr(v, n), un) for n in v.components], -1), q)
        return Harness("C25", f"{cls.__name__} from quantity {lu} {sh}", fn, dict(q=Real(shape=(*sh, k))))

    def from_map(cls, un, k):
        def fn(c, q):
            names = tuple(cls.components)
            with stand_ins(tracing(dict(q=q))) as (_, U):
                v = cls.from_({n: aq(q[i] * LEN[lu], un.replace("km", lu), U) for i, (n, lu) in enumerate(zip(names, ("km", "m", "km")))})
            c.eq("components", jnp.stack([val(getattr(v, n), un) for n in names], -1), q)
        return Harness("C25", f"{cls.__name__} from mapping", fn, dict(q=Real(shape=(k,))))

    for lu in LEN:
        for order in (1, 2):
            hs.append(diff_to_q(order, lu))
        for cls, un, k in ((cxv.CartesianPos3D, "km", 3), (cxv.CartesianPos2D, "km", 2), (cxv.CartesianPos1D, "km", 1),
                           (cxv.CartesianVel3D, "km / s", 3), (cxv.CartesianVel2D, "km / s", 2), (cxv.CartesianAcc3D, "km / s2", 3)):
            for sh in SHAPES:
                hs.append(from_q(cls, un, lu, k, sh))
            if lu == "km":
                hs.append(from_map(cls, un, k))

    # distances
    import coordinax.distance as cd

    def dist(cls, un, spec, f):
        def fn(c, d):
            with stand_ins(tracing(dict(d=d))) as (_, U):
                w = convert(aq(d * f, un, U), cls)
            c.true("class", type(w) is cls)
            c.true("unit", w.unit == apyu.Unit(un))
            c.eq("value", w.value, d * f)
        return Harness("C25", f"{cls.__name__} from quantity {un}", fn, dict(d=spec))
    hs += [dist(cd.Distance, "km", NonNeg(), 1.0), dist(cd.Distance, "m", NonNeg(), 1000.0),
           dist(cd.Parallax, "mas", Pos(hi=1000), 1.0), dist(cd.Parallax, "rad", Pos(hi=1), 1.0), dist(cd.DistanceModulus, "mag", Real(), 1.0)]

    # there and back
    def trip(a, how):
        R = R3[a]

        def fn(c, **inp):
            v = R.build(**inp, lu="m", au="deg")
            with stand_ins(tracing(inp)):
                w = convert(convert(v, getattr(apyc, REPCLS[a])), R.cls)
            for k, un in zip(R.comps, UNITS[a]):
                c.eq(k, val(getattr(w, k), un), inp[k])
        return Harness("C25", f"{a} and back", fn, R.inputs)
    hs += [trip(a, None) for a in REPCLS]

    # frames
    def frame(lu, au, tu, ra_unit, how):
        def fn(c, lon, lat, d, roll, z, vx, vy, vz):
            import coordinax.frames as cf
            inp = dict(lon=lon, lat=lat, d=d, roll=roll, z=z, vx=vx, vy=vy, vz=vz)
            with stand_ins(tracing(inp)) as (A, U):
                V = [aq(v * LEN[k] * SEC[tu], f"{k} / {tu}", U) for v, k in zip((vx, vy, vz), ("km", lu, "m"))]
                dv = A.CartesianDifferential(*V)
                par = dict(galcen_distance=aq(d * LEN[lu], lu, U), roll=aq(roll * ANG[au], au, U), z_sun=aq(z * 1000.0, "m", U), galcen_v_sun=dv)
                ra, dec = aq(lon * ANG[ra_unit], ra_unit, U), aq(lat * ANG[au], au, U)
                if U is apyu:
                    F = apyc.Galactocentric(galcen_coord=apyc.ICRS(ra=ra, dec=dec), **par)
                else:
                    F = FakeFrame(galcen_coord=types.SimpleNamespace(ra=ra, dec=dec), **par)
                G = cf.AbstractReferenceFrame.from_(F) if how == "abstract" else cf.Galactocentric.from_(F)
            c.true("class", type(G) is cf.Galactocentric)
            for nm, x, un, want in (("galcen lon", G.galcen.lon, "rad", lon), ("galcen lat", G.galcen.lat, "rad", lat), ("galcen distance", G.galcen.distance, "km", d),
                                    ("roll", G.roll, "rad", roll), ("z_sun", G.z_sun, "km", z), ("v x", G.galcen_v_sun.d_x, "km / s", vx),
                                    ("v y", G.galcen_v_sun.d_y, "km / s", vy), ("v z", G.galcen_v_sun.d_z, "km / s", vz)):
                c.eq(nm, val(x, un), want)
        return Harness("C25", f"Galactocentric frame {how} {lu},{au},{tu},{ra_unit}", fn,
                       dict(lon=Ang(**TWO), lat=R3["ll"].inputs["lat"], d=Pos(), roll=Real(lo=-3, hi=3), z=Real(), vx=Real(), vy=Real(), vz=Real()))
    for how in ("from_",):
        hs += [frame("km", "rad", "s", "deg", how), frame("m", "deg", "h", "rad", how), frame("km", "deg", "s", "deg", how)]
    return hs
