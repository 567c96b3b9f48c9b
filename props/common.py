"""Shared builders: vectors of every representation from symbolic inputs, and oracles in plain jnp."""
from __future__ import annotations

import jax
import jax.numpy as jnp
import unxt as u

import coordinax as cx
import coordinax.vecs as cxv
from vsym.harness import Ang, Harness, NonNeg, Pos, Real  # noqa: F401

PI = jnp.pi

LEN = {"km": 1.0, "m": 1000.0}
ANG = {"rad": 1.0, "deg": 180.0 / float(jnp.pi)}


def q(v, unit):
    return u.Quantity(v, unit)


def val(x, unit):
    """Component -> array in the given unit (Distance, Angle, Quantity)."""
    return u.uconvert(unit, x).value


def ql(v, lu="km"):
    return u.Quantity(v * LEN[lu], lu)


def qa(v, au="rad"):
    return u.Quantity(v * ANG[au], au)


# ---------------------------------------------------------------- positions
class Rep:
    """A position representation: symbolic inputs, constructor, point oracle."""

    def __init__(self, name, cls, inputs, build, comps, point, assume=None, offaxis=None, vel=None, acc=None):
        self.name, self.cls, self.inputs, self.build = name, cls, inputs, build
        self.comps, self.point, self.assume = comps, point, assume
        self.offaxis = offaxis      # kw -> list of conditions making the point regular
        self.vel, self.acc = vel, acc


TWO = dict(lo=0, hi=2, hi_open=True)


def sph_point(r, polar, az):
    return jnp.stack([r * jnp.sin(polar) * jnp.cos(az), r * jnp.sin(polar) * jnp.sin(az), r * jnp.cos(polar)], -1)


def lonlat_point(d, lon, lat):
    return jnp.stack([d * jnp.cos(lat) * jnp.cos(lon), d * jnp.cos(lat) * jnp.sin(lon), d * jnp.sin(lat)], -1)


def cyl_point(rho, phi, z):
    return jnp.stack([rho * jnp.cos(phi), rho * jnp.sin(phi), z + 0 * rho], -1)


def prolate_point(mu, nu, phi, Delta):
    """R^2 = (mu-D2)(1-|nu|/D2), z^2 = mu|nu|/D2, sign z = sign nu."""
    D2 = Delta**2
    R = jnp.sqrt((mu - D2) * (1 - jnp.abs(nu) / D2))
    z = jnp.sqrt(mu * jnp.abs(nu) / D2) * jnp.sign(nu)
    return jnp.stack([R * jnp.cos(phi), R * jnp.sin(phi), z], -1)


def _cart(x, y, z, lu="km", au="rad"):
    return cxv.CartesianPos3D(x=ql(x, lu), y=ql(y, lu), z=ql(z, lu))


def _cyl(rho, phi, z, lu="km", au="rad"):
    return cxv.CylindricalPos(rho=ql(rho, lu), phi=qa(phi, au), z=ql(z, lu))


def _sph(r, theta, phi, lu="km", au="rad"):
    return cxv.SphericalPos(r=ql(r, lu), theta=qa(theta, au), phi=qa(phi, au))


def _msph(r, theta, phi, lu="km", au="rad"):
    return cxv.MathSphericalPos(r=ql(r, lu), theta=qa(theta, au), phi=qa(phi, au))


def _ll(lon, lat, distance, lu="km", au="rad"):
    return cxv.LonLatSphericalPos(lon=qa(lon, au), lat=qa(lat, au), distance=ql(distance, lu))


def _prol(mu, nu, phi, Delta, lu="km", au="rad"):
    k = LEN[lu]
    return cxv.ProlateSpheroidalPos(mu=u.Quantity(mu * k * k, f"{lu}2"), nu=u.Quantity(nu * k * k, f"{lu}2"),
                                    phi=qa(phi, au), Delta=ql(Delta, lu))


R3 = {
    "cart": Rep("cart", cxv.CartesianPos3D, dict(x=Real(), y=Real(), z=Real()), _cart, ("x", "y", "z"),
                lambda x, y, z: jnp.stack([x, y, z], -1),
                offaxis=lambda x, y, z: [x**2 + y**2 > 0]),
    "cyl": Rep("cyl", cxv.CylindricalPos, dict(rho=NonNeg(), phi=Ang(**TWO), z=Real()), _cyl, ("rho", "phi", "z"),
               cyl_point, offaxis=lambda rho, phi, z: [rho > 0]),
    "sph": Rep("sph", cxv.SphericalPos, dict(r=NonNeg(), theta=Ang(0, 1), phi=Ang(**TWO)), _sph, ("r", "theta", "phi"),
               lambda r, theta, phi: sph_point(r, theta, phi),
               offaxis=lambda r, theta, phi: [r > 0, jnp.sin(theta) > 0]),
    "msph": Rep("msph", cxv.MathSphericalPos, dict(r=NonNeg(), theta=Ang(**TWO), phi=Ang(0, 1)), _msph, ("r", "theta", "phi"),
                lambda r, theta, phi: sph_point(r, phi, theta),
                offaxis=lambda r, theta, phi: [r > 0, jnp.sin(phi) > 0]),
    "ll": Rep("ll", cxv.LonLatSphericalPos, dict(lon=Ang(**TWO), lat=Ang("-1/2", "1/2"), distance=NonNeg()), _ll,
              ("lon", "lat", "distance"), lambda lon, lat, distance: lonlat_point(distance, lon, lat),
              offaxis=lambda lon, lat, distance: [distance > 0, jnp.cos(lat) > 0]),
    "prol": Rep("prol", cxv.ProlateSpheroidalPos, dict(mu=Real(), nu=Real(), phi=Ang(**TWO), Delta=Pos()), _prol,
                ("mu", "nu", "phi", "Delta"), prolate_point,
                assume=lambda mu, nu, phi, Delta: [mu >= Delta**2, nu <= Delta**2, nu >= -(Delta**2)],
                offaxis=lambda mu, nu, phi, Delta: [mu > Delta**2, nu < Delta**2, nu > -(Delta**2)]),
}
from fractions import Fraction as _F  # noqa: E402

for _r in R3.values():
    for _s in _r.inputs.values():
        if isinstance(_s, Ang):
            _s.lo = None if _s.lo is None else _F(_s.lo)
            _s.hi = None if _s.hi is None else _F(_s.hi)

UNIT3 = {
    "cart": ("km", "km", "km"), "cyl": ("km", "rad", "km"), "sph": ("km", "rad", "rad"), "msph": ("km", "rad", "rad"),
    "ll": ("rad", "rad", "km"), "prol": ("km2", "km2", "rad", "km"),
}


def comps3(name, vec):
    """Component arrays (km, rad) of a 3D position vector."""
    return [val(getattr(vec, c), un) for c, un in zip(R3[name].comps, UNIT3[name])]


def point3(name, vec):
    """Cartesian point (km) of a vector, computed by the oracle from its components."""
    return R3[name].point(*comps3(name, vec))


def conj(*fs):
    fs = [f for f in fs if f is not None]
    if not fs:
        return None

    def g(**kw):
        import inspect
        out = []
        for f in fs:
            names = inspect.signature(f).parameters
            if any(p.kind == p.VAR_KEYWORD for p in names.values()):
                out += f(**kw)
            else:
                out += f(**{k: v for k, v in kw.items() if k in names})
        return out
    return g


# ---------------------------------------------------------------- 1D / 2D
R1 = {
    "cart1": Rep("cart1", cxv.CartesianPos1D, dict(x=Real()), lambda x, lu="km", au="rad": cxv.CartesianPos1D(x=ql(x, lu)), ("x",),
                 lambda x: jnp.stack([x], -1)),
    "rad1": Rep("rad1", cxv.RadialPos, dict(r=NonNeg()), lambda r, lu="km", au="rad": cxv.RadialPos(r=ql(r, lu)), ("r",),
                lambda r: jnp.stack([r], -1)),
}
R2 = {
    "cart2": Rep("cart2", cxv.CartesianPos2D, dict(x=Real(), y=Real()),
                 lambda x, y, lu="km", au="rad": cxv.CartesianPos2D(x=ql(x, lu), y=ql(y, lu)), ("x", "y"),
                 lambda x, y: jnp.stack([x, y], -1), offaxis=lambda x, y: [x**2 + y**2 > 0]),
    "polar": Rep("polar", cxv.PolarPos, dict(r=NonNeg(), phi=Ang(0, 2, hi_open=True)),
                 lambda r, phi, lu="km", au="rad": cxv.PolarPos(r=ql(r, lu), phi=qa(phi, au)), ("r", "phi"),
                 lambda r, phi: jnp.stack([r * jnp.cos(phi), r * jnp.sin(phi)], -1), offaxis=lambda r, phi: [r > 0]),
}
UNITS = dict(UNIT3, cart1=("km",), rad1=("km",), cart2=("km", "km"), polar=("km", "rad"))
REPS = {**R1, **R2, **R3}

VELCLS = {
    "cart1": cxv.CartesianVel1D, "rad1": cxv.RadialVel, "cart2": cxv.CartesianVel2D, "polar": cxv.PolarVel,
    "cart": cxv.CartesianVel3D, "cyl": cxv.CylindricalVel, "sph": cxv.SphericalVel, "msph": cxv.MathSphericalVel,
    "ll": cxv.LonLatSphericalVel, "prol": cxv.ProlateSpheroidalVel,
}
ACCCLS = {
    "cart1": cxv.CartesianAcc1D, "rad1": cxv.RadialAcc, "cart2": cxv.CartesianAcc2D, "polar": cxv.PolarAcc,
    "cart": cxv.CartesianAcc3D, "cyl": cxv.CylindricalAcc, "sph": cxv.SphericalAcc, "msph": cxv.MathSphericalAcc,
    "ll": cxv.LonLatSphericalAcc, "prol": cxv.ProlateSpheroidalAcc,
}
DIFFC = {k: tuple(c for c in R.comps if c != "Delta") for k, R in REPS.items()}   # components with derivatives
DUN = {k: tuple(x for x, c in zip(UNITS[k], R.comps) if c != "Delta") for k, R in REPS.items()}
SEC = {"s": 1, "h": 3600}


def comps(name, vec):
    return [val(getattr(vec, c), un) for c, un in zip(REPS[name].comps, UNITS[name])]


def point(name, vec):
    return REPS[name].point(*comps(name, vec))


def _fac(unit, lu, au):
    """(factor, unit name): 1 `unit` expressed with length unit lu / angle unit au."""
    if unit == "km":
        return LEN[lu], lu
    if unit == "km2":
        return LEN[lu] ** 2, f"({lu})2" if " " in lu else f"{lu}2"
    return ANG[au], au


def diff_inputs(name, pre="d_"):
    return {pre + c: Real() for c in DIFFC[name]}


def build_vel(name, inp, lu="km", au="rad", tu="s", pre="d_", order=1, cls=None):
    """Velocity (order 1) or acceleration (order 2) from values per (km, rad, s)."""
    cls = cls or (VELCLS if order == 1 else ACCCLS)[name]
    out = {}
    for c, un in zip(DIFFC[name], DUN[name]):
        f, nm = _fac(un, lu, au)
        f = f * SEC[tu] ** order
        out[("d_" if order == 1 else "d2_") + c] = u.Quantity(inp[pre + c] * f if f != 1.0 else inp[pre + c],
                                                              f"{nm} / {tu}" + ("" if order == 1 else "2"))
    return cls(**out)


def dcomps(name, vec, order=1):
    return [val(getattr(vec, ("d_" if order == 1 else "d2_") + c), f"{un} / s" + ("" if order == 1 else "2"))
            for c, un in zip(DIFFC[name], DUN[name])]


def phys_vel(name, pc, dc):
    """Cartesian velocity (km/s) of a moving point, by differentiating the oracle."""
    P = REPS[name].point
    k = len(dc)
    rest = pc[k:]
    return jax.jvp(lambda *c: P(*c, *rest), tuple(pc[:k]), tuple(dc))[1]


def phys_acc(name, pc, dc, ac):
    """Cartesian acceleration (km/s2): second derivative of the oracle along the motion."""
    P = REPS[name].point
    k = len(dc)
    rest = pc[k:]

    def f(*c):
        return P(*c, *rest)

    def g(*cv):
        return jax.jvp(f, cv[:k], cv[k:])[1]
    return jax.jvp(g, (*pc[:k], *dc), (*dc, *ac))[1]


def pick(inp, *keys):
    return {k: inp[k] for k in keys}


def rel(c, name, a, b, tol=1e-9):
    """a equals b up to a relative error (for unit factors which have no exact reciprocal)."""
    a, b = (x.value if hasattr(x, "unit") else x for x in (a, b))
    c.le(name, (a - b) ** 2, tol**2 * b**2)


def batched(h, scalar=("Delta", "Dnew"), tiers=None, shape=(1,)):
    """The same harness with every input an array (of one element by default): code may treat arrays differently."""
    import copy
    g = copy.copy(h)
    g.name = h.name + "_[" + ",".join(map(str, shape)) + "]"
    g.inputs = {k: x if k in scalar else type(x)(**{**x.__dict__, "shape": (*shape, *(x.shape or ()))}) for k, x in h.inputs.items()}
    g.tiers = tiers or h.tiers
    return g


def with_batched(hs, skip=lambda name: False, scalar=("Delta", "Dnew"), **kw):
    return [*hs, *(batched(h, scalar, **kw) for h in hs if not skip(h.name))]


def same_tree(c, nm, x, y):
    """x and y are the same object, or equal in class, units, shapes and values."""
    if x is y:
        c.true(nm, True)
        return
    (lx, tx), (ly, ty) = (jax.tree_util.tree_flatten(o) for o in (x, y))
    c.true(nm + " structure", tx == ty and [jnp.shape(a) for a in lx] == [jnp.shape(b) for b in ly])
    for i, (a, b) in enumerate(zip(lx, ly)):
        if a is not b:
            c.eq(f"{nm} {i}", a, b)
