"""Symbolic operators for C13-C17: builders, and what each does to (point km, time s) written in plain jnp."""
from .common import *  # noqa: F403

O = cx.ops
CKMS = 299792.458


def kms(x, unit="km/s"):
    return u.Quantity(x if unit == "km/s" else x * 1000.0, unit)


def quat(qw, qx, qy, qz):
    """Every proper rotation matrix (Euler-Rodrigues, quaternion of any non-zero length)."""
    n = qw * qw + qx * qx + qy * qy + qz * qz
    w, x, y, z = qw, qx, qy, qz
    M = [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
         [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
         [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]
    return jnp.stack([jnp.stack([e / n for e in row]) for row in M])


def nonzero(qw, qx, qy, qz):
    return [qw * qw + qx * qx + qy * qy + qz * qz > 0]


def by_group(n):
    """Input groups: the argument (a_), the parameters of each operator (d0_, d1_, ...)."""
    i = n.find("_")
    g = n[:i + 1]
    return g if g in ("a_", "d0_", "d1_", "d2_", "d3_") else None


class Op:
    """inputs, build(**params), act(P, t, **params) -> (P', t'); needs_time: only defined for events."""

    def __init__(self, name, inputs, build, act, needs_time=False, assume=None, inv=None, dims=(3,)):
        self.name, self.inputs, self.build, self.act = name, inputs, build, act
        self.needs_time, self.assume, self.dims = needs_time, assume, dims

    def ins(self, pre):
        return {pre + k: v for k, v in self.inputs.items()}

    def sub(self, pre, inp):
        return {k: inp[pre + k] for k in self.inputs}

    def asm(self, pre):
        if self.assume is None:
            return None
        return lambda **kw: self.assume(**{k: kw[pre + k] for k in self.inputs})


XYZ = dict(x=Real(), y=Real(), z=Real())
Q4 = dict(qw=Real(), qx=Real(), qy=Real(), qz=Real())


def _vec(x, y, z):
    return jnp.stack([x, y, z], -1)


def _st_cart(x, y, z):
    return O.GalileanSpatialTranslation(cxv.CartesianPos3D(x=ql(x), y=ql(y, "m"), z=ql(z)))


def _four(t, x, y, z, c=None):
    kw = {} if c is None else {"c": u.Quantity(c, "km/s")}
    return cxv.FourVector(t=u.Quantity(t, "s"), q=cxv.CartesianPos3D(x=ql(x), y=ql(y), z=ql(z, "m")), **kw)


def _boost(x, y, z):
    return O.GalileanBoost(cxv.CartesianVel3D(d_x=kms(x), d_y=kms(y, "m/s"), d_z=kms(z)))


def _vboost(x, y, z):
    return O.VelocityBoost(cxv.CartesianVel3D(d_x=kms(x), d_y=kms(y, "m/s"), d_z=kms(z)))


def _galop(t, x, y, z, vx, vy, vz, **q):
    return O.GalileanOperator(rotation=O.GalileanRotation(quat(**q)), translation=_four(t, x, y, z), velocity=_boost(vx, vy, vz))


def _rot(M, P):
    return jnp.stack([sum(M[i, j] * P[..., j] for j in range(3)) for i in range(3)], -1)


def _galop_act(P, time, *, t, x, y, z, vx, vy, vz, **kw):
    t1 = time + t
    return _rot(quat(**kw), P) + _vec(x, y, z) + _vec(vx, vy, vz) * t1, t1


def _T_act(P, time, *, t, x, y, z):
    return P + _vec(x, y, z), time + t


OPS = {
    "translation": Op("translation", XYZ, _st_cart, lambda P, time, x, y, z: (P + _vec(x, y, z), time)),
    "spacetime-translation": Op("spacetime-translation", dict(t=Real(), **XYZ), lambda t, x, y, z: O.GalileanTranslation(_four(t, x, y, z)),
                                lambda P, time, **kw: _T_act(P, time, **kw), needs_time=True),
    "rotation": Op("rotation", Q4, lambda **q: O.GalileanRotation(quat(**q)), lambda P, t, **q: (_rot(quat(**q), P), t), assume=nonzero),
    "reflection": Op("reflection", Q4, lambda **q: O.GalileanRotation(-quat(**q)), lambda P, t, **q: (-_rot(quat(**q), P), t), assume=nonzero),
    "boost": Op("boost", XYZ, _boost, lambda P, time, x, y, z: (P + _vec(x, y, z) * time, time), needs_time=True),
    "velocity-boost": Op("velocity-boost", XYZ, _vboost, lambda P, time, x, y, z: (P, time)),
    "galilean": Op("galilean", dict(t=Real(), **XYZ, vx=Real(), vy=Real(), vz=Real(), **Q4), _galop, lambda P, time, **kw: _galop_act(P, time, **kw),
                   needs_time=True, assume=lambda qw, qx, qy, qz, **_: nonzero(qw, qx, qy, qz)),
    "identity": Op("identity", {}, lambda: O.Identity(), lambda P, t: (P, t)),
}


def rot_axis(axis, ang):
    s_, c_, o, z = jnp.sin(ang), jnp.cos(ang), jnp.ones(()), jnp.zeros(())
    rows = {"x": [[o, z, z], [z, c_, -s_], [z, s_, c_]], "y": [[c_, z, s_], [z, o, z], [-s_, z, c_]], "z": [[c_, -s_, z], [s_, c_, z], [z, z, o]]}[axis]
    return jnp.stack([jnp.stack(r) for r in rows])


for _ax in "xyz":
    OPS[f"rotation-{_ax}"] = Op(f"rotation-{_ax}", dict(ang=Ang(0, 2, hi_open=True)), lambda ang, _ax=_ax: O.GalileanRotation(rot_axis(_ax, ang)),
                                lambda P, t, ang, _ax=_ax: (_rot(rot_axis(_ax, ang), P), t))
for _n in ("sph", "cyl", "ll"):
    _R = R3[_n]
    OPS[f"translation-{_n}"] = Op(f"translation-{_n}", _R.inputs, lambda _R=_R, **kw: O.GalileanSpatialTranslation(_R.build(**kw)),
                                  lambda P, t, _R=_R, **kw: (P + _R.point(**kw), t))


def pos_args(A, inp, pre="a_"):
    return {k: inp[pre + k] for k in A.inputs}


def arg_asm(A, pre="a_"):
    if A.assume is None:
        return None
    return lambda **kw: A.assume(**{k: kw[pre + k] for k in A.inputs})


def arg_ins(A, pre="a_"):
    return {pre + k: v for k, v in A.inputs.items()}


class Form:
    """A way of passing an event to an operator: make(A, inp) -> args tuple; read(result) -> (point, time or None)."""

    def __init__(self, name, time, make, read, reps=None):
        self.name, self.time, self.make, self.read, self.reps = name, time, make, read, reps


def _tq(inp):
    return u.Quantity(inp["t_ime"], "s")


def _qc(A, inp):
    return u.Quantity(A.point(**pos_args(A, inp)), "km")


def _first(r):
    return r[0] if isinstance(r, tuple) else r


FORMS = {
    "pos": Form("pos", False, lambda A, inp: (A.build(**pos_args(A, inp)),), lambda a, r: (point(a, r), None)),
    "pos,t": Form("pos,t", True, lambda A, inp: (A.build(**pos_args(A, inp)), _tq(inp)), lambda a, r: (point(a, r[0]), val(r[1], "s"))),
    "quantity": Form("quantity", False, lambda A, inp: (_qc(A, inp),), lambda a, r: (val(r, "km"), None), reps=("cart",)),
    "quantity,t": Form("quantity,t", True, lambda A, inp: (_qc(A, inp), _tq(inp)), lambda a, r: (val(r[0], "km"), val(r[1], "s")), reps=("cart",)),
    "four": Form("four", True, lambda A, inp: (cxv.FourVector(t=_tq(inp), q=A.build(**pos_args(A, inp)), c=u.Quantity(inp["a_c"], "km/s")),),
                 lambda a, r: (point(a, r.q), val(r.t, "s"))),
    "quantity4": Form("quantity4", True, lambda A, inp: (u.Quantity(jnp.concatenate([inp["t_ime"][..., None] * CKMS, A.point(**pos_args(A, inp))], -1), "km"),),
                      lambda a, r: (val(r, "km")[..., 1:], val(r, "km")[..., 0] / CKMS), reps=("cart",)),
}


def form_ins(f):
    out = {}
    if FORMS[f].time:
        out["t_ime"] = Real()
    if f == "four":
        out["a_c"] = Pos()
    return out


def as_args(r):
    return r if isinstance(r, tuple) else (r,)
