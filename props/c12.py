"""C12: shape operations act on the batch, identically on every component."""
import itertools
from fractions import Fraction as F

import jax
import numpy as np
import quaxed.lax as qlax
import quaxed.numpy as qnp

from .common import *  # noqa: F403

# component shapes -> common batch shape
SHAPES_Q = [((), (), ()), ((3,), (3,), (3,)), ((2, 3), (3,), ()), ((2, 1), (1, 3), (2, 3)), ((2, 1, 2), (3, 1), ())]
SHAPES_T = SHAPES_Q + [((1,), (4,), ()), ((), (2, 2), (2,)), ((3, 1, 1), (1, 2, 1), (1, 1, 2)), ((2, 3, 2), (2, 3, 2), (2, 3, 2)), ((1, 1), (), (1, 3))]


def idx_for(nd, shp):
    out = []
    if nd >= 1:
        out += [0, -1, slice(1, None), slice(None, None, -1), Ellipsis, None, (Ellipsis, 0), (Ellipsis, slice(0, 1)),
                np.arange(shp[0])[::-1], np.arange(shp[0]) % 2 == 0]
    if nd >= 2:
        out += [(0, 1), (slice(None), 1), (slice(None), None, 0), (0, slice(1, None)), (np.array([0, 1]), np.array([1, 0]))]
    if nd >= 3:
        out += [(1, slice(None), 0), (Ellipsis, 1), (slice(None), -1)]
    return out


def reshapes(shp):
    n = int(np.prod(shp, dtype=int))
    out = [(n,), (1, n), (-1,)]
    if len(shp) > 1:
        out += [tuple(reversed(shp)), (shp[0], -1)]
    return out


def ops(shp, nd_reshape=True):
    """(name, vector op, array op) for a batch shape."""
    nd = len(shp)
    for k, ix in enumerate(idx_for(nd, shp)):
        yield f"[{k}]", (lambda v, ix=ix: v[ix]), (lambda a, ix=ix: a[ix])
    yield "pos", (lambda v: +v), None
    yield "flatten", (lambda v: v.flatten()), (lambda a: a.reshape(-1))
    yield "ravel", (lambda v: v.ravel()), (lambda a: a.reshape(-1))
    for r in reshapes(shp):
        yield f"reshape{r}", (lambda v, r=r: v.reshape(*r)), (lambda a, r=r: a.reshape(r))
        if nd >= 2:
            yield f"reshape{r} F", (lambda v, r=r: v.reshape(*r, order="F")), (lambda a, r=r: a.reshape(r, order="F"))
    yield "T", (lambda v: v.T), (lambda a: jnp.transpose(a))
    if nd >= 2:
        yield "mT", (lambda v: v.mT), (lambda a: jnp.swapaxes(a, -1, -2))


def claim_meta(c, nm, v, shp):
    c.true(f"{nm} shape", tuple(v.shape) == tuple(shp))
    c.true(f"{nm} ndim", v.ndim == len(shp))
    c.true(f"{nm} size", v.size == int(np.prod(shp, dtype=int)))
    c.true(f"{nm} len", len(v) == (shp[0] if shp else 0))


def claim_iter(c, nm, v, names, arrays, shp):
    """Iterating visits the entries of the first batch axis, once each; a vector without batch axes cannot be iterated."""
    if not shp:
        try:
            got = len(list(itertools.islice(iter(v), 3)))
        except TypeError:
            got = None
        c.true(f"{nm} iterating a scalar vector is refused", got is None)
        return
    items = list(itertools.islice(iter(v), shp[0] + 2))
    c.true(f"{nm} iteration length", len(items) == shp[0])
    for i, w in enumerate(items[:shp[0]]):
        c.true(f"{nm} item {i} class", type(w) is type(v) and tuple(w.shape) == tuple(shp[1:]))
        for k, a in zip(names, arrays):
            c.eq(f"{nm} item {i} {k}", getattr(w, k).value, a[i])


def claim_described(c, v, names, attrs=()):
    """The mappings which describe a vector: its components in order, each with its own unit, shape, size and value."""
    c.true("components", tuple(v.components) == tuple(names))
    get = {k: getattr(v, k) for k in names}
    c.true("units", dict(v.units) == {k: x.unit for k, x in get.items()} and list(v.units) == list(names))
    c.true("shapes", dict(v.shapes) == {k: jnp.shape(x.value) for k, x in get.items()})
    c.true("sizes", dict(v.sizes) == {k: int(np.prod(jnp.shape(x.value), dtype=int)) for k, x in get.items()})
    c.true("dtypes", dict(v.dtypes) == {k: x.value.dtype for k, x in get.items()})
    d = v.asdict()
    c.true("asdict keys", list(d) == [*names, *attrs])
    for k in (*names, *attrs):
        c.true(f"asdict {k} kind", type(d[k]) is type(getattr(v, k)) and d[k].unit == getattr(v, k).unit)
        c.eq(f"asdict {k}", d[k].value, getattr(v, k).value)


def claim_ops(c, make, comps_, shp, attrs, select=None):
    """make(): vector; comps_: {name: array}; every op against the same op on the broadcast arrays."""
    v = make()
    claim_meta(c, "v", v, shp)
    claim_described(c, v, tuple(comps_), attrs)
    full = {k: jnp.broadcast_to(a, shp) for k, a in comps_.items()}
    claim_iter(c, "v", v, tuple(full), tuple(full.values()), shp)
    for i, (nm, f, g) in enumerate(ops(shp)):
        if select is not None and i % 2 != select:
            continue
        w = f(v)
        c.true(f"{nm} class", type(w) is type(v))
        gg = g or (lambda a: a)
        for k in full:
            x, y = getattr(v, k), getattr(w, k)
            c.true(f"{nm} {k} kind", type(x) is type(y) and x.unit == y.unit)
            want = gg(full[k]) if g else comps_[k]
            c.eq(f"{nm} {k}", y.value, want)
        for k in attrs:
            c.true(f"{nm} {k} unit", getattr(w, k).unit == getattr(v, k).unit)
            c.eq(f"{nm} {k}", getattr(w, k).value, getattr(v, k).value)
        claim_meta(c, nm, w, gg(jnp.zeros(shp)).shape)


KINDS = {
    "cart": (R3["cart"], R3["cart"].build), "sph": (R3["sph"], R3["sph"].build), "ll": (R3["ll"], R3["ll"].build),
    "cyl": (R3["cyl"], R3["cyl"].build), "msph": (R3["msph"], R3["msph"].build), "prol": (R3["prol"], R3["prol"].build),
    "polar": (R2["polar"], R2["polar"].build), "cart2": (R2["cart2"], R2["cart2"].build),
    "cart1": (R1["cart1"], R1["cart1"].build), "rad1": (R1["rad1"], R1["rad1"].build),
}


def harnesses(tier):
    hs = []
    shapes = SHAPES_Q if tier == "quick" else SHAPES_T
    for si, shs in enumerate(shapes):
        for ki, (a, (A, build)) in enumerate(KINDS.items()):
            if tier == "quick" and a not in ("cart", "sph", "prol") and (si + ki) % 3:
                continue
            names = [k for k in A.comps if k != "Delta"]
            rot = shs[ki % 3:] + shs[:ki % 3]     # which component gets which shape varies with the kind
            ins = {}
            for k, s in zip(names, rot):
                i0 = A.inputs[k]
                ins[k] = Ang(i0.lo, i0.hi, i0.lo_open, i0.hi_open, shape=s) if isinstance(i0, Ang) else Real(i0.lo, i0.hi, i0.lo_open, i0.hi_open, shape=s)
            if a == "prol":
                ins["mu"], ins["nu"] = Real(lo=4, shape=ins["mu"].shape), Real(lo=F(1, 4), hi=1, shape=ins["nu"].shape)
                ins["Delta"] = Real(lo=1, hi=2)
            shp = tuple(np.broadcast_shapes(*[ins[k].shape for k in names]))

            def fn(c, a=a, A=A, build=build, names=names, shp=shp, **inp):
                v = build(**inp)
                claim_ops(c, lambda: v, {k: inp[k] for k in names}, shp, ("Delta",) if a == "prol" else ())
            hs.append(Harness("C12", f"pos {a} {si}", fn, ins))
        # velocities and accelerations
        for order, a in itertools.product((1, 2), ("cart", "sph", "polar", "rad1", "cyl", "ll", "msph", "prol", "cart2", "cart1")):
            if tier == "quick" and ((si + order) % 2 or a not in ("cart", "sph", "polar", "rad1") and (si // 2 + order + len(a)) % 3):
                continue
            dn = DIFFC[a]
            ins = {"d_" + k: Real(shape=s) for k, s in zip(dn, shs[::-1])}
            shp = tuple(np.broadcast_shapes(*[i.shape for i in ins.values()]))

            def fd(c, a=a, order=order, shp=shp, dn=dn, **inp):
                v = build_vel(a, inp, order=order)
                claim_ops(c, lambda: v, {("d_" if order == 1 else "d2_") + k: inp["d_" + k] for k in dn}, shp, ())
            hs.append(Harness("C12", f"{'vel' if order == 1 else 'acc'} {a} {si}", fd, ins))
    # N-dimensional vectors: the last axis of the array is the component axis
    for shp in ((), (3,), (2, 3), (2, 3, 2)) if tier == "quick" else ((), (3,), (2, 3), (2, 3, 2), (1, 4), (2, 1, 3)):
        def nd(c, p, shp=shp):
            for cls, k, un in ((cxv.CartesianPosND, "q", "km"), (cxv.CartesianVelND, "d_q", "km/s"), (cxv.CartesianAccND, "d2_q", "km/s2")):
                v = cls(u.Quantity(p, un))
                claim_meta(c, k, v, shp)
                claim_iter(c, k, v, (k,), (p,), shp)
                for i, (nm, f, g) in enumerate(ops(shp)):
                    w = f(v)
                    flatq = [p[..., j] for j in range(2)]
                    want = jnp.stack([(g or (lambda a: a))(x) for x in flatq], -1)
                    c.true(f"{nm} class", type(w) is cls)
                    c.eq(f"{k} {nm}", getattr(w, k).value, want)
                    claim_meta(c, f"{k} {nm}", w, want.shape[:-1])
        hs.append(Harness("C12", f"ND {len(shp)} {shp}", nd, dict(p=Real(shape=(*shp, 2)))))
    # spacetime vectors: time and space
    for ts, qs in (((), ()), ((3,), (3,)), ((3,), (2, 3)), ((), (2, 3))):
        def fv(c, t, x, y, cc, qs=qs):
            q = cxv.CartesianPos3D(x=ql(x), y=ql(y), z=ql(jnp.zeros(())))
            v = cxv.FourVector(t=u.Quantity(t, "s"), q=q, c=u.Quantity(cc, "km/s"))
            claim_meta(c, "v", v, qs)
            claim_iter(c, "v", v, ("t", "x", "y"), tuple(jnp.broadcast_to(a, qs) for a in (t, x, y)), qs)
            for nm, f, g in ops(qs):
                if g is None:
                    continue
                w = f(v)
                c.eq(f"{nm} t", val(w.t, "s"), g(jnp.broadcast_to(t, qs)))
                c.eq(f"{nm} x", val(w.q.x, "km"), g(jnp.broadcast_to(x, qs)))
                c.eq(f"{nm} y", val(w.q.y, "km"), g(jnp.broadcast_to(y, qs)))
                c.eq(f"{nm} c", val(w.c, "km/s"), cc)
                claim_meta(c, nm, w, g(jnp.zeros(qs)).shape)
        hs.append(Harness("C12", f"FourVector {len(ts)} {len(qs)}", fv, dict(t=Real(shape=ts), x=Real(shape=qs), y=Real(), cc=Pos())))
    # the functional form: the array has three components per vector, sizes count components
    def fun(c, x, y, z):
        v = cxv.CartesianPos3D(x=ql(x), y=ql(y), z=ql(z))
        for s0, *rest in ((6,), (3, 2), (1, 6)):
            w = qnp.reshape(v, (3 * s0, *rest))
            for k, a in zip("xyz", (x, y, z)):
                c.eq(f"reshape {s0} {rest} {k}", getattr(w, k).value, jnp.broadcast_to(a, (2, 3)).reshape((s0, *rest)))
    hs.append(Harness("C12", "functional reshape", fun, dict(x=Real(shape=(2, 3)), y=Real(shape=(2, 3)), z=Real(shape=(2, 3)))))
    # broadcasting in the functional form: the last axis is that of the components
    for a in ("cart", "sph", "prol", "vel", "acc"):
        order = {"vel": 1, "acc": 2}.get(a, 0)
        R = None if order else R3[a]
        names = [k for k in (R.comps if R else ("d_x", "d_y", "d_z")) if k != "Delta"]
        for shs in (((), (), ()), ((3,), (), (3,)), ((2, 3), (3,), ()), ((2, 2), (2, 1), (1, 2))):
            ins = {}
            for k, s in zip(names, shs):
                i0 = R.inputs[k] if R else Real()
                ins[k] = type(i0)(**{**i0.__dict__, "shape": s})
            if a == "prol":
                ins["mu"], ins["nu"], ins["Delta"] = Real(lo=4, shape=shs[0]), Real(lo=F(1, 4), hi=1, shape=shs[1]), Real(lo=1, hi=2)
            shp = tuple(np.broadcast_shapes(*shs))

            def bro(c, a=a, R=R, names=names, shp=shp, order=order, **inp):
                v = build_vel("cart", inp, order=order) if order else R.build(**inp)
                n = len(names)
                trials = [(f"broadcast_to {t}", qnp.broadcast_to(v, (*t, n)), lambda x, t=t: jnp.broadcast_to(x, t)) for t in (shp, (2, *shp), (3, 1, *shp))]
                for ax in range(len(shp) + 1):
                    trials.append((f"expand_dims {ax}", qnp.expand_dims(v, ax), lambda x, ax=ax: jnp.expand_dims(x, ax)))
                    t = (*shp[:ax], 4, *shp[ax:])
                    dims = tuple(i for i in range(len(t)) if i != ax)
                    trials.append((f"broadcast_in_dim {t} {dims}", qlax.broadcast_in_dim(v, (*t, n), (*dims, len(t))),
                                   lambda x, t=t, dims=dims: jax.lax.broadcast_in_dim(x, t, dims)))
                for nm, w, g in trials:
                    c.true(f"{nm} class", type(w) is type(v))
                    for k in names:
                        k_ = k.replace("d_", "d2_") if order == 2 else k
                        x = getattr(w, k_)
                        c.true(f"{nm} {k} unit", x.unit == getattr(v, k_).unit)
                        y = x.value if nm != f"broadcast_to {shp}" else jnp.broadcast_to(x.value, shp)   # a no-op keeps the vector as it is
                        c.eq(f"{nm} {k}", y, g(jnp.broadcast_to(inp[k], shp)))
                    if a == "prol":
                        c.eq(f"{nm} Delta", w.Delta.value, inp["Delta"])
                    claim_meta(c, nm, w, g(jnp.zeros(shp)).shape)
            hs.append(Harness("C12", f"functional broadcast {a} {shs}", bro, ins))
    return hs
