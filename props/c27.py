"""C27: normalize_vector yields the unit vector along its argument."""
from .common import *  # noqa: F403


def harnesses(tier):
    hs = []
    nv = cxv.normalize_vector

    def claims(c, nm, r, x, k=None):
        """r is a unit vector, a positive multiple of x."""
        c.eq(nm + " length", jnp.sum(r * r, -1), jnp.ones(x.shape[:-1]))
        n = x.shape[-1]
        for i in range(n):
            for j in range(i):
                c.eq(f"{nm} direction {j}{i}", r[..., i] * x[..., j], r[..., j] * x[..., i])
        c.lt(nm + " sense", jnp.zeros(x.shape[:-1]), jnp.sum(r * x, -1))

    def nonzero(x):
        return list(jnp.ravel(jnp.sum(x * x, -1) > 0))

    for shape in ((3,), (1,), (2,), (4,), (2, 3), (2, 2), (2, 1, 2)):
        def arr(c, x, shape=shape):
            r = nv(x)
            c.true("array shape", r.shape == x.shape)
            claims(c, "array", r, x)
            q_ = nv(u.Quantity(x, "km"))
            claims(c, "quantity", val(q_, ""), x)
            if tier != "quick" or len(shape) == 1:
                claims(c, "scaled array", nv(x * 1000.0), x)
                claims(c, "other units", val(nv(u.Quantity(x * 1000.0, "m / s")), ""), x)
        hs.append(Harness("C27", f"array {shape}", arr, dict(x=Real(shape=shape)), assume=nonzero))

    def scale(c, x, k):
        c.eq("scale", nv(k * x), nv(x))
        c.eq("opposite", nv(-k * x), -nv(x))
    hs.append(Harness("C27", "scale", scale, dict(x=Real(shape=(3,)), k=Pos()), assume=lambda x, k: nonzero(x)))

    for shape in ((), (2,)):
        for un in (("km", "km", "km"), ("m", "km", "cm")):
            F = {"km": 1.0, "m": 1000.0, "cm": 100000.0}

            def vec(c, x, y, z, un=un):
                v = cxv.CartesianPos3D(**{k: u.Quantity(a * F[n], n) for k, a, n in zip("xyz", (x, y, z), un)})
                r = nv(v)
                c.true("class", type(r) is cxv.CartesianGeneric3D)
                claims(c, "vector", jnp.stack([val(r.x, ""), val(r.y, ""), val(r.z, "")], -1), jnp.stack([x, y, z], -1))
            hs.append(Harness("C27", f"vector {shape} {un[0]}", vec, {k: Real(shape=shape) for k in "xyz"},
                              assume=lambda x, y, z: nonzero(jnp.stack([x, y, z], -1))))
    return hs
