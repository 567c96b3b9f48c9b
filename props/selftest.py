"""Self-test of the encoder (not a property): `./check selftest`-style runs of claims about jax's own functions.

Every harness whose name starts with "true" has to be discharged, every one with "false" has to be refuted."""
import jax
import jax.numpy as jnp

from vsym.harness import Harness, Pos, Real


def harnesses(tier):
    hs = []

    def add(name, fn, **ins):
        hs.append(Harness("selftest", name, fn, ins))

    R = Real
    add("true sort", lambda c, a, b, d: c.le("o", jnp.sort(jnp.stack([a, b, d]))[:-1], jnp.sort(jnp.stack([a, b, d]))[1:]), a=R(), b=R(), d=R())
    add("false sort", lambda c, a, b, d: c.eq("o", jnp.sort(jnp.stack([a, b, d]))[1], b), a=R(), b=R(), d=R())
    add("true argsort", lambda c, a, b, d: c.eq("o", jnp.stack([a, b, d])[jnp.argsort(jnp.stack([a, b, d]))], jnp.sort(jnp.stack([a, b, d]))), a=R(), b=R(), d=R())
    add("true argmax", lambda c, a, b, d: c.eq("o", jnp.stack([a, b, d])[jnp.argmax(jnp.stack([a, b, d]))], jnp.maximum(jnp.maximum(a, b), d)), a=R(), b=R(), d=R())
    add("true argmin", lambda c, a, b: c.eq("o", jnp.stack([a, b])[jnp.argmin(jnp.stack([a, b]))], jnp.minimum(a, b)), a=R(), b=R())
    add("false argmax", lambda c, a, b: c.eq("o", jnp.stack([a, b])[jnp.argmax(jnp.stack([a, b]))], a), a=R(), b=R())
    add("true cumprod", lambda c, a, b, d: c.eq("o", jnp.cumprod(jnp.stack([a, b, d])), jnp.stack([a, a * b, a * b * d])), a=R(), b=R(), d=R())
    add("true cummax", lambda c, a, b: c.eq("o", jax.lax.cummax(jnp.stack([a, b])), jnp.stack([a, jnp.maximum(a, b)])), a=R(), b=R())
    add("true sinh", lambda c, a: c.eq("o", jnp.cosh(a) ** 2 - jnp.sinh(a) ** 2, 1.0), a=R())
    add("true tanh", lambda c, a: c.eq("o", jnp.tanh(a) * jnp.cosh(a), jnp.sinh(a)), a=R())
    add("true asinh", lambda c, a: c.eq("o", jnp.sinh(jnp.arcsinh(a)), a), a=R())
    add("true atanh", lambda c, a: c.eq("o", jnp.tanh(jnp.arctanh(a)), a), a=R(lo=-0.9, hi=0.9))
    add("true acosh", lambda c, a: c.eq("o", jnp.cosh(jnp.arccosh(a)), a), a=R(lo=1, hi=9))
    add("true logistic", lambda c, a: c.eq("o", jax.nn.sigmoid(a) + jax.nn.sigmoid(-a), 1.0), a=R())
    add("true index", lambda c, a: c.eq("o", jnp.array([1.0, 2.0, 3.0])[jnp.floor(a).astype(int)], jnp.floor(a) + 1), a=R(lo=0, hi=2.9))
    add("true switch", lambda c, a, b: c.eq("o", jax.lax.switch(jnp.floor(a).astype(int), [lambda x: x, lambda x: 2 * x, lambda x: 3 * x], b), (jnp.floor(a) + 1) * b), a=R(lo=0, hi=2.9), b=R())
    add("true scan0", lambda c, a: c.eq("o", jax.lax.scan(lambda s, x: (s + x, s), a, jnp.zeros(0))[0], a), a=R())
    add("false f32", lambda c, a: c.eq("o", a.astype(jnp.float32), a), a=R())
    add("true sqrt", lambda c, a: c.eq("o", jnp.sqrt(a) ** 2, a), a=Pos())
    add("true sumrot", lambda c, a, b: c.eq("o", jnp.sin(a + b), jnp.sin(a) * jnp.cos(b) + jnp.cos(a) * jnp.sin(b)), a=R(), b=R())
    add("false arctan", lambda c, a, b: c.eq("o", jnp.arctan(a / b), jnp.arctan2(a, b)), a=R(), b=R(lo=-3, hi=3))
    add("true median", lambda c, a, b, d: c.le("o", jnp.minimum(jnp.minimum(a, b), d), jnp.median(jnp.stack([a, b, d]))), a=R(), b=R(), d=R())
    add("true f64", lambda c, a: c.eq("o", a.astype(float), a), a=R())
    add("true hypot", lambda c, a, b: c.eq("o", jnp.hypot(a, b) ** 2, a * a + b * b), a=R(), b=R())
    add("true sinc", lambda c, a: c.eq("o", jnp.sinc(a) * a * jnp.pi, jnp.sin(jnp.pi * a)), a=Pos())
    add("true logaddexp", lambda c, a, b: c.eq("o", jnp.exp(jnp.logaddexp(a, b)), jnp.exp(a) + jnp.exp(b)), a=R(), b=R())
    add("true det", lambda c, a, b: c.eq("o", jnp.linalg.det(jnp.array([[a, b, 0.], [b, a, 0.], [0., 0., 1.]])), a * a - b * b), a=R(), b=R())
    add("true inv", lambda c, a, b: c.eq("o", jnp.linalg.inv(jnp.array([[a, 0.], [0., b]])) @ jnp.array([a, b]), jnp.ones(2)), a=Pos(), b=Pos())
    add("true inv3", lambda c, a, b: c.eq("o", jnp.linalg.inv(jnp.array([[a, b, 0.0], [0.0, 0.0, b], [b, -a, 1.0]])) @ jnp.array([a + b, b, b - a + 1]), jnp.ones(3)), a=Pos(), b=Pos())
    add("false inv3", lambda c, a, b: c.eq("o", jnp.linalg.inv(jnp.array([[a, b, 0.0], [0.0, 0.0, b], [b, -a, 1.0]])) @ jnp.array([a + b, b, b + a + 1]), jnp.ones(3)), a=Pos(), b=Pos())
    add("true solve", lambda c, a, b: c.eq("o", jnp.linalg.solve(jnp.array([[a, b], [-b, a]]), jnp.array([a + b, a - b])), jnp.ones(2)), a=Pos(), b=Pos())
    add("true inv inverse rot", lambda c, a: c.eq("o", jnp.linalg.inv(jnp.array([[jnp.cos(a), -jnp.sin(a)], [jnp.sin(a), jnp.cos(a)]])), jnp.array([[jnp.cos(a), jnp.sin(a)], [-jnp.sin(a), jnp.cos(a)]])), a=R())
    add("true unwrap", lambda c, a: c.eq("o", jnp.unwrap(jnp.stack([a, a + 0.1]))[1], a + 0.1), a=R(lo=-3, hi=3))
    add("true nextafter", lambda c, a: c.close("o", jnp.nextafter(a, jnp.inf), a, 1e-9), a=R(lo=1, hi=2))
    add("true nan_to_num", lambda c, a: c.eq("o", jnp.nan_to_num(a), a), a=R())
    add("true where", lambda c, a: c.eq("o", jnp.piecewise(a, [a < 0, a >= 0], [lambda x: -x, lambda x: x]), jnp.abs(a)), a=R())
    add("true fori", lambda c, a: c.eq("o", jax.lax.fori_loop(0, 4, lambda i, s: s * a, 1.0), a**4), a=R())
    add("true mod", lambda c, a: c.eq("o", jnp.mod(a, 2.0) + 2 * jnp.floor(a / 2), a), a=R(lo=-3, hi=3))
    add("true trunc", lambda c, a: c.eq("o", jnp.trunc(a) + jnp.fmod(a, 1.0), a), a=R(lo=-3, hi=3))
    add("true divmod", lambda c, a: c.eq("o", jnp.floor_divide(a, 2.0) * 2 + jnp.mod(a, 2.0), a), a=R(lo=-3, hi=3))
    add("true deg", lambda c, a: c.eq("o", jnp.sin(jnp.deg2rad(jnp.rad2deg(a))), jnp.sin(a)), a=R())
    add("true sincos", lambda c, a: c.eq("o", jnp.tan(a) * jnp.cos(a), jnp.sin(a)), a=R(lo=-1, hi=1))
    add("true copysign", lambda c, a, b: c.eq("o", jnp.copysign(a, b) * jnp.sign(b), jnp.abs(a)), a=R(), b=Pos())
    add("true power", lambda c, a: c.eq("o", a**1.5 * a**1.5, a**3), a=Pos())
    add("true einsum", lambda c, a, b: c.eq("o", jnp.einsum("i,i->", jnp.stack([a, b]), jnp.stack([b, a])), 2 * a * b), a=R(), b=R())
    add("true cross", lambda c, a, b: c.eq("o", jnp.cross(jnp.array([a, b, 0.]), jnp.array([b, a, 0.]))[2], a * a - b * b), a=R(), b=R())
    add("true clip", lambda c, a: c.le("o", jnp.clip(a, -1.0, 1.0), 1.0), a=R())
    add("true arcsin", lambda c, a: c.eq("o", jnp.sin(jnp.arcsin(a)), a), a=R(lo=-1, hi=1))
    add("true angle", lambda c, a, b: c.eq("o", jnp.angle(a + 1j * b), jnp.arctan2(b, a)), a=Pos(), b=R())
    add("true cexp", lambda c, a: c.eq("o", jnp.imag(jnp.exp(1j * a)), jnp.sin(a)), a=R())
    return hs
