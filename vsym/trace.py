"""Tracing the real coordinax functions to jaxprs.

* ``equinox.error_if`` is replaced (in tracing only) by a primitive which
  records the predicate, so that the interpreter can reason about it;
* ``bool(tracer)`` at the outermost level forks the trace (both outcomes are
  explored), the way a symbolic executor treats an ``if``.
"""
from __future__ import annotations

import contextlib
import sys

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
from jax._src import core as jcore
from jax.interpreters import ad, batching, mlir

vp_check_p = jcore.Primitive("vp_check")


@vp_check_p.def_impl
def _(x, pred, *, msg):
    if bool(np.any(np.asarray(pred))):
        raise RuntimeError(msg)
    return x


vp_check_p.def_abstract_eval(lambda x, pred, *, msg: x)


def _chk_batch(args, dims, *, msg):
    x, pred = args
    dx, dp = dims
    if dp is not batching.not_mapped:
        pred = jnp.any(pred)
    return vp_check_p.bind(x, pred, msg=msg), dx


batching.primitive_batchers[vp_check_p] = _chk_batch


def _chk_jvp(primals, tangents, *, msg):
    x, pred = primals
    return vp_check_p.bind(x, pred, msg=msg), tangents[0]


ad.primitive_jvps[vp_check_p] = _chk_jvp
mlir.register_lowering(vp_check_p, lambda ctx, x, pred, *, msg: [x])

vp_branch_p = jcore.Primitive("vp_branch")
vp_branch_p.def_impl(lambda x, *, value: x)
vp_branch_p.def_abstract_eval(lambda x, *, value: x)
mlir.register_lowering(vp_branch_p, lambda ctx, x, *, value: [x])

_orig_error_if = eqx.error_if


def _error_if_stub(x, pred, msg, **kw):
    if isinstance(pred, jcore.Tracer) or (hasattr(pred, "value") and isinstance(pred.value, jcore.Tracer)):
        pred = getattr(pred, "value", pred)
        leaves, td = jax.tree_util.tree_flatten(x)
        done = False
        out = []
        for l in leaves:
            if not done and isinstance(l, (jax.Array, np.ndarray, jcore.Tracer)):
                l = vp_check_p.bind(l, jnp.any(pred), msg=str(msg))
                done = True
            out.append(l)
        if not done:
            vp_check_p.bind(jnp.zeros(()), jnp.any(pred), msg=str(msg))
        return jax.tree_util.tree_unflatten(td, out)
    pv = getattr(pred, "value", pred)
    if bool(np.any(np.asarray(pv))):
        raise RuntimeError(str(msg))
    return x


class BranchState:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.events = []
        self.level = None


_state: BranchState | None = None
_orig_bool = jcore.Tracer.__bool__


def _bool_hook(self):
    st = _state
    if st is None or type(self).__name__ != "DynamicJaxprTracer":
        return _orig_bool(self)
    if st.level is None or self._trace.main.level != st.level or self._trace.main.jaxpr_stack[-1] is not st.frame:
        return _orig_bool(self)
    if self.aval.shape != ():
        if self.aval.size != 1:
            return _orig_bool(self)
    n = len(st.events)
    if n > 40:
        raise RuntimeError("too many branch events")
    v = st.prefix[n] if n < len(st.prefix) else True
    st.events.append(v)
    x = jnp.asarray(self).reshape(()).astype(bool)
    vp_branch_p.bind(x, value=bool(v))
    return bool(v)


@contextlib.contextmanager
def stubs():
    """Patch error_if everywhere it has been imported, and Tracer.__bool__."""
    patched = []
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name.startswith(("equinox", "coordinax", "unxt", "quax", "dataclassish"))):
            continue
        try:
            d = vars(mod)
        except TypeError:
            continue
        for k, v in list(d.items()):
            if v is _orig_error_if:
                patched.append((mod, k))
                setattr(mod, k, _error_if_stub)
    jcore.Tracer.__bool__ = _bool_hook
    try:
        yield
    finally:
        for mod, k in patched:
            setattr(mod, k, _orig_error_if)
        jcore.Tracer.__bool__ = _orig_bool


def clear_caches():
    jax.clear_caches()


def trace(fn, avals, prefix=()):
    """make_jaxpr of fn with branch decisions; returns (closed_jaxpr, events)."""
    global _state
    st = BranchState(prefix)

    def wrapped(*args):
        t = args[0]
        st.level = t._trace.main.level
        st.frame = t._trace.main.jaxpr_stack[-1]
        return fn(*args)

    prev = _state
    _state = st
    try:
        cj = jax.make_jaxpr(wrapped)(*avals)
    finally:
        _state = prev
    return cj, st.events
