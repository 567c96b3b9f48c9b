From 5417968e713956ab6ba77b1866573c3cdf1f4f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 01/41] fix: convert velocities given at prolate spheroidal
 positions

The Jacobian was vmapped over the scalar Delta attribute as well, so every
conversion of a ProlateSpheroidalVel to another representation raised.
---
 src/coordinax/_src/vectors/transform/velocities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/transform/velocities.py b/src/coordinax/_src/vectors/transform/velocities.py
index 6310fc1..30fbc5e 100644
--- a/src/coordinax/_src/vectors/transform/velocities.py
+++ b/src/coordinax/_src/vectors/transform/velocities.py
@@ -131,7 +131,9 @@ def represent_as(
     # original type, with fields that are the columns of that row, but with only the
     # denomicator's units.
     tmp = partial(represent_as, **kwargs)
-    jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(tmp), in_axes=(0, None)))
+    # The attributes, e.g. `Delta`, are not batched, only the components are.
+    pos_axes = jax.tree.map(lambda x: 0 if jax.numpy.ndim(x) else None, current_pos)
+    jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(tmp), in_axes=(pos_axes, None)))
     jac_nested_vecs = jac_rep_as(current_pos, target.integral_cls)
 
     # This changes the Jacobian to be a dictionary of each row, with the value
-- 
2.43.0


From 7d916c9761828b6d55d8423646022b4dc4ece25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 02/41] fix: convert accelerations given at prolate spheroidal
 positions

The Jacobian was vmapped over the scalar Delta attribute, Delta was taken for
a component, and the keyword arguments were not passed on.
---
 .../_src/vectors/transform/accelerations.py      | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/coordinax/_src/vectors/transform/accelerations.py b/src/coordinax/_src/vectors/transform/accelerations.py
index 32df3da..843be9d 100644
--- a/src/coordinax/_src/vectors/transform/accelerations.py
+++ b/src/coordinax/_src/vectors/transform/accelerations.py
@@ -3,6 +3,7 @@
 __all__: list[str] = []
 
 from dataclasses import replace
+from functools import partial
 from math import prod
 from typing import Any
 
@@ -16,6 +17,7 @@ from dataclassish import field_items
 
 from coordinax._src.distances import AbstractDistance
 from coordinax._src.vectors.base import AbstractAcc, AbstractPos, AbstractVel
+from coordinax._src.vectors.base.flags import AttrFilter
 from coordinax._src.vectors.d1 import AbstractAcc1D
 from coordinax._src.vectors.d2 import AbstractAcc2D
 from coordinax._src.vectors.d3 import AbstractAcc3D
@@ -148,7 +150,7 @@ def represent_as(
         current_pos,
         **{
             k: v.distance
-            for k, v in field_items(current_pos)
+            for k, v in field_items(AttrFilter, current_pos)
             if isinstance(v, AbstractDistance)
         },
     )
@@ -163,6 +165,10 @@ def represent_as(
     # the correct numerator unit (of the Jacobian row). The value is a Vector of the
     # original type, with fields that are the columns of that row, but with only the
     # denomicator's units.
+    tmp = partial(represent_as, **kwargs)
+    # The attributes, e.g. `Delta`, are not batched, only the components are.
+    pos_axes = jax.tree.map(lambda x: 0 if jax.numpy.ndim(x) else None, current_pos)
+    jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(tmp), in_axes=(pos_axes, None)))
     jac_nested_vecs = jac_rep_as(current_pos, target.integral_cls.integral_cls)
 
     # This changes the Jacobian to be a dictionary of each row, with the value
@@ -171,9 +177,9 @@ def represent_as(
     jac_rows = {
         f"d2_{k}": {
             kk: u.Quantity(vv.value, unit=v.unit / vv.unit)
-            for kk, vv in field_items(v.value)
+            for kk, vv in field_items(AttrFilter, v.value)
         }
-        for k, v in field_items(jac_nested_vecs)
+        for k, v in field_items(AttrFilter, jac_nested_vecs)
     }
 
     # Now we can use the Jacobian to transform the differential.
@@ -197,7 +203,3 @@ def represent_as(
     #       This is necessary for the df/dt * vel term in the chain rule.
 
     return newvec  # noqa: RET504
-
-
-# TODO: situate this better to show how represent_as is used
-jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(represent_as), in_axes=(0, None)))
-- 
2.43.0


From 6e4d4f790ecdcb56dafb5d228e1875835f1b8d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 03/41] fix: define the polar angle of the origin

acos(z / r) is NaN at the origin; atan2(rho, z) is the same angle elsewhere.
---
 src/coordinax/_src/vectors/d3/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index a34d35e..870ec59 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -221,7 +221,7 @@ def represent_as(
 
     """
     r = xp.sqrt(current.x**2 + current.y**2 + current.z**2)
-    theta = xp.acos(current.z / r)
+    theta = xp.atan2(xp.sqrt(current.x**2 + current.y**2), current.z)
     phi = xp.atan2(current.y, current.x)
     return target(r=r, theta=theta, phi=phi)
 
@@ -305,7 +305,7 @@ def represent_as(
 
     """
     r = xp.sqrt(current.rho**2 + current.z**2)
-    theta = xp.acos(current.z / r)
+    theta = xp.atan2(current.rho, current.z)
     return target(r=r, theta=theta, phi=current.phi)
 
 
-- 
2.43.0


From f7beab68e4fbb5f8ca0f20c621fd83db2b5f79f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 04/41] fix: convert the foci to prolate spheroidal coordinates

There nu was 0 / 0 = NaN.
---
 src/coordinax/_src/vectors/d3/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index 870ec59..75b38da 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -692,6 +692,8 @@ def represent_as(
     # Select based on condition
     mu_minus_delta = xp.where(diff_ >= 0, pos_mu_minus_delta, neg_mu_minus_delta)
     delta_minus_nu = xp.where(diff_ >= 0, pos_delta_minus_nu, neg_delta_minus_nu)
+    # on the axis nothing cancels, while at the foci the quotient is 0 / 0
+    delta_minus_nu = xp.where(current.rho == 0, neg_delta_minus_nu, delta_minus_nu)
 
     # compute mu and nu:
     mu = Delta2 + mu_minus_delta
-- 
2.43.0


From b13260cf2c7cd63f15f47e3db7659b03ee537826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 05/41] fix: include the velocity-dependent terms in
 acceleration conversions

Only J a was computed; the change of the Jacobian along the motion, (dJ/dt) v,
was dropped, so e.g. uniform circular motion had no acceleration.
---
 .../_src/vectors/transform/accelerations.py   | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/coordinax/_src/vectors/transform/accelerations.py b/src/coordinax/_src/vectors/transform/accelerations.py
index 843be9d..cc72215 100644
--- a/src/coordinax/_src/vectors/transform/accelerations.py
+++ b/src/coordinax/_src/vectors/transform/accelerations.py
@@ -157,7 +157,7 @@ def represent_as(
 
     # Start by transforming the velocity to the type required by the
     # differential to construct the Jacobian.
-    current_vel = represent_as(velvec, current.integral_cls, current_pos, **kwargs)  # noqa: F841  # pylint: disable=unused-variable
+    current_vel = represent_as(velvec, current.integral_cls, current_pos, **kwargs)
 
     # Takes the Jacobian through the representation transformation function.  This
     # returns a representation of the target type, where the value of each field the
@@ -182,6 +182,27 @@ def represent_as(
         for k, v in field_items(AttrFilter, jac_nested_vecs)
     }
 
+    # The Jacobian changes along the motion, which adds (dJ/dt) v. This is the
+    # derivative of the transformed velocity with respect to the position, in the
+    # direction of the velocity, per unit time.
+    unit_time = u.Quantity(1.0, "s")
+    names = tuple(k for k, _ in field_items(AttrFilter, current_pos))
+    motion = eqx.tree_at(
+        lambda q: tuple(getattr(q, k).value for k in names),
+        jax.tree.map(jax.numpy.zeros_like, current_pos),
+        tuple(
+            u.ustrip(
+                getattr(current_pos, k).unit, getattr(current_vel, f"d_{k}") * unit_time
+            )
+            for k in names
+        ),
+    )
+    _, change = jax.jvp(
+        lambda q: represent_as(current_vel, target.integral_cls, q, **kwargs),
+        (current_pos,),
+        (motion,),
+    )
+
     # Now we can use the Jacobian to transform the differential.
     flat_current = current.reshape(flat_shape)
     newvec = target(
@@ -195,11 +216,9 @@ def represent_as(
                 ),
                 axis=0,
             )
+            + getattr(change, k.replace("d2_", "d_")) / unit_time
             for k, j_r in jac_rows.items()
         }
     ).reshape(shape)
 
-    # TODO: add  df(q)/dt, which is 0 for all current transforms
-    #       This is necessary for the df/dt * vel term in the chain rule.
-
     return newvec  # noqa: RET504
-- 
2.43.0


From 37110accde5602ef4a5382580bcc537a51b03b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 06/41] fix: compare vectors whose components differ in units
 or shapes

---
 src/coordinax/_src/vectors/base/base.py     | 14 ++++++++++----
 src/coordinax/_src/vectors/base/base_pos.py |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index f45070a..df01135 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -15,7 +15,7 @@ from typing import TYPE_CHECKING, Any, NoReturn, TypeVar
 
 import jax
 import numpy as np
-from jax import Device, tree
+from jax import Device
 from jaxtyping import Array, ArrayLike, Bool
 from plum import dispatch
 from quax import ArrayValue, register
@@ -613,9 +613,15 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         if type(other) is not type(self):
             return NotImplemented
 
-        comp_tree = tree.map(jnp.equal, self, other)
-        comp_leaves = jnp.array(tree.leaves(comp_tree))
-        return jax.numpy.logical_and.reduce(comp_leaves)
+        # Compare the components as quantities, so that the units and shapes of
+        # the components don't have to match.
+        shape = jnp.broadcast_shapes(self.shape, other.shape)
+        comp_eqs = [v == getattr(other, k) for k, v in field_items(self)]
+        # Reduce any non-batch axes of the components.
+        comp_eqs = [eq.all(axis=tuple(range(len(shape), eq.ndim))) for eq in comp_eqs]
+        return jax.numpy.logical_and.reduce(
+            jax.numpy.stack([jax.numpy.broadcast_to(eq, shape) for eq in comp_eqs])
+        )
 
     # ---------------------------------------------------------------
     # methods
diff --git a/src/coordinax/_src/vectors/base/base_pos.py b/src/coordinax/_src/vectors/base/base_pos.py
index 4326807..5b6530d 100644
--- a/src/coordinax/_src/vectors/base/base_pos.py
+++ b/src/coordinax/_src/vectors/base/base_pos.py
@@ -133,7 +133,7 @@ class AbstractPos(AvalMixin, AbstractVector):  # pylint: disable=abstract-method
         if not isinstance(other, AbstractPos):
             return NotImplemented
 
-        rhs = other.represent_as(type(self))
+        rhs = other if type(other) is type(self) else other.represent_as(type(self))
         return super().__eq__(rhs)
 
     # ===============================================================
-- 
2.43.0


From 34788fa879c5e7bc8ad38e2b76d196c8ca65409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 07/41] fix: keep the focal length when arithmetic or a
 rotation returns to prolate spheroidal coordinates

---
 .../_src/operators/galilean/rotation.py       |  3 ++-
 src/coordinax/_src/vectors/base/base_pos.py   | 18 +++++++------
 src/coordinax/_src/vectors/utils.py           | 27 ++++++++++++++++++-
 3 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/coordinax/_src/operators/galilean/rotation.py b/src/coordinax/_src/operators/galilean/rotation.py
index 3c66d47..fa20514 100644
--- a/src/coordinax/_src/operators/galilean/rotation.py
+++ b/src/coordinax/_src/operators/galilean/rotation.py
@@ -24,6 +24,7 @@ from coordinax._src.operators.base import AbstractOperator
 from coordinax._src.operators.identity import Identity
 from coordinax._src.vectors.base import ToUnitsOptions
 from coordinax._src.vectors.d3 import AbstractPos3D, CartesianPos3D
+from coordinax._src.vectors.utils import represent_like
 
 vec_matmul = quaxify(jax.numpy.vectorize(jax.numpy.matmul, signature="(3,3),(3)->(3)"))
 
@@ -286,7 +287,7 @@ class GalileanRotation(AbstractGalileanOperator):
             u.Quantity,
         )
         rcart = CartesianPos3D.from_(vec_matmul(self.rotation, vec))
-        return rcart.represent_as(type(q))
+        return represent_like(rcart, q)
 
     @AbstractOperator.__call__.dispatch
     def __call__(
diff --git a/src/coordinax/_src/vectors/base/base_pos.py b/src/coordinax/_src/vectors/base/base_pos.py
index 5b6530d..42d011a 100644
--- a/src/coordinax/_src/vectors/base/base_pos.py
+++ b/src/coordinax/_src/vectors/base/base_pos.py
@@ -25,6 +25,7 @@ from .mixins import AvalMixin
 from coordinax._src.distances import BatchableLength
 from coordinax._src.utils import classproperty
 from coordinax._src.vectors.api import represent_as
+from coordinax._src.vectors.utils import represent_like
 
 PosT = TypeVar("PosT", bound="AbstractPos")
 
@@ -133,7 +134,7 @@ class AbstractPos(AvalMixin, AbstractVector):  # pylint: disable=abstract-method
         if not isinstance(other, AbstractPos):
             return NotImplemented
 
-        rhs = other if type(other) is type(self) else other.represent_as(type(self))
+        rhs = other if type(other) is type(self) else represent_like(other, self)
         return super().__eq__(rhs)
 
     # ===============================================================
@@ -189,9 +190,9 @@ def _add_qq(lhs: AbstractPos, rhs: AbstractPos, /) -> AbstractPos:
         isinstance(lhs, cart_cls) and isinstance(rhs, cart_cls),
         "must register a Cartesian-specific dispatch for {cart_cls} addition",
     )
-    return qlax.add(  # re-dispatch on the Cartesian class
-        lhs.represent_as(cart_cls), rhs.represent_as(cart_cls)
-    ).represent_as(type(lhs))
+    return represent_like(  # re-dispatch on the Cartesian class
+        qlax.add(lhs.represent_as(cart_cls), rhs.represent_as(cart_cls)), lhs
+    )
 
 
 # ------------------------------------------------
@@ -321,7 +322,7 @@ def _mul_v_pos(lhs: ArrayLike, rhs: AbstractPos, /) -> AbstractPos:
 
     rc = rhs.represent_as(rhs._cartesian_cls)  # noqa: SLF001
     nr = qlax.mul(lhs, rc)
-    return nr.represent_as(type(rhs))
+    return represent_like(nr, rhs)
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -402,7 +403,7 @@ def _neg_pos(obj: AbstractPos, /) -> AbstractPos:
     """
     cart = represent_as(obj, obj._cartesian_cls)  # noqa: SLF001
     negcart = jnp.negative(cart)
-    return represent_as(negcart, type(obj))
+    return represent_like(negcart, obj)
 
 
 # ------------------------------------------------
@@ -454,7 +455,8 @@ def _sub_qq(lhs: AbstractPos, rhs: AbstractPos) -> AbstractPos:
     # operation.  Cartesian coordinates do not have any branch cuts or
     # singularities or ranges that need to be handled, so this is a safe
     # default.
-    return qlax.sub(
+    diff = qlax.sub(
         lhs.represent_as(lhs._cartesian_cls),  # noqa: SLF001
         rhs.represent_as(lhs._cartesian_cls),  # noqa: SLF001
-    ).represent_as(type(lhs))
+    )
+    return represent_like(diff, lhs)
diff --git a/src/coordinax/_src/vectors/utils.py b/src/coordinax/_src/vectors/utils.py
index e52e761..cd2fa73 100644
--- a/src/coordinax/_src/vectors/utils.py
+++ b/src/coordinax/_src/vectors/utils.py
@@ -6,7 +6,7 @@ from dataclasses import replace as _dataclass_replace
 from typing import TYPE_CHECKING
 
 import quaxed.numpy as jnp
-from dataclassish import field_values
+from dataclassish import field_items, field_values
 
 from .base.flags import AttrFilter
 
@@ -34,3 +34,28 @@ def full_shaped(obj: "AbstractVector", /) -> "AbstractVector":
     """
     arrays = jnp.broadcast_arrays(*field_values(AttrFilter, obj))
     return _dataclass_replace(obj, **dict(zip(obj.components, arrays, strict=True)))
+
+
+def represent_like(vec: "AbstractVector", like: "AbstractVector", /) -> "AbstractVector":
+    """Represent a vector as the type of another, with the same attributes.
+
+    The attributes, e.g. the focal length of a `ProlateSpheroidalPos`, define the
+    representation but are not components, so are not converted.
+
+    Examples
+    --------
+    >>> import unxt as u
+    >>> import coordinax as cx
+    >>> from coordinax._src.vectors.utils import represent_like
+
+    >>> like = cx.vecs.ProlateSpheroidalPos(
+    ...     mu=u.Quantity(2, "m2"), nu=u.Quantity(0.5, "m2"),
+    ...     phi=u.Quantity(0, "rad"), Delta=u.Quantity(1, "m"))
+    >>> vec = cx.CartesianPos3D.from_([1, 2, 3], "m")
+    >>> represent_like(vec, like).Delta
+    Quantity['length'](Array(1, dtype=int32, ...), unit='m')
+
+    """
+    components = like.components
+    attrs = {k: v for k, v in field_items(like) if k not in components}
+    return vec.represent_as(type(like), **attrs)
-- 
2.43.0


From a212ed0d2de40c8aa2574d2cc6a4d513ec714118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 08/41] fix: divide non-Cartesian positions as vectors, not
 component by component

---
 src/coordinax/_src/vectors/base/base_pos.py |  6 ++++++
 src/coordinax/_src/vectors/d4/spacetime.py  | 11 ++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/base/base_pos.py b/src/coordinax/_src/vectors/base/base_pos.py
index 42d011a..65a926b 100644
--- a/src/coordinax/_src/vectors/base/base_pos.py
+++ b/src/coordinax/_src/vectors/base/base_pos.py
@@ -215,6 +215,12 @@ def _div_pos_v(lhs: AbstractPos, rhs: ArrayLike) -> AbstractPos:
     Quantity['length'](Array(0.5, dtype=float32), unit='m')
 
     """
+    # The components of a Cartesian vector all scale with the vector. Those of
+    # other representations, e.g. the angles, do not.
+    cart_cls = lhs._cartesian_cls  # noqa: SLF001
+    if not isinstance(lhs, cart_cls):
+        return represent_like(jnp.divide(lhs.represent_as(cart_cls), rhs), lhs)
+
     return replace(
         lhs, **{k: jnp.divide(v, rhs) for k, v in field_items(AttrFilter, lhs)}
     )
diff --git a/src/coordinax/_src/vectors/d4/spacetime.py b/src/coordinax/_src/vectors/d4/spacetime.py
index bfe21a8..91b92d8 100644
--- a/src/coordinax/_src/vectors/d4/spacetime.py
+++ b/src/coordinax/_src/vectors/d4/spacetime.py
@@ -11,7 +11,7 @@ import equinox as eqx
 import jax
 import jax.numpy as jnp
 import numpy as np
-from jaxtyping import Shaped
+from jaxtyping import ArrayLike, Shaped
 from quax import register
 
 import quaxed.numpy as jnp
@@ -336,6 +336,15 @@ def _add_4v4v(self: FourVector, other: FourVector) -> FourVector:
     return replace(self, t=self.t + other.t, q=self.q + other.q)
 
 
+@register(jax.lax.div_p)  # type: ignore[misc]
+def _div_4v_v(lhs: FourVector, rhs: ArrayLike) -> FourVector:
+    """Divide a 4-vector by a scalar."""
+    return replace(lhs, t=jnp.divide(lhs.t, rhs), q=jnp.divide(lhs.q, rhs))
+
+
+# -------------------------------------------------------------------
+
+
 @register(jax.lax.sub_p)  # type: ignore[misc]
 def _sub_4v_4v(lhs: FourVector, rhs: FourVector) -> FourVector:
     """Add two 4-vectors.
-- 
2.43.0


From a1a67ada23ce265c3f1656d48802806f6d721579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 09/41] fix: wrap the azimuth shifted by the normalising
 spherical constructors

---
 src/coordinax/_src/vectors/d3/lonlatspherical.py | 5 ++++-
 src/coordinax/_src/vectors/d3/mathspherical.py   | 5 ++++-
 src/coordinax/_src/vectors/d3/spherical.py       | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/lonlatspherical.py b/src/coordinax/_src/vectors/d3/lonlatspherical.py
index feb7a9f..113a4f5 100644
--- a/src/coordinax/_src/vectors/d3/lonlatspherical.py
+++ b/src/coordinax/_src/vectors/d3/lonlatspherical.py
@@ -238,7 +238,10 @@ def from_(
     lat = qlax.select(lat_pred, _180d - lat, lat)
     lon = qlax.select(lat_pred, lon + _180d, lon)
 
-    # 4) Construct. This also handles the longitude wrapping
+    # 4) Wrap the longitude, which may have been shifted
+    lon = converter_azimuth_to_range(lon)
+
+    # 5) Construct
     return cls(lon=lon, lat=lat, distance=distance)
 
 
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index 63a1195..b9846e5 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -179,7 +179,10 @@ def from_(
     phi = qlax.select(phi_pred, phi, _360d - phi)
     theta = qlax.select(phi_pred, theta, theta + _180d)
 
-    # 4) Construct. This also handles the azimuthal angle wrapping
+    # 4) Wrap the azimuthal angle, which may have been shifted
+    theta = converter_azimuth_to_range(theta)
+
+    # 5) Construct
     return cls(r=r, theta=theta, phi=phi)
 
 
diff --git a/src/coordinax/_src/vectors/d3/spherical.py b/src/coordinax/_src/vectors/d3/spherical.py
index f7dc3db..dff686f 100644
--- a/src/coordinax/_src/vectors/d3/spherical.py
+++ b/src/coordinax/_src/vectors/d3/spherical.py
@@ -157,7 +157,10 @@ def from_(
     theta = qlax.select(theta_pred, theta, _360d - theta)
     phi = qlax.select(theta_pred, phi, phi + _180d)
 
-    # 4) Construct. This also handles the azimuthal angle wrapping
+    # 4) Wrap the azimuthal angle, which may have been shifted
+    phi = converter_azimuth_to_range(phi)
+
+    # 5) Construct
     return cls(r=r, theta=theta, phi=phi)
 
 
-- 
2.43.0


From 5739030fb161d4f7bbcd7639139a4f1acb48d8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 10/41] fix: normalise latitudes more than half a turn out of
 range

---
 src/coordinax/_src/vectors/d3/lonlatspherical.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/d3/lonlatspherical.py b/src/coordinax/_src/vectors/d3/lonlatspherical.py
index 113a4f5..370f05c 100644
--- a/src/coordinax/_src/vectors/d3/lonlatspherical.py
+++ b/src/coordinax/_src/vectors/d3/lonlatspherical.py
@@ -25,6 +25,7 @@ from .base_spherical import (
     AbstractSphericalVel,
     _90d,
     _180d,
+    _360d,
 )
 from coordinax._src.angles import Angle, BatchableAngle
 from coordinax._src.distances import AbstractDistance, BatchableDistance, Distance
@@ -229,7 +230,9 @@ def from_(
     lat = qlax.select(distance_pred, -lat, lat)
 
     # 3) Handle latitude outside of [-90, 90] degrees
-    # TODO: fix when lat < -180, lat > 180
+    lat_pred = jnp.abs(lat) > _180d  # wrap to [-180, 180) deg
+    lat = qlax.select(lat_pred, jnp.mod(lat + _180d, _360d) - _180d, lat)
+
     lat_pred = lat < -_90d
     lat = qlax.select(lat_pred, -_180d - lat, lat)
     lon = qlax.select(lat_pred, lon + _180d, lon)
-- 
2.43.0


From bb73bb9b72a13cf85cfb6f2454849a7d9f2c6fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 11/41] fix: broadcast the arguments of the normalising
 spherical constructors

---
 src/coordinax/_src/vectors/d3/lonlatspherical.py | 1 +
 src/coordinax/_src/vectors/d3/mathspherical.py   | 1 +
 src/coordinax/_src/vectors/d3/spherical.py       | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/coordinax/_src/vectors/d3/lonlatspherical.py b/src/coordinax/_src/vectors/d3/lonlatspherical.py
index 370f05c..c488f79 100644
--- a/src/coordinax/_src/vectors/d3/lonlatspherical.py
+++ b/src/coordinax/_src/vectors/d3/lonlatspherical.py
@@ -222,6 +222,7 @@ def from_(
     lon = fields["lon"].metadata["converter"](lon)
     lat = fields["lat"].metadata["converter"](lat)
     distance = fields["distance"].metadata["converter"](distance)
+    lon, lat, distance = jnp.broadcast_arrays(lon, lat, distance)
 
     # 2) handle negative distances
     distance_pred = distance < jnp.zeros_like(distance)
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index b9846e5..5ac2bea 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -166,6 +166,7 @@ def from_(
     r = fields["r"].metadata["converter"](r)
     theta = fields["theta"].metadata["converter"](theta)
     phi = fields["phi"].metadata["converter"](phi)
+    r, theta, phi = jnp.broadcast_arrays(r, theta, phi)
 
     # 2) handle negative distances
     r_pred = r < jnp.zeros_like(r)
diff --git a/src/coordinax/_src/vectors/d3/spherical.py b/src/coordinax/_src/vectors/d3/spherical.py
index dff686f..bb30226 100644
--- a/src/coordinax/_src/vectors/d3/spherical.py
+++ b/src/coordinax/_src/vectors/d3/spherical.py
@@ -144,6 +144,7 @@ def from_(
     r = fields["r"].metadata["converter"](r)
     theta = fields["theta"].metadata["converter"](theta)
     phi = fields["phi"].metadata["converter"](phi)
+    r, theta, phi = jnp.broadcast_arrays(r, theta, phi)
 
     # 2) handle negative distances
     r_pred = r < jnp.zeros_like(r)
-- 
2.43.0


From 465b09aca90ae76ee8ea7376a30bc78e0ed5d915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 12/41] fix: scale polar and mathematical-spherical positions
 by negative numbers

---
 src/coordinax/_src/vectors/d2/polar.py         | 10 ++++++++--
 src/coordinax/_src/vectors/d3/mathspherical.py | 11 +++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/coordinax/_src/vectors/d2/polar.py b/src/coordinax/_src/vectors/d2/polar.py
index aaac9d7..fce3e18 100644
--- a/src/coordinax/_src/vectors/d2/polar.py
+++ b/src/coordinax/_src/vectors/d2/polar.py
@@ -10,6 +10,7 @@ import jax
 from jaxtyping import ArrayLike
 from quax import register
 
+import quaxed.numpy as jnp
 import unxt as u
 from dataclassish import replace
 from dataclassish.converters import Unless
@@ -22,6 +23,8 @@ from coordinax._src.utils import classproperty
 from coordinax._src.vectors.checks import check_r_non_negative
 from coordinax._src.vectors.converters import converter_azimuth_to_range
 
+_180d = u.Quantity(180, "deg")
+
 
 @final
 class PolarPos(AbstractPos2D):
@@ -88,8 +91,11 @@ def _mul_p_vpolar(lhs: ArrayLike, rhs: PolarPos, /) -> PolarPos:
     lhs = eqx.error_if(
         lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
     )
-    # Scale the radial distance
-    return replace(rhs, r=lhs * rhs.r)
+    # Scale the radial distance. A negative factor gives the opposite direction.
+    phi = converter_azimuth_to_range(rhs.phi + _180d)
+    return replace(
+        rhs, r=jnp.abs(lhs) * rhs.r, phi=jnp.where(lhs < 0, phi, rhs.phi)
+    )
 
 
 #####################################################################
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index 5ac2bea..f508f21 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -219,8 +219,15 @@ def _mul_p_vmsph(lhs: ArrayLike, rhs: MathSphericalPos, /) -> MathSphericalPos:
     lhs = eqx.error_if(
         lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
     )
-    # Scale the radial distance
-    return replace(rhs, r=lhs * rhs.r)
+    # Scale the radial distance. A negative factor gives the opposite direction.
+    pred = lhs < 0
+    theta = converter_azimuth_to_range(rhs.theta + _180d)
+    return replace(
+        rhs,
+        r=jnp.abs(lhs) * rhs.r,
+        theta=jnp.where(pred, theta, rhs.theta),
+        phi=jnp.where(pred, -(rhs.phi - _180d), rhs.phi),
+    )
 
 
 ##############################################################################
-- 
2.43.0


From ff36976ceb94673497c4c3404a88dadd62ddd215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 13/41] fix: add and subtract Cartesian vectors in different
 units

---
 src/coordinax/_src/vectors/d1/cartesian.py | 21 ++++++++++++++++-----
 src/coordinax/_src/vectors/d2/cartesian.py | 17 +++++++++++++----
 src/coordinax/_src/vectors/d3/cartesian.py | 20 +++++++++++++++-----
 3 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/coordinax/_src/vectors/d1/cartesian.py b/src/coordinax/_src/vectors/d1/cartesian.py
index 97b8bc3..9d6b3fd 100644
--- a/src/coordinax/_src/vectors/d1/cartesian.py
+++ b/src/coordinax/_src/vectors/d1/cartesian.py
@@ -14,6 +14,7 @@ from quax import register
 
 import quaxed.numpy as jnp
 import unxt as u
+from dataclassish import field_items
 from quaxed import lax as qlax
 
 import coordinax._src.typing as ct
@@ -89,7 +90,9 @@ def _add_qq(lhs: CartesianPos1D, rhs: AbstractPos, /) -> CartesianPos1D:
 
     """
     cart = rhs.represent_as(CartesianPos1D)
-    return jax.tree.map(qlax.add, lhs, cart)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(cart, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -158,7 +161,9 @@ def _sub_q1d_pos(self: CartesianPos1D, other: AbstractPos, /) -> CartesianPos1D:
 
     """
     cart = other.represent_as(CartesianPos1D)
-    return jax.tree.map(qlax.sub, self, cart)
+    return replace(
+        self, **{k: qlax.sub(v, getattr(cart, k)) for k, v in field_items(self)}
+    )
 
 
 #####################################################################
@@ -225,7 +230,9 @@ def _add_pp(lhs: CartesianVel1D, rhs: CartesianVel1D, /) -> CartesianVel1D:
     Quantity['speed'](Array(2, dtype=int32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -316,7 +323,9 @@ def _add_aa(lhs: CartesianAcc1D, rhs: CartesianAcc1D, /) -> CartesianAcc1D:
     Quantity['acceleration'](Array(2, dtype=int32), unit='km / s2')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -371,4 +380,6 @@ def _sub_a1_a1(self: CartesianAcc1D, other: CartesianAcc1D, /) -> CartesianAcc1D
     Quantity['acceleration'](Array(-1, dtype=int32, ...), unit='m / s2')
 
     """
-    return jax.tree.map(qlax.sub, self, other)
+    return replace(
+        self, **{k: qlax.sub(v, getattr(other, k)) for k, v in field_items(self)}
+    )
diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index 5b097ba..d397af1 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -18,6 +18,7 @@ from quax import register
 
 import quaxed.numpy as jnp
 import unxt as u
+from dataclassish import field_items
 from quaxed import lax as qlax
 from unxt.quantity import AbstractQuantity, Quantity
 
@@ -98,7 +99,9 @@ def _add_cart2d_pos(lhs: CartesianPos2D, rhs: AbstractPos, /) -> CartesianPos2D:
 
     """
     cart = rhs.represent_as(CartesianPos2D)
-    return jax.tree.map(qlax.add, lhs, cart)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(cart, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -155,7 +158,9 @@ def _sub_cart2d_pos2d(lhs: CartesianPos2D, rhs: AbstractPos, /) -> CartesianPos2
 
     """
     cart = rhs.represent_as(CartesianPos2D)
-    return jax.tree.map(qlax.sub, lhs, cart)
+    return replace(
+        lhs, **{k: qlax.sub(v, getattr(cart, k)) for k, v in field_items(lhs)}
+    )
 
 
 #####################################################################
@@ -232,7 +237,9 @@ def _add_pp(lhs: CartesianVel2D, rhs: CartesianVel2D, /) -> CartesianVel2D:
     Quantity['speed'](Array(2., dtype=float32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -345,7 +352,9 @@ def _add_aa(lhs: CartesianAcc2D, rhs: CartesianAcc2D, /) -> CartesianAcc2D:
     Quantity['acceleration'](Array(6., dtype=float32), unit='km / s2')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
diff --git a/src/coordinax/_src/vectors/d3/cartesian.py b/src/coordinax/_src/vectors/d3/cartesian.py
index 1dffbdc..c5de3dc 100644
--- a/src/coordinax/_src/vectors/d3/cartesian.py
+++ b/src/coordinax/_src/vectors/d3/cartesian.py
@@ -148,7 +148,9 @@ def _sub_cart3d_pos(lhs: CartesianPos3D, rhs: AbstractPos, /) -> CartesianPos3D:
 
     """
     cart = rhs.represent_as(CartesianPos3D)
-    return jax.tree.map(qlax.sub, lhs, cart)
+    return replace(
+        lhs, **{k: qlax.sub(v, getattr(cart, k)) for k, v in field_items(lhs)}
+    )
 
 
 # =====================================================
@@ -286,7 +288,9 @@ def _add_pp(lhs: CartesianVel3D, rhs: CartesianVel3D, /) -> CartesianVel3D:
     Quantity['speed'](Array(4., dtype=float32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.sub_p)  # type: ignore[misc]
@@ -302,7 +306,9 @@ def _sub_v3_v3(lhs: CartesianVel3D, other: CartesianVel3D, /) -> CartesianVel3D:
     Quantity['speed'](Array(0., dtype=float32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.sub, lhs, other)
+    return replace(
+        lhs, **{k: qlax.sub(v, getattr(other, k)) for k, v in field_items(lhs)}
+    )
 
 
 #####################################################################
@@ -386,7 +392,9 @@ def from_(
 @register(jax.lax.add_p)  # type: ignore[misc]
 def _add_aa(lhs: CartesianAcc3D, rhs: CartesianAcc3D, /) -> CartesianAcc3D:
     """Add two Cartesian accelerations."""
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -415,4 +423,6 @@ def _mul_ac3(lhs: ArrayLike, rhs: CartesianPos3D, /) -> CartesianPos3D:
 @register(jax.lax.sub_p)  # type: ignore[misc]
 def _sub_a3_a3(lhs: CartesianAcc3D, rhs: CartesianAcc3D, /) -> CartesianAcc3D:
     """Subtract two accelerations."""
-    return jax.tree.map(qlax.sub, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.sub(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
-- 
2.43.0


From ba32825b03c275d02b1d3bbbe644dee0f3bf0280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 14/41] fix: broadcast the components before flattening or
 transposing a vector

---
 src/coordinax/_src/vectors/base/base.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index df01135..09fe364 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -347,7 +347,8 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
                                   [1., 3.]], dtype=float32), unit='m')
 
         """
-        return replace(self, **{k: v.mT for k, v in field_items(AttrFilter, self)})
+        full = full_shaped(self)
+        return replace(full, **{k: v.mT for k, v in field_items(AttrFilter, full)})
 
     @property
     def ndim(self) -> int:
@@ -436,7 +437,8 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
                                   [1., 3.]], dtype=float32), unit='m')
 
         """
-        return replace(self, **{k: v.T for k, v in field_items(AttrFilter, self)})
+        full = full_shaped(self)
+        return replace(full, **{k: v.T for k, v in field_items(AttrFilter, full)})
 
     # ---------------------------------------------------------------
     # arithmetic operators
@@ -748,8 +750,9 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         (4,)
 
         """
+        full = full_shaped(self)
         return replace(
-            self, **{k: v.flatten() for k, v in field_items(AttrFilter, self)}
+            full, **{k: v.flatten() for k, v in field_items(AttrFilter, full)}
         )
 
     def ravel(self) -> "Self":
@@ -769,7 +772,8 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         (4,)
 
         """
-        return replace(self, **{k: v.ravel() for k, v in field_items(AttrFilter, self)})
+        full = full_shaped(self)
+        return replace(full, **{k: v.ravel() for k, v in field_items(AttrFilter, full)})
 
     def reshape(self, *shape: Any, order: str = "C") -> "Self":
         """Reshape the components of the vector.
-- 
2.43.0


From 8693634137d314a696b7ccd993c53316c8713a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 15/41] fix: broadcast the components of batched spacetime
 vectors

---
 src/coordinax/_src/vectors/utils.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/utils.py b/src/coordinax/_src/vectors/utils.py
index cd2fa73..5f731d6 100644
--- a/src/coordinax/_src/vectors/utils.py
+++ b/src/coordinax/_src/vectors/utils.py
@@ -6,7 +6,7 @@ from dataclasses import replace as _dataclass_replace
 from typing import TYPE_CHECKING
 
 import quaxed.numpy as jnp
-from dataclassish import field_items, field_values
+from dataclassish import field_items
 
 from .base.flags import AttrFilter
 
@@ -32,8 +32,26 @@ def full_shaped(obj: "AbstractVector", /) -> "AbstractVector":
     (2,)
 
     """
-    arrays = jnp.broadcast_arrays(*field_values(AttrFilter, obj))
-    return _dataclass_replace(obj, **dict(zip(obj.components, arrays, strict=True)))
+    return _broadcast_components(obj, obj.shape)
+
+
+def _broadcast_components(
+    obj: "AbstractVector", shape: tuple[int, ...], /
+) -> "AbstractVector":
+    """Broadcast all components, including nested vectors, to a batch shape."""
+    from .base import AbstractVector
+
+    ndim = obj.ndim
+    return _dataclass_replace(
+        obj,
+        **{
+            k: _broadcast_components(v, shape)
+            if isinstance(v, AbstractVector)
+            # components can have non-batch axes after the batch axes
+            else jnp.broadcast_to(v, (*shape, *v.shape[ndim:]))
+            for k, v in field_items(AttrFilter, obj)
+        },
+    )
 
 
 def represent_like(vec: "AbstractVector", like: "AbstractVector", /) -> "AbstractVector":
-- 
2.43.0


From a0ea358dc36f8cf5dd648a62ce2f1f82b7a750b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 16/41] fix: matrix-transpose N-dimensional vectors with more
 than two batch axes

---
 src/coordinax/_src/vectors/dn/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/dn/base.py b/src/coordinax/_src/vectors/dn/base.py
index 25d8bbc..50953c2 100644
--- a/src/coordinax/_src/vectors/dn/base.py
+++ b/src/coordinax/_src/vectors/dn/base.py
@@ -70,7 +70,7 @@ class AbstractPosND(AbstractPos):
             ndim < 2,
             f"x must be at least two-dimensional for matrix_transpose; got {ndim=}",
         )
-        axes = (*range(ndim - 3), ndim - 1, ndim - 2, ndim)
+        axes = (*range(ndim - 2), ndim - 1, ndim - 2, ndim)
         return replace(self, q=qlax.transpose(self.q, axes))
 
     @property
@@ -206,7 +206,7 @@ class AbstractVelND(AbstractVel):
             ndim < 2,
             f"x must be at least two-dimensional for matrix_transpose; got {ndim=}",
         )
-        axes = (*range(ndim - 3), ndim - 1, ndim - 2, ndim)
+        axes = (*range(ndim - 2), ndim - 1, ndim - 2, ndim)
         return replace(self, d_q=qlax.transpose(self.d_q, axes))
 
     @property
@@ -345,7 +345,7 @@ class AbstractAccND(AbstractAcc):
             ndim < 2,
             f"x must be at least two-dimensional for matrix_transpose; got {ndim=}",
         )
-        axes = (*range(ndim - 3), ndim - 1, ndim - 2, ndim)
+        axes = (*range(ndim - 2), ndim - 1, ndim - 2, ndim)
         return replace(self, d2_q=qlax.transpose(self.d2_q, axes))
 
     @property
-- 
2.43.0


From 963fc61b812794d9adf4be69f7ee176a4732183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 17/41] fix: ravel N-dimensional vectors over the batch axes
 only

---
 src/coordinax/_src/vectors/dn/base.py | 51 +++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/src/coordinax/_src/vectors/dn/base.py b/src/coordinax/_src/vectors/dn/base.py
index 50953c2..3268ec7 100644
--- a/src/coordinax/_src/vectors/dn/base.py
+++ b/src/coordinax/_src/vectors/dn/base.py
@@ -131,6 +131,23 @@ class AbstractPosND(AbstractPos):
         """
         return replace(self, q=jnp.reshape(self.q, (self.size, self.q.shape[-1]), "C"))
 
+    def ravel(self) -> "Self":
+        """Ravel the N-dimensional position.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+
+        >>> vec = cx.vecs.CartesianPosND.from_([[[1, 2]], [[3, 4]]], "m")
+        >>> vec.shape
+        (2, 1)
+
+        >>> vec.ravel().shape
+        (2,)
+
+        """
+        return self.flatten()
+
     def reshape(self, *shape: Any, order: str = "C") -> "Self":
         """Reshape the N-dimensional position.
 
@@ -268,6 +285,23 @@ class AbstractVelND(AbstractVel):
             self, d_q=jnp.reshape(self.d_q, (self.size, self.d_q.shape[-1]), "C")
         )
 
+    def ravel(self) -> "Self":
+        """Ravel the N-dimensional velocity.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+
+        >>> vec = cx.vecs.CartesianVelND.from_([[[1, 2]], [[3, 4]]], "m/s")
+        >>> vec.shape
+        (2, 1)
+
+        >>> vec.ravel().shape
+        (2,)
+
+        """
+        return self.flatten()
+
     def reshape(self, *shape: Any, order: str = "C") -> "Self":
         """Reshape the vector.
 
@@ -407,6 +441,23 @@ class AbstractAccND(AbstractAcc):
             self, d2_q=jnp.reshape(self.d2_q, (self.size, self.d2_q.shape[-1]), "C")
         )
 
+    def ravel(self) -> "Self":
+        """Ravel the N-dimensional acceleration.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+
+        >>> vec = cx.vecs.CartesianAccND.from_([[[1, 2]], [[3, 4]]], "m/s2")
+        >>> vec.shape
+        (2, 1)
+
+        >>> vec.ravel().shape
+        (2,)
+
+        """
+        return self.flatten()
+
     def reshape(self, *shape: Any, order: str = "C") -> "Self":
         """Reshape the vector.
 
-- 
2.43.0


From 51bac3c1b52b3037a3a14f93a5c431df181b4fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 18/41] fix: index N-dimensional vectors over the batch axes
 only

---
 src/coordinax/_src/vectors/dn/base.py | 49 +++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/src/coordinax/_src/vectors/dn/base.py b/src/coordinax/_src/vectors/dn/base.py
index 3268ec7..f993ccd 100644
--- a/src/coordinax/_src/vectors/dn/base.py
+++ b/src/coordinax/_src/vectors/dn/base.py
@@ -24,6 +24,13 @@ if TYPE_CHECKING:
     from typing import Never
 
 
+def _batch_index(index: Any, /) -> tuple[Any, ...]:
+    """Index of the batch axes, leaving the last axis (the components) alone."""
+    index = index if isinstance(index, tuple) else (index,)
+    index = index if any(i is Ellipsis for i in index) else (*index, Ellipsis)
+    return (*index, slice(None))
+
+
 class AbstractPosND(AbstractPos):
     """Abstract representation of N-D coordinates in different systems."""
 
@@ -114,6 +121,20 @@ class AbstractPosND(AbstractPos):
     # ===============================================================
     # Further array methods
 
+    def __getitem__(self, index: Any) -> "Self":
+        """Index the batch axes of the N-dimensional position.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+
+        >>> vec = cx.vecs.CartesianPosND.from_([[1, 2], [3, 4]], "m")
+        >>> vec[..., 0].q.shape
+        (2,)
+
+        """
+        return replace(self, q=self.q[_batch_index(index)])
+
     def flatten(self) -> "Self":
         """Flatten the N-dimensional position.
 
@@ -267,6 +288,20 @@ class AbstractVelND(AbstractVel):
     # ===============================================================
     # Further array methods
 
+    def __getitem__(self, index: Any) -> "Self":
+        """Index the batch axes of the N-dimensional velocity.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+
+        >>> vec = cx.vecs.CartesianVelND.from_([[1, 2], [3, 4]], "m/s")
+        >>> vec[..., 0].d_q.shape
+        (2,)
+
+        """
+        return replace(self, d_q=self.d_q[_batch_index(index)])
+
     def flatten(self) -> "Self":
         """Flatten the vector.
 
@@ -423,6 +458,20 @@ class AbstractAccND(AbstractAcc):
     # ===============================================================
     # Further array methods
 
+    def __getitem__(self, index: Any) -> "Self":
+        """Index the batch axes of the N-dimensional acceleration.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+
+        >>> vec = cx.vecs.CartesianAccND.from_([[1, 2], [3, 4]], "m/s2")
+        >>> vec[..., 0].d2_q.shape
+        (2,)
+
+        """
+        return replace(self, d2_q=self.d2_q[_batch_index(index)])
+
     def flatten(self) -> "Self":
         """Flatten the vector's batch dimensions, preserving the component axis.
 
-- 
2.43.0


From 8c05dcd8a9655b93879f73d15966cd83444d1c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 19/41] fix: compute the size of a vector from its static shape

---
 src/coordinax/_src/vectors/base/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index 09fe364..514c8ff 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -7,6 +7,7 @@ __all__ = [
     "ToUnitsOptions",
 ]
 
+import math
 from abc import abstractmethod
 from collections.abc import Callable, Mapping
 from enum import Enum
@@ -414,7 +415,7 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         4
 
         """
-        return int(jnp.prod(jnp.asarray(self.shape)))
+        return math.prod(self.shape)
 
     @property
     def T(self) -> "Self":  # noqa: N802
-- 
2.43.0


From f2c269a3683319b513ad054a11dde8bcf3460313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 20/41] fix: keep the order of rotations when simplifying a
 pipe

---
 src/coordinax/_src/operators/galilean/rotation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/galilean/rotation.py b/src/coordinax/_src/operators/galilean/rotation.py
index fa20514..ea0ae6c 100644
--- a/src/coordinax/_src/operators/galilean/rotation.py
+++ b/src/coordinax/_src/operators/galilean/rotation.py
@@ -437,4 +437,5 @@ def simplify_op(op1: GalileanRotation, op2: GalileanRotation) -> GalileanRotatio
     Array(True, dtype=bool)
 
     """
-    return GalileanRotation(rotation=op1.rotation @ op2.rotation)
+    # In a pipe the first operator is applied first.
+    return GalileanRotation(rotation=op2.rotation @ op1.rotation)
-- 
2.43.0


From c327036e87b53cc6a515bfccd4b0c39eb974b718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 21/41] fix: simplify spatial translations in other than three
 dimensions

---
 src/coordinax/_src/operators/galilean/spatial_translation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/galilean/spatial_translation.py b/src/coordinax/_src/operators/galilean/spatial_translation.py
index 873627e..52fb52b 100644
--- a/src/coordinax/_src/operators/galilean/spatial_translation.py
+++ b/src/coordinax/_src/operators/galilean/spatial_translation.py
@@ -389,7 +389,7 @@ def simplify_op(
     """
     # Check if the translation is zero.
     if jnp.allclose(
-        convert(op.translation, u.Quantity).value, jnp.zeros((3,)), **kwargs
+        convert(op.translation, u.Quantity).value, jnp.zeros(()), **kwargs
     ):
         return Identity()
     return op
-- 
2.43.0


From 81f7fa21bc44c8d3f8a69c02f915be15804b9af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 22/41] fix: pipe an operator into a pipe

---
 src/coordinax/_src/operators/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/base.py b/src/coordinax/_src/operators/base.py
index 3e4a844..23c483b 100644
--- a/src/coordinax/_src/operators/base.py
+++ b/src/coordinax/_src/operators/base.py
@@ -232,7 +232,7 @@ class AbstractOperator(eqx.Module):  # type: ignore[misc]
         from .pipe import Pipe
 
         if isinstance(other, Pipe):
-            return other.__ror__(self)
+            return Pipe((self, *other.operators))
         return Pipe((self, other))
 
 
-- 
2.43.0


From e091f96d38730c5d5e0189c96d2bc7d2c44266fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 23/41] fix: keep the speed of light when operators act on a
 spacetime vector

---
 src/coordinax/_src/operators/compat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/compat.py b/src/coordinax/_src/operators/compat.py
index 2068af2..1e778aa 100644
--- a/src/coordinax/_src/operators/compat.py
+++ b/src/coordinax/_src/operators/compat.py
@@ -3,6 +3,7 @@
 __all__: list[str] = []
 
 
+from dataclasses import replace
 from typing import Any, TypeAlias
 
 from jaxtyping import Shaped
@@ -215,7 +216,7 @@ def call(self: AbstractOperator, v4: FourVector, /, **kwargs: Any) -> FourVector
 
     """
     q, t = self(v4.q, v4.t, **kwargs)
-    return FourVector(t=t, q=q)
+    return replace(v4, t=t, q=q)
 
 
 @AbstractOperator.__call__.dispatch
-- 
2.43.0


From eb6e13d7eca21d14d83b4d40727f73c1074447a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 24/41] fix: apply pipes and Galilean operators to quantities

---
 src/coordinax/_src/operators/compat.py | 41 +++++++++++++++++---------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/coordinax/_src/operators/compat.py b/src/coordinax/_src/operators/compat.py
index 1e778aa..d65b2b0 100644
--- a/src/coordinax/_src/operators/compat.py
+++ b/src/coordinax/_src/operators/compat.py
@@ -12,7 +12,7 @@ from plum import convert
 import unxt as u
 
 from .base import AbstractOperator
-from .pipe import Pipe
+from .composite import AbstractCompositeOperator
 from coordinax._src.typing import TimeBatchOrScalar
 from coordinax._src.vectors.d1 import CartesianPos1D
 from coordinax._src.vectors.d2 import CartesianPos2D
@@ -25,7 +25,9 @@ from coordinax._src.vectors.d4 import FourVector
 Q1: TypeAlias = Shaped[u.Quantity["length"], "*#batch 1"]
 
 
-@AbstractOperator.__call__.dispatch
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q1), (AbstractCompositeOperator, Q1)
+)
 def call(self: AbstractOperator, x: Q1, /, **kwargs: Any) -> Q1:
     """Dispatch to the operator's `__call__` method.
 
@@ -44,7 +46,10 @@ def call(self: AbstractOperator, x: Q1, /, **kwargs: Any) -> Q1:
     return convert(self(CartesianPos1D.from_(x), **kwargs), u.Quantity)
 
 
-@AbstractOperator.__call__.dispatch
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q1, TimeBatchOrScalar),
+    (AbstractCompositeOperator, Q1, TimeBatchOrScalar),
+)
 def call(
     self: AbstractOperator, x: Q1, t: TimeBatchOrScalar, /, **kwargs: Any
 ) -> tuple[Q1, TimeBatchOrScalar]:
@@ -73,7 +78,9 @@ def call(
 Q2: TypeAlias = Shaped[u.Quantity["length"], "*#batch 2"]
 
 
-@AbstractOperator.__call__.dispatch
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q2), (AbstractCompositeOperator, Q2)
+)
 def call(self: AbstractOperator, x: Q2, /, **kwargs: Any) -> Q2:
     """Dispatch to the operator's `__call__` method.
 
@@ -91,7 +98,10 @@ def call(self: AbstractOperator, x: Q2, /, **kwargs: Any) -> Q2:
     return convert(self(CartesianPos2D.from_(x), **kwargs), u.Quantity)
 
 
-@AbstractOperator.__call__.dispatch
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q2, TimeBatchOrScalar),
+    (AbstractCompositeOperator, Q2, TimeBatchOrScalar),
+)
 def call(
     self: AbstractOperator, x: Q2, t: TimeBatchOrScalar, /, **kwargs: Any
 ) -> tuple[Q2, TimeBatchOrScalar]:
@@ -122,7 +132,7 @@ Q3: TypeAlias = Shaped[u.Quantity["length"], "*#batch 3"]
 
 @AbstractOperator.__call__.dispatch_multi(
     (AbstractOperator, Q3),
-    (Pipe, Q3),
+    (AbstractCompositeOperator, Q3),
 )
 def call(self: AbstractOperator, q: Q3, /, **kwargs: Any) -> Q3:
     r"""Operate on a 3D Quantity.
@@ -153,7 +163,10 @@ def call(self: AbstractOperator, q: Q3, /, **kwargs: Any) -> Q3:
     return convert(result.represent_as(CartesianPos3D), u.Quantity)
 
 
-@AbstractOperator.__call__.dispatch
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q3, TimeBatchOrScalar),
+    (AbstractCompositeOperator, Q3, TimeBatchOrScalar),
+)
 def call(
     self: AbstractOperator, x: Q3, t: TimeBatchOrScalar, /, **kwargs: Any
 ) -> tuple[Q3, TimeBatchOrScalar]:
@@ -219,13 +232,13 @@ def call(self: AbstractOperator, v4: FourVector, /, **kwargs: Any) -> FourVector
     return replace(v4, t=t, q=q)
 
 
-@AbstractOperator.__call__.dispatch
-def call(
-    self: AbstractOperator,
-    x: Shaped[u.Quantity["length"], "*batch 4"],
-    /,
-    **kwargs: Any,
-) -> Shaped[u.Quantity["length"], "*batch 4"]:
+Q4: TypeAlias = Shaped[u.Quantity["length"], "*batch 4"]
+
+
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q4), (AbstractCompositeOperator, Q4)
+)
+def call(self: AbstractOperator, x: Q4, /, **kwargs: Any) -> Q4:
     """Dispatch to the operator's `__call__` method.
 
     Examples
-- 
2.43.0


From 88d5ee804c6018185b472b98944d96e1ae5626ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 25/41] fix: give two-dimensional Cartesian velocities a norm

---
 src/coordinax/_src/vectors/d2/cartesian.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index d397af1..e62f729 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -190,6 +190,23 @@ class CartesianVel2D(AvalMixin, AbstractVel2D):
     def differential_cls(cls) -> type["CartesianAcc2D"]:
         return CartesianAcc2D
 
+    # -----------------------------------------------------
+
+    @override
+    @partial(eqx.filter_jit, inline=True)
+    def norm(self, _: AbstractPos2D | None = None, /) -> ct.BatchableSpeed:
+        """Return the norm of the vector.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+        >>> v = cx.vecs.CartesianVel2D.from_([3, 4], "km/s")
+        >>> v.norm()
+        Quantity['speed'](Array(5., dtype=float32), unit='km / s')
+
+        """
+        return jnp.sqrt(self.d_x**2 + self.d_y**2)
+
 
 # -----------------------------------------------------
 
-- 
2.43.0


From 5f30cabce8abce7b55660e482666cd1128008bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:35 +0000
Subject: [PATCH 26/41] fix: accept the velocity and position in the norm of a
 Cartesian acceleration

---
 src/coordinax/_src/vectors/d1/cartesian.py | 7 ++++++-
 src/coordinax/_src/vectors/d2/cartesian.py | 7 ++++++-
 src/coordinax/_src/vectors/d3/cartesian.py | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/d1/cartesian.py b/src/coordinax/_src/vectors/d1/cartesian.py
index 9d6b3fd..fbdc31e 100644
--- a/src/coordinax/_src/vectors/d1/cartesian.py
+++ b/src/coordinax/_src/vectors/d1/cartesian.py
@@ -287,7 +287,12 @@ class CartesianAcc1D(AvalMixin, AbstractAcc1D):
 
     @override
     @partial(eqx.filter_jit, inline=True)
-    def norm(self, _: AbstractPos1D | None = None, /) -> ct.BatchableAcc:
+    def norm(
+        self,
+        velocity: AbstractVel1D | None = None,
+        position: AbstractPos1D | None = None,
+        /,
+    ) -> ct.BatchableAcc:
         """Return the norm of the vector.
 
         Examples
diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index e62f729..8145b39 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -311,7 +311,12 @@ class CartesianAcc2D(AvalMixin, AbstractAcc2D):
 
     @override
     @partial(eqx.filter_jit, inline=True)
-    def norm(self, _: AbstractVel2D | None = None, /) -> ct.BatchableAcc:
+    def norm(
+        self,
+        velocity: AbstractVel2D | None = None,
+        position: AbstractPos2D | None = None,
+        /,
+    ) -> ct.BatchableAcc:
         """Return the norm of the vector.
 
         Examples
diff --git a/src/coordinax/_src/vectors/d3/cartesian.py b/src/coordinax/_src/vectors/d3/cartesian.py
index c5de3dc..632abca 100644
--- a/src/coordinax/_src/vectors/d3/cartesian.py
+++ b/src/coordinax/_src/vectors/d3/cartesian.py
@@ -344,7 +344,12 @@ class CartesianAcc3D(AvalMixin, AbstractAcc3D):
 
     @override
     @partial(eqx.filter_jit, inline=True)
-    def norm(self, _: AbstractVel3D | None = None, /) -> ct.BatchableAcc:
+    def norm(
+        self,
+        velocity: AbstractVel3D | None = None,
+        position: AbstractPos3D | None = None,
+        /,
+    ) -> ct.BatchableAcc:
         """Return the norm of the vector.
 
         Examples
-- 
2.43.0


From 2591813bb7a601b2c8a2537d7f682a7da3a152cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:19 +0000
Subject: [PATCH 27/41] fix: multiply N-dimensional velocities and
 accelerations by a batch of times

---
 src/coordinax/_src/vectors/dn/cartesian.py | 54 ++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/coordinax/_src/vectors/dn/cartesian.py b/src/coordinax/_src/vectors/dn/cartesian.py
index eefdf73..78c2fef 100644
--- a/src/coordinax/_src/vectors/dn/cartesian.py
+++ b/src/coordinax/_src/vectors/dn/cartesian.py
@@ -424,6 +424,24 @@ def from_(
     return cls(jnp.atleast_1d(x))
 
 
+@register(jax.lax.mul_p)  # type: ignore[misc]
+def _mul_velnd_time(lhs: CartesianVelND, rhs: u.Quantity["time"]) -> CartesianPosND:
+    """Multiply the velocity by a (batch of) time.
+
+    Examples
+    --------
+    >>> import unxt as u
+    >>> import coordinax as cx
+
+    >>> v = cx.vecs.CartesianVelND(u.Quantity([[1, 2, 3], [4, 5, 6]], "km/s"))
+    >>> (v * u.Quantity([1, 2], "s")).q
+    Quantity['length'](Array([[ 1.,  2.,  3.],
+                              [ 8., 10., 12.]], dtype=float32), unit='km')
+
+    """
+    return lhs.integral_cls(lhs.d_q * rhs[..., None])
+
+
 ##############################################################################
 # Acceleration
 
@@ -597,3 +615,39 @@ def from_(
 
     """
     return cls(jnp.atleast_1d(x))
+
+
+@register(jax.lax.mul_p)  # type: ignore[misc]
+def _mul_accnd_time(lhs: CartesianAccND, rhs: u.Quantity["time"]) -> CartesianVelND:
+    """Multiply the acceleration by a (batch of) time.
+
+    Examples
+    --------
+    >>> import unxt as u
+    >>> import coordinax as cx
+
+    >>> a = cx.vecs.CartesianAccND(u.Quantity([[1, 2], [4, 5]], "km/s2"))
+    >>> (a * u.Quantity([1, 2], "s")).d_q
+    Quantity['speed'](Array([[ 1.,  2.],
+                             [ 8., 10.]], dtype=float32), unit='km / s')
+
+    """
+    return lhs.integral_cls(lhs.d2_q * rhs[..., None])
+
+
+@register(jax.lax.mul_p)  # type: ignore[misc]
+def _mul_accnd_time2(lhs: CartesianAccND, rhs: u.Quantity["s2"]) -> CartesianPosND:
+    """Multiply the acceleration by a (batch of) time squared.
+
+    Examples
+    --------
+    >>> import unxt as u
+    >>> import coordinax as cx
+
+    >>> a = cx.vecs.CartesianAccND(u.Quantity([[1, 2], [4, 5]], "km/s2"))
+    >>> (a * u.Quantity([1, 2], "s2")).q
+    Quantity['length'](Array([[ 1.,  2.],
+                              [ 8., 10.]], dtype=float32), unit='km')
+
+    """
+    return lhs.integral_cls.integral_cls(lhs.d2_q * rhs[..., None])
-- 
2.43.0


From dc1974302acc31f685b1c5af30223182de64e5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 28/41] fix: convert N-dimensional positions to any quantity
 without an extra axis

---
 src/coordinax/_src/vectors/dn/cartesian.py | 35 ++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/dn/cartesian.py b/src/coordinax/_src/vectors/dn/cartesian.py
index 78c2fef..5751d7e 100644
--- a/src/coordinax/_src/vectors/dn/cartesian.py
+++ b/src/coordinax/_src/vectors/dn/cartesian.py
@@ -10,16 +10,17 @@ from typing_extensions import override
 import equinox as eqx
 import jax
 from jaxtyping import ArrayLike, Shaped
-from plum import conversion_method
+from plum import conversion_method, convert
 from quax import register
 
 import quaxed.lax as qlax
 import quaxed.numpy as jnp
 import unxt as u
+from unxt.quantity import AbstractQuantity, UncheckedQuantity
 
 import coordinax._src.typing as ct
 from .base import AbstractAccND, AbstractPosND, AbstractVelND
-from coordinax._src.distances import BatchableLength
+from coordinax._src.distances import BatchableLength, Distance
 from coordinax._src.utils import classproperty
 from coordinax._src.vectors.base import AbstractPos
 from coordinax._src.vectors.base.mixins import AvalMixin
@@ -174,6 +175,36 @@ def from_(
     return cls(jnp.atleast_1d(x))
 
 
+@conversion_method(CartesianPosND, AbstractQuantity)  # type: ignore[misc]
+def _vec_to_absq(obj: CartesianPosND, /) -> Shaped[AbstractQuantity, "*batch N"]:
+    """`coordinax.vecs.CartesianPosND` -> `unxt.AbstractQuantity`."""
+    return obj.q
+
+
+@conversion_method(CartesianPosND, UncheckedQuantity)  # type: ignore[misc]
+def _vec_to_uncheckedq(obj: CartesianPosND, /) -> Shaped[UncheckedQuantity, "*batch N"]:
+    """`coordinax.vecs.CartesianPosND` -> `unxt.UncheckedQuantity`.
+
+    Examples
+    --------
+    >>> from plum import convert
+    >>> from unxt.quantity import UncheckedQuantity
+    >>> import coordinax as cx
+
+    >>> vec = cx.vecs.CartesianPosND.from_([1, 2, 3, 4, 5], "kpc")
+    >>> convert(vec, UncheckedQuantity)
+    UncheckedQuantity(Array([1., 2., 3., 4., 5.], dtype=float32), unit='kpc')
+
+    """
+    return convert(obj.q, UncheckedQuantity)
+
+
+@conversion_method(CartesianPosND, Distance)  # type: ignore[misc]
+def _vec_to_distance(obj: CartesianPosND, /) -> Shaped[Distance, "*batch N"]:
+    """`coordinax.vecs.CartesianPosND` -> `coordinax.distance.Distance`."""
+    return convert(obj.q, Distance)
+
+
 @conversion_method(CartesianPosND, u.Quantity)  # type: ignore[misc]
 def _vec_to_q(obj: CartesianPosND, /) -> Shaped[u.Quantity["length"], "*batch N"]:
     """`coordinax.AbstractPos3D` -> `unxt.Quantity`.
-- 
2.43.0


From 151cc10a43a9fa4b54910142f7dcdc03b8f99050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:40 +0000
Subject: [PATCH 29/41] fix: convert N-dimensional velocities and accelerations
 to quantities

---
 src/coordinax/_src/vectors/dn/cartesian.py | 36 ++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/coordinax/_src/vectors/dn/cartesian.py b/src/coordinax/_src/vectors/dn/cartesian.py
index 5751d7e..5e96e87 100644
--- a/src/coordinax/_src/vectors/dn/cartesian.py
+++ b/src/coordinax/_src/vectors/dn/cartesian.py
@@ -455,6 +455,24 @@ def from_(
     return cls(jnp.atleast_1d(x))
 
 
+@conversion_method(CartesianVelND, u.Quantity)  # type: ignore[misc]
+def _vel_to_q(obj: CartesianVelND, /) -> Shaped[u.Quantity["speed"], "*batch N"]:
+    """`coordinax.vecs.CartesianVelND` -> `unxt.Quantity`.
+
+    Examples
+    --------
+    >>> from plum import convert
+    >>> import unxt as u
+    >>> import coordinax as cx
+
+    >>> vec = cx.vecs.CartesianVelND.from_([1, 2, 3, 4], "km/s")
+    >>> convert(vec, u.Quantity)
+    Quantity['speed'](Array([1., 2., 3., 4.], dtype=float32), unit='km / s')
+
+    """
+    return obj.d_q
+
+
 @register(jax.lax.mul_p)  # type: ignore[misc]
 def _mul_velnd_time(lhs: CartesianVelND, rhs: u.Quantity["time"]) -> CartesianPosND:
     """Multiply the velocity by a (batch of) time.
@@ -648,6 +666,24 @@ def from_(
     return cls(jnp.atleast_1d(x))
 
 
+@conversion_method(CartesianAccND, u.Quantity)  # type: ignore[misc]
+def _acc_to_q(obj: CartesianAccND, /) -> Shaped[u.Quantity["acceleration"], "*batch N"]:
+    """`coordinax.vecs.CartesianAccND` -> `unxt.Quantity`.
+
+    Examples
+    --------
+    >>> from plum import convert
+    >>> import unxt as u
+    >>> import coordinax as cx
+
+    >>> vec = cx.vecs.CartesianAccND.from_([1, 2, 3, 4], "km/s2")
+    >>> convert(vec, u.Quantity)
+    Quantity['acceleration'](Array([1., 2., 3., 4.], dtype=float32), unit='km / s2')
+
+    """
+    return obj.d2_q
+
+
 @register(jax.lax.mul_p)  # type: ignore[misc]
 def _mul_accnd_time(lhs: CartesianAccND, rhs: u.Quantity["time"]) -> CartesianVelND:
     """Multiply the acceleration by a (batch of) time.
-- 
2.43.0


From 56623b3df235ced1f1e4e48701473512eefcbf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:43 +0000
Subject: [PATCH 30/41] fix: compare spaces

---
 src/coordinax/_src/vectors/base/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index 514c8ff..84730fc 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -616,10 +616,16 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         if type(other) is not type(self):
             return NotImplemented
 
+        others = dict(field_items(other))
+        if set(others) != {k for k, _ in field_items(self)}:
+            return NotImplemented
+
         # Compare the components as quantities, so that the units and shapes of
         # the components don't have to match.
         shape = jnp.broadcast_shapes(self.shape, other.shape)
-        comp_eqs = [v == getattr(other, k) for k, v in field_items(self)]
+        comp_eqs = [
+            jax.numpy.asarray(v == others[k]) for k, v in field_items(self)
+        ]
         # Reduce any non-batch axes of the components.
         comp_eqs = [eq.all(axis=tuple(range(len(shape), eq.ndim))) for eq in comp_eqs]
         return jax.numpy.logical_and.reduce(
-- 
2.43.0


From 0226e9385c8bd4c59f9cc77f79381a1ec50f8ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:20 +0000
Subject: [PATCH 31/41] fix: convert velocities and accelerations at positions
 of another batch shape

---
 .../_src/vectors/transform/accelerations.py        | 14 +++++++-------
 src/coordinax/_src/vectors/transform/velocities.py | 12 ++++++------
 src/coordinax/_src/vectors/utils.py                |  6 +++---
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/coordinax/_src/vectors/transform/accelerations.py b/src/coordinax/_src/vectors/transform/accelerations.py
index cc72215..47cc556 100644
--- a/src/coordinax/_src/vectors/transform/accelerations.py
+++ b/src/coordinax/_src/vectors/transform/accelerations.py
@@ -21,6 +21,7 @@ from coordinax._src.vectors.base.flags import AttrFilter
 from coordinax._src.vectors.d1 import AbstractAcc1D
 from coordinax._src.vectors.d2 import AbstractAcc2D
 from coordinax._src.vectors.d3 import AbstractAcc3D
+from coordinax._src.vectors.utils import broadcast_components
 
 
 # TODO: implement for cross-representations
@@ -119,10 +120,6 @@ def represent_as(
     )
 
     """
-    # TODO: not require the shape munging / support more shapes
-    shape = current.shape
-    flat_shape = prod(shape)
-
     # Parse the position to an AbstractPos
     if isinstance(position, AbstractPos):
         posvec = position
@@ -139,8 +136,11 @@ def represent_as(
             velocity
         )
 
-    posvec = posvec.reshape(flat_shape)  # flattened
-    velvec = velvec.reshape(flat_shape)  # flattened
+    # TODO: not require the shape munging / support more shapes
+    shape = jnp.broadcast_shapes(current.shape, velvec.shape, posvec.shape)
+    flat_shape = prod(shape)
+    posvec = broadcast_components(posvec, shape).reshape(flat_shape)
+    velvec = broadcast_components(velvec, shape).reshape(flat_shape)
 
     # Start by transforming the position to the type required by the
     # differential to construct the Jacobian.
@@ -204,7 +204,7 @@ def represent_as(
     )
 
     # Now we can use the Jacobian to transform the differential.
-    flat_current = current.reshape(flat_shape)
+    flat_current = broadcast_components(current, shape).reshape(flat_shape)
     newvec = target(
         **{  # Each field is the dot product of the row of the J and the diff column.
             k: jnp.sum(  # Doing the dot product.
diff --git a/src/coordinax/_src/vectors/transform/velocities.py b/src/coordinax/_src/vectors/transform/velocities.py
index 30fbc5e..b7cf0ea 100644
--- a/src/coordinax/_src/vectors/transform/velocities.py
+++ b/src/coordinax/_src/vectors/transform/velocities.py
@@ -21,6 +21,7 @@ from coordinax._src.vectors.base.flags import AttrFilter
 from coordinax._src.vectors.d1 import AbstractVel1D
 from coordinax._src.vectors.d2 import AbstractVel2D
 from coordinax._src.vectors.d3 import AbstractVel3D
+from coordinax._src.vectors.utils import broadcast_components
 
 
 # TODO: implement for cross-representations
@@ -97,10 +98,6 @@ def represent_as(
     )
 
     """
-    # TODO: not require the shape munging / support more shapes
-    shape = current.shape
-    flat_shape = prod(shape)
-
     # Parse the position to an AbstractPos
     if isinstance(position, AbstractPos):
         posvec = position
@@ -109,7 +106,10 @@ def represent_as(
             position
         )
 
-    posvec = posvec.reshape(flat_shape)  # flattened
+    # TODO: not require the shape munging / support more shapes
+    shape = jnp.broadcast_shapes(current.shape, posvec.shape)
+    flat_shape = prod(shape)
+    posvec = broadcast_components(posvec, shape).reshape(flat_shape)
 
     # Start by transforming the position to the type required by the
     # differential to construct the Jacobian.
@@ -148,7 +148,7 @@ def represent_as(
     }
 
     # Now we can use the Jacobian to transform the differential.
-    flat_current = current.reshape(flat_shape)
+    flat_current = broadcast_components(current, shape).reshape(flat_shape)
     newvec = target(
         **{  # Each field is the dot product of the row of the J and the diff column.
             k: jnp.sum(  # Doing the dot product.
diff --git a/src/coordinax/_src/vectors/utils.py b/src/coordinax/_src/vectors/utils.py
index 5f731d6..b7c7ab0 100644
--- a/src/coordinax/_src/vectors/utils.py
+++ b/src/coordinax/_src/vectors/utils.py
@@ -32,10 +32,10 @@ def full_shaped(obj: "AbstractVector", /) -> "AbstractVector":
     (2,)
 
     """
-    return _broadcast_components(obj, obj.shape)
+    return broadcast_components(obj, obj.shape)
 
 
-def _broadcast_components(
+def broadcast_components(
     obj: "AbstractVector", shape: tuple[int, ...], /
 ) -> "AbstractVector":
     """Broadcast all components, including nested vectors, to a batch shape."""
@@ -45,7 +45,7 @@ def _broadcast_components(
     return _dataclass_replace(
         obj,
         **{
-            k: _broadcast_components(v, shape)
+            k: broadcast_components(v, shape)
             if isinstance(v, AbstractVector)
             # components can have non-batch axes after the batch axes
             else jnp.broadcast_to(v, (*shape, *v.shape[ndim:]))
-- 
2.43.0


From 854ec89d9abeab30df7ceee6a01de5ed3168575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:20 +0000
Subject: [PATCH 32/41] fix: index spaces whose vectors have different batch
 shapes

---
 src/coordinax/_src/vectors/space/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/space/core.py b/src/coordinax/_src/vectors/space/core.py
index 31e4b44..7f55c15 100644
--- a/src/coordinax/_src/vectors/space/core.py
+++ b/src/coordinax/_src/vectors/space/core.py
@@ -27,6 +27,7 @@ from coordinax._src.vectors.base import (
     AbstractVector,
     AbstractVel,
 )
+from coordinax._src.vectors.utils import full_shaped
 
 DimensionLike: TypeAlias = Dimension | str
 
@@ -217,7 +218,7 @@ class Space(AbstractVector, ImmutableMap[Dimension, AbstractVector]):  # type: i
         highlights core python indexing.
 
         """
-        return Space(**{k: v[key] for k, v in self.items()})
+        return Space(**{k: v[key] for k, v in full_shaped(self).items()})
 
     @dispatch
     def __getitem__(self, key: str | Dimension) -> Any:
-- 
2.43.0


From a79b7241973461a5726777d55ce71a5580ba6862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:35 +0000
Subject: [PATCH 33/41] fix: reject spaces with two vectors of the same
 dimension

---
 src/coordinax/_src/vectors/space/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/space/core.py b/src/coordinax/_src/vectors/space/core.py
index 7f55c15..e933233 100644
--- a/src/coordinax/_src/vectors/space/core.py
+++ b/src/coordinax/_src/vectors/space/core.py
@@ -114,7 +114,7 @@ class Space(AbstractVector, ImmutableMap[Dimension, AbstractVector]):  # type: i
         keys = [_get_dimension_name(k) for k in raw]
         keys = eqx.error_if(
             keys,
-            len(keys) < len(raw),
+            len(set(keys)) < len(raw),
             f"Space(**input) contained duplicate keys {set(raw) - set(keys)}.",
         )
         # TODO: check the key dimension makes sense for the value
-- 
2.43.0


From 4891daa2004cc2afead7670b8dea2590383ac391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:59 +0000
Subject: [PATCH 34/41] fix: frame transformation operators accept position
 vectors

The operators between ICRS and Galactocentric had no dispatch for a position
vector alone, so that neither they nor pipes of them (which turn quantities into
vectors, e.g. between two Galactocentric frames) could transform positions.
---
 .../frame_transforms.py                       | 38 +++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/coordinax/_coordinax_space_frames/frame_transforms.py b/src/coordinax/_coordinax_space_frames/frame_transforms.py
index 7d75802..9a4b055 100644
--- a/src/coordinax/_coordinax_space_frames/frame_transforms.py
+++ b/src/coordinax/_coordinax_space_frames/frame_transforms.py
@@ -289,6 +289,25 @@ class _ICRS2GCFOperator(AbstractOperator):
 
         return qpvec, ppvec
 
+    @dispatch
+    def __call__(self, qvec: AbstractPos3D, /) -> CartesianPos3D:
+        """Transform q from ICRS Cartesian -> GCF Cartesian.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+        >>> import coordinax.frames as cxf
+
+        >>> frame_op = cxf.frame_transform_op(cxf.ICRS(), cxf.Galactocentric())
+
+        >>> q = cx.CartesianPos3D.from_([0, 0, 0], "pc")
+        >>> print(frame_op(q))
+        <CartesianPos3D (x[pc], y[pc], z[pc])
+            [-8121.973     0.       20.8  ]>
+
+        """
+        return CartesianPos3D.from_(self._call_q(convert(qvec, u.Quantity)))
+
 
 @dispatch  # type: ignore[misc]
 def frame_transform_op(
@@ -522,6 +541,25 @@ class _GCF2ICRSOperator(AbstractOperator):
 
         return qpvec, ppvec
 
+    @dispatch
+    def __call__(self, qvec: AbstractPos3D, /) -> CartesianPos3D:
+        """Transform q from GCF Cartesian -> ICRS Cartesian.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+        >>> import coordinax.frames as cxf
+
+        >>> frame_op = cxf.frame_transform_op(cxf.Galactocentric(), cxf.ICRS())
+
+        >>> q = cx.CartesianPos3D.from_([0, 0, 0], "pc")
+        >>> print(frame_op(q).uconvert({"length": "kpc"}))
+        <CartesianPos3D (x[kpc], y[kpc], z[kpc])
+            [-0.446 -7.094 -3.93 ]>
+
+        """
+        return CartesianPos3D.from_(self._call_q(convert(qvec, u.Quantity)))
+
 
 @dispatch  # type: ignore[misc]
 def frame_transform_op(
-- 
2.43.0


From 76ffe0584136d244aad6f1a86befbc33a726bfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:53 +0000
Subject: [PATCH 35/41] fix: the norm of spherical positions is a length,
 whatever the kind of distance

---
 src/coordinax/_src/vectors/d3/lonlatspherical.py | 2 +-
 src/coordinax/_src/vectors/d3/mathspherical.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/lonlatspherical.py b/src/coordinax/_src/vectors/d3/lonlatspherical.py
index c488f79..58f9d29 100644
--- a/src/coordinax/_src/vectors/d3/lonlatspherical.py
+++ b/src/coordinax/_src/vectors/d3/lonlatspherical.py
@@ -143,7 +143,7 @@ class LonLatSphericalPos(AbstractSphericalPos):
         Distance(Array(3., dtype=float32), unit='kpc')
 
         """
-        return self.distance
+        return self.distance.distance
 
 
 @LonLatSphericalPos.from_._f.register  # type: ignore[attr-defined, misc]  # noqa: SLF001
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index f508f21..c2395c5 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -96,7 +96,7 @@ class MathSphericalPos(AbstractSphericalPos):
         Distance(Array(3., dtype=float32), unit='kpc')
 
         """
-        return self.r
+        return self.r.distance
 
 
 @MathSphericalPos.from_._f.register  # type: ignore[attr-defined, misc]  # noqa: SLF001
-- 
2.43.0


From c597762670ac98da141d6b33d1320c11896d6abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:20 +0000
Subject: [PATCH 36/41] fix: scale the distance of polar and spherical
 positions, whatever kind of distance they hold

---
 src/coordinax/_src/vectors/d2/polar.py         | 2 +-
 src/coordinax/_src/vectors/d3/mathspherical.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/d2/polar.py b/src/coordinax/_src/vectors/d2/polar.py
index fce3e18..c27daad 100644
--- a/src/coordinax/_src/vectors/d2/polar.py
+++ b/src/coordinax/_src/vectors/d2/polar.py
@@ -94,7 +94,7 @@ def _mul_p_vpolar(lhs: ArrayLike, rhs: PolarPos, /) -> PolarPos:
     # Scale the radial distance. A negative factor gives the opposite direction.
     phi = converter_azimuth_to_range(rhs.phi + _180d)
     return replace(
-        rhs, r=jnp.abs(lhs) * rhs.r, phi=jnp.where(lhs < 0, phi, rhs.phi)
+        rhs, r=jnp.abs(lhs) * rhs.r.distance, phi=jnp.where(lhs < 0, phi, rhs.phi)
     )
 
 
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index c2395c5..485b2b3 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -224,7 +224,7 @@ def _mul_p_vmsph(lhs: ArrayLike, rhs: MathSphericalPos, /) -> MathSphericalPos:
     theta = converter_azimuth_to_range(rhs.theta + _180d)
     return replace(
         rhs,
-        r=jnp.abs(lhs) * rhs.r,
+        r=jnp.abs(lhs) * rhs.r.distance,
         theta=jnp.where(pred, theta, rhs.theta),
         phi=jnp.where(pred, -(rhs.phi - _180d), rhs.phi),
     )
-- 
2.43.0


From c6c0e3af646484ca9232e887388494024ae6dc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:09 +0000
Subject: [PATCH 37/41] fix: a distance modulus or parallax as the radius is
 not a negative distance

---
 src/coordinax/_src/vectors/checks.py             |  7 ++++++-
 src/coordinax/_src/vectors/d3/lonlatspherical.py | 12 +++++++-----
 src/coordinax/_src/vectors/d3/mathspherical.py   | 12 +++++++-----
 src/coordinax/_src/vectors/d3/spherical.py       | 12 +++++++-----
 4 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/coordinax/_src/vectors/checks.py b/src/coordinax/_src/vectors/checks.py
index b94a9a0..95f198e 100644
--- a/src/coordinax/_src/vectors/checks.py
+++ b/src/coordinax/_src/vectors/checks.py
@@ -10,6 +10,7 @@ import unxt as u
 from unxt.quantity import AbstractQuantity
 
 from coordinax._src.angles import Angle, BatchableAngleQ
+from coordinax._src.distances import AbstractDistance
 
 _0d = Angle(0, "rad")
 _pid = Angle(180, "deg")
@@ -36,7 +37,11 @@ def check_r_non_negative(r: AbstractQuantity) -> AbstractQuantity:
     ... except Exception: pass
 
     """
-    return check_non_negative(r, name="radial distance r")
+    # A distance modulus is negative for distances under 10 pc.
+    dist = r.distance if isinstance(r, AbstractDistance) else r
+    return eqx.error_if(
+        r, xp.any(dist < 0), "The input radial distance r must be non-negative."
+    )
 
 
 def check_polar_range(
diff --git a/src/coordinax/_src/vectors/d3/lonlatspherical.py b/src/coordinax/_src/vectors/d3/lonlatspherical.py
index 58f9d29..cf05d61 100644
--- a/src/coordinax/_src/vectors/d3/lonlatspherical.py
+++ b/src/coordinax/_src/vectors/d3/lonlatspherical.py
@@ -224,11 +224,13 @@ def from_(
     distance = fields["distance"].metadata["converter"](distance)
     lon, lat, distance = jnp.broadcast_arrays(lon, lat, distance)
 
-    # 2) handle negative distances
-    distance_pred = distance < jnp.zeros_like(distance)
-    distance = qlax.select(distance_pred, -distance, distance)
-    lon = qlax.select(distance_pred, lon + _180d, lon)
-    lat = qlax.select(distance_pred, -lat, lat)
+    # 2) handle negative distances. A parallax or distance modulus has none: its
+    #    sign is not that of the distance.
+    if isinstance(distance, Distance):
+        distance_pred = distance < jnp.zeros_like(distance)
+        distance = qlax.select(distance_pred, -distance, distance)
+        lon = qlax.select(distance_pred, lon + _180d, lon)
+        lat = qlax.select(distance_pred, -lat, lat)
 
     # 3) Handle latitude outside of [-90, 90] degrees
     lat_pred = jnp.abs(lat) > _180d  # wrap to [-180, 180) deg
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index 485b2b3..981eb5e 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -168,11 +168,13 @@ def from_(
     phi = fields["phi"].metadata["converter"](phi)
     r, theta, phi = jnp.broadcast_arrays(r, theta, phi)
 
-    # 2) handle negative distances
-    r_pred = r < jnp.zeros_like(r)
-    r = qlax.select(r_pred, -r, r)
-    theta = qlax.select(r_pred, theta + _180d, theta)
-    phi = qlax.select(r_pred, _180d - phi, phi)
+    # 2) handle negative distances. A parallax or distance modulus has none: its
+    #    sign is not that of the distance.
+    if isinstance(r, Distance):
+        r_pred = r < jnp.zeros_like(r)
+        r = qlax.select(r_pred, -r, r)
+        theta = qlax.select(r_pred, theta + _180d, theta)
+        phi = qlax.select(r_pred, _180d - phi, phi)
 
     # 3) Handle polar angle outside of [0, 180] degrees
     phi = jnp.mod(phi, _360d)  # wrap to [0, 360) deg
diff --git a/src/coordinax/_src/vectors/d3/spherical.py b/src/coordinax/_src/vectors/d3/spherical.py
index bb30226..68c8c80 100644
--- a/src/coordinax/_src/vectors/d3/spherical.py
+++ b/src/coordinax/_src/vectors/d3/spherical.py
@@ -146,11 +146,13 @@ def from_(
     phi = fields["phi"].metadata["converter"](phi)
     r, theta, phi = jnp.broadcast_arrays(r, theta, phi)
 
-    # 2) handle negative distances
-    r_pred = r < jnp.zeros_like(r)
-    r = qlax.select(r_pred, -r, r)
-    phi = qlax.select(r_pred, phi + _180d, phi)
-    theta = qlax.select(r_pred, _180d - theta, theta)
+    # 2) handle negative distances. A parallax or distance modulus has none: its
+    #    sign is not that of the distance.
+    if isinstance(r, Distance):
+        r_pred = r < jnp.zeros_like(r)
+        r = qlax.select(r_pred, -r, r)
+        phi = qlax.select(r_pred, phi + _180d, phi)
+        theta = qlax.select(r_pred, _180d - theta, theta)
 
     # 3) Handle polar angle outside of [0, 180] degrees
     theta = jnp.mod(theta, _360d)  # wrap to [0, 360) deg
-- 
2.43.0


From 74640267215f2a26909ca5019adf651ea7c51552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:09 +0000
Subject: [PATCH 38/41] fix: lower and raise positions whose radius is a
 parallax or distance modulus

---
 src/coordinax/_src/vectors/transform/d1.py |  6 +++---
 src/coordinax/_src/vectors/transform/d2.py |  4 ++--
 src/coordinax/_src/vectors/transform/d3.py | 16 ++++++++--------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/coordinax/_src/vectors/transform/d1.py b/src/coordinax/_src/vectors/transform/d1.py
index ca27163..d0f031b 100644
--- a/src/coordinax/_src/vectors/transform/d1.py
+++ b/src/coordinax/_src/vectors/transform/d1.py
@@ -284,7 +284,7 @@ def represent_as(
     Quantity['length'](Array(14., dtype=float32), unit='km')
 
     """
-    return target(x=current.r, y=y)
+    return target(x=current.r.distance, y=y)
 
 
 @dispatch
@@ -364,7 +364,7 @@ def represent_as(
     Quantity['length'](Array(0., dtype=float32), unit='m')
 
     """
-    return target(x=current.r, y=y, z=z)
+    return target(x=current.r.distance, y=y, z=z)
 
 
 @dispatch
@@ -468,4 +468,4 @@ def represent_as(
     Quantity['length'](Array(0., dtype=float32), unit='m')
 
     """
-    return target(rho=current.r, phi=phi, z=z)
+    return target(rho=current.r.distance, phi=phi, z=z)
diff --git a/src/coordinax/_src/vectors/transform/d2.py b/src/coordinax/_src/vectors/transform/d2.py
index b4900fb..a1d2263 100644
--- a/src/coordinax/_src/vectors/transform/d2.py
+++ b/src/coordinax/_src/vectors/transform/d2.py
@@ -245,7 +245,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(x=current.r * jnp.cos(current.phi))
+    return target(x=current.r.distance * jnp.cos(current.phi))
 
 
 @dispatch
@@ -364,4 +364,4 @@ def represent_as(
     Quantity['length'](Array(14., dtype=float32), unit='km')
 
     """
-    return target(rho=current.r, phi=current.phi, z=z)
+    return target(rho=current.r.distance, phi=current.phi, z=z)
diff --git a/src/coordinax/_src/vectors/transform/d3.py b/src/coordinax/_src/vectors/transform/d3.py
index c3f1cb8..c0f9b85 100644
--- a/src/coordinax/_src/vectors/transform/d3.py
+++ b/src/coordinax/_src/vectors/transform/d3.py
@@ -293,7 +293,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(x=current.r * jnp.sin(current.theta) * jnp.cos(current.phi))
+    return target(x=current.r.distance * jnp.sin(current.theta) * jnp.cos(current.phi))
 
 
 @dispatch
@@ -352,8 +352,8 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    x = current.r * jnp.sin(current.theta) * jnp.cos(current.phi)
-    y = current.r * jnp.sin(current.theta) * jnp.sin(current.phi)
+    x = current.r.distance * jnp.sin(current.theta) * jnp.cos(current.phi)
+    y = current.r.distance * jnp.sin(current.theta) * jnp.sin(current.phi)
     return target(x=x, y=y)
 
 
@@ -382,7 +382,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(r=current.r * jnp.sin(current.theta), phi=current.phi)
+    return target(r=current.r.distance * jnp.sin(current.theta), phi=current.phi)
 
 
 # =============================================================================
@@ -417,7 +417,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(x=current.r * jnp.sin(current.phi) * jnp.cos(current.theta))
+    return target(x=current.r.distance * jnp.sin(current.phi) * jnp.cos(current.theta))
 
 
 @dispatch
@@ -476,8 +476,8 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    x = current.r * jnp.sin(current.phi) * jnp.cos(current.theta)
-    y = current.r * jnp.sin(current.phi) * jnp.sin(current.theta)
+    x = current.r.distance * jnp.sin(current.phi) * jnp.cos(current.theta)
+    y = current.r.distance * jnp.sin(current.phi) * jnp.sin(current.theta)
     return target(x=x, y=y)
 
 
@@ -506,7 +506,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(r=current.r * jnp.sin(current.phi), phi=current.theta)
+    return target(r=current.r.distance * jnp.sin(current.phi), phi=current.theta)
 
 
 # =============================================================================
-- 
2.43.0


From eb7dd53eec0098274f75da4d029de3efa76ab6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:56 +0000
Subject: [PATCH 39/41] fix: broadcast vectors along the requested axes, and
 without their attributes

---
 .../_src/vectors/base/register_primitives.py  | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/register_primitives.py b/src/coordinax/_src/vectors/base/register_primitives.py
index 3368038..99e4b3b 100644
--- a/src/coordinax/_src/vectors/base/register_primitives.py
+++ b/src/coordinax/_src/vectors/base/register_primitives.py
@@ -7,10 +7,12 @@ from typing import Any
 import jax
 from quax import quaxify, register
 
+import quaxed.lax as qlax
 import quaxed.numpy as jnp
 from dataclassish import field_items, replace
 
 from .base import AbstractVector
+from .flags import AttrFilter
 
 
 @register(jax.lax.convert_element_type_p)  # type: ignore[misc]
@@ -26,7 +28,11 @@ def _convert_element_type_p(operand: AbstractVector, **kwargs: Any) -> AbstractV
 
 @register(jax.lax.broadcast_in_dim_p)  # type: ignore[misc]
 def _broadcast_in_dim_p(
-    operand: AbstractVector, *, shape: tuple[int, ...], **kwargs: Any
+    operand: AbstractVector,
+    *,
+    shape: tuple[int, ...],
+    broadcast_dimensions: tuple[int, ...],
+    **kwargs: Any,
 ) -> AbstractVector:
     """Broadcast in a dimension.
 
@@ -132,8 +138,21 @@ def _broadcast_in_dim_p(
 
     """
     # TODO: use `jax.lax.broadcast_in_dim_p`
+    # The last axis is that of the components, which cannot be broadcast.
+    if (
+        not broadcast_dimensions
+        or broadcast_dimensions[-1] != len(shape) - 1
+        or shape[-1] != len(operand.components)
+    ):
+        msg = "only the batch axes of a vector can be broadcast."
+        raise ValueError(msg)
     c_shape = shape[:-1]
+    c_dims = broadcast_dimensions[:-1]
+    batch = operand.shape
     return replace(
         operand,
-        **{k: jnp.broadcast_to(v, c_shape) for k, v in field_items(operand)},
+        **{
+            k: qlax.broadcast_in_dim(jnp.broadcast_to(v, batch), c_shape, c_dims)
+            for k, v in field_items(AttrFilter, operand)
+        },
     )
-- 
2.43.0


From 60350228e260a91e405c826f6bdef13e0f842433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:52 +0000
Subject: [PATCH 40/41] fix: from_ refuses arrays with the wrong number of
 components

Indexing the last axis out of bounds clamps to the last entry, so components
were silently duplicated or dropped. A one-dimensional vector made from a
(*batch,) quantity kept only the first element.
---
 src/coordinax/_src/vectors/d1/base.py      | 10 ++++++----
 src/coordinax/_src/vectors/d2/cartesian.py |  5 +++++
 src/coordinax/_src/vectors/d3/cartesian.py |  5 +++++
 src/coordinax/_src/vectors/d3/generic.py   |  5 +++++
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/coordinax/_src/vectors/d1/base.py b/src/coordinax/_src/vectors/d1/base.py
index e7f443f..55b41a4 100644
--- a/src/coordinax/_src/vectors/d1/base.py
+++ b/src/coordinax/_src/vectors/d1/base.py
@@ -8,7 +8,6 @@ from dataclasses import fields
 
 from jaxtyping import Shaped
 
-import quaxed.numpy as jnp
 import unxt as u
 
 from coordinax._src.utils import classproperty
@@ -69,7 +68,8 @@ def from_(
     RadialPos(r=Distance(value=f32[], unit=Unit("m")))
 
     """
-    comps = {f.name: jnp.atleast_1d(obj)[..., i] for i, f in enumerate(fields(cls))}
+    obj = obj if obj.shape[-1:] == (1,) else obj[..., None]
+    comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
 
 
@@ -129,7 +129,8 @@ def from_(
     RadialVel( d_r=Quantity[...]( value=i32[], unit=Unit("m / s") ) )
 
     """
-    comps = {f.name: jnp.atleast_1d(obj)[..., i] for i, f in enumerate(fields(cls))}
+    obj = obj if obj.shape[-1:] == (1,) else obj[..., None]
+    comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
 
 
@@ -183,5 +184,6 @@ def from_(
     RadialAcc( d2_r=Quantity[...](value=i32[], unit=Unit("m / s2")) )
 
     """
-    comps = {f.name: jnp.atleast_1d(obj)[..., i] for i, f in enumerate(fields(cls))}
+    obj = obj if obj.shape[-1:] == (1,) else obj[..., None]
+    comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index 8145b39..a3b969d 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -350,6 +350,11 @@ def from_(cls: type[CartesianAcc2D], obj: AbstractQuantity, /) -> CartesianAcc2D
     )
 
     """
+    obj = eqx.error_if(
+        obj,
+        obj.shape[-1:] != (2,),
+        f"Cannot construct {cls} from array with shape {obj.shape}.",
+    )
     comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
 
diff --git a/src/coordinax/_src/vectors/d3/cartesian.py b/src/coordinax/_src/vectors/d3/cartesian.py
index 632abca..e65a887 100644
--- a/src/coordinax/_src/vectors/d3/cartesian.py
+++ b/src/coordinax/_src/vectors/d3/cartesian.py
@@ -88,6 +88,11 @@ def from_(
     )
 
     """
+    obj = eqx.error_if(
+        obj,
+        obj.shape[-1:] != (3,),
+        f"Cannot construct {cls} from array with shape {obj.shape}.",
+    )
     comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
 
diff --git a/src/coordinax/_src/vectors/d3/generic.py b/src/coordinax/_src/vectors/d3/generic.py
index c7b56ca..7621563 100644
--- a/src/coordinax/_src/vectors/d3/generic.py
+++ b/src/coordinax/_src/vectors/d3/generic.py
@@ -95,5 +95,10 @@ def from_(
     )
 
     """
+    obj = eqx.error_if(
+        obj,
+        obj.shape[-1:] != (3,),
+        f"Cannot construct {cls} from array with shape {obj.shape}.",
+    )
     comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
-- 
2.43.0


From 9f65ed1ca254849ef5dac1fff70906e50ba12cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:52 +0000
Subject: [PATCH 41/41] fix: iterating over a vector terminates

Iteration fell back on __getitem__, which clamps indices and never raises
IndexError, so 'for v in vector' never ended.
---
 src/coordinax/_src/vectors/base/base.py  | 26 +++++++++++++++++++++++-
 src/coordinax/_src/vectors/space/core.py |  6 +++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index 84730fc..57bdd47 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -9,7 +9,7 @@ __all__ = [
 
 import math
 from abc import abstractmethod
-from collections.abc import Callable, Mapping
+from collections.abc import Callable, Iterator, Mapping
 from enum import Enum
 from types import MappingProxyType
 from typing import TYPE_CHECKING, Any, NoReturn, TypeVar
@@ -713,6 +713,30 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
     # ===============================================================
     # JAX API
 
+    def __iter__(self) -> Iterator["Self"]:
+        """Iterate over the first batch axis.
+
+        Examples
+        --------
+        >>> import unxt as u
+        >>> import coordinax as cx
+
+        >>> vec = cx.vecs.CartesianPos1D(u.Quantity([1, 2], "m"))
+        >>> [float(v.x.value) for v in vec]
+        [1.0, 2.0]
+
+        >>> try:
+        ...     iter(vec[0])
+        ... except TypeError as e:
+        ...     print(e)
+        iteration over a 0-d vector
+
+        """
+        if self.ndim == 0:
+            msg = "iteration over a 0-d vector"
+            raise TypeError(msg)
+        return (self[i] for i in range(len(self)))
+
     def __len__(self) -> int:
         """Return the length of the vector.
 
diff --git a/src/coordinax/_src/vectors/space/core.py b/src/coordinax/_src/vectors/space/core.py
index e933233..d6fc698 100644
--- a/src/coordinax/_src/vectors/space/core.py
+++ b/src/coordinax/_src/vectors/space/core.py
@@ -2,7 +2,7 @@
 
 __all__ = ["Space"]
 
-from collections.abc import Callable, Iterable, Mapping
+from collections.abc import Callable, Iterable, Iterator, Mapping
 from textwrap import indent
 from types import MappingProxyType
 from typing import Any, TypeAlias, final
@@ -258,6 +258,10 @@ class Space(AbstractVector, ImmutableMap[Dimension, AbstractVector]):  # type: i
     # ===============================================================
     # Quax
 
+    def __iter__(self) -> Iterator[str]:
+        """Iterate over the dimensions of the space."""
+        return ImmutableMap.__iter__(self)
+
     def aval(self) -> jax.core.ShapedArray:
         """Return the vector as a JAX array."""
         raise NotImplementedError  # TODO: implement this
-- 
2.43.0

