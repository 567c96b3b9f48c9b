"""Harnesses: a Python function over the real API, plus claims about its results."""
from __future__ import annotations

import json
import math
import os
import random
import time
import traceback
from dataclasses import dataclass, field
from fractions import Fraction
from typing import Any, Callable

import jax
import jax.numpy as jnp
import numpy as np
import z3

from . import trace as T
from .alg import BAD, NeedGranularity, Poly, Rat, RONE, RZERO, Unsupported, isbad, rconst
from .ctx import (Ctx, Infeasible, PathLimit, SBool, Stats, band, bnot, bor, solve, zfloat)
from .interp import CheckFired, Interp, flat, oarr


@dataclass
class Real:
    lo: Any = None
    hi: Any = None
    lo_open: bool = False
    hi_open: bool = False
    shape: tuple = ()
    vals: tuple | None = None   # finite set of exact values (for discrete inputs)


@dataclass
class Ang:
    """Angle in radians; bounds are multiples of pi."""
    lo: Any = None
    hi: Any = None
    lo_open: bool = False
    hi_open: bool = False
    shape: tuple = ()


def Pos(**k):
    return Real(lo=0, lo_open=True, **k)


def NonNeg(**k):
    return Real(lo=0, **k)


class Claims:
    def __init__(self, concrete=False):
        self.items = []   # (kind, name, arrays)
        self.exc = None
        self.concrete = concrete

    def eq(self, name, a, b, tol=None):
        a, b = _val(a), _val(b)
        if jnp.shape(a) != jnp.shape(b):
            self.items.append(("false", f"{name}: shapes {jnp.shape(a)} != {jnp.shape(b)}", ()))
            return
        if _narrow(a) or _narrow(b):
            self.items.append(("false", f"{name}: precision lost ({a.dtype} vs {b.dtype})", ()))
            return
        self.items.append(("eq", name, (a, b), tol))

    def angle(self, name, a, b):
        a, b = _val(a), _val(b)
        if jnp.shape(a) != jnp.shape(b):
            self.items.append(("false", f"{name}: shapes {jnp.shape(a)} != {jnp.shape(b)}", ()))
            return
        self.items.append(("eq", name + ".sin", (jnp.sin(a), jnp.sin(b)), None))
        self.items.append(("eq", name + ".cos", (jnp.cos(a), jnp.cos(b)), None))

    def le(self, name, a, b):
        self.items.append(("le", name, jnp.broadcast_arrays(_val(a), _val(b)), None))

    def lt(self, name, a, b):
        self.items.append(("lt", name, jnp.broadcast_arrays(_val(a), _val(b)), None))

    def true(self, name, b):
        if isinstance(b, (bool, np.bool_)):
            self.items.append(("ok" if b else "false", name, ()))
        else:
            self.items.append(("true", name, (_val(b),), None))

    def close(self, name, a, b, tol):
        """|a - b| <= tol (arrays): for facts true only up to float constants."""
        a, b = _val(a), _val(b)
        if jnp.shape(a) != jnp.shape(b):
            self.items.append(("false", f"{name}: shapes {jnp.shape(a)} != {jnp.shape(b)}", ()))
            return
        t = jnp.broadcast_to(jnp.asarray(tol, dtype=float), jnp.shape(a))
        self.items.append(("close", name, (a, b, t), None))


def _narrow(x):
    """All inputs are doubles: a single-precision result has lost digits."""
    return x.dtype in (jnp.float32, jnp.float16, jnp.bfloat16, jnp.complex64)


def _val(x):
    if hasattr(x, "unit") and hasattr(x, "value"):
        x = x.value
    return jnp.asarray(x)


def _filtered(f):
    """Call f with the keyword arguments it declares."""
    import inspect
    ps = inspect.signature(f).parameters
    if any(p.kind == p.VAR_KEYWORD for p in ps.values()):
        return f
    return lambda **kw: f(**{k: v for k, v in kw.items() if k in ps})


@dataclass
class Harness:
    prop: str
    name: str
    fn: Callable
    inputs: dict
    assume: Callable | None = None
    errors: Callable | None = None      # inputs -> bool: must raise iff
    tiers: tuple = ("quick", "thorough")
    known: str | None = None            # id of a known finding this harness may exhibit
    note: str = ""
    max_paths: int = 400
    ms: int = 4000
    raises_ok: tuple = ()               # exception types which are acceptable (no claim)
    budget: float = 120.0
    group: str = ""
    cut: Callable | None = None         # input name -> group; sums mixing groups are named (see Ctx.cut)
    extra: dict = field(default_factory=dict)

    def __post_init__(self):
        self.name = self.name.replace(" ", "_")
        if self.assume is not None:
            self.assume = _filtered(self.assume)
        if self.errors is not None:
            self.errors = _filtered(self.errors)


@dataclass
class Violation:
    harness: str
    claim: str
    inputs: dict
    detail: str
    known: str | None = None


class Result:
    def __init__(self, h):
        self.h = h
        self.name = h.name
        self.paths = 0
        self.raising = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.inconclusive: list[str] = []
        self.violations: list[Violation] = []
        self.spurious: list[str] = []
        self.stats = Stats()
        self.eqns = 0
        self.prims = {}
        self.wall = 0.0
        self.error = None
        self.reach = 0
        self.validated = 0
        self.valfail: list[str] = []
        self.traces = 0
        self.raw_ok = self.raw_same = self.raw_unknown = self.raw_skipped = 0
        self.samples = []


def _avals(h):
    return [jax.ShapeDtypeStruct(v.shape, jnp.float64) for v in h.inputs.values()]


def _mkfn(h, meta):
    names = list(h.inputs)

    def f(*vals):
        c = Claims()
        meta.clear()
        kw = dict(zip(names, vals))
        try:
            h.fn(c, **kw)
        except Exception as e:  # noqa: BLE001
            c.exc = e
            meta["tb"] = traceback.format_exc(limit=-6)
        meta["claims"] = [(it[0], it[1], len(it[2]), it[3] if len(it) > 3 else None) for it in c.items]
        meta["exc"] = c.exc
        return [x for it in c.items for x in it[2]]
    return f


def make_inputs(ctx, h):
    """Create the symbolic inputs, in declaration order."""
    args, sym = [], {}
    for n, s in h.inputs.items():
        el = []
        for i in np.ndindex(*s.shape) if s.shape else [()]:
            nm = n + ("_" + "_".join(map(str, i)) if i else "")
            if isinstance(s, Ang):
                r = ctx.angle_input(nm, s.lo, s.hi, s.lo_open, s.hi_open)
            else:
                r = ctx.real_input(nm, s.lo, s.hi, s.lo_open, s.hi_open)
            el.append(r)
        a = oarr(s.shape, iter(el))
        args.append(a)
        sym[n] = a
    return args, sym


def input_atoms(ctx):
    return [a for a in ctx.atoms if a.kind in ("in", "ang_in")]


def concretise(h, ctx, model):
    """Model -> concrete float inputs (several candidates)."""
    base, alt = {}, {}
    by = {a.name: a for a in ctx.atoms}

    for n, s in h.inputs.items():
        v1 = np.zeros(s.shape)
        v2 = np.zeros(s.shape)
        for i in np.ndindex(*s.shape) if s.shape else [()]:
            nm = n + ("_" + "_".join(map(str, i)) if i else "")
            a = by[nm]
            x = zfloat(model, a.z)
            if a.trig is not None:
                try:
                    sv = neval_model(ctx, model, a.trig[0])
                    cv = neval_model(ctx, model, a.trig[1])
                    t = math.atan2(sv, cv) * a.gran
                    per = 2 * math.pi * a.gran
                    if isinstance(s, Ang) and s.lo is not None and s.hi is not None:
                        lo, hi = float(s.lo) * math.pi, float(s.hi) * math.pi
                        # choose the representative nearest the model's value within range
                        k0 = math.floor((lo - t) / per) - 1
                        cand = [t + per * k for k in range(k0, k0 + 8)]
                        cand = [q for q in cand if lo - 1e-12 <= q <= hi + 1e-12] or [t]
                        tt = min(cand, key=lambda q: abs(q - x))
                        tt = min(max(tt, lo), hi)
                    else:
                        tt = t + per * round((x - t) / per)
                    v2[i] = x
                    v1[i] = tt
                    continue
                except Exception:  # noqa: BLE001
                    pass
            v1[i] = v2[i] = x
        base[n] = v1
        alt[n] = v2
    return [base, alt]


def neval_model(ctx, model, r):
    num = zfloat(model, ctx.zpoly(r.num))
    den = 1.0
    for f, e in r.den:
        den *= zfloat(model, ctx.zpoly(f)) ** e
    return num / den


def numeric_env(ctx, vals):
    """Numeric value of every atom given the concrete inputs (dict name->float)."""
    env = {}

    def poly(p):
        t = 0.0
        for m, c in p.d.items():
            x = float(c)
            for a, e in m:
                x *= env[a] ** e
            t += x
        return t

    def rat(r):
        d = 1.0
        for f, e in r.den:
            d *= poly(f) ** e
        return poly(r.num) / d

    def ang(s, c, lo, hi):
        t = math.atan2(s, c)
        if lo is not None:
            l, h_ = rat(lo) if isinstance(lo, Rat) else float(lo), rat(hi)
            if t < l - 1e-9:
                t += 2 * math.pi
        return t

    for a in ctx.atoms:
        k = a.kind
        if a.idx in env:
            continue
        if k == "pi":
            v = math.pi
        elif k == "ln10":
            v = math.log(10)
        elif k in ("in", "ang_in"):
            v = vals[a.name]
        elif k in ("sin", "cos"):
            if a.info is None:
                d = ctx.defs[a.idx]
                raise Unsupported("opaque constant angle")
            b = ctx.atoms[a.info]
            v = (math.sin if k == "sin" else math.cos)(env[b.idx] / b.gran)
        elif k == "rad":
            v = math.sqrt(max(poly(a.sq), 0.0))
        elif k == "angle":
            if a.info is not None:
                v = rat(a.info)
            else:
                v = ang(rat(a.trig[0]), rat(a.trig[1]), a.lo, a.hi)
        elif k == "log":
            v = math.log(rat(a.info))
        elif k == "cbrt":
            v = math.cbrt(rat(a.info))
        elif k == "exp":
            v = math.exp(rat(a.info))
        elif k == "cut":
            v = rat(a.info)
        elif k == "int":
            kind, x, y = a.info
            if kind == "rem":
                v = float(math.trunc(rat(x) / rat(y)))
            else:
                v = float({"floor": math.floor, "ceil": math.ceil, "round": round}[kind](rat(x)))
        else:
            raise Unsupported(f"numeric value of {k}")
        env[a.idx] = v
    return env, poly, rat


_mode = [None]


def mode(m):
    """Switch between tracing (stubbed) and real execution; compiled caches must not leak."""
    if _mode[0] is not None and _mode[0] != m:
        jax.clear_caches()
    _mode[0] = m


def run_concrete(h, inp):
    """Run the harness on concrete floats against the real code. -> list of failed claims."""
    mode("real")
    kw = {n: jnp.asarray(np.asarray(v, dtype=float)) for n, v in inp.items()}
    c = Claims(concrete=True)
    exc = None
    try:
        with np.errstate(all="ignore"):
            h.fn(c, **kw)
            jax.block_until_ready([x for it in c.items for x in it[2]])
    except Exception as e:  # noqa: BLE001
        exc = e
    fails = []
    if h.errors is not None:
        must = bool(np.any(np.asarray(h.errors(**kw))))
        if exc is not None and not must:
            fails.append(("raises", f"raised {type(exc).__name__}: {str(exc).strip()[:300]} although the input is valid"))
        if exc is None and must:
            fails.append(("raises", "accepted an input outside the documented domain"))
        if exc is not None:
            return fails
    elif exc is not None:
        if isinstance(exc, h.raises_ok) or h.extra.get("checks_ok") and "Equinox" in type(exc).__name__:
            return []
        return [("raises", f"raised {type(exc).__name__}: {str(exc).strip()[:300]}")]
    big = max([1.0] + [float(np.max(np.abs(v))) for v in inp.values() if np.size(v)])
    for it in c.items:
        kind, name = it[0], it[1]
        if kind == "ok":
            continue
        if kind == "false":
            fails.append((name, "does not hold"))
            continue
        arrs = [np.asarray(x) for x in it[2]]
        tol = it[3] if it[3] is not None else 1e-7
        if kind == "eq":
            a, b = arrs
            if a.dtype == bool or b.dtype == bool:
                bad = a.astype(bool) != b.astype(bool)
            else:
                a, b = a.astype(float), b.astype(float)
                sc = np.maximum(np.abs(a), np.abs(b))
                bad = ~(np.abs(a - b) <= 1e-10 * big + tol * sc)
                bad &= ~((a == b))
            if np.any(bad):
                i = tuple(np.argwhere(bad)[0])
                fails.append((name, f"{a[i]!r} != {b[i]!r} at {i}"))
        elif kind in ("le", "lt"):
            a, b = (x.astype(float) for x in arrs)
            eps = 1e-9 * np.maximum(1.0, np.maximum(np.abs(a), np.abs(b)))
            bad = ~(a <= b + eps)
            if np.any(bad):
                i = tuple(np.argwhere(bad)[0])
                fails.append((name, f"{a[i]!r} > {b[i]!r} at {i}"))
        elif kind == "close":
            a, b, t = (x.astype(float) for x in arrs)
            bad = ~(np.abs(a - b) <= t * (1 + 1e-6) + 1e-300)
            if np.any(bad):
                i = tuple(np.argwhere(bad)[0])
                fails.append((name, f"|{a[i]!r} - {b[i]!r}| > {t[i]!r} at {i}"))
        elif kind == "true":
            if not np.all(arrs[0].astype(bool)):
                fails.append((name, "false"))
    return fails


def assume_concrete(h, inp):
    for n, s in h.inputs.items():
        v = np.asarray(inp[n])
        sc = math.pi if isinstance(s, Ang) else 1.0
        if s.lo is not None and not np.all(v > float(s.lo) * sc if s.lo_open else v >= float(s.lo) * sc - 1e-15):
            return False
        if s.hi is not None and not np.all(v < float(s.hi) * sc if s.hi_open else v <= float(s.hi) * sc + 1e-15):
            return False
    if h.assume is None:
        return True
    kw = {n: jnp.asarray(np.asarray(v, dtype=float)) for n, v in inp.items()}
    return all(bool(np.all(np.asarray(b))) for b in h.assume(**kw))


def sample_inputs(h, rng, tries=200):
    for _ in range(tries):
        inp = {}
        for n, s in h.inputs.items():
            v = np.zeros(s.shape)
            sc = math.pi if isinstance(s, Ang) else 1.0
            for i in np.ndindex(*s.shape) if s.shape else [()]:
                lo = float(s.lo) * sc if s.lo is not None else (-3.0 if s.hi is None else float(s.hi) * sc - 6)
                hi = float(s.hi) * sc if s.hi is not None else (lo + 6.0)
                v[i] = lo + (hi - lo) * rng.uniform(0.03, 0.97)
            inp[n] = v
        if assume_concrete(h, inp):
            return inp
    return None


class Runner:
    def __init__(self, h, tier="quick", seed=1, deadline=None):
        self.h, self.tier, self.seed = h, tier, seed
        self.res = Result(h)
        self.rng = random.Random(f"{seed}:{h.name}")
        self.gran = {}
        self.ms = h.ms if tier == "quick" else h.ms * 8
        self.feas = 400 if tier == "quick" else 3000
        budget = h.budget if tier == "quick" else h.budget * 8
        self.t_end = time.time() + budget
        if deadline:
            self.t_end = min(self.t_end, deadline)
        self.ms_raw = 150 if tier == "quick" else 3000
        self.t_raw = 2.0 if tier == "quick" else 60.0
        self.aux = {}
        self.seen_viol = set()

    # ---- jaxpr of assume / errors
    def aux_jaxpr(self, key, f):
        if key not in self.aux:
            names = list(self.h.inputs)

            def g(*vals):
                r = f(**dict(zip(names, vals)))
                r = r if isinstance(r, (list, tuple)) else [r]
                return [jnp.asarray(x) for x in r]
            self.aux[key] = jax.make_jaxpr(g)(*_avals(self.h))
        return self.aux[key]

    def run(self):
        h, res = self.h, self.res
        t0 = time.time()
        try:
            for attempt in range(24):
                try:
                    self._explore()
                    break
                except NeedGranularity as e:
                    g = self.gran.get(e.atom_name, 1)
                    self.gran[e.atom_name] = e.g * g // math.gcd(e.g, g)
                    st, ph = res.stats, res
                    self.res = res = Result(h)
                    res.stats.add(st)
            else:
                res.inconclusive.append("fractions of angles: too many restarts")
        except Exception as e:  # noqa: BLE001
            res.error = f"{type(e).__name__}: {e}"
            res.inconclusive.append(f"encoder: {res.error}")
            res.tb = traceback.format_exc(limit=-8)
            self.fallback_concrete("encoder error")
        res.wall = time.time() - t0
        return res

    def _explore(self):
        tpend = [()]
        seen_t = 0
        while tpend:
            tp = tpend.pop()
            seen_t += 1
            if seen_t > 64:
                self.res.inconclusive.append("trace branches: limit of 64 reached")
                break
            meta = {}
            mode("trace")
            with T.stubs():
                cj, events = T.trace(_mkfn(self.h, meta), _avals(self.h), tp)
            for i in range(len(tp), len(events)):
                tpend.append(tuple(events[:i]) + (not events[i],))
            self.res.traces += 1
            self._paths(cj, dict(meta))

    def _paths(self, cj, meta):
        pend = [()]
        n = 0
        while pend:
            if time.time() > self.t_end:
                self.res.inconclusive.append(f"time budget: {len(pend)} path prefixes unexplored")
                return
            pre = pend.pop()
            n += 1
            if n > self.h.max_paths:
                self.res.inconclusive.append(f"path limit {self.h.max_paths}")
                return
            ctx = Ctx(pre, self.res.stats, self.gran, self.feas)
            try:
                self._one(ctx, cj, meta)
            except Infeasible:
                pass
            pend.extend(ctx.pending)

    def _one(self, ctx, cj, meta):
        h, res = self.h, self.res
        ctx.group_map = h.cut
        args, sym = make_inputs(ctx, h)
        I = Interp(ctx)
        if h.assume is not None:
            aj = self.aux_jaxpr("assume", h.assume)
            for o in I.eval_closed(aj, args):
                for b in flat(I.lift(o)):
                    ctx.assume(I.tobool(b))
        exc = meta["exc"]
        msg = None
        outs = None
        try:
            outs = I.eval_closed(cj, args)
        except CheckFired as e:
            msg = f"check fired: {e.msg}"
        res.eqns = max(res.eqns, I.neqns)
        for k, v in I.prims.items():
            res.prims[k] = max(res.prims.get(k, 0), v)
        if msg is None and exc is not None:
            msg = f"{type(exc).__name__}: {str(exc).strip()[:300]}"
        # Is this path really reachable?
        r, model = ctx.check([], ms=self.ms, full=True, model=True)
        if r == "unsat":
            return
        res.paths += 1
        if r == "sat":
            res.reach += 1
        if msg is not None:
            res.raising += 1
        if h.errors is not None:
            ej = self.aux_jaxpr("errors", h.errors)
            eo = I.eval_closed(ej, args)
            eb = bor(*[I.tobool(b) for o in eo for b in flat(I.lift(o))])
            res.obligations += 1
            bad = bnot(eb) if msg is not None else eb
            self.obligation(ctx, "raises", bad, None, msg or "accepted an input outside the documented domain")
            if msg is not None:
                return
        elif msg is not None:
            if exc is not None and isinstance(exc, h.raises_ok) or exc is None and h.extra.get("checks_ok"):
                return
            res.obligations += 1
            if r == "sat":
                self.candidate(ctx, "raises", [model], msg)
            else:
                res.inconclusive.append(f"raising path of unknown feasibility: {msg}")
            return
        k = 0
        undefined_reported = False
        for kind, name, na, tol in meta["claims"]:
            arrs = outs[k:k + na]
            k += na
            if kind == "ok":
                res.obligations += 1
                res.discharged += 1
                res.trivial += 1
                continue
            if kind == "false":
                res.obligations += 1
                if r == "sat":
                    self.candidate(ctx, name, [model], "structural claim false")
                continue
            arrs = [I.lift(a) for a in arrs]
            for i in np.ndindex(*arrs[0].shape) if arrs[0].shape else [()]:
                vals = [a[i] for a in arrs]
                res.obligations += 1
                nm = name + (str(list(i)) if i else "")
                if any(isbad(v) for v in vals):
                    if r == "sat":
                        self.candidate(ctx, nm, [model], "undefined value (NaN): " + "; ".join(ctx.undefined[:2]))
                    else:
                        res.inconclusive.append(f"{nm}: undefined on a path of unknown feasibility")
                    continue
                bad, margin = self.negate(ctx, I, kind, vals)
                self.obligation(ctx, nm, bad, margin, f"{kind} claim fails")
        if len(res.samples) < 3 and r == "sat":
            res.samples.append(dict(path=list(ctx.dlog), path_condition_literals=len(ctx.pc),
                                    atoms=len(ctx.atoms), example=_json(concretise(h, ctx, model)[0])))
        self.validate(ctx, I, meta, outs)

    def negate(self, ctx, I, kind, vals):
        if kind == "true":
            return bnot(I.tobool(vals[0])), None
        a, b = vals[0], vals[1]
        if isinstance(a, (bool, SBool)) or isinstance(b, (bool, SBool)):
            from .ctx import bxor
            return bxor(I.tobool(a), I.tobool(b)), None
        if kind == "eq":
            d = ctx.sub(a, b)
            if d.num.d and ctx.cutdefs:
                d2 = ctx.uncut(d)
                if not isbad(d2) and not d2.num.d:
                    return False, None
            if not d.num.d:
                self.cross(ctx, a, b)
                return False, None
            bad = bnot(ctx.cmp("eq", d, RZERO))
            m = rconst(Fraction(1, 1000))
            margin = bor(ctx.cmp("ge", d, m), ctx.cmp("le", d, ctx.neg(m)))
            return bad, margin
        if kind == "le":
            m = rconst(Fraction(1, 1000))
            return ctx.cmp("gt", a, b), ctx.cmp("gt", ctx.sub(a, m), b)
        if kind == "lt":
            m = rconst(Fraction(1, 1000))
            return ctx.cmp("ge", a, b), ctx.cmp("gt", ctx.sub(a, m), b)
        if kind == "close":
            t = vals[2]
            d = ctx.sub(a, b)
            bad = bor(ctx.cmp("gt", d, t), ctx.cmp("lt", d, ctx.neg(t)))
            t2 = ctx.mul(t, rconst(1000))
            margin = bor(ctx.cmp("gt", d, t2), ctx.cmp("lt", d, ctx.neg(t2)))
            return bad, margin
        raise Unsupported(kind)

    def cross(self, ctx, a, b):
        """The normal form says a == b: ask the solver about the terms as computed."""
        res = self.res
        if self.t_raw <= 0:
            res.raw_skipped += 1
            return
        t0 = time.time()
        r = ctx.raw_equal(a, b, self.ms_raw)
        self.t_raw -= time.time() - t0
        if r == "unsat":
            res.raw_ok += 1
        elif r == "same":
            res.raw_same += 1
        elif r == "sat":
            res.valfail.append("normal form and unnormalised encoding disagree")
        else:
            res.raw_unknown += 1

    def box(self, ctx):
        out = []
        for a in input_atoms(ctx):
            if a.kind == "in":
                out.append(SBool(z3.And(a.z >= -64, a.z <= 64), {a.idx}))
        return out

    def obligation(self, ctx, name, bad, margin, detail):
        res = self.res
        if bad is False:
            # syntactically discharged; hand the trivial goal to the solver for the record
            r = "unsat"
            res.trivial += 1
        else:
            key = name
            if key in self.seen_viol:
                return
            r = ctx.check([bad], ms=self.ms)
        if r == "unsat":
            res.discharged += 1
            return
        models = []
        t_end = time.time() + (20 if self.tier == "quick" else 120)
        for extra in (([margin] if margin is not None else []) + self.box(ctx), [margin] if margin is not None else None, self.box(ctx), []):
            if extra is None or time.time() > t_end:
                continue
            q = extra if margin is not None and margin in extra else [bad, *extra]
            rr, m = ctx.check(q, ms=self.ms, full=True, model=True)
            if rr == "sat":
                models.append(m)
            elif rr == "unsat" and not extra:
                res.discharged += 1
                return
        if models:
            self.candidate(ctx, name, models, detail)
            return
        # inconclusive: pin the inputs to concrete points (bounded search, still decided by the solver)
        self.pinned(ctx, name, bad, detail)

    def pinned(self, ctx, name, bad, detail):
        res = self.res
        trig = [(Fraction(3, 5), Fraction(4, 5)), (Fraction(-5, 13), Fraction(12, 13)), (Fraction(8, 17), Fraction(-15, 17)),
                (Fraction(-20, 29), Fraction(-21, 29))]
        unsat = 0
        for t in range(6):
            if time.time() > self.t_end:
                break
            cs = []
            for a in input_atoms(ctx):
                if a.trig is not None:
                    s, c = self.rng.choice(trig)
                    if self.h.inputs and a.nonneg and a.range_quads and a.range_quads[1] == 1:
                        s = abs(s)
                    for tr, v in zip(a.trig, (s, c)):
                        cs.append(SBool(ctx.zpoly(tr.num) == z3.RealVal(str(v)), tr.num.atoms()))
                else:
                    lo = a.lo if isinstance(a.lo, (int, Fraction)) else -4
                    hi = a.hi if isinstance(a.hi, (int, Fraction)) else max(lo, 0) + 6
                    v = lo + (Fraction(hi) - lo) * Fraction(self.rng.randint(1, 31), 32)
                    cs.append(SBool(a.z == z3.RealVal(str(v)), {a.idx}))
            rr, m = ctx.check([bad, *cs], ms=self.ms, full=True, model=True)
            if rr == "sat":
                self.candidate(ctx, name, [m], detail)
                return
            unsat += rr == "unsat"
        res.inconclusive.append(f"{name}: general query unknown; {unsat} pinned points refuted")

    def candidate(self, ctx, name, models, detail):
        """Replay solver models against the real code."""
        h, res = self.h, self.res
        tried = []
        cands = []
        for m in models:
            for inp in concretise(h, ctx, m):
                if not any(all(np.array_equal(inp[k], o[k]) for k in inp) for o in cands):
                    cands.append(inp)
        for inp in cands:
            if not all(np.all(np.isfinite(v)) for v in inp.values()) or not assume_concrete(h, inp):
                tried.append("model outside assumptions after rounding")
                continue
            fails = run_concrete(h, inp)
            if fails:
                self.report(inp, fails, detail)
                self.seen_viol.add(name)
                return True
            tried.append("replay passed")
        # neighbours of the model (rounding may hide the failure)
        for inp in cands[:1]:
            for _ in range(6):
                jit = {k: v * (1 + 0.2 * self.rng.uniform(-1, 1)) for k, v in inp.items()}
                if assume_concrete(h, jit):
                    fails = run_concrete(h, jit)
                    if fails:
                        self.report(jit, fails, detail)
                        self.seen_viol.add(name)
                        return True
        res.spurious.append(f"{name}: {detail} -- solver model does not reproduce ({tried[:2]}); e.g. {_json(cands[0]) if cands else None}")
        return False

    def report(self, inp, fails, detail):
        for nm, why in fails[:4]:
            if nm in self.seen_viol:
                continue
            self.seen_viol.add(nm)
            self.res.violations.append(Violation(self.h.name, nm, _json(inp), why, self.h.known))

    def fallback_concrete(self, why):
        """The encoding failed: replay a few inputs, because an API failure is itself a violation."""
        for _ in range(3):
            inp = sample_inputs(self.h, self.rng)
            if inp is None:
                return
            try:
                fails = run_concrete(self.h, inp)
            except Exception as e:  # noqa: BLE001
                self.res.inconclusive.append(f"concrete run failed: {e}")
                return
            if fails:
                self.report(inp, fails, why)
                return

    def validate(self, ctx, I, meta, outs):
        """Push a concrete input through the real code and the encoding of this path."""
        res = self.res
        lim = self.h.extra.get("validate", 1 if self.tier == "thorough" else (1 if self.rng.random() < 0.25 else 0))
        if res.validated >= lim or self.h.errors is not None:
            return
        inp = sample_inputs(self.h, self.rng, 50)
        if inp is None:
            return
        try:
            vals = {}
            for n, s in self.h.inputs.items():
                for i in np.ndindex(*s.shape) if s.shape else [()]:
                    vals[n + ("_" + "_".join(map(str, i)) if i else "")] = float(inp[n][i])
            env, poly, rat = numeric_env(ctx, vals)
            sub = [(a.z, z3.RealVal(str(Fraction(env[a.idx])))) for a in ctx.atoms if a.idx in env]
            for b in ctx.pc:
                if not z3.is_true(z3.simplify(z3.substitute(b.e, *sub))):
                    return
            mode("real")
            c = Claims(concrete=True)
            self.h.fn(c, **{n: jnp.asarray(v) for n, v in inp.items()})
            real = [np.asarray(x) for it in c.items for x in it[2]]
            for o, rv in zip(outs, real):
                o = I.lift(o)
                for i in np.ndindex(*o.shape) if o.shape else [()]:
                    v = o[i]
                    if isinstance(v, Rat):
                        e = rat(v)
                        if not abs(e - rv[i]) <= 1e-6 * max(1.0, abs(e), abs(float(rv[i]))):
                            res.valfail.append(f"encoding gives {e}, real code gives {rv[i]} at {_json(inp)}")
                            return
            res.validated += 1
        except Exception as e:  # noqa: BLE001
            res.notes = getattr(res, "notes", []) + [f"validation skipped: {type(e).__name__}: {e}"]


def _json(inp):
    return {k: np.asarray(v).tolist() for k, v in inp.items()}
