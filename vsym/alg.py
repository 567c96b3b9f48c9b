"""Exact symbolic scalars: polynomials / rational functions over named atoms.

An *atom* is an SMT real variable together with its definition: a plain input,
``pi``, a radical (a >= 0, a^2 = P), the sine/cosine of an angle, an angle
introduced by atan2/acos/asin, the logarithm of something, ...  Polynomials are
kept reduced modulo the square rules of radicals and sin^2 = 1 - cos^2, so
that many algebraic identities become syntactic; whatever is left is decided by
the SMT solver, to which every definition is handed as a constraint.
"""
from __future__ import annotations

import math
from fractions import Fraction

import z3

Num = (int, Fraction)


class Unsupported(Exception):
    """The encoder cannot express this operation."""


class NeedGranularity(Exception):
    """An angle is used in a finer fraction than it was declared for."""

    def __init__(self, name, g):
        super().__init__(f"angle {name} needs granularity {g}")
        self.atom_name, self.g = name, g


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ("d", "_h", "_k", "_z")

    def __init__(self, d):
        self.d = d
        self._h = None
        self._k = None
        self._z = None

    def key(self):
        if self._k is None:
            self._k = frozenset(self.d.items())
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def is_zero(self):
        return not self.d

    def const(self):
        """Return the rational value if constant else None."""
        if not self.d:
            return 0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def atoms(self):
        s = set()
        for m in self.d:
            for a, _ in m:
                s.add(a)
        return s

    def degree(self):
        return max((sum(e for _, e in m) for m in self.d), default=0)

    def __repr__(self):
        return " + ".join(
            f"{c}*" + "*".join(f"a{a}^{e}" for a, e in m) for m, c in self.d.items()
        ) or "0"


ZERO = Poly({})
ONE = Poly({(): 1})


def pconst(c):
    c = _norm(c)
    return Poly({(): c}) if c else ZERO


def padd(p, q):
    if not p.d:
        return q
    if not q.d:
        return p
    r = dict(p.d)
    for m, c in q.d.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = _norm(v)
        else:
            r.pop(m, None)
    return Poly(r)


def pscale(p, c):
    if not c:
        return ZERO
    if c == 1:
        return p
    return Poly({m: _norm(v * c) for m, v in p.d.items()})


def pneg(p):
    return Poly({m: -v for m, v in p.d.items()})


def psub(p, q):
    return padd(p, pneg(q))


_mm = {}


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    k = (m, n)
    r = _mm.get(k)
    if r is None:
        d = dict(m)
        for a, e in n:
            d[a] = d.get(a, 0) + e
        r = tuple(sorted(d.items()))
        if len(_mm) < 2_000_000:
            _mm[k] = r
    return r


def pmul_raw(p, q):
    if not p.d or not q.d:
        return ZERO
    if len(p.d) > len(q.d):
        p, q = q, p
    r = {}
    for m, c in p.d.items():
        for n, e in q.d.items():
            k = mmul(m, n)
            r[k] = r.get(k, 0) + c * e
    return Poly({m: _norm(c) for m, c in r.items() if c})


def _iroot(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def _squarefree_int(n):
    """n = s^2 * f with f square free (by trial division, bounded)."""
    s, f, p = 1, 1, 2
    while p * p <= n and p < 20000:
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        s *= p ** (e // 2)
        if e & 1:
            f *= p
        p += 1
    r = _iroot(n)
    if r is not None and r > 1:
        s *= r
    else:
        f *= n
    return s, f


# ---------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("idx", "name", "kind", "sq", "z", "nonneg", "trig", "gran",
                 "lo", "hi", "lo_open", "hi_open", "info", "range_quads")

    def __init__(self, idx, name, kind):
        self.idx, self.name, self.kind = idx, name, kind
        self.sq = None
        self.z = z3.Real(f"{name}")
        self.nonneg = False
        self.trig = None
        self.gran = 1
        self.lo = self.hi = None
        self.lo_open = self.hi_open = False
        self.info = None
        self.range_quads = None


class _Bad:
    """A value that is NaN/inf in IEEE arithmetic (0/0, sqrt(-1), ...)."""

    def __init__(self, why="undefined"):
        self.why = why

    def __repr__(self):
        return f"<BAD {self.why}>"


BAD = _Bad()


def isbad(x):
    return isinstance(x, _Bad)


class Rat:
    """num / prod(f^e)   (den: tuple of (Poly, exp), each a nonconstant poly)."""

    __slots__ = ("num", "den", "_h", "src")

    def __init__(self, num, den=()):
        self.num = num
        self.den = den if num.d else ()
        self._h = None
        self.src = None     # (op, operands...): how the value was computed, before normalisation

    def key(self):
        if self._h is None:
            self._h = (self.num.key(), frozenset((f.key(), e) for f, e in self.den))
        return self._h

    def const(self):
        return self.num.const() if not self.den else None

    def __repr__(self):
        return f"({self.num!r})/{self.den!r}" if self.den else repr(self.num)


RZERO = Rat(ZERO)
RONE = Rat(ONE)


def rconst(c):
    return Rat(pconst(c))


# ------------------------------------------------------------------ constants
def _simplest_between(lo, hi):
    """Simplest fraction in [lo, hi] (positive)."""
    # continued fraction
    def rec(a, b):
        fa = a.numerator // a.denominator
        if fa == a:
            return Fraction(fa)
        fb = b.numerator // b.denominator
        if fa < fb:
            return Fraction(fa + 1)
        r = rec(1 / (b - fa), 1 / (a - fa))
        return fa + 1 / r

    return rec(lo, hi)


_snap_cache = {}
_PI_HI = Fraction("3.14159265358979323846264338327950288419716939937510582097")
_LN10 = Fraction("2.302585092994045684017991454684364207601101488628772976033")


def _smooth(n):
    for p in (2, 3, 5, 7):
        while n % p == 0:
            n //= p
    return n == 1


def snap(f):
    """float -> (Fraction q, k, l, exact): value = q * pi^k * ln10^l ."""
    f = float(f)
    if f in _snap_cache:
        return _snap_cache[f]
    if f == 0:
        r = (Fraction(0), 0, 0)
    else:
        s = 1 if f > 0 else -1
        x = Fraction(abs(f))
        eps = Fraction(1, 2**50)
        best = None
        for k, l in ((0, 0), (1, 0), (-1, 0), (2, 0), (-2, 0), (0, 1), (0, -1)):
            y = x / (_PI_HI**k) / (_LN10**l)
            q = _simplest_between(y * (1 - eps), y * (1 + eps))
            # complexity in bits
            cx = q.numerator.bit_length() + q.denominator.bit_length() + (6 if (k, l) != (0, 0) else 0)
            if best is None or cx < best[0]:
                best = (cx, q, k, l)
        cx, q, k, l = best
        # a "random" float needs ~50 bits total; short decimals/rationals need fewer
        if cx <= 36 or (cx <= 58 and _smooth(q.numerator) and _smooth(q.denominator)) or (k == l == 0 and q.denominator == 1):
            r = (s * q, k, l)
        else:
            # decimal with few digits?
            dec = Fraction(repr(abs(f)))
            if len(repr(abs(f)).replace(".", "").strip("0").split("e")[0]) <= 13:
                r = (s * dec, 0, 0)
            else:
                r = (s * x, 0, 0)
    _snap_cache[f] = r
    return r
