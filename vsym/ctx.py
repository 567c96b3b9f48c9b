"""One symbolic execution path: atoms, definitions, path condition, arithmetic."""
from __future__ import annotations

import math
import os
import time
from fractions import Fraction

import z3

from .alg import (BAD, ONE, RONE, RZERO, ZERO, Atom, NeedGranularity, Poly, Rat,
                  Unsupported, _squarefree_int, isbad, mmul, padd, pconst, pmul_raw,
                  pneg, pscale, psub, rconst, snap)


class Infeasible(Exception):
    """The current path condition is unsatisfiable."""


class PathLimit(Exception):
    pass


class SBool:
    __slots__ = ("e", "at")

    def __init__(self, e, at):
        self.e, self.at = e, frozenset(at)


def band(*xs):
    r = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    if len(r) == 1:
        return r[0]
    return SBool(z3.And(*[x.e for x in r]), frozenset().union(*[x.at for x in r]))


def bor(*xs):
    r = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    if len(r) == 1:
        return r[0]
    return SBool(z3.Or(*[x.e for x in r]), frozenset().union(*[x.at for x in r]))


def bnot(x):
    if isinstance(x, bool):
        return not x
    return SBool(z3.Not(x.e), x.at)


def bxor(x, y):
    if isinstance(x, bool):
        return bnot(y) if x else y
    if isinstance(y, bool):
        return bnot(x) if y else x
    return SBool(z3.Xor(x.e, y.e), x.at | y.at)


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.sat = self.unsat = self.unknown = 0
        self.maxq = 0.0

    def add(self, o):
        for k in ("queries", "time", "sat", "unsat", "unknown"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.maxq = max(self.maxq, o.maxq)

    def asdict(self):
        return dict(queries=self.queries, solver_s=round(self.time, 3), sat=self.sat,
                    unsat=self.unsat, unknown=self.unknown, slowest_s=round(self.maxq, 3))


PI_LO, PI_HI = "3.14159265358979323846", "3.14159265358979323847"


class Ctx:
    def __init__(self, prefix=(), stats=None, gran=None, feas_ms=400):
        self.atoms: list[Atom] = []
        self.defs: dict[int, list] = {}
        self.pc: list[SBool] = []
        self.prefix = list(prefix)
        self.dlog: list[int] = []
        self.pending: list[tuple] = []
        self.stats = stats or Stats()
        self.gran = gran or {}
        self.feas_ms = feas_ms
        self.known: list = []      # (poly == atom^2, atom)
        self.group_map = None      # input name -> group label, when sums across groups are to be named
        self.group_memo: dict = {}
        self.cut_cache: dict = {}
        self.cutdefs: dict = {}
        self.factors: list = []    # registered denominator factors
        self.sqrt_cache: dict = {}
        self.ang_cache: dict = {}
        self.fn_cache: dict = {}
        self.sign_cache: dict = {}
        self.angles: list[Atom] = []
        self.pz: dict = {}
        self.unknowns = 0
        self.notes: list[str] = []
        self.undefined: list[str] = []
        self.reductions = 0
        a = self.atom("pi", "pi")
        self.PI = a
        self.defs[a.idx] = [(z3.And(a.z > z3.RealVal(PI_LO), a.z < z3.RealVal(PI_HI)), {a.idx})]
        a.nonneg = True
        a = self.atom("ln10", "ln10")
        self.LN10 = a
        self.defs[a.idx] = [(z3.And(a.z > z3.RealVal("2.30258509299404"), a.z < z3.RealVal("2.30258509299405")), {a.idx})]
        a.nonneg = True

    # ------------------------------------------------------------------ atoms
    def atom(self, name, kind):
        a = Atom(len(self.atoms), name, kind)
        a.gran = self.gran.get(name, 1)
        self.atoms.append(a)
        return a

    def avar(self, a):
        return Rat(Poly({((a.idx, 1),): 1}))

    def add_def(self, a, *exprs_atoms):
        self.defs.setdefault(a.idx, []).extend(exprs_atoms)

    # --------------------------------------------------------------- polys
    def reduce(self, p):
        """Replace atom^k (k>=2) using the atom's square rule, to fixpoint."""
        while True:
            hit = False
            out = {}
            rest = []
            for m, c in p.d.items():
                t = None
                for i, (a, e) in enumerate(m):
                    if e >= 2 and self.atoms[a].sq is not None:
                        t = i
                        break
                if t is None:
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
                else:
                    hit = True
                    rest.append((m, c, t))
            if not hit:
                return p
            self.reductions += 1
            acc = Poly(out)
            for m, c, t in rest:
                a, e = m[t]
                base = m[:t] + (((a, e & 1),) if e & 1 else ()) + m[t + 1:]
                sq = self.atoms[a].sq
                q = Poly({base: c})
                for _ in range(e // 2):
                    q = pmul_raw(q, sq)
                acc = padd(acc, q)
            p = acc

    def pmul(self, p, q):
        return self.reduce(pmul_raw(p, q))

    def ppow(self, p, n):
        r = ONE
        for _ in range(n):
            r = self.pmul(r, p)
        return r

    def pdiv(self, P, Q):
        """Exact division P/Q in the polynomial ring or None."""
        if not P.d:
            return ZERO
        if len(Q.d) > 400 or len(P.d) > 4000:
            return None
        at = sorted(P.atoms() | Q.atoms())
        if not Q.atoms() <= P.atoms():
            return None
        pos = {a: i for i, a in enumerate(at)}
        n = len(at)

        def vec(m):
            v = [0] * n
            for a, e in m:
                v[pos[a]] = e
            return tuple(v)

        pd = {vec(m): c for m, c in P.d.items()}
        qd = {vec(m): c for m, c in Q.d.items()}
        lq = max(qd)
        cq = Fraction(qd[lq])
        qitems = list(qd.items())
        # quick degree check per variable
        for i in range(n):
            if max(v[i] for v in qd) > max(v[i] for v in pd):
                return None
        res = {}
        steps = 0
        while pd:
            steps += 1
            if steps > 3000:
                return None
            lp = max(pd)
            d = tuple(x - y for x, y in zip(lp, lq))
            if min(d) < 0:
                return None
            c = pd[lp] / cq
            if c.denominator == 1:
                c = c.numerator
            res[d] = c
            for v, e in qitems:
                k = tuple(x + y for x, y in zip(v, d))
                nv = pd.get(k, 0) - c * e
                if nv:
                    pd[k] = nv
                else:
                    pd.pop(k, None)
        return Poly({tuple((at[i], e) for i, e in enumerate(v) if e): c for v, c in res.items()})

    def content(self, p):
        """p = c * monomial * primitive(leading coeff positive)."""
        items = list(p.d.items())
        g_n, g_d = 0, 1
        for _, c in items:
            c = Fraction(c)
            g_n = math.gcd(g_n, c.numerator)
            g_d = g_d * c.denominator // math.gcd(g_d, c.denominator)
        c = Fraction(g_n, g_d)
        mono = dict(items[0][0])
        for m, _ in items[1:]:
            dm = dict(m)
            for a in list(mono):
                e = min(mono[a], dm.get(a, 0))
                if e:
                    mono[a] = e
                else:
                    del mono[a]
            if not mono:
                break
        lead = max(p.d, key=lambda m: (sum(e for _, e in m), m))
        if p.d[lead] < 0:
            c = -c
        out = {}
        for m, v in items:
            nm = tuple((a, e - mono.get(a, 0)) for a, e in m if e - mono.get(a, 0))
            nv = v / c
            out[nm] = nv.numerator if isinstance(nv, Fraction) and nv.denominator == 1 else nv
        return c, mono, Poly(out)

    def factor(self, p, deep=False):
        """Factor poly -> (rational const, {Poly: exp})."""
        p = self.reduce(p)
        if not p.d:
            return Fraction(0), {}
        c, mono, q = self.content(p)
        fs = {}
        for a, e in mono.items():
            f = Poly({((a, 1),): 1})
            fs[f] = fs.get(f, 0) + e
        if q.const() is not None:
            return c * q.const(), fs
        # known squares
        for kp, ka in self.known:
            while len(q.d) >= len(kp.d) and q.const() is None:
                r = self.pdiv(q, kp)
                if r is None:
                    break
                f = Poly({((ka.idx, 1),): 1})
                fs[f] = fs.get(f, 0) + 2
                q = r
        if q.const() is None:
            for fp in self.factors:
                while len(q.d) >= len(fp.d) and q.const() is None:
                    r = self.pdiv(q, fp)
                    if r is None:
                        break
                    fs[fp] = fs.get(fp, 0) + 1
                    q = r
        if q.const() is None and deep:
            cc, lst = self.sympy_factor(q)
            if lst is not None:
                c *= cc
                for f, e in lst:
                    f = self.reduce(f)
                    # re-run recognition on each factor
                    c2, m2, f2 = self.content(f)
                    c *= c2 ** e
                    for a, k in m2.items():
                        g = Poly({((a, 1),): 1})
                        fs[g] = fs.get(g, 0) + k * e
                    if f2.const() is not None:
                        c *= f2.const() ** e
                        continue
                    for kp, ka in self.known:
                        if kp == f2:
                            g = Poly({((ka.idx, 1),): 1})
                            fs[g] = fs.get(g, 0) + 2 * e
                            break
                    else:
                        fs[f2] = fs.get(f2, 0) + e
                return c, fs
        if q.const() is not None:
            c *= q.const()
        else:
            c2, m2, q2 = self.content(q)
            c *= c2
            for a, k in m2.items():
                g = Poly({((a, 1),): 1})
                fs[g] = fs.get(g, 0) + k
            if q2.const() is not None:
                c *= q2.const()
            else:
                fs[q2] = fs.get(q2, 0) + 1
        return c, fs

    def sympy_factor(self, p):
        if len(p.d) > 120 or p.degree() > 14:
            return 1, None
        import sympy

        at = sorted(p.atoms())
        if len(at) > 7:
            return 1, None
        syms = sympy.symbols([f"t{a}" for a in at])
        pos = {a: i for i, a in enumerate(at)}
        d = {}
        for m, c in p.d.items():
            v = [0] * len(at)
            for a, e in m:
                v[pos[a]] = e
            c = Fraction(c)
            d[tuple(v)] = sympy.Rational(c.numerator, c.denominator)
        pp = sympy.Poly.from_dict(d, *syms, domain="QQ")
        c, lst = sympy.factor_list(pp)
        if len(lst) == 1 and lst[0][1] == 1:
            return 1, None
        out = []
        for f, e in lst:
            dd = {}
            for v, cc in f.as_dict().items():
                cc = Fraction(int(cc.p), int(cc.q))
                dd[tuple((at[i], k) for i, k in enumerate(v) if k)] = cc.numerator if cc.denominator == 1 else cc
            out.append((Poly(dd), e))
        return Fraction(int(c.p), int(c.q)), out

    # --------------------------------------------------------------- to z3
    def zpoly(self, p):
        k = p.key()
        z = self.pz.get(k)
        if z is None:
            ts = []
            for m, c in p.d.items():
                c = Fraction(c)
                fs = []
                for a, e in m:
                    fs += [self.atoms[a].z] * e
                if not fs:
                    ts.append(z3.RealVal(str(c)))
                elif c == 1:
                    ts.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
                else:
                    ts.append(z3.Product(z3.RealVal(str(c)), *fs))
            z = z3.Sum(*ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
            self.pz[k] = z
        return z

    # ---------------------------------------------------------------- solver
    def groups_of(self, a):
        """Labels of the input groups atom a depends on (a cut atom depends on none)."""
        i = a.idx
        g = self.group_memo.get(i)
        if g is None:
            self.group_memo[i] = frozenset()
            if a.kind in ("in", "ang_in"):
                g = {self.group_map(a.name)} - {None}
            elif a.kind == "cut":
                g = set()
            else:
                dep = set()
                if a.sq is not None:
                    dep |= a.sq.atoms()
                inf = a.info
                if isinstance(inf, int) and a.kind in ("sin", "cos"):
                    dep.add(inf)
                elif isinstance(inf, Rat):
                    dep |= inf.num.atoms()
                    for f, _ in inf.den:
                        dep |= f.atoms()
                for _, ats in self.defs.get(i, ()):
                    dep |= ats
                dep.discard(i)
                g = set()
                for d in dep:
                    g |= self.groups_of(self.atoms[d])
            g = self.group_memo[i] = frozenset(g)
        return g

    def cut(self, r):
        """Name a sum that mixes input groups by a fresh atom (definition kept aside)."""
        if self.group_map is None or isbad(r) or isinstance(r, (bool, SBool)) or len(r.num.d) < 2:
            return r
        at = r.num.atoms()
        for f, _ in r.den:
            at = at | f.atoms()
        if any(self.atoms[a].kind in ("angle", "ang_in", "pi") for a in at):
            return r    # angles keep their trigonometry
        g = set()
        for a in at:
            g |= self.groups_of(self.atoms[a])
        if len(g) < 2:
            return r
        c, _, _ = self.content(r.num)
        prim = Rat(pscale(r.num, 1 / Fraction(c)), r.den)
        k = prim.key()
        hit = self.cut_cache.get(k)
        fk = None
        if hit is None:
            # the same sum reached in another association: compare expanded definitions
            kinds = [sum(e for x, e in m if self.atoms[x].kind == "cut") for m in prim.num.d]
            if max(kinds) == 1 and not prim.den and len(kinds) <= 40:
                full = self.uncut(prim)
                if not isbad(full) and full.num.d and len(full.num.d) <= 80:
                    c2, _, _ = self.content(full.num)
                    fk = Rat(pscale(full.num, 1 / Fraction(c2)), full.den).key()
                    hit = self.cut_cache.get(fk)
                    if hit is not None:
                        return Rat(Poly({((hit[0].idx, 1),): c * c2 * hit[1]}))
        if hit is None:
            a = self.atom(f"cut{len(self.atoms)}", "cut")
            a.info = prim
            den = ONE
            for f, e in prim.den:
                den = self.pmul(den, self.ppow(f, e))
            self.cutdefs[a.idx] = (a.z * self.zpoly(den) == self.zpoly(prim.num), {a.idx} | at)
            hit = self.cut_cache[k] = (a, 1)
            if fk is not None:
                self.cut_cache[fk] = (a, 1 / Fraction(c2))
        return Rat(Poly({((hit[0].idx, 1),): c * hit[1]}))

    def uncut(self, r):
        """Substitute the definitions of cut atoms (exact)."""
        def poly(p):
            if not any(self.atoms[a].kind == "cut" for a in p.atoms()):
                return Rat(p)
            out = RZERO
            for m, c in p.d.items():
                t = rconst(c)
                for a, e in m:
                    x = self.atoms[a]
                    v = self.uncut(x.info) if x.kind == "cut" else self.avar(x)
                    for _ in range(e):
                        t = self.mul(t, v)
                out = self.add(out, t)
            return out
        if not self.cutdefs:
            return r
        n = poly(r.num)
        for f, e in r.den:
            g = poly(f)
            for _ in range(e):
                n = self.div(n, g)
        return n

    def closure(self, at, cuts=False):
        """Definitions and path conditions relevant to atoms `at`."""
        rel = set(at)
        out = []
        used_pc = [False] * len(self.pc)
        done = set()
        changed = True
        while changed:
            changed = False
            for a in list(rel):
                if a in done:
                    continue
                done.add(a)
                changed = True
                for e, ats in self.defs.get(a, ()):
                    out.append(e)
                    rel |= ats
                if cuts and a in self.cutdefs:
                    out.append(self.cutdefs[a][0])
                    rel |= self.cutdefs[a][1]
            for i, b in enumerate(self.pc):
                if not used_pc[i] and (b.at & rel):
                    used_pc[i] = True
                    out.append(b.e)
                    rel |= b.at
                    changed = True
            if cuts and not changed:
                # a named sum constrained by the path bears on the inputs it is made of
                for a in self.pc_cuts():
                    if a not in rel and self.cutdefs[a][1] & rel:
                        rel.add(a)
                        changed = True
        return out, rel

    def pc_cuts(self):
        seen, todo = set(), [a for b in self.pc for a in b.at]
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            for _, ats in self.defs.get(a, ()):
                todo += ats
        return {a for a in seen if a in self.cutdefs}

    def check(self, conds, ms=None, full=False, model=False):
        """Satisfiability of path /\\ conds. Returns 'sat'|'unsat'|'unknown' [, model]."""
        cs = []
        at = set()
        for c in conds:
            if c is True:
                continue
            if c is False:
                return ("unsat", None) if model else "unsat"
            cs.append(c.e)
            at |= c.at
        if full:
            for b in self.pc:
                at |= b.at
            at |= {a.idx for a in self.atoms if a.kind in ("in", "ang_in")}
        ex, rel = self.closure(at)
        r, m = solve(ex + cs, ms or self.feas_ms, self.stats, model=model)
        if r != "unsat" and ms and self.cutdefs and (any(a in self.cutdefs for a in rel) or any(self.cutdefs[a][1] & rel for a in self.pc_cuts())):
            ex, rel = self.closure(at, True)
            r, m = solve(ex + cs, ms, self.stats, model=model)
        if model:
            return r, m
        return r

    def decide(self, opts):
        """Choose one of the (exhaustive) options, forking over feasible ones."""
        live = [i for i, o in enumerate(opts) if o is not False]
        for i in live:
            if opts[i] is True:
                return i
        n = len(self.dlog)
        if n < len(self.prefix):
            ch = self.prefix[n]
            if not isinstance(opts[ch], bool):
                self.assume(opts[ch])
            self.dlog.append(ch)
            return ch
        feas = []
        for j, i in enumerate(live):
            if j == len(live) - 1 and not feas and False:
                feas.append(i)
                continue
            r = self.check([opts[i]])
            if r == "unknown":
                self.unknowns += 1
            if r != "unsat":
                feas.append(i)
        if not feas:
            raise Infeasible
        if len(self.dlog) > 4000:
            raise PathLimit
        for i in feas[1:]:
            self.pending.append(tuple(self.dlog) + (i,))
        ch = feas[0]
        if len(feas) > 1:
            self.assume(opts[ch])
        self.dlog.append(ch)
        return ch

    def assume(self, b):
        if b is True:
            return
        if b is False:
            raise Infeasible
        self.pc.append(b)
        self.sign_cache.clear()

    def entails(self, b):
        """True if the path entails b (unknown -> False)."""
        if isinstance(b, bool):
            return b
        return self.check([bnot(b)]) == "unsat"

    # --------------------------------------------------------------- rationals
    def mk(self, num, den):
        """Build Rat cancelling monomial and exact factors."""
        num = self.reduce(num)
        if not num.d:
            return RZERO
        if not den:
            return Rat(num)
        out = []
        for f, e in den:
            if len(f.d) == 1:  # single atom
                ((a, _),) = next(iter(f.d))
                k = min((dict(m).get(a, 0) for m in num.d), default=0)
                k = min(k, e)
                if k:
                    nd = {}
                    for m, c in num.d.items():
                        nm = tuple((b, x - (k if b == a else 0)) for b, x in m if x - (k if b == a else 0))
                        nd[nm] = c
                    num = Poly(nd)
                    e -= k
                # cancel against the atom's square when numerator is divisible
                sq = self.atoms[a].sq
                while e >= 2 and sq is not None and len(num.d) >= len(sq.d) and len(num.d) <= 300:
                    r = self.pdiv(num, sq)
                    if r is None:
                        break
                    num, e = r, e - 2
                # a in den, odd: num divisible by sq -> num/sq * a / a^(e)  (raises num by a)
                if e == 1 and sq is not None and len(sq.d) > 1 and len(num.d) <= 300:
                    r = self.pdiv(num, sq)
                    if r is not None:
                        num = self.pmul(r, Poly({((a, 1),): 1}))
                        e = 0
            else:
                while e and len(num.d) >= len(f.d) and len(num.d) <= 300:
                    r = self.pdiv(num, f)
                    if r is None:
                        break
                    num, e = r, e - 1
            if e:
                out.append((f, e))
        return Rat(num, tuple(out))

    def _add(self, a, b):
        if isbad(a) or isbad(b):
            return BAD
        if not a.num.d:
            return b
        if not b.num.d:
            return a
        if not a.den and not b.den:
            return Rat(padd(a.num, b.num))
        da, db = dict(a.den), dict(b.den)
        l = dict(da)
        for f, e in db.items():
            l[f] = max(l.get(f, 0), e)
        na, nb = a.num, b.num
        for f, e in l.items():
            ea, eb = e - da.get(f, 0), e - db.get(f, 0)
            if ea:
                na = self.pmul(na, self.ppow(f, ea))
            if eb:
                nb = self.pmul(nb, self.ppow(f, eb))
        return self.mk(padd(na, nb), tuple(l.items()))

    def _neg(self, a):
        return BAD if isbad(a) else Rat(pneg(a.num), a.den)

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def _mul(self, a, b):
        if isbad(a) or isbad(b):
            return BAD
        if not a.num.d or not b.num.d:
            return RZERO
        if not a.den and not b.den:
            return Rat(self.pmul(a.num, b.num))
        d = dict(a.den)
        for f, e in b.den:
            d[f] = d.get(f, 0) + e
        # cancel before multiplying
        a2 = self.mk(a.num, tuple(d.items()))
        b2 = self.mk(b.num, a2.den) if a2.num.d else RZERO
        return self.mk(self.pmul(a2.num, b2.num), b2.den)

    def _inv(self, a, deep=False):
        """1/a; caller has established a != 0."""
        c, fs = self.factor(a.num, deep=deep)
        num = ONE
        for f, e in a.den:
            num = self.pmul(num, self.ppow(f, e))
        num = pscale(num, 1 / Fraction(c))
        out = {}
        work = list(fs.items())
        guard = 0
        while work:
            f, e = work.pop()
            guard += 1
            cj = self.conjugate(f) if len(f.d) > 1 and guard < 12 else None
            if cj is None:
                out[f] = out.get(f, 0) + e
                continue
            conj, norm = cj
            num = self.pmul(num, self.ppow(conj, e))
            c, nf = self.factor(norm, deep=True)
            num = pscale(num, 1 / Fraction(c) ** e)
            work += [(g, k * e) for g, k in nf.items()]
        for f in out:
            if len(f.d) > 1 and f not in self.factors:
                self.factors.append(f)
        return self.mk(num, tuple(out.items()))

    def conjugate(self, f):
        """(g, f*g) with the newest radical of f eliminated from f*g, if f*g is certainly non-zero."""
        rads = [a for a in f.atoms() if self.atoms[a].kind == "rad" and not self.atoms[a].sq.const()]
        if not rads or len(f.d) > 40:
            return None
        a = max(rads)
        A, B = {}, {}
        for m, c in f.d.items():
            d = dict(m)
            e = d.pop(a, 0)
            if e > 1:
                return None
            (B if e else A)[tuple(sorted(d.items()))] = c
        A, B = Poly(A), Poly(B)
        if not A.d or not B.d:
            return None
        norm = psub(self.pmul(A, A), self.pmul(self.pmul(B, B), self.reduce(self.atoms[a].sq)))
        if len(norm.d) > 60 or not norm.d:
            return None
        c, nf = self.factor(norm, deep=True)
        for g in nf:
            if self.sign_known(g) not in (1, -1, "nz"):
                return None
        conj = psub(A, self.pmul(B, Poly({((a, 1),): 1})))
        return conj, norm

    def zero_cond(self, a):
        """SBool for a == 0 (a's denominator is non-zero by construction)."""
        c = a.num.const()
        if c is not None:
            return c == 0
        return SBool(self.zpoly(a.num) == 0, a.num.atoms())

    def _div(self, a, b):
        if isbad(a) or isbad(b):
            return BAD
        if b.const() is not None:
            c = b.const()
            if c == 0:
                self.undefined.append("division by constant zero")
                return BAD
            return Rat(pscale(a.num, 1 / Fraction(c)), a.den)
        if not self.nonzero(b):
            self.undefined.append("division by zero")
            return BAD
        return self.mul(a, self.inv(b))

    def nonzero(self, b):
        """Fork on b == 0; returns True on the non-zero branch."""
        c, fs = self.factor(b.num)
        conds = []
        for f in fs:
            s = self.sign_known(f)
            if s in (1, -1, "nz"):
                continue
            conds.append(SBool(self.zpoly(f) == 0, f.atoms()))
        if not conds:
            return True
        z = bor(*conds)
        ch = self.decide([bnot(z), z])
        if ch == 0:
            for f in fs:
                k = f.key()
                if self.sign_cache.get(k) is None:
                    self.sign_cache[k] = "nz"
        return ch == 0

    def _ipow(self, a, n):
        if isbad(a):
            return BAD
        if n == 0:
            return RONE
        if n < 0:
            if a.const() == 0 or (a.const() is None and not self.nonzero(a)):
                self.undefined.append("negative power of zero")
                return BAD
            return self.ipow(self.inv(a), -n)
        if a.den:
            return self.mk(self.ppow(a.num, n), tuple((f, e * n) for f, e in a.den))
        return Rat(self.ppow(a.num, n))

    # ------------------------------------------------------------ comparisons
    def numsign_poly(self, a):
        """A polynomial with the same sign as a."""
        p = a.num
        for f, e in a.den:
            if e & 1:
                s = self.sign_known(f)
                if s == 1:
                    continue
                if s == -1:
                    p = pneg(p)
                    continue
                p = self.pmul(p, f)
        return p

    def cmp(self, op, a, b):
        """op in lt le gt ge eq ne -> bool | SBool."""
        if isbad(a) or isbad(b):
            self.undefined.append("comparison of undefined value")
            return op == "ne"
        if a is b or (a.num.d == b.num.d and a.den == b.den):
            return op in ("le", "ge", "eq")
        d = self.sub(a, b)
        if not d.num.d:
            return op in ("le", "ge", "eq")
        c = d.const()
        if c is not None:
            return {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0,
                    "eq": c == 0, "ne": c != 0}[op]
        if op in ("eq", "ne"):
            z = self.zpoly(d.num)
            e = z == 0
            self._angle_eq(d.num, e)
            return SBool(e if op == "eq" else z3.Not(e), d.num.atoms())
        p = self.numsign_poly(d)
        z = self.zpoly(p)
        return SBool({"lt": z < 0, "le": z <= 0, "gt": z > 0, "ge": z >= 0}[op], p.atoms())

    def _angle_eq(self, p, e):
        """Equal angles have equal sines and cosines: p = 0 with p = k (a +- b + q pi)."""
        try:
            la = self.lin_angle(Rat(p))
            if la is None or la[2] != 0 or not 1 <= len(la[0]) <= 2:
                return
            (i, k), *more = la[0].items()
            if any(abs(q) != abs(k) for _, q in more):
                return
            if not any(self.atoms[j].kind in ("ang_in", "angle") for j in la[0]):
                return
            x = self.avar(self.atoms[i])
            y = self.mul(rconst(-la[1] / k), self.avar(self.PI))
            for j, q in more:
                y = self.add(y, self.mul(rconst(-q / k), self.avar(self.atoms[j])))
            fs, at = [], set(p.atoms())
            for u, v in zip(self.sincos(x), self.sincos(y)):
                n = self.sub(u, v).num
                fs.append(self.zpoly(n) == 0)
                at |= n.atoms()
            d = (z3.Implies(e, z3.And(*fs)), at)
            for j in la[0]:
                self.add_def(self.atoms[j], d)
        except Unsupported:
            return

    def sign_known(self, f):
        """1, -1, 'nn' (>=0), 'np', 'nz' or None for polynomial f on this path (no fork)."""
        c = f.const()
        if c is not None:
            return 1 if c > 0 else (-1 if c < 0 else 0)
        k = f.key()
        if k in self.sign_cache:
            return self.sign_cache[k]
        z, at = self.zpoly(f), f.atoms()
        lt = self.check([SBool(z < 0, at)])
        eq = self.check([SBool(z == 0, at)])
        if lt == "unsat":
            r = 1 if eq == "unsat" else "nn"
        else:
            gt = self.check([SBool(z > 0, at)])
            if gt == "unsat":
                r = -1 if eq == "unsat" else "np"
            else:
                r = "nz" if eq == "unsat" else None
        self.sign_cache[k] = r
        return r

    def sign3(self, a):
        """Fork on the sign of Rat a: -1, 0, 1."""
        c = a.const()
        if c is not None:
            return (c > 0) - (c < 0)
        lt, eq, gt = (self.cmp(o, a, RZERO) for o in ("lt", "eq", "gt"))
        ch = self.decide([gt, lt, eq])
        return (1, -1, 0)[ch]

    def abs(self, a):
        if isbad(a):
            return BAD
        c = a.const()
        if c is not None:
            return rconst(abs(c))
        ge = self.cmp("ge", a, RZERO)
        if isinstance(ge, bool):
            return a if ge else self.neg(a)
        return a if self.decide([ge, bnot(ge)]) == 0 else self.neg(a)

    # -- the public operations record how each value was computed
    def _rec(self, r, op, *xs):
        if r.__class__ is Rat and r.src is None and r.num.d and r.num.const() is None and not any(r is x for x in xs):
            r.src = (op, *xs)
        return r

    def add(self, a, b):
        return self._rec(self._add(a, b), "+", a, b)

    def mul(self, a, b):
        return self._rec(self._mul(a, b), "*", a, b)

    def div(self, a, b):
        return self._rec(self._div(a, b), "/", a, b)

    def ipow(self, a, n):
        return self._rec(self._ipow(a, n), "^", a, n)

    def sqrt(self, a):
        return self._rec(self._sqrt(a), "sqrt", a)

    def inv(self, a, deep=False):
        return self._rec(self._inv(a, deep), "/", RONE, a)

    def neg(self, a):
        return self._rec(self._neg(a), "-", a)

    def raw(self, r, defs, memo, at):
        """z3 term of r as computed (no normal forms); side conditions go to defs."""
        k = id(r)
        if k in memo:
            return memo[k][0]
        if r.src is None:
            n = self.zpoly(r.num)
            at |= r.num.atoms()
            if r.den:
                d = 1
                for f, e in r.den:
                    at |= f.atoms()
                    for _ in range(e):
                        d = d * self.zpoly(f)
                z = z3.FreshReal("q")
                defs.append(z * d == n)
                n = z
        else:
            op, xs = r.src[0], r.src[1:]
            if op == "^":
                b, e = self.raw(xs[0], defs, memo, at), xs[1]
                n = z3.RealVal(1)
                for _ in range(abs(e)):
                    n = n * b
                if e < 0:
                    z = z3.FreshReal("q")
                    defs.append(z * n == 1)
                    n = z
            else:
                zs = [self.raw(x, defs, memo, at) for x in xs]
                if op == "+":
                    n = zs[0] + zs[1]
                elif op == "*":
                    n = zs[0] * zs[1]
                elif op == "-":
                    n = -zs[0]
                elif op == "/":
                    n = z3.FreshReal("q")
                    defs.append(n * zs[1] == zs[0])
                elif op == "sqrt":
                    n = z3.FreshReal("w")
                    defs.append(z3.And(n * n == zs[0], n >= 0))
        memo[k] = (n, r)
        return n

    def raw_equal(self, a, b, ms):
        """Decide a == b from the unnormalised terms: 'unsat' means equal."""
        defs, memo, at = [], {}, set()
        za, zb = self.raw(a, defs, memo, at), self.raw(b, defs, memo, at)
        if za.eq(zb):
            return "same"
        ex, _ = self.closure(at)
        return solve(ex + defs + [za != zb], ms, self.stats)[0]

    # ----------------------------------------------------------------- radicals
    def sqrt_const(self, c):
        c = Fraction(c)
        n = c.numerator * c.denominator
        s, f = _squarefree_int(n)
        r = rconst(Fraction(s, c.denominator))
        if f == 1:
            return r
        key = ("c", f)
        if key not in self.sqrt_cache:
            a = self.atom(f"rt{f}", "rad")
            a.sq = pconst(f)
            a.nonneg = True
            self.add_def(a, (z3.And(a.z * a.z == f, a.z > 0), {a.idx}))
            self.sqrt_cache[key] = a
        return self.mul(r, self.avar(self.sqrt_cache[key]))

    def radical(self, f):
        """sqrt of polynomial f (f >= 0 on this path) as an atom."""
        k = f.key()
        a = self.sqrt_cache.get(k)
        if a is None:
            a = self.atom(f"rad{len(self.atoms)}", "rad")
            a.sq = f
            a.nonneg = True
            self.add_def(a, (z3.And(a.z * a.z == self.zpoly(f), a.z >= 0), {a.idx} | f.atoms()))
            self.sqrt_cache[k] = a
            self.known.insert(0, (f, a))
        return self.avar(a)

    def _sqrt(self, a):
        if isbad(a):
            return BAD
        c = a.const()
        if c is not None:
            if c < 0:
                self.undefined.append("sqrt of negative constant")
                return BAD
            return self.sqrt_const(c)
        ge = self.cmp("ge", a, RZERO)
        if not isinstance(ge, bool):
            if self.decide([ge, bnot(ge)]) == 1:
                self.undefined.append("sqrt of negative")
                return BAD
        elif not ge:
            self.undefined.append("sqrt of negative")
            return BAD
        c, fs = self.factor(a.num, deep=True)
        ex = dict(fs)
        for f, e in a.den:
            ex[f] = ex.get(f, 0) - e
        pulled = RONE
        odd = []
        for f, e in ex.items():
            if not e:
                continue
            h, o = divmod(e, 2)
            if h:
                base = self.absval(f)
                if h > 0:
                    pulled = self.mul(pulled, self.ipow(base, h))
                else:
                    pulled = self.mul(pulled, self.ipow(self.inv(base), -h))
            if o:
                odd.append(f)
        sgn = 1 if c > 0 else -1
        # split individually signed factors from the rest
        rest = ONE
        for f in odd:
            s = self.sign_known(f)
            if s in (1, "nn"):
                pulled = self.mul(pulled, self.rad_of(f))
            elif s in (-1, "np"):
                sgn = -sgn
                pulled = self.mul(pulled, self.rad_of(pneg(f)))
            else:
                rest = self.pmul(rest, f)
        if rest.const() is None:
            if sgn < 0:
                rest = pneg(rest)
            pulled = self.mul(pulled, self.rad_of(rest))
        return self.mul(pulled, self.sqrt_const(abs(c)))

    def rad_of(self, f):
        return self.radical(f)

    def absval(self, f):
        """|f| for polynomial f, forking on its sign if needed."""
        if len(f.d) == 1:
            (m,) = f.d
            if len(m) == 1 and self.atoms[m[0][0]].nonneg and f.d[m] > 0:
                return Rat(f)
        return self.abs(Rat(f))

    # ------------------------------------------------------------------ angles
    def real_input(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        a = self.atom(name, "in")
        self._bounds(a, lo, hi, lo_open, hi_open)
        return self.avar(a)

    def _bounds(self, a, lo, hi, lo_open, hi_open):
        a.lo, a.hi, a.lo_open, a.hi_open = lo, hi, lo_open, hi_open
        if lo is not None:
            z = self.zval(lo)
            e = a.z > z if lo_open else a.z >= z
            self.add_def(a, (e, {a.idx} | self.batoms(lo)))
            if not isinstance(lo, Rat) and lo >= 0:
                a.nonneg = True
        if hi is not None:
            z = self.zval(hi)
            e = a.z < z if hi_open else a.z <= z
            self.add_def(a, (e, {a.idx} | self.batoms(hi)))

    def zval(self, v):
        if isinstance(v, Rat):
            assert not v.den
            return self.zpoly(v.num)
        return z3.RealVal(str(Fraction(v)))

    def batoms(self, v):
        return v.num.atoms() if isinstance(v, Rat) else set()

    def pi_rat(self, q):
        return Rat(Poly({((self.PI.idx, 1),): q.numerator if q.denominator == 1 else q})) if q else RZERO

    def angle_input(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        """An input angle in radians; lo, hi are Fractions of pi (or None)."""
        a = self.atom(name, "ang_in")
        self._bounds(a, None if lo is None else self.pi_rat(Fraction(lo)),
                     None if hi is None else self.pi_rat(Fraction(hi)), lo_open, hi_open)
        a.nonneg = lo is not None and lo >= 0
        self.angles.append(a)
        a.range_quads = (lo, hi, lo_open, hi_open)
        self._trig_atoms(a)
        return self.avar(a)

    def _trig_atoms(self, a):
        """Create base sin/cos atoms of a/gran."""
        g = a.gran
        nm = a.name if g == 1 else f"{a.name}_{g}"
        c = self.atom(f"cos_{nm}", "cos")
        s = self.atom(f"sin_{nm}", "sin")
        s.sq = Poly({(): 1, ((c.idx, 2),): -1})
        s.info = c.info = a.idx
        e = s.z * s.z + c.z * c.z == 1
        self.add_def(s, (e, {s.idx, c.idx}))
        self.add_def(c, (e, {s.idx, c.idx}))
        self.known.append((s.sq, s))
        a.trig = (self.avar(s), self.avar(c))
        if a.range_quads:
            lo, hi, lo_open, hi_open = a.range_quads
            if lo is not None and hi is not None:
                # sign facts for the base angle a/g
                self.link(a, a.trig[0], a.trig[1], Fraction(lo) / g, Fraction(hi) / g, lo_open, hi_open,
                          s_atom=s, c_atom=c, scale=g)
                if g == 2:      # and for the whole angle, written with those of its half
                    d = self.link(a, self.mul(rconst(2), self.mul(*a.trig)), self.sub(self.mul(a.trig[1], a.trig[1]), self.mul(a.trig[0], a.trig[0])),
                                  Fraction(lo), Fraction(hi), lo_open, hi_open)
                    if d is not None:
                        self.add_def(s, d)
                        self.add_def(c, d)
        return a.trig

    def link(self, a, s, c, lo, hi, lo_open, hi_open, s_atom=None, c_atom=None, scale=1):
        """Link angle variable a/scale in [lo,hi]*pi with the values of its sine and cosine."""
        quads = []
        l2, h2 = lo * 2, hi * 2
        k0, k1 = math.floor(l2), math.ceil(h2)
        if k1 - k0 > 12:
            return
        ps, pcx = self.numsign_poly(s), self.numsign_poly(c)
        zs, zc = self.zpoly(ps), self.zpoly(pcx)
        t = a.z / scale if scale != 1 else a.z
        half = self.PI.z / 2
        ss = {0: (1, 1), 1: (1, -1), 2: (-1, -1), 3: (-1, 1)}
        exact = {0: (0, 1), 1: (1, 0), 2: (0, -1), 3: (-1, 0)}
        ats = {a.idx, self.PI.idx} | ps.atoms() | pcx.atoms()
        signs_s, signs_c = set(), set()
        alts = []
        for k in range(k0, k1):
            qs, qc = ss[k % 4]
            signs_s.add(qs)
            signs_c.add(qc)
            alts.append(z3.And(t > half * k, t < half * (k + 1),
                               zs > 0 if qs > 0 else zs < 0, zc > 0 if qc > 0 else zc < 0))
        for k in range(k0, k1 + 1):
            if k < l2 or k > h2 or (k == l2 and lo_open) or (k == h2 and hi_open):
                continue
            es, ec = exact[k % 4]
            signs_s.add(es)
            signs_c.add(ec)
            # sign-only is enough together with s^2+c^2=1
            alts.append(z3.And(t == half * k,
                               zs == 0 if es == 0 else (zs > 0 if es > 0 else zs < 0),
                               zc == 0 if ec == 0 else (zc > 0 if ec > 0 else zc < 0)))
        d = (z3.Or(*alts), ats)
        self.add_def(a, d)
        # unconditional sign facts on the trig values
        if s_atom is not None:
            for at, zz, sg in ((s_atom, zs, signs_s), (c_atom, zc, signs_c)):
                if -1 not in sg:
                    at.nonneg = True
                    self.add_def(at, (zz >= 0 if 0 in sg else zz > 0, {at.idx}))
                elif 1 not in sg:
                    self.add_def(at, (zz <= 0 if 0 in sg else zz < 0, {at.idx}))
        return d

    def trig_base(self, a):
        if a.trig is None:
            if a.kind == "in":
                self.angles.append(a)
            self._trig_atoms(a)
        return a.trig

    def new_angle(self, name, s, c, lo, hi, lo_open=False, hi_open=False):
        """Angle atom defined by its sine and cosine (Rats) and a range (fractions of pi)."""
        a = self.atom(name, "angle")
        self._bounds(a, self.pi_rat(Fraction(lo)), self.pi_rat(Fraction(hi)), lo_open, hi_open)
        a.trig = (s, c)
        if a.gran == 2:
            # half angle: needs fresh atoms with c = 2 ch^2 - 1, s = 2 sh ch
            raise Unsupported("half angle of a computed angle")
        if a.gran != 1:
            raise Unsupported("fraction of a computed angle")
        self.link(a, s, c, Fraction(lo), Fraction(hi), lo_open, hi_open)
        self.angles.append(a)
        return a

    def lin_angle(self, x):
        """Decompose Rat x: ({atom: q}, piq, rest_const) or None."""
        if x.den:
            # angles divided by pi etc. are not angles
            return None
        terms, piq, const = {}, Fraction(0), Fraction(0)
        for m, c in x.num.d.items():
            if m == ():
                const += c
            elif len(m) == 1 and m[0][1] == 1:
                a = self.atoms[m[0][0]]
                if a is self.PI:
                    piq += c
                elif a.kind in ("in", "ang_in", "angle", "intq"):
                    terms[a.idx] = Fraction(c)
                else:
                    return None
            elif len(m) == 2 and {self.atoms[m[0][0]].kind, self.atoms[m[1][0]].kind} == {"pi", "int"} \
                    and m[0][1] == m[1][1] == 1:
                if Fraction(c).denominator == 1 and c % 2 == 0:
                    continue  # 2 pi K
                raise Unsupported("odd multiple of pi*K")
            else:
                return None
        return terms, piq, const

    def sincos(self, x):
        if isbad(x):
            return BAD, BAD
        key = x.key()
        if key in self.fn_cache:
            return self.fn_cache[key]
        la = self.lin_angle(x)
        if la is None or (la[2] and (la[0] or la[1])) :
            r = self.opaque_angle(x)
        else:
            terms, piq, const = la
            if const:
                r = self.const_angle(const)
            else:
                r = self.pi_multiple(piq)
                for ai, q in sorted(terms.items()):
                    a = self.atoms[ai]
                    n = q * a.gran
                    if n.denominator != 1:
                        raise NeedGranularity(a.name, a.gran * n.denominator)
                    s1, c1 = self.trig_base(a)
                    sm, cm = self.multiple(s1, c1, n.numerator)
                    s0, c0 = r
                    r = (self.add(self.mul(s0, cm), self.mul(c0, sm)),
                         self.sub(self.mul(c0, cm), self.mul(s0, sm)))
        self.fn_cache[key] = r
        return r

    def multiple(self, s, c, n):
        neg = n < 0
        n = abs(n)
        if n > 24:
            raise Unsupported("large multiple angle")
        S, C = RZERO, RONE
        for _ in range(n):
            S, C = (self.add(self.mul(S, c), self.mul(C, s)), self.sub(self.mul(C, c), self.mul(S, s)))
        return (self.neg(S) if neg else S), C

    def pi_multiple(self, q):
        q = Fraction(q) % 2
        if q == 0:
            return RZERO, RONE
        n = q * 2
        if n.denominator == 1:
            return {1: (RONE, RZERO), 2: (RZERO, rconst(-1)), 3: (rconst(-1), RZERO)}[n.numerator]
        h = rconst(Fraction(1, 2))
        if (q * 4).denominator == 1:
            r = self.mul(self.sqrt_const(2), h)
            k = (q * 4).numerator
            return {1: (r, r), 3: (r, self.neg(r)), 5: (self.neg(r), self.neg(r)), 7: (self.neg(r), r)}[k]
        if (q * 6).denominator == 1:
            r3 = self.mul(self.sqrt_const(3), h)
            k = (q * 6).numerator
            base = {1: (h, r3), 2: (r3, h)}
            if k in base:
                return base[k]
            s, c = self.pi_multiple(q - Fraction(1, 2))
            return c, self.neg(s)
        return self.const_angle_pi(q)

    def _const_trig(self, name, val):
        """Opaque numeric sin/cos atoms with enclosures."""
        c = self.atom(f"cos_{name}", "cos")
        s = self.atom(f"sin_{name}", "sin")
        s.sq = Poly({(): 1, ((c.idx, 2),): -1})
        e = s.z * s.z + c.z * c.z == 1
        for at, v in ((s, math.sin(val)), (c, math.cos(val))):
            f = Fraction(v)
            d = Fraction(1, 10**13)
            at.nonneg = v > 0
            self.add_def(at, (z3.And(at.z > z3.RealVal(str(f - d)), at.z < z3.RealVal(str(f + d)), e), {s.idx, c.idx}))
        self.known.append((s.sq, s))
        return self.avar(s), self.avar(c)

    def const_angle(self, q):
        k = ("ca", abs(q))
        if k not in self.ang_cache:
            self.ang_cache[k] = self._const_trig(f"k{len(self.atoms)}", float(abs(q)))
        s, c = self.ang_cache[k]
        return (s if q > 0 else self.neg(s)), c

    def const_angle_pi(self, q):
        """sin/cos(q*pi), q not a nice multiple: expressed on a base angle in (0, pi/2)."""
        quad = math.floor(q * 2)
        b = q - Fraction(quad, 2)
        k = ("cp", b)
        if k not in self.ang_cache:
            self.ang_cache[k] = self._const_trig(f"p{len(self.atoms)}", float(b) * math.pi)
        s, c = self.ang_cache[k]
        for _ in range(quad % 4):
            s, c = c, self.neg(s)
        return s, c

    def opaque_angle(self, x):
        k = ("op", x.key())
        if k not in self.ang_cache:
            a = self.atom(f"oang{len(self.atoms)}", "angle")
            a.info = x
            # a * den == num
            den = ONE
            for f, e in x.den:
                den = self.pmul(den, self.ppow(f, e))
            e = a.z * self.zpoly(den) == self.zpoly(x.num)
            self.add_def(a, (e, {a.idx} | x.num.atoms() | den.atoms()))
            self.angles.append(a)
            self._trig_atoms(a)
            self.ang_cache[k] = a
        return self.ang_cache[k].trig

    def same(self, a, b):
        return not self.sub(a, b).num.d

    def find_angle(self, s, c, ranges):
        """An existing angle atom with identical sine & cosine."""
        for a in self.angles:
            if a.trig is None:
                continue
            ts, tc = a.trig if a.gran == 1 else self.sincos(self.avar(a))
            if not isbad(ts) and self.same(ts, s) and self.same(tc, c):
                return a
        return None

    def atan2(self, y, x):
        if isbad(y) or isbad(x):
            return BAD
        key = ("atan2", y.key(), x.key())
        if key in self.ang_cache:
            return self.ang_cache[key]
        cy, cx = y.const(), x.const()
        if cy == 0 or cx == 0 or (cy is not None and cx is not None):
            if cy == 0:
                s = self.sign3(x)
                r = self.pi_rat(Fraction(1)) if s < 0 else RZERO
            elif cx == 0:
                s = self.sign3(y)
                r = self.pi_rat(Fraction(s, 2)) if s else RZERO
            else:
                v = math.atan2(float(cy), float(cx))
                q = Fraction(v / math.pi).limit_denominator(1000)
                if abs(float(q) * math.pi - v) < 1e-14:
                    r = self.pi_rat(q)
                else:
                    r = None
            if r is not None:
                self.ang_cache[key] = r
                return r
        zz = band(self.zero_cond(y), self.zero_cond(x))
        if zz is not False:
            if self.decide([bnot(zz), zz]) == 1:
                self.ang_cache[key] = RZERO
                return RZERO
        R = self.sqrt(self.add(self.mul(y, y), self.mul(x, x)))
        if isbad(R):
            return R        # only on a contradictory path
        Ri = self.inv(R)
        s, c = self.mul(y, Ri), self.mul(x, Ri)
        r = None
        a = self.find_angle(s, c, None)
        if a is not None:
            r = self.wrap_pi(a)
        if r is None:
            a = self.new_angle(f"atan2_{len(self.atoms)}", s, c, -1, 1, lo_open=True)
            r = self.avar(a)
        self.ang_cache[key] = r
        return r

    def wrap_pi(self, a):
        """a + 2 pi k in (-pi, pi] for an angle atom a, when a's range is known and small."""
        v = self.avar(a)
        pi = self.pi_rat(Fraction(1))
        inr = band(self.cmp("gt", v, self.neg(pi)), self.cmp("le", v, pi))
        hi = band(self.cmp("gt", v, pi), self.cmp("le", v, self.pi_rat(Fraction(3))))
        lo = band(self.cmp("le", v, self.neg(pi)), self.cmp("gt", v, self.pi_rat(Fraction(-3))))
        other = bnot(bor(inr, hi, lo))
        ch = self.decide([inr, hi, lo, other])
        if ch == 0:
            return v
        if ch == 1:
            return self.sub(v, self.pi_rat(Fraction(2)))
        if ch == 2:
            return self.add(v, self.pi_rat(Fraction(2)))
        return None

    def acos(self, u):
        return self._arc(u, "acos")

    def asin(self, u):
        return self._arc(u, "asin")

    def _arc(self, u, which):
        if isbad(u):
            return BAD
        key = (which, u.key())
        if key in self.ang_cache:
            return self.ang_cache[key]
        c = u.const()
        if c in (0, 1, -1):
            q = {("acos", 0): Fraction(1, 2), ("acos", 1): Fraction(0), ("acos", -1): Fraction(1),
                 ("asin", 0): Fraction(0), ("asin", 1): Fraction(1, 2), ("asin", -1): Fraction(-1, 2)}[which, c]
            return self.pi_rat(q)
        bad = bor(self.cmp("gt", u, RONE), self.cmp("lt", u, rconst(-1)))
        if bad is True or (bad is not False and self.decide([bnot(bad), bad]) == 1):
            self.undefined.append(f"{which} out of [-1,1]")
            return BAD
        w = self.sqrt(self.sub(RONE, self.mul(u, u)))
        if isbad(w):
            return BAD
        s, c = (w, u) if which == "acos" else (u, w)
        a = self.find_angle(s, c, None)
        if a is not None:
            lo, hi = (0, 1) if which == "acos" else (Fraction(-1, 2), Fraction(1, 2))
            ok = band(self.cmp("ge", self.avar(a), self.pi_rat(Fraction(lo))),
                      self.cmp("le", self.avar(a), self.pi_rat(Fraction(hi))))
            if self.entails(ok):
                r = self.avar(a)
                self.ang_cache[key] = r
                return r
        if which == "acos":
            a = self.new_angle(f"acos_{len(self.atoms)}", s, c, 0, 1)
        else:
            a = self.new_angle(f"asin_{len(self.atoms)}", s, c, Fraction(-1, 2), Fraction(1, 2))
        r = self.avar(a)
        self.ang_cache[key] = r
        return r

    def atan(self, u):
        if isbad(u):
            return BAD
        if u.const() == 0:
            return RZERO
        w = self.inv(self.sqrt(self.add(RONE, self.mul(u, u))))
        s, c = self.mul(u, w), w
        a = self.find_angle(s, c, None)
        if a is not None:
            ok = band(self.cmp("gt", self.avar(a), self.pi_rat(Fraction(-1, 2))),
                      self.cmp("lt", self.avar(a), self.pi_rat(Fraction(1, 2))))
            if self.entails(ok):
                return self.avar(a)
        key = ("atan", u.key())
        if key not in self.ang_cache:
            self.ang_cache[key] = self.new_angle(f"atan_{len(self.atoms)}", s, c, Fraction(-1, 2), Fraction(1, 2), True, True)
        return self.avar(self.ang_cache[key])

    # -------------------------------------------------------- integers / modulo
    def intvar(self, name):
        a = self.atom(name, "int")
        return a

    def rem(self, x, y):
        """C-style remainder (sign of dividend), y a constant or multiple of pi, y>0."""
        if isbad(x) or isbad(y):
            return BAD
        if not (y.const() is not None or (not y.den and y.num.atoms() == {self.PI.idx})):
            s = self.sign_known(y.num) if not y.den else None
            if s != 1:
                raise Unsupported("rem by a symbolic value")
        sy = y.const()
        if sy is not None and sy < 0:
            y = rconst(-sy)
        cx = x.const()
        if cx is not None and y.const() is not None:
            c, m = Fraction(cx), Fraction(y.const())
            r = abs(c) % m
            return rconst(r if c >= 0 else -r)
        key = ("rem", x.key(), y.key())
        if key in self.ang_cache:
            return self.ang_cache[key]
        ge0 = self.cmp("ge", x, RZERO)
        lty = self.cmp("lt", x, y)
        gtmy = self.cmp("gt", x, self.neg(y))
        ch = self.decide([band(ge0, lty), band(bnot(ge0), gtmy), band(ge0, bnot(lty)), band(bnot(ge0), bnot(gtmy))])
        if ch in (0, 1):
            r = x
        elif y.const() is not None and (k := self.small_int(self.div(x, y), "trunc")) is not None:
            r = self.sub(x, self.mul(y, rconst(k)))
        else:
            K = self.intvar(f"K{len(self.atoms)}")
            K.info = ("rem", x, y)
            Kv = self.avar(K)
            r = self.sub(x, self.mul(y, Kv))
            if ch == 2:
                cs = [self.cmp("ge", Kv, RONE), self.cmp("ge", r, RZERO), self.cmp("lt", r, y)]
            else:
                cs = [self.cmp("le", Kv, rconst(-1)), self.cmp("le", r, RZERO), self.cmp("gt", r, self.neg(y))]
            for cnd in cs:
                self.assume(cnd)
        self.ang_cache[key] = r
        return r

    def small_int(self, x, kind, top=4):
        """The integer part of x, when the path confines x to |x| <= top (forks over its values)."""
        t = rconst(top)
        if not self.entails(band(self.cmp("le", x, t), self.cmp("ge", x, self.neg(t)))):
            return None
        vals, opts = list(range(-top, top + 1)), []
        h = Fraction(1, 2)
        for k in vals:
            lo, hi, a, b = {"floor": (k, k + 1, "ge", "lt"), "ceil": (k - 1, k, "gt", "le"),
                            "round": (k - h, k + h, *(("ge", "le") if k % 2 == 0 else ("gt", "lt"))),
                            "trunc": (k - 1, k, "gt", "le") if k < 0 else (-1, 1, "gt", "lt") if k == 0 else (k, k + 1, "ge", "lt")}[kind]
            opts.append(band(self.cmp(a, x, rconst(lo)), self.cmp(b, x, rconst(hi))))
        return vals[self.decide(opts)]

    def floor(self, x, kind="floor"):
        c = x.const()
        if c is not None:
            c = Fraction(c)
            if kind == "floor":
                return rconst(math.floor(c))
            if kind == "ceil":
                return rconst(math.ceil(c))
            return rconst(round(c))
        key = (kind, x.key())
        if key in self.ang_cache:
            return self.ang_cache[key]
        k = self.small_int(x, kind)
        if k is not None:
            self.ang_cache[key] = rconst(k)
            return rconst(k)
        K = self.intvar(f"F{len(self.atoms)}")
        K.info = (kind, x, None)
        Kv = self.avar(K)
        K.z = z3.Real(K.name)
        if kind == "floor":
            self.assume(self.cmp("le", Kv, x)); self.assume(self.cmp("gt", Kv, self.sub(x, RONE)))
        elif kind == "ceil":
            self.assume(self.cmp("ge", Kv, x)); self.assume(self.cmp("lt", Kv, self.add(x, RONE)))
        else:
            h = rconst(Fraction(1, 2))
            self.assume(self.cmp("ge", Kv, self.sub(x, h))); self.assume(self.cmp("le", Kv, self.add(x, h)))
        self.ang_cache[key] = Kv
        return Kv

    # --------------------------------------------------------------- logarithms
    def log(self, x):
        if isbad(x):
            return BAD
        c = x.const()
        if c is not None:
            if c <= 0:
                self.undefined.append("log of non-positive")
                return BAD
            if c == 1:
                return RZERO
            c = Fraction(c)
            # powers of ten
            k = 0
            while c.denominator == 1 and c % 10 == 0:
                c /= 10; k += 1
            while c.numerator == 1 and c.denominator % 10 == 0:
                c *= 10; k -= 1
            r = rconst(0)
            if k:
                r = self.mul(rconst(k), self.avar(self.LN10))
            if c != 1:
                key = ("logc", c)
                if key not in self.fn_cache:
                    a = self.atom(f"ln_{c.numerator}_{c.denominator}", "log")
                    v = Fraction(math.log(float(c)))
                    d = Fraction(1, 10**12)
                    self.add_def(a, (z3.And(a.z > z3.RealVal(str(v - d)), a.z < z3.RealVal(str(v + d))), {a.idx}))
                    a.info = rconst(c)
                    self.fn_cache[key] = a
                r = self.add(r, self.avar(self.fn_cache[key]))
            return r
        gt = self.cmp("gt", x, RZERO)
        if self.decide([gt, bnot(gt)]) == 1:
            self.undefined.append("log of non-positive")
            return BAD
        cc, fs = self.factor(x.num, deep=True)
        ex = dict(fs)
        for f, e in x.den:
            ex[f] = ex.get(f, 0) - e
        r = self.log(rconst(abs(cc))) if abs(cc) != 1 else RZERO
        rest = ONE
        neg = cc < 0
        for f, e in ex.items():
            s = self.sign_known(f)
            if s == -1:
                f2, s = pneg(f), 1
                if e & 1:
                    neg = not neg
            else:
                f2 = f
            if s != 1:
                return self._log_atom(x)
            r = self.add(r, self.mul(rconst(e), self._log_poly(f2)))
        if neg:
            return self._log_atom(x)
        return r

    def _log_poly(self, f):
        if len(f.d) == 1:
            (m,) = f.d
            if len(m) == 1 and m[0][1] == 1 and f.d[m] == 1:
                a = self.atoms[m[0][0]]
                if a.kind == "exp":
                    return a.info
        return self._log_atom(Rat(f))

    def _log_atom(self, x):
        key = ("log", x.key())
        if key not in self.fn_cache:
            a = self.atom(f"ln{len(self.atoms)}", "log")
            a.info = x
            self.fn_cache[key] = a
            # sign facts: log x > 0 <=> x > 1
            g1, e1 = self.cmp("gt", x, RONE), self.cmp("eq", x, RONE)
            if not isinstance(g1, bool) and not isinstance(e1, bool):
                self.add_def(a, (z3.And((a.z > 0) == g1.e, (a.z == 0) == e1.e), {a.idx} | g1.at))
        return self.avar(self.fn_cache[key])

    def cbrt(self, x):
        """The real cube root: a fresh atom with its cube given."""
        if isbad(x):
            return x
        key = ("cbrt", x.key())
        if key not in self.fn_cache:
            a = self.atom(f"cbrt{len(self.atoms)}", "cbrt")
            a.info = x
            self.fn_cache[key] = a
            r = self.avar(a)
            e = self.cmp("eq", self.mul(r, self.mul(r, r)), x)
            if not isinstance(e, bool):
                self.add_def(a, (e.e, {a.idx} | e.at))
        return self.avar(self.fn_cache[key])

    def exp(self, x):
        if isbad(x):
            return BAD
        if x.const() == 0:
            return RONE
        if x.den:
            return self._exp_atom(x)
        r = RONE
        rest = {}
        for m, c in x.num.d.items():
            if len(m) == 1 and m[0][1] == 1:
                a = self.atoms[m[0][0]]
                c = Fraction(c)
                if a.kind == "log" and c.denominator in (1, 2):
                    v = a.info
                    if c.denominator == 2:
                        v, c = self.sqrt(v), c * 2
                    r = self.mul(r, self.ipow(v, c.numerator))
                    continue
                if a is self.LN10:
                    if c.denominator == 1:
                        r = self.mul(r, rconst(Fraction(10) ** c.numerator))
                        continue
                    k = math.floor(c)
                    r = self.mul(r, rconst(Fraction(10) ** k))
                    rest[m] = c - k
                    continue
            rest[m] = c
        if not rest:
            return r
        # canonical exponent: split each term into integer multiples of a base
        return self.mul(r, self._exp_atom(Rat(Poly(rest))))

    def _exp_atom(self, x):
        # exp(-y) = 1/exp(y); exp(2y) = exp(y)^2 via content
        if not x.den:
            c, mono, prim = self.content(x.num)
            g = Fraction(c)
            for (key_p, a) in [(k[1], v) for k, v in self.fn_cache.items() if isinstance(k, tuple) and k and k[0] == "expbase"]:
                pass
            key = ("expbase", Poly({mmul(tuple(sorted(mono.items())), m): cc for m, cc in prim.d.items()}).key())
            if key in self.fn_cache:
                a, g0 = self.fn_cache[key]
                n = g / g0
                if n.denominator == 1:
                    return self.ipow(self.avar(a), n.numerator)
                # refine: introduce root: a = b^k
                raise Unsupported("fractional exponent refinement")
            a = self.atom(f"exp{len(self.atoms)}", "exp")
            a.nonneg = True
            base = abs(g)
            a.info = Rat(pscale(x.num, 1 if g > 0 else -1))
            z = self.zpoly(a.info.num)
            self.add_def(a, (z3.And(a.z > 0, (a.z > 1) == (z > 0), (a.z == 1) == (z == 0)), {a.idx} | a.info.num.atoms()))
            self.fn_cache[key] = (a, base)
            v = self.avar(a)
            return v if g > 0 else self.inv(v)
        key = ("exp", x.key())
        if key not in self.fn_cache:
            a = self.atom(f"exp{len(self.atoms)}", "exp")
            a.nonneg = True
            a.info = x
            self.add_def(a, (a.z > 0, {a.idx}))
            self.fn_cache[key] = a
        return self.avar(self.fn_cache[key])

    # --------------------------------------------------------------- constants
    def const(self, f):
        if isinstance(f, bool):
            return rconst(int(f))
        if isinstance(f, int):
            return rconst(f)
        if isinstance(f, float):
            if math.isnan(f) or math.isinf(f):
                return BAD
            q, k, l = snap(f)
            return self._pk(q, k, l)
        return rconst(f)

    def _pk(self, q, k, l):
        if not k and not l:
            return rconst(q)
        r = rconst(q)
        for n, at in ((k, self.PI), (l, self.LN10)):
            if n > 0:
                r = self.mul(r, self.ipow(self.avar(at), n))
            elif n < 0:
                r = self.mk(self.mul(r, RONE).num, r.den + ((Poly({((at.idx, 1),): 1}), -n),))
        return r


# -------------------------------------------------------------------- SMT glue
_LAST = {}


def solve(exprs, ms, stats, model=False):
    t0 = time.time()
    s = z3.SolverFor("QF_NRA")
    s.set("timeout", int(ms))
    s.add(*exprs)
    r = s.check()
    if r == z3.unknown:
        s2 = z3.Solver()
        s2.set("timeout", int(ms))
        s2.add(*exprs)
        r2 = s2.check()
        if r2 != z3.unknown:
            s, r = s2, r2
    dt = time.time() - t0
    stats.queries += 1
    stats.time += dt
    stats.maxq = max(stats.maxq, dt)
    if r == z3.sat:
        stats.sat += 1
        return "sat", (s.model() if model else None)
    if r == z3.unsat:
        stats.unsat += 1
        return "unsat", None
    stats.unknown += 1
    return "unknown", None


def zfloat(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long() if abs(v.denominator_as_long()) < 10**300 else float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    try:
        return float(Fraction(v.as_fraction()))
    except Exception:
        return float(v.as_decimal(20).rstrip("?"))
