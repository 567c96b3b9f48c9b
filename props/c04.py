"""C04: changing the representation of an acceleration keeps the physical acceleration."""
from .c03 import REG, zne0
from .common import *  # noqa: F403


def acc_pair(name, A, B, a, b, moving=False, lu="km", au="rad", tu="s", quantity=False, tiers=("quick", "thorough")):
    ins = {**A.inputs, **diff_inputs(a, "a_")}
    if moving:
        ins.update(diff_inputs(a, "v_"))
    if b == "prol" and a != "prol":
        ins["Dnew"] = Pos()

    def fn(c, **inp):
        kw = {} if "Dnew" not in inp else {"Delta": ql(inp["Dnew"], lu)}
        pin = pick(inp, *A.comps)
        p = A.build(**pin, lu=lu, au=au)
        vin = {"v_" + k: inp.get("v_" + k, 0.0 * inp["a_" + k]) for k in DIFFC[a]}
        v = build_vel(a, vin, lu, au, tu, pre="v_")
        acc = build_vel(a, inp, lu, au, tu, pre="a_", order=2)
        w = acc.represent_as(ACCCLS[b], v, p, **kw)
        c.true("type", type(w) is ACCCLS[b])
        pb = p.represent_as(B.cls, **kw)
        pc = [pin[k] for k in A.comps]
        dc = [vin["v_" + k] for k in DIFFC[a]]
        ac = [inp["a_" + k] for k in DIFFC[a]]
        truth = phys_acc(a, pc, dc, ac)
        vb = [0.0 * ac[0]] * len(DIFFC[b]) if not moving else dcomps(b, v.represent_as(VELCLS[b], p, **kw))
        c.eq("acceleration", phys_acc(b, comps(b, pb), vb, dcomps(b, w, 2)), truth)
    asm = [A.assume, A.offaxis]
    if "prol" in (a, b):
        asm.append(REG["prol"] if a == "prol" else zne0(A))
    return Harness("C04", name, fn, ins, assume=conj(*asm), tiers=tiers)


def harnesses(tier):
    hs = []
    for grp in (R1, R2, R3):
        for a, A in grp.items():
            for b, B in grp.items():
                if grp is R1 and a != b:
                    continue
                hs.append(acc_pair(f"{a}->{b} at rest", A, B, a, b))
    hs.append(acc_pair("cart->sph m,deg,h", R3["cart"], R3["sph"], "cart", "sph", lu="m", au="deg", tu="h"))
    hs.append(acc_pair("cyl->cart m,deg,h", R3["cyl"], R3["cart"], "cyl", "cart", lu="m", au="deg", tu="h"))
    for grp in (R1, R2, R3):
        for a, A in grp.items():
            for b, B in grp.items():
                if grp is R1 and a != b:
                    continue
                hs.append(acc_pair(f"{a}->{b} moving", A, B, a, b, moving=True, tiers=("thorough",) if "prol" in (a, b) and "cyl" not in (a, b) else ("quick", "thorough")))
    return with_batched(hs)
