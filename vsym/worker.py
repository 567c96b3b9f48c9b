"""Worker process: runs harnesses of one property on request (JSON lines on stdin/stdout)."""
import importlib
import json
import os
import sys
import time
import warnings

warnings.filterwarnings("ignore")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def main():
    prop, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)  # anything printed by the code under test goes to stderr
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.path.append(VT)
    import z3  # noqa: F401
    import jax

    jax.config.update("jax_enable_x64", True)
    import coordinax  # noqa: F401

    from vsym.harness import Runner

    mod = importlib.import_module(f"props.{prop.lower()}")
    hs = [h for h in mod.harnesses(tier) if tier in h.tiers]
    out.write(json.dumps(dict(ready=[h.name for h in hs], coordinax=coordinax.__file__)) + "\n")
    for line in sys.stdin:
        i = json.loads(line)
        if i is None:
            break
        h = hs[i]
        t0 = time.time()
        try:
            r = Runner(h, tier, seed).run()
            d = dict(i=i, name=r.name, paths=r.paths, raising=r.raising, reach=r.reach, traces=r.traces,
                     obligations=r.obligations, discharged=r.discharged, trivial=r.trivial,
                     inconclusive=r.inconclusive, spurious=r.spurious, error=r.error,
                     tb=getattr(r, "tb", None), violations=[vars(v) for v in r.violations],
                     stats=vars(r.stats), eqns=r.eqns, prims=r.prims, wall=r.wall,
                     raw=[r.raw_ok, r.raw_same, r.raw_unknown, r.raw_skipped], validated=r.validated, valfail=r.valfail, samples=r.samples, note=h.note,
                     notes=getattr(r, "notes", []))
        except BaseException as e:  # noqa: BLE001
            import traceback
            d = dict(i=i, name=h.name, fatal=f"{type(e).__name__}: {e}", tb=traceback.format_exc(limit=-6), wall=time.time() - t0)
        out.write(json.dumps(d) + "\n")


if __name__ == "__main__":
    main()
