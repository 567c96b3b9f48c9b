"""Replay a counterexample on the real code: python -m vsym.replay FILE"""
import importlib
import json
import os
import sys


def main():
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    d = json.load(open(sys.argv[1]))
    import jax
    jax.config.update("jax_enable_x64", True)
    from vsym.harness import run_concrete
    mod = importlib.import_module(f"props.{d['property'].lower()}")
    h = next(h for h in mod.harnesses("thorough") if h.name == d["harness"])
    fails = run_concrete(h, d["inputs"])
    for n, w in fails:
        print("FAILS", n, w)
    print("reproduced" if fails else "not reproduced")
    sys.exit(1 if fails else 0)


if __name__ == "__main__":
    main()
