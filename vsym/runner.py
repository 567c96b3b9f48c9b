"""Check driver: python -m vsym.runner <PROPERTY> [--tier quick|thorough] [--only SUBSTR] [-v]"""
import argparse
import json
import os
import re
import selectors
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def env():
    e = dict(os.environ)
    e.update(JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0",
             XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
             PYTHONPATH=os.pathsep.join(x for x in (os.environ.get("VSYM_DEV_SRC"), ROOT) if x))
    e.pop("JAX_ENABLE_X64", None)
    return e


class Worker:
    def __init__(self, prop, tier, seed):
        self.args = (prop, tier, seed)
        self.start()

    def start(self):
        self.p = subprocess.Popen([PY, "-m", "vsym.worker", self.args[0], self.args[1], str(self.args[2])], cwd=ROOT,
                                  env=env(), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=open(os.environ.get("VSYM_LOG", os.devnull), "a"), text=True, bufsize=1)
        self.job = None
        self.t0 = time.time()
        self.ready = None

    def send(self, i):
        self.job = i
        self.t0 = time.time()
        self.p.stdin.write(json.dumps(i) + "\n")
        self.p.stdin.flush()

    def kill(self):
        self.p.kill()
        self.p.wait()


def load_known(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+harness=(\S+)\s+claim=(\S+)\s+(.*)", ln.strip())
            if m and m.group(1) == prop:
                out.append(dict(harness=m.group(2), claim=m.group(3), what=m.group(4), hit=False))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VSYM_JOBS", "8")))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    limit = 800 if a.tier == "quick" else 3 * 3600
    hard = 300 if a.tier == "quick" else 2400
    ws = [Worker(a.prop, a.tier, seed) for _ in range(a.j)]
    names = None
    queue = None
    results = {}
    fatal = []
    sel = selectors.DefaultSelector()
    for w in ws:
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
    src = None
    stop = failing = False
    seen = 0

    def feed(w):
        if queue:
            w.send(queue.pop(0))
        else:
            w.job = None

    while True:
        if names is not None and len(results) + len(fatal) >= len(todo) and not any(w.job is not None for w in ws):
            break
        if time.time() - t0 > limit:
            fatal.append("overall time limit")
            break
        if names is not None and len(results) != seen:
            seen = len(results)
            known_h = {k["harness"] for k in load_known(a.prop)}
            failing = any(d.get("violations") and d["name"] not in known_h for d in results.values())
        if failing and a.tier == "quick" and time.time() - t0 > 150:
            fatal.append("stopped early: violations found")
            break
        ev = sel.select(timeout=1.0)
        for key, _ in ev:
            w = key.data
            line = w.p.stdout.readline()
            if not line:
                sel.unregister(w.p.stdout)
                w.p.wait()
                if w.ready is None:
                    fatal.append(f"worker failed to start (exit {w.p.returncode})")
                    if all(x.p.poll() is not None for x in ws):
                        stop = True
                elif w.job is not None:
                    results[w.job] = dict(i=w.job, name=names[w.job], fatal=f"worker died (exit {w.p.returncode})", wall=time.time() - w.t0)
                    if queue:
                        w.start()
                        sel.register(w.p.stdout, selectors.EVENT_READ, w)
                    else:
                        w.job = None
                continue
            d = json.loads(line)
            if "ready" in d:
                w.ready = True
                if names is None:
                    names = d["ready"]
                    src = d["coordinax"]
                    todo = [i for i, n in enumerate(names) if a.only is None or a.only in n]
                    queue = list(todo)
                feed(w)
            else:
                results[d["i"]] = d
                if a.v:
                    show(d)
                feed(w)
        if stop:
            break
        for w in ws:
            if w.job is not None and time.time() - w.t0 > hard and w.p.poll() is None:
                j = w.job
                sel.unregister(w.p.stdout)
                w.kill()
                results[j] = dict(i=j, name=names[j], fatal="hard time limit", wall=time.time() - w.t0)
                w.start()
                sel.register(w.p.stdout, selectors.EVENT_READ, w)
    for w in ws:
        try:
            w.kill()
        except Exception:  # noqa: BLE001
            pass
    return finish(a, seed, t0, results, names or [], fatal, src)


def show(d):
    if "fatal" in d:
        print(f"  !! {d['name']}: {d['fatal']}\n" + "\n".join(d.get('tb', '').splitlines()[-12:]), flush=True)
        return
    flag = "V" if d["violations"] else ("S" if d["spurious"] else ("I" if d["inconclusive"] else "."))
    print(f"  {flag} {d['name']}: paths={d['paths']} raise={d['raising']} obl={d['discharged']}/{d['obligations']} "
          f"triv={d['trivial']} raw={d['raw']} q={d['stats']['queries']} t_s={d['stats']['time']:.1f} wall={d['wall']:.1f} val={d['validated']}", flush=True)
    for k in ("inconclusive", "spurious", "valfail", "notes"):
        for x in d[k][:3]:
            print(f"      {k}: {x}", flush=True)
    if d.get("error"):
        print("\n".join((d.get("tb") or "").splitlines()[-14:]), flush=True)
    for v in d["violations"][:4]:
        print(f"      VIOL {v['claim']}: {v['detail'][:300]}  inputs={v['inputs']}", flush=True)


def finish(a, seed, t0, results, names, fatal, src):
    prop = a.prop
    known = load_known(prop)
    rs = [results[i] for i in sorted(results)]
    good = [r for r in rs if "fatal" not in r]
    tot = lambda k: sum(r[k] for r in good)  # noqa: E731
    viol = [v for r in good for v in r["violations"]]
    spurious = [f"{r['name']}: {s}" for r in good for s in r["spurious"]]
    incon = [f"{r['name']}: {s}" for r in good for s in r["inconclusive"]]
    incon += [f"{r['name']}: {r['fatal']}" for r in rs if "fatal" in r]
    valfail = [f"{r['name']}: {s}" for r in good for s in r["valfail"]]
    vac = [r["name"] for r in good if r["reach"] == 0 and not r["inconclusive"]]
    new, printed = [], []
    for v in viol:
        k = next((k for k in known if k["harness"] == v["harness"] and (k["claim"] == "*" or v["claim"].startswith(k["claim"]))), None)
        if k:
            k["hit"] = True
        else:
            new.append(v)
    for k in known:
        if k["hit"]:
            print(f"KNOWN-FINDING: property={prop} {k['what']} [{k['harness']}]")
    rdir = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    done = set()
    for n, v in enumerate(new):
        path = os.path.join(rdir, f"{prop}-{n}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, **v, replay=f"{PY} -m vsym.replay {path}"), f, indent=1)
        if len(done) < 12:
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  harness={v['harness']} claim={v['claim']}: {v['detail'][:400]} inputs={json.dumps(v['inputs'])}")
            done.add(v["harness"])
    prims = {}
    for r in good:
        for k, c in r["prims"].items():
            prims[k] = prims.get(k, 0) + c
    st = {k: sum(r["stats"][k] for r in good) for k in ("queries", "time", "sat", "unsat", "unknown")}
    st["maxq"] = max([r["stats"]["maxq"] for r in good] or [0])
    wall = time.time() - t0
    man = {}
    try:
        m = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
        man = next(c for c in m["checks"] if c["property"] == prop)
    except Exception:  # noqa: BLE001
        pass
    level = man.get("level", "other")
    obl, dis = (tot("obligations"), tot("discharged")) if good else (0, 0)
    cov = dict(
        obligations=obl, discharged=dis,
        checker_cmd=f"./check {prop} --tier {a.tier}",
        trusted_base=["z3 5.3.2 (QF_NRA)", "jax.make_jaxpr tracing of /repo's coordinax", "vsym jaxpr-to-SMT encoder (validated by concrete runs)",
                      "reals instead of IEEE-754 doubles; float constants read as the simple number they round"],
        explanation=f"Each harness calls the real API on symbolic inputs; its jaxpr (regenerated from {src}) is executed symbolically "
                    "path by path, and every claim's negation is given to z3 together with the path condition. Counterexamples are replayed "
                    "on the real code in float64.",
        harnesses=len(rs), harness_names=[r["name"] for r in rs],
        paths=tot("paths") if good else 0, raising_paths=tot("raising") if good else 0,
        reachability_witnesses=tot("reach") if good else 0, vacuous_harnesses=vac,
        syntactically_closed=tot("trivial") if good else 0,
        unnormalised_cross_check=dict(zip(("solver_confirmed", "identical_terms", "unknown", "not_attempted"),
                                          [sum(r["raw"][k] for r in good) for k in range(4)])),
        traces=tot("traces") if good else 0, jaxpr_equations=tot("eqns") if good else 0, primitives=prims,
        solver=dict(queries=st["queries"], seconds=round(st["time"], 2), sat=st["sat"], unsat=st["unsat"], unknown=st["unknown"], slowest_s=round(st["maxq"], 2)),
        encoding_validated_on=tot("validated") if good else 0,
        inconclusive=incon[:50], spurious_models=spurious[:20], encoder_mismatches=valfail[:20],
        known_findings=[k["what"] for k in known if k["hit"]],
        samples=[s for r in good for s in r["samples"]][:6],
        per_harness=[dict(name=r["name"], paths=r["paths"], obligations=r["obligations"], discharged=r["discharged"], wall=round(r["wall"], 2), note=r["note"]) for r in good],
    )
    ev = dict(property=prop, tier=a.tier, seed=seed, level=level, coverage=cov,
              assumptions=["real arithmetic", "inputs range over the bounds declared by each harness (see DESIGN.md)"],
              wall_s=round(wall, 2), violations=len(new))
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {a.tier}: {len(rs)} harnesses, {cov['paths']} paths, {dis}/{obl} obligations discharged "
          f"({cov['syntactically_closed']} by normal form), {st['queries']} queries in {st['time']:.1f}s solver time, wall {wall:.1f}s")
    for x in incon[:10]:
        print("INCONCLUSIVE", x)
    for x in spurious[:10]:
        print("UNREPRODUCED", x)
    for x in valfail[:10]:
        print("ENCODER-MISMATCH", x)
    for x in vac[:10]:
        print("VACUOUS", x)
    if new:
        return 1
    if fatal or not rs:
        print("ERROR", fatal)
        return 2
    if valfail:
        return 2          # the encoder misrepresents the code: no answer
    if not dis or dis < 0.5 * obl:
        print("ERROR: most obligations undecided")
        return 2
    if os.environ.get("VSYM_STRICT") and (spurious or vac or incon):
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
