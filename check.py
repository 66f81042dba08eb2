"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]

Decides one property: proves its contracts on the current source of /repo (SMT), evaluates
the same contracts at run time on the real modules, replays counterexamples, and writes
evidence/<property>.json.  Exit 0: held on everything; exit 1: a VIOLATION line was printed.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VC_REPO", "/repo")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, "src"))

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import signal
import time
import traceback
import warnings

import numpy as np

warnings.filterwarnings("ignore")

TRUSTED = [
    "pyvc (this framework): loader's AST transformation, symbolic numpy/scipy/pandas models (pyvc/npshim.py, builtins_shim.py), compared with the real libraries by tools/difftest.py",
    "z3 5.3.2 and cvc5 1.1.2",
    "float arithmetic treated as real arithmetic (infinities and NaN modelled; rounding and overflow not) except where a contract says otherwise",
    "numba's compilation preserves the meaning of the python source (njit decorators are dropped by the extraction)",
]


def log(*a):
    print(*a, flush=True)


# --------------------------------------------------------------------------- json
def enc(o):
    if isinstance(o, np.ndarray):
        return {"__array__": o.tolist(), "dtype": o.dtype.kind, "shape": list(o.shape)}
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, dict):
        return {str(k): enc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [enc(x) for x in o]
    if isinstance(o, (int, float, str, bool)) or o is None:
        return o
    return repr(o)


def dec(o):
    if isinstance(o, dict):
        if "__array__" in o:
            return np.array(o["__array__"], dtype={"f": float, "i": int, "b": bool}[o["dtype"]]).reshape(o["shape"])
        return {k: dec(v) for k, v in o.items()}
    return o


# --------------------------------------------------------------------------- workers
class _Alarm(Exception):
    pass


def _on_alarm(*a):
    raise _Alarm()


def one_concrete(con, rng, replay=None, limit=60):
    from pyvc import contract as C

    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(limit)
    try:
        return C.run_concrete(con, rng, replay)
    except _Alarm:
        return "fail", C.Failed("the call returns", f"no answer within {limit} s"), C.last_conc()
    except Exception as e:  # a defect of the contract itself
        return "error", C.Failed("contract error", "".join(traceback.format_exception(e))[-1500:]), C.last_conc()
    finally:
        signal.alarm(0)


def rac_worker(prop, name, seed, chunk, n, budget, conn):
    con = find(prop, name)
    out = {"n": 0, "ok": 0, "discard": 0, "fail": None, "checks": 0, "sample": None, "errors": 0, "error": ""}
    seen = set()
    t0 = time.time()
    cid = int(hashlib.sha1(name.encode()).hexdigest()[:6], 16)
    for i in range(n):
        if time.time() - t0 > budget:
            break
        sd = [seed, cid, chunk, i]
        st, f, k = one_concrete(con, np.random.default_rng(sd))
        out["n"] += 1
        if st == "ok":
            out["ok"] += 1
            out["checks"] += k.checked
            seen.add(hashlib.sha1(repr(enc(k.log)).encode()).hexdigest()[:16])
            if out["sample"] is None:
                out["sample"] = enc(k.log)
        elif st == "discard":
            out["discard"] += 1
        elif st == "error":
            out["errors"] += 1
            out["error"] = f.detail
        else:
            out["fail"] = {"check": f.name, "detail": str(f.detail)[:2000], "seed": sd, "inputs": enc(k.log) if k else None}
            break
    out["distinct"] = list(seen)
    out["wall"] = round(time.time() - t0, 2)
    conn.send(out)
    conn.close()


def prove_worker(prop, name, tier, patience, conn):
    from pyvc import contract as C

    con = find(prop, name)
    r = C.run_symbolic(con, tier, patience)
    r["counterexamples"] = [[nm, enc(m)] for nm, m in r["counterexamples"]]
    try:
        json.dumps(r)
    except TypeError:
        r = json.loads(json.dumps(r, default=str))
    conn.send(r)
    conn.close()


def find(prop, name):
    from pyvc import contract as C

    return [c for c in C.REGISTRY[prop] if c.name == name][0]


class Pool:
    """run tasks in forked processes, at most n at a time, each with a wall limit"""

    def __init__(self, n=8):
        self.n = n
        self.todo, self.running, self.done = [], [], {}

    def add(self, key, target, args, limit):
        self.todo.append((key, target, args, limit))

    def run(self):
        while self.todo or self.running:
            while self.todo and len(self.running) < self.n:
                key, target, args, limit = self.todo.pop(0)
                a, b = mp.Pipe(False)
                p = mp.Process(target=target, args=(*args, b), daemon=True)
                p.start()
                b.close()
                self.running.append((key, p, a, time.time() + limit))
            nxt = []
            mp.connection.wait([r[2] for r in self.running], timeout=0.5)
            for key, p, a, end in self.running:
                if a.poll():
                    try:
                        self.done[key] = a.recv()
                    except EOFError:
                        self.done[key] = None
                    p.join(5)
                    if p.is_alive():
                        p.kill()
                elif not p.is_alive():
                    self.done[key] = None
                elif time.time() > end:
                    p.kill()
                    self.done[key] = None
                else:
                    nxt.append((key, p, a, end))
            self.running = nxt
        return self.done


# --------------------------------------------------------------------------- main
def known_entries(prop):
    out = []
    p = os.path.join(HERE, "known", "findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        if line.startswith("known: property=" + prop + " "):
            out.append(line.strip())
    return out


def inputs_id(inputs):
    return hashlib.sha1(json.dumps(inputs, sort_keys=True).encode()).hexdigest()[:12]


def is_known(entries, contract, f):
    for e in entries:
        if f"contract={contract} " in e and f"check={f['check'].replace(' ', '_')} " in e:
            if f"inputs={inputs_id(f['inputs'])}" in e or "inputs=any" in e:
                return e
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    args = ap.parse_args()
    prop = args.prop
    t0 = time.time()
    importlib.import_module("contracts." + prop.lower())
    from pyvc import contract as C
    import tranquilo

    cons = [c for c in C.REGISTRY.get(prop, []) if args.tier == "thorough" or not c.thorough_only]
    if args.only:
        cons = [c for c in cons if c.name in args.only.split(",")]
    if args.replay:
        return replay(prop, args.replay)
    thorough = args.tier == "thorough"
    pool = Pool(8)
    # warm the z3 import once, before forking
    C._need_z3()
    import z3  # noqa: F401
    import pyvc.loader  # noqa: F401
    import pyvc.npshim  # noqa: F401

    for c in sorted(cons, key=lambda c: -c.deadline):
        if c.prove:
            pool.add(("prove", c.name), prove_worker, (prop, c.name, args.tier, 1),
                     (c.deadline * (4 if thorough else 1)) * 1.5 + 30)
    for c in cons:
        if c.rac:
            n, budget = c.rac_n, c.rac_s
            if thorough:
                n, budget = n * 20, budget * 12
            for ch in range(c.chunks):
                pool.add(("rac", c.name, ch), rac_worker, (prop, c.name, args.seed, ch, n, budget), budget + 100)
    res = dict(pool.run())

    # proofs that ran out of time (on a slow or busy machine) get a second, more patient run
    again, left = Pool(4), 600 - (time.time() - t0)
    for c in cons:
        pr = res.get(("prove", c.name)) if c.prove else None
        slow = pr and (pr["status"] in ("unknown", "undecided")
                       or pr["status"] == "unsupported" and pr["wall_s"] > 20)
        if (c.prove and pr is None or slow) and not thorough and left > 60:
            again.add(("prove", c.name), prove_worker, (prop, c.name, args.tier, 4), left)
    for key, pr in again.run().items():
        if pr:
            res[key] = pr

    violations, known = [], []
    entries = known_entries(prop)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)

    def report(contract, kind, payload, what, tail=""):
        name = f"{prop}-{contract}-{len(violations)}.json"
        path = os.path.join(HERE, "replays", name)
        json.dump({"property": prop, "contract": contract, "kind": kind, "what": what, **payload},
                  open(path, "w"), indent=1)
        violations.append((contract, what))
        if kind == "input":
            decided.append(path)
        log(f"{contract}: {what}")
        log(f"VIOLATION property={prop} replay={path}{tail}")

    summary, pending, decided = [], [], []
    for c in cons:
        rs = [res.get(("rac", c.name, ch)) for ch in range(c.chunks)] if c.rac else []
        pr = res.get(("prove", c.name)) if c.prove else None
        item = {"contract": c.name, "functions": c.functions, "bounded": c.bounded}
        failed = None
        if rs:
            good = [r for r in rs if r]
            item["runtime"] = {
                "evaluations": sum(r["n"] for r in good), "passed": sum(r["ok"] for r in good),
                "discarded": sum(r["discard"] for r in good), "checks": sum(r["checks"] for r in good),
                "distinct": len(set().union(*[r["distinct"] for r in good])) if good else 0,
                "errors": sum(r["errors"] for r in good)}
            item["sample"] = next((r["sample"] for r in good if r["sample"]), None)
            if any(r["errors"] for r in good):
                item["runtime_error"] = next(r["error"] for r in good if r["errors"])
                log(f"{c.name}: contract errors: {item['runtime_error'][-300:]}")
            fails = [r["fail"] for r in good if r["fail"]]
            failed = fails[0] if fails else None
            for f in fails:
                e = is_known(entries, c.name, f)
                if e:
                    known.append(e)
                    if f is failed:
                        failed = None
        if failed:
            report(c.name, "input", failed, f"postcondition violated: {failed['check']} {failed['detail'][:300]}")
        if c.prove:
            if pr is None:
                item["proof"] = {"status": "undecided", "error": "prover process ended or ran out of time"}
            else:
                item["proof"] = {x: pr[x] for x in ("status", "error", "obligations", "backends", "paths", "solver_s", "queries", "reached", "wall_s", "trusted")}
            st = item["proof"]["status"]
            bad = pr and (st == "refuted" or (st == "unknown" and not c.soft))
            if bad and not failed:
                pending.append((c, pr))
        summary.append(item)
        p = item.get("proof")
        log(f"  {c.name}: " + (f"proof {p['status']} {p['error'][:200]}" if p else "no proof")
            + (f"; {sum(o['proved'] for o in p.get('obligations', []))}/{sum(o['instances'] for o in p.get('obligations', []))} obligations, {p.get('paths')} paths, {p.get('solver_s')} s" if p and p.get("obligations") else "")
            + (f"; run time {item['runtime']['passed']}/{item['runtime']['evaluations']}" if "runtime" in item else ""))
    for c, pr in pending:
        confirm(prop, c, pr, report, args, entries, known, decided)
    for e in sorted(set(known)):
        log(f"KNOWN-FINDING: property={prop} {e.split('|', 1)[-1].strip()}")
    evidence(prop, args, cons, summary, violations, time.time() - t0)
    return 1 if violations else 0


def confirm(prop, c, pr, report, args, entries, known, decided):
    """a failed obligation: look for a failing input of the real code"""
    bad = [o for o in pr["obligations"] if o["refuted"] or o["unknown"]]
    names = ", ".join(o["name"] for o in bad)
    for nm, m in pr["counterexamples"]:
        for i in range(3):
            st, f, k = one_concrete(c, np.random.default_rng([args.seed, i]), dec(m), limit=20)
            if st == "fail":
                fd = {"check": f.name, "detail": str(f.detail)[:2000], "inputs": enc(k.log if k else m)}
                e = is_known(entries, c.name, fd)
                if e:
                    known.append(e)
                    return
                report(c.name, "input", fd, f"obligation failed: {nm}; the verifier's counterexample violates '{f.name}' on the real code")
                return
    if c.rac:
        pool = Pool(8)
        for ch in range(8):
            pool.add(ch, rac_worker, (prop, c.name, args.seed, 1000 + ch, 10 ** 6, 20), 120)
        for r in pool.run().values():
            if r and r["fail"]:
                e = is_known(entries, c.name, r["fail"])
                if e:
                    known.append(e)
                    return
                report(c.name, "input", r["fail"], f"obligation failed: {names}; violated by a run: {r['fail']['check']}")
                return
    if decided:
        # another contract of this property was violated by an input; the open obligation is reported with it
        log(f"{c.name}: obligation not accepted by the verifier either: {names} (a failing input is in {decided[0]})")
        rec = json.load(open(decided[0]))
        rec.setdefault("open_obligations", {})[c.name] = {"obligations": bad, "status": pr["status"], "functions": c.functions}
        json.dump(rec, open(decided[0], "w"), indent=1)
        return
    payload = {"obligations": bad, "status": pr["status"], "counterexamples": pr["counterexamples"],
               "functions": c.functions}
    report(c.name, "obligation", payload, f"obligation not accepted by the verifier: {names}",
           " no-failing-input-found")


def replay(prop, path):
    d = json.load(open(path))
    c = find(prop, d["contract"])
    if d["kind"] == "input":
        st, f, k = one_concrete(c, np.random.default_rng(d.get("seed") or [1, 0]), dec(d["inputs"]) if d.get("inputs") else None)
        log(json.dumps(enc(k.log), indent=1) if k else "")
        log(f"{st}: {f.name if f else ''} {f.detail if f else ''}")
        return 1 if st == "fail" else 0
    from pyvc import contract as C

    r = C.run_symbolic(c)
    for o in r["obligations"]:
        log(o["name"], {x: o[x] for x in ("proved", "refuted", "unknown")}, o["detail"])
    log(r["status"], r["error"])
    return 0 if r["status"] == "proved" else 1


def evidence(prop, args, cons, summary, violations, wall):
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = next((c["level"] for c in man["checks"] if c["property"] == prop), "other")
    pr = [s for s in summary if s.get("proof") and not s["bounded"]]
    pb = [s for s in summary if s.get("proof") and s["bounded"]]

    def cnt(items, key):
        return sum(o[key] for s in items for o in s["proof"].get("obligations", []))

    proved = [s for s in pr if s["proof"]["status"] == "proved"]
    backends = {}
    for s in pr + pb:
        for b, n in s["proof"].get("backends", {}).items():
            backends[b] = backends.get(b, 0) + n
    trusted = {}
    for s in pr + pb:
        trusted.update(s["proof"].get("trusted") or {})
    rts = [s for s in summary if "runtime" in s]
    cov = {
        "obligations": cnt(pr, "instances"),
        "discharged": cnt(pr, "proved"),
        "checker_cmd": f"/opt/venv/bin/python check.py {prop} --tier {args.tier}",
        "trusted_base": TRUSTED + [f"{k}: {v}" for k, v in sorted(trusted.items())],
        "functions_under_contract": sorted({f for s in proved for f in s["functions"]}),
        "contracts_proved": [s["contract"] for s in proved],
        "contracts_not_proved": [{"contract": s["contract"], "status": s["proof"]["status"], "why": s["proof"]["error"][:300],
                                  "stand_in": "run-time check (bounded)"} for s in pr if s["proof"]["status"] != "proved"],
        "obligation_names": sorted({f"{s['contract']}: {o['name']}" for s in pr for o in s["proof"].get("obligations", [])}),
        "backends": backends,
        "solver_s": round(sum(s["proof"].get("solver_s", 0) for s in pr + pb), 2),
        "bounded": {
            "note": "obligations at stated fixed dimensions or lengths; not counted as proved",
            "contracts": [{"contract": s["contract"], "bound": s["bounded"], "status": s["proof"]["status"]} for s in pb],
            "obligations": cnt(pb, "instances"), "discharged": cnt(pb, "proved")},
        "evaluations": sum(s["runtime"]["evaluations"] for s in rts),
        "distinct_nontrivial": sum(s["runtime"]["distinct"] for s in rts),
        "rule": "run-time contract checks (bounded, not proof): inputs drawn at random with boundary values; non-trivial = the precondition held and at least one postcondition was evaluated on the real code; distinct by the drawn inputs",
        "runtime_checks": [{"contract": s["contract"], **s["runtime"]} for s in rts],
        "samples": [{"contract": s["contract"], "inputs": s["sample"]} for s in rts if s.get("sample")][:3],
        "explanation": "contract-based deductive verification of the functions in /repo/src, re-extracted on this run; see DESIGN.md",
    }
    if not cov["samples"]:
        cov["samples"] = [{"contract": s["contract"]} for s in summary][:1]
    assumptions = sorted({a for c in cons for a in c.assumptions})
    ev = {"property": prop, "tier": args.tier, "seed": args.seed, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(wall, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    txt = json.dumps(ev, indent=1, default=str)
    open(os.path.join(HERE, "evidence", prop + ".json"), "w").write(txt + "\n")


if __name__ == "__main__":
    sys.exit(main())
