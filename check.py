"""Decide one property of /repo's current working tree.

    python3-vt check.py C01            (VERIF_TIER=quick|thorough, VERIF_SEED)

1. every function the property depends on and that is under contract is
   verified by pyvc (VCs generated from the current source of /repo, discharged
   by z3/cvc5), one process per contract;
2. the property's driver evaluates the same contracts on the real code (PyPy,
   imported from /repo): this replays / concretises failed obligations and is
   the labelled-bounded stand-in for functions outside the verifier's reach.

exit 0 held / 1 VIOLATION line / 2 internal error of the check.
"""
import concurrent.futures as cf
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("PYVC_REPO", "/repo")
PYPY = "/opt/venv/bin/python"
PY = sys.executable

from props import PROPS  # noqa: E402

TRUSTED = [
    "pyvc (VC generator in /verif/pyvc): its semantics of the Python subset",
    "z3 %s / cvc5 1.1.2 soundness",
    "SMT-LIB strings as a model of Python str (alphabet 0..0x2FFFF)",
    "partial correctness: termination is not proved",
    "generators are executed eagerly up to their observable yields",
]


def run(cmd, timeout, env=None, cwd=HERE):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, env=env, cwd=cwd, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        return None, "", "timeout"


def verify_one(spec, label, budget, tmp):
    out = os.path.join(tmp, "%s_%s.json" % (
        spec, "".join(c if c.isalnum() else "_" for c in label)))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    rc, so, se = run([PY, "-m", "pyvc.run", spec, label, out, str(budget)],
                     budget + 30, env)
    try:
        with open(out) as f:
            r = json.load(f)
    except (OSError, ValueError):
        r = {"contract": label, "status": "unsupported", "obligations": [],
             "reason": "no result (%s): %s" % (rc, se[-300:]), "wall": budget,
             "trusted": [], "inlined": [], "used": [], "backends": {},
             "solver_time": 0.0, "paths": 0, "cover": None, "qual": label}
    r["spec"] = spec
    return r


def labels_of(spec, want):
    """the contracts and lemmas of a spec whose label contains one of want"""
    m = importlib.import_module("specs." + spec)
    out = [(c.label(), "function") for c in m.CONTRACTS
           if not getattr(c, "assumed", False)]
    out += [(l.name, "lemma") for l in getattr(m, "LEMMAS", [])]
    if want is not None:
        for w in want:
            assert any(w in l for l, _ in out), w
        out = [x for x in out if any(w in x[0] for w in want)]
    return out, m


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    budget = cfg.get("budget", 150) * (3 if tier == "thorough" else 1)
    dbudget = cfg.get("driver_s", 60) * (5 if tier == "thorough" else 1)
    jobs, assumed = [], []
    for spec, want in cfg.get("specs", []):
        ls, m = labels_of(spec, want)
        for label, kind in ls:
            jobs.append((spec, label, kind))
        for c in m.CONTRACTS + list(getattr(m, "EXTRA", [])):
            if getattr(c, "assumed", False):
                assumed.append("assumed contract: %s (%s)" % (
                    c.qual, getattr(c, "why", "not verified")))
    tmp = tempfile.mkdtemp(prefix="vcheck_%s_" % prop)
    results = []
    drv = None
    try:
        with cf.ThreadPoolExecutor(max_workers=8) as pool:
            fd = None
            if cfg.get("driver"):
                fd = pool.submit(run_driver, cfg, tier, seed, dbudget, tmp,
                                 None)
            fs = [pool.submit(verify_one, s, l, budget, tmp)
                  for s, l, k in jobs]
            for (s, l, k), f in zip(jobs, fs):
                r = f.result()
                r["kind"] = k
                results.append(r)
            if fd:
                drv = fd.result()
        # failed obligations: look harder for a concrete failing input
        failed = [(r, o) for r in results for o in r["obligations"]
                  if o["status"] == "refuted"]
        if failed and drv is not None and not drv["violations"]:
            drv2 = run_driver(cfg, "thorough", seed + 1000,
                              min(max(dbudget, 120), 200), tmp, "search")
            drv["violations"] += drv2["violations"]
            drv["evaluations"] += drv2["evaluations"]
            drv["distinct_nontrivial"] += drv2["distinct_nontrivial"]
    finally:
        subprocess.run(["/bin/rm", "-rf", tmp])
    return report(prop, cfg, tier, seed, t0, results, failed, drv, assumed)


def run_driver(cfg, tier, seed, budget, tmp, mode):
    out = os.path.join(tmp, "driver_%s.json" % (mode or "main"))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=":".join(
        [REPO, os.path.join(HERE, "drivers")]), PYTHONHASHSEED="0",
        VERIF_REPO=REPO, TMPDIR=tmp)
    n = min(cfg.get("shards", 1), 8)
    tot = None
    with cf.ThreadPoolExecutor(max_workers=n) as pool:
        fs = []
        for i in range(n):
            o = out + ".%d" % i
            fs.append((o, pool.submit(
                run, [PYPY, os.path.join(HERE, "drivers", cfg["driver"]),
                      o, tier, str(seed), str(budget), str(i), str(n)],
                budget * 3 + 240, env, REPO)))
        for o, f in fs:
            rc, so, se = f.result()
            try:
                with open(o) as fh:
                    r = json.load(fh)
            except (OSError, ValueError):
                raise SystemExit("driver %s failed (%s): %s\n%s" % (
                    cfg["driver"], rc, so[-2000:], se[-4000:]))
            if tot is None:
                tot = r
            else:
                for k in ("evaluations", "distinct_nontrivial"):
                    tot[k] += r[k]
                for k in ("violations", "known"):
                    tot[k] += r[k]
                for k, v in r.get("sections", {}).items():
                    tot["sections"][k] = tot["sections"].get(k, 0) + v
    return tot


def load_known():
    path = os.path.join(HERE, "known_findings.json")
    try:
        with open(path) as f:
            return json.load(f)
    except OSError:
        return []


def report(prop, cfg, tier, seed, t0, results, failed, drv, assumed):
    obligations = sum(len(r["obligations"]) for r in results)
    discharged = sum(1 for r in results for o in r["obligations"]
                     if o["status"] == "proved" and
                     r["status"] != "unsupported")
    undecided = []
    backends, stime, trusted = {}, 0.0, set()
    for r in results:
        if r["status"] not in ("proved", "refuted"):
            undecided.append("%s: %s (%s)" % (
                r.get("qual") or r["contract"], r["status"],
                r.get("reason") or "; ".join(
                    o["name"] for o in r["obligations"]
                    if o["status"] != "proved")[:300]))
        for k, v in r["backends"].items():
            backends[k] = backends.get(k, 0) + v
        stime += r["solver_time"]
        trusted |= set(r.get("trusted", ()))
    proved = [r for r in results if r["status"] == "proved"]
    cov = {
        "functions_under_contract": len(
            [r for r in results if r["kind"] == "function"]),
        "functions_proved": sorted(r["qual"] for r in proved
                                   if r["kind"] == "function"),
        "lemmas_proved": sorted(r["contract"] for r in proved
                                if r["kind"] == "lemma"),
        "functions_inlined_into_proofs": sorted(
            {q for r in proved for q in r.get("inlined", ())}),
        "obligations": obligations,
        "discharged": discharged,
        "undecided": undecided,
        "paths": sum(r["paths"] for r in results),
        "queries_by_backend": backends,
        "solver_time_s": round(stime, 2),
        "checker_cmd": "python3-vt check.py %s" % prop,
        "trusted_base": TRUSTED + sorted(trusted),
    }
    if drv:
        cov["bounded_evaluation"] = {
            "label": "bounded: contracts evaluated on the real code, never "
                     "counted as proved",
            "functions": cfg.get("bounded", []),
            "sections": drv.get("sections", {})}
        for k in ("evaluations", "distinct_nontrivial", "rule", "samples"):
            cov[k] = drv[k]
    known = load_known()
    viol, kf = [], []
    for v in (drv or {}).get("violations", []):
        hit = [k for k in known if k["property"] == prop and
               k.get("status") == "known" and k.get("match") and
               k["match"] == v.get("key")]
        (kf if hit else viol).append((hit[0] if hit else None, v))
    listed = [k for k in known if k["property"] == prop and
              k.get("status") == "known"]
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    if viol:
        path = os.path.join(rdir, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "failing_inputs":
                       [v for _, v in viol][:20],
                       "failed_obligations": [
                           {"function": r["qual"], **o}
                           for r, o in failed][:20],
                       "how": "PYTHONPATH=/repo:/verif/drivers %s "
                              "drivers/%s --replay %s" % (
                                  PYPY, cfg["driver"], path)},
                      f, indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    elif failed:
        path = os.path.join(rdir, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "failing_inputs": [],
                       "failed_obligations": [
                           {"function": r["qual"], **o}
                           for r, o in failed][:20]}, f, indent=1,
                      default=str)
        lines.append("VIOLATION property=%s replay=%s "
                     "no-failing-input-found" % (prop, path))
    ev = {"property": prop, "tier": tier, "seed": seed,
          "level": cfg["level"], "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + sorted(set(assumed)),
          "wall_s": round(time.time() - t0, 2),
          "violations": len(viol) + (len(failed) if not viol else 0)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for r in results:
        if r["status"] != "proved":
            print("  %s %s: %s" % (r["status"], r.get("qual"),
                                   r.get("reason") or ""))
    for r, o in failed:
        print("  failed obligation [%s] %s" % (r["qual"], o["name"]))
    for _, v in viol[:5]:
        print("  failing input: %s" % json.dumps(v, default=str)[:600])
    print("%s: %d/%d obligations discharged in %d functions+lemmas, %s "
          "bounded evaluations, %.1fs" % (
              prop, discharged, obligations, len(results),
              (drv or {}).get("evaluations", 0), time.time() - t0))
    for l in lines:
        print(l)
    if results and obligations == 0 and not lines:
        # every contract unsupported: only the bounded evaluation spoke
        print("  note: no obligation could be generated from this source")
    return 1 if lines else 0


if __name__ == "__main__":
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    sys.exit(main())
