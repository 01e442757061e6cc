"""Runs the cases of a property in parallel and writes the evidence."""

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import re
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASES = {}


class Case:
    def __init__(self, prop, fn, name, params, tier, bounds, opts):
        self.prop, self.fn, self.name, self.params = prop, fn, name, params
        self.tier, self.bounds, self.opts = tier, bounds, opts

    @property
    def id(self):
        return self.name + ("" if not self.params else "[" + ",".join(
            f"{k}={v}" for k, v in self.params.items()) + "]")


def case(prop, quick=({},), thorough=(), bounds="", **opts):
    """Register a harness for a property, one case per parameter set"""

    def deco(fn):
        for tier, sets in (("quick", quick), ("thorough", thorough)):
            for p in sets:
                p = dict(p)
                o = dict(opts)
                o.update(p.pop("_opts", {}))
                CASES.setdefault(prop, []).append(
                    Case(prop, fn, fn.__name__, p, tier, bounds, o))
        return fn

    return deco


def load():
    import harness

    for m in sorted(pkgutil.iter_modules(harness.__path__), key=lambda m: m.name):
        importlib.import_module(f"harness.{m.name}")


def _work(c, seed, tier, conn):
    from . import ctx as C

    os.setpgid(0, 0)
    devnull = open(os.devnull, "w")
    out = sys.stdout
    sys.stdout = devnull
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        o = dict(c.opts)
        o.pop("cost", None)
        if tier == "thorough":
            for k in ("budget_s", "max_paths"):
                if "thorough_" + k in o:
                    o[k] = o["thorough_" + k]
        o = {k: v for k, v in o.items() if not k.startswith("thorough_")}
        import foxes

        r = C.explore(c.fn, c.params, root=os.path.dirname(foxes.__file__), seed=seed, **o)
    except BaseException as exc:
        r = dict(status="error", msg=f"{type(exc).__name__}: {exc} " + traceback.format_exc()[-1500:],
                 wall=0)
    sys.stdout = out
    conn.send(r)
    conn.close()


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.isfile(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def _known(known, c, r):
    """the listed finding this violation is an instance of"""
    return next((k for k in known if k["property"] == c.prop and k.get("status") != "fixed"
                 and re.fullmatch(k["case"], c.id) and re.fullmatch(k["label"], r["label"] or "")), None)


def run(prop, tier, args=()):
    known = known_findings()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        import foxes  # noqa: F401

        load()
    except Exception as exc:
        # the code under test cannot even be imported
        print(f"ERROR property={prop}: import failed: {type(exc).__name__}: {exc}")
        traceback.print_exc()
        return 2
    cases = [c for c in CASES.get(prop, []) if c.tier == "quick" or tier == "thorough"]
    if args:
        cases = [c for c in cases if any(a in c.id for a in args)]
    if not cases:
        print(f"ERROR property={prop}: no cases")
        return 2
    limit = float(os.environ.get("VERIF_LIMIT", 780 if tier == "quick" else 5400))
    nproc = int(os.environ.get("VERIF_PROCS", min(8, os.cpu_count() or 4)))
    todo = sorted(cases, key=lambda c: -c.opts.get("cost", 1))
    running, results = {}, []
    stop = False
    ctxm = mp.get_context("fork")
    verbose = os.environ.get("VERIF_VERBOSE", "1") == "1"
    while todo or running:
        while todo and len(running) < nproc and not stop:
            c = todo.pop(0)
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=_work, args=(c, seed, tier, b))
            p.start()
            b.close()
            running[p] = (c, a, time.time())
        done = []
        for p, (c, a, ts) in running.items():
            r = None
            if a.poll(0):
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(status="error", msg="worker died", wall=time.time() - ts)
                p.join(5)
            elif not p.is_alive():
                r = dict(status="error", msg="worker died", wall=time.time() - ts)
            elif time.time() - t0 > limit:
                _kill(p)
                r = dict(status="budget", msg="time limit of the check", wall=time.time() - ts)
            if r is not None:
                done.append(p)
                results.append((c, r))
                if verbose:
                    print(f"[{prop}] {c.id}: {r['status']} paths={r.get('completed')} "
                          f"checks={r.get('checks')} queries={r.get('stats', {}).get('queries')} "
                          f"wall={r['wall']:.1f}s {r['msg'][:600]}", flush=True)
                if (r["status"] == "violation" and not args and os.environ.get("VERIF_ALL") is None
                        and _known(known, c, r) is None):
                    stop = True
        for p in done:
            del running[p]
        if stop:
            for p in running:
                _kill(p)
            break
        time.sleep(0.02)
    return report(prop, tier, seed, cases, results, time.time() - t0)


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        try:
            p.kill()
        except Exception:
            pass
    p.join(5)


def report(prop, tier, seed, cases, results, wall):
    from .sym import Stats

    st = Stats()
    fns = set()
    tot = dict(states=0, transitions=0, traces_validated_against_impl=0, checks=0,
               aborted_paths=0, paths_without_model=0, refinements=0)
    samples, percase, viol, bad = [], [], [], []
    for c, r in results:
        if "stats" in r:
            st.add(r["stats"])
            fns |= set(r["functions"])
            tot["states"] += r["completed"]
            tot["transitions"] += r["decisions"]
            tot["traces_validated_against_impl"] += r["validated"]
            tot["checks"] += r["checks"]
            tot["aborted_paths"] += r["aborted"]
            tot["paths_without_model"] += r["unmodelled"]
            tot["refinements"] += r["refinements"]
            for s in r["samples"][:1]:
                if len(samples) < 12:
                    samples.append(dict(case=c.id, **s))
        percase.append(dict(case=c.id, status=r["status"], bounds=c.bounds,
                            paths=r.get("completed"), checks=r.get("labels"),
                            wall_s=round(r["wall"], 2)))
        if r["status"] == "violation":
            viol.append((c, r))
        elif r["status"] != "ok":
            bad.append((c, r))
    known = [k for k in known_findings() if k["property"] == prop]
    newv = []
    for c, r in viol:
        k = _known(known, c, r)
        if k is not None:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
        else:
            newv.append((c, r))
    cov = dict(tot)
    cov.update(
        undecided=[f"{c.id}: {r['status']}: {r['msg'][:200]}" for c, r in bad],
        samples=samples or [dict(note="no completed path")],
        queries=st.queries, solver_s=round(st.solver_s, 2), unsat=st.unsat, sat=st.sat,
        unknown=st.unknown, coincidences_assumed_away=st.skipped, decided_without_query=st.trivial,
        functions_encoded=sorted(fns), cases=percase,
        explanation=("states: completed symbolic paths of the harnesses; transitions: branch "
                     "decisions on them; traces_validated_against_impl: path models replayed on "
                     "the unpatched code with all checks holding"),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              wall_s=round(wall, 2), violations=len(newv),
              assumptions=sorted({c.bounds for c, _ in results if c.bounds}) + [
                  "numbers are exact reals, not IEEE doubles; results equal up to the stated tolerance",
                  "exp/log/non-integer powers are characterised by bounding, monotonicity and congruence axioms",
              ])
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for c, r in newv:
        rec = dict(property=prop, case=c.id, fn=c.name, params=c.params, label=r["label"],
                   msg=r["msg"], values=r["values"])
        s = json.dumps(rec, indent=1, default=str)
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}_{hashlib.sha1(s.encode()).hexdigest()[:10]}.json")
        with open(path, "w") as f:
            f.write(s + "\n")
        print(f"  {c.id}: {r['msg'][:600]}")
        print(f"VIOLATION property={prop} replay={path}")
    print(f"{prop} {tier}: {len(results)} cases, {tot['states']} paths, {tot['checks']} checks, "
          f"{st.queries} queries ({st.unsat} unsat, {st.sat} sat, {st.unknown} unknown, {st.skipped} assumed away), "
          f"solver {st.solver_s:.1f}s, wall {wall:.1f}s")
    if newv:
        return 1
    for c, r in bad:
        print(f"INCOMPLETE property={prop} case={c.id}: {r['status']}: {r['msg'][:1000]}")
    if not any(r["status"] == "ok" for _, r in results) and not viol:
        print(f"ERROR property={prop}: no case could be decided")
        return 2
    # what was explored held; the evidence lists the cases that were not decided
    return 0


def replay(path):
    from . import ctx as C

    with open(path) as f:
        rec = json.load(f)
    load()
    for c in CASES.get(rec["property"], []):
        if c.id == rec["case"]:
            st, lab, msg = C.run_conc(c.fn, c.params, rec["values"])
            print(f"{rec['property']} {c.id}: {st} {msg}")
            print(f"inputs: {rec['values']}")
            return 1 if st == "violation" else 0
    print("case not found")
    return 2


def listing(props):
    load()
    for p in sorted(CASES):
        if props and p not in props:
            continue
        for c in CASES[p]:
            print(p, c.tier, c.id, "|", c.bounds)
    return 0
