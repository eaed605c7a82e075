"""Runs the cases of one property: symbolic exploration in a process pool, concrete replay of every
counterexample candidate and of path witnesses on the unpatched real code, evidence, verdict."""
import argparse
import contextlib
import importlib
import io
import json
import multiprocessing as mp
import os
import queue
import subprocess
import sys
import time
import traceback


class Case:
    def __init__(self, name, fn, kf=None, must_reach=(), shims=True, max_paths=100000, timeout_ms=20000,
                 tiers=("quick", "thorough"), conc_validate=True, **params):
        """kf: id of the known finding this case demonstrates (expected to fail as listed)."""
        self.name, self.fn, self.kf, self.params = name, fn, kf, params
        self.must_reach, self.shims = must_reach, shims
        self.max_paths, self.timeout_ms, self.tiers = max_paths, timeout_ms, tiers
        self.conc_validate = conc_validate


@contextlib.contextmanager
def quiet():
    """Silence the code under test."""
    so, se = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = so, se


def load(pid):
    return importlib.import_module("checks." + pid)


def get_cases(mod, tier):
    return [c for c in mod.cases(tier) if tier in c.tiers]


# ------------------------------------------------------------------------------- symbolic side


def run_case(pid, tier, name, deadline, seed):
    from . import engine as E
    from . import shims as S
    from .ctx import SymCtx
    import z3
    z3.set_param("smt.random_seed", seed)
    t0 = time.time()
    mod = load(pid)
    case = [c for c in get_cases(mod, tier) if c.name == name][0]
    eng = E.Engine(name, timeout_ms=case.timeout_ms, max_paths=case.max_paths, deadline=deadline)
    ctx = SymCtx(eng)

    def body():
        ctx._undo = []
        try:
            case.fn(ctx, **case.params)
        finally:
            ctx.unpatch()

    err = None
    try:
        with quiet():
            if case.shims:
                with S.Installed():
                    eng.explore(body)
            else:
                eng.explore(body)
    except BaseException:
        err = traceback.format_exc()
    return {"case": name, "stats": eng.stats.as_dict(), "violations": eng.violations, "incomplete": eng.incomplete,
            "witnesses": eng.witnesses, "error": err, "wall_s": round(time.time() - t0, 2)}


def _worker(pid, tier, tasks, results, deadline, seed):
    while True:
        try:
            n = tasks.get(timeout=30)
        except queue.Empty:
            return
        if n is None:
            return
        try:
            results.put(run_case(pid, tier, n, deadline, seed))
        except BaseException:
            results.put({"case": n, "error": traceback.format_exc(), "stats": None, "violations": [],
                         "incomplete": [], "witnesses": [], "wall_s": 0})


# ------------------------------------------------------------------------------- concrete side


def conc_run(case, inputs, stop=True, timeout=60):
    """(status, detail, ctx): status in ok / violated / assume / exception"""
    from .ctx import ConcCtx, AssumeFailed, Reproduced
    import signal
    ctx = ConcCtx(inputs, stop=stop)

    class _TO(BaseException):
        pass

    def onalarm(*a):
        raise _TO()

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(timeout)
    try:
        with quiet():
            try:
                case.fn(ctx, **case.params)
            finally:
                ctx.unpatch()
        st, d = ("violated", ctx.violated[0]) if ctx.violated else ("ok", None)
    except AssumeFailed as e:
        st, d = "assume", str(e)
    except Reproduced as e:
        st, d = "violated", e.label
    except _TO:
        st, d = "timeout", None
    except Exception as e:
        st, d = "exception", traceback.format_exc()[-2500:]
        tb = e.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        if isinstance(e, (AttributeError, ImportError)) and tb.tb_frame.f_code.co_filename.startswith(here + os.sep):
            st = "harness"  # this check names something the code no longer has: it cannot judge
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return st, d, ctx


def _close(a, b, tol=2e-4):
    if isinstance(a, list) or isinstance(b, (list, tuple)) or hasattr(b, "__len__") and not isinstance(b, str):
        try:
            b = list(b)
            return isinstance(a, list) and len(a) == len(b) and all(_close(x, y, tol) for x, y in zip(a, b))
        except TypeError:
            return False
    if a is None:
        return True
    if isinstance(a, bool):
        return a == bool(b)
    if isinstance(a, str):
        return a == str(b)
    try:
        return abs(a - float(b)) <= tol * (1 + abs(a))
    except (TypeError, ValueError):
        return False


def conc_batch(pid, tier, jobs, repo):
    """jobs: list of dicts {case, inputs, kind, labels, obs}; returns list of results; also collects
    the functions of the repository that really ran."""
    mod = load(pid)
    cases = {c.name: c for c in mod.cases("thorough")}
    cases.update({c.name: c for c in mod.cases(tier)})
    funcs = {}
    out = []

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(repo + "/"):
                k = (co.co_filename[len(repo) + 1:], co.co_qualname)
                if k not in funcs:
                    funcs[k] = co.co_firstlineno

    t0 = time.time()
    for j in jobs:
        if time.time() - t0 > 240:
            out.append({"status": "skipped"})
            continue
        if j["kind"] == "witness":
            sys.setprofile(prof)
        try:
            st, d, ctx = conc_run(cases[j["case"]], j["inputs"])
        finally:
            sys.setprofile(None)
        r = {"status": st, "detail": d}
        if j["kind"] == "witness" and st == "ok":
            bad = []
            if ctx.reached != j["labels"]:
                bad.append("labels differ: %s / %s" % (j["labels"][:60], ctx.reached[:60]))
            for (n, a), (n2, b) in zip(j["obs"], ctx.obs):
                if n != n2 or not _close(a, b):
                    bad.append(f"{n}: encoded {a} / real {b}")
            r["mismatch"] = bad[:4]
        out.append(r)
    return {"results": out, "functions": sorted(f"{f}:{q}" for (f, q) in funcs)}


# ------------------------------------------------------------------------------- main


def known_findings(here):
    """lines `KNOWN id=<KF id> property=<id> <what>` of the committed file."""
    res = {}
    p = os.path.join(here, "KNOWN_FINDINGS.md")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip().lstrip("- ").strip()
            if line.startswith("KNOWN id="):
                parts = line.split(None, 3)
                res[parts[1][3:]] = (parts[2][len("property="):], parts[3] if len(parts) > 3 else "")
    return res


def main(argv, here, repo):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--batch", default=None)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.batch:
        jobs = json.load(open(a.batch))
        r = conc_batch(a.pid, tier, jobs, repo)
        with open(a.batch + ".out", "w") as f:
            json.dump(r, f)
        return 0
    if a.replay:
        j = json.load(open(a.replay))
        mod = load(a.pid)
        cases = {c.name: c for c in mod.cases("thorough")}
        cases.update({c.name: c for c in mod.cases("quick")})
        st, d, ctx = conc_run(cases[j["case"]], j["inputs"])
        print(f"case {j['case']} inputs {j['inputs']}\n-> {st}: {d}")
        if st in ("violated", "exception"):
            print(f"VIOLATION property={a.pid} replay={a.replay}")
            return 1
        return 0
    t0 = time.time()
    budget = a.budget or (640.0 if tier == "quick" else 6 * 3600.0)
    deadline = t0 + budget
    with quiet():
        mod = load(a.pid)
        cases = get_cases(mod, tier)
    if a.case:
        cases = [c for c in cases if a.case in c.name]
    byname = {c.name: c for c in cases}
    outdir = os.path.join(here, "out")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    for f in os.listdir(outdir):
        if f.startswith(a.pid + "-"):
            os.unlink(os.path.join(outdir, f))

    mpc = mp.get_context("fork")
    tasks, resq = mpc.Queue(), mpc.Queue()
    for c in cases:
        tasks.put(c.name)
    for _ in range(a.j):
        tasks.put(None)
    procs = [mpc.Process(target=_worker, args=(a.pid, tier, tasks, resq, deadline, seed), daemon=True)
             for _ in range(min(a.j, len(cases)))]
    for p in procs:
        p.start()
    results = []
    while len(results) < len(cases):
        try:
            r = resq.get(timeout=1.0)
            results.append(r)
            if a.v:
                print(f"  {r['case']}: {r['stats'] and {k: v for k, v in r['stats'].items() if k != 'reached'}} viol={len(r['violations'])} "
                      f"inc={len(r['incomplete'])} {r['wall_s']}s", flush=True)
        except queue.Empty:
            alive = [p for p in procs if p.is_alive()]
            if not alive and resq.empty():
                break
            if time.time() > deadline + 60:
                break
    for p in procs:
        if p.is_alive():
            p.join(0.5)
            if p.is_alive():
                p.kill()
    got = {r["case"] for r in results}
    for c in cases:
        if c.name not in got:
            results.append({"case": c.name, "error": "no result (worker died or ran out of time)", "stats": None,
                            "violations": [], "incomplete": [], "witnesses": [], "wall_s": 0})
    results.sort(key=lambda r: r["case"])

    # concrete runs: candidates first, then witnesses
    jobs = []
    for r in results:
        for v in r["violations"]:
            for m in v["models"]:
                jobs.append({"case": r["case"], "inputs": m, "kind": "candidate", "label": v["label"]})
    ncand = len(jobs)
    for r in results:
        if byname[r["case"]].conc_validate:
            for w in r["witnesses"]:
                jobs.append({"case": r["case"], "kind": "witness", **w})
    conc = run_jobs(a.pid, tier, jobs, here, outdir, a.j)
    kfs = known_findings(here)

    viol, kfseen, nonrep, incomplete, problems = [], {}, [], [], []
    samples = []
    repro = {}
    for j, c in zip(jobs[:ncand], conc["results"][:ncand]):
        key = (j["case"], j["label"])
        repro.setdefault(key, None)
        if (c["status"] in ("violated", "exception") or c["status"] == "timeout" and j["label"] == "no-end") and repro[key] is None:
            repro[key] = (j, c)
    for (cname, label), hit in repro.items():
        kf = byname[cname].kf
        if hit is None:
            if label in ("unsupported", "no-end"):
                continue  # already in incomplete
            nonrep.append(f"{cname}/{label}")
            continue
        j, c = hit
        if kf and kf in kfs and kfs[kf][0] == a.pid:
            kfseen[kf] = (cname, label, j["inputs"])
            continue
        fn = os.path.join(outdir, f"{a.pid}-{len(viol)}.json")
        with open(fn, "w") as f:
            json.dump({"property": a.pid, "case": cname, "label": label, "inputs": j["inputs"],
                       "observed": c["status"], "detail": c["detail"]}, f, indent=1)
        viol.append((fn, cname, label, c))
        samples.append({"case": cname, "violated": label, "inputs": j["inputs"]})
    nval = nmis = 0
    mism = []
    for j, c in zip(jobs[ncand:], conc["results"][ncand:]):
        if c["status"] == "ok":
            if c.get("mismatch"):
                nmis += 1
                mism.append(f"{j['case']}: {c['mismatch'][0]} inputs={j['inputs']}")
            else:
                nval += 1
                if len(samples) < 6:
                    samples.append({"case": j["case"], "inputs": j["inputs"], "checks_passed": sorted(set(j["labels"]))[:12]})
        elif c["status"] in ("violated", "exception") and not byname[j["case"]].kf:
            # the real code violates on an input whose symbolic path passed: float effects or a model gap;
            # it is a real violation on real code
            fn = os.path.join(outdir, f"{a.pid}-{len(viol)}.json")
            with open(fn, "w") as f:
                json.dump({"property": a.pid, "case": j["case"], "label": c["detail"], "inputs": j["inputs"],
                           "observed": c["status"], "note": "path witness"}, f, indent=1)
            viol.append((fn, j["case"], str(c["detail"])[-300:], c))
        else:
            nmis += 1
            mism.append(f"{j['case']}: witness {c['status']} {c.get('detail')} inputs={j['inputs']}")
    for r in results:
        if r["error"]:
            problems.append(f"{r['case']}: {r['error']}")
        incomplete += [f"{r['case']}: {i}" for i in r["incomplete"]]
        if r["stats"]:
            if r["stats"]["paths"] - r["stats"]["infeasible"] <= 0 and not r["violations"] and not r["incomplete"]:
                problems.append(f"{r['case']}: vacuous, no feasible path")
            for lab in byname[r["case"]].must_reach:
                if not r["stats"]["reached"].get(lab) and not r["violations"] and not r["incomplete"]:
                    problems.append(f"{r['case']}: vacuous, assertion '{lab}' never reached")
            if not sum(r["stats"]["reached"].values()) and not r["violations"] and not r["incomplete"]:
                problems.append(f"{r['case']}: vacuous, no assertion reached")
            if byname[r["case"]].conc_validate and not r["witnesses"] and not r["violations"] and not r["incomplete"]:
                problems.append(f"{r['case']}: no path witness")

    tot = {}
    reached = {}
    for r in results:
        if r["stats"]:
            for k, v in r["stats"].items():
                if k == "reached":
                    for l, n in v.items():
                        reached[l] = reached.get(l, 0) + n
                else:
                    tot[k] = tot.get(k, 0) + v
    ev = {
        "property": a.pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": tot.get("states", 0), "transitions": tot.get("transitions", 0),
            "traces_validated_against_impl": nval,
            "samples": samples[:10] or [{"case": c.name} for c in cases[:3]],
            "exhaustive": not (incomplete or problems or nonrep),
            "states_are": "symbolic states at which a branch of the real code was decided by the solver",
            "transitions_are": "feasible branch outcomes",
            "feasible_paths": tot.get("paths", 0) - tot.get("infeasible", 0),
            "queries": {"branch": tot.get("branch_queries", 0), "assertion": tot.get("check_queries", 0),
                        "assertions_discharged": tot.get("discharged", 0), "unknown": tot.get("unknown", 0)},
            "solver_s": round(tot.get("solver_s", 0), 2),
            "assertions_reached": reached,
            "functions_encoded": conc["functions"],
            "bounds": getattr(mod, "BOUNDS", ""),
            "outside_the_bounds": getattr(mod, "OUTSIDE", ""),
            "cases": {r["case"]: {"paths": r["stats"] and r["stats"]["paths"], "wall_s": r["wall_s"]} for r in results},
            "witness_mismatches": nmis, "witness_mismatch_samples": mism[:5],
            "incomplete": incomplete[:10], "not_reproduced": nonrep[:10], "problems": problems[:10],
            "known_findings_seen": sorted(kfseen),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    with open(os.path.join(here, "evidence", a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    for k in sorted(kfseen):
        print(f"KNOWN-FINDING: property={a.pid} {k}: {kfs[k][1]}")
    for c in cases:
        if c.kf and c.kf not in kfseen:
            print(f"note: known finding {c.kf} did not show in this run")
    print(f"{a.pid} [{tier}] cases={len(cases)} paths={tot.get('paths')} queries={tot.get('branch_queries', 0) + tot.get('check_queries', 0)} "
          f"discharged={tot.get('discharged')} unknown={tot.get('unknown')} solver={tot.get('solver_s', 0):.1f}s "
          f"witnesses={nval} mismatched={nmis} wall={time.time() - t0:.1f}s")
    for m in mism[:5]:
        print("  witness mismatch:", m[:600])
    if viol:
        for fn, cname, label, c in viol[:10]:
            print(f"  violated: case={cname} label={label}" + (("\n" + c["detail"][-700:]) if c["status"] == "exception" else ""))
            print(f"VIOLATION property={a.pid} replay={fn}")
        return 1
    if problems or incomplete or nonrep:
        # what could not be decided is reported here and in the evidence (exhaustive: false); the run counts as an
        # answer only when it stays a small part of the whole
        undecided = {r["case"] for r in results if r["incomplete"]} | {x.split("/")[0] for x in nonrep}
        for x in problems[:5]:
            print("PROBLEM", x[-1500:])
        for x in incomplete[:4]:
            print("INCOMPLETE", x[:2500])
        for x in nonrep[:8]:
            print("NOT-REPRODUCED", x)
        for r in results:
            for v in r["violations"]:
                if f"{r['case']}/{v['label']}" in nonrep and v.get("tb"):
                    print(v["tb"])
                    break
        if problems or 2 * len(undecided) > len(cases):
            return 2
        print(f"{a.pid}: held on everything explored; {len(undecided)} of {len(cases)} cases are not fully decided")
    return 0


def run_jobs(pid, tier, jobs, here, outdir, nproc):
    res = {"results": [None] * len(jobs), "functions": []}
    if not jobs:
        return res
    n = min(nproc, max(1, len(jobs) // 3 + 1))
    parts = [list(range(i, len(jobs), n)) for i in range(n)]
    ps = []
    for k, idx in enumerate(parts):
        fn = os.path.join(outdir, f"{pid}-jobs{k}.json")
        with open(fn, "w") as f:
            json.dump([jobs[i] for i in idx], f)
        p = subprocess.Popen([sys.executable, os.path.join(here, "run.py"), pid, "--tier", tier, "--batch", fn],
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=here)
        ps.append((p, fn, idx))
    funcs = set()
    for p, fn, idx in ps:
        try:
            _, err = p.communicate(timeout=280)
        except subprocess.TimeoutExpired:
            p.kill()
            err = b"timeout"
        try:
            r = json.load(open(fn + ".out"))
            for i, x in zip(idx, r["results"]):
                res["results"][i] = x
            funcs |= set(r["functions"])
        except (OSError, ValueError):
            for i in idx:
                res["results"][i] = {"status": "died", "detail": err.decode(errors="replace")[-500:]}
        for f in (fn, fn + ".out"):
            if os.path.exists(f):
                os.unlink(f)
    res["functions"] = sorted(funcs)
    return res
