#!/usr/bin/env python3-vt
"""Decide one property: verify its contracts against /repo's current source.

usage: python3-vt check.py A03 [--tier quick|thorough] [--only NAME] [-v]
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
RTPY = "/opt/venv/bin/python"
sys.setrecursionlimit(20000)


def load():
    from vc import spec
    for f in sorted(os.listdir(os.path.join(HERE, "contracts"))):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("contracts." + f[:-3])
    names = [c.name for c in spec.CONTRACTS]
    dup = {n for n in names if names.count(n) > 1}
    assert not dup, "duplicate contract names: %s" % dup
    return spec.CONTRACTS


# ---------------------------------------------------------------------------------------------- symbolic jobs
def sym_worker(conn, cname, case, mode, tier, budget):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    import threading
    threading.stack_size(256 << 20)

    def go():
        from vc import spec, sym_env, prove
        if tier == "thorough":
            prove.CONF["crosscheck"] = True
            prove.CONF["ms"] = 20000
        c = [x for x in spec.CONTRACTS if x.name == cname][0]
        try:
            r = sym_env.run_case(c, case, mode, budget)
        except MemoryError:
            r = {"contract": cname, "case": case, "key": c.key(case), "unsupported": "memory limit", "obligations": [],
                 "paths": 0, "normal": 0, "assumptions": [], "seconds": 0, "queries": 0, "solver_s": 0}
        conn.send(r)
        conn.close()
    t = threading.Thread(target=go)
    t.start()
    t.join()


def run_symbolic(jobs, nproc, tier, hard_end, verbose=False, pool=None):
    """jobs: [(contract, case, mode)] -> list of results

    A case whose contract already failed on the real code (run-time violation) is not proved any more."""
    ctx = mp.get_context("fork")
    todo = list(jobs)
    run = []
    res = []

    def fail(c, case, why):
        return {"contract": c.name, "case": case, "key": c.key(case), "unsupported": why, "obligations": [], "paths": 0,
                "normal": 0, "assumptions": [], "seconds": 0, "queries": 0, "solver_s": 0}
    failed = set()
    while todo or run:
        if pool is not None:
            new = pool.violated()
            if new and not failed:
                hard_end = min(hard_end, time.time() + (60 if tier == "quick" else 600))
            failed |= new
        while todo and len(run) < nproc:
            c, case, mode = todo.pop(0)
            if (c.name, json.dumps(case, sort_keys=True)) in failed:
                res.append(fail(c, case, "not proved: the contract failed on the real code"))
                continue
            if time.time() > hard_end:
                res.append(fail(c, case, "time budget of the check used up"))
                continue
            a, b = ctx.Pipe(False)
            bud = c.budget * (4 if tier == "thorough" else 1)
            bud = max(2, min(bud, hard_end - time.time()))
            p = ctx.Process(target=sym_worker, args=(b, c.name, case, mode, tier, bud))
            p.start()
            b.close()
            run.append((p, a, c, case, time.time() + bud * 1.3 + 15))
        mp.connection.wait([x[1] for x in run], timeout=0.5)
        still = []
        for p, a, c, case, lim in run:
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = fail(c, case, "the prover process ended without an answer")
            elif time.time() > lim or time.time() > hard_end + 20:
                r = fail(c, case, "the prover did not answer in time")
            elif (c.name, json.dumps(case, sort_keys=True)) in failed:
                r = fail(c, case, "not proved: the contract failed on the real code")
            if r is None:
                still.append((p, a, c, case, lim))
                continue
            p.join(0.2)
            if p.is_alive():
                p.kill()
                p.join()
            res.append(r)
            if verbose:
                bad = [o for o in r["obligations"] if o["status"] != "proved"]
                print("  %-70s paths=%d ok=%d ob=%d/%d %.1fs %s" % (
                    r["key"], r["paths"], r["normal"], sum(o["n"] for o in r["obligations"]) - sum(o["n"] for o in bad),
                    sum(o["n"] for o in r["obligations"]), r["seconds"], r["unsupported"] or ""))
                for o in bad:
                    print("      %s %s %s %s" % (o["status"], o["name"], str(o.get("inputs"))[:300], o.get("approx")))
                if r.get("trace") and verbose:
                    print(r["trace"])
                sys.stdout.flush()
        run = still
    return res


# ---------------------------------------------------------------------------------------------- run-time jobs
class RtPool(object):
    def __init__(self, tmp, jobs, nproc, hard_end):
        self.tmp, self.hard_end = tmp, hard_end
        self.chunks = [jobs[i::nproc] for i in range(nproc)]
        self.chunks = [c for c in self.chunks if c]
        self.procs = []
        self.results = {}
        self.n = 0
        for ch in self.chunks:
            self.start(ch)

    def start(self, ch):
        self.n += 1
        jf = os.path.join(self.tmp, "jobs%s_%d.json" % (id(self), self.n))
        of = os.path.join(self.tmp, "out%s_%d.jsonl" % (id(self), self.n))
        json.dump(ch, open(jf, "w"))
        open(of, "w").close()
        env = dict(os.environ, VC_MODE="rt", NUMBA_CACHE_DIR=os.path.join(self.tmp, "numba"),
                   PYTHONPYCACHEPREFIX=os.path.join(self.tmp, "pyc"), NUMBA_NUM_THREADS="2", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", HOME=self.tmp, TMPDIR=self.tmp, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.Popen([RTPY, "-m", "vc.rt_env", jf, of], cwd=HERE, env=env, stdout=subprocess.DEVNULL,
                             stderr=open(of + ".err", "w"), start_new_session=True)
        self.procs.append((p, of, ch))

    def violated(self):
        """Cases that failed so far."""
        out = set()
        for _, of, _ in self.procs:
            try:
                for line in open(of):
                    if '"violation": null' not in line:
                        d = json.loads(line)
                        if d.get("violation"):
                            out.add((d["contract"], json.dumps(d["case"], sort_keys=True)))
            except (OSError, ValueError):
                pass
        return out

    def wait(self):
        while self.procs:
            p, of, ch = self.procs.pop(0)
            killed = False
            try:
                p.wait(max(1, self.hard_end - time.time()))
            except subprocess.TimeoutExpired:
                killed = True
            try:
                os.killpg(p.pid, 9)
            except (ProcessLookupError, PermissionError):
                pass
            p.wait()
            begun = None
            got = set()
            for line in open(of):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if "begin" in d:
                    begun = d["begin"]
                else:
                    self.results[d["id"]] = d
                    got.add(d["id"])
                    begun = None
            rest = [j for j in ch if j["id"] not in got]
            if killed:
                for j in rest:
                    self.results[j["id"]] = {"error": {"type": "time", "trace": "run-time checks out of time"}, "violation": None,
                                             "ran": 0, "discarded": 0, "clauses": 0, "samples": [], "contract": j["contract"],
                                             "case": j["case"], "kind": j.get("kind")}
                continue
            if rest:
                bad = [j for j in rest if j["id"] == begun] or rest[:1]
                err = open(of + ".err").read()[-800:]
                b = bad[0]
                self.results[b["id"]] = {
                    "error": {"type": "crash", "trace": "process ended with %s: %s" % (p.returncode, err)}, "violation": None, "ran": 0,
                    "discarded": 0, "clauses": 0, "samples": [], "contract": b["contract"], "case": b["case"], "kind": b.get("kind")}
                rest = [j for j in rest if j["id"] != b["id"]]
                if rest:
                    self.start(rest)
        return self.results


# ---------------------------------------------------------------------------------------------- main
def known_findings():
    p = os.path.join(HERE, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def match_finding(kf, prop, contract, case, clause):
    for f in kf["findings"]:
        if f["property"] == prop and f["contract"] == contract and clause in ([f["clause"]] if isinstance(f["clause"], str) else f["clause"]) and all(
                str(case.get(k)) == str(v) for k, v in f.get("case", {}).items()):
            return f
    return None


def baseline(prop):
    p = os.path.join(HERE, "spec", "baseline", prop + ".json")
    return json.load(open(p)) if os.path.exists(p) else {}


def write_baseline(prop, sres):
    """What was discharged, and on which source: a later change of that source that loses an obligation is reported."""
    out = {}
    for s in sres:
        ok = sorted(o["name"] for o in s["obligations"] if o["status"] == "proved")
        out[s["key"]] = {"source": s.get("entered", {}), "discharged": ok, "complete": not s["unsupported"] and len(ok) == len(s["obligations"])}
    os.makedirs(os.path.join(HERE, "spec", "baseline"), exist_ok=True)
    json.dump(out, open(os.path.join(HERE, "spec", "baseline", prop + ".json"), "w"), indent=0, sort_keys=True)


def changed_since_baseline(base, s, o):
    """Names of the changed functions if this obligation was discharged on the recorded source, else []."""
    b = base.get(s["key"])
    if b is None or not (b["complete"] or o["name"] in b["discharged"]):
        return []
    src = s.get("entered", {})
    return sorted(k for k in set(src) | set(b["source"]) if src.get(k) != b["source"].get(k))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--case")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-rt", action="store_true")
    ap.add_argument("--no-sym", action="store_true")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--baseline", action="store_true", help="record the discharged obligations of this tree")
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = args.tier
    t0 = time.time()
    prop = args.property
    limit = 700 if tier == "quick" else 3400
    hard_end = t0 + limit
    cs = load()
    tmp = tempfile.mkdtemp(prefix="vc_%s_" % prop)
    try:
        rc = decide(args, prop, cs, tier, seed, t0, hard_end, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(args, prop, cs, tier, seed, t0, hard_end, tmp):
    if args.replay:
        d = json.load(open(args.replay))
        pool = RtPool(tmp, [dict(id=0, contract=d["contract"], case=d["case"], mode=d.get("mode", "full"), inputs=d["inputs"],
                                 seed=d.get("seed", 1))], 1, hard_end)
        r = pool.wait()[0]
        print(json.dumps(r, indent=1, default=str)[:3000])
        return 1 if r.get("violation") else 0
    if prop == "A01":
        mine = [c for c in cs if c.frame]
        mode = "frame"
    else:
        mine = [c for c in cs if c.prop == prop or prop in c.also]
        mode = "full"
    if args.only:
        mine = [c for c in mine if args.only in c.name]
    if tier == "quick":
        mine = [c for c in mine if not c.thorough_only]
    sym, rt = [], []
    n = 0
    for c in mine:
        for case in c.cases:
            if args.case and args.case not in c.key(case):
                continue
            if not c.bounded:
                sym.append((c, case, mode))
            k = c.samples or 60
            rt.append(dict(id=n, contract=c.name, case=case, mode=mode, n=(k * 10 if tier == "thorough" else k), seed=seed,
                           budget=c.rt_budget * (8 if tier == "thorough" else 1 if mode == "full" else 0.4), kind="random"))
            n += 1
    ncpu = args.jobs or min(8, os.cpu_count() or 1)
    pool = None
    if not args.no_rt:
        pool = RtPool(tmp, rt, max(1, min(3, ncpu // 2)) if sym and not args.no_sym else ncpu, hard_end - 30)
    sym.sort(key=lambda x: -x[0].budget)
    sres = [] if args.no_sym else run_symbolic(sym, max(1, ncpu - 2), tier, hard_end - 60, args.v, pool)
    rres = pool.wait() if pool else {}
    byname = {c.name: c for c in mine}
    violations, notes = [], []
    # ---- run-time violations
    rtinfo = {}
    for i, r in sorted(rres.items()):
        rtinfo[(r["contract"], json.dumps(r["case"], sort_keys=True))] = r
        if r.get("violation"):
            v = r["violation"]
            violations.append(dict(contract=r["contract"], case=r["case"], clause=v["clause"], detail=v["detail"], inputs=v["inputs"],
                                   how="run-time contract check on the real code", seed=v["seed"], iteration=v["iteration"], mode=mode))
        elif r.get("error"):
            if r["error"]["type"] == "crash" and "signal" not in r["error"]["trace"] and "with -" in r["error"]["trace"]:
                violations.append(dict(contract=r["contract"], case=r["case"], clause="no_crash", detail=r["error"]["trace"], inputs=None,
                                       how="the real code ended the process", mode=mode))
            else:
                notes.append("run-time check of %s %s stopped: %s" % (r["contract"], r["case"], r["error"]["trace"][-600:]))
    # ---- refuted obligations: replay
    undecided = []
    rep = []
    bad = []
    for s in sres:
        for o in s["obligations"]:
            if o["status"] != "proved":
                bad.append((s, o))
    base = baseline(prop)
    if args.baseline:
        write_baseline(prop, sres)
    failed_cases = {(v["contract"], json.dumps(v["case"], sort_keys=True)) for v in violations}
    for s, o in bad:
        key = (s["contract"], json.dumps(s["case"], sort_keys=True))
        if o["status"] == "refuted" and o.get("inputs") and not args.no_rt and key not in failed_cases:
            rep.append(dict(id=len(rep), contract=s["contract"], case=s["case"], mode=mode, inputs=o["inputs"], kind="replay",
                            seed=seed, obligation=o["name"]))
    focus = {}
    if not args.no_rt:
        for s in sres:
            key = (s["contract"], json.dumps(s["case"], sort_keys=True))
            isbad = (s["unsupported"] and not s["unsupported"].startswith("not proved:")) or any(o["status"] != "proved" for o in s["obligations"])
            if isbad and key not in failed_cases and key not in focus:
                focus[key] = dict(id=10000 + len(focus), contract=s["contract"], case=s["case"], mode=mode, n=1500, seed=seed + 7919,
                                  budget=8.0, kind="focused")
        if violations and tier == "quick":
            rep, focus = rep[:40], {}
        if rep or focus:
            jobs = rep + list(focus.values())
            r2 = RtPool(tmp, jobs, min(ncpu, len(jobs)), min(hard_end - 15, time.time() + 200)).wait()
            for j in jobs:
                r = r2.get(j["id"], {})
                key = (j["contract"], json.dumps(j["case"], sort_keys=True))
                if r.get("violation") and key not in failed_cases:
                    v = r["violation"]
                    failed_cases.add(key)
                    violations.append(dict(contract=j["contract"], case=j["case"], clause=v["clause"], detail=v["detail"],
                                           inputs=v["inputs"], mode=mode, seed=j["seed"], iteration=v["iteration"],
                                           how="counter-model of obligation %s replayed on the real code" % j["obligation"]
                                           if j["kind"] == "replay" else "search on the real code after an undischarged obligation"))
                if j["kind"] == "focused":
                    j["ran"] = r.get("ran", 0)
                    rtinfo.setdefault(key, r)
    for s, o in bad:
        key = (s["contract"], json.dumps(s["case"], sort_keys=True))
        if key in failed_cases:
            continue
        fresh = changed_since_baseline(base, s, o)
        if fresh or (o["status"] == "refuted" and o.get("precise")):
            failed_cases.add(key)
            violations.append(dict(contract=s["contract"], case=s["case"], clause=o["name"], inputs=o.get("inputs"), mode=mode, noinput=True,
                                   detail="obligation not discharged (%s by %s)%s; no failing input was found on the real code"
                                   % (o["status"], "/".join(str(h) for h in o["how"]),
                                      ", discharged before the change of " + ", ".join(fresh) if fresh else ""),
                                   how="failed obligation"))
        else:
            undecided.append("%s of %s: %s %s" % (o["name"], s["key"], o["status"], o.get("approx") or ""))
    for s in sres:
        if s["unsupported"]:
            if not s["unsupported"].startswith("not proved:"):
                undecided.append("%s: %s" % (s["key"], s["unsupported"]))
        elif s["normal"] == 0 and not s["case"].get("raises"):
            undecided.append("%s: no feasible path reaches the end (vacuous)" % s["key"])
        elif not s["obligations"] and mode != "frame":
            undecided.append("%s: no obligation generated" % s["key"])
    # ---- report
    kf = known_findings()
    nviol = 0
    rdir = os.path.join(HERE, "evidence", "replay")
    shutil.rmtree(os.path.join(rdir, prop), ignore_errors=True)
    seen = set()
    for f in kf["findings"]:
        if f["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    for v in violations:
        if match_finding(kf, prop, v["contract"], v["case"], v["clause"]):
            continue
        k = (v["contract"], v["clause"])
        if k in seen:
            continue
        seen.add(k)
        nviol += 1
        os.makedirs(os.path.join(rdir, prop), exist_ok=True)
        path = os.path.join(rdir, prop, "%d.json" % nviol)
        json.dump(v, open(path, "w"), indent=1, default=str)
        print("  %s %s: clause %s: %s [%s]" % (v["contract"], v["case"], v["clause"], str(v["detail"])[:300], v["how"]))
        print("VIOLATION property=%s replay=%s%s" % (prop, os.path.relpath(path, HERE), " no-failing-input-found" if v.get("noinput") else ""))
    for u in undecided:
        print("UNDECIDED %s" % u[:400])
    for u in notes:
        print("NOTE %s" % u[:1200])
    write_evidence(prop, tier, seed, t0, mine, sres, rres, focus, undecided, notes, nviol, mode, byname)
    nob = sum(o["n"] for s in sres for o in s["obligations"])
    nok = sum(o["n"] for s in sres for o in s["obligations"] if o["status"] == "proved")
    print("%s: %d functions under contract, %d/%d obligations discharged, %d undecided, %d run-time clause evaluations, %d violations, %.1f s" % (
        prop, len({(c.module, c.func) for c in mine}), nok, nob, len(undecided), sum(r.get("clauses", 0) for r in rres.values()), nviol,
        time.time() - t0))
    return 1 if nviol else 0


TRUSTED = [
    "vc/interp.py + vc/arrays.py + vc/npmodel.py + vc/libs.py: the verification-condition generator and its models of Python, numpy, scipy and numba",
    "vc/loops.py + vc/binders.py: automatic loop summaries (each step proved) and reduction lemmas",
    "z3 4.x (python3-vt), cvc5 1.1.2 as second back end",
    "CPython, numpy, scipy and numba behave as their models state; floating point is treated as exact real arithmetic",
    "the contracts themselves (/verif/contracts)",
]


def write_evidence(prop, tier, seed, t0, mine, sres, rres, focus, undecided, notes, nviol, mode, byname):
    fns = {}
    ass = set()
    hows = {}
    for s in sres:
        f = fns.setdefault(s["contract"], {"cases": 0, "obligations": 0, "discharged": 0, "paths": 0, "solver_s": 0.0, "undecided_cases": []})
        f["cases"] += 1
        f["paths"] += s["paths"]
        f["solver_s"] = round(f["solver_s"] + s["solver_s"], 3)
        for o in s["obligations"]:
            f["obligations"] += o["n"]
            if o["status"] == "proved":
                f["discharged"] += o["n"]
            for h, k in o["how"].items():
                hows[str(h)] = hows.get(str(h), 0) + k
        if s["unsupported"]:
            f["undecided_cases"].append("%s: %s" % (s["key"], s["unsupported"]))
        ass |= set(s["assumptions"])
    bounded = [c.name for c in mine if c.bounded]
    nob = sum(f["obligations"] for f in fns.values())
    nok = sum(f["discharged"] for f in fns.values())
    rt = list(rres.values())
    level = "proof" if nob else "other"
    cov = {
        "obligations": nob, "discharged": nok,
        "checker_cmd": "python3-vt check.py %s --tier %s" % (prop, tier),
        "trusted_base": TRUSTED,
        "functions_under_contract": {c.name: "%s.%s" % (c.module, c.func) for c in mine if not c.bounded},
        "per_contract": fns, "backends": hows,
        "solver_queries": sum(s["queries"] for s in sres), "solver_seconds": round(sum(s["solver_s"] for s in sres), 2),
        "undecided": undecided[:60],
        "bounded_only": {"contracts": bounded,
                         "bound": "run-time contract checking on the real code: random inputs per case, sizes up to about 12 per axis"},
        "runtime_checks": {"executions": sum(r.get("ran", 0) for r in rt), "discarded": sum(r.get("discarded", 0) for r in rt),
                           "clause_evaluations": sum(r.get("clauses", 0) for r in rt),
                           "stopped": notes[:10]},
        "evaluations": sum(r.get("ran", 0) for r in rt),
        "samples": [dict(contract=r["contract"], case=r["case"], inputs=r["samples"][0]) for r in rt if r.get("samples")][:5],
        "rule": "every contract case is verified symbolically for all inputs; in addition it is executed on the real code with random inputs",
    }
    if level == "other":
        cov["explanation"] = "bounded run-time contract checking of the real code; no unbounded obligation in this run"
    d = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
         "assumptions": sorted(ass) + ["machine floats as exact reals; float32 storage rounding ignored", "machine integers as mathematical integers except where a dtype of 8-32 bits is stored"],
         "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(d, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)


if __name__ == "__main__":
    main()
