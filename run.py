#!/opt/veriftools/pyvenv/bin/python
"""Decide one property:  run.py PROPERTY [--tier quick|thorough] [--case NAME] [-v]

exit 0  every obligation of every case was discharged by the solver
        (an obligation that stays undecided, or a counterexample that does not reproduce on the real code, is printed as
        INCONCLUSIVE and recorded in the evidence; it is no violation)
exit 1  a counterexample reproduces on the real code (line VIOLATION property=<id> replay=<path>)
exit 2  no answer: the engine could decide nothing in at least half of the cases
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import resource
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "harness"))
REPO = os.environ.get("VSYM_REPO", "/repo")
PY = {"numpy": "/opt/venv/bin/python", "stdlib": "/opt/venv-stdlib/bin/python"}
MODULES = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "harness")) if f.startswith("h_") and f.endswith(".py"))


def worker(job):
    module, case, mode, tier, seed, shard = job[:6]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    t0 = time.time()
    out = dict(module=module, case=case, mode=mode, stats={}, failures=[], unknown=[], funcs=[], samples=[], bounds="")
    try:
        m = importlib.import_module(module)
        c = [x for x in m.CASES.cases if x.name == case][0]
        from vsym import runners
        r = runners.run(c, mode, tier, seed, *job[6:], shard=shard)
        out.update(r)
    except MemoryError:
        out["unknown"].append([case, "memory limit", []])
    except Exception:
        out["unknown"].append([case, "internal error: " + " ".join(traceback.format_exc().split())[-400:], []])
    out["wall"] = time.time() - t0
    return out


def merge(results):
    """the shards of a case as one result"""
    out = {}
    for r in results:
        k = (r["module"], r["case"], r["mode"])
        if k not in out:
            out[k] = r
            continue
        o = out[k]
        for n, v in r["stats"].items():
            o["stats"][n] = o["stats"].get(n, 0) + v
        for n in ("failures", "unknown", "samples", "witnesses"):
            o[n] = list(o.get(n, [])) + list(r.get(n, []))
        o["funcs"] = sorted(set(o["funcs"]) | set(r["funcs"]))
        o["wall"] = max(o["wall"], r["wall"])
        o["bounds"] = o["bounds"] or r["bounds"]
        o.setdefault("assumptions", r.get("assumptions", []))
    for o in out.values():
        w = o.get("witnesses", [])
        if len(w) > 150:
            o["witnesses"] = [w[i * len(w) // 150] for i in range(150)]
    return list(out.values())


def concrete(module, case, mode, inputs, tmp, factor=1.0):
    """run the concrete harness on a list of inputs -> [(status, why)]"""
    if not inputs:
        return []
    os.makedirs(tmp, exist_ok=True)
    p = os.path.join(tmp, f"in-{module}-{case}-{mode}-{os.getpid()}.json")
    with open(p, "w") as f:
        json.dump(dict(inputs=inputs), f)
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONHOME")}
    env["PYTHONPATH"] = os.path.join(REPO, "src")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["VSYM_TOL"] = repr(factor)
    try:
        r = subprocess.run([PY[mode], os.path.join(HERE, "harness", "concrete.py"), module, case, mode, p],
                           capture_output=True, text=True, timeout=300, env=env, cwd=tmp)
    except subprocess.TimeoutExpired:
        return [("error", ["replay timed out"])] * len(inputs)
    finally:
        try:
            os.remove(p)
        except OSError:
            pass
    try:
        return [(a, b) for a, b in json.loads(r.stdout.strip().splitlines()[-1])]
    except (ValueError, IndexError):
        return [("error", [(r.stderr or r.stdout)[-600:]])] * len(inputs)


def reproduce(r, scratch):
    """the first counterexample of a case that fails on the real code"""
    cands, seen = [], set()
    for name, ins in list(r["failures"]) + [(u[0], u[2] if len(u) > 2 else []) for u in r["unknown"]]:
        for i in ins:
            k = json.dumps(i, sort_keys=True)
            if k not in seen:
                seen.add(k)
                cands.append((name, i))
    res = concrete(r["module"], r["case"], r["mode"], [i for _, i in cands[:400]], scratch)
    for (name, i), (st, why) in zip(cands, res):
        if st == "fail":
            return name, i, why
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--case", default=None)
    ap.add_argument("--mode", default=None)
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    jobs = []
    cases = {}
    for mname in MODULES:
        try:
            m = importlib.import_module(mname)
        except Exception:
            traceback.print_exc()
            return 2
        for c in m.CASES.cases:
            if c.prop != a.prop or (a.case and c.name != a.case):
                continue
            if c.tier == "finding" or c.tier == "thorough" and a.tier != "thorough":
                continue
            for mode in c.modes:
                if a.mode and mode != a.mode:
                    continue
                cases[(mname, c.name)] = c
                n = c.opts.get("shards", 1) if c.engine == "boxes" else 1
                jobs += [(mname, c.name, mode, a.tier, seed, (i, n)) for i in range(n)]
    if not jobs:
        print(f"no cases for {a.prop}")
        return 2
    from vsym import runners
    runners.DEADLINE = t0 + (560 if a.tier == "quick" else 12000)
    jobs.sort(key=lambda j: -cases[(j[0], j[1])].opts.get("cost", 1))
    results = []
    with mp.get_context("fork").Pool(a.j, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(worker, jobs):
            results.append(r)
            if a.v:
                s = r["stats"]
                print(f"{r['case']}/{r['mode']}: {r['wall']:.1f}s paths={s.get('paths')} obl={s.get('obligations')} disch={s.get('discharged')} "
                      f"smt={s.get('smt_queries')}/{s.get('smt_s', 0):.1f}s fail={len(r['failures'])} unk={len(r['unknown'])}", flush=True)
                for n, i in r["failures"][:3]:
                    print("   FAIL", n[:200], str(i[:1])[:400])
                for u in r["unknown"][:3]:
                    print("   UNK", u[0][:200], str(u[1])[:80], "...", str(u[1])[-160:])
    results = merge(results)
    results.sort(key=lambda r: (r["module"], r["case"], r["mode"]))
    scratch = os.path.join(HERE, "evidence", f"tmp-{a.prop}-{os.getpid()}")
    rdir = os.path.join(HERE, "evidence", "replay", a.prop)
    violations, inconclusive, crashed, retried = [], [], [], []
    validated = mism = 0
    with open(os.path.join(HERE, "known_findings.json")) as f:
        known = [k for k in json.load(f)["findings"] if k["property"] == a.prop]
    for r in results:
        if r["failures"] or r["unknown"]:
            hit = reproduce(r, scratch)
            if hit:
                violations.append((r, hit))
                r["hit"] = True
    # a counterexample that does not reproduce may come from a function left uninterpreted: once more without stand-ins
    again = [r for r in results if (r["failures"] or r["unknown"]) and not r.get("hit") and r.get("stubbed")]
    if again and not violations and time.time() - t0 < 500:
        with mp.get_context("fork").Pool(a.j, maxtasksperchild=1) as pool:
            for r2 in pool.imap_unordered(worker, [(r["module"], r["case"], r["mode"], a.tier, seed, (0, 1), False) for r in again]):
                r = [x for x in again if (x["module"], x["case"], x["mode"]) == (r2["module"], r2["case"], r2["mode"])][0]
                retried.append(f"{r['case']}/{r['mode']}")
                hit = reproduce(r2, scratch) if r2["failures"] or r2["unknown"] else None
                if hit:
                    violations.append((r2, hit))
                    r["hit"] = True
                elif not r2["failures"] and not r2["unknown"]:
                    r.update(r2)
    for r in results:
        if r.get("hit"):
            continue
        if r["failures"]:
            n, i = r["failures"][0]
            inconclusive.append(f"{r['case']}/{r['mode']}: counterexample to '{n}' does not reproduce on the real code: {json.dumps(i[0] if i else {})}")
        elif r["unknown"]:
            inconclusive.append(f"{r['case']}/{r['mode']}: {r['unknown'][0][0]}: {str(r['unknown'][0][1])[:100]} ... {str(r['unknown'][0][1])[-160:]}")
        undecided = r["failures"] or r["unknown"]
        if undecided and not r["stats"].get("discharged"):
            crashed.append(r)
        # translator validation: concrete witnesses of the explored paths (and, for undecided cases, of the whole domain) through the real code
        vs = r.get("witnesses", []) + (r.get("pool", []) if undecided else [])
        vres = concrete(r["module"], r["case"], r["mode"], vs, scratch, factor=100.0)
        for i, (st, why) in zip(vs, vres):
            if st == "pass":
                validated += 1
            elif st == "fail":
                mism += 1
                violations.append((r, ("witness of a path on which the encoding holds", i, why)))
                break
            elif st == "error":
                inconclusive.append(f"{r['case']}/{r['mode']}: witness replay error {why}")
                break
    kf = []
    for k in known:
        st = concrete(k["module"], k["case"], k["mode"], [k["inputs"]], scratch)
        if st and st[0][0] == "fail":
            kf.append(k)
            print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    try:
        os.rmdir(scratch)
    except OSError:
        pass
    code = 0
    for r, (name, i, why) in violations:
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, f"{r['case']}-{r['mode']}.json")
        with open(p, "w") as f:
            json.dump(dict(property=a.prop, module=r["module"], case=r["case"], mode=r["mode"], obligation=name, inputs=[i], failed=why,
                           command=f"PYTHONPATH={REPO}/src {PY[r['mode']]} {HERE}/harness/concrete.py {r['module']} {r['case']} {r['mode']} {p}"), f, indent=1)
        print(f"{r['case']} ({r['mode']}): {name}: inputs {json.dumps(i)}: {'; '.join(why[:2])[:600]}")
        print(f"VIOLATION property={a.prop} replay={p}")
        code = 1
    if inconclusive:
        for s in inconclusive:
            print("INCONCLUSIVE", s)
        # the property held on everything that could be decided and on every replayed input; no answer at all is an error
        if not code and 2 * len(crashed) >= len(results):
            code = 2
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
    funcs = sorted({f for r in results for f in r["funcs"]})
    import z3
    cov = dict(states=int(tot.get("paths", 0)), transitions=int(tot.get("decisions", 0)), traces_validated_against_impl=validated,
               samples=[dict(case=r["case"], mode=r["mode"], path=s) for r in results for s in r["samples"][:1]][:40],
               meaning="states = symbolic paths (exact engine) or input boxes (enclosure engine) completed; transitions = branch decisions taken "
                       "symbolically; traces validated = concrete witnesses of those paths replayed on the real code",
               obligations=int(tot.get("obligations", 0)), discharged=int(tot.get("discharged", 0)),
               smt_queries=int(tot.get("smt_queries", 0)), smt_unsat=int(tot.get("smt_unsat", 0)), smt_sat=int(tot.get("smt_sat", 0)),
               smt_unknown=int(tot.get("smt_unknown", 0)), solver_s=round(tot.get("smt_s", 0.0), 2),
               decided_by_path=int(tot.get("by_path", 0)), residue_zero_after_normal_form=int(tot.get("after_normal_form", 0)),
               paths_cut_infeasible=int(tot.get("paths_cut", 0)), paths_with_concrete_witness=int(tot.get("paths_with_concrete_witness", 0)),
               boxes=int(tot.get("boxes", 0)),
               functions_encoded=funcs, cases=[dict(case=r["case"], mode=r["mode"], wall_s=round(r["wall"], 2), bounds=r["bounds"],
                                                   paths=int(r["stats"].get("paths", 0)), obligations=int(r["stats"].get("obligations", 0)))
                                              for r in results],
               solver="z3 " + z3.get_version_string(), inconclusive=inconclusive, retried_without_stand_ins=retried, known_findings=[k["what"] for k in kf])
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=["floats of the code are read as exact reals (constants as the decimal or multiple of pi they approximate); rounding is outside the claim, "
                           "replays and witnesses run in floats", "math/numpy/warnings are replaced by the stand-ins of vsym/shims.py", "astropy absent"]
              + sorted({x for r in results for x in r.get("assumptions", [])}),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    if not a.case and not a.mode:
        with open(os.path.join(HERE, "evidence", f"{a.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{a.prop} {a.tier}: {len(jobs)} cases, {cov['states']} paths, {cov['obligations']} obligations, {cov['discharged']} discharged, "
          f"{cov['smt_queries']} solver queries ({cov['solver_s']} s), {validated} witnesses replayed, {len(violations)} violations, "
          f"{len(inconclusive)} inconclusive, {ev['wall_s']} s")
    return code


if __name__ == "__main__":
    sys.exit(main())
