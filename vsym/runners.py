"""run one harness case in one library mode with the engine it asks for"""
import time

DEADLINE = None      # of the whole check; cases that start late get what is left


def run(c, mode, tier, seed, stubs=True, shard=(0, 1)):
    eng = c.engine
    if eng == "exact":
        return run_exact(c, mode, tier, seed, stubs)
    if eng == "boxes":
        from . import boxes
        return boxes.run_case(c, mode, tier, seed, shard, DEADLINE)
    if eng == "custom":
        return c.fn.__globals__[c.opts["runner"]](c, mode, tier, seed)
    raise ValueError(eng)


def run_exact(c, mode, tier, seed, stubs=True):
    from . import loader, shims
    from .engine import Explorer
    from .kit import K
    shims.BK.kind = "exact"
    loader.start_monitor()
    o = c.opts
    P = loader.Loader(mode, overrides=o["overrides"]() if o.get("overrides") else None)
    thorough = tier == "thorough"
    ex = Explorer(c.name, numpy_mode=mode == "numpy", seed=seed,
                  max_paths=o.get("max_paths", 20000 if thorough else 6000),
                  time_limit=o.get("time_limit", 3000 if thorough else 300),
                  z3_feas_ms=o.get("feas_ms", 3000 if thorough else 700),
                  z3_prove_ms=o.get("prove_ms", 60000 if thorough else 8000),
                  nsamples=o.get("nsamples", 400 if thorough else 160))
    ex.no_stubs = not stubs
    if DEADLINE and stubs:
        ex.deadline = min(ex.deadline, max(time.time() + 20, DEADLINE))
    if not stubs:
        ex.deadline = min(ex.deadline, time.time() + 150)
    ex.run(lambda: c.fn(P, K(ex, mode)))
    st = dict(ex.stats)
    st["decisions"] = len(ex.feas_cache) + st.get("paths", 0)
    n = 150 if thorough else 50
    w = ex.witnesses
    wit = w if len(w) <= n else [w[i * len(w) // n] for i in range(n)]
    pool = [{k: v for k, v in s.items() if not k.startswith("dir_")} for s in ex.samples if s.get("_rng")][:150]
    if not st.get("discharged") and not ex.failures:
        ex.unknown.append((c.name, "vacuous: no obligation was reached", []))
    if not wit and not ex.failures and not o.get("no_witness"):
        ex.unknown.append((c.name, "vacuous: no path has a concrete witness", []))
    return dict(stats=st, failures=[[a, b] for a, b in ex.failures], unknown=[list(u) + [[]] * (3 - len(u)) for u in ex.unknown],
                funcs=sorted(loader.FUNCS), samples=ex.paths_done[:2], pool=pool, stubbed=bool(getattr(ex, "stubbed", False)), bounds=o.get("bounds", ""), witnesses=wit,
                assumptions=o.get("assumptions", []))
