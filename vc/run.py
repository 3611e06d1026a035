"""check one property: python3-vt run.py <ID> [--tier quick|thorough]"""
import argparse
import json
import os
import sys
import time
import traceback
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import extract
import native
import props
from extract import BUILD, REPO, VERIF

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding:") and f"property={pid} " in l:
                out.append(l[len("finding:"):].strip())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    p = props.PROPS[pid]
    nat = None
    if p.get("harness"):
        nat = native.Native(pid, p["harness"], p.get("link", []))
        try:
            nat.start()
        except Exception as ex:
            nat.err = f"cannot start: {ex}"
    notes = []
    ctx = None
    t_ast = t_vc = 0.0
    if p.get("specs"):
        try:
            from spec import Ctx, load_program
            t1 = time.time()
            prog = load_program(native.srcs_of(p["ast"]))
            t_ast = time.time() - t1
            t1 = time.time()
            ctx = Ctx(prog, timeout=4000 if tier == "quick" else 20000)
            ctx.t_limit = p.get("t_limit", 100) * (1 if tier == "quick" else 4)
            ctx.jobs = 7
            for mod, fn in p["specs"]:
                try:
                    getattr(__import__(mod), fn)(ctx)
                except Exception as ex:
                    ctx.res.undecided.append((f"{mod}.{fn}", f"{type(ex).__name__}: {ex}"))
                    if os.environ.get("VERIF_DEBUG"):
                        traceback.print_exc()
            ctx.join()
            t_vc = time.time() - t1
        except Exception as ex:
            notes.append(f"front end: {type(ex).__name__}: {ex}")
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
    obs = ctx.res.obs if ctx else []
    failed = [o for o in obs if o.status != "proved"]
    # a timeout is undecided; every other obligation is discharged on the unchanged tree, so one that is not is reported
    refuted = [o for o in failed if o.witness or not o.timeout]
    undecided = [o for o in failed if o not in refuted]

    runs = []
    if nat is not None:
        if nat.err is None and nat.link():
            seeds = [seed] if tier == "quick" else [seed + 1000 * k for k in range(8)]
            iters = p.get("iters", 200) * (1 if tier == "quick" else 5)
            if failed and tier == "quick":          # a failed obligation: look harder for a concrete failing input
                seeds = [seed, seed + 7, seed + 13]
            for s in seeds:
                r = nat.run(s, iters, timeout=p.get("timeout", 250))
                runs.append(r)
                if r["fails"]:
                    break
        if nat.err:
            notes.append("replay harness: " + nat.err)
    nfail = [f for r in runs for f in r["fails"]]
    kf = known(pid)
    listed, unlisted = [], []
    for f in nfail:
        (listed if any(f"obligation={f['obligation']!r}" in k for k in kf) else unlisted).append(f)
    ref_listed = [o for o in refuted if any(f"obligation={o.name!r}" in k for k in kf)]
    refuted = [o for o in refuted if o not in ref_listed]

    violation = bool(unlisted or refuted)
    replay = None
    if violation:
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, f"{pid}.json")
        json.dump({
            "property": pid, "title": p["title"],
            "failed_obligations": [{"function": o.fn, "obligation": o.name, "backend": o.backend, "verifier_output": o.detail,
                                    "counterexample": o.witness} for o in failed],
            "replayed_on_real_code": unlisted,
            "replay_command": [r["cmd"] for r in runs if r["fails"]],
        }, open(replay, "w"), indent=1, default=str)

    fns = ctx.res.functions if ctx else {}
    proved = sum(o.status == "proved" for o in obs)
    by = {}
    for o in obs:
        if o.status == "proved":
            by[o.backend] = by.get(o.backend, 0) + 1
    import lib
    cases = sum(r["cases"] for r in runs)
    checks = sum(r["checks"] for r in runs)
    nobs = {}
    for r in runs:
        for k, v in r["obs"].items():
            nobs[k] = nobs.get(k, 0) + v
    cov = {
        "obligations": len(obs), "discharged": proved, "checker_cmd": f"python3-vt /verif/vc/run.py {pid} --tier {tier}",
        "trusted_base": [f"{k}: {v}" for k, v in lib.TRUSTED.items()] + [
            "clang 18 front end and the AST printer /verif/tool/vcx.cpp",
            "the symbolic executor, loop summariser and normal-form prover in /verif/vc (own code)", "z3"],
        "functions_under_contract": {k: {x: v.get(x) for x in ("status", "paths", "obligations", "discharged", "inlined", "contracts", "reason", "time")} for k, v in fns.items()},
        "discharged_by": by, "solver_time_s": round(ctx.solver_time, 2) if ctx else 0, "solver_queries": ctx.queries if ctx else 0,
        "not_discharged": [{"function": o.fn, "obligation": o.name, "output": o.detail[:300], "refuted": bool(o.witness)} for o in failed],
        "undecided_functions": [{"function": f, "reason": r[:300]} for f, r in (ctx.res.undecided if ctx else [])],
        "bounded": {"what": "the same postconditions evaluated on the compiled code (stand-in for anything not discharged, replay of counterexamples, validation of the trusted base); never counted as proved",
                    "evaluations": checks, "cases": cases, "bound": p.get("bound", "random and directed inputs"), "postconditions": nobs},
        "library_calls_with_assumed_contracts": sorted(ctx.res.libcalls)[:120] if ctx else [],
        "time_s": {"front_end": round(t_ast, 1), "proof": round(t_vc, 1)},
    }
    if notes:
        cov["notes"] = notes
    ev = {"property": pid, "tier": tier, "seed": seed, "level": p.get("level", "proof"), "coverage": cov,
          "assumptions": p.get("assumptions", []) + props.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2),
          "violations": len(unlisted) + len(refuted)}
    if ev["level"] != "proof":
        cov.update({"evaluations": checks, "distinct_nontrivial": cases, "rule": p.get("bound", ""), "explanation": p.get("explanation", "bounded evaluation of the contract on the compiled code")})
        cov["samples"] = [f"{k}: {v} evaluations" for k, v in list(nobs.items())[:5]]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{pid}.{os.getpid()}")
    json.dump(ev, open(tmp, "w"), indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))

    for k in kf:
        print(f"KNOWN-FINDING: {k}")
    print(f"{pid}: {len(fns)} functions under contract, {proved}/{len(obs)} obligations discharged, {len(ctx.res.undecided) if ctx else 0} undecided functions; "
          f"native: {cases} cases, {checks} evaluations; front end {t_ast:.1f}s proof {t_vc:.1f}s total {time.time() - t0:.1f}s")
    for o in undecided:
        print(f"  undecided: {o.fn}: {o.name}: {o.detail[:200]}")
    for f, r in (ctx.res.undecided if ctx else []):
        print(f"  undecided function: {f}: {r[:200]}")
    for n in notes:
        print("  note: " + n[:600])
    if violation:
        for f in unlisted[:8]:
            print(f"  failed on the real code: {f['obligation']}: {f['detail']} [{f['input'][:200]}]")
        for o in refuted[:8]:
            print(f"  failed obligation{" (refuted)" if o.witness else ""}: {o.fn}: {o.name}: {o.detail[:200]}")
        print(f"VIOLATION property={pid} replay={replay}" + ("" if unlisted else " no-failing-input-found"))
        return 1
    if not obs and not checks:
        print(f"{pid}: nothing could be decided on this tree (see notes)")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
