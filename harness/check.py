#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]: decides one property.
Exit 0: it held on everything explored; 1: a violation (VIOLATION line); 2: the machinery failed."""
import argparse, json, os, random, sys, time, traceback
if os.environ.get("PYTHONHASHSEED") != "0":
    # case generation must not depend on hash randomisation
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from common import VERIF, MachineryError
from concurrent.futures import ThreadPoolExecutor
import props

EVID = os.path.join(VERIF, "evidence")


def load_known():
    fn = os.path.join(VERIF, "known_findings.json")
    return json.load(open(fn)) if os.path.exists(fn) else {"known": [], "fixed": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--n", type=int, help="limit the number of cases")
    a = ap.parse_args()
    P = props.registry()[a.id]
    t0 = time.time()

    behaviours = []
    mcs = []
    if a.replay:
        cases = [json.load(open(a.replay))["case"]]
    else:
        # design level: exhaustive model checking of the specification; may also print behaviours to replay
        jobs = [m for m in P.get("mc", []) if m.get("tier", "quick") in ("quick", a.tier)]
        jobs = [m for m in jobs if not (m.get("only") and m["only"] != a.tier)]
        ex = ThreadPoolExecutor(4)
        futs = [(m, ex.submit(common.model_check, m["module"], m.get("cfg"), m.get("timeout", 600),
                              m.get("workers", "4"))) for m in jobs]
        rng = random.Random(f"{a.id}/{a.seed}")
        cases = P["cases"](rng, a.tier)
        for m, f in futs:
            r = f.result()
            mcs.append({k: r[k] for k in ("module", "states", "transitions")} | {"behaviours": len(r["behaviours"])})
            if m.get("replay"):
                cases += m["replay"](r["behaviours"], rng, a.tier)
        if a.n:
            cases = cases[:a.n]
    t1 = time.time()
    events = common.run_cases(a.id, cases, timeout_total=P.get("timeout", 400))
    t2 = time.time()
    res = common.validate(P["trace"], events, cfg=P.get("cfg"))
    t3 = time.time()

    known = load_known()
    kf_ids = {k["id"]: k for k in known["known"] if k["property"] == a.id}
    viols, kfs = {}, {}
    for m in res["mismatches"]:
        case = cases[m["c"]]
        if case.get("finding") in kf_ids and m["clause"] in kf_ids[case["finding"]]["clauses"]:
            kfs.setdefault(case["finding"], m)
        else:
            viols.setdefault(m["c"], []).append(m)
    skipped = sum(1 for e in events if e is None)
    for f in kfs:
        print(f"KNOWN-FINDING: property={a.id} {kf_ids[f]['what']}")
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    for fn in os.listdir(rdir):
        if fn.startswith(a.id + "-") and not a.replay:
            os.unlink(os.path.join(rdir, fn))
    for n, (c, ms) in enumerate(sorted(viols.items(), key=lambda kv: len(json.dumps(cases[kv[0]])))[:5]):
        fn = a.replay or os.path.join(rdir, f"{a.id}-{n}.json")
        if not a.replay:
            with open(fn, "w") as f:
                json.dump({"property": a.id, "case": cases[c], "mismatches": ms, "events": events[c]}, f, indent=1)
        print(f"VIOLATION property={a.id} replay={fn}")
        print("   " + json.dumps(ms[0])[:600])
    nontriv = [i for i, e in enumerate(events) if e is not None and P["nontrivial"](cases[i], e)]
    distinct = len({json.dumps(cases[i], sort_keys=True) for i in nontriv})
    ops = {}
    for e in events:
        for x in e or []:
            ops[x["op"]] = ops.get(x["op"], 0) + 1
    shortest = sorted(nontriv, key=lambda i: len(json.dumps(cases[i])))
    samples = [cases[i] for i in shortest[len(shortest) // 4:len(shortest) // 4 + 2]]
    ev = {"property": a.id, "tier": a.tier, "seed": a.seed, "level": "model_checking",
          "coverage": {"states": res["states"] + sum(m["states"] for m in mcs),
                       "transitions": res["transitions"] + sum(m["transitions"] for m in mcs),
                       "traces_validated_against_impl": res["traces"],
                       "events_validated": res["events"], "events_by_action": ops,
                       "evaluations": len(cases), "distinct_nontrivial": distinct,
                       "rule": P.get("rule", "cases are generated from the seed; non-trivial: the code produced an answer or an error to compare"),
                       "design_level_model_checking": mcs,
                       "skipped_after_timeouts": skipped,
                       "samples": samples},
          "assumptions": P.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    if not a.replay:
        with open(os.path.join(EVID, a.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{a.id} {a.tier}: {len(cases)} cases ({distinct} distinct non-trivial), {res['events']} events, "
          f"{len(viols)} violating; prepare {t1-t0:.1f}s run {t2-t1:.1f}s validate {t3-t2:.1f}s")
    return 1 if viols else 0


if __name__ == "__main__":
    try:
        code = main()
    except MachineryError as e:
        print("MACHINERY", e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
