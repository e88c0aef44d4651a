#!/opt/venv/bin/python
"""run_check.py Cxx [--tier quick|thorough]: decides one property of /repo's working tree."""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--show", type=int, default=8)
    ap.add_argument("--no-models", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    from lib import rec as R
    from lib import tlc

    import numpy as np
    import torch

    mod = importlib.import_module("drivers." + a.pid.lower())
    thorough = a.tier == "thorough"
    models = []
    if not a.no_models:
        for m in mod.MODELS:
            name, cfg = m[0], (m[2] if thorough and len(m) > 2 and m[2] else m[1])
            models.append((name, cfg, tlc.Run(name, cfg, workers=2 if not thorough else 4,
                                              timeout=700 if not thorough else 3000)))
    rec = R.Recorder()
    rng = np.random.default_rng(a.seed)
    torch.manual_seed(a.seed)
    try:
        mod.run(rec, thorough, rng)
    except tlc.TLCError:
        raise
    except Exception as e:  # the library failed outside any recorded step: that is an event too
        with rec.trace("outside"):
            raise e
    t_drive = time.time() - t0

    spec = mod.TRACE
    rejects, events, gen, dist = tlc.validate(spec, rec.traces, timeout=800 if not thorough else 7000)
    t_val = time.time() - t0 - t_drive

    states, trans, minfo = 0, 0, []
    for name, cfg, r in models:
        ok, g, d, text = tlc.model_result(r)
        if not ok:
            sys.stderr.write(text[-4000:] + f"\nmodel {name}/{cfg} failed\n")
            return 2
        states += d
        trans += g
        minfo.append({"module": name, "cfg": cfg, "states_generated": g, "distinct_states": d})

    known = {}
    for ln in open(os.path.join(HERE, "known_findings.txt")):
        ln = ln.strip()
        if ln.startswith("known:"):
            f = dict(x.split("=", 1) for x in ln.split()[1:3])
            known.setdefault(f["property"], {})[f["key"]] = ln
    mine = known.get(a.pid, {})
    fresh, old = [], {}
    for i, j, clauses, e in rejects:
        ks = [c for c in clauses if c in mine]
        for k in ks:
            old[k] = old.get(k, 0) + 1
        rest = [c for c in clauses if c not in mine]
        if rest:
            fresh.append((i, j, rest, e))

    ops = {}
    for tr in rec.traces:
        for e in tr:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    samples = []
    seen = set()
    for tr in rec.traces:
        for e in tr:
            if e["op"] not in seen and len(samples) < 6:
                seen.add(e["op"])
                s = json.dumps(R.clean(e))
                samples.append(s if len(s) < 700 else s[:700] + "...")
    ev = {
        "property": a.pid,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": a.seed,
        "level": "model_checking",
        "coverage": {
            "states": states + dist,
            "transitions": trans + gen,
            "traces_validated_against_impl": len(rec.traces),
            "events_validated": events,
            "events_by_operation": ops,
            "design_models": minfo,
            "trace_module": spec,
            "samples": samples,
            "known_findings_seen": old,
            "seconds_driving": round(t_drive, 1),
            "seconds_validating": round(t_val, 1),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(fresh),
    }
    evd = os.environ.get("VERIF_EVIDENCE_DIR", os.path.join(HERE, "evidence"))
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for k, n in sorted(old.items()):
        print(f"KNOWN-FINDING: property={a.pid} {k} ({n} events): {mine[k].split(' ', 3)[-1]}")
    print(f"{a.pid} {a.tier}: {len(rec.traces)} traces / {events} events validated by {spec}, "
          f"{states} design states, {ev['wall_s']} s (drive {t_drive:.0f} validate {t_val:.0f})")
    if fresh:
        path = os.path.join(evd, a.pid + ".replay.json")
        with open(path, "w") as f:
            json.dump([{"trace": i, "event": j, "clauses": c, "observed": R.clean(e),
                        "before": R.clean(rec.traces[i][max(0, j - 10):j])} for i, j, c, e in fresh[:20]], f, indent=1)
        byc = {}
        for _, _, c, e in fresh:
            k = (e["op"], tuple(c))
            byc[k] = byc.get(k, 0) + 1
        for (op, c), n in list(byc.items())[: a.show]:
            print(f"  rejected: {n} x {op}: {', '.join(c)}")
        for label, tb in rec.exceptions[:2]:
            print(f"  exception in case {label}: {tb.strip().splitlines()[-1]}")
        print(f"VIOLATION property={a.pid} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
