"""Command line of the simulation framework.

  run.py check ID [--tier quick|thorough] [--seed N] [--cases N]
  run.py replay FILE
  run.py selftest [ID ...]     determinism of the simulation itself
  run.py gen ID INDEX [SEED]   print one generated case
"""
from __future__ import annotations

import argparse
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.environ.get("DST_REPO_SRC", "/repo/src"))

from dst import core  # noqa: E402

CHECKS = """Q01 Q02 Q03 Q04 Q05 Q06 Q07 Q08 Q09 D01 D02 D03 D04 D05 D06 D07 D08 A02 A03
G01 L01 N01 N02 N03 E01 E02 R01 F01""".split()
VERIF = os.path.dirname(HERE)


def load(pid):
    return importlib.import_module(f"dst.checks.{pid.lower()}")


def known_entries(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        if not line.startswith("known: "):
            continue
        parts = line[len("known: "):].strip().split(" ", 3)
        d = dict(p.split("=", 1) for p in parts[:3])
        if d["property"] == pid:
            out.append((json.load(open(os.path.join(VERIF, d["case"]))), d["kind"], parts[3]))
    return out


def cmd_check(pid, tier, seed, cases, budget, jobs):
    t0 = time.monotonic()
    check = load(pid)
    n = cases or check.CASES[tier]
    budget = budget or (75 if tier == "quick" else 780)
    agg = dict(faults={}, probes={}, states=set(), steps=0, rounds=0)
    digests, samples, harness = set(), [], []
    results: dict[int, dict] = {}
    viol: list[tuple[int, dict, dict]] = []
    done = 0
    known_lines = []

    for case, kind, what in known_entries(pid):
        o = core.run_one(check, case)
        if o["status"] == "violation":
            if o["kind"] == kind:
                known_lines.append(f"KNOWN-FINDING: property={pid} {what}")
            else:
                viol.append((-1, case, o))
        elif o["status"] == "harness":
            harness.append(o["msg"])

    def gen():
        for i in range(n):
            if time.monotonic() - t0 > budget:
                return
            yield i, core.make_case(check, seed, i)

    def on(i, case, o):
        nonlocal done
        if o["status"] == "invalid":
            harness.append(f"generated case {i} is invalid: {o.get('msg')}")
            return
        if o["status"] == "harness":
            harness.append(f"case {i}: {o['msg']}")
            return
        if o["status"] == "violation":
            viol.append((i, case, o))
            return
        done += 1
        for k in ("faults", "probes"):
            for a, b in o[k].items():
                agg[k][a] = agg[k].get(a, 0) + b
        agg["states"].update(o["states"])
        agg["steps"] += o["steps"]
        agg["rounds"] += o["rounds"]
        if o["digest"] not in digests:
            digests.add(o["digest"])
            if len(samples) < 3:
                samples.append(dict(index=i, case=case, digest=o["digest"]))

    if not viol:
        core.run_many(check, gen(), jobs, on, stop=lambda: bool(viol) or len(harness) > 3)
    run_wall = time.monotonic() - t0
    rc = 0
    replay_path = None
    report = None
    if viol:
        i, case, o = sorted(viol, key=lambda v: v[0])[0]
        small, msg, runs = core.shrink(
            check, case, o["kind"], budget_s=60 if tier == "quick" else 120, jobs=jobs
        )
        final = core.run_one(check, small)
        if final["status"] != "violation":
            small, final = case, core.run_one(check, case)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        name = f"{pid}_{final['digest'] or 'x'}_{core.case_seed(json.dumps(small, sort_keys=True)) % 16**6:06x}.json"
        replay_path = os.path.join(VERIF, "replays", name)
        report = dict(
            property=pid, tier=tier, seed=seed, index=i, kind=final.get("kind", o["kind"]),
            message=final.get("msg", o["msg"]), digest=final["digest"], shrink_runs=runs,
            original_case=case, case=small,
        )
        with open(replay_path, "w") as f:
            json.dump(report, f, indent=1, sort_keys=True)
        env = dict(os.environ, PYTHONHASHSEED="77")
        p = subprocess.run(
            [sys.executable, os.path.abspath(__file__), "replay", replay_path],
            env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300,
        )
        report["reproduced_in_fresh_process"] = p.returncode == 1
        with open(replay_path, "w") as f:
            json.dump(report, f, indent=1, sort_keys=True)
        rc = 1
    elif harness:
        rc = 2
    wall = time.monotonic() - t0
    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=done + len(viol),
            distinct_nontrivial=len(digests) + len({v[2]["digest"] for v in viol}),
            rule=check.RULE,
            samples=samples or [dict(case=v[1]) for v in viol[:1]],
            simulated_runs_per_hour=int(done / max(run_wall, 1e-9) * 3600),
            seeds_per_hour=int(done / max(run_wall, 1e-9) * 3600),
            simulated_qec_rounds=agg["rounds"],
            simulated_steps=agg["steps"],
            faults_injected=dict(sorted(agg["faults"].items())),
            rare_conditions_hit=dict(sorted(agg["probes"].items())),
            distinct_states_reached=len(agg["states"]),
            state_measure=check.STATES,
            real_components=check.REAL,
            stubbed_components=check.STUB,
            planned_cases=n,
            known_findings_seen=len(known_lines),
            jobs=jobs,
        ),
        assumptions=check.ASSUME,
        wall_s=round(wall, 2),
        violations=len(viol),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))
    for line in known_lines:
        print(line)
    if rc == 1:
        print(f"{report['kind']}: {report['message']}")
        print(f"found in case {report['index']} of seed {seed}, minimised in {report['shrink_runs']} runs")
        print("case: " + json.dumps(report["case"], sort_keys=True)[:1500])
        print(f"VIOLATION property={pid} replay={replay_path}")
    elif rc == 2:
        print(f"HARNESS-ERROR property={pid}")
        for h in harness[:5]:
            print("  " + h)
    else:
        print(
            f"{pid}: held in {done} simulated runs ({len(digests)} distinct histories, "
            f"{len(agg['states'])} distinct states) in {wall:.1f} s"
        )
    sys.stdout.flush()
    return rc


def cmd_replay(path):
    rep = json.load(open(path))
    check = load(rep["property"])
    o = core.run_one(check, rep["case"])
    print(json.dumps({k: o.get(k) for k in ("status", "kind", "msg", "digest")}, indent=1))
    if o["status"] == "violation":
        same = o["kind"] == rep["kind"] and o["digest"] == rep["digest"]
        print("reproduced exactly" if same else "violation differs from the recorded one")
        print(f"VIOLATION property={rep['property']} replay={path}")
        return 1 if same or True else 0
    return 0 if o["status"] == "ok" else 2


def cmd_digests(pid, seed, n, start, jobs):
    check = load(pid)
    res = {}
    core.run_many(
        check, ((i, core.make_case(check, seed, i)) for i in range(start, start + n)),
        jobs, lambda k, c, o: res.__setitem__(k, (o["status"], o["digest"])),
    )
    print(json.dumps([res[k] for k in sorted(res)]))
    return 0


def cmd_selftest(ids, n, seeds):
    """Same seeds, several fresh processes, hash seeds and worker counts: same logs."""
    bad = 0
    for pid in ids or CHECKS:
        for seed in seeds:
            outs = []
            for hs, jobs in (("0", 8), ("1", 3), ("4242", 1), ("random", 5)):
                p = subprocess.run(
                    [sys.executable, os.path.abspath(__file__), "digests", pid,
                     "--seed", str(seed), "--cases", str(n), "--jobs", str(jobs)],
                    env=dict(os.environ, PYTHONHASHSEED=hs), stdout=subprocess.PIPE,
                    stderr=subprocess.DEVNULL,
                )
                outs.append(json.loads(p.stdout))
            diff = [i for i in range(n) if len({json.dumps(o[i]) for o in outs}) > 1]
            notok = [i for i in range(n) if outs[0][i][0] != "ok"]
            print(f"{pid} seed={seed}: {n} cases x {len(outs)} processes, "
                  f"{len(diff)} differ {diff[:5]}, {len(notok)} not ok {notok[:5]}")
            sys.stdout.flush()
            bad += bool(diff) + bool(notok)
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("args", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("DST_JOBS", "8")))
    a = ap.parse_args()
    if a.cmd == "check":
        return cmd_check(a.args[0], a.tier, a.seed, a.cases, a.budget, a.jobs)
    if a.cmd == "replay":
        return cmd_replay(a.args[0])
    if a.cmd == "digests":
        return cmd_digests(a.args[0], a.seed, a.cases, a.start, a.jobs)
    if a.cmd == "selftest":
        return cmd_selftest(a.args, a.cases or 40, [a.seed, a.seed + 1])
    if a.cmd == "selfcheck":
        # nothing to build: the library is pure Python and is imported from /repo/src
        from dst import sut  # noqa: F401

        print("ok", sum(len(core.make_case(load(p), 1, 0)) > 0 for p in CHECKS if os.path.exists(
            os.path.join(HERE, "checks", p.lower() + ".py"))), "checks")
        return 0
    if a.cmd == "gen":
        check = load(a.args[0])
        print(json.dumps(core.make_case(check, a.seed, int(a.args[1])), indent=1))
        return 0
    if a.cmd == "case":
        c = load(a.args[0])
        o = core.run_one(c, core.make_case(c, a.seed, int(a.args[1])))
        print(json.dumps({k: v for k, v in o.items() if k != "states"}, indent=1))
        return 0
    ap.error("unknown command")


if __name__ == "__main__":
    import warnings

    warnings.simplefilter("ignore")
    sys.exit(main())
