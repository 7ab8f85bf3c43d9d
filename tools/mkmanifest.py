"""Writes MANIFEST.json from the check modules that exist."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(line) for line in open(ROOT / "properties.jsonl")]
NOTE = (
    "Seeded search: evidence over the runs performed, not a proof. The library runs unmodified in one process "
    "per simulated run; trusted are the reference models in dst/ and the libraries numpy, stim, pymatching, "
    "fusion-blossom and pandas. "
)
TECH = {
    "Q01": "deterministic simulation of the QEC loop, adversarial measurement coins",
    "Q02": "deterministic simulation with injected quantum faults against a Pauli-frame model",
    "Q03": "deterministic simulation with injected faults; decoder answers checked against the code model",
    "Q04": "deterministic simulation with bounded fault histories; recovery is a guarantee",
    "Q05": "deterministic simulation of decoder histories with refused, interrupted and aliased operations",
    "Q06": "deterministic simulation of the closed loop; verdicts checked against the injected faults",
    "Q07": "deterministic simulation of decoding under drawn rates; optimality against exact shortest explanations",
    "Q08": "deterministic simulation of decoder backends on random graphs with faults, erasures and interrupted decodings",
    "Q09": "deterministic simulation with injected circuit faults; guided search for silent combinations below the distance",
    "L01": "deterministic simulation of histories of lattice edits with impossible edits in between, lock-step reference and fault-injected experiments",
    "G01": "deterministic simulation of histories of shared syndrome graphs with refused and interrupted operations, lock-step reference",
    "D01": "deterministic simulation of device histories with failing runs, lock-step reference machine",
    "D02": "deterministic simulation of interleaved batched samplers against reference streams",
    "D03": "deterministic simulation with adversarial coins, lock-step stabilizer reference",
    "D04": "deterministic replay in perturbed and in fresh processes",
    "D05": "seeded thread scheduler preempting inside library calls; refinement of isolated sessions",
    "D06": "exceptions injected at arbitrary executed lines, then recovery checked",
    "D07": "deterministic simulation of error blocks against exact joint distributions",
    "D08": "deterministic simulation of state histories with forced, adversarial and refused operations, lock-step reference",
    "N01": "simulation of configured experiments; acting noise compared with a configuration model",
    "N02": "simulation of edit histories with refused edits against a dictionary model",
    "N03": "simulated save/load histories with injected disk faults",
    "E01": "simulated dump/load histories of experiments with injected disk faults",
    "E02": "deterministic simulation of whole experiments, every shot accounted for",
    "R01": "simulated plug-in backend with injected remote failures",
    "F01": "seeded fabrication defects followed by simulated experiments",
}
TECH["A02"] = "deterministic simulation of circuit histories between sessions over a disturbed text channel; exports executed by a reference interpreter"
TECH["A03"] = "deterministic simulation of drawing sessions with failing renderers and refused drawings; figures read back"
NA = {
    "A01": "pure functions of their input: no schedule, clock, I/O, randomness or fault is involved (what state histories need of the algebra is decided within D08)",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if (ROOT / "dst" / "checks" / f"{i.lower()}.py").exists():
        checks.append(dict(
            property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=TECH[i], level="exploration",
            level_note=NOTE + "Bounds, oracle and assumptions: DESIGN.md and the evidence file.",
        ))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check under construction")))
json.dump(
    dict(version=1, setup_cmd="./check.sh --run selfcheck", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every seam the simulator needs exists (plaquette.rng, recognized_devices, "
               "files named by the caller, Python's trace function)."),
    open(ROOT / "MANIFEST.json", "w"), indent=1,
)
print(len(checks), "claimed;", [n["property"] for n in na])
