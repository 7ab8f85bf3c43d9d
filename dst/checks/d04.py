"""D04: a seed determines the experiment."""
import gc
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

import numpy as np
import plaquette

from dst import exper, machine, sut, tables
from dst.core import Invalid, case_seed
from dst.model import CodeModel
from plaquette import frontend
from plaquette.errors import ErrorData

ID = "D04"
CASES = {"quick": 55, "thorough": 1800}
RULE = (
    "one case = 8-18 seeded experiments (configured experiments with distributions, memory experiments with "
    "several shots and decodings, circuits with error instructions, error tables read from files, fabrication "
    "defects), each performed three times: first, again after activity with other seeds in a process with "
    "disturbed global random states and a shifted clock, and in another order in a freshly started interpreter "
    "with another hash seed, directory and environment; all results are compared exactly; "
    "distinct = different event log (all results)"
)
STATES = "distinct (kind of experiment, result) pairs"
REAL = ["the whole library below the public interface, in a forked and in a fresh process"]
STUB = ["clock", "global random states of Python and numpy", "hash seed", "environment"]
ASSUME = ["the order of entries in returned dictionaries is not a result", "same machine and library versions"]
FROZEN = ()


def gen(rng, i):
    es = []
    for _ in range(rng.choice([8, 12, 18])):
        k = rng.choice(["config", "config", "memory", "memory", "circuit", "table", "fab"])
        e = dict(k=k, seed=rng.randrange(1 << 40))
        if k == "config":
            c = exper.gen_config(rng, files=False)
            c.pop("circuit", None)
            c["code"] = exper.gen_code(rng, sut.gen_code(rng, max_rounds=3, small=True, fams=["five", "shor", "repetition", "planar", "rotated"]))
            c.setdefault("device", {})["shots"] = rng.choice([1, 5, 20])
            c["errors"] = noise(rng)
            e["config"] = c
        elif k in ("memory", "fab"):
            fam = ["planar"] if k == "fab" else None
            e["code"] = sut.gen_code(rng, fams=fam, max_rounds=3, small=k != "fab")
            e.update(lops=sut.gen_logical_ops(rng, e["code"]), ancilla=rng.random() < 0.5, backend=rng.choice(sut.BACKENDS),
                     decoder=rng.choice(sut.DECODERS), weights=sut.gen_weights(rng), shots=rng.choice([1, 3, 8]),
                     rates=[rng.choice([0.0, 0.05, 0.2]) for _ in range(4)], lost=[rng.randrange(50)], erasure=rng.random() < 0.5)
        elif k == "circuit":
            n = rng.choice([1, 2, 4, 6])
            b = rng.choice(sut.BACKENDS)
            e.update(n=n, backend=b, gates=machine.certain_program(rng, n, rng.choice([5, 15, 40]), stim=b == "stim"), shots=rng.choice([1, 4]))
        else:
            e.update(code=sut.gen_code(rng, max_rounds=2, small=True), q=tables.gen_qframe(rng), g=tables.gen_grows(rng))
        es.append(e)
    return dict(experiments=es, hashseed=rng.randrange(1 << 32), order=rng.random() < 0.7, noise=rng.randrange(1 << 30),
                clock=rng.choice([0, 10**6, -(10**8), 10**9]))


def noise(rng):
    q, g = {}, {}
    for k in exper.QK:
        if rng.random() < 0.6:
            if rng.random() < 0.7:
                q[k] = {"distribution": "gaussian", "params": [rng.choice([0.02, 0.1]), rng.choice([0.0, 0.01, 0.05])]}
            else:
                q[k] = {"distribution": "constant", "params": [rng.choice([0.03, 0.2])]}
    for k in exper.GK:
        if rng.random() < 0.35:
            pool = ["XX", "IZ", "ZI", "YZ"] if k in ("CX", "CZ") else list("XYZ")
            g[k] = {"distribution": [rng.choice(["gaussian", "constant"])], "induced_errors": [rng.choice(pool)]}
            g[k]["params"] = [[0.05, 0.02] if g[k]["distribution"] == ["gaussian"] else [0.05]]
    return {"qubit_errors": q, **({"gate_errors": dict(g, sample=True)} if g else {})}


def flat(x):
    """JSON-like exact value; dictionaries in a canonical order."""
    if isinstance(x, dict):
        return sorted([[flat(k), flat(v)] for k, v in x.items()], key=repr)
    if isinstance(x, np.ndarray):
        return flat(x.tolist())
    if isinstance(x, (list, tuple)):
        return [flat(v) for v in x]
    if isinstance(x, np.generic):
        return flat(x.item())
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, float):
        return x.hex()
    if x is None or isinstance(x, (int, str)):
        return x
    return str(x)


def perform(e):
    """One experiment from its seed; everything it results in."""
    k = e["k"]
    plaquette.rng = np.random.default_rng(e["seed"])
    out = []
    try:
        if k == "config":
            configured(e, out)
        elif k in ("memory", "fab"):
            memory(e, out)
        elif k == "circuit":
            circuit(e, out)
        else:
            table(e, out)
    except (ValueError, TypeError, NotImplementedError) as ex:
        out.append(["raised", type(ex).__name__])
    out.append(["next", int(plaquette.rng.integers(1 << 60))])
    return flat(out)


def configured(e, out):
    c = json.loads(json.dumps(e["config"]))
    exper.meaningful(c)
    c.setdefault("general", {"logical_op": "Z", "qec_property": ["logical_error_rate"]})["seed"] = e["seed"] % (1 << 31)
    ex = frontend.ExperimentConfig.from_dict(c)
    ex.build()
    out.append(["errors", ex.errors.error_data_dict])
    out.append(["circuit", sut.gate_list(ex.circuit)])
    out.append(["rate", ex.run()])
    for _ in range(3):
        ex.device.run(ex.circuit)
        raw, er = ex.device.get_sample()
        out.append(["shot", raw, er])


def memory(e, out):
    if len(e["rates"]) != 4:
        raise Invalid("rates")
    code = sut.build_code(e["code"])
    sut.check_logical_ops(e["lops"], e["code"])
    if e["k"] == "fab":
        m = CodeModel(code)
        code.apply_fabrication_errors(faulty_qubits=sorted({m.data_ids[a % m.n] for a in e["lost"]}))
        out.append(["code", [str(sorted(x)) for x in model(code)]])
    m = CodeModel(code)
    p, q, f, g = e["rates"]
    qe = {"pauli": {i: {"x": p / 3, "y": p / 3, "z": p / 3} for i in m.data_ids}}
    if f:
        qe["measurement"] = {i: {"p": f} for i in m.anc_ids}
    if e["erasure"]:
        qe["erasure"] = {i: {"p": q} for i in m.data_ids}
    ge = {"H": {a: {"x": g / 3, "z": g / 3} for a in m.anc_ids}} if g else {}
    circ = sut.make_circuit(code, qe, ge, e["lops"], e["ancilla"])
    out.append(["circuit", sut.gate_list(circ)])
    dev = sut.Device(e["backend"])
    dec, _ = sut.build_decoder(e["decoder"], code, e["weights"], m)
    for _ in range(max(1, e["shots"])):
        dev.run(circ)
        raw, er = dev.get_sample()
        out.append(["shot", raw, er])
        res = sut.MeasurementSample.from_code_and_raw_results(code, raw, er, logical_ancilla=e["ancilla"])
        try:
            cor = dec.decode(None if e["decoder"] == "PyMatchingDecoder" else res.erased_qubits, res.syndrome)
        except ValueError as ex:
            out.append(["refused"])
            continue
        out.append(["correction", cor, bool(sut.check_success(code, cor, res.logical_op_toggle, e["lops"]))])


def model(code):
    m = CodeModel(code)
    return list(enumerate(m.stabs)), list(enumerate(m.logs)), m.data_ids, m.anc_ids


def circuit(e, out):
    if not machine.valid(e["gates"], e["n"], e["backend"] == "stim"):
        raise Invalid("program")
    circ = sut.circuit_from_gates([(g, tuple(a)) for g, a in e["gates"]])
    # coins which differ for different seeds with certainty up to 2^-64
    for _ in range(64):
        circ.append("R", 0)
        circ.append("H", 0)
        circ.append("M", 0)
    dev = sut.Device(e["backend"])
    for _ in range(max(1, e["shots"])):
        dev.run(circ)
        out.append(["shot", *dev.get_sample()])
    if e["backend"] == "clifford":
        out.append(["state", np.asarray(dev.state.tableau).astype(int)])


def table(e, out):
    from dst.checks.n02 import write

    code = sut.build_code(e["code"])
    names = tables.Names(CodeModel(code))
    tmp = tempfile.mkdtemp(prefix="dst-d04.", dir="/tmp")
    try:
        ed = ErrorData.from_csv(*write(tmp, names, e["q"], e["g"] or None, 0))
        out.append(["table", ed.error_data_dict])
        ed.save_to_csv(os.path.join(tmp, "a.csv"), os.path.join(tmp, "b.csv"))
        out.append(["files", [open(os.path.join(tmp, n)).read() for n in ("a.csv", "b.csv") if os.path.exists(os.path.join(tmp, n))]])
        circ = sut.make_circuit(code, ed.qubit_errors_dict, ed.gate_errors_dict, "Z" * sut.n_logical(e["code"]), True)
        out.append(["circuit", sut.gate_list(circ)])
        sim = sut.Device("clifford")
        sim.run(circ)
        out.append(["shot", *sim.get_sample()])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def child():
    """In a fresh interpreter: perform the experiments given on stdin."""
    case = json.load(sys.stdin)
    disturb(case["noise"])
    os.chdir("/tmp")
    es = list(enumerate(case["experiments"]))
    if case["order"]:
        es.reverse()
    res = {i: perform(e) for i, e in es}
    sys.stderr.flush()
    sys.__stdout__.write("\n@@" + json.dumps([res[i] for i in sorted(res)]) + "\n")
    sys.__stdout__.flush()


def disturb(x):
    random.seed(x)
    np.random.seed(x % 2**32)
    random.random()
    np.random.random(x % 7)


def run(case, ctx):
    tmp = tempfile.mkdtemp(prefix="dst-d04.", dir="/tmp")
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        _run(case, ctx, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def _run(case, ctx, tmp):
    es = case["experiments"]
    if not es:
        raise Invalid("empty")
    first = [perform(e) for e in es]
    for e, r in zip(es, first):
        ctx.log(r)
        ctx.state(e["k"], r)
        ctx.steps += len(r)
    # other seeds give other randomness; at the same time unrelated activity
    for e, r in zip(es, first):
        o = perform(dict(e, seed=case_seed(e["seed"], "other") >> 24))
        if e["k"] == "circuit":
            ctx.check(o != r, "seed-ignored", lambda: f"{e} gives the same with another seed")
            ctx.probe("another seed gives another result")
    disturb(case["noise"])
    ctx.fault("global random states disturbed")
    keep = time.time, time.perf_counter, time.monotonic
    d = case["clock"]
    time.time, time.perf_counter, time.monotonic = (lambda f: lambda: f() + d)(keep[0]), keep[1], keep[2]
    if d:
        ctx.fault("clock shifted")
    try:
        for e, r in zip(es, first):
            gc.collect()
            again = perform(e)
            ctx.check(again == r, "not-repeatable", lambda: f"{e['k']}: in the same process {diff(r, again)}")
    finally:
        time.time = keep[0]
    env = dict(os.environ, PYTHONHASHSEED=str(case["hashseed"] % (1 << 32)), TZ="Asia/Kolkata", HOME=tmp, COLUMNS="40")
    env["PYTHONPATH"] = os.pathsep.join([os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), sut.REPO_SRC])
    p = subprocess.run(
        [sys.executable, "-W", "ignore", "-c", "from dst.checks import d04; d04.child()"], input=json.dumps(case).encode(),
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=tmp, timeout=300,
    )
    ctx.fault("fresh process")
    ctx.check(p.returncode == 0, "fresh-process-fails", lambda: p.stderr.decode()[-800:])
    fresh = json.loads(p.stdout.decode().rsplit("\n@@", 1)[1])
    for e, r, f in zip(es, first, fresh):
        ctx.check(f == r, "differs-in-fresh-process", lambda: f"{e['k']}: hash seed {case['hashseed']}: {diff(r, f)}")


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return f"{str(x)[:300]} then {str(y)[:300]}"
    return f"{len(a)} and {len(b)} results"
