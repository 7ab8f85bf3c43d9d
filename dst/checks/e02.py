"""E02: an experiment reports the error rate of exactly its own shots."""
import copy
import json
import os
import shutil
import tempfile

import numpy as np
import plaquette

from dst import exper, sut
from dst.core import Invalid
from dst.model import CodeModel, Layout
from plaquette import decoders, device, frontend

ID = "E02"
CASES = {"quick": 1200, "thorough": 28000}
RULE = (
    "one case = a configured experiment and a history of up to 10 operations: run, update of a part followed "
    "by rebuilding what depends on it, complete rebuild, refused builds, runs that fail in the middle (decoder "
    "refuses, device or decoder raises at shot k); every shot handed out by the device and every decoding is "
    "recorded at the public interfaces and the reported rate is recomputed from the records with the code "
    "model; distinct = different event log"
)
STATES = "distinct (code, decoder, backend, logical operator, shots, failed shots) tuples"
REAL = ["ExperimentConfig and everything it builds", "Device and both backends", "all decoders", "check_success"]
STUB = ["random source (seeded by the experiment)"]
ASSUME = ["after an update the parts which depend on it are rebuilt before the next run"]


def gen(rng, i):
    c = exper.gen_config(rng, files=False)
    c.pop("circuit", None)
    c["code"] = exper.gen_code(rng, sut.gen_code(rng, max_rounds=3, small=True, fams=["five", "shor", "repetition", "planar", "rotated"]))
    shots = rng.choice([1, 1, 2, 7, 30])
    c.setdefault("device", {})["shots"] = shots
    c["errors"] = gen_errors(rng)
    if rng.random() < 0.6:
        c["decoder"] = {"name": rng.choice(["UnionFindDecoder", "FusionBlossomDecoder", "PyMatchingDecoder"]), "weighted": rng.random() < 0.6}
    ops = [["build"]]
    for _ in range(rng.choice([1, 3, 6, 9])):
        k = rng.choice(["run"] * 5 + ["build", "shots", "op", "decoder", "device", "code", "errors", "seed", "fail", "fail"])
        if k == "shots":
            ops.append([k, rng.choice([1, 2, 3, 11, 25])])
        elif k == "op":
            ops.append([k, rng.choice("XZ")])
        elif k == "decoder":
            ops.append([k, exper.gen_decoder(rng)])
        elif k == "device":
            ops.append([k, rng.choice(sut.BACKENDS)])
        elif k == "code":
            ops.append([k, exper.gen_code(rng, sut.gen_code(rng, max_rounds=3, small=True, fams=["five", "shor", "repetition", "planar", "rotated"]))])
        elif k == "errors":
            ops.append([k, gen_errors(rng)])
        elif k == "seed":
            ops.append([k, rng.randrange(1000)])
        elif k == "fail":
            ops.append([k, rng.choice(["decode", "sample", "run"]), rng.randrange(6)])
        else:
            ops.append([k])
    ops.append(["run"])
    return dict(config=c, ops=ops)


def gen_errors(rng):
    rates = rng.choice([[0.0, 0.02, 0.1], [0.05, 0.2, 0.4], [0.0, 1.0], [0.3]])
    q, g = {}, {}
    for k in exper.QK:
        if rng.random() < 0.55:
            q[k] = {"distribution": "constant", "params": [rng.choice(rates)]}
            if k in "XYZ":
                q[k]["params"] = [min(q[k]["params"][0], 1 / 3) if rates != [0.0, 1.0] else float(k == "X") * rng.choice([0.0, 1.0])]
    for k in exper.GK:
        if rng.random() < 0.25:
            g[k] = exper.gen_gentry(rng, k, [0.0, 0.03, 0.2], many=False)
            if "params" in g[k]:
                g[k]["distribution"], g[k]["params"] = ["constant"], [[g[k]["params"][0][0]]]
    for k, e in list(g.items()):
        if e["distribution"] == "user":
            del g[k]
    out = {"qubit_errors": q}
    if g:
        out["gate_errors"] = dict(g, sample=rng.random() < 0.7)
    return out


class Recorder:
    """Records what passes the public interfaces of device and decoders."""

    def __init__(self):
        self.clear()
        self.fail = None

    def clear(self):
        self.events = []

    def install(self):
        rec = self

        def maybe_fail(kind):
            if rec.fail and rec.fail[0] == kind:
                rec.fail[1] -= 1
                if rec.fail[1] < 0:
                    rec.fail = None
                    rec.events.append(("fail",))
                    raise Injected(kind)

        D = device.Device
        run, get = D.run, D.get_sample

        def run_(self, *a, **kw):
            maybe_fail("run")
            res = run(self, *a, **kw)
            rec.events.append(("run",))
            return res

        def get_(self, *a, **kw):
            maybe_fail("sample")
            res = get(self, *a, **kw)
            rec.events.append(("sample", *(None if r is None else np.array(r) for r in res)))
            return res

        D.run, D.get_sample = run_, get_
        for name in sut.DECODERS:
            cls = getattr(decoders, name)
            inner = cls.decode

            def decode_(self, *a, _inner=inner, _name=name, **kw):
                maybe_fail("decode")
                args = list(a) + [kw[k] for k in ("erased_qubits", "erasure", "syndrome") if k in kw]
                args = [None if x is None else np.array(x) for x in args]
                depth = rec.depth
                rec.depth += 1
                try:
                    res = _inner(self, *a, **kw)
                finally:
                    rec.depth = depth
                if depth == 0:
                    rec.events.append(("decode", _name, args, np.array(res)))
                return res

            cls.decode = decode_
        self.depth = 0


class Injected(RuntimeError):
    pass


def run(case, ctx):
    tmp = tempfile.mkdtemp(prefix="dst-e02.", dir="/tmp")
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        _run(case, ctx)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def _run(case, ctx):
    sut.set_rng(case["seed"])
    conf = json.loads(json.dumps(case["config"]))
    exper.meaningful(conf)
    rec = Recorder()
    rec.install()
    ex = frontend.ExperimentConfig.from_dict(copy.deepcopy(conf))
    model = exper.normal(conf)
    ready = False  # built without being refused
    done: list = []

    def refusable():
        """Must or may building be refused?"""
        d = model["decoder"]
        return d["weighted"]

    def build(fn, what):
        nonlocal ready
        try:
            fn()
        except (ValueError, NotImplementedError) as e:
            ctx.check(refusable(), "build-refused", lambda: f"{what}: {type(e).__name__}: {e}")
            ctx.fault("refused build")
            ready = False
            return
        ctx.check(not (model["decoder"]["weighted"] and model["decoder"]["name"] == "UnionFindNoWeights"), "build-accepted", what)
        ready = True

    for n, op in enumerate(case["ops"]):
        k = op[0]
        ctx.steps += 1
        ctx.log(n, op)
        what = f"{model} after {done} then {op}"
        done.append(k)
        if k == "build":
            build(ex.build, what)
        elif k == "shots":
            if op[1] < 1:
                raise Invalid("shots")
            ex.device_conf.update(shots=op[1])
            model["device"]["shots"] = op[1]
        elif k == "op":
            ex.general_conf["logical_op"] = op[1]
            model["general"]["logical_op"] = op[1]
            if ready:
                build(ex.build_circuit, what)
        elif k == "decoder":
            ex.decoder_conf.update(**op[1])
            model["decoder"].update(op[1])
            build(ex.build if not ready else ex.build_decoder, what)
        elif k == "device":
            ex.device_conf.update(name=op[1])
            model["device"]["name"] = op[1]
            if ready:
                build(ex.build_device, what)
        elif k == "code":
            exper.meaningful({"code": op[1], "errors": {}})
            ex.code_conf.update(**op[1])
            model["code"] = exper.normal({"code": op[1], "errors": {}})["code"]
            build(ex.build, what)
        elif k == "errors":
            exper.meaningful({"code": case["config"]["code"], "errors": op[1]})
            ex.update(errors_conf=frontend.ErrorsConfig.from_dict(copy.deepcopy(op[1])))
            model["errors"] = exper.normal({"code": case["config"]["code"], "errors": op[1]})["errors"]

            def again():
                ex.build_errors()
                ex.build_circuit()
                ex.build_decoder()

            build(again if ready else ex.build, what)
        elif k == "seed":
            ex.general_conf["seed"] = op[1]
            model["general"]["seed"] = op[1]
            ex.update_rng()
        elif k in ("run", "fail") and ready:
            if done[-2] not in ("run", "fail"):
                check_twin(ex, model, ctx, what)
            rec.clear()
            rec.fail = [op[1], op[2]] if k == "fail" else None
            go(ex, model, rec, ctx, what)
            rec.fail = None


def check_twin(ex, model, ctx, what):
    """What was built is what a fresh experiment of this configuration has."""
    keep = plaquette.rng
    twin = frontend.ExperimentConfig.from_dict(copy.deepcopy(model))
    twin.build_code()
    twin.build_errors()
    twin.build_circuit()
    plaquette.rng = keep
    a, b = sut.gate_list(ex.circuit), sut.gate_list(twin.circuit)
    ctx.check(a == b, "rebuilt-differently", lambda: f"{what}: circuit {a}, expected {b}")
    a, b = (repr(sorted((k, sorted(v.items(), key=repr)) for k, v in x.errors.error_data_dict.items())) for x in (ex, twin))
    ctx.check(a == b, "rebuilt-differently", lambda: f"{what}: errors {a}, expected {b}")
    ctx.check(type(ex.decoder).__name__ == model["decoder"]["name"], "rebuilt-differently", what)
    ctx.check(getattr(ex.device, "_backend_name", model["device"]["name"]) == model["device"]["name"], "rebuilt-differently", what)
    ctx.probe("compared with a fresh experiment")


def go(ex, model, rec, ctx, what):
    planned = rec.fail is not None
    refused = None
    rate = None
    try:
        rate = ex.run()
    except Injected as e:
        ctx.fault(f"exception in {e} during a run")
        refused = e
    except ValueError as e:
        refused = e
    fails = [e for e in rec.events if e[0] == "fail"]
    ctx.check(not fails or isinstance(refused, Injected), "failure-swallowed", lambda: f"{what}: {refused!r}")
    code = ex.code
    m = CodeModel(code)
    spec_op = model["general"]["logical_op"]
    lay = Layout(m, spec_op, False)
    shots = []  # (toggles, syndrome, erasure, logical effect of the correction)
    runs = pending = 0
    cur = None
    for e in rec.events:
        if e[0] == "run":
            runs += 1
            pending = 1
        elif e[0] == "sample":
            ctx.check(pending == 1, "shot-read-again", lambda: f"{what}: sample read without a new run")
            pending = 0
            tog, syn = lay.split(sut.bits(e[1], lay.total, "raw results"))
            R = m.rounds
            era = None if e[2] is None or len(e[2]) == 0 else [sut.bits(r, m.n, "erasure") for r in np.asarray(e[2]).reshape(R, m.n)]
            cur = (tog, syn, era)
        elif e[0] == "decode":
            ctx.check(cur is not None, "decode-without-shot", what)
            era, syn = e[2]
            s = sut.matrix(syn, (m.rounds, m.m), "syndrome")
            ctx.check(s == cur[1], "wrong-syndrome-decoded", lambda: f"{what}: shot {len(shots)}: {s}, device gave {cur[1]}")
            er = None if era is None else [sut.bits(r, m.n, "erasure") for r in np.asarray(era).reshape(m.rounds, m.n)]
            flat = lambda x: [] if x is None or not any(map(any, x)) else x  # noqa: E731
            ctx.check(flat(er) == flat(cur[2]), "wrong-erasure-decoded", lambda: f"{what}: shot {len(shots)}: {er}, device gave {cur[2]}")
            ctx.check(e[1] == model["decoder"]["name"], "wrong-decoder", lambda: f"{what}: {e[1]}")
            p = sut.pauli_from_tableau(e[3], m.n)
            shots.append(cur[0] == sut.logical_effect(m, lay.idx, p))
            cur = None
    ctx.rounds += len(shots) * m.rounds
    if refused is not None:
        if not isinstance(refused, Injected):
            # only a decoder may refuse a shot
            erasures = model["errors"]["qubit_errors"]["erasure"]
            ctx.check(cur is not None, "run-refused", lambda: f"{what}: {type(refused).__name__}: {refused} outside decoding")
            ctx.fault("decoder refused a shot")
            ctx.log("refused", len(shots))
            del erasures
        return
    want = model["device"]["shots"]
    ctx.check(runs == want and len(shots) == want, "number-of-shots",
              lambda: f"{what}: {runs} runs and {len(shots)} decoded shots instead of {want}")
    bad = shots.count(False)
    ctx.check(isinstance(rate, (float, np.floating)) and abs(rate - bad / want) < 1e-12, "logical-error-rate",
              lambda: f"{what}: reported {rate}, {bad} of {want} shots failed")
    ctx.log(bad, want)
    ctx.probe("logical errors counted", bad)
    ctx.state(model["code"], model["decoder"], model["device"], spec_op, want, bad)
    if planned:
        ctx.probe("failure planned after the end")
    check_device(ex, model, ctx, what)


def check_device(ex, model, ctx, what):
    name = ex.device_conf.name
    ctx.check(name == model["device"]["name"], "device-changed", what)
    got = exper.plain(ex.as_dict())
    ctx.check(got == model, "configuration-changed", lambda: f"{what}: {got}")
