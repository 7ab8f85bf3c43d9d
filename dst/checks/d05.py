"""D05: interleaved sessions do not influence each other."""
import json
import os

import numpy as np
import plaquette

from dst import sut, tables
from dst.core import Invalid, Violation
from dst.model import CodeModel
from dst.sched import Sched
from plaquette import circuit, frontend
from plaquette.circuit import openqasm  # noqa: F401
from plaquette.errors import ErrorData

ID = "D05"
CASES = {"quick": 500, "thorough": 16000}
RULE = (
    "one case = 2-4 sessions, each a program of 3-10 library operations with its own random source (generate a "
    "circuit, run, step through a circuit, decode, judge, rebuild a decoder, edit error tables, configured "
    "experiment, text conversion), on shared or own code objects, and a schedule of up to 150 quanta of 1 to "
    "5000 library lines or whole operations; every result is compared with the session running alone in a "
    "process of its own; distinct = different event log (schedule positions and results)"
)
STATES = "distinct tuples of the library functions in which the sessions are suspended"
REAL = ["codes", "generator", "devices with both backends", "all decoders", "error tables", "configured experiments"]
STUB = ["thread scheduler (baton passed at library lines)", "plaquette.rng (one per session, swapped at each switch)"]
ASSUME = [
    "threads are switched at line boundaries of the library",
    "sessions draw from their own random source, which is in place whenever they run",
]
FROZEN = ()
OPS = ["gen", "gen", "run", "run", "run", "sample", "step", "decode", "decode", "decode", "judge", "decoder", "table", "table", "exp", "text"]


def gen(rng, i):
    n = rng.choice([2, 2, 3, 4])
    codes = [sut.gen_code(rng, max_rounds=3, small=True, huge=0.005) for _ in range(rng.choice([1, 1, 2]))]
    ses = []
    for _ in range(n):
        c = rng.randrange(len(codes))
        ops = []
        for _ in range(rng.randint(3, 10)):
            k = rng.choice(OPS)
            if k == "step":
                ops.append([k, rng.randrange(200)])
            elif k == "table":
                what = rng.choice(["add", "gate", "merge"])
                ops.append([k, what, rng.choice(tables.QK), rng.randrange(60), tables.gen_value(rng),
                            tables.gen_grows(rng, 1), tables.gen_qframe(rng)])
            elif k == "exp":
                ops.append([k, rng.choice(["X", "Z"]), rng.choice([1, 4]), rng.choice(sut.BACKENDS), rng.randrange(100)])
            elif k == "text":
                ops.append([k, rng.random() < 0.5])
            else:
                ops.append([k])
        ses.append(dict(
            seed=rng.randrange(1 << 30), code=c, share=rng.random() < 0.7, backend=rng.choice(sut.BACKENDS),
            decoder=rng.choice(sut.DECODERS), weights=sut.gen_weights(rng), lops=sut.gen_logical_ops(rng, codes[c]),
            ancilla=rng.random() < 0.5, rates=[rng.choice([0.0, 0.02, 0.1, 0.3]) for _ in range(4)],
            erasure=rng.random() < 0.5, ops=ops,
        ))
    sched = []
    for _ in range(rng.choice([5, 20, 60, 150])):
        sched.append([rng.randrange(n), rng.choice([0, 1, 2, 5, 20, 60, 200, 200, 700, 700, 2000, 5000])])
    return dict(codes=codes, sessions=ses, schedule=sched)


def norm(x):
    if isinstance(x, np.ndarray):
        return norm(x.tolist())
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, dict):
        return [[norm(k), norm(v)] for k, v in x.items()]
    if isinstance(x, np.generic):
        return norm(x.item())
    if isinstance(x, bool):
        return int(x)
    if x is None or isinstance(x, (int, float, str)):
        return x
    return str(x)


class Session:
    def __init__(self, spec, codes, cspecs):
        if spec["code"] >= len(cspecs):
            raise Invalid("code")
        self.s = spec
        self.cspec = cspecs[spec["code"]]
        sut.check_logical_ops(spec["lops"], self.cspec)
        if len(spec["rates"]) != 4:
            raise Invalid("rates")
        self.shared = codes[spec["code"]] if spec["share"] else None
        self.out = []
        self.at = "start"

    def __call__(self, step):
        s = self.s
        self.code = self.shared if self.shared is not None else sut.build_code(self.cspec)
        self.model = CodeModel(self.code)
        self.names = tables.Names(self.model)
        self.dev = sut.Device(s["backend"])
        self.ed = ErrorData.from_lattice(self.code.lattice)
        self.circ = self.dec = self.res = self.cor = None
        self.gen()
        self.build()
        for n, op in enumerate(s["ops"]):
            self.at = op[0]
            try:
                r = self.do(op)
            except (ValueError, TypeError, StopIteration, NotImplementedError) as e:
                r = ["raised", type(e).__name__, str(e)]
            self.out.append([n, op[0], norm(r)])
            self.at = "between"
            step()

    def errors(self):
        p, q, m, g = self.s["rates"]
        d = self.model
        qe = {"pauli": {i: {"x": p / 3, "y": p / 3, "z": p / 3} for i in d.data_ids}}
        if m:
            qe["measurement"] = {i: {"p": m} for i in d.anc_ids}
        if self.s["erasure"]:
            qe["erasure"] = {i: {"p": q} for i in d.data_ids}
        ge = {"H": {a: {"x": g / 3, "z": g / 3} for a in d.anc_ids}} if g else {}
        return qe, ge

    def gen(self):
        self.circ = sut.make_circuit(self.code, *self.errors(), self.s["lops"], self.s["ancilla"])
        return sut.gate_list(self.circ)

    def build(self):
        self.dec, _ = sut.build_decoder(self.s["decoder"], self.code, self.s["weights"], self.model)
        return type(self.dec).__name__

    def read(self):
        raw, er = self.dev.get_sample()
        self.raw = np.array(raw)
        self.res = sut.MeasurementSample.from_code_and_raw_results(self.code, raw, er, logical_ancilla=self.s["ancilla"])
        return [raw, er, self.res.syndrome, self.res.logical_op_toggle, self.res.erased_qubits]

    def do(self, op):
        k = op[0]
        if k == "gen":
            return self.gen()
        if k == "run":
            self.dev.run(self.circ)
            return self.read()
        if k == "sample":
            return None if self.res is None else self.read()
        if k == "step":
            if self.s["backend"] != "clifford" or self.res is None:
                return None
            n = op[1]
            self.dev.reset_backend()
            for _ in self.dev:
                n -= 1
                if n < 0:
                    break
            st = np.array(self.dev.state.tableau)
            return [list(st.shape), st.astype(int), self.dev.get_sample()]
        if k == "decoder":
            return self.build()
        if k == "decode":
            if self.res is None:
                return None
            self.cor = None
            er = None if self.s["decoder"] == "PyMatchingDecoder" else self.res.erased_qubits
            self.cor = self.dec.decode(er, self.res.syndrome)
            return self.cor
        if k == "judge":
            if self.cor is None:
                return None
            return bool(sut.check_success(self.code, self.cor, self.res.logical_op_toggle, self.s["lops"]))
        if k == "table":
            what, col, a, v, grows, frame = op[1:]
            if what == "add":
                try:
                    self.ed.add_qubit_error([self.names.all[a % len(self.names.all)]], col, [v])
                except ValueError:
                    self.ed.update_qubit_error(self.names.all[a % len(self.names.all)], col, v)
            elif what == "gate":
                for g, on, errs, ps in self.names.gate_rows(grows):
                    self.ed.add_gate_error(g, on, errs, ps)
            else:
                self.ed.update(self.names.frame(frame), None, False)
            return sorted((str(a), sorted(str((q, sorted(r.items()))) for q, r in b.items())) for a, b in tables.plain(self.ed.error_data_dict).items())
        if k == "exp":
            ex = frontend.ExperimentConfig.from_dict({
                "general": {"logical_op": op[1], "qec_property": ["logical_error_rate"], "seed": op[4]},
                "device": {"name": op[3], "shots": max(1, op[2])},
                "code": {"name": "RepetitionCode", "size": 3, "rounds": 2},
                "errors": {"qubit_errors": {c: {"distribution": "gaussian", "params": [0.1, 0.02]} for c in ("X", "Z", "measurement")}},
                "decoder": {"name": "UnionFindDecoder", "weighted": False},
            })
            ex.build()
            r = ex.run()
            return [r, sut.gate_list(ex.circuit)]
        if k == "text":
            txt = str(self.circ)
            again = circuit.Circuit.from_str(txt)
            return [txt, len(again.gates)]
        raise Invalid("operation")


def make(case):
    if not case["codes"] or not case["sessions"]:
        raise Invalid("empty")
    codes = [sut.build_code(c) for c in case["codes"]]
    return codes, [Session(s, codes, case["codes"]) for s in case["sessions"]]


def alone(case, i):
    """Results of session i running alone, in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            _, ses = make(case)
            sut.set_rng(case["sessions"][i]["seed"])
            try:
                ses[i](lambda: None)
                data = json.dumps(["ok", ses[i].out])
            except Invalid as e:
                data = json.dumps(["invalid", str(e)])
            except BaseException as e:  # noqa: B902
                data = json.dumps(["error", f"{type(e).__name__}: {e}"])
            with os.fdopen(w, "w") as f:
                f.write(data)
        except BaseException:  # noqa: B902
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data)


def run(case, ctx):
    cwd = os.getcwd()
    os.chdir("/tmp")
    try:
        _run(case, ctx)
    finally:
        os.chdir(cwd)


def _run(case, ctx):
    want = []
    for i in range(len(case["sessions"])):
        st, out = alone(case, i)
        if st == "invalid":
            raise Invalid(out)
        ctx.check(st == "ok", "session-fails-alone", out)
        want.append(out)
    codes, ses = make(case)
    before = [model_of(c) for c in codes]
    rngs = [sut.SeamRNG(s["seed"]) for s in case["sessions"]]
    cur = [None]

    def swap(i):
        if cur[0] is not None:
            rngs[cur[0]] = plaquette.rng
        plaquette.rng = rngs[i]
        cur[0] = i

    sc = Sched(ses, swap)
    sc.run(case["schedule"], lambda w: ctx.state(w))
    ctx.fault("switch inside a library call", sc.inside)
    ctx.fault("switch between operations", max(0, sc.switches - sc.inside - len(ses)))
    for i, s in enumerate(ses):
        ctx.steps += len(s.out)
        for a, b in zip(s.out, want[i]):
            ctx.check(
                a == b, "session-disturbed",
                lambda: f"session {i} {case['sessions'][i]['backend']}/{case['sessions'][i]['decoder']} "
                f"{s.cspec}: operation {a[0]} ({a[1]}) gave {str(a[2])[:300]}, alone {str(b[2])[:300]}",
            )
        ctx.check(len(s.out) == len(want[i]), "session-disturbed", f"session {i} ended early")
        ctx.log(s.out)
    for c, b in zip(codes, before):
        ctx.check(model_of(c) == b, "shared-code-changed", "")
    if len({s["code"] for s in case["sessions"] if s["share"]}) < sum(s["share"] for s in case["sessions"]):
        ctx.probe("sessions sharing a code object")
    ctx.rounds += sum(codes[s["code"]].n_rounds for s in case["sessions"])


def model_of(code):
    m = CodeModel(code)
    return (m.stabs, m.logs, m.data_ids, m.anc_ids, m.rounds)


__all__ = ["Violation"]
