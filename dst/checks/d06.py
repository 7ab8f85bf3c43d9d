"""D06: an interrupted operation leaves everything usable."""
import os
import shutil
import tempfile

import numpy as np

from dst import sut
from dst.core import Invalid, Violation
from dst.faults import ALL, Memory, gen_faults
from dst.interrupt import interrupted, pick_line
from dst.model import CodeModel
from plaquette import frontend

ID = "D06"
CASES = {"quick": 1000, "thorough": 18000}
RULE = (
    "one case = one code object shared by up to 2 devices and 3 decoders, and a history of 3-14 operations "
    "(run a memory experiment with chosen faults, decode, judge, build a decoder, generate a circuit, build a "
    "code, a whole configured experiment); each operation may first be interrupted, up to three times, by a "
    "KeyboardInterrupt or MemoryError raised at an executed library line (uniform over the execution or over "
    "the distinct lines), and is then performed and verified; distinct = different event log"
)
STATES = "distinct (operation, interrupted function, exception, next operation) tuples"
REAL = ["codes", "circuit generator", "devices with both backends", "syndrome graphs", "all decoders", "configured experiments"]
STUB = ["random source (seeded)", "probabilities of error instructions (set to 0 or 1)"]
ASSUME = [
    "exceptions strike at line boundaries of the library (the points at which Python handles signals)",
    "after an interrupted run without reset only a run with reset is required to be correct",
]
FROZEN = ("weights",)
OPS = ["run"] * 5 + ["decode"] * 5 + ["build"] * 2 + ["gen"] * 2 + ["code", "judge", "experiment"]


def gen(rng, i):
    spec = sut.gen_code(rng, max_rounds=rng.choice([1, 2, 3]), small=True, huge=0.005)
    nd, nv = rng.choice([1, 2, 3]), rng.choice([1, 1, 2])
    decs = [rng.choice(sut.DECODERS) for _ in range(nd)]
    kinds = [k for k in ALL if rng.random() < 0.5]
    ops = []
    for _ in range(rng.randint(3, 14)):
        k = rng.choice(OPS)
        ints = [
            [rng.choice(["uniform", "line", "line"]), rng.randrange(10**6), rng.randrange(10**4),
             rng.choice(["KeyboardInterrupt", "MemoryError"])]
            for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 3]))
        ]
        op = dict(k=k, on=rng.randrange(6), ints=ints, warm=rng.random() < 0.5)
        if k == "run":
            op.update(circ=rng.randrange(2), faults=gen_faults(rng, spec, rng.choice([0, 1, 3, 8]), kinds or ["pauli"]), new=rng.random() < 0.3)
        elif k in ("decode", "build", "judge"):
            op["shot"] = sut.gen_shot(rng, wild=0.03)
        elif k == "gen":
            op.update(ancilla=rng.random() < 0.5, noisy=rng.random() < 0.6, kept=rng.random() < 0.5)
        elif k == "experiment":
            op.update(rate=rng.choice([0.0, 1.0]), shots=rng.choice([1, 3]), lop=rng.choice("XZ"), dev=rng.choice(sut.BACKENDS), rounds=rng.choice([1, 2]), dec=rng.choice(["UnionFindDecoder", "FusionBlossomDecoder", "PyMatchingDecoder"]))
        ops.append(op)
    return dict(
        code=spec, ops=sut.gen_logical_ops(rng, spec), ancilla=rng.random() < 0.5, kinds=kinds,
        decoders=decs, weights=[sut.gen_weights(rng) for _ in decs],
        backends=[rng.choice(sut.BACKENDS) for _ in range(nv)], history=ops,
    )


class Lazy:
    """A session: everything is built from one code object."""

    def __init__(self, case, code=None):
        self.case = case
        self.spec = case["code"]
        self.mem = Memory(self.spec, case["ops"], case["ancilla"], code=code)
        self.code = self.mem.code
        self.model = self.mem.model
        self.ideal_circ = self.mem.ideal()
        self.ideal = sut.gate_list(self.ideal_circ)
        self.qe, self.ge = self.mem.tagged(set(case["kinds"]))
        self.circ0 = self.mem.noisy(self.qe, self.ge)
        self.located = self.mem.locate(self.circ0, self.qe, self.ge)
        self.devs = {}
        self.decs = {}
        self.circs = {}
        self.makers = {}
        self.exps = {}

    def dev(self, j):
        b = self.case["backends"]
        j %= len(b)
        if j not in self.devs:
            kw = {} if b[j] == "clifford" else {"batch_size": 2}
            self.devs[j] = sut.Device(b[j], **kw)
        return self.devs[j]

    def dec(self, j):
        j %= len(self.case["decoders"])
        if j not in self.decs:
            self.decs[j] = self.build(j)
        return self.decs[j]

    def build(self, j):
        j %= len(self.case["decoders"])
        return sut.build_decoder(self.case["decoders"][j], self.code, self.case["weights"][j], self.model)

    def experiment(self, op):
        key = str({k: v for k, v in op.items() if k not in ("ints", "warm")})
        if key not in self.exps:
            self.exps[key] = Exp(op)
        return self.exps[key]

    def maker(self, op):
        """A generator which is kept for later requests."""
        key = op["ancilla"], op["noisy"]
        if key not in self.makers:
            tables = self.mem.copy_tables(self.qe, self.ge) if op["noisy"] else ({}, {})
            self.makers[key] = sut.QECCircuitGenerator(self.code, *tables, logical_ancilla=op["ancilla"])
        return self.makers[key]

    def faulty(self, faults):
        fs = self.mem.dedup(self.mem.concrete(faults))
        kinds = set(self.case["kinds"])
        fs = [f for f in fs if {"P": "pauli", "E": "erasure", "F": "measurement"}.get(f[0], f[1]) in kinds]
        return fs, self.mem.rewrite(self.circ0, self.located, fs)

    def snapshot(self):
        m = CodeModel(self.code)
        lat = self.code.lattice
        return (
            m.n, m.m, m.stabs, m.logs, m.data_ids, m.anc_ids, self.code.n_rounds, self.code.n_stabgens,
            self.code.n_data_qubits, self.code.n_ext_qubits, self.code.n_logical_ops, lat.n_time_steps,
            [np.asarray(s).tobytes() for s in self.code.stabilisers],
            [np.asarray(s).tobytes() for s in self.code.logical_ops],
            [(str(e.factor), e.data.equbit_idx) for v in lat.stabgens for e in v.edges],
        )


def run(case, ctx):
    tmp = tempfile.mkdtemp(prefix="dst-d06.", dir="/tmp")
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        _run(case, ctx)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def _run(case, ctx):
    if not case["decoders"] or not case["backends"] or len(case["weights"]) < len(case["decoders"]):
        raise Invalid("decoders")
    sut.check_logical_ops(case["ops"], case["code"])
    if any(g not in ALL for g in case["kinds"]):
        raise Invalid("kinds")
    sut.set_rng(case["seed"])
    s = Lazy(case)
    twin = Lazy(case)
    before = s.snapshot()
    model = s.model
    prev = "start"
    for n, op in enumerate(case["history"]):
        k = op["k"]
        ctx.steps += 1
        for how, x, y, exc in op["ints"]:
            fn = prepare(s, op, case)
            warm = prepare(s if op["warm"] else twin, op, case, other=not op["warm"])
            at, total = pick_line(warm[0], how, x, y)
            where = None
            try:
                fired, _ = interrupted(fn[0], at, exc, ctx, k)
                where = fired
            except Violation:
                raise
            except Exception as e:  # noqa: B902
                # a refused input (undecodable, erasures for a matching decoder)
                if not fn[2]:
                    raise
                where = type(e).__name__
            ctx.log(n, k, at, where)
            ctx.state(prev, k, at * 20 // (total + 1), exc)
            fn[1]()
            ctx.check(s.snapshot() == before, "code-changed", f"the code changed by the interrupted {k}")
            prev = f"{k}!{exc}"
        verify(s, op, case, ctx, prev)
        ctx.check(s.snapshot() == before, "code-changed", f"the code changed by {k}")
        prev = k
    # everything still works
    for op in list({o["k"]: o for o in case["history"]}.values()):
        verify(s, op, case, ctx, "end")


def prepare(s, op, case, other=False):
    """(the operation, check of its inputs, may it refuse)"""
    k = op["k"]
    nothing = lambda: None  # noqa: E731
    if k == "run":
        _, circ = circuit_of(s, op)
        dev = s.dev(op["on"])
        gates = sut.gate_list(circ)

        def go():
            dev.run(circ)
            dev.get_sample()

        def same():
            if sut.gate_list(circ) != gates:
                raise Violation("circuit-changed", "an interrupted run changed the circuit")

        return go, same, False
    if k == "gen" and op.get("kept"):
        maker = s.maker(op)
        return (lambda: maker.get_circuit(case["ops"])), nothing, False
    if k == "gen":
        qe, ge = s.mem.copy_tables(s.qe, s.ge) if op["noisy"] else ({}, {})
        return (lambda: sut.make_circuit(s.code, qe, ge, case["ops"], op["ancilla"])), nothing, False
    if k == "code":
        return (lambda: sut.build_code(s.spec)), nothing, False
    if k == "experiment":
        return s.experiment(op).go, nothing, False
    if k == "build":
        return (lambda: s.build(op["on"])), nothing, False
    dec, flips = s.dec(op["on"])
    sh = sut.Shot(s.model, op["shot"], flips=flips)
    e, syn = sh.arrays()
    e0, s0 = e.copy(), syn.copy()

    def same():
        if not (np.array_equal(e, e0) and np.array_equal(syn, s0)):
            raise Violation("input-changed", "an interrupted decoding changed its inputs")

    return (lambda: dec.decode(e, syn)), same, True


def circuit_of(s, op):
    key = (op["circ"] % 2, str(op["faults"]))
    if op["new"] or key not in s.circs:
        s.circs[key] = s.faulty(op["faults"])
    return s.circs[key]


class Exp:
    """A configured experiment: a repetition code with X errors that strike surely or never."""

    def __init__(self, op):
        self.rate = op["rate"]
        self.ex = frontend.ExperimentConfig.from_dict({
            "general": {"logical_op": op["lop"], "qec_property": ["logical_error_rate"], "seed": 5},
            "device": {"name": op["dev"], "shots": op["shots"]},
            "code": {"name": "RepetitionCode", "size": 3, "rounds": max(1, op["rounds"])},
            "errors": {"qubit_errors": {"X": {"distribution": "constant", "params": [op["rate"]]}}},
            "decoder": {"name": op["dec"], "weighted": False},
        })
        m = CodeModel(sut.LatticeCode.make_repetition(n_rounds=1, size=3))
        # X on every data qubit in every round: it commutes with the stabilizers, so nothing is
        # seen and nothing is corrected
        p = (2**m.n - 1 if op["rate"] == 1.0 and op["rounds"] % 2 else 0, 0)
        assert m.syndrome_of((2**m.n - 1, 0)) == 0
        self.expected = float(any(sut.logical_effect(m, ["XZ".index(op["lop"])], p)))

    def go(self):
        self.ex.build()
        return self.ex.run()


def verify(s, op, case, ctx, prev):
    k, m, spec = op["k"], s.model, case["code"]
    if k == "run":
        fs, circ = circuit_of(s, op)
        dev = s.dev(op["on"])
        dev.run(circ)
        raw, er = dev.get_sample()
        rb = sut.bits(raw, s.mem.lay.total, "raw results")
        t0, s0 = s.mem.lay.split(rb)
        syn, tog, era = s.mem.expect(fs, s.ideal)
        ctx.rounds += m.rounds + 1
        ctx.log(rb, None if er is None else sut.bits(er, None, "erasure record"))
        if "erasure" in case["kinds"]:
            eb = sut.bits(er, m.rounds * m.n, "erasure record")
            ctx.check(eb == [b for row in era for b in row], "erasure-flags", lambda: f"after {prev}: {eb}")
        else:
            ctx.check(er is None, "erasure-flags", lambda: f"after {prev}: {er}")
        diff = s.mem.pack(s0, t0) ^ s.mem.pack(syn, tog)
        ctx.check(diff in s.mem.erasure_span(era), "record-differs",
                  lambda: f"{spec} after {prev}, faults {fs[:5]}: {s0} {t0}, expected {syn} {tog}")
    elif k == "gen":
        qe, ge = s.mem.copy_tables(s.qe, s.ge) if op["noisy"] else ({}, {})
        if op.get("kept"):
            got = sut.gate_list(s.maker(op).get_circuit(case["ops"]))
            ctx.probe("generator used again")
        else:
            got = sut.gate_list(sut.make_circuit(s.code, qe, ge, case["ops"], op["ancilla"]))
        want = sut.gate_list(sut.make_circuit(sut.build_code(spec), *(s.mem.copy_tables(s.qe, s.ge) if op["noisy"] else ({}, {})), case["ops"], op["ancilla"]))
        ctx.check(got == want, "circuit-differs", lambda: f"{spec} after {prev}: the code generates another circuit than a fresh one")
        strip = [g for g in got if g[0] in ("X", "Y", "Z", "H", "R", "M", "CX", "CZ")]
        if op["ancilla"] == case["ancilla"]:
            ctx.check(strip == s.ideal, "circuit-differs", f"after {prev}: other ideal gates")
        ctx.log(len(got))
    elif k == "code":
        mm = CodeModel(sut.build_code(spec))
        ctx.check(not mm.problems(), "invalid-code", lambda: f"{spec} after {prev}: {mm.problems()[:3]}")
        ctx.check((mm.stabs, mm.logs) == (m.stabs, m.logs), "code-differs", f"{spec} after {prev}")
    elif k == "experiment":
        ex = s.experiment(op)
        r = ex.go()
        ctx.check(r == ex.expected, "error-rate", lambda: f"after {prev}: logical error rate {r}, expected {ex.expected}")
        ctx.log(r)
    else:
        if k == "build":
            s.decs[op["on"] % len(case["decoders"])] = s.build(op["on"])
        dec, flips = s.dec(op["on"])
        name = case["decoders"][op["on"] % len(case["decoders"])]
        sh = sut.Shot(m, op["shot"], flips=flips)
        if name == "PyMatchingDecoder" and sh.ne:
            return
        e, syn = sh.arrays()
        ref, _ = sut.build_decoder(name, sut.build_code(spec), case["weights"][op["on"] % len(case["decoders"])], m)
        ok = sh.decodable(flips)
        res = []
        for d in (dec, ref):
            try:
                cor = d.decode(e.copy(), syn.copy())
            except Exception:  # noqa: B902
                if ok:
                    raise
                res.append(None)
                continue
            res.append(sut.pauli_from_tableau(cor, m.n))
        ctx.check(res[0] == res[1], "decoder-differs", lambda: f"{name} {spec} after {prev}: {res[0]}, a fresh one gives {res[1]}")
        if res[0] is not None:
            ctx.check(ok and m.syndrome_of(res[0]) == sh.parity, "invalid-answer", lambda: f"{name} {spec} after {prev}: {res[0]}")
        ctx.log(res[0])
        if k == "judge" and res[0] is not None:
            ops = case["ops"]
            tog = sut.logical_effect(m, s.mem.lay.idx, sh.total)
            v = sut.check_success(s.code, cor, np.array(tog, dtype=np.uint8), ops)
            want = all(a == b for a, b in zip(tog, sut.logical_effect(m, s.mem.lay.idx, res[0])))
            ctx.check(bool(v) == want, "verdict", lambda: f"{spec} after {prev}: {v}, expected {want}")
