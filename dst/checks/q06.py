"""Q06: the success verdict tells the truth."""
import numpy as np

from dst import sut
from dst.faults import ALL, Memory, gen_faults

ID = "Q06"
CASES = {"quick": 3500, "thorough": 90000}
RULE = (
    "one case = code, rounds, logical operators, read-out mode, backend, decoder, weighting and a fault "
    "history of any weight injected into the circuit; the decoder's correction and arbitrary other "
    "corrections are judged; distinct = different event log (histories, outcomes, corrections, verdicts)"
)
STATES = "distinct (code, operators, toggles, effect of the correction) combinations"
REAL = ["codes", "circuit generator", "Device", "clifford backend", "stim backend", "result processing", "all four decoders", "check_success"]
STUB = ["random source (seeded)", "probabilities of error instructions (set to 0 or 1)"]
ASSUME = ["for erasures, whose Pauli is random, the toggles of the raw record are the truth"]


def gen(rng, i):
    spec = sut.gen_code(rng, max_rounds=rng.choice([1, 2, 3, 4]), small=rng.random() < 0.8, custom=0.2, huge=0.03)
    kinds = [k for k in ALL if rng.random() < 0.5] or ["pauli"]
    return dict(
        code=spec, ops=sut.gen_logical_ops(rng, spec), ancilla=rng.random() < 0.5,
        backend=rng.choice(sut.BACKENDS), decoder=rng.choice(sut.DECODERS),
        weights=sut.gen_weights(rng), kinds=kinds,
        faults=gen_faults(rng, spec, rng.choice([0, 1, 2, 3, 5, 8, 15, 40]), kinds),
        others=[[[rng.randrange(120), rng.choice("XYZ")] for _ in range(rng.randint(0, 6))] for _ in range(2)],
        shots=rng.choice([1, 1, 2]),
    )


FROZEN = ("weights", "kinds")


def run(case, ctx):
    spec = case["code"]
    sut.check_logical_ops(case["ops"], spec)
    sut.set_rng(case["seed"])
    mem = Memory(spec, case["ops"], case["ancilla"])
    m, R = mem.model, mem.rounds
    ideal = sut.gate_list(mem.ideal())
    kinds = set(case["kinds"])
    faults = [
        f for f in mem.dedup(mem.concrete(case["faults"]))
        if {"P": "pauli", "E": "erasure", "F": "measurement"}.get(f[0], f[1]) in kinds
    ]
    qe, ge = mem.tagged(kinds)
    circ0 = mem.noisy(qe, ge)
    circ = mem.rewrite(circ0, mem.locate(circ0, qe, ge), faults)
    syn, tog, era = mem.expect(faults, ideal)
    for f in faults:
        ctx.fault({"P": "data Pauli", "E": "erasure", "F": "readout flip"}.get(f[0], f"gate fault {f[1]}"))
    erased = any(map(any, era))
    gate = any(f[0][0] == "G" for f in faults)
    dec, flips = sut.build_decoder(case["decoder"], mem.code, case["weights"], m)
    dev = sut.Device(case["backend"])
    idx = mem.lay.idx
    # every logical operator, measured or not (known when only data faults struck)
    total = [0, 0]
    for f in faults:
        if f[0] == "P":
            total[0] ^= (f[3] in "XY") << f[2]
            total[1] ^= (f[3] in "YZ") << f[2]
    for shot in range(max(1, case["shots"])):
        dev.run(circ)
        raw, er = dev.get_sample()
        rb = sut.bits(raw, mem.lay.total, "raw results")
        t0, s0 = mem.lay.split(rb)
        res = sut.MeasurementSample.from_code_and_raw_results(mem.code, raw, er, logical_ancilla=mem.ancilla)
        ctx.log(faults, rb)
        ctx.rounds += R + 1
        ctx.steps += len(circ.gates)
        truth = t0 if erased else tog
        if case["decoder"] == "PyMatchingDecoder":
            er2 = None
            if erased:
                ctx.probe("decoded without the erasure record")
        else:
            er2 = res.erased_qubits
        cors = []
        try:
            cors.append(("decoder", dec.decode(er2, res.syndrome)))
        except ValueError as ex:
            if flips:
                raise
            ctx.probe("refused by a decoder without readout errors")
            ctx.log("refused")
        for o in case["others"]:
            c = np.zeros(2 * m.n + 1, dtype="u1")
            for q, p in o:
                c[q % m.n] ^= p in "XY"
                c[m.n + q % m.n] ^= p in "YZ"
            cors.append(("arbitrary", c))
        for kind, cor in cors:
            p = sut.pauli_from_tableau(cor, m.n)
            want = truth == sut.logical_effect(m, idx, p)
            got = bool(sut.check_success(mem.code, cor, res.logical_op_toggle, case["ops"]))
            ctx.log(kind, p, got)
            ctx.state(spec["fam"], str(case["ops"]), tuple(truth), tuple(sut.logical_effect(m, idx, p)))
            ctx.check(
                got == want, "wrong-verdict",
                lambda: f"{case['decoder']} {spec} ops {case['ops']} ({kind} correction x={p[0]:b} z={p[1]:b}): "
                f"reported {'success' if got else 'failure'}; true toggles {truth}, "
                f"correction toggles {sut.logical_effect(m, idx, p)}",
            )
            ctx.probe(f"{kind} correction: " + ("success" if want else "logical error"))
            if not erased and not gate:
                allidx = list(range(2 * m.k))
                tall = sut.logical_effect(m, allidx, total)
                want = tall == sut.logical_effect(m, allidx, p)
                got = bool(sut.check_success(mem.code, cor, np.array(tall), None))
                ctx.check(got == want, "wrong-verdict-all-operators", lambda: f"{spec}: reported {got}, truth {want}")
