"""Q01: noise-free memory experiments are silent."""
import copy

import numpy as np

from dst import sut
from dst.core import Invalid
from dst.model import CodeModel, Layout, Span
from plaquette.codes import StabilizerCode

ID = "Q01"
CASES = {"quick": 2600, "thorough": 85000}
RULE = (
    "one case = code family, size, rounds, logical operators, read-out mode, backend, a mode and "
    "seed of the random source that decides all measurement outcomes, and whether zero-probability "
    "error instructions are present; every shot is judged; distinct = different event log "
    "(circuit shape and all outcomes)"
)
STATES = "distinct (configuration, first-round stabilizer outcomes) pairs reached"
REAL = ["codes", "lattices", "circuit generator", "Device", "clifford backend", "stim backend", "decoders", "result processing"]
STUB = ["random source (seeded, optionally biased towards extreme outcomes)"]
ASSUME = [
    "commuting logical operators, one per logical qubit",
    "read-out without ancilla only for operators of equal weight without different factors on a qubit (user-defined codes)",
    "sizes up to the listed maxima",
]

PARAMS = {
    "five": lambda s: (5, 4, 1),
    "shor": lambda s: (9, 8, 1),
    "repetition": lambda s: (s, s - 1, 1),
    "planar": lambda s: (s * s + (s - 1) ** 2, s * s + (s - 1) ** 2 - 1, 1),
    "rotated": lambda s: (s * s, s * s - 1, 1),
    "toric": lambda s: (2 * s * s, 2 * s * s, 2),
}


def gen(rng, i):
    small = rng.random() < 0.7
    spec = sut.gen_code(rng, max_rounds=rng.choice([1, 2, 3, 4, 6]), small=small, custom=0.2, mix=True, huge=0.03)
    return dict(
        code=spec,
        ops=sut.gen_logical_ops(rng, spec),
        ancilla=rng.random() < 0.5,
        backend=rng.choice(sut.BACKENDS),
        mode=rng.choice(["seeded", "seeded", "zeros", "ones"]),
        shots=rng.choice([1, 2, 4]),
        zero_noise=rng.random() < 0.3,
        sequential=rng.random() < 0.15,
        # what the same generator was asked for before, refused requests included
        again=[rng.choice([sut.gen_logical_ops(rng, spec), "Q", "", [99]]) for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.3 else None,
        decoder=rng.choice(sut.DECODERS),
        weighted=rng.random() < 0.5,
        damage=[[rng.randrange(200), rng.randrange(200), rng.choice("XYZ")] for _ in range(rng.choice([0, 1, 1, 2]))],
        drop=rng.randrange(200) if rng.random() < 0.3 else None,
        other=sut.gen_code(rng, max_rounds=2, small=True, custom=0.2) if rng.random() < 0.3 else None,
    )


def rank(ops, n):
    sp = Span()
    return sum(sp.add(x | z << n) for x, z in ops)


def verdicts(case, ctx, code, model):
    """A code recognises invalid operators, equal codes and unusable choices of operators."""
    n, k = model.n, model.k

    def rows(ops):
        return [np.array([v >> q & 1 for v in op for q in range(n)] + [0], dtype="u1") for op in ops]

    bad = copy.copy(model)
    ops = list(model.stabs) + list(model.logs)
    for row, q, f in case.get("damage") or ():
        j, b = row % len(ops), 1 << q % n
        ops[j] = (ops[j][0] ^ b * (f != "Z"), ops[j][1] ^ b * (f != "X"))
    bad.stabs, bad.logs = ops[: model.m], ops[model.m :]
    if case.get("drop") is not None and model.m > 1:
        j = case["drop"] % model.m
        bad.stabs = bad.stabs[:j] + bad.stabs[j + 1 :]
    bad.m = len(bad.stabs)
    twin = StabilizerCode(rows(bad.stabs), rows(bad.logs))
    prob = bad.problems()
    full = rank(bad.stabs, n) == n - k
    for ranked in (False, True):
        want = not prob and (full or not ranked)
        try:
            twin.check(rank=ranked)
            got = True
        except (AssertionError, ValueError):
            got = False
        ctx.check(got == want, "validity-verdict",
                  lambda: f"check(rank={ranked}) accepts={got} for {bad.stabs}, {bad.logs}: {prob[:3]}, full rank {full}")
    ctx.probe("invalid code" if prob or not full else "valid code")
    same = (bad.stabs, bad.logs) == (model.stabs, model.logs)
    ctx.check((twin == code) is same and (code == twin) is same, "equality",
              lambda: f"{twin == code} for codes whose operators are {'equal' if same else 'different'}")
    if case.get("other"):
        code2 = sut.build_code(case["other"])
        m2 = CodeModel(code2)
        same = (m2.n, m2.stabs, m2.logs) == (n, model.stabs, model.logs)
        ctx.check((code2 == code) is same, "equality", lambda: f"{case['other']} == {case['code']} is {code2 == code}")
    for ops in ("X" * (k + 1), "X" * (k - 1), "Y" * k, [2 * k] * k, [-1] + [2 * i for i in range(1, k)], list(range(k + 1))):
        try:
            got = code.logical_ops_to_indices(ops)
        except ValueError:
            continue
        ctx.check(False, "operators-accepted", lambda: f"{ops} accepted as {got}")
    for v in code.lattice.equbits:
        ctx.check(code.lattice.get_vertex_at_pos(v.pos) is v, "vertex-lookup", lambda: f"{v}")


def run(case, ctx):
    spec = case["code"]
    sut.check_logical_ops(case["ops"], spec)
    sut.set_rng(case["seed"], case["mode"])
    code = sut.build_code(spec)
    if case["sequential"]:
        code.lattice.n_time_steps = None
    model = CodeModel(code)
    n, m, k = map(sum, zip(*(PARAMS[p["fam"]](p.get("size")) for p in sut.parts(spec))))
    if spec["fam"] == "custom":
        want = sut.custom_operators(spec)
        ctx.check((model.n, model.stabs, model.logs) == want, "custom-code",
                  lambda: f"{spec}: lattice has {model.stabs}, {model.logs}; defined with {want}")
        ctx.probe("user-defined code")
    for what, rows, ops in (("stabilizers", code.stabilisers, model.stabs), ("logical operators", code.logical_ops, model.logs)):
        got = [sut.pauli_from_tableau(r, model.n, what) for r in rows]
        ctx.check(got == ops, "operators-differ-from-lattice", lambda: f"{spec}: {what} {got}, lattice {ops}")
    ctx.check(
        (model.n, model.m, model.k) == (n, m, k),
        "code-parameters",
        f"{spec}: data {model.n}, stabilizers {model.m}, logical {model.k}; expected {(n, m, k)}",
    )
    prob = model.problems()
    ctx.check(not prob, "invalid-code", f"{spec}: {prob[:3]}")
    plain = case.get("plain")  # known finding: operators of unequal weight without ancilla
    verdicts(case, ctx, code, model)
    ancilla = case["ancilla"] or not plain and sut.needs_ancilla(model, case["ops"])
    qe = {}
    if case["zero_noise"]:
        qe = {
            "pauli": {q: {"x": 0.0, "y": 0.0, "z": 0.0} for q in model.data_ids},
            "erasure": {q: {"p": 0.0} for q in model.data_ids},
            "measurement": {q: {"p": 0.0} for q in model.anc_ids},
        }
        ctx.probe("zero-probability error instructions")
    if case.get("again"):
        maker = sut.QECCircuitGenerator(code, qe, {}, logical_ancilla=ancilla)
        former = []
        for request in case["again"]:
            try:
                c = maker.get_circuit(request)
            except (ValueError, IndexError):
                ctx.fault("refused choice of logical operators")
                continue
            former.append((c, sut.gate_list(c)))
        circ = maker.get_circuit(case["ops"])
        ctx.probe("generator used again")
        ctx.check(all(sut.gate_list(c) == g for c, g in former), "generator-changes-former-circuit", lambda: f"{spec}")
        ctx.check(
            sut.gate_list(circ) == sut.gate_list(sut.make_circuit(code, qe, {}, case["ops"], ancilla)),
            "generator-depends-on-history", lambda: f"{spec}: {case['ops']} after {case['again']}",
        )
    else:
        circ = sut.make_circuit(code, qe, {}, case["ops"], ancilla)
    lay = Layout(model, case["ops"], ancilla)
    dev = sut.Device(case["backend"])
    name = case["decoder"]
    dec = None
    if not spec.get("mix"):  # otherwise, faults may trigger more stabilizers than decoders allow
        dec = sut.make_decoder(
            name, code, None, weighted=False if name == "UnionFindNoWeights" else case["weighted"] or None
        )
    ctx.probe("schedule:" + ("parallel" if isinstance(code.lattice.n_time_steps, int) else "sequential"))
    for shot in range(max(1, case["shots"])):
        dev.run(circ)
        raw, er, res = sut.sample(code, dev, ancilla)
        rb = sut.bits(raw, lay.total, "raw results")
        tog, syn = lay.split(rb)
        ctx.log(rb)
        ctx.rounds += spec["rounds"] + 1
        ctx.steps += len(circ.gates)
        ctx.state(spec["fam"], spec.get("size"), str(case["ops"]), ancilla, tuple(rb[lay.nlog : lay.nlog + model.m]))
        ctx.check(not any(map(any, syn)), "syndrome-without-noise", lambda: f"{spec} shot {shot}: syndrome from raw record {syn}")
        ctx.check(not any(tog), "toggle-without-noise", lambda: f"{spec} ops {case['ops']} shot {shot}: toggles {tog}")
        s2 = sut.matrix(res.syndrome, (spec["rounds"], model.m), "syndrome")
        ctx.check(s2 == syn, "sample-syndrome", lambda: f"sample reports {s2}")
        t2 = sut.bits(res.logical_op_toggle, len(tog), "toggles")
        ctx.check(t2 == tog, "uneven-readout" if plain else "sample-toggle", lambda: f"sample reports toggles {t2}, raw record gives {tog}")
        st = sut.matrix(res.stabilizer_gen, (spec["rounds"] + 1, model.m), "stabilizer outcomes")
        ctx.check(st[0] == rb[lay.nlog : lay.nlog + model.m] and all(r == st[0] for r in st),
                  "stabilizers-do-not-repeat", lambda: f"{st}")
        li = sut.bits(res.logical_op_initial, len(tog), "initial logical")
        lf = sut.bits(res.logical_op_final, len(tog), "final logical")
        o, want = 0, []
        for w in lay.w:
            want.append(sum(rb[o : o + w]) & 1)
            o += w
        ctx.check(li == want and lf == want, "logical-values", lambda: f"initial {li} final {lf}, measured {want}")
        if case["zero_noise"]:
            ctx.check(er is not None and not any(sut.bits(er, model.n * spec["rounds"], "erasure")), "erasure-without-noise", f"{er}")
            erased = res.erased_qubits
        else:
            ctx.check(er is None or len(er) == 0 or not any(er), "erasure-without-noise", f"{er}")
            erased = None
        if dec is None:
            continue
        cor = dec.decode(erased, res.syndrome)
        ok = sut.check_success(code, cor, res.logical_op_toggle, case["ops"])
        ctx.check(bool(ok), "failure-without-noise", f"{name} {spec} {case['ops']}")
        ctx.check(sut.pauli_from_tableau(cor, model.n) == (0, 0), "correction-without-noise", f"{name}: {cor}")
