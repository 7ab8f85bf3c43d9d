"""Q02: injected faults appear exactly as stabilizer mechanics says."""
from dst import sut
from dst.core import Invalid
from dst.faults import ALL, P1, P2, Memory, gen_faults

ID = "Q02"
CASES = {"quick": 3000, "thorough": 85000}
RULE = (
    "one case = code, rounds, logical operators, read-out mode, backend, enabled error kinds and a "
    "fault history (data Paulis, erasures, readout flips, one- and two-qubit gate Paulis at chosen "
    "rounds and places), injected either by rewriting the generator's error instructions to "
    "probability 0/1 or by configuring rates 0/1; distinct = different event log (fault history "
    "and all outcomes)"
)
STATES = "distinct (code, syndrome and toggle record) pairs reached"
REAL = ["codes", "lattices", "circuit generator", "Device", "clifford backend", "stim backend", "result processing"]
STUB = ["random source (seeded)", "probabilities of error instructions (set to 0 or 1)"]
ASSUME = [
    "reference: Pauli-frame propagation through the noise-free circuit and code model read from the lattice couplings",
    "gate faults act directly after their gate",
]


def gen(rng, i):
    spec = sut.gen_code(rng, max_rounds=rng.choice([1, 2, 3, 4, 5]), small=rng.random() < 0.75, custom=0.2, mix=True, huge=0.03)
    kinds = [k for k in ALL if rng.random() < 0.6] or ["pauli"]
    mode = rng.choice(["rewrite", "rewrite", "rewrite", "config"])
    dens = rng.choice([0, 1, 1, 2, 3, 5, 8, 20, 60])
    return dict(
        code=spec,
        ops=sut.gen_logical_ops(rng, spec),
        ancilla=rng.random() < 0.5,
        sequential=rng.random() < 0.2,
        backend=rng.choice(sut.BACKENDS),
        rngmode=rng.choice(["seeded", "seeded", "zeros", "ones"]),
        mode=mode,
        kinds=kinds,
        faults=gen_faults(rng, spec, dens, kinds),
        shots=rng.choice([1, 1, 2, 3]),
    )


FROZEN = ("kinds",)


def configured(mem, faults):
    """Rates 0/1 in the error tables; returns tables and the faults of every round."""
    m, R = mem.model, mem.rounds
    qe, ge, real = {}, {}, {}
    for f in faults:
        if f[0] == "P":
            q = m.data_ids[f[2]]
            qe.setdefault("pauli", {})[q] = {f[3].lower(): 1.0}
            for t in range(R):
                real["P", t, f[2]] = ("P", t, f[2], f[3])
        elif f[0] == "E":
            qe.setdefault("erasure", {})[m.data_ids[f[2]]] = {"p": 1.0}
        elif f[0] == "F":
            qe.setdefault("measurement", {})[m.anc_ids[f[2]]] = {"p": 1.0}
            for t in range(R - 1):
                real["F", t, f[2]] = ("F", t, f[2])
        elif f[0] == "G1":
            a = m.anc_ids[f[3]]
            ge.setdefault(f[1], {})[a] = {f[5].lower(): 1.0}
            for t in range(R - 1):
                for o in range(2 if f[1] == "H" else 1):
                    real["G1", f[1], t, f[3], o] = ("G1", f[1], t, f[3], o, f[5])
        elif f[0] == "G2":
            key = (m.anc_ids[f[3]], m.data_ids[f[4]])
            ge.setdefault(f[1], {})[key] = {f[5].lower(): 1.0}
            for t in range(R - 1):
                real["G2", f[1], t, f[3], f[4]] = ("G2", f[1], t, f[3], f[4], f[5])
    faults = list(real.values())
    return qe, ge, faults


def run(case, ctx):
    spec = case["code"]
    sut.check_logical_ops(case["ops"], spec)
    sut.set_rng(case["seed"], case["rngmode"])
    mem = Memory(spec, case["ops"], case["ancilla"], case["sequential"])
    m, R = mem.model, mem.rounds
    ideal = sut.gate_list(mem.ideal())
    faults = mem.dedup(mem.concrete(case["faults"]))
    if case["mode"] == "config":
        qe, ge, faults = configured(mem, faults)
        circ = mem.noisy(qe, ge)
        era_q = {mem.didx[q] for q in qe.get("erasure", {})}
        has_era = bool(era_q)
        n_era = len(era_q)
    else:
        kinds = set(case["kinds"])
        qe, ge = mem.tagged(kinds)
        circ0 = mem.noisy(qe, ge)
        located = mem.locate(circ0, qe, ge)
        strip = [g for p, g in enumerate(sut.gate_list(circ0)) if p not in {x for x, _ in located}]
        ctx.check(strip == ideal, "noise-changes-gates", "the noisy circuit executes other ideal gates")
        faults = [f for f in faults if {"P": "pauli", "E": "erasure", "F": "measurement"}.get(f[0], f[1]) in kinds]
        circ = mem.rewrite(circ0, located, faults)
        has_era = "erasure" in kinds
        n_era = m.n
    for f in faults:
        ctx.fault({"P": "data Pauli", "E": "erasure", "F": "readout flip"}.get(f[0], f"gate fault {f[1]}"))
    syn, tog, era = mem.expect(faults, ideal)
    if case["mode"] == "config" and has_era:
        era = [[1 if q in era_q else 0 for q in range(m.n)] for _ in range(R)]
        ctx.fault("erasure", sum(map(sum, era)))
    span = mem.erasure_span(era)
    dev = sut.Device(case["backend"])
    want = mem.pack(syn, tog)
    for shot in range(max(1, case["shots"])):
        dev.run(circ)
        raw, er = dev.get_sample()
        rb = sut.bits(raw, mem.lay.total, "raw results")
        t0, s0 = mem.lay.split(rb)
        ctx.log(faults, rb)
        ctx.rounds += R + 1
        ctx.steps += len(circ.gates)
        ctx.state(spec["fam"], spec.get("size"), tuple(map(tuple, s0)), tuple(t0))
        if has_era:
            ctx.check(er is not None, "erasure-record-missing", "no erasure information returned")
            eb = sut.bits(er, R * n_era, "erasure record")
            flags = [eb[t * n_era : (t + 1) * n_era] for t in range(R)]
            expect_flags = era if n_era == m.n else [[1] * n_era] * R
            ctx.check(flags == expect_flags, "erasure-flags", lambda: f"flags {flags}, expected {expect_flags}")
        else:
            ctx.check(er is None or not any(sut.bits(er, None, "erasure record")), "erasure-flags", lambda: f"{er}")
        diff = mem.pack(s0, t0) ^ want
        if diff:
            ctx.check(
                diff in span, "record-differs",
                lambda: f"{spec} faults {faults[:6]}: syndrome {s0}, toggles {t0}; expected {syn}, {tog}"
                + (" up to erasures" if span.rank else ""),
            )
            ctx.probe("erasure changed the record")
        use = er if (has_era and n_era == m.n) else None
        ctx.log(None if use is None else [int(b) for b in use])
        res = sut.MeasurementSample.from_code_and_raw_results(
            mem.code, raw, use, logical_ancilla=mem.ancilla
        )
        ctx.check(sut.matrix(res.syndrome, (R, m.m), "syndrome") == s0, "sample-syndrome", lambda: f"{res.syndrome} vs {s0}")
        ctx.check(sut.bits(res.logical_op_toggle, len(t0), "toggles") == t0, "sample-toggle", lambda: f"{res.logical_op_toggle} vs {t0}")
        if use is not None:
            ctx.check(
                sut.matrix(res.erased_qubits, (R, m.n), "erased qubits") == flags,
                "sample-erasure", lambda: f"{res.erased_qubits} vs {flags}",
            )
    if len(faults) > 20:
        ctx.probe("more than 20 faults in one history")
    if any(tog):
        ctx.probe("logical operator toggled by faults")
    if R > 1 and any(f[0] != "P" and f[0] != "E" for f in faults):
        ctx.probe("faults inside a measurement round")
