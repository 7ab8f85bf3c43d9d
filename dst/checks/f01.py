"""F01: fabrication defects leave a consistent code."""
import warnings

import numpy as np

from dst import sut
from dst.core import Invalid
from dst.faults import ALL, Memory, gen_faults
from dst.model import CodeModel, Span
from plaquette.codes.latticebase import NoLogicalOperatorError

ID = "F01"
CASES = {"quick": 6000, "thorough": 95000}
RULE = (
    "one case = code (planar, rotated, XZZX, toric, Shor, repetition), one to three successive sets of lost "
    "qubits, stabilizers and couplings (given as index or lattice position), then memory experiments without "
    "and with chosen faults and decodings on what is left; every step is compared with an operator-level "
    "reference of the documented procedure; distinct = different event log"
)
STATES = "distinct (code, surviving generators) pairs"
REAL = ["fabrication errors", "code lattice", "circuit generator", "devices with both backends", "all decoders", "check_success"]
STUB = ["random source (seeded)", "probabilities of error instructions (set to 0 or 1)"]
ASSUME = [
    "without gauge operators and without joined boundaries (the defaults)",
    "the five-qubit code, whose stabilizers are of mixed type at each qubit, is refused by the library and left out",
    "losing the last stabilizer may be answered with any error",
]
FAMS = ["planar", "planar", "planar", "rotated", "rotated", "toric", "shor", "repetition"]


def gen(rng, i):
    spec = sut.gen_code(rng, fams=FAMS, max_rounds=3, small=rng.random() < 0.5, huge=0.03)
    steps = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = lambda k: [rng.randrange(400) for _ in range(k)]  # noqa: E731
        steps.append(dict(q=r(rng.choice([0, 1, 1, 2, 4])), s=r(rng.choice([0, 0, 0, 1])), g=r(rng.choice([0, 0, 1])), pos=rng.random() < 0.5))
    kinds = [k for k in ALL if rng.random() < 0.5] or ["pauli"]
    return dict(
        code=spec, steps=steps, ops=sut.gen_logical_ops(rng, spec), ancilla=rng.random() < 0.5, backend=rng.choice(sut.BACKENDS),
        kinds=kinds, faults=gen_faults(rng, spec, rng.choice([0, 1, 2, 5, 12]), kinds),
        decoder=rng.choice(sut.DECODERS), weights=sut.gen_weights(rng), shots=[sut.gen_shot(rng) for _ in range(rng.choice([1, 3]))],
        on=rng.choice(["code", "code", "lattice"]),
        # the code is in use before some of the defects are found
        # some reports name things which do not exist
        wrong=[[k, rng.randrange(6), rng.randrange(400), rng.randrange(400)] for k in range(len(steps)) if rng.random() < 0.3],
        warm=[k for k in range(len(steps)) if rng.random() < 0.3] if rng.random() < 0.5 else [],
    )


FROZEN = ("weights", "kinds")


class Ref:
    """The documented procedure on operators over the original data qubits."""

    def __init__(self, model):
        self.stabs = list(model.stabs)
        self.logs = list(model.logs)

    def remove(self, q):
        b = 1 << q
        groups = {}
        for i, (x, z) in enumerate(self.stabs):
            f = ("X" if x & b else "") + ("Z" if z & b else "")
            if f:
                groups.setdefault(f, []).append(i)
        for i, (x, z) in enumerate(self.logs):
            f = ("X" if x & b else "") + ("Z" if z & b else "")
            if f:
                if f not in groups:
                    return False
                s = self.stabs[groups[f][0]]
                self.logs[i] = (x ^ s[0], z ^ s[1])
        drop = set()
        new = []
        if all(len(g) == 2 for g in groups.values()):
            for i, j in groups.values():
                drop |= {i, j}
                p = (self.stabs[i][0] ^ self.stabs[j][0], self.stabs[i][1] ^ self.stabs[j][1])
                if p != (0, 0):
                    new.append(p)
        else:
            for g in groups.values():
                if len(g) == 1:
                    drop.add(g[0])
                else:
                    for i in g:
                        drop.add(i)
                        new.append((self.stabs[i][0] & ~b, self.stabs[i][1] & ~b))
        self.stabs = [s for i, s in enumerate(self.stabs) if i not in drop] + new
        return True


def run(case, ctx):
    spec = case["code"]
    if spec["fam"] == "five":
        raise Invalid("family")
    sut.check_logical_ops(case["ops"], spec)
    sut.set_rng(case["seed"])
    code = sut.build_code(spec)
    first = CodeModel(code)
    ref = Ref(first)
    alive = {id(v): i for i, v in enumerate(code.lattice.dataqubits)}  # vertex -> original index
    keep = list(code.lattice.dataqubits)
    lat = code.lattice
    if not case["steps"]:
        raise Invalid("no defects")
    lost_any = False
    for k, st in enumerate(case["steps"]):
        if k in case.get("warm", ()):
            ctx.fault("defects found while the code is in use")
            experiments(case, code, ctx, f"{spec} {case['steps'][:k]}", lost_any)
        data, stabs = list(lat.dataqubits), list(lat.stabgens)
        edges = [e for v in stabs for e in v.edges]
        name = (lambda v: tuple(int(c) for c in v.pos)) if st["pos"] else (lambda v: v.equbit_idx)
        fq = [data[a % len(data)] for a in st["q"]]
        fs = [stabs[a % len(stabs)] for a in st["s"]]
        fg = [edges[a % len(edges)] for a in st["g"]]
        lost = {v.pos: v for v in fq + [e.data for s in fs for e in s.edges] + [e.data for e in fg]}
        kw = {}
        if fq:
            kw["faulty_qubits"] = [name(v) for v in fq]
        if fs:
            kw["faulty_stabilizers"] = [name(v) for v in fs]
        if fg:
            kw["faulty_gates"] = [(name(e.op), name(e.data)) for e in fg]
        what = f"{spec} {case['steps'][: case['steps'].index(st) + 1]}"
        ctx.fault("lost qubit", len(fq))
        ctx.fault("lost stabilizer", len(fs))
        ctx.fault("lost coupling", len(fg))
        ok = all(ref.remove(alive[id(lost[p])]) for p in sorted(lost))
        for kk, how, a, b in case.get("wrong", ()):
            if kk == k:
                wrong(code, how, a, b, kw, ctx, what)
        lost_any = lost_any or bool(lost)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                code.apply_fabrication_errors(**kw)
        except NoLogicalOperatorError:
            ctx.check(not ok, "refused", lambda: f"{what}: NoLogicalOperatorError although the logical operators survive")
            ctx.probe("no logical qubit survives")
            ctx.log("no logical operator")
            return
        except (ValueError, IndexError) as e:
            ctx.check(ok and not ref.stabs, "refused", lambda: f"{what}: {type(e).__name__}: {e}")
            ctx.probe("no stabilizer survives")
            ctx.log("no stabilizer")
            return
        ctx.check(ok, "lost-logical-operator-accepted", lambda: f"{what}: a logical operator can no longer be measured")
        gone = {id(v) for v in lost.values()}
        keep = [v for v in keep if id(v) not in gone]
        consistent(code, ref, alive, keep, ctx, what)
    experiments(case, code, ctx, what, lost_any)


def picture(code):
    """Everything of the code that can be seen."""
    lat = code.lattice
    return (
        [np.asarray(t).tolist() for t in code.stabilisers], [np.asarray(t).tolist() for t in code.logical_ops],
        [(type(v).__name__, v.pos, v.equbit_idx) for v in lat.equbits], lat.n_time_steps,
        [(e.data.pos, e.op.pos, e.factor.name, e.measurement_time_step) for e in lat.edges],
    )


def wrong(code, how, a, b, kw, ctx, what):
    """Defects which do not exist are refused, also among others, and change nothing."""
    lat = code.lattice
    data, stabs = list(lat.dataqubits), list(lat.stabgens)
    v, s = data[a % len(data)], stabs[b % len(stabs)]
    far = [w for w in data if w not in s.neighbours]
    kw = {k: list(x) for k, x in kw.items()}
    if how == 0:
        kw["faulty_qubits"] = kw.get("faulty_qubits", []) + [s.equbit_idx]
    elif how == 1:
        kw["faulty_stabilizers"] = kw.get("faulty_stabilizers", []) + [tuple(int(c) for c in v.pos)]
    elif how == 2:
        kw["faulty_gates"] = kw.get("faulty_gates", []) + [(v.equbit_idx, v.equbit_idx)]
    elif how == 3:
        kw["faulty_gates"] = kw.get("faulty_gates", []) + [(s.equbit_idx, s.equbit_idx)]
    elif how == 4 and far:
        kw["faulty_gates"] = kw.get("faulty_gates", []) + [(s.equbit_idx, far[a % len(far)].equbit_idx)]
    else:
        kw["faulty_qubits"] = kw.get("faulty_qubits", []) + [len(lat.equbits) + a]
    before = picture(code)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            code.apply_fabrication_errors(**kw)
    except (ValueError, IndexError):
        ctx.fault("defects that do not exist")
        ctx.check(picture(code) == before, "changed-by-refusal", lambda: f"{what}: {kw}")
        return
    ctx.check(False, "not-refused", lambda: f"{what}: {kw}")


def consistent(code, ref, alive, keep, ctx, what):
    lat = code.lattice
    ctx.check({id(v) for v in lat.dataqubits} == {id(v) for v in keep} and len(lat.dataqubits) == len(keep),
              "surviving-qubits", lambda: f"{what}: {[v.pos for v in lat.dataqubits]}")
    for i, v in enumerate(lat.equbits):
        ctx.check(v.equbit_idx == i, "indices", lambda: f"{what}: {v} at {i}")
    for i, v in enumerate(lat.dataqubits):
        ctx.check(v.dataqubit_idx == i, "indices", lambda: f"{what}: {v} is data qubit {i}")
    for v in lat.equbits:
        ctx.check(lat.lattice[v.pos] is v, "lattice", lambda: f"{what}: {v} is not at its place")
    m = CodeModel(code)
    ctx.check(not m.problems(), "invalid-code", lambda: f"{what}: {m.problems()[:3]}")
    # the same operators in terms of the original qubits
    where = [alive[id(v)] for v in lat.dataqubits]

    def lift(p):
        return tuple(sum((c >> i & 1) << w for i, w in enumerate(where)) for c in p)

    got, want = sorted(map(lift, m.stabs)), sorted(ref.stabs)
    ctx.check(got == want, "generators", lambda: f"{what}: generators {[x for x in got if x not in want][:3]} instead of {[x for x in want if x not in got][:3]}")
    big = 1 << 400
    span = Span([x | z * big for x, z in got])
    for i, (a, b) in enumerate(zip(map(lift, m.logs), ref.logs)):
        ctx.check((a[0] ^ b[0]) | (a[1] ^ b[1]) * big in span, "logical-operators", lambda: f"{what}: logical operator {i} is another operator")
        ctx.check((a[0] | a[1]) & ~sum(1 << w for w in where) == 0, "logical-operators", lambda: f"{what}: logical operator {i}")
    # the operators of the code are those of its lattice
    for ops, mine, kind in ((code.stabilisers, m.stabs, "generators"), (code.logical_ops, m.logs, "logical operators")):
        ctx.check(len(ops) == len(mine), "operators-of-the-code", lambda: f"{what}: {len(ops)} {kind}, lattice has {len(mine)}")
        for t, p in zip(ops, mine):
            ctx.check(sut.pauli_from_tableau(t, m.n, kind) == p, "operators-of-the-code", lambda: f"{what}: {kind}")
    ctx.check((code.n_data_qubits, code.n_stabgens, code.n_logical_ops) == (m.n, m.m, len(m.logs)), "numbers", what)
    ctx.check(code.n_ext_qubits >= m.n + m.m, "numbers", what)
    ctx.log(m.stabs, m.logs)
    ctx.state(got)


def experiments(case, code, ctx, what, lost_any):
    spec = case["code"]
    ancilla = case["ancilla"] or spec["fam"] == "toric"
    mem = Memory(spec, case["ops"], ancilla, code=code)
    memory(case, mem, ctx, what)
    decodings(case, mem, ctx, what)
    ctx.probe("decoded on a damaged code" if lost_any else "decoded on an intact code", len(case["shots"]))


def memory(case, mem, ctx, what):
    """Experiments without faults and with chosen ones."""
    m, R = mem.model, mem.rounds
    dev = sut.Device(case["backend"])
    ideal_circ = mem.ideal()
    ideal = sut.gate_list(ideal_circ)
    ids = set(m.data_ids) | set(m.anc_ids)
    used = {q for g, a in ideal for q in a}
    nl = len(mem.lay.idx) if mem.ancilla else 0
    ctx.check(len(used - ids) <= nl, "unknown-qubits", lambda: f"{what}: gates on {sorted(used - ids)}")
    for _ in range(2):
        dev.run(ideal_circ)
        raw, er = dev.get_sample()
        tog, syn = mem.lay.split(sut.bits(raw, mem.lay.total, "raw results"))
        ctx.check(not any(tog) and not any(map(any, syn)), "not-silent", lambda: f"{what}: toggles {tog}, syndrome {syn} without noise")
        ctx.rounds += R + 1
    kinds = set(case["kinds"])
    qe, ge = mem.tagged(kinds)
    circ0 = mem.noisy(qe, ge)
    located = mem.locate(circ0, qe, ge)
    faults = [
        f for f in mem.dedup(mem.concrete(case["faults"]))
        if {"P": "pauli", "E": "erasure", "F": "measurement"}.get(f[0], f[1]) in kinds
    ]
    for f in faults:
        ctx.fault({"P": "data Pauli", "E": "erasure", "F": "readout flip"}.get(f[0], f"gate fault {f[1]}"))
    circ = mem.rewrite(circ0, located, faults)
    syn, tog, era = mem.expect(faults, ideal)
    dev.run(circ)
    raw, er = dev.get_sample()
    t0, s0 = mem.lay.split(sut.bits(raw, mem.lay.total, "raw results"))
    diff = mem.pack(s0, t0) ^ mem.pack(syn, tog)
    ctx.check(diff in mem.erasure_span(era), "record-differs", lambda: f"{what} faults {faults[:6]}: {s0} {t0}, expected {syn} {tog}")
    ctx.log(t0, s0)


def decodings(case, mem, ctx, what):
    code, m = mem.code, mem.model
    dec, flips = sut.build_decoder(case["decoder"], code, case["weights"], m)
    for sh in case["shots"]:
        s = sut.Shot(m, sh, flips=flips)
        if case["decoder"] == "PyMatchingDecoder" and s.ne:
            continue
        e, sy = s.arrays()
        ok = s.decodable(flips)
        try:
            cor = dec.decode(e, sy)
        except Exception:  # noqa: B902
            if ok:
                raise
            ctx.probe("undecodable input refused")
            continue
        p = sut.pauli_from_tableau(cor, m.n)
        ctx.check(ok, "undecodable-accepted", lambda: f"{what} {case['decoder']}: {s.syn}")
        ctx.check(m.syndrome_of(p) == s.parity, "invalid-correction", lambda: f"{what} {case['decoder']}: {p} for {s.syn}")
        t = np.array(sut.logical_effect(m, mem.lay.idx, s.total), dtype=np.uint8)
        got = bool(sut.check_success(code, cor, t, case["ops"]))
        want = t.tolist() == sut.logical_effect(m, mem.lay.idx, p)
        ctx.check(got == want, "verdict", lambda: f"{what}: {got}, expected {want}")
        ctx.log(p, got)
