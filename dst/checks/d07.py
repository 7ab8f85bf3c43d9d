"""D07: error instructions fire with their stated probability and as stated blocks."""
import itertools

from dst import machine, sut
from dst.core import Invalid
from dst.model import SymState
from dst.stat import unlikely

ID = "D07"
CASES = {"quick": 900, "thorough": 17000}
RULE = (
    "one case = either a program whose error instructions all have probability 0 or 1, every outcome of "
    "which is replayed on the reference machine, or a program of fractional error instructions on halves "
    "of Bell pairs between random Clifford gates: the Pauli error and erasure flags of every shot are "
    "read off and compared with the exactly computed joint distribution (impossible combinations, "
    "frequency of every combination, of every parity, and of changes from shot to shot); "
    "distinct = different event log"
)
STATES = "distinct observed error patterns and outcome records"
REAL = ["clifford and stim backends", "Device", "Circuit", "pauli tableau"]
STUB = ["random source (seeded)"]
ASSUME = ["statistical tests fail by chance with probability below 1e-11 each"]
P = [0.0, 1.0, 0.5, 0.25, 0.1, 0.9, 0.02, 0.6]
BITS = {"I": 0, "X": 1, "Z": 2, "Y": 3}


def gen(rng, i):
    backend = rng.choice(["clifford", "clifford", "stim"])
    if rng.random() < 0.35:
        n = rng.choice([1, 2, 3, 5])
        g = machine.certain_program(rng, n, rng.choice([4, 10, 25]), stim=backend == "stim", frac=False)
        return dict(mode="certain", backend=backend, n=n, gates=g, shots=rng.choice([2, 5, 10]),
                    batch=rng.choice([1, 3, 1024]))
    s = rng.choice([1, 2, 2, 3])  # sites
    gates = []
    flags = 0
    prob = lambda: rng.choice(P)  # noqa: E731
    stim = backend == "stim"

    def site(k=1):
        return rng.sample(range(s), min(k, s))

    def paulis():
        g = rng.choice(["X", "Y", "Z"] + ([] if stim else ["DEPOLARIZE"]))
        return [g] + site(1 if stim else rng.choice([1, 1, 2, 3]))

    for _ in range(rng.choice([1, 2, 4])):
        for _ in range(rng.choice([0, 0, 1, 3])):
            g = rng.choice(["H", "X", "Z", "Y"] + (["CX", "CZ"] if s > 1 else []))
            gates.append([g, site(2 if g[0] == "C" else 1)])
        k = rng.choice(["ERROR", "ERROR", "E_PAULI", "E_ERASE", "DEPOLARIZE"] + (["E_PAULI2"] if s > 1 else []))
        if k == "ERROR":
            gates.append(["ERROR", [prob()] + paulis()])
            if not stim:
                for _ in range(rng.choice([0, 0, 1, 2, 3, 4])):
                    if rng.random() < 0.45:
                        gates.append(["ERROR_CONTINUE", paulis()])
                    else:
                        gates.append(["ERROR_ELSE", [prob()] + paulis()])
        elif k == "E_PAULI":
            ps = [rng.choice([0.0, 0.05, 0.1, 0.25, 0.5]) for _ in range(3)]
            if sum(ps) > 1:
                ps = [0.5, 0.0, 0.25]
            if rng.random() < 0.15:
                ps = [0.0, 0.0, 0.0]
                ps[rng.randrange(3)] = 1.0
            gates.append(["E_PAULI", ps + site()])
        elif k == "E_PAULI2":
            ps = [0.0] * 15
            for _ in range(rng.choice([1, 3, 6])):
                ps[rng.randrange(15)] = rng.choice([0.02, 0.1, 0.15])
            gates.append(["E_PAULI2", ps + site(2)])
        elif k == "E_ERASE":
            if flags < 3:
                gates.append(["E_ERASE", [prob()] + site()])
                flags += 1
        else:
            gates.append(["DEPOLARIZE", site(rng.choice([1, 2]))])
    return dict(mode="rates", backend=backend, sites=s, gates=gates,
                shots=rng.choice([300, 1000, 2000]) if not stim else rng.choice([1000, 8000]),
                batch=rng.choice([64, 1000, 1024]), get=rng.random() < 0.2)


# --------------------------------------------------------------- distribution
def push(pat, g, q):
    """Conjugate a Pauli pattern by an ideal gate."""
    def get(i):
        return pat >> (2 * i) & 3

    if g == "H":
        for i in q:
            v = get(i)
            pat ^= (v ^ ((v >> 1) | (v & 1) << 1)) << (2 * i)
    elif g == "CX":
        for a, b in zip(q[::2], q[1::2]):
            x, z = get(a) & 1, get(b) >> 1
            pat ^= x << (2 * b) ^ z << (2 * a + 1)
    elif g == "CZ":
        for a, b in zip(q[::2], q[1::2]):
            x, y = get(a) & 1, get(b) & 1
            pat ^= x << (2 * b + 1) ^ y << (2 * a + 1)
    return pat


def action(g, q):
    """Distribution of the Pauli which a gate inside an error block applies."""
    if g == "DEPOLARIZE":
        d = {0: 1.0}
        for i in q:
            e = {}
            for v, p in d.items():
                for c in (1, 2, 3):
                    e[v ^ c << 2 * i] = e.get(v ^ c << 2 * i, 0) + p / 3
            d = e
        return d
    v = 0
    for i in q:
        v ^= BITS[g] << 2 * i
    return {v: 1.0}


def times(d, e, f=lambda a, b: a ^ b):
    out = {}
    for a, p in d.items():
        for b, r in e.items():
            if p * r > 0:
                k = f(a, b)
                out[k] = out.get(k, 0.0) + p * r
    return out


def joint(gates, sites):
    """Distribution of (Pauli pattern | flags << 2*sites)."""
    # state: (pattern with flags, any alternative applied, current branch applied)
    d = {(0, 0, 0): 1.0}
    nf = 0
    for g, a in gates:
        out = {}

        def add(v, any_, br, p):
            if p > 0:
                k = (v, any_, br)
                out[k] = out.get(k, 0.0) + p

        for (v, any_, br), p in d.items():
            if g in ("X", "Y", "Z", "H", "CX", "CZ"):
                hi = v >> 2 * sites << 2 * sites
                add(hi | push(v ^ hi, g, a), 0, 0, p)
            elif g == "ERROR":
                for e, r in action(a[1], a[2:]).items():
                    add(v ^ e, 1, 1, p * a[0] * r)
                add(v, 0, 0, p * (1 - a[0]))
            elif g == "ERROR_ELSE":
                if any_:
                    add(v, 1, 0, p)
                else:
                    for e, r in action(a[1], a[2:]).items():
                        add(v ^ e, 1, 1, p * a[0] * r)
                    add(v, 0, 0, p * (1 - a[0]))
            elif g == "ERROR_CONTINUE":
                if br:
                    for e, r in action(a[0], a[1:]).items():
                        add(v ^ e, any_, br, p * r)
                else:
                    add(v, any_, br, p)
            elif g in ("E_PAULI", "E_PAULI2"):
                rest = 1.0
                for r, ps in machine.paulis_of(g, a):
                    e = 0
                    for q, c in ps:
                        e ^= BITS[c] << 2 * q
                    add(v ^ e, 0, 0, p * r)
                    rest -= r
                if rest > 1e-9:
                    add(v, 0, 0, p * rest)
            elif g == "E_ERASE":
                for c in range(4):
                    add(v ^ c << 2 * a[1] | 1 << (2 * sites + nf), 0, 0, p * a[0] / 4)
                add(v, 0, 0, p * (1 - a[0]))
            elif g == "DEPOLARIZE":
                for e, r in action(g, a).items():
                    add(v ^ e, 0, 0, p * r)
        if g == "E_ERASE":
            nf += 1
        d = out
    res = {}
    for (v, _, _), p in d.items():
        res[v] = res.get(v, 0.0) + p
    return res, nf


# --------------------------------------------------------------------- runs
def device(case):
    return sut.Device("stim", batch_size=max(1, case["batch"])) if case["backend"] == "stim" else sut.Device("clifford")


def run_certain(case, ctx):
    n = case["n"]
    stim = case["backend"] == "stim"
    if n < 1 or not machine.valid(case["gates"], n, stim):
        raise Invalid("program")
    gates = [(g, tuple(a)) for g, a in case["gates"]] + [("M", tuple(range(n)))]
    gates += [("H", (q,)) for q in range(n)] + [("M", tuple(range(n)))]
    try:
        m, e = machine.outcomes_needed(gates)
    except machine.Fail:
        raise Invalid("block") from None
    circ = sut.circuit_from_gates(gates)
    dev = device(case)
    for shot in range(max(1, case["shots"])):
        dev.run(circ)
        raw, er = dev.get_sample()
        rb = sut.bits(raw, m, "outcomes")
        eb = sut.bits(er, e, "erasure flags") if e else []
        ctx.check(e or er is None or len(er) == 0, "erasure-record", lambda: f"{er} for {gates}")
        machine.replay(SymState(n), gates, rb, eb, f"{case['backend']} shot {shot}")
        ctx.log(rb, eb)
        ctx.state(tuple(rb), tuple(eb))
        ctx.steps += len(gates)
        for g, a in gates:
            if g in ("ERROR", "ERROR_ELSE", "E_ERASE"):
                ctx.fault(f"{g} p={a[0]:g}")
            elif g.startswith("E_PAULI"):
                ctx.fault(g)


def run(case, ctx):
    sut.set_rng(case["seed"])
    if case["mode"] == "certain":
        return run_certain(case, ctx)
    s, stim = case["sites"], case["backend"] == "stim"
    prog = [(g, tuple(a)) for g, a in case["gates"]]
    if s < 1 or case["shots"] < 1 or not machine.valid(case["gates"], s, stim):
        raise Invalid("program")
    inside = False
    for g, a in prog:
        if g == "R" or (g.startswith("ERROR") and not ({"X", "Y", "Z", "DEPOLARIZE"} & set(a[:2]))):
            raise Invalid("gate")
        if g in ("ERROR_ELSE", "ERROR_CONTINUE") and not inside:
            raise Invalid("block")
        inside = g.startswith("ERROR")
    dist, nf = joint(prog, s)
    if nf > 3:
        raise Invalid("flags")
    gates = []
    for i in range(s):
        gates += [("H", (i,)), ("CX", (i, s + i))]
    gates += prog
    ideal = [(g, a) for g, a in prog if g in ("X", "Y", "Z", "H", "CX", "CZ")]
    for g, a in reversed(ideal):
        # undo; the patterns are those behind the whole program, so push them, too
        if g in ("CX", "CZ"):
            for p in reversed(list(zip(a[::2], a[1::2]))):
                gates.append((g, p))
        else:
            gates.append((g, a))
    pushed = {}
    for v, p in dist.items():
        hi = v >> 2 * s << 2 * s
        w = v ^ hi
        for g, a in reversed(ideal):
            if g in ("CX", "CZ"):
                for pr in reversed(list(zip(a[::2], a[1::2]))):
                    w = push(w, g, pr)
            else:
                w = push(w, g, a)
        pushed[hi | w] = pushed.get(hi | w, 0.0) + p
    dist = pushed
    for i in range(s):
        gates += [("CX", (i, s + i)), ("H", (i,))]
    gates.append(("M", tuple(range(2 * s))))
    circ = sut.circuit_from_gates(gates)
    dev = device(case)
    seq = []
    for shot in range(case["shots"]):
        dev.run(circ)
        raw, er = dev.get_sample()
        rb = sut.bits(raw, 2 * s, "outcomes")
        eb = sut.bits(er, nf, "erasure flags") if nf else []
        v = 0
        for i in range(s):
            # H-side outcome shows the Z part, the partner the X part
            v |= rb[s + i] << 2 * i | rb[i] << 2 * i + 1
        for j, e in enumerate(eb):
            v |= e << 2 * s + j
        if v not in dist:
            ctx.check(False, "impossible-error", f"{case['backend']} shot {shot}: outcomes {rb}, flags {eb} cannot come from {prog}")
        seq.append(v)
    ctx.steps += len(gates) * len(seq)
    N = len(seq)
    counts = {}
    for v in seq:
        counts[v] = counts.get(v, 0) + 1
    ctx.log(sorted(counts.items()))
    for v in counts:
        ctx.state(tuple(sorted(dist)), v)
    for g, a in prog:
        if g in ("ERROR", "ERROR_ELSE", "ERROR_CONTINUE", "E_ERASE", "E_PAULI", "E_PAULI2", "DEPOLARIZE"):
            ctx.fault(g, N)
    tests = 0
    for v, p in dist.items():
        tests += 1
        ctx.check(not unlikely(counts.get(v, 0), N, min(1.0, p)), "frequency",
                  lambda: f"{case['backend']}: error pattern {v:b} in {counts.get(v, 0)} of {N} shots, expected probability {p:.4f}; {prog}")
    for mask in range(1, 1 << (2 * s + nf)):
        p = min(1.0, sum(r for v, r in dist.items() if (v & mask).bit_count() & 1))
        k = sum(c for v, c in counts.items() if (v & mask).bit_count() & 1)
        tests += 1
        ctx.check(not unlikely(k, N, p), "parity-frequency",
                  lambda: f"{case['backend']}: parity {mask:b} odd in {k} of {N} shots, expected probability {p:.4f}; {prog}")
    # neighbouring shots are independent
    for off, b in itertools.product((0, 1), range(2 * s + nf)):
        p = min(1.0, sum(r for v, r in dist.items() if v >> b & 1))
        pairs = [(seq[t] >> b & 1) ^ (seq[t + 1] >> b & 1) for t in range(off, N - 1, 2)]
        tests += 1
        ctx.check(not unlikely(sum(pairs), len(pairs), 2 * p * (1 - p)), "shots-dependent",
                  lambda: f"{case['backend']}: bit {b} changes in {sum(pairs)} of {len(pairs)} pairs of shots, p={p:.4f}; {prog}")
    ctx.probe("statistical tests", tests)
    ctx.probe("shots", N)
