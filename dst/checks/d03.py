"""D03: measurement outcomes are those quantum mechanics allows."""
import numpy as np

from dst import sut
from dst.core import Invalid
from dst.model import Impossible, Span, SymState
from dst.stat import unlikely

ID = "D03"
CASES = {"quick": 3500, "thorough": 90000}
RULE = (
    "one case = random circuit (1-9 qubits, up to 60 instructions over X Y Z H CX CZ R M with one or "
    "many targets), backend, number of shots and source of outcomes (fair or extreme coins); every "
    "outcome of every shot is replayed on the reference state, the reported final state is compared, "
    "fairness and independence of the coins are tested; distinct = different event log"
)
STATES = "distinct (circuit skeleton, outcome record) pairs"
REAL = ["pauli tableau", "clifford backend", "stim backend", "Device", "Circuit"]
STUB = ["random source (seeded, optionally biased towards extreme outcomes)"]
ASSUME = ["statistical tests fail by chance with probability below 1e-11 each"]
ONE = ("X", "Y", "Z", "H", "R", "M")


def gen(rng, i):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 9])
    gates = []
    weights = [rng.random() + 0.05 for _ in range(8)]
    multi = rng.random() < 0.5
    for _ in range(rng.choice([4, 8, 15, 30, 60])):
        g = rng.choices(["X", "Y", "Z", "H", "R", "M", "CX", "CZ"], weights)[0]
        if g in ONE:
            k = rng.randint(1, n) if multi else 1
            gates.append([g, rng.sample(range(n), k)])
        elif n > 1:
            k = rng.randint(1, n // 2) if multi else 1
            if multi and n > 2 and rng.random() < 0.3:
                # a chain: pairs which share qubits
                q = rng.sample(range(n), rng.randint(3, n))
                gates.append([g, [v for a, b in zip(q, q[1:]) for v in (a, b)]])
            else:
                gates.append([g, rng.sample(range(n), 2 * k)])
    gates.append(["M", list(range(n))])
    if rng.random() < 0.5:
        gates.append(["M", list(range(n))])
    backend = rng.choice(sut.BACKENDS)
    return dict(
        n=n, gates=gates, backend=backend, rngmode=rng.choice(["seeded", "seeded", "zeros", "ones"]),
        shots=rng.choice([1, 3, 10, 60]) if backend == "clifford" else rng.choice([5, 40, 200]),
        batch=rng.choice([1, 7, 64, 1024]),
        step=rng.random() < 0.2,
    )


def run(case, ctx):
    sut.set_rng(case["seed"], case["rngmode"])
    n = case["n"]
    gates = []
    for g, q in case["gates"]:
        if any(v >= n for v in q) or not q:
            raise Invalid("qubit")
        if g in ("CX", "CZ") and (len(q) % 2 or any(a == b for a, b in zip(q[::2], q[1::2]))):
            raise Invalid("pair")
        if g in ONE and len(set(q)) != len(q):
            raise Invalid("repeated target")
        gates.append((g, tuple(q)))
    if not any(g == "M" for g, _ in gates):
        raise Invalid("nothing measured")
    circ = sut.circuit_from_gates(gates)
    cl = case["backend"] == "clifford"
    dev = sut.Device(case["backend"]) if cl else sut.Device("stim", batch_size=max(1, case["batch"]))
    nm = sum(len(q) for g, q in gates if g == "M")
    used = 1 + max(q for _, qs in gates for q in qs)
    coins = []
    where: dict = {}
    for shot in range(max(1, case["shots"])):
        if cl and case["step"] and shot:
            dev.reset_backend()
            for _ in dev:
                pass
            ctx.probe("stepped through the circuit")
        else:
            dev.run(circ)
        raw, er = dev.get_sample()
        rb = sut.bits(raw, nm, "outcomes")
        ctx.check(er is None or len(er) == 0, "erasure", f"{er}")
        ctx.log(rb)
        st = SymState(used)
        k = 0
        for pos, (g, qs) in enumerate(gates):
            ctx.steps += 1
            if g == "M":
                for q in qs:
                    try:
                        if st.observe(q, rb[k], "measurement"):
                            coins.append(rb[k])
                            where.setdefault(k, []).append(rb[k])
                    except Impossible:
                        ctx.check(False, "impossible-outcome",
                                  f"{case['backend']} shot {shot}: instruction {pos} (M {q}) cannot give {rb[k]}; record {rb}; {gates}")
                    k += 1
            else:
                st.gate(g, qs)
        ctx.state(len(gates), tuple(rb))
        if cl:
            tab = np.asarray(dev.state.tableau)
            ctx.check(tab.shape == (2 * used, 2 * used + 1), "state-shape", f"{tab.shape}")
            try:
                rows = []
                for r in tab[used:].tolist():
                    x = sum(b << j for j, b in enumerate(r[:used]))
                    z = sum(b << j for j, b in enumerate(r[used : 2 * used]))
                    rows.append(x | z << used)
                    st.contains(x, z, r[2 * used], "state")
            except Impossible:
                ctx.check(False, "reported-state", f"shot {shot}: stabilizer {r} does not stabilise the state after {rb}; {gates}")
            ctx.check(Span(rows).rank == used, "reported-state-rank", lambda: f"{tab[used:].tolist()}")
    N, ones = len(coins), sum(coins)
    ctx.probe("undetermined outcomes", N)
    if case["rngmode"] == "seeded" or not cl:

        def fair(v, what):
            # frequency of ones, and of changes from one coin to the next
            ch = sum(a != b for a, b in zip(v, v[1:]))
            ctx.check(not unlikely(sum(v), len(v), 0.5), "unfair-coins", lambda: f"{what}: {sum(v)} ones in {len(v)}; {gates}")
            ctx.check(not unlikely(ch, len(v) - 1, 0.5), "dependent-coins", lambda: f"{what}: {ch} changes in {len(v)}; {gates}")
            ctx.probe("fairness tested")

        if N >= 45:
            fair(coins, "all coins")
        for k, v in where.items():
            if len(v) >= 45:
                fair(v, f"outcome {k}")
        if len(where) > 1 and len(coins) >= 90:
            ks = sorted(where)
            full = [k for k in ks if len(where[k]) == len(where[ks[0]]) == max(1, case["shots"])]
            for a, b in zip(full, full[1:]):
                fair([x ^ y for x, y in zip(where[a], where[b])], f"outcomes {a} and {b} together")
