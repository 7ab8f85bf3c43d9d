"""D08: a stabilizer state carried through any history of operations stays the right state."""
import copy
import io
import itertools

import numpy as np

from dst import sut
from dst.core import Invalid
from dst.model import Impossible, Span, SymState, mul

from plaquette import pauli
from plaquette.device import QuantumState

ID = "D08"
CASES = {"quick": 5000, "thorough": 120000}
RULE = (
    "one case = history of 4-40 operations on up to three registers of stabilizer states (gates with "
    "every kind of index argument, basis and operator measurements with random, extreme, forced or "
    "contradictory outcomes, destructive read-out, resets, inserted and joined qubits, products, commutation "
    "and text forms of operators, states written as text and read back with and without destabilisers, "
    "refused operations, checkpoints and roll-backs) replayed on the reference state; distinct = different event log"
)
STATES = "distinct (operation, register width, outcome) triples with their position in the history"
REAL = ["plaquette.pauli tableau functions"]
STUB = ["random source (seeded, optionally biased towards extreme outcomes)"]
ASSUME = []
ROOM = 10  # qubits alive at once; one more serves the reference as read-out ancilla
GATES1 = ("x", "y", "z", "h", "s")
KINDS = ["g1"] * 6 + ["g2"] * 6 + ["meas"] * 4 + ["op"] * 3 + [
    "reset", "reset", "insert", "insert", "new", "join", "text", "text", "save", "restore", "refuse", "refuse", "times", "algebra", "algebra"]


def gen(rng, i):
    ops = []
    for _ in range(rng.choice([4, 8, 14, 25, 40])):
        k = rng.choice(KINDS)
        v = rng.getrandbits(40)
        ops.append([k, v])
    return dict(
        n=rng.choice([1, 2, 2, 3, 4, 5]), rngmode=rng.choice(["seeded", "seeded", "zeros", "ones"]),
        scramble=rng.choice([0, 0, 3, 8, 16]), ops=ops)


class World:
    """Registers of the library and one reference state of all qubits."""

    def __init__(self):
        self.st = SymState(ROOM + 1)
        self.free = list(range(ROOM))
        self.regs = []  # [tableau, ids]

    def copy(self):
        w = World()
        w.st = copy.deepcopy(self.st)
        w.free = list(self.free)
        w.regs = [[t.copy(), list(i)] for t, i in self.regs]
        return w

    # gates of the reference which StabState lacks
    def s(self, q):
        st = self.st
        m = st.X[q]
        st.R ^= m & st.Z[q]
        st.Z[q] ^= m
        # signs which depend on unknowns are unaffected

    def to_z(self, q, p):
        """Basis change which maps the Pauli p on q to Z; returns the inverse."""
        if p == "X":
            self.st.h(q)
            return lambda: self.st.h(q)
        if p == "Y":
            for _ in range(3):
                self.s(q)
            self.st.h(q)

            def back():
                self.st.h(q)
                self.s(q)

            return back
        return lambda: None

    def observe(self, factors, bit):
        """A reported measurement of a product of Paulis; was it undetermined?"""
        st, a = self.st, ROOM
        backs = [self.to_z(q, p) for q, p in factors]
        for q, _ in factors:
            st.cx(q, a)
        coin = st.X[a] >> st.n != 0
        st.observe(a, bit, "measurement")
        if bit:
            st.x(a)
        for b in backs:
            b()
        return coin


def operator(factors, n, sign):
    op = np.zeros(2 * n + 1, dtype="u1")
    for c, p in factors:
        op[c] = p in "XY"
        op[n + c] = p in "ZY"
    op[-1] = sign
    return op


def as_form(qs, form):
    if form == 0 and len(qs) == 1:
        return qs[0]
    return [list(qs), tuple(qs), np.array(qs), list(qs)][form % 4]


def any_form(qs, form):
    """Gates on one qubit each also accept what can be iterated over only once."""
    return iter(qs) if form == 4 else as_form(qs, form)


MUL = {("X", "Y"): ("Z", 1), ("Y", "Z"): ("X", 1), ("Z", "X"): ("Y", 1)}


def times(a, b):
    """Product of two (letters, power of i); independent of the bit arithmetic elsewhere."""
    out, ph = [], a[1] + b[1]
    for p, q in zip(a[0], b[0]):
        if p == "I" or q == "I":
            out.append(p if q == "I" else q)
        elif p == q:
            out.append("I")
        elif (p, q) in MUL:
            out.append(MUL[p, q][0])
            ph += 1
        else:
            out.append(MUL[q, p][0])
            ph += 3
    return "".join(out), ph % 4


def letters(op):
    n = len(op) // 2
    return "".join("IXZY"[int(op[c]) + 2 * int(op[n + c])] for c in range(n)), 2 * int(op[-1])


def product(ops, ctx, what, strict=False):
    """The product of k operators, its phase and its sign bit."""
    k = len(ops)
    shown = [letters(o) for o in ops]
    got, phase = pauli.multiply(*ops)
    got = np.array(got)
    ref = letters(ops[0])
    for o in ops[1:]:
        ref = times(ref, letters(o))
    ctx.check(letters(got)[0] == ref[0], "wrong-product", lambda: f"{what}: {shown} give {letters(got)[0]}, not {ref[0]}")
    right = abs(phase - 1j ** ref[1]) < 1e-9 and int(got[-1]) == (ref[1] >= 2)
    if k > 2 and not strict:
        # known finding: signs enter twice; anything else is a violation
        acc, ph = letters(ops[-1]), 0
        acc = (acc[0], acc[1])
        for o in ops[-2::-1]:
            bit = acc[1] // 2 % 2
            prod = times(letters(o), (acc[0], 2 * bit))
            ph = (ph + prod[1]) % 4
            acc = (prod[0], 2 * (ph >= 2))
        right = right or (abs(phase - 1j**ph) < 1e-9 and int(got[-1]) == (ph >= 2))
    ctx.check(right, "wrong-phase" if k <= 2 else "wrong-phase-of-many", lambda: f"{what}: {shown} give phase {phase} and sign {got[-1]}, not i^{ref[1]}")


def algebra(R, ctx, what):
    """Operators: products, commutation, text, dictionaries, padding."""
    n = R.choice([1, 2, 3, 5, 12])
    k = R.choice([1, 2, 2, 2, 3, 4])
    words = ["".join(R.choice("IXYZ") for _ in range(n)) for _ in range(k)]
    if R.random() < 0.1:
        words[0] = "I" * n
    signs = [R.choice(["", "+", "-"]) for _ in words]
    ops = []
    for w, s in zip(words, signs):
        want = operator([(c, p) for c, p in enumerate(w) if p != "I"], n, s == "-")
        style = R.randrange(6)
        if style == 0:
            op = want
        elif style == 1:
            t = list(s + w)
            for _ in range(R.choice([0, 0, 2])):
                t.insert(R.randint(0, len(t)), R.choice(" _"))
            short = w.rstrip("I")
            op = pauli.string_to_pauli("".join(t), R.choice([None, n])) if R.random() < 0.6 or not short else pauli.string_to_pauli(s + short, n)
        elif style == 2:
            fs = [f"{p}{c}" for c, p in enumerate(w) if p != "I"]
            R.shuffle(fs)
            op = pauli.string_to_pauli((s + R.choice(["", " ", "_"]).join(fs)) or "+", n)
        elif style == 3:
            fs = [(c, p) for c, p in enumerate(w) if p != "I"]
            R.shuffle(fs)
            op = pauli.dict_to_pauli(dict(fs), n)
            op[-1] = s == "-"
        elif style == 5 and len(w.replace("I", "")) == 1:
            p = w.replace("I", "")
            op = pauli.single_qubit_pauli_operator(s + p, w.index(p), n)
        else:
            op = pauli.string_to_pauli(pauli.pauli_to_string(want, R.random() < 0.5), n)
        op = np.asarray(op)
        ctx.check(op.shape == want.shape and np.array_equal(op, want), "wrong-operator", lambda: f"{what}: {s + w} (style {style}) became {op.tolist()}")
        ops.append(want)
        ctx.check(dict(pauli.pauli_to_dict(want)) == {c: p for c, p in enumerate(w) if p != "I"}, "wrong-operator", lambda: f"{what}: dictionary of {w}")
        more = R.randint(0, n + 3)
        pad = np.asarray(pauli.pad_operator(want.copy(), more))
        full = operator([(c, p) for c, p in enumerate(w) if p != "I"], max(n, more), s == "-")
        ctx.check(np.array_equal(pad, full), "wrong-operator", lambda: f"{what}: {s + w} padded to {more} gives {pad.tolist()}")
    before = [o.copy() for o in ops]
    kept = lambda: ctx.check(all(np.array_equal(a, b) for a, b in zip(ops, before)), "operator-changed", what)  # noqa: E731
    product(ops, ctx, what)
    kept()
    # joined operators
    parts = [o for o in ops[: R.choice([1, 2, 3])]]
    extra = operator([(R.randrange(2), R.choice("XYZ"))], 2, R.randrange(2))
    if R.random() < 0.5:
        parts.insert(R.randint(0, len(parts)), extra)
    t = letters(np.asarray(pauli.tensor_product(*parts)))
    ref = ("".join(letters(o)[0] for o in parts), sum(letters(o)[1] for o in parts) % 4)
    ctx.check(t == ref, "wrong-tensor-product", lambda: f"{what}: {[letters(o) for o in parts]} give {t}")
    # commutation, weights
    def anti(a, b):
        return sum(p != q and "I" not in (p, q) for p, q in zip(a, b)) & 1
    a, b = ops[: R.randint(1, k)], ops[-R.randint(1, k):]
    form = lambda l: l[0] if len(l) == 1 and R.random() < 0.5 else (list(l) if R.random() < 0.5 else np.array(l))  # noqa: E731
    c = np.asarray(pauli.commutator_sign(form(a), form(b)))
    want = np.array([[anti(letters(p)[0], letters(q)[0]) for q in b] for p in a]).squeeze()
    ctx.check(c.shape == want.shape and np.array_equal(c, want), "wrong-commutator", lambda: f"{what}: {words}: {c.tolist()}, not {want.tolist()}")
    if len(ops) % 2 == 0:
        h = len(ops) // 2
        c = np.asarray(pauli.commutator_sign(np.array(ops), np.array(ops), ignore_destabilisers=True))
        want = np.array([[anti(p, q) for q in words[h:]] for p in words[h:]]).squeeze()
        ctx.check(np.array_equal(c, want), "wrong-commutator", lambda: f"{what}: {words}: {c.tolist()}, not {want.tolist()}")
    w = [sum(p != "I" for p in x) for x in words]
    for arg in (np.array(ops), list(ops)):
        ctx.check([int(v) for v in pauli.count_qubits(arg, include_identities=False)] == w, "wrong-weight", lambda: f"{what}: {words}")
        ctx.check(set(pauli.count_qubits(arg)) == {n}, "wrong-weight", lambda: f"{what}: {words}")
    kept()
    # refusals
    state = pauli.zero_state(n)
    wrong = [
        lambda: pauli.string_to_pauli(misspelt(n, R)),
        lambda: pauli.string_to_pauli("X" * (n + 1), n),
        lambda: pauli.string_to_pauli(f"X0 {R.choice('ZYX')}{n + R.randrange(3)}", n),
        lambda: pauli.multiply(ops[0], operator([], n + 1, 0)),
        lambda: pauli.multiply(),
        lambda: pauli.multiply(ops[0], state),
        lambda: pauli.multiply(ops[0], words[0]),
        lambda: pauli.tensor_product(),
        lambda: pauli.tensor_product(ops[0], state),
        lambda: pauli.dict_to_pauli({0: "X", n + R.randrange(3): R.choice("XYZ")}, n),
        lambda: pauli.single_qubit_pauli_operator(R.choice(["X", "-Y", "+Z"]), n + R.randrange(2), n),
        lambda: pauli.single_qubit_pauli_operator(R.choice(["X", "-Y", "+Z"]), -1 - R.randrange(2), n),
        lambda: pauli.single_qubit_pauli_operator(R.choice(["W", "-I", "+"]), R.randrange(n), n),
        lambda: pauli.pauli_to_string(state),
        lambda: pauli.pauli_to_string(ops[0][:-1]),
        lambda: pauli.state_to_stabiliser_string(state[: R.randrange(1, 2 * n)]),
        lambda: pauli.apply_operator(operator([], n + 1, 0), state),
        lambda: pauli.apply_operator(np.array([ops[0]] * (2 * n + 1)), state),
        lambda: pauli.apply_operator(ops[0], ops[0]),
        lambda: pauli.apply_operator(words[0], state),
        lambda: pauli.insert_qubit_at(state, n + 1 + R.randrange(2)),
        lambda: pauli.insert_qubit_at(ops[0], R.randrange(n)),
        lambda: pauli.unpack_tableau(state[:, :-1]),
        lambda: pauli.unpack_tableau(np.array([state])),
    ]
    bad = R.randrange(len(wrong))
    try:
        wrong[bad]()
    except (ValueError, IndexError, TypeError, NotImplementedError):
        ctx.fault("refused operator")
    else:
        ctx.check(False, "not-refused", lambda: f"{what}: operator case {bad}")
    kept()
    ctx.check(np.array_equal(state, pauli.zero_state(n)), "changed-by-refusal", what)


def misspelt(n, R):
    t = list("X" * n)
    t[R.randrange(n)] = R.choice("QWxA")
    return "".join(t)


def run(case, ctx):
    import random

    sut.set_rng(case["seed"], case["rngmode"])
    w = World()

    def new(n):
        n = min(n, len(w.free))
        if n:
            ids = [w.free.pop(0) for _ in range(n)]
            w.regs.append([pauli.zero_state(n), ids])

    def verify(reg, what):
        tab, ids = reg
        n = len(ids)
        tab = np.asarray(tab)
        ctx.check(tab.shape == (2 * n, 2 * n + 1), "state-shape", lambda: f"{what}: {tab.shape} for {n} qubits")
        ctx.check(np.isin(tab, (0, 1)).all(), "state-values", lambda: f"{what}: {tab.tolist()}")
        rows = []
        for r in tab[n:].tolist():
            x = z = 0
            for c, q in enumerate(ids):
                x |= r[c] << q
                z |= r[n + c] << q
            rows.append(x | z << (ROOM + 1))
            try:
                w.st.contains(x, z, r[2 * n], what)
            except Impossible:
                ctx.check(False, "wrong-state", lambda: f"{what}: row {r} does not stabilise the state")
        ctx.check(Span(rows).rank == n, "dependent-rows", lambda: f"{what}: {tab[n:].tolist()}")

    def unchanged(reg, before, what):
        ctx.check(np.array_equal(reg[0], before), "changed-by-refusal", lambda: f"{what}: {before.tolist()} became {np.asarray(reg[0]).tolist()}")

    def measured(ids, factors, bits, forced, what):
        """Accept reported outcomes of commuting measurements made in some order."""
        k = len(factors)
        if k > 4 and None not in forced:
            first = w.st
            w.st = copy.deepcopy(first)
            try:
                for f, v in zip(factors, forced):
                    w.observe([(ids[c], p) for c, p in f], v)
                ctx.check(bits == forced, "forced-outcome-ignored", lambda: f"{what}: {factors} forced {forced} gave {bits}")
                ctx.probe("many outcomes forced at once")
            except Impossible:
                pass
            w.st = first
            forced = [None] * k
        orders = [list(range(k))[::-1], list(range(k))]
        if any(f is not None for f in forced) and 2 < k <= 4:
            orders = list(itertools.permutations(range(k)))
        first = w.st
        good = None
        possible = False
        for order in orders:
            w.st = copy.deepcopy(first)
            try:
                ok = True
                for j in order:
                    coin = w.observe([(ids[c], p) for c, p in factors[j]], bits[j])
                    if coin and forced[j] is not None and bits[j] != forced[j]:
                        ok = False
                possible = True
            except Impossible:
                break
            if ok:
                good = w.st
                break
        ctx.check(possible, "impossible-outcome", lambda: f"{what}: {factors} gave {bits}")
        ctx.check(good is not None, "forced-outcome-ignored", lambda: f"{what}: {factors} forced {forced} gave {bits}")
        w.st = good

    def boxed(reg):
        """The register as the state object of the simulator."""
        st = QuantumState(len(reg[1]))
        ctx.check(np.array_equal(np.asarray(st), pauli.zero_state(len(reg[1]))), "state-object", "a new state is not the zero state")
        st.tableau = reg[0]
        ctx.check(st.n_q == st.number_of_qubits == len(reg[1]), "state-object", lambda: f"{st.n_q} qubits")
        ctx.check(np.array_equal(np.asarray(st), reg[0]), "state-object", "array of the state")
        ctx.probe("state object")
        return st

    def gates1(reg, name, cols, form, box=False):
        tab, ids = reg
        f = {"x": pauli.x, "y": pauli.y, "z": pauli.z, "h": pauli.hadamard, "s": pauli.phase_gate}[name]
        if box and name != "s":
            st = boxed(reg)
            getattr(st, "hadamard" if name == "h" else name)(any_form(cols, form))
            reg[0] = st.tableau
        else:
            reg[0] = f(tab, any_form(cols, form))
        for c in cols:
            if name == "s":
                w.s(ids[c])
            else:
                getattr(w.st, name)(ids[c])

    def gates2(reg, name, pairs, form, box=False):
        tab, ids = reg
        f = pauli.cx if name == "cx" else pauli.cz
        cs, ts = as_form([a for a, _ in pairs], form), as_form([b for _, b in pairs], form)
        if box:
            st = boxed(reg)
            getattr(st, name)(cs, ts)
            reg[0] = st.tableau
        else:
            reg[0] = f(tab, cs, ts)
        for a, b in pairs:
            getattr(w.st, name)(ids[a], ids[b])

    if case.get("product"):
        product([operator([(c, p) for c, p in enumerate(t) if p != "I"], len(t), 0) for t in case["product"]],
                ctx, "product", strict=True)
    new(case["n"])
    pre = random.Random(case["seed"])
    ops = []
    for _ in range(case["scramble"]):
        ops.append([pre.choice(["g1", "g2", "g2"]), pre.getrandbits(40)])
    saved = None
    for pos, (kind, v) in enumerate(ops + case["ops"]):
        R = random.Random(v)
        ctx.steps += 1
        if not w.regs:
            new(1)
        reg = R.choice(w.regs)
        tab, ids = reg
        n = len(ids)
        what = f"operation {pos} ({kind} {v})"
        note = None
        if kind == "g1":
            gates1(reg, R.choice(GATES1), R.sample(range(n), R.randint(1, n) if R.random() < 0.5 else 1), R.randrange(5), R.random() < 0.2)
        elif kind == "g2":
            if n > 1:
                name = R.choice(["cx", "cz"])
                k = R.randint(1, n)
                pairs = [R.sample(range(n), 2) for _ in range(1 if R.random() < 0.5 else k)]
                gates2(reg, name, pairs, R.randrange(4), R.random() < 0.2)
        elif kind == "meas":
            base = R.choice("XZ")
            cols = R.sample(range(n), R.randint(1, min(n, R.choice([4, 4, 7]))))
            destructive = R.random() < 0.4
            if destructive and len(cols) == n:
                cols = cols[:-1]
            if cols:
                forced = [R.choice([None, 0, 1]) for _ in cols]
                style = R.randrange(4)
                if len(cols) > 4:
                    # (which of many forced outcomes are possible depends on the order of measurement:
                    # all of them are given, and they are compared where they are possible together)
                    style = R.choice([0, 0, 3])
                    v = R.choice([0, 1, None])
                    forced = [R.randrange(2) if v is None else v for _ in cols]
                if style == 0 or (style == 1 and len(cols) > 1 and R.random() < 0.5):
                    given, forced = None, [None] * len(cols)
                elif style == 1:
                    given, forced = forced[0], [forced[0]] * len(cols)
                elif style == 2:
                    given, forced = [forced[0]], [forced[0]] * len(cols)
                else:
                    given = list(forced) if R.random() < 0.5 else tuple(forced)
                scalar = len(cols) == 1 and R.random() < 0.5
                f = pauli.measure_x_base if base == "X" else pauli.measure_z_base
                kw = {} if given is None and R.random() < 0.5 else dict(forced_outcomes=given)
                reg[0], out = f(tab, cols[0] if scalar else list(cols), destructive=destructive, **kw)
                out = sut.bits([out] if np.ndim(out) == 0 else out, len(cols), "outcomes")
                measured(ids, [[(c, base)] for c in cols], out, forced, what)
                if destructive:
                    ctx.probe("destructive read-outs", len(cols))
                    for c, b in zip(cols, out):
                        if base == "X":
                            w.st.h(ids[c])
                        if b:
                            w.st.x(ids[c])
                        w.free.append(ids[c])
                    reg[1] = [q for c, q in enumerate(ids) if c not in cols]
                if any(x is not None for x in forced):
                    ctx.fault("forced outcome", sum(x is not None for x in forced))
                note = out
        elif kind == "op":
            cols = R.sample(range(n), R.randint(R.random() > 0.1, min(n, 4)))
            factors = [(c, R.choice("XYZ")) for c in cols]
            sign = R.randrange(2)
            style = R.randrange(3)
            op = operator(factors, n, sign)
            if style == 0:
                arg = op.copy()
            elif style == 1:
                arg = ("-" if sign else R.choice(["", "+"])) + "".join(dict(factors).get(c, "I") for c in range(n))
            else:
                arg = ("-" if sign else R.choice(["", "+"])) + " ".join(f"{p}{c}" for c, p in factors)
                arg = arg or "+"
            forced = R.choice([None, None, 0, 1])
            reg[0], out = pauli.measure(tab, arg, forced_outcome=forced)
            out = sut.bits([out], 1, "outcome")[0]
            if style == 0:
                ctx.check(np.array_equal(arg, op), "operator-changed", lambda: f"{what}: {arg.tolist()} was {op.tolist()}")
            measured(ids, [factors], [out ^ sign], [None if forced is None else forced ^ sign], what)
            if forced is not None:
                ctx.fault("forced outcome")
            note = out
        elif kind == "reset":
            p, sign = R.choice("XYZ"), R.choice(["", "", "-"])
            cols = R.sample(range(n), R.randint(1, n))
            if p != "Y" and not sign and R.random() < 0.4:
                st = boxed(reg)
                st.reset_qubits_to_eigenstate(p, as_form(cols, R.randrange(1, 4)))
                reg[0] = st.tableau
            else:
                reg[0] = pauli.reset_qubits_to_eigenstate(tab, sign + p, as_form(cols, R.randrange(4)))
            for c in cols:
                back = w.to_z(ids[c], p)
                w.st.reset(ids[c])
                if sign:
                    w.st.x(ids[c])
                back()
        elif kind == "insert":
            k = min(len(w.free), R.choice([1, 1, 2, 3]))
            if k:
                fresh = [w.free.pop(0) for _ in range(k)]
                if k == 1 and R.random() < 0.3:
                    reg[0] = pauli.append_qubit(tab)
                    reg[1] = ids + fresh
                else:
                    where = [R.randint(0, n) for _ in range(k)]
                    reg[0] = pauli.insert_qubit_at(tab, as_form(where, R.randrange(4)))
                    # positions refer to the state before the insertion
                    slots = sorted(where)
                    merged = []
                    for c in range(n + 1):
                        for _ in range(slots.count(c)):
                            merged.append(fresh.pop(0))
                        if c < n:
                            merged.append(ids[c])
                    reg[1] = merged
        elif kind == "new":
            if len(w.regs) < 3:
                new(R.randint(1, 3))
        elif kind == "join":
            if len(w.regs) > 1:
                regs = R.sample(w.regs, R.randint(2, len(w.regs)))
                before = [r[0].copy() for r in regs]
                t = pauli.tensor_product(*[r[0] for r in regs])
                for r, b in zip(regs, before):
                    ctx.check(np.array_equal(r[0], b), "factor-changed", lambda: what)
                joined = [t, sum((r[1] for r in regs), [])]
                w.regs = [r for r in w.regs if not any(r is q for q in regs)] + [joined]
                reg = joined
                ctx.probe("joined registers")
        elif kind == "text":
            show = R.random() < 0.5
            d, s = pauli.state_to_stabiliser_string(tab, show)
            both, out = R.random() < 0.5, io.StringIO()
            pauli.pprint_state(tab, show, both, file=out)
            want = (["Destabilisers:"] + d if both else []) + ["Stabilisers:"] + s
            ctx.check(out.getvalue().split("\n") == want + [""], "printed", lambda: f"{what}: {out.getvalue()!r} instead of {want}")
            if show:
                st = QuantumState(n)
                st.tableau = tab
                lines = str(st).split("\n")
                full = [
                    "+-"[r[-1]] + "".join("IXZY"[r[q] + 2 * r[n + q]] for q in range(n)) for r in np.asarray(tab).astype(int).tolist()
                ]
                ctx.check([x for x in lines if set(x) != {"-"}] == full and d + s == full, "printed", lambda: f"{what}: {lines} instead of {full}")
            if R.random() < 0.4:
                back = pauli.string_to_state(s, d, qubits=n)
                ctx.check(np.array_equal(back, tab), "text-differs", lambda: f"{what}: {s} {d}: {tab.tolist()} became {np.asarray(back).tolist()}")
                reg[0] = back
            else:
                rows = [[int("".join(str(b) for b in r[:n])[::-1], 2), int("".join(str(b) for b in r[n : 2 * n])[::-1], 2), int(r[2 * n])]
                        for r in np.asarray(tab)[n:].tolist()]
                for _ in range(R.choice([0, 2, 6])):
                    if n > 1:
                        a, b = R.sample(range(n), 2)
                        rows[a] = mul(rows[a], rows[b])
                R.shuffle(rows)
                text = []
                for x, z, sg in rows:
                    fs = ["IXZY"[(x >> c & 1) + 2 * (z >> c & 1)] for c in range(n)]
                    text.append("+-"[sg] + ("".join(fs) if show else " ".join(f"{p}{c}" for c, p in enumerate(fs) if p != "I")))
                reg[0] = pauli.string_to_state(text, qubits=n)
                ctx.probe("states read from generators")
        elif kind == "save":
            saved = w.copy()
        elif kind == "restore":
            if saved is not None:
                w = saved.copy()
                reg = w.regs[0] if w.regs else None
                ctx.fault("roll-back")
        elif kind == "algebra":
            algebra(R, ctx, what)
        elif kind == "times":
            factors = [(c, R.choice("XYZ")) for c in R.sample(range(n), R.randint(1, n))]
            op = operator(factors, n, R.randrange(2))
            before = tab.copy()
            res = np.asarray(pauli.apply_operator(op, tab))
            ctx.check(np.array_equal(before, tab), "state-changed", lambda: what)
            ctx.check(res.shape == tab.shape, "product-shape", lambda: f"{what}: {res.shape}")

            def packed(r):
                x = sum(int(b) << c for c, b in enumerate(r[:n]))
                return [x, sum(int(b) << c for c, b in enumerate(r[n : 2 * n])), int(r[2 * n])]

            for r, out in zip(before, res):
                ctx.check(np.array_equal(out[:-1], r[:-1] ^ op[:-1]), "wrong-product", lambda: f"{what}: {op} {r} {out}")
                a, b = packed(op), packed(r)
                if not ((a[0] & b[1]).bit_count() + (a[1] & b[0]).bit_count()) & 1:
                    ctx.check(packed(out) == mul(a, b), "wrong-product-sign", lambda: f"{what}: {op} {r} {out}")
        elif kind == "refuse":
            before = tab.copy()
            c = R.randrange(n)
            how = R.randrange(6)
            try:
                if how == 0:
                    bad = R.choice([2, -1, 7])
                    # refused only where the outcome would be chosen
                    op = operator([(c, R.choice("XYZ"))], n, 0)
                    if not any(pauli_anti(op, r) for r in np.asarray(tab)[n:]):
                        continue
                    pauli.measure(tab, op, forced_outcome=bad)
                elif how == 1:
                    pauli.measure(tab, operator([(c, "X")], n + 1, 0))
                elif how == 2:
                    pauli.measure_z_base(tab, [c], forced_outcomes=[0, 1])
                elif how == 3:
                    pauli.cx(tab, [c], [c, c])
                elif how == 4:
                    R.choice([pauli.x, pauli.y, pauli.z])(tab, [c, n + R.randrange(3)])
                else:
                    # a description in which one operator was exchanged
                    d, s = pauli.state_to_stabiliser_string(tab, True)
                    rows = [list(r) for r in np.asarray(tab)[:, :-1]]
                    a, b = R.randrange(2 * n), R.randrange(2 * n)
                    if n < 2 or a == b or b == (a + n) % (2 * n):
                        continue
                    # row a times the partner of row b anticommutes with row b
                    names = d + s
                    t = [int(v) for v in np.asarray(rows[a]) ^ np.asarray(rows[(b + n) % (2 * n)])]
                    names[a] = "+" + "".join("IXZY"[t[q] + 2 * t[n + q]] for q in range(n))
                    pauli.string_to_state(names[n:], names[:n], qubits=n)
            except (ValueError, IndexError) as e:
                ctx.fault("refused operation")
                note = type(e).__name__
            else:
                ctx.check(False, "not-refused", lambda: f"{what}: case {how}")
            unchanged(reg, before, f"{what}: case {how}")
        ctx.log(pos, kind, note)
        ctx.state(kind, len(reg[1]), str(note), pos)
        for r in w.regs:
            verify(r, what)
    if saved is not None:
        w = saved
        for r in w.regs:
            verify(r, "checkpoint at the end")


def pauli_anti(op, row):
    n = len(op) // 2
    return int(np.sum(op[:n] & row[n : 2 * n]) + np.sum(op[n : 2 * n] & row[:n])) & 1
