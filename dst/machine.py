"""Reference semantics of circuits: what a record must look like, given what it says.

``replay`` executes gates on a symbolic stabilizer state in lockstep with the reported
measurement outcomes and erasure flags.  What a fractional error did is unknown and is
represented by unknown bits; what the record says restricts them.
"""
from __future__ import annotations

from .core import Violation
from .model import Impossible, SymState


class Fail(Exception):
    """The library must refuse to execute this instruction."""

    def __init__(self, pos):
        self.pos = pos


def paulis_of(name, args):
    """[(probability, ((qubit, Pauli), ...))] of the alternatives of an E_ instruction."""
    if name == "E_PAULI":
        q = args[3]
        return [(p, ((q, c),)) for p, c in zip(args[:3], "XYZ")]
    a, b = args[15:]
    names = [x + y for x in "IXYZ" for y in "IXYZ"][1:]
    return [(p, ((a, n[0]), (b, n[1]))) for p, n in zip(args[:15], names)]


def outcomes_needed(gates):
    """(measurements, erasure flags); p of ERROR blocks with M must be 0 or 1."""
    m = e = 0
    for name, args in effective(gates):
        if name == "M":
            m += len(args)
        elif name == "E_ERASE":
            e += 1
    return m, e


def effective(gates):
    """The gates with certain ERROR blocks resolved; fractional ones become ("?", ...).

    Raises Fail where a continuation has no block.
    """
    block = False  # inside an error block
    done = False  # an alternative was applied
    branch = False  # the last alternative was applied ("maybe" if fractional)
    for pos, (name, args) in enumerate(gates):
        if name == "ERROR":
            block = True
            p = args[0]
            done = branch = True if p >= 1 else False if p <= 0 else None
            if branch or branch is None:
                yield from _apply(branch, args[1], args[2:])
        elif name == "ERROR_CONTINUE":
            if not block:
                raise Fail(pos)
            if branch or branch is None:
                yield from _apply(branch, args[0], args[1:])
        elif name == "ERROR_ELSE":
            if not block:
                raise Fail(pos)
            if done:
                branch = False
            else:
                p = args[0]
                certain = done is False
                branch = (True if certain else None) if p >= 1 else False if p <= 0 else None
                if branch is not False:
                    done = branch if done is False else None
                    yield from _apply(branch, args[1], args[2:])
        else:
            block = False
            yield name, args


def _apply(branch, name, args):
    if branch:
        yield name, args
    else:
        yield "?", (name, args)


def replay(st: SymState, gates, raw, era, what):
    """Check the outcomes of the given gates; returns the number of coins seen."""
    k = j = coins = 0
    for name, args in effective(gates):
        if name in ("X", "Y", "Z", "H", "CX", "CZ", "R"):
            st.gate(name, args)
        elif name == "M":
            for q in args:
                try:
                    coins += st.observe(q, raw[k], "measurement")
                except Impossible:
                    raise Violation(
                        "impossible-outcome", f"{what}: M {q} (outcome {k}) cannot give {raw[k]}; record {raw}; {gates}"
                    ) from None
                k += 1
        elif name == "E_ERASE":
            p, q = args
            if (p <= 0 and era[j]) or (p >= 1 and not era[j]):
                raise Violation("erasure-flag", f"{what}: E_ERASE {p} {q} flagged {era[j]}")
            if era[j]:
                st.random_pauli(q)
            j += 1
        elif name in ("E_PAULI", "E_PAULI2"):
            for p, ps in paulis_of(name, args):
                if p >= 1:
                    for q, c in ps:
                        st.pauli(q, c)
                elif p > 0:
                    maybe(st, ps)
        elif name == "DEPOLARIZE":
            for q in args:
                st.random_pauli(q)
        elif name == "?":
            g, qs = args
            if g == "DEPOLARIZE":
                for q in qs:
                    st.random_pauli(q)
            else:
                maybe(st, [(q, g) for q in qs])
        else:
            raise ValueError(name)
    return coins


def maybe(st, ps):
    """The Paulis were applied, or not."""
    u = st.unknown()
    for q, c in ps:
        if c in "XY":
            st._flip_sym(st.Z[q], u)
        if c in "YZ":
            st._flip_sym(st.X[q], u)


def certain_program(rng, n, length, stim=False, blocks=True, frac=True, measure_in_error=True):
    """A random circuit with error instructions as [name, args] pairs."""
    gates = []
    prob = lambda: rng.choice([0.0, 1.0, 0.0, 1.0, 0.3, 0.7] if frac else [0.0, 1.0])  # noqa: E731

    def qubits(g):
        if g in ("CX", "CZ"):
            return rng.sample(range(n), 2 * rng.randint(1, max(1, n // 2)))
        return rng.sample(range(n), rng.randint(1, min(n, 3)))

    def branch(p):
        pool = ["X", "Y", "Z"]
        if not stim and p in (0.0, 1.0):
            pool += ["H", "R", "DEPOLARIZE"] + (["M"] if measure_in_error else []) + (["CX", "CZ"] if n > 1 else [])
        elif not stim:
            pool += ["DEPOLARIZE"]
        g = rng.choice(pool)
        return g, ([rng.randrange(n)] if stim else qubits(g))

    names = ["X", "Y", "Z", "H", "R", "M", "M", "E_PAULI", "E_ERASE", "ERROR", "DEPOLARIZE"]
    if n > 1:
        names += ["CX", "CZ", "E_PAULI2"]
    weights = [rng.random() + 0.1 for _ in names]
    while len(gates) < length:
        g = rng.choices(names, weights)[0]
        if g == "ERROR":
            p = prob()
            b, q = branch(p)
            gates.append(["ERROR", [p, b, *q]])
            if blocks and not stim:
                ps = [p]
                for _ in range(rng.choice([0, 0, 1, 2, 3])):
                    if rng.random() < 0.5:
                        b, q = branch(0.5 if any(0 < x < 1 for x in ps) else 1.0)
                        gates.append(["ERROR_CONTINUE", [b, *q]])
                    else:
                        p = prob()
                        ps.append(p)
                        b, q = branch(0.5 if any(0 < x < 1 for x in ps) else p)
                        gates.append(["ERROR_ELSE", [p, b, *q]])
        elif g == "E_PAULI":
            k = rng.randrange(4)
            ps = [0.0, 0.0, 0.0]
            if frac and rng.random() < 0.3:
                ps = [rng.choice([0.0, 0.2, 0.3]) for _ in range(3)]
            elif k < 3:
                ps[k] = 1.0
            gates.append(["E_PAULI", ps + [rng.randrange(n)]])
        elif g == "E_PAULI2":
            ps = [0.0] * 15
            if frac and rng.random() < 0.3:
                for _ in range(3):
                    ps[rng.randrange(15)] = 0.25
            elif rng.random() < 0.8:
                ps[rng.randrange(15)] = 1.0
            gates.append(["E_PAULI2", ps + rng.sample(range(n), 2)])
        elif g == "E_ERASE":
            gates.append(["E_ERASE", [prob(), rng.randrange(n)]])
        else:
            gates.append([g, qubits(g)])
    return gates


def valid(gates, n, stim=False):
    """Is this (possibly shrunk) program meaningful?"""
    for g, a in gates:
        if not a:
            return False
        if g in ("ERROR", "ERROR_ELSE"):
            ok = len(a) > 2 and _plain(a[1], a[2:], n) and 0 <= a[0] <= 1
            if stim and (len(a) != 3 or a[1] not in "XYZ"):
                ok = False
        elif g == "ERROR_CONTINUE":
            ok = len(a) > 1 and _plain(a[0], a[1:], n)
        elif g == "E_PAULI":
            ok = len(a) == 4 and a[3] < n and sum(a[:3]) <= 1
        elif g == "E_PAULI2":
            ok = len(a) == 17 and max(a[15:]) < n and a[15] != a[16] and sum(a[:15]) <= 1
        elif g == "E_ERASE":
            ok = len(a) == 2 and a[1] < n
        else:
            ok = _plain(g, a, n)
        if not ok:
            return False
    return open_enough(gates)


def open_enough(gates):
    """Do fractional branches contain only gates which the model can leave open?"""
    try:
        for g, a in effective([(g, tuple(a)) for g, a in gates]):
            if g == "?" and a[0] not in ("X", "Y", "Z", "DEPOLARIZE"):
                return False
    except Fail:
        pass
    return True


def _plain(g, q, n):
    if not q or any((not isinstance(v, int)) or v >= n for v in q):
        return False
    if g in ("CX", "CZ"):
        return len(q) % 2 == 0 and all(a != b for a, b in zip(q[::2], q[1::2]))
    return g in ("X", "Y", "Z", "H", "M", "R", "DEPOLARIZE") and len(set(q)) == len(q)
