"""A02: circuits keep their meaning as text and as OpenQASM."""
import random
import re

import numpy as np

from dst import sut
from dst.core import Invalid
from dst.machine import certain_program, valid
from dst.model import StabState

from plaquette.circuit import Circuit, CircuitBuilder
from plaquette.circuit.openqasm import GateNotSupportedError, convert_to_openqasm

ID = "A02"
CASES = {"quick": 5000, "thorough": 100000}
RULE = (
    "one case = history of 3-30 operations on up to three circuits: instructions appended by call, builder "
    "or text with comments and odd spacing, refused instructions in between, circuits handed over as text "
    "(also with comments, blank lines and foreign line ends put in on the way) and continued by the receiver, "
    "original and received circuit run with the same seed on both backends, OpenQASM exports executed by an "
    "independent interpreter on one half of maximally entangled pairs; distinct = different event log"
)
STATES = "distinct (operation, instruction, number of instructions) triples"
REAL = ["Circuit", "CircuitBuilder", "OpenQASM export", "Device with both backends"]
STUB = ["text channel between two sessions", "random source (seeded)", "OpenQASM interpreter (reference state)"]
ASSUME = ["the export of resets is a known finding: programs without any reset statement are judged as if none was there"]
FROZEN = ("gates",)
NOISE = ("ERROR", "ERROR_ELSE", "ERROR_CONTINUE", "E_PAULI", "E_PAULI2", "E_ERASE", "DEPOLARIZE")
BUILD = {"E_PAULI": "e_pauli", "E_PAULI2": "e_pauli2", "E_ERASE": "e_erase", "ERROR": "error",
         "ERROR_ELSE": "error_else", "ERROR_CONTINUE": "error_continue", "DEPOLARIZE": "depolarize"}
KINDS = ["append"] * 5 + ["bulk"] * 2 + ["text"] * 3 + ["qasm"] * 3 + ["run", "run", "bad", "bad", "count"]


def gen(rng, i):
    n = rng.choice([1, 2, 3, 4, 6])
    gates = certain_program(rng, n, rng.choice([5, 15, 40]), blocks=rng.random() < 0.5)
    if rng.random() < 0.4:
        gates = [[g, q] for g, q in gates if g not in NOISE] or [["H", [0]]]
    if rng.random() < 0.5:
        gates = [[g, q] for g, q in gates if g != "R"] or [["H", [0]]]
    for g, a in gates:
        # probabilities of every size, as floating point numbers
        if g.startswith("E_") and 1.0 not in a:
            for k, v in enumerate(a):
                if v == 0.0 and isinstance(v, float) and rng.random() < 0.3:
                    a[k] = rng.choice([rng.random() / 100, 10.0 ** -rng.randint(2, 18), (0.1 + 0.2) / 30])
    ops = [[rng.choice(KINDS), rng.getrandbits(40)] for _ in range(rng.choice([3, 8, 16, 30]))]
    return dict(n=n, gates=gates, ops=ops)


def spoken(g, a, R):
    """An instruction as a line of text."""
    line = R.choice(["", "", " ", "\t"]) + g
    for v in a:
        line += R.choice([" ", " ", "  ", "\t"]) + (repr(v) if isinstance(v, float) else str(v))
    if R.random() < 0.3:
        line += R.choice([" # note", "#X 1", " # M 0"])
    return line


def disturbed(text, R):
    """What editors, mailers and people do to a text without changing its meaning."""
    out = []
    for line in text.split("\n"):
        if R.random() < 0.1:
            out.append(R.choice(["", "   ", "# comment", "  # X 3"]))
        out.append(R.choice(["", "", "  "]) + line + R.choice(["", "", " ", " # end"]))
    end = R.choice(["\n", "\n", "\r\n"])
    return end.join(out) + R.choice(["", end])


def typed(gates):
    return [(g, tuple((type(v) is float, v) if isinstance(v, float) else v for v in a)) for g, a in gates]


def run(case, ctx):
    n = case["n"]
    if not case["gates"] or not valid(case["gates"], n):
        raise Invalid("gates")
    for g, a in case["gates"]:
        if g in NOISE and any(isinstance(v, float) and not 0 <= v <= 1 for v in a):
            raise Invalid("probability")
    sut.set_rng(case["seed"])
    source = [(g, tuple(a)) for g, a in case["gates"]]
    circs = [[Circuit(), []]]  # [circuit, what it must contain]
    at = 0

    def same(c, what):
        got = sut.gate_list(c[0])
        ctx.check(typed(got) == typed(c[1]), "circuit-differs", lambda: f"{what}: {got}, expected {c[1]}")

    for pos, (kind, v) in enumerate(case["ops"]):
        R = random.Random(v)
        ctx.steps += 1
        c = R.choice(circs)
        what = f"operation {pos} ({kind} {v})"
        note = None
        if kind in ("append", "bulk"):
            k = 1 if kind == "append" else R.randint(2, 12)
            some = []
            for _ in range(k):
                some.append(source[at % len(source)])
                at += 1
            how = R.randrange(4)
            if how == 0:
                for g, a in some:
                    c[0].append(g, *a)
            elif how == 1:
                b = CircuitBuilder(c[0])
                for g, a in some:
                    getattr(b, BUILD.get(g, g))(*a)
            elif how == 2:
                c[0].append_from_str("\n".join(spoken(g, a, R) for g, a in some))
            else:
                for g, a in some:
                    c[0].append(g, *[np.int64(x) if isinstance(x, int) else np.float64(x) if isinstance(x, float) else x for x in a])
            c[1].extend(some)
            note = (how, k)
        elif kind == "text":
            text = str(c[0])
            if R.random() < 0.6:
                text = disturbed(text, R)
                ctx.fault("disturbed text")
            new = Circuit.from_str(text)
            d = [new, list(c[1])]
            same(d, what)
            ctx.check(str(new) == str(c[0]), "text-differs", lambda: f"{what}: {str(new)!r} {str(c[0])!r}")
            if len(circs) < 3:
                circs.append(d)
            else:
                circs[R.randrange(3)] = d
            note = len(c[1])
        elif kind == "bad":
            q = R.randrange(n)
            bad = R.choice([("QX", (q,)), ("X", ("a",)), ("E_ERASE", (0.5,)), ("E_ERASE", (0.5, q, q)), ("E_PAULI", (0.1, 0.1, q)),
                            ("E_PAULI2", (0.1,) * 14 + (0, 1)), ("ERROR", (1.5, "X", q)), ("ERROR", (-0.1, "X", q)), ("ERROR", ("X", q)),
                            ("ERROR", (0.5, "WW", q)), ("ERROR_ELSE", (2.0, "X", q)), ("ERROR_CONTINUE", ("QQ", q)), ("CX", (0.5, "b")),
                            ("M", ("0.5",)), ("E_ERASE", ("X", q))])
            try:
                if R.random() < 0.5:
                    c[0].append(bad[0], *bad[1])
                else:
                    c[0].append_from_str(" ".join([bad[0], *map(str, bad[1])]))
            except (ValueError, TypeError, AssertionError):
                ctx.fault("refused instruction")
            else:
                ctx.check(False, "not-refused", lambda: f"{what}: {bad}")
            note = bad[0]
        elif kind == "count":
            want = sum(len(a) for g, a in c[1] if g == "M")
            ctx.check(c[0].number_measured_qubits == want, "measured-qubits", lambda: f"{what}: {c[0].number_measured_qubits}, not {want}")
            if c[1]:
                want = 1 + max(x for _, a in c[1] for x in a if isinstance(x, int))
                ctx.check(c[0].number_of_qubits == c[0].n_q == want, "qubits", lambda: f"{what}: {c[0].number_of_qubits}, not {want}")
        elif kind == "run":
            if not c[1] or not any(g == "M" for g, _ in c[1]):
                continue
            got = []
            for circ in (c[0], Circuit.from_str(disturbed(str(c[0]), R))):
                stim = R.random() < 0.4 and not any(g.startswith("ERROR") for g, _ in c[1])
                # a foreign circuit object, a fresh device, the same seed
                got.append(record(circ, v, False))
                if stim:
                    got[-1] += record(circ, v, True)
                R = random.Random(v + 1)
            note = got[0]
            ctx.check(got[0][:2] == got[1][:2], "runs-differ", lambda: f"{what}: {c[1]} gives {got[0]}, as text {got[1]}")
        elif kind == "qasm":
            note = qasm(c, R, ctx, what, case.get("strict", False))
        ctx.log(pos, kind, note)
        ctx.state(kind, c[1][-1][0] if c[1] else None, len(c[1]))
        for d in circs:
            same(d, what)


def record(circ, seed, stim):
    try:
        sut.set_rng(seed % 2**31)
        dev = sut.Device("stim", batch_size=3) if stim else sut.Device("clifford")
        dev.run(circ)
        raw, er = dev.get_sample()
        return [[int(b) for b in raw], None if er is None else [int(b) for b in er]]
    except Exception as e:  # noqa: B902
        # a continuation without a block, an instruction this backend does not know
        return [type(e).__name__, None]


STATEMENT = re.compile(r"^(?:(h|x|y|z|reset)\s+q\[(\d+)\]|(cx|cz)\s+q\[(\d+)\]\s*,\s*q\[(\d+)\]|measure\s+q\[(\d+)\]\s*->\s*c\[(\d+)\])$")


def parse(text, ctx, what):
    """(qubits, bits, statements) of an OpenQASM 2.0 program."""
    parts = [s.strip() for s in re.sub(r"//[^\n]*", "", text).split(";")]
    ctx.check(parts[-1] == "", "not-qasm", lambda: f"{what}: {text!r}")
    parts = [" ".join(s.split()) for s in parts[:-1]]
    ctx.check(parts[:2] == ["OPENQASM 2.0", 'include "qelib1.inc"'], "not-qasm", lambda: f"{what}: {parts[:2]}")
    nq = nc = None
    out = []
    for s in parts[2:]:
        m = re.match(r"^(qreg q|creg c)\[(\d+)\]$", s)
        if m:
            if m[1] == "qreg q":
                nq = int(m[2])
            else:
                nc = int(m[2])
            continue
        m = STATEMENT.match(s)
        ctx.check(m is not None and nq is not None and nc is not None, "not-qasm", lambda: f"{what}: statement {s!r}")
        if m[1]:
            out.append((m[1], int(m[2])))
        elif m[3]:
            out.append((m[3], int(m[4]), int(m[5])))
        else:
            out.append(("measure", int(m[6]), int(m[7])))
        ctx.check(all(q < nq for q in (out[-1][1:2] if m[6] else out[-1][1:])), "not-qasm", lambda: f"{what}: {s!r} with {nq} qubits")
    return nq, nc, out


def qasm(c, R, ctx, what, strict):
    gates = c[1]
    noisy = [g for g, _ in gates if g in NOISE]
    arg = c[0] if R.random() < 0.5 else str(c[0])
    if noisy:
        try:
            convert_to_openqasm(arg)
        except GateNotSupportedError as e:
            ctx.fault("refused export")
            ctx.check(e.gate == noisy[0], "wrong-refusal", lambda: f"{what}: {e.gate}, not {noisy[0]}")
        else:
            ctx.check(False, "not-refused", lambda: f"{what}: exported {noisy}")
        if any(g.startswith("ERROR") for g in noisy) and any("M" in a for g, a in gates if g.startswith("ERROR")):
            pass
        text = convert_to_openqasm(arg, ignore_unsupported=True)
    else:
        text = convert_to_openqasm(arg) if R.random() < 0.5 else convert_to_openqasm(arg, R.random() < 0.5)
    if not gates:
        return None
    nq, nc, prog = parse(text, ctx, what)
    plain = [(g, a) for g, a in gates if g not in NOISE]
    used = 1 + max(x for _, a in gates for x in a if isinstance(x, int))
    bits = sum(len(a) for g, a in plain if g == "M")
    ctx.check(nq >= used and nc >= bits, "registers", lambda: f"{what}: {nq} qubits, {nc} bits for {gates}")
    resets = sum(len(a) for g, a in plain if g == "R")
    ctx.check(not strict or not resets or any(s[0] == "reset" for s in prog), "resets-not-exported", lambda: f"{what}: {plain} became {prog}")
    if resets and not strict and not any(s[0] == "reset" for s in prog):
        ctx.probe("exports without resets")
        plain = [(g, a) for g, a in plain if g != "R"]
    # the circuit on one half of entangled pairs, with outcomes of our choice
    st = entangled(nq)
    outcomes, thrown = [], {}
    for g, a in plain:
        if g in ("M", "R"):
            for q in a:
                v = st.peek(q)
                if v is None:
                    v = R.randrange(2)
                    st.measure(q, v)
                if g == "M":
                    outcomes.append(v)
                else:
                    thrown.setdefault(q, []).append(v)
                    if v:
                        st.x(q)
        else:
            st.gate(g, a)
    other = entangled(nq)
    read = {}
    for s in prog:
        if s[0] in "hxyz":
            getattr(other, s[0])(s[1])
        elif s[0] in ("cx", "cz"):
            getattr(other, s[0])(s[1], s[2])
        else:
            if s[0] == "measure":
                ctx.check(s[2] < bits and s[2] not in read, "bits", lambda: f"{what}: {s} of {bits}; {prog}")
                v = read[s[2]] = outcomes[s[2]]
            else:
                ctx.check(bool(thrown.get(s[1])), "program-differs", lambda: f"{what}: {s} was not in {plain}")
                v = thrown[s[1]].pop(0)
            _, possible = other.measure(s[1], v)
            ctx.check(possible, "program-differs", lambda: f"{what}: {s} cannot give {v}: {prog} for {plain}")
            if s[0] == "reset" and v:
                other.x(s[1])
    ctx.check(len(read) == bits, "bits", lambda: f"{what}: {len(read)} of {bits} results")
    ctx.check(not any(thrown.values()), "program-differs", lambda: f"{what}: resets are missing: {prog} for {plain}")
    ctx.check(st.canonical() == other.canonical(), "program-differs", lambda: f"{what}: {prog} is not {plain}")
    return len(prog)


def entangled(n):
    st = StabState(2 * n)
    for q in range(n):
        st.h(n + q)
        st.cx(n + q, q)
    return st
