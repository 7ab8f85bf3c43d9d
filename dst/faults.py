"""Fault injection through the circuits of the real generator.

The generator is given distinguishable ("tagged") error rates; every error instruction
it emits is then turned into a certain strike (probability 1) or a certain miss
(probability 0), so the simulator decides which fault happens where and when.
"""
from __future__ import annotations

from . import sut
from .core import Invalid, Violation
from .model import CodeModel, Frame, Layout, Span

ALL = ("pauli", "erasure", "measurement", "R", "H", "M", "CX", "CZ")
P1 = "xyz"
P2 = [a + b for a in "ixyz" for b in "ixyz"][1:]
TAG = {"R": (0.011, 0.021, 0.031), "H": (0.012, 0.022, 0.032), "M": (0.013, 0.023, 0.033)}


def pauli_bits(p):
    p = p.upper()
    return (p in "XY", p in "YZ")


def edges_of(model):
    """(stabilizer index, data index, gate) for every coupling of a stabilizer."""
    out = []
    for i, (x, z) in enumerate(model.stabs):
        for q in range(model.n):
            if x >> q & 1:
                out.append((i, q, "CX"))
            elif z >> q & 1:
                out.append((i, q, "CZ"))
    return out


def gen_faults(rng, spec, n, kinds, gate_weight=True):
    """n abstract faults; positions are reduced modulo the actual ranges."""
    out = []
    for _ in range(n):
        k = rng.choice(kinds)
        t, a = rng.randrange(8), rng.randrange(200)
        if k == "pauli":
            out.append(["P", t, a, rng.choice("XYZ")])
        elif k == "erasure":
            out.append(["E", t, a])
        elif k == "measurement":
            out.append(["F", t, a])
        elif k in ("R", "M"):
            out.append(["G1", k, t, a, 0, rng.choice("XYZ")])
        elif k == "H":
            out.append(["G1", k, t, a, rng.randrange(2), rng.choice("XYZ")])
        else:
            out.append(["G2", t, a, rng.choice(P2).upper()])
    return out


class Memory:
    """One memory experiment with controllable faults."""

    def __init__(self, spec, ops, ancilla, sequential=False, code=None):
        self.spec, self.ops, self.ancilla = spec, ops, ancilla
        self.code = code if code is not None else sut.build_code(spec)
        if sequential:
            self.code.lattice.n_time_steps = None
        self.model = CodeModel(self.code)
        if sut.needs_ancilla(self.model, ops):
            self.ancilla = ancilla = True
        self.lay = Layout(self.model, ops, ancilla)
        self.edges = edges_of(self.model)
        self.rounds = self.model.rounds
        self.didx = {e: i for i, e in enumerate(self.model.data_ids)}
        self.aidx = {e: i for i, e in enumerate(self.model.anc_ids)}

    # -- faults ---------------------------------------------------------
    def concrete(self, faults):
        """Reduce abstract faults to concrete ones; drops those with no place to act."""
        m, R = self.model, self.rounds
        out = []
        for f in faults:
            k = f[0]
            if k == "P":
                out.append(("P", f[1] % R, f[2] % m.n, f[3]))
            elif k == "E":
                out.append(("E", f[1] % R, f[2] % m.n))
            elif R < 2:
                continue
            elif k == "F":
                out.append(("F", f[1] % (R - 1), f[2] % m.m))
            elif k == "G1":
                out.append(("G1", f[1], f[2] % (R - 1), f[3] % m.m, f[4] % (2 if f[1] == "H" else 1), f[5]))
            elif k == "G2":
                i, q, g = self.edges[f[2] % len(self.edges)]
                out.append(("G2", g, f[1] % (R - 1), i, q, f[3]))
            else:
                raise Invalid("fault")
        return out

    # -- configuration --------------------------------------------------
    def tagged(self, kinds):
        """Error tables with a distinct rate for everything."""
        m = self.model
        qe, ge = {}, {}
        if "pauli" in kinds:
            qe["pauli"] = {
                q: {"x": 0.1 + 1e-4 * i, "y": 0.2 + 1e-4 * i, "z": 0.3 + 1e-4 * i}
                for i, q in enumerate(m.data_ids)
            }
        if "erasure" in kinds:
            qe["erasure"] = {q: {"p": 0.4 + 1e-4 * i} for i, q in enumerate(m.data_ids)}
        if "measurement" in kinds:
            qe["measurement"] = {q: {"p": 0.5 + 1e-4 * i} for i, q in enumerate(m.anc_ids)}
        for g in ("R", "H", "M"):
            if g in kinds:
                ge[g] = {
                    a: dict(zip(P1, (v + 1e-5 * i for v in TAG[g])))
                    for i, a in enumerate(m.anc_ids)
                }
        for g in ("CX", "CZ"):
            if g in kinds:
                ge[g] = {
                    (m.anc_ids[i], m.data_ids[q]): {
                        p: 0.001 * (k + 1) + 1e-6 * j for k, p in enumerate(P2)
                    }
                    for j, (i, q, gg) in enumerate(self.edges)
                    if gg == g
                }
        return qe, ge

    def copy_tables(self, qe, ge):
        import copy

        return copy.deepcopy(qe), copy.deepcopy(ge)

    def ideal(self):
        return sut.make_circuit(self.code, {}, {}, self.ops, self.ancilla)

    def noisy(self, qe, ge):
        a, b = self.copy_tables(qe, ge)
        return sut.make_circuit(self.code, a, b, self.ops, self.ancilla)

    def locate(self, circ, qe, ge):
        """[(position, location)] of every error instruction of a tagged circuit."""
        m = self.model
        count: dict = {}
        out = []

        def nth(key):
            count[key] = count.get(key, -1) + 1
            return count[key]

        def same(a, b):
            return len(a) == len(b) and all(abs(x - y) < 1e-12 for x, y in zip(a, b))

        for pos, (name, args) in enumerate(circ.gates):
            if name in ("X", "Y", "Z", "H", "R", "M", "CX", "CZ"):
                continue
            loc = None
            if name == "E_PAULI":
                q = args[3]
                if q in self.didx:
                    want = qe.get("pauli", {}).get(q)
                    if want and same(args[:3], [want[p] for p in P1]):
                        loc = ("P", nth(("P", q)), self.didx[q])
                elif q in self.aidx:
                    for g in ("R", "H", "M"):
                        want = ge.get(g, {}).get(q)
                        if want and same(args[:3], [want[p] for p in P1]):
                            c = 2 if g == "H" else 1
                            k = nth((g, q))
                            loc = ("G1", g, k // c, self.aidx[q], k % c)
            elif name == "E_ERASE":
                p, q = args
                want = qe.get("erasure", {}).get(q)
                if q in self.didx and want and same([p], [want["p"]]):
                    loc = ("E", nth(("E", q)), self.didx[q])
            elif name == "ERROR" and len(args) == 3 and args[1] == "X":
                p, _, q = args
                want = qe.get("measurement", {}).get(q)
                if q in self.aidx and want and same([p], [want["p"]]):
                    loc = ("F", nth(("F", q)), self.aidx[q])
            elif name == "E_PAULI2":
                a, d = args[15:]
                for g in ("CX", "CZ"):
                    want = ge.get(g, {}).get((a, d))
                    if want and same(args[:15], [want[p] for p in P2]):
                        loc = ("G2", g, nth((g, a, d)), self.aidx[a], self.didx[d])
            if loc is None:
                raise Violation("unexpected-error-instruction", f"instruction {pos}: {name} {args}")
            out.append((pos, loc))
        # every place at which a configured error can act must be there
        R = self.rounds
        want = set()
        for i, q in enumerate(m.data_ids):
            for t in range(R):
                if "pauli" in qe:
                    want.add(("P", t, i))
                if "erasure" in qe:
                    want.add(("E", t, i))
        for t in range(R - 1):
            for i in range(m.m):
                if "measurement" in qe:
                    want.add(("F", t, i))
                for g in ("R", "H", "M"):
                    if g in ge:
                        for o in range(2 if g == "H" else 1):
                            want.add(("G1", g, t, i, o))
            for i, q, g in self.edges:
                if g in ge:
                    want.add(("G2", g, t, i, q))
        got = {loc for _, loc in out}
        if got != want:
            raise Violation(
                "fault-locations",
                f"{self.spec}: missing {sorted(want - got, key=str)[:4]}, "
                f"unexpected {sorted(got - want, key=str)[:4]}",
            )
        return out

    def rewrite(self, circ, located, faults):
        """The circuit in which exactly the given faults strike."""
        hit: dict = {}
        for f in faults:
            if f[0] == "P":
                hit[f[:3]] = f[3]
            elif f[0] == "G1":
                hit[f[:5]] = f[5]
            elif f[0] == "G2":
                hit[f[:5]] = f[5]
            else:
                hit[f] = True
        gates = [(n, tuple(a)) for n, a in circ.gates]
        for pos, loc in located:
            name, args = gates[pos]
            h = hit.get(loc)
            if name == "E_PAULI":
                p = [1.0 if h == c else 0.0 for c in "XYZ"]
                gates[pos] = (name, (*p, args[3]))
            elif name == "E_PAULI2":
                p = [1.0 if h == c.upper() else 0.0 for c in P2]
                gates[pos] = (name, (*p, *args[15:]))
            elif name == "E_ERASE":
                gates[pos] = (name, (1.0 if h else 0.0, args[1]))
            else:
                gates[pos] = (name, (1.0 if h else 0.0, *args[1:]))
        return sut.circuit_from_gates(gates)

    # -- expectation ----------------------------------------------------
    def dedup(self, faults):
        """At most one fault per location (the last one)."""
        d = {}
        for f in faults:
            d[f[:3] if f[0] == "P" else f[:5] if f[0][0] == "G" else f] = f
        return list(d.values())

    def gate_positions(self, ideal_gates):
        """(gate, qubits) -> positions in the ideal circuit, in order."""
        pos: dict = {}
        for i, (name, args) in enumerate(ideal_gates):
            if name in ("CX", "CZ"):
                for a, b in zip(args[::2], args[1::2]):
                    pos.setdefault((name, a, b), []).append(i)
            else:
                for a in args:
                    pos.setdefault((name, a), []).append(i)
        return pos

    def expect(self, faults, ideal_gates):
        """(syndrome, toggles, erasure flags) the faults must produce; erasures
        contribute only their flags (see ``erasure_columns``)."""
        m, R = self.model, self.rounds
        syn = [[0] * m.m for _ in range(R)]
        tog = [0] * len(self.lay.idx)
        era = [[0] * m.n for _ in range(R)]
        frame_at: dict[int, list] = {}
        pos = None
        for f in faults:
            if f[0] == "P":
                bx, bz = pauli_bits(f[3])
                self._add(syn, tog, f[1], (bx << f[2], bz << f[2]))
            elif f[0] == "E":
                era[f[1]][f[2]] = 1
            elif f[0] == "F":
                syn[f[1]][f[2]] ^= 1
                syn[f[1] + 1][f[2]] ^= 1
            else:
                if pos is None:
                    pos = self.gate_positions(ideal_gates)
                if f[0] == "G1":
                    a = m.anc_ids[f[3]]
                    c = 2 if f[1] == "H" else 1
                    at = pos[f[1], a][c * (f[2] + 1) + f[4]]
                    frame_at.setdefault(at, []).append([(a, f[5])])
                else:
                    a, d = m.anc_ids[f[3]], m.data_ids[f[4]]
                    at = pos[f[1], a, d][f[2] + 1]
                    frame_at.setdefault(at, []).append([(a, f[5][0]), (d, f[5][1])])
        if frame_at:
            fr = Frame()
            for i, (name, args) in enumerate(ideal_gates):
                fr.gate(name, args)
                for strikes in frame_at.get(i, ()):
                    for q, p in strikes:
                        fr.pauli(q, p)
            t2, s2 = self.lay.split(fr.flips)
            for t in range(R):
                for i in range(m.m):
                    syn[t][i] ^= s2[t][i]
            tog = [a ^ b for a, b in zip(tog, t2)]
        return syn, tog, era

    def _add(self, syn, tog, t, p):
        s = self.model.syndrome_of(p)
        for i in range(self.model.m):
            syn[t][i] ^= s >> i & 1
        for j, li in enumerate(self.lay.idx):
            lx, lz = self.model.logs[li]
            tog[j] ^= ((p[0] & lz).bit_count() + (p[1] & lx).bit_count()) & 1

    def pack(self, syn, tog):
        v = 0
        k = 0
        for row in syn:
            for b in row:
                v |= b << k
                k += 1
        for b in tog:
            v |= b << k
            k += 1
        return v

    def erasure_span(self, era):
        """All record changes the erased qubits could have caused."""
        sp = Span()
        for t, row in enumerate(era):
            for q, e in enumerate(row):
                if e:
                    for p in ((1 << q, 0), (0, 1 << q)):
                        syn = [[0] * self.model.m for _ in range(self.rounds)]
                        tog = [0] * len(self.lay.idx)
                        self._add(syn, tog, t, p)
                        sp.add(self.pack(syn, tog))
        return sp
