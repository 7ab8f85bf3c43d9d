"""Independent reference models: stabilizer states, Pauli frames, codes, GF(2)."""
from __future__ import annotations

PAULI_BITS = {"I": (0, 0), "X": (1, 0), "Y": (1, 1), "Z": (0, 1)}


def commutes(p, q) -> int:
    """0 if the Paulis (x, z masks) commute, 1 if they anticommute."""
    return ((p[0] & q[1]).bit_count() + (p[1] & q[0]).bit_count()) & 1


class Span:
    """GF(2) row space of integers."""

    def __init__(self, rows=()):
        self.basis: dict[int, int] = {}
        for r in rows:
            self.add(r)

    def reduce(self, v: int) -> int:
        while v:
            b = v.bit_length() - 1
            r = self.basis.get(b)
            if r is None:
                return v
            v ^= r
        return 0

    def reduce_full(self, v: int) -> int:
        for b in sorted(self.basis, reverse=True):
            if v >> b & 1:
                v ^= self.basis[b]
        return v

    def add(self, v: int) -> bool:
        v = self.reduce(v)
        if v:
            self.basis[v.bit_length() - 1] = v
            return True
        return False

    def __contains__(self, v):
        return self.reduce_full(v) == 0

    @property
    def rank(self):
        return len(self.basis)


class CodeModel:
    """Stabilizers and logical operators read from the couplings of the lattice."""

    def __init__(self, code):
        lat = code.lattice
        self.n = len(lat.dataqubits)
        self.data_ids = [v.equbit_idx for v in lat.dataqubits]
        self.anc_ids = [v.equbit_idx for v in lat.stabgens]
        pos = {id(v): i for i, v in enumerate(lat.dataqubits)}
        self.stabs = [self._op(op, pos) for op in lat.stabgens]
        self.logs = [self._op(op, pos) for op in lat.logical_ops]
        self.log_weights = [len(op.edges) for op in lat.logical_ops]
        self.m = len(self.stabs)
        self.k = len(self.logs) // 2
        self.rounds = code.n_rounds

    @staticmethod
    def _op(op, pos):
        x = z = 0
        for e in op.edges:
            bx, bz = PAULI_BITS[e.factor.name]
            x |= bx << pos[id(e.data)]
            z |= bz << pos[id(e.data)]
        return (x, z)

    def syndrome_of(self, p) -> int:
        s = 0
        for i, st in enumerate(self.stabs):
            s |= commutes(p, st) << i
        return s

    def problems(self):
        """Why this is not a valid stabilizer code (empty if it is)."""
        out = []
        for i in range(self.m):
            for j in range(i):
                if commutes(self.stabs[i], self.stabs[j]):
                    out.append(f"stabilizers {j} and {i} anticommute")
        for i, lo in enumerate(self.logs):
            for j in range(self.m):
                if commutes(lo, self.stabs[j]):
                    out.append(f"logical operator {i} anticommutes with stabilizer {j}")
            for j in range(i):
                want = 1 if i // 2 == j // 2 else 0
                if commutes(lo, self.logs[j]) != want:
                    out.append(f"logical operators {j},{i}: wrong commutator")
        return out

    def single_fault_columns(self):
        """Syndromes of all single-qubit X and Z faults."""
        return [
            (self.syndrome_of((1 << q, 0)), self.syndrome_of((0, 1 << q)))
            for q in range(self.n)
        ]

    def explainable(self, syndrome_bits: int, qubits) -> bool:
        """Is there a Pauli on these qubits with this syndrome?"""
        sp = Span()
        for q in qubits:
            sp.add(self.syndrome_of((1 << q, 0)))
            sp.add(self.syndrome_of((0, 1 << q)))
        return syndrome_bits in sp


def logical_indices(model: CodeModel, logical_ops):
    if isinstance(logical_ops, str):
        return [2 * i + "XZ".index(c) for i, c in enumerate(logical_ops)]
    return list(logical_ops)


class Layout:
    """Where each value sits in the raw measurement record of a memory experiment."""

    def __init__(self, model: CodeModel, logical_ops, ancilla: bool):
        self.idx = logical_indices(model, logical_ops)
        self.w = [1 if ancilla else model.log_weights[i] for i in self.idx]
        self.nlog = sum(self.w)
        self.m = model.m
        self.rounds = model.rounds
        self.total = 2 * self.nlog + model.m * (model.rounds + 1)

    def split(self, bits):
        """bits: sequence of 0/1 -> (toggles, syndrome rows as lists)."""
        a = list(bits[: self.nlog])
        b = list(bits[len(bits) - self.nlog :])
        mid = list(bits[self.nlog : len(bits) - self.nlog])
        tog = []
        o = 0
        for w in self.w:
            tog.append((sum(a[o : o + w]) + sum(b[o : o + w])) & 1)
            o += w
        rows = [mid[i * self.m : (i + 1) * self.m] for i in range(self.rounds + 1)]
        syn = [
            [rows[t + 1][i] ^ rows[t][i] for i in range(self.m)]
            for t in range(self.rounds)
        ]
        return tog, syn


IDEAL = {"X", "Y", "Z", "H", "CX", "CZ", "M", "R"}


class Frame:
    """Pauli frame: how inserted Paulis flip later measurements."""

    def __init__(self):
        self.x = 0
        self.z = 0
        self.flips: list[int] = []

    def pauli(self, q, p):
        bx, bz = PAULI_BITS[p]
        self.x ^= bx << q
        self.z ^= bz << q

    def gate(self, name, args):
        if name == "H":
            for q in args:
                b = 1 << q
                d = (self.x ^ self.z) & b
                self.x ^= d
                self.z ^= d
        elif name == "CX":
            for c, t in zip(args[::2], args[1::2]):
                if self.x >> c & 1:
                    self.x ^= 1 << t
                if self.z >> t & 1:
                    self.z ^= 1 << c
        elif name == "CZ":
            for c, t in zip(args[::2], args[1::2]):
                xc, xt = self.x >> c & 1, self.x >> t & 1
                if xc:
                    self.z ^= 1 << t
                if xt:
                    self.z ^= 1 << c
        elif name == "M":
            for q in args:
                self.flips.append(self.x >> q & 1)
        elif name == "R":
            for q in args:
                self.x &= ~(1 << q)
                self.z &= ~(1 << q)
        elif name in ("X", "Y", "Z"):
            pass
        else:
            raise ValueError(name)


class StabState:
    """Stabilizer state on n qubits, column-sliced tableau of 2n rows.

    Rows 0..n-1 are destabilizers, n..2n-1 stabilizers.  Measurements are *forced*:
    ``measure(q, outcome)`` returns "random" or "fixed" plus whether it is possible.
    """

    def __init__(self, n):
        self.n = n
        self.X = [1 << q for q in range(n)]
        self.Z = [1 << (n + q) for q in range(n)]
        self.R = 0

    def copy(self):
        c = StabState.__new__(StabState)
        c.n, c.X, c.Z, c.R = self.n, list(self.X), list(self.Z), self.R
        return c

    def h(self, q):
        self.R ^= self.X[q] & self.Z[q]
        self.X[q], self.Z[q] = self.Z[q], self.X[q]

    def cx(self, a, b):
        X, Z = self.X, self.Z
        self.R ^= X[a] & Z[b] & ~(X[b] ^ Z[a])
        X[b] ^= X[a]
        Z[a] ^= Z[b]

    def cz(self, a, b):
        self.h(b)
        self.cx(a, b)
        self.h(b)

    def x(self, q):
        self.R ^= self.Z[q]

    def z(self, q):
        self.R ^= self.X[q]

    def y(self, q):
        self.R ^= self.X[q] ^ self.Z[q]

    def pauli(self, q, p):
        if p != "I":
            getattr(self, p.lower())(q)

    def row(self, i):
        x = z = 0
        for q in range(self.n):
            x |= (self.X[q] >> i & 1) << q
            z |= (self.Z[q] >> i & 1) << q
        return x, z, self.R >> i & 1

    def stabilizers(self):
        return [self.row(self.n + i) for i in range(self.n)]

    def _fixed_value(self, q):
        ax = az = 0
        e = 0
        for i in range(self.n):
            if self.X[q] >> i & 1:
                x, z, r = self.row(self.n + i)
                e += 2 * r + (x & z).bit_count() + 2 * (az & x).bit_count()
                ax ^= x
                az ^= z
        e -= (ax & az).bit_count()
        return (e % 4) // 2

    def peek(self, q):
        """None if undetermined, else the determined value."""
        if self.X[q] >> self.n:
            return None
        return self._fixed_value(q)

    def measure(self, q, outcome):
        """Project; returns (was_random, possible)."""
        n = self.n
        s = self.X[q] >> n
        if not s:
            v = self._fixed_value(q)
            return False, v == outcome
        p = n + (s & -s).bit_length() - 1
        M = self.X[q] & ~(1 << p)
        xp, zp, rp = self.row(p)
        c0 = c1 = 0
        X, Z = self.X, self.Z
        const = (2 * rp + (xp & zp).bit_count()) % 4
        for j in range(n):
            bx, bz = xp >> j & 1, zp >> j & 1
            if not (bx or bz):
                continue
            v = X[j] & Z[j]
            c1 ^= c0 & v
            c0 ^= v
            if bx:
                c1 ^= Z[j]
            if bx:
                X[j] ^= M
            if bz:
                Z[j] ^= M
            v = X[j] & Z[j]
            c1 ^= ~c0 & v
            c0 ^= v
        # add the constant to all rows of M
        if const & 1:
            c1 ^= c0
            c0 = ~c0
        if const & 2:
            c1 = ~c1
        self.R ^= c1 & M
        # row p becomes the destabilizer, Z_q with the outcome the stabilizer
        d = p - n
        bp, bd = 1 << p, 1 << d
        for j in range(n):
            X[j] = (X[j] & ~(bp | bd)) | ((xp >> j & 1) << d)
            Z[j] = (Z[j] & ~(bp | bd)) | ((zp >> j & 1) << d)
        Z[q] |= bp
        self.R = (self.R & ~(bp | bd)) | (rp << d) | (outcome << p)
        return True, True

    def reset(self, q):
        v = self.peek(q)
        if v is None:
            self.measure(q, 0)
        elif v:
            self.x(q)

    def gate(self, name, args):
        if name in ("X", "Y", "Z", "H"):
            f = getattr(self, name.lower())
            for q in args:
                f(q)
        elif name in ("CX", "CZ"):
            f = getattr(self, name.lower())
            for a, b in zip(args[::2], args[1::2]):
                f(a, b)
        elif name == "R":
            for q in args:
                self.reset(q)
        else:
            raise ValueError(name)

    def canonical(self):
        """Canonical generators: equal iff the states are equal."""
        rows = [[x, z, r] for x, z, r in self.stabilizers()]
        return canonical_generators(rows, self.n)


def mul(a, b):
    """Product of commuting Hermitian Paulis (x, z, sign)."""
    e = 2 * a[2] + (a[0] & a[1]).bit_count() + 2 * b[2] + (b[0] & b[1]).bit_count()
    e += 2 * (a[1] & b[0]).bit_count()
    x, z = a[0] ^ b[0], a[1] ^ b[1]
    e -= (x & z).bit_count()
    return [x, z, (e % 4) // 2]


def canonical_generators(rows, n):
    rows = [list(r) for r in rows]
    done = 0
    for bit in range(2 * n):
        def has(r):
            return (r[0] >> bit & 1) if bit < n else (r[1] >> (bit - n) & 1)

        piv = next((i for i in range(done, len(rows)) if has(rows[i])), None)
        if piv is None:
            continue
        rows[done], rows[piv] = rows[piv], rows[done]
        for i in range(len(rows)):
            if i != done and has(rows[i]):
                rows[i] = mul(rows[i], rows[done])
        done += 1
    return tuple(sorted(tuple(r) for r in rows))


class Impossible(Exception):
    """The reported history cannot happen."""


class SymState(StabState):
    """Stabilizer state whose signs may depend on unknown bits.

    Unknown bits stand for what the record does not show: the outcome a reset discards,
    the Pauli an erasure applies.  ``S[i]`` is the set of unknowns (bit mask) which row i's
    sign depends on in addition to its constant sign.  Observed values restrict the
    unknowns by linear equations; an inconsistent equation is an impossible history.
    """

    def __init__(self, n):
        super().__init__(n)
        self.S = [0] * (2 * n)
        self.nu = 0
        self.eqs: dict[int, int] = {}  # pivot -> mask | value << BIG

    BIG = 1 << 4000

    def unknown(self):
        self.nu += 1
        return 1 << (self.nu - 1)

    def require(self, mask, value, what):
        """mask . unknowns == value; returns True if this was not yet known."""
        v = mask | (self.BIG if value else 0)
        while v & (self.BIG - 1):
            b = (v & (self.BIG - 1)).bit_length() - 1
            r = self.eqs.get(b)
            if r is None:
                self.eqs[b] = v
                return True
            v ^= r
        if v:
            raise Impossible(what)
        return False

    def _sym_value(self, q):
        """(constant, mask) of a determined measurement."""
        c = self._fixed_value(q)
        m = 0
        for i in range(self.n):
            if self.X[q] >> i & 1:
                m ^= self.S[self.n + i]
        return c, m

    def _flip_sym(self, rows, mask):
        if mask:
            i = 0
            while rows:
                if rows & 1:
                    self.S[i] ^= mask
                rows >>= 1
                i += 1

    def observe(self, q, outcome, what):
        """A reported measurement; returns True if it was an undetermined coin."""
        n = self.n
        s = self.X[q] >> n
        if not s:
            c, m = self._sym_value(q)
            return self.require(m, c ^ outcome, what)
        self._collapse(q, s, outcome, 0)
        return True

    def _collapse(self, q, s, outcome, mask):
        n = self.n
        p = n + (s & -s).bit_length() - 1
        others = self.X[q] & ~(1 << p)
        sp = self.S[p]
        StabState.measure(self, q, outcome)
        self._flip_sym(others, sp)
        self.S[p - n] = sp
        self.S[p] = mask

    def reset(self, q):
        n = self.n
        s = self.X[q] >> n
        if s:
            u = self.unknown()
            self._collapse(q, s, 0, u)
            self._flip_sym(self.Z[q], u)
        else:
            c, m = self._sym_value(q)
            if c:
                self.x(q)
            self._flip_sym(self.Z[q], m)

    def random_pauli(self, q):
        """Fully mixing error: an unknown Pauli out of I, X, Y, Z."""
        self._flip_sym(self.Z[q], self.unknown())
        self._flip_sym(self.X[q], self.unknown())

    def contains(self, x, z, sign, what):
        """Require that the state is stabilised by (-1)^sign times the Pauli."""
        n = self.n
        acc = [0, 0, 0]
        mask = 0
        for i in range(n):
            dx, dz, _ = self.row(i)
            if ((dx & z).bit_count() + (dz & x).bit_count()) & 1:
                acc = mul(acc, list(self.row(n + i)))
                mask ^= self.S[n + i]
        if (acc[0], acc[1]) != (x, z):
            raise Impossible(what)
        self.require(mask, acc[2] ^ sign, what)
