"""Access to the system under test: codes, backends, decoders, the random seam."""
from __future__ import annotations

import contextlib
import os
import warnings

warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import plaquette  # noqa: E402
from plaquette import circuit, decoders  # noqa: E402
from plaquette.circuit.generator import QECCircuitGenerator, generate_qec_circuit  # noqa: E402
from plaquette.codes import LatticeCode  # noqa: E402
from plaquette.decoders.decoderbase import check_success  # noqa: E402
from plaquette.device import Device, MeasurementSample  # noqa: E402

from .core import Invalid, Violation  # noqa: E402

REPO_SRC = os.environ.get("DST_REPO_SRC", "/repo/src")
assert os.path.realpath(plaquette.__file__).startswith(os.path.realpath(REPO_SRC)), (
    plaquette.__file__
)

FAMILIES = {
    "five": LatticeCode.make_five_qubit,
    "shor": LatticeCode.make_shor,
    "repetition": LatticeCode.make_repetition,
    "planar": LatticeCode.make_planar,
    "rotated": LatticeCode.make_rotated_planar,
    "toric": LatticeCode.make_toric,
}
# family -> smallest and largest size used in simulation
SIZES = {"repetition": (3, 7), "planar": (2, 4), "rotated": (2, 5), "toric": (2, 4)}
DECODERS = ("PyMatchingDecoder", "UnionFindDecoder", "UnionFindNoWeights", "FusionBlossomDecoder")
BACKENDS = ("clifford", "stim")

for _b in BACKENDS:
    # the forked runs then need not import the backends and resolve the entry points anew
    try:
        plaquette.device.recognized_devices[_b].load()
    except Exception:  # noqa: B902  (the runs will report it)
        pass


def custom_operators(spec):
    """(qubits, stabilizers, logical operators) of a user-defined code, as x and z masks.

    The code is the direct sum of library codes whose qubits, stabilizers and logical
    qubits are permuted; ``mix`` stabilizers and logical operators are multiplied with
    further stabilizers (as long as no Y factors arise, which the generator refuses).
    """
    import random as _r

    from .model import CodeModel

    if not spec["parts"]:
        raise Invalid("parts")
    r = _r.Random(spec["pseed"])
    n = 0
    stabs, pairs = [], []
    for part in spec["parts"]:
        if part["fam"] == "custom":
            raise Invalid("parts")
        m = CodeModel(build_code({**part, "rounds": 1}))
        stabs += [(x << n, z << n) for x, z in m.stabs]
        logs = [(x << n, z << n) for x, z in m.logs]
        pairs += [logs[i : i + 2] for i in range(0, len(logs), 2)]
        n += m.n
    perm = list(range(n))
    if spec["perm"]:
        r.shuffle(perm)
        r.shuffle(stabs)
        r.shuffle(pairs)

    def move(p):
        return tuple(sum((v >> q & 1) << perm[q] for q in range(n)) for v in p)

    stabs = [move(p) for p in stabs]
    logs = [move(p) for pair in pairs for p in pair]
    for _ in range(spec["mix"]):
        j = r.randrange(len(stabs))
        s = stabs[j]
        i = r.randrange(len(stabs) + len(logs))
        tgt, i = (stabs, i) if i < len(stabs) else (logs, i - len(stabs))
        if tgt is stabs and i == j:
            continue
        p = (tgt[i][0] ^ s[0], tgt[i][1] ^ s[1])
        if not p[0] & p[1] and any(p):
            tgt[i] = p
    return n, stabs, logs


def build_custom(spec):
    n, stabs, logs = custom_operators(spec)
    via = spec["via"]
    if via == "strings":
        from plaquette.codes.latticebase import CodeLatticeFromStab

        def text(p, i):
            s = "".join("IXZY"[(p[0] >> q & 1) + 2 * (p[1] >> q & 1)] for q in range(n))
            return ["", "+", "-"][i % 3] + s

        lat = CodeLatticeFromStab(n, [text(p, i) for i, p in enumerate(stabs)], [text(p, i + 1) for i, p in enumerate(logs)])
        return LatticeCode(lat, spec["rounds"])

    def row(p):
        return [p[0] >> q & 1 for q in range(n)] + [p[1] >> q & 1 for q in range(n)] + [0]

    return LatticeCode.from_operators(
        np.array([row(p) for p in stabs], dtype="u1"), np.array([row(p) for p in logs], dtype="u1"), n_rounds=spec["rounds"])


def build_code(spec) -> LatticeCode:
    fam, rounds = spec["fam"], spec["rounds"]
    if rounds < 1:
        raise Invalid("rounds")
    if fam == "custom":
        return build_custom(spec)
    if fam in ("five", "shor"):
        return FAMILIES[fam](n_rounds=rounds)
    if fam not in FAMILIES or spec["size"] < SIZES[fam][0]:
        raise Invalid("size")
    if fam == "repetition" and spec["size"] % 2 == 0:
        raise Invalid("size")
    kw = {}
    if fam == "rotated" and spec.get("xzzx"):
        kw["xzzx"] = True
    return FAMILIES[fam](n_rounds=rounds, size=spec["size"], **kw)


BIG = {"repetition": 11, "planar": 6, "rotated": 7, "toric": 6}


def gen_custom(rng, max_rounds, mix=False):
    """A user-defined code made of permuted library codes."""
    rep = rng.random() < 0.2
    parts = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        fams = ["repetition"] if rep else ["five", "shor", "planar", "rotated", "toric"]
        part = gen_code(rng, fams, 1, small=True)
        if parts and part.get("size", 0) > 2 and not rep:
            part["size"] = 2
        parts.append({k: v for k, v in part.items() if k != "rounds"})
    return {
        "fam": "custom", "rounds": rng.randint(1, max_rounds), "parts": parts, "pseed": rng.randrange(1 << 30),
        "perm": rng.random() < 0.85, "mix": rng.choice([0, 1, 3, 8]) if mix else 0, "via": rng.choice(["operators", "strings"]),
    }


HUGE = {"repetition": (9, 61), "planar": (5, 8), "rotated": (6, 11), "toric": (5, 7)}


def gen_huge(rng, fams=None, rounds=40):
    """A code much larger than usual, or an experiment with many more rounds than usual."""
    if rng.random() < 0.5:
        return gen_code(rng, fams, small=True) | {"rounds": rng.choice([r for r in (9, 10, 12, 16, 17, 20, 33, 40) if r <= rounds])}
    fam = rng.choice([f for f in HUGE if fams is None or f in fams])
    lo, hi = HUGE[fam]
    spec = {"fam": fam, "rounds": rng.randint(1, 3), "size": rng.choice([s for s in range(lo, hi + 1) if fam != "repetition" or s % 2])}
    if fam == "rotated" and rng.random() < 0.4:
        spec["xzzx"] = True
    return spec


def gen_code(rng, fams=None, max_rounds=4, small=False, big=False, custom=0.0, mix=False, huge=0.0):
    if huge and rng.random() < huge:
        return gen_huge(rng, fams)
    if custom and rng.random() < custom:
        return gen_custom(rng, max_rounds, mix)
    fam = rng.choice(fams or list(FAMILIES))
    spec = {"fam": fam, "rounds": rng.randint(1, max_rounds)}
    if fam in SIZES:
        lo, hi = SIZES[fam]
        if big:
            hi = BIG[fam]
        if small:
            hi = min(hi, 3 if fam != "repetition" else 5)
            if fam == "toric":
                hi = 3
        spec["size"] = rng.choice([s for s in range(lo, hi + 1) if fam != "repetition" or s % 2])
    if fam == "rotated" and rng.random() < 0.4:
        spec["xzzx"] = True
    return spec


def similar(r, spec):
    """Another code much like this one."""
    spec = dict(spec)
    if spec["fam"] == "custom":
        if r.random() < 0.7:
            spec["pseed"] = r.randrange(1 << 30)
    elif spec["fam"] == "rotated" and r.random() < 0.7:
        spec["xzzx"] = not spec.get("xzzx")
    elif spec["fam"] in ("rotated", "planar") and r.random() < 0.6:
        spec["fam"] = "planar" if spec["fam"] == "rotated" else "rotated"
        spec.pop("xzzx", None)
        spec["size"] = min(spec["size"], 3)
    if r.random() < 0.3:
        spec["rounds"] = r.randint(1, spec["rounds"])
    return spec


@contextlib.contextmanager
def similar_codes(r, spec):
    """Within, the first code made up is often like the given one."""
    global gen_code
    real = gen_code

    def first(rng, fams=None, *args, **kw):
        global gen_code
        gen_code = real
        if r.random() < 0.75 and len(parts(spec)) < 4:
            new = similar(r, spec)
            if (fams is None or new["fam"] in fams) and new["rounds"] < 9 and new.get("size", 0) <= 7:
                return new
        return real(rng, fams, *args, **kw)

    if isinstance(spec, dict) and "fam" in spec:
        gen_code = first
    try:
        yield
    finally:
        gen_code = real


def parts(spec):
    """The library codes a code consists of."""
    return spec["parts"] if spec["fam"] == "custom" else [spec]


def n_logical(spec):
    return sum(2 if p["fam"] == "toric" else 1 for p in parts(spec))


def gen_logical_ops(rng, spec):
    """A string or a list of indices of commuting logical operators, in any order."""
    k = n_logical(spec)
    s = "".join(rng.choice("XZ") for _ in range(k))
    if rng.random() < 0.5:
        return s
    out = [2 * i + "XZ".index(c) for i, c in enumerate(s)]
    if rng.random() < 0.5:
        rng.shuffle(out)
    return out


def check_logical_ops(ops, spec):
    k = n_logical(spec)
    if len(ops) != k:
        raise Invalid("logical ops")
    if isinstance(ops, str):
        if set(ops) - set("XZ"):
            raise Invalid("logical ops")
    elif sorted(o // 2 for o in ops) != list(range(k)):
        raise Invalid("logical ops")
    return ops


def needs_ancilla(model, ops):
    """Can these operators only be measured with an ancilla?

    Without one, their qubits are measured one by one: the record cannot be divided if
    the operators have different weights, and operators with different factors on the
    same qubit disturb each other.
    """
    from .model import Layout

    lay = Layout(model, ops, False)
    if len(set(lay.w)) > 1:
        return True
    logs = [model.logs[i] for i in lay.idx]
    return any(
        (a[0] | a[1]) & (b[0] | b[1]) & ((a[0] ^ b[0]) | (a[1] ^ b[1])) for i, a in enumerate(logs) for b in logs[:i])


class SeamRNG(np.random.Generator):
    """The random source of the library, owned by the simulator.

    mode "seeded": an ordinary seeded generator; "zeros"/"ones": uniform integer draws
    and uniform choices (the coins of random measurement outcomes) take the extreme
    value with probability 7/8.  Floats stay uniform and weighted choices keep their
    weights, so alternatives of probability 0 are never drawn.
    """

    def __new__(cls, seed, mode="seeded"):
        return super().__new__(cls, np.random.PCG64(seed))

    def __init__(self, seed, mode="seeded"):
        super().__init__(np.random.PCG64(seed))
        self.mode = mode
        self.inner = np.random.Generator(self.bit_generator)

    def _biased(self):
        return self.mode != "seeded" and self.inner.random() < 0.875

    def integers(self, low, high=None, *args, **kw):
        v = self.inner.integers(low, high, *args, **kw)
        if np.ndim(v) == 0 and np.ndim(low) == 0 and self._biased():
            lo, hi = (0, low) if high is None else (low, high)
            w = lo if self.mode == "zeros" else hi - (0 if kw.get("endpoint") else 1)
            return type(v)(w)
        return v

    def random(self, *a, **kw):
        return self.inner.random(*a, **kw)

    def choice(self, a, *args, **kw):
        v = self.inner.choice(a, *args, **kw)
        if not args and not kw and np.ndim(v) == 0 and self._biased():
            pool = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
            return pool.min() if self.mode == "zeros" else pool.max()
        return v


def set_rng(seed, mode="seeded"):
    plaquette.rng = SeamRNG(seed, mode)
    return plaquette.rng


def bits(arr, n, what):
    """Interpret a library result as a list of n bits."""
    a = np.asarray(arr)
    if a.ndim != 1 or (n is not None and a.shape != (n,)):
        raise Violation(f"shape:{what}", f"{what} has shape {a.shape}, expected ({n},)")
    out = []
    for v in a.tolist():
        if v not in (0, 1):
            raise Violation(f"value:{what}", f"{what} contains {v!r}")
        out.append(int(v))
    return out


def matrix(arr, shape, what):
    a = np.asarray(arr)
    if a.shape != tuple(shape):
        raise Violation(f"shape:{what}", f"{what} has shape {a.shape}, expected {shape}")
    return [bits(r, shape[1], what) for r in a]


def make_circuit(code, qubit_errors, gate_errors, logical_ops, ancilla):
    return generate_qec_circuit(
        code, qubit_errors, gate_errors, logical_ops, logical_ancilla=ancilla
    )


def gate_list(circ):
    return [(n, tuple(a)) for n, a in circ.gates]


def circuit_from_gates(gates):
    c = circuit.Circuit()
    for name, args in gates:
        c.append(name, *args)
    return c


def sample(code, dev, ancilla):
    raw, er = dev.get_sample()
    return raw, er, MeasurementSample.from_code_and_raw_results(
        code, raw, er, logical_ancilla=ancilla
    )


def pauli_from_tableau(correction, n, what="correction"):
    """The single Pauli (x, z masks) of a returned correction."""
    a = np.asarray(correction)
    if a.ndim == 2 and a.shape[0] == 1:
        a = a[0]
    if a.ndim != 1 or a.shape[0] not in (2 * n, 2 * n + 1):
        raise Violation(f"shape:{what}", f"{what} has shape {a.shape} for {n} qubits")
    x = z = 0
    for q in range(n):
        x |= int(a[q]) << q
        z |= int(a[n + q]) << q
    return x, z


def make_decoder(name, code, errordata=None, weighted=None, weights=None):
    cls = getattr(decoders, name)
    kw = {}
    if weighted is not None:
        kw["weighted"] = weighted
    if weights is not None:
        kw["weights"] = weights
    return cls.from_code(code, errordata, **kw)


def gen_shot(rng, erasures=True, flips=True, wild=0.1):
    """An abstract fault history; positions are reduced modulo the actual ranges."""
    kind = rng.random()
    if kind < 0.1:
        nd, ne, nf = 0, 0, 0
    elif kind < 0.6:
        nd, ne, nf = rng.randint(0, 3), rng.randint(0, 3), rng.randint(0, 2)
    elif kind < 0.9:
        nd, ne, nf = rng.randint(0, 12), rng.randint(0, 12), rng.randint(0, 10)
    else:
        nd, ne, nf = rng.randint(0, 60), rng.randint(0, 90), rng.randint(0, 40)
    t = lambda: rng.randrange(12)  # noqa: E731
    a = lambda: rng.randrange(120)  # noqa: E731
    shot = {"d": [[t(), a(), rng.choice("XYZ")] for _ in range(nd)], "e": [], "f": [], "x": []}
    if erasures and rng.random() < 0.6:
        # the last entry is the Pauli which the erasure caused
        shot["e"] = [[t(), a(), rng.choice("IXYZ")] for _ in range(ne)]
    if flips:
        shot["f"] = [[t(), a()] for _ in range(nf)]
    if rng.random() < wild:
        shot["x"] = [[t(), a()] for _ in range(rng.randint(1, 6))]
    return shot


class Shot:
    """A fault history on the code model: syndrome, erasure record, total data fault."""

    def __init__(self, model, shot, only=None, flips=True):
        R = model.rounds
        self.model = model
        per = [[0, 0] for _ in range(R)]
        era = [[0] * model.n for _ in range(R)]
        flip = [[0] * model.m for _ in range(R + 1)]
        self.nd = self.ne = self.nf = 0
        for t, q, p in shot["d"]:
            bx, bz = p in "XY", p in "YZ"
            if only:
                bx, bz = bx and "X" in only, bz and "Z" in only
            per[t % R][0] ^= bx << (q % model.n)
            per[t % R][1] ^= bz << (q % model.n)
            self.nd += 1
        for t, q, p in shot["e"]:
            bx, bz = p in "XY", p in "YZ"
            if only:
                bx, bz = bx and "X" in only, bz and "Z" in only
            if not era[t % R][q % model.n]:
                per[t % R][0] ^= bx << (q % model.n)
                per[t % R][1] ^= bz << (q % model.n)
                era[t % R][q % model.n] = 1
                self.ne += 1
        if R > 1 and flips:
            for t, i in shot["f"]:
                flip[t % (R - 1)][i % model.m] ^= 1
                self.nf += 1
        self.syn = []
        for t in range(R):
            s = model.syndrome_of(per[t])
            self.syn.append([(s >> i & 1) ^ flip[t][i] ^ (flip[t - 1][i] if t else 0) for i in range(model.m)])
        for t, i in shot["x"]:
            self.syn[t % R][i % model.m] ^= 1
        self.wild = bool(shot["x"])
        self.era = era
        self.total = (0, 0)
        for x, z in per:
            self.total = (self.total[0] ^ x, self.total[1] ^ z)
        self.parity = 0
        for row in self.syn:
            for i, b in enumerate(row):
                self.parity ^= b << i

    def arrays(self, dtype=bool, record=True):
        e = np.array(self.era, dtype=bool) if record else None
        return e, np.array(self.syn, dtype=dtype)

    def decodable(self, flips=True, only="XZ"):
        """Can data faults (and readout flips, if allowed) produce this syndrome?"""
        from .model import Span

        m = self.model
        sp = Span()
        for q in range(m.n):
            if "X" in only:
                sp.add(m.syndrome_of((1 << q, 0)))
            if "Z" in only:
                sp.add(m.syndrome_of((0, 1 << q)))
        if flips:
            return self.parity in sp
        return all(sum(b << i for i, b in enumerate(row)) in sp for row in self.syn)


def logical_effect(model, idx, p):
    """Which of the logical operators ``idx`` the Pauli anticommutes with."""
    return [
        ((p[0] & model.logs[i][1]).bit_count() + (p[1] & model.logs[i][0]).bit_count()) & 1
        for i in idx
    ]


def gen_weights(rng):
    """How a decoder gets its weights (numbers are drawn at run time from a seed)."""
    k = rng.choice(["default", "off", "errors", "errors", "errors-off", "explicit", "uniform"])
    w = {"kind": k, "wseed": rng.randrange(1 << 30)}
    if k in ("errors", "errors-off"):
        w["rates"] = [rng.choice([1e-4, 1e-3, 0.01, 0.05, 0.1, 0.2]) for _ in range(2)]
        w["partial"] = rng.random() < 0.3
        w["erasure"] = rng.random() < 0.5
        w["measurement"] = rng.random() < 0.8
    return w


def decoder_inputs(w, model):
    """(errordata, kwargs, flips possible) for ``from_code``."""
    import random as _r

    r = _r.Random(w["wseed"])
    k = w["kind"]
    n, m = model.n, model.m
    if k == "default":
        return None, {}, True
    if k == "off":
        return None, {"weighted": False}, True
    if k in ("explicit", "uniform"):
        def arr(size):
            if k == "uniform":
                return np.full(size, 1.0)
            return np.array([round(r.uniform(0.5, 9.0), 3) for _ in range(size)])

        return None, {"weights": dict(pauli_x=arr(n), pauli_z=arr(n), measurement=arr(m))}, True
    lo, hi = sorted(w["rates"])

    def rate(s=1.0):
        return s * (lo if lo == hi else r.uniform(lo, hi))

    ed = {"pauli": {}}
    for q in model.data_ids:
        if w["partial"] and r.random() < 0.4:
            continue
        ed["pauli"][q] = {c: rate(0.5) for c in "xyz" if not w["partial"] or r.random() < 0.8}
        if not ed["pauli"][q]:
            del ed["pauli"][q]
    if w["erasure"]:
        ed["erasure"] = {q: {"p": rate()} for q in model.data_ids}
    flips = False
    if w["measurement"]:
        ed["measurement"] = {a: {"p": rate()} for a in model.anc_ids}
        flips = True
    if k == "errors-off":
        return ed, {"weighted": False}, True
    return ed, {}, flips


def build_decoder(name, code, w, model):
    ed, kw, flips = decoder_inputs(w, model)
    if name == "UnionFindNoWeights":
        kw = {"weighted": False}
        flips = True
    cls = getattr(decoders, name)
    return cls.from_code(code, ed, **kw), flips
