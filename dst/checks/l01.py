"""L01: lattices built and edited by hand stay consistent and run as codes."""
import numpy as np

from dst import sut
from dst.checks import f01
from dst.faults import ALL, Memory, gen_faults
from dst.model import CodeModel
from plaquette.codes import LatticeCode, StabilizerCode
from plaquette.codes.latticebase import (
    CodeLattice, DataVertex, LogicalVertex, Pauli, StabGenVertex, StabGroup,
)

ID = "L01"
CASES = {"quick": 9000, "thorough": 150000}
RULE = (
    "one case = a lattice of the library, or one put together by hand in any order on a lattice of one to three "
    "dimensions, then a history of edits (qubits, stabilizers, logical qubits and couplings added and removed, "
    "stabilizers merged, logical operators moved, indices assigned anew) with impossible edits in between, all of which "
    "must be refused; after every edit the whole lattice is read and compared with a reference; whenever what is left "
    "is a code, memory experiments without and with chosen faults and decodings run on it; distinct = different event log"
)
STATES = "distinct (stabilizers, logical operators) reached"
REAL = ["code lattice", "codes", "circuit generator", "devices with both backends", "decoders", "check_success"]
STUB = ["random source (seeded)", "probabilities of error instructions (set to 0 or 1)"]
ASSUME = [
    "an edited lattice is measured without the schedule of the lattice it was before (n_time_steps = None)",
    "merging needs equal factors on the shared qubits",
    "operators without any coupling cannot be written as such",
    "decoding needs at most two stabilizers of a kind at each qubit",
]
KINDS = ["data", "stab", "qubit", "super", "super", "mult", "mult", "rmstab", "cut", "join", "rmvertex", "index", "look",
         "occupied", "twice", "roles", "code", "code"]


def gen(rng, i):
    spec = sut.gen_code(rng, max_rounds=3, small=True, custom=0.3, mix=True)
    kinds = [k for k in ALL if rng.random() < 0.5] or ["pauli"]
    return dict(
        code=spec, scratch=rng.random() < 0.5, dim=rng.choice([1, 2, 2, 3]), lseed=rng.randrange(1 << 30),
        edits=[[rng.choice(KINDS), rng.randrange(1000), rng.randrange(1000), rng.randrange(1000)] for _ in range(rng.choice([0, 2, 4, 8, 14]))],
        basis=rng.randrange(1 << 12), ancilla=rng.random() < 0.5, backend=rng.choice(sut.BACKENDS),
        kinds=kinds, faults=gen_faults(rng, spec, rng.choice([0, 1, 2, 5, 12]), kinds), decoder=rng.choice(sut.DECODERS),
        weights=sut.gen_weights(rng), shots=[sut.gen_shot(rng) for _ in range(rng.choice([1, 2]))],
    )


FROZEN = ("weights", "kinds")
REFUSED = (AssertionError, ValueError, IndexError)


class Ref:
    """What the lattice must contain: vertices by identity, in order, with their couplings."""

    def __init__(self):
        self.data, self.stabs, self.logs = [], [], []
        self.pos, self.coup, self.keep = {}, {}, []

    def add(self, kind, v, pos):
        getattr(self, kind).append(v)
        self.pos[id(v)] = pos
        self.keep.append(v)
        if kind != "data":
            self.coup[id(v)] = {}

    def ops(self):
        return self.stabs + self.logs

    def op(self, v):
        return self.coup[id(v)]

    def drop(self, v):
        for part in (self.data, self.stabs, self.logs):
            part[:] = [w for w in part if w is not v]
        del self.pos[id(v)]
        self.coup.pop(id(v), None)

    def free(self, shape):
        taken = set(self.pos.values())
        return [p for p in np.ndindex(*shape) if p not in taken]

    def busy(self, v):
        return bool(self.coup.get(id(v))) or any(id(v) in c for c in self.coup.values())


def compatible(a, b):
    return all(b.get(q, f) == f for q, f in a.items())


def times(a, b):
    """Product of two operators with equal factors wherever both act."""
    return {q: f for q, f in list(a.items()) + list(b.items()) if not (q in a and q in b)}


def scratch(case, ref, r):
    """Put a code together by hand."""
    spec = case["code"]
    if spec["fam"] == "custom":
        n, stabs, logs = sut.custom_operators(spec)
    else:
        m = CodeModel(sut.build_code(spec))
        n, stabs, logs = m.n, m.stabs, m.logs
    total = n + len(stabs) + len(logs)
    side = {1: (total + 6,), 2: (int(total**0.5) + 2, int(total**0.5) + 3), 3: (3, 3, total // 9 + 2)}[case["dim"]]
    lat = CodeLattice(side)
    places = [p for p in np.ndindex(*side)]
    r.shuffle(places)
    todo = ["d"] * n + ["s"] * len(stabs) + ["l"] * len(logs)
    if r.random() < 0.6:
        r.shuffle(todo)
    for k, p in zip(todo, places):
        if k == "d":
            lat.add_data(p)
            ref.add("data", lat.get_vertex_at_pos(p), p)
        elif k == "s":
            lat.add_stabgen(p, r.choice(list(StabGroup)))
            ref.add("stabs", lat.get_vertex_at_pos(p), p)
        else:
            i = len(ref.logs)
            v = lat.add_logical(p, "XZ"[i % 2] + str(i // 2))
            ref.add("logs", v, p)
    todo = []
    for v, (x, z) in zip(ref.ops(), list(stabs) + list(logs)):
        for q in range(n):
            if (x | z) >> q & 1:
                todo.append((ref.data[q], v, (x >> q & 1) + 2 * (z >> q & 1)))
    if r.random() < 0.6:
        r.shuffle(todo)
    for d, v, f in todo:
        couple(lat, ref, d, v, "XZY"[f - 1])
    return lat


def couple(lat, ref, d, v, f):
    lat.add_edge(d, v, Pauli[f])
    ref.op(v)[id(d)] = f


def run(case, ctx):
    import random

    spec = case["code"]
    sut.set_rng(case["seed"])
    r = random.Random(case["lseed"])
    ref = Ref()
    if case["scratch"]:
        lat = scratch(case, ref, r)
        ctx.probe("lattice made by hand")
        look(lat, ref, ctx, f"{spec} by hand", False)
        lat.assign_indices()
        edited = True
    else:
        lat = sut.build_code(spec).lattice
        for kind, part in (("data", lat.dataqubits), ("stabs", lat.stabgens), ("logs", lat.logical_ops)):
            for v in part:
                ref.add(kind, v, v.pos)
        for e in lat.edges:
            ref.op(e.op)[id(e.data)] = e.factor.name
        edited = False
    look(lat, ref, ctx, f"{spec}", True)
    for k, (kind, a, b, c) in enumerate(case["edits"]):
        what = f"{spec} lseed {case['lseed']} {case['edits'][: k + 1]}"
        ctx.steps += 1
        if kind == "code":
            lat.assign_indices()
            look(lat, ref, ctx, what, True)
            experiment(case, lat, ref, ctx, what, edited)
        elif kind == "index":
            lat.assign_indices()
            look(lat, ref, ctx, what, True)
        else:
            n = edit(kind, a, b, c, lat, ref, ctx, what)
            ctx.log(kind, n)
            edited = edited or n
            look(lat, ref, ctx, what, False)
    lat.assign_indices()
    what = f"{spec} lseed {case['lseed']} {case['edits']}"
    look(lat, ref, ctx, what, True)
    experiment(case, lat, ref, ctx, what, edited)


def refused(ctx, what, f, errors=REFUSED):
    try:
        f()
    except errors:
        ctx.fault("impossible edit")
        return
    ctx.check(False, "not-refused", what)


def edit(kind, a, b, c, lat, ref, ctx, what):
    """One edit; returns whether it changed the lattice."""
    free = ref.free(lat.lattice.shape)
    place = free[c % len(free)] if free else None
    every = ref.data + ref.ops()
    coup = [(v, d) for v in ref.ops() for d in ref.data if id(d) in ref.op(v)]
    if kind == "data" and place is not None:
        lat.add_data(place)
        ref.add("data", lat.get_vertex_at_pos(place, allow_empty=False), place)
    elif kind == "stab" and place is not None and len(ref.stabs) > 1:
        u, v = ref.stabs[a % len(ref.stabs)], ref.stabs[b % len(ref.stabs)]
        new = times(ref.op(u), ref.op(v))
        if u is v or not compatible(ref.op(u), ref.op(v)) or not new:
            return False
        lat.add_stabgen(place, StabGroup.U)
        w = lat.get_vertex_at_pos(place, allow_empty=False)
        ref.add("stabs", w, place)
        for d in ref.data:
            if id(d) in new:
                couple(lat, ref, d, w, new[id(d)])
    elif kind == "qubit" and len(free) > 2:
        # a logical qubit which nothing protects
        lat.add_data(place)
        d = lat.get_vertex_at_pos(place)
        ref.add("data", d, place)
        i = len(ref.logs) // 2
        for j, f in enumerate("XZ"):
            p = ref.free(lat.lattice.shape)[a % (len(free) - 1 - j)]
            v = lat.add_logical(p, f + str(i))
            ref.add("logs", v, p)
            couple(lat, ref, d, v, f)
    elif kind == "super" and len(ref.stabs) > 2:
        u, v = ref.stabs[a % len(ref.stabs)], ref.stabs[b % len(ref.stabs)]
        if u is v or not compatible(ref.op(u), ref.op(v)):
            return False
        ctx.probe("merged stabilizers")
        if c % 2 and (ref.op(u) and ref.op(v)):
            eu = next(e for e in lat.edges if e.op is u)
            ev = next(e for e in lat.edges if e.op is v)
            lat.create_superstab_from_edges([eu, ev])
        else:
            lat.create_superstab(u, v)
        ref.coup[id(u)] = times(ref.op(u), ref.op(v))
        ref.drop(v)
        if not ref.op(u):
            ref.drop(u)
    elif kind == "mult" and ref.logs and ref.stabs:
        u, v = ref.logs[a % len(ref.logs)], ref.stabs[b % len(ref.stabs)]
        if not compatible(ref.op(u), ref.op(v)):
            return False
        ctx.probe("moved logical operator")
        lat.multiply_logical_with_stab(u, v)
        ref.coup[id(u)] = times(ref.op(u), ref.op(v))
    elif kind == "rmstab" and len(ref.stabs) > 1:
        v = ref.stabs[a % len(ref.stabs)]
        lat.remove_stabilizer(v)
        ref.drop(v)
    elif kind == "cut" and coup:
        v, d = coup[a % len(coup)]
        lat.remove_edge(next(e for e in lat.edges if e.op is v and e.data is d))
        f = ref.op(v).pop(id(d))
        if b % 3:
            # at once made again
            couple(lat, ref, d, v, f)
    elif kind == "join":
        no = [(v, d) for v in ref.ops() for d in ref.data if id(d) not in ref.op(v)]
        if not no or b % 3:
            return False
        v, d = no[a % len(no)]
        couple(lat, ref, d, v, "XZ"[c % 2])
    elif kind == "rmvertex":
        v = every[a % len(every)]
        if b % 2:
            v = next((w for w in every if not ref.busy(w)), v)
        if len(ref.data) < 2 or (v in ref.stabs and len(ref.stabs) < 2):
            return False
        if ref.busy(v):
            refused(ctx, f"{what}: {v} removed with its couplings", lambda: lat.remove_vertex(v), ValueError)
            return False
        lat.remove_vertex(v)
        ref.drop(v)
        refused(ctx, f"{what}: {v} removed twice", lambda: lat.remove_vertex(v))
    elif kind == "look":
        v = every[a % len(every)]
        for allow in (False, True):
            ctx.check(lat.get_vertex_at_pos(ref.pos[id(v)], allow_empty=allow) is v, "vertex-at", lambda: f"{what}: {ref.pos[id(v)]}")
        if place is not None:
            ctx.check(lat.get_vertex_at_pos(place) is None, "vertex-at", lambda: f"{what}: {place} is not empty")
            refused(ctx, f"{what}: {place} is empty", lambda: lat.get_vertex_at_pos(place, allow_empty=False), ValueError)
        out = tuple(s + b for s in lat.lattice.shape)
        refused(ctx, f"{what}: {out} is outside", lambda: lat.get_vertex_at_pos(out), IndexError)
        return False
    elif kind == "occupied":
        p = ref.pos[id(every[a % len(every)])]
        f = [lambda: lat.add_data(p), lambda: lat.add_stabgen(p, StabGroup.A), lambda: lat.add_logical(p, "X9")][b % 3]
        refused(ctx, f"{what}: {p} is taken", f)
        return False
    elif kind == "twice" and coup:
        v, d = coup[a % len(coup)]
        refused(ctx, f"{what}: coupled twice", lambda: lat.add_edge(d, v, Pauli(1 + b % 3)))
        return False
    elif kind == "roles":
        lat.assign_indices()
        i = a % (len(every) + 3) - 1
        for f, n0, n1 in (
            (lat.check_equbit_is_data, 0, len(ref.data)),
            (lat.check_equbit_is_stabgen, len(ref.data), len(ref.data) + len(ref.stabs)),
        ):
            if n0 <= i < n1:
                ctx.check(f(i) is None, "roles", what)
            else:
                refused(ctx, f"{what}: {i} for {f.__name__}", lambda: f(i), ValueError)  # noqa: B023
        return False
    else:
        return False
    return True


def look(lat, ref, ctx, what, indexed):
    """The lattice contains exactly what it must."""
    def same(got, want, name):
        ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), name,
                  lambda: f"{what}: {name} {[v.pos for v in got]}, expected {[ref.pos[id(v)] for v in want]}")

    same(lat.dataqubits, ref.data, "data-qubits")
    same(lat.stabgens, ref.stabs, "stabilizers")
    same(lat.logical_ops, ref.logs, "logical-operators")
    every = ref.data + ref.ops()
    ctx.check(sorted(map(id, lat.vertices)) == sorted(map(id, every)), "vertices", lambda: f"{what}: {lat.vertices}")
    for v in every:
        ctx.check(v.pos == ref.pos[id(v)], "position", lambda: f"{what}: {v}")
    found = {}
    for p in np.ndindex(*lat.lattice.shape):
        if lat.lattice[p] is not None:
            found[p] = id(lat.lattice[p])
    ctx.check(found == {ref.pos[id(v)]: id(v) for v in every}, "positions", lambda: f"{what}: {sorted(found)}")
    want = sorted((i, q, f) for i, c in ref.coup.items() for q, f in c.items())
    for view, edges in (("lattice", lat.edges), ("operators", [e for v in ref.ops() for e in v.edges]),
                        ("data qubits", [e for v in ref.data for e in v.edges])):
        got = sorted((id(e.op), id(e.data), e.factor.name) for e in edges)
        ctx.check(got == want, "couplings", lambda: f"{what}: couplings of the {view}: {len(got)}, expected {len(want)}")
    for v in every:
        ctx.check(all(e.data is v or e.op is v for e in v.edges), "couplings", lambda: f"{what}: {v} has a coupling of another")
        ends = [e.data if e.op is v else e.op for e in v.edges]
        ctx.check(sorted(map(id, v.neighbours)) == sorted(map(id, ends)), "neighbours", lambda: f"{what}: {v}: {v.neighbours}")
    ctx.check({id(v) for v in lat.equbits} <= {id(v) for v in every}, "equbits", lambda: f"{what}: removed elements among {lat.equbits}")
    if not indexed:
        return
    same(lat.equbits, every, "equbits")
    for part, name in ((ref.data, "dataqubit_idx"), (ref.stabs, "stabgen_idx"), (ref.logs, "logical_idx"), (every, "equbit_idx")):
        for i, v in enumerate(part):
            ctx.check(getattr(v, name) == i, "indices", lambda: f"{what}: {name} of {v} is not {i}")
    for name, vs in (("stabilisers", ref.stabs), ("logical_operators", ref.logs)):
        if not all(ref.op(v) for v in vs):
            continue
        ops = getattr(lat, name)
        got = [sut.pauli_from_tableau(t, len(ref.data), "operator") for t in ops]
        ctx.check(got == [masks(ref, v) for v in vs], "operators", lambda: f"{what}: {got}")
    ctx.log([masks(ref, v) for v in ref.ops()])


def masks(ref, v):
    x = z = 0
    for i, d in enumerate(ref.data):
        f = ref.op(v).get(id(d), "I")
        x |= (f in "XY") << i
        z |= (f in "YZ") << i
    return x, z


def experiment(case, lat, ref, ctx, what, edited):
    if edited:
        lat.n_time_steps = None
    if not ref.stabs or not ref.logs or len(ref.logs) % 2:
        return
    if not all(ref.op(v) for v in ref.ops()):
        return
    code = LatticeCode(lat, case["code"]["rounds"])
    ctx.check(code.n_data_qubits == len(ref.data) and code.n_stabgens == len(ref.stabs) and code.n_logical_ops == len(ref.logs)
              and 2 * code.n_logical_qubits == len(ref.logs) and code.n_rounds == case["code"]["rounds"], "numbers", what)
    flat = StabilizerCode.from_codelattice(lat)
    ctx.check(code == flat and flat == code, "code-and-operators-differ", what)
    stabs, logs = [masks(ref, v) for v in ref.stabs], [masks(ref, v) for v in ref.logs]
    for ops, mine in ((flat.stabilisers, stabs), (flat.logical_ops, logs), (flat.logical_x, logs[::2]), (flat.logical_z, logs[1::2])):
        ctx.check([sut.pauli_from_tableau(t, len(ref.data), "operator") for t in ops] == mine, "operators-of-the-code", what)
    m = CodeModel(code)
    bad = m.problems()
    for f in (code, flat):
        try:
            f.check()
        except AssertionError:
            ctx.check(bool(bad), "own-check", lambda: f"{what}: a valid code is refused")
        else:
            ctx.check(not bad, "own-check", lambda: f"{what}: {bad[:2]} accepted")
    ctx.state((stabs, logs))
    if bad or any(x & z for x, z in stabs + logs) or not all(x | z for x, z in stabs + logs):
        ctx.probe("not a code")
        return
    if len(ref.data) + len(stabs) > 90:
        return
    ops = [2 * i + (case["basis"] >> i & 1) for i in range(len(logs) // 2)]
    mem = Memory(case["code"], ops, case["ancilla"], code=code)
    case = {**case, "ops": ops}
    f01.memory(case, mem, ctx, what)
    ctx.probe("experiments on an edited lattice" if edited else "experiments on an intact lattice")
    for q in range(m.n):
        for k in (0, 1):
            if sum(s[k] >> q & 1 for s in stabs) > 2:
                ctx.probe("not decodable by graphs")
                return
    f01.decodings(case, mem, ctx, what)
    ctx.probe("decoded on an edited lattice" if edited else "decoded on an intact lattice")
