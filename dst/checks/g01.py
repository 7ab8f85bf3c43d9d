"""G01: a syndrome graph describes the faults of its code, whatever was done with it before."""
import math
import random
import re
import warnings

import numpy as np

from dst import sut
from dst.core import Invalid
from dst.interrupt import count_lines, interrupted
from dst.model import CodeModel
from plaquette import decoders, syngraph

ID = "G01"
CASES = {"quick": 9000, "thorough": 150000}
RULE = (
    "one case = one or two syndrome graphs of a library code (also a damaged one), or of an arbitrary set of "
    "stabilizers in which each X and Z fault flips at most two, with weights as numbers or arrays, also infinite "
    "ones or none, then a history of syndromes, erasures, decoding results and decodings by decoders sharing the "
    "graph, with refused and interrupted operations; after every operation the whole graph is read and compared "
    "with a reference; distinct = different event log"
)
STATES = "distinct graphs (participating faults with their ends and weights)"
REAL = ["syndrome graph, components and manager", "all decoders", "code lattice", "fabrication errors"]
STUB = ["custom stabilizers enter through a manager without a code"]
ASSUME = [
    "which one of several equally heavy faults with the same ends takes part is not specified",
    "a graph without stabilizers, and weights of which only some are missing, are not specified",
]
FAMS = ["planar", "planar", "rotated", "rotated", "toric", "shor", "repetition"]
STYLES = ["none", "nan", "one", "numbers", "arrays", "arrays", "inf", "inf"]


def gen(rng, i):
    if rng.random() < 0.6:
        spec = sut.gen_code(rng, fams=FAMS, max_rounds=3, small=rng.random() < 0.8, huge=0.02)
        lost = [rng.randrange(200) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        free = None
    else:
        spec, lost = None, []
        m = rng.choice([1, 2, 3, 4, 6])
        n = rng.randint(1, 8)
        free = dict(
            m=m, rounds=rng.randint(1, 4), sign=rng.randrange(1 << m),
            # which stabilizers each fault flips: X on every qubit, then Z
            flips=[rng.sample(range(m), min(m, rng.choice([0, 1, 1, 2, 2, 2]))) for _ in range(2 * n)],
            big=rng.randrange(2 * n) if rng.random() < 0.05 else None,
        )
    ops = []
    for _ in range(rng.randint(2, 9)):
        o = dict(
            op=rng.choice(["syndrome", "erasure", "result", "result", "combine", "decode", "decode", "refused", "weights"]),
            on=rng.randrange(2), seed=rng.randrange(1 << 30),
        )
        if rng.random() < 0.15:
            o["stop"] = [rng.randrange(1000), rng.choice(["KeyboardInterrupt", "MemoryError"])]
        ops.append(o)
    return dict(code=spec, lost=lost, free=free, two=rng.random() < 0.4,
                w=[dict(style=rng.choice(STYLES), seed=rng.randrange(1 << 30)) for _ in range(2)], ops=ops)


class Mgr(syngraph.SyndromeGraphManager):
    """A manager for a graph which does not come from a code."""

    def __init__(self, sgraph):
        self.sgraph = sgraph


class Ref:
    """The faults of the code: name -> (ends, weight); ends are (round, stabilizer)."""

    def __init__(self, rounds, m, flips, w):
        self.rounds, self.m, self.n = rounds, m, len(flips) // 2
        self.flips = flips
        self.faults = {}
        for t in range(rounds):
            for j, s in enumerate(flips):
                p, q = ("X", j) if j < self.n else ("Z", j - self.n)
                self.faults[p, t, q] = (frozenset((t, i) for i in s), w["pauli_" + p.lower()][q])
        for t in range(1, rounds):
            for i in range(m):
                self.faults["M", t, i] = (frozenset([(t - 1, i), (t, i)]), w["measurement"][i])
        self.where = {}
        for k, (ends, _) in self.faults.items():
            if ends:
                self.where.setdefault(ends, []).append(k)


def draw_weights(w, n, m):
    """(argument for the graph, the weight of everything)."""
    r = random.Random(w["seed"])
    st = w["style"]
    nan = math.nan
    if st in ("none", "nan"):
        full = dict(pauli_x=[nan] * n, pauli_z=[nan] * n, measurement=[nan] * m)
        return (None if st == "none" else dict(pauli_x=nan, pauli_z=nan, measurement=nan)), full
    sizes = dict(pauli_x=n, pauli_z=n, measurement=m)
    if st == "one":
        v = r.choice([1, 0.5, 3.0])
        return {k: v for k in sizes}, {k: [float(v)] * s for k, s in sizes.items()}
    if st == "numbers":
        v = {k: r.choice([1, 2.5, 0.7, 4.0]) for k in sizes}
        return v, {k: [float(v[k])] * s for k, s in sizes.items()}
    hole = r.choice([0.1, 0.3, 0.7]) if st == "inf" else 0
    pool = r.choice([[1.0, 2.0, 3.0], None])
    full = {
        k: [math.inf if r.random() < hole else (r.choice(pool) if pool else round(r.uniform(0.5, 9), 3)) for _ in range(s)]
        for k, s in sizes.items()
    }
    return {k: np.array(v) for k, v in full.items()}, full


class Holder:
    """One graph of the library and what is known about it."""

    def __init__(self, g, ref, weighted):
        self.g, self.ref, self.weighted = g, ref, weighted
        self.syn = {(t, i): 0 for t in range(ref.rounds) for i in range(ref.m)}
        self.era = None  # nothing was said yet
        self.res = {}  # components' results, by component index
        self.pending = True  # results that were not read yet
        self.result = {k: False for k in ref.faults}
        self.decs = {}
        self.frozen = None
        self.kept = []  # answers the caller still holds


def same(a, b):
    return (math.isnan(a) and math.isnan(b)) or a == b


def name_of(e):
    if isinstance(e, syngraph.QubitErrorEdge):
        return e.pauli_str, e.time_step, int(np.asarray(e.qubit_idx).item())
    ends = sorted((v.time_step, v.stabgen_idx) for v in e.vertices)
    return "M", ends[-1][0], e.stabgen_idx


def structure(h, ctx, what):
    """The graph has exactly the faults of the code."""
    g, ref = h.g, h.ref
    ctx.check((g.n_rounds, g.n_qubits, g.n_stabgens) == (ref.rounds, ref.n, ref.m), "sizes", what)
    at = {}
    for j, v in enumerate(g.vertices):
        ctx.check(v.vertex_idx == j, "vertex-index", what)
        ctx.check((v.time_step, v.stabgen_idx) not in at, "vertex-twice", what)
        at[v.time_step, v.stabgen_idx] = v
        ctx.check(g.vertices_at_time[v.time_step][v.stabgen_idx] is v, "vertex-at-time", what)
    ctx.check(set(at) == set(h.syn), "vertices", what)
    h.at = at
    h.edge = {}
    for j, e in enumerate(g.edges):
        ctx.check(e.edge_idx == j, "edge-index", what)
        k = name_of(e)
        ctx.check(k in ref.faults and k not in h.edge, "edges", lambda: f"{what}: {k}")
        h.edge[k] = e
        ends = [(v.time_step, v.stabgen_idx) for v in e.vertices]
        ctx.check(len(set(ends)) == len(ends) and set(ends) == ref.faults[k][0], "ends", lambda: f"{what}: {k} ends at {ends}, expected {sorted(ref.faults[k][0])}")
        ctx.check(same(float(e.weight), ref.faults[k][1]), "weight", lambda: f"{what}: {k} weighs {e.weight}, expected {ref.faults[k][1]}")
        if k[0] != "M":
            op = sut.pauli_from_tableau(g.error_ops[e.error_op_idx], ref.n)
            ctx.check(op == ((1 << k[2], 0) if k[0] == "X" else (0, 1 << k[2])), "error-operator", lambda: f"{what}: {k} {op}")
    ctx.check(set(h.edge) == set(ref.faults), "edges", lambda: f"{what}: {[k for k in ref.faults if k not in h.edge][:3]} missing")
    # which of them take part
    for ends, ks in ref.where.items():
        on = [k for k in ks if h.edge[k].enabled]
        ws = [ref.faults[k][1] for k in ks]
        if all(map(math.isinf, ws)):
            ctx.check(not on, "impossible-fault", lambda: f"{what}: {on} takes part")
        else:
            ctx.check(len(on) == 1, "taking-part", lambda: f"{what}: {on} of {ks} take part")
            x = ref.faults[on[0]][1]
            ctx.check(math.isnan(x) or x == min(ws), "taking-part", lambda: f"{what}: {on} of {ks}, weights {ws}")
    on = [k for ks in ref.where.values() for k in ks if h.edge[k].enabled]
    for v in g.vertices:
        pos = (v.time_step, v.stabgen_idx)
        mine = sorted(h.edge[k].edge_idx for k in on if pos in ref.faults[k][0])
        ctx.check(sorted(e.edge_idx for e in v.edges) == mine, "edges-of-vertex", lambda: f"{what}: {pos}")
        near = sorted(at[p].vertex_idx for k in on if pos in ref.faults[k][0] for p in ref.faults[k][0] if p != pos)
        ctx.check(sorted(u.vertex_idx for u in v.neighbours) == near, "neighbours", lambda: f"{what}: {pos}")
    # connected parts
    part = {p: p for p in at}

    def find(a):
        while part[a] != a:
            part[a] = part[part[a]]
            a = part[a]
        return a

    for k in on:
        e = sorted(ref.faults[k][0])
        part[find(e[0])] = find(e[-1])
    groups = {}
    for p in at:
        groups.setdefault(find(p), set()).add(at[p].vertex_idx)
    got = {}
    for c in g.components:
        got[frozenset(int(j) for j in c.parent_vertex_idx)] = c
    ctx.check(len(got) == len(g.components) and set(got) == {frozenset(x) for x in groups.values()}, "parts", lambda: f"{what}: {sorted(map(sorted, got))}")
    for ci, c in enumerate(g.components):
        vs = [int(j) for j in c.parent_vertex_idx]
        es = [int(j) for j in c.parent_edge_idx]
        ctx.check(c.n_vertices == len(vs), "part", what)
        mine = sorted(h.edge[k].edge_idx for k in on if h.at[min(ref.faults[k][0])].vertex_idx in set(vs))
        ctx.check(sorted(es) == mine and len(c.edges) == len(es), "edges-of-part", lambda: f"{what}: {es}, expected {mine}")
        for j, e in zip(es, c.edges):
            ends = {(g.vertices[vs[v]].time_step, g.vertices[vs[v]].stabgen_idx) for v in e}
            k = name_of(g.edges[j])
            ctx.check(ends == set(ref.faults[k][0]) and len(ends) == len(e), "ends-in-part", lambda: f"{what}: {k} {ends}")
            ctx.check(g.edges[j].connected_component_idx == ci, "number-of-part", what)
        for j in vs:
            ctx.check(g.vertices[j].connected_component_idx == ci, "number-of-part", what)
        ctx.check(bool(c.has_dangling_edges) == any(len(e) == 1 for e in c.edges), "dangling", what)
        for j, x in zip(es, c.edge_weights):
            ctx.check(same(float(x), ref.faults[name_of(g.edges[j])][1]), "weight-in-part", lambda: f"{what}: {name_of(g.edges[j])} {x}")
        if es:
            ctx.check(c.is_weighted() == h.weighted, "weighted", what)
    ctx.check([id(c) for c in g.components_with_edges] == [id(c) for c in g.components if len(c.edges)], "parts-with-edges", what)
    h.frozen = [e.enabled for e in g.edges]
    h.on = on
    stat = g.get_statistics()
    full = [c for c in g.components if len(c.edges)]
    nq = 2 * ref.n * ref.rounds
    sizes = [len(v[0]) for v in ref.faults.values()]
    want = dict(
        n_vertices=len(at), n_edges=len(ref.faults), n_2_edges=sizes.count(2), n_1_edges=sizes.count(1), n_0_edges=sizes.count(0),
        n_edges_qubit=nq, n_edges_stab=len(ref.faults) - nq, n_edges_disabled=h.frozen.count(False),
        n_vertices_in_comp=[c.n_vertices for c in full], n_edges_in_comp=[len(c.edges) for c in full],
        n_comp=len(groups), n_comp_nontrivial=len(full), n_comp_trivial=len(groups) - len(full),
    )
    for k, v in want.items():
        ctx.check(stat[k] == v, "statistics", lambda: f"{what}: {k} = {stat[k]}, expected {v}")
    text = g.format_statistics()
    nums = sorted(re.findall(r"\[[^\]]*\]|(?<![-\w])\d+(?![-\w])", text))
    ctx.check(nums == sorted(str(v) for v in want.values()), "statistics-text", lambda: f"{what}: {text}")


def look(h, ctx, what):
    """What was put into the graph is where it belongs."""
    g = h.g
    ctx.check([e.enabled for e in g.edges] == h.frozen, "structure-changed", what)
    for p, v in h.at.items():
        ctx.check(bool(v.syndrome) == bool(h.syn[p]), "syndrome", lambda: f"{what}: {p} is {v.syndrome}")
    for c in g.components:
        want = [bool(h.syn[g.vertices[int(j)].time_step, g.vertices[int(j)].stabgen_idx]) for j in c.parent_vertex_idx]
        ctx.check([bool(x) for x in c.syndrome] == want, "syndrome-of-part", lambda: f"{what}: {c.syndrome}")
    for k, e in h.edge.items():
        x = bool(h.era and k[0] != "M" and h.era[k[1]][k[2]])
        ctx.check(bool(e.erased) == x, "erasure", lambda: f"{what}: {k} is {e.erased}")
        ctx.check(same(float(e.weight), h.ref.faults[k][1]), "weight", lambda: f"{what}: {k} {e.weight}")
        ctx.check(bool(e.decoder_result) == h.result[k], "result", lambda: f"{what}: {k} is {e.decoder_result}")
    for c in g.components_with_edges:
        if h.era is not None:
            want = [bool(g.edges[int(j)].erased) for j in c.parent_edge_idx]
            ctx.check([bool(x) for x in c.edge_erased] == want, "erasure-of-part", what)
        for j, x in zip(c.parent_edge_idx, c.edge_weights):
            ctx.check(same(float(x), h.ref.faults[name_of(g.edges[int(j)])][1]), "weight-in-part", what)
    for a, b in h.kept:
        ctx.check(np.asarray(a).astype(int).tolist() == [int(v) for v in b], "kept-answer", lambda: f"{what}: an earlier answer became {a}")
    if h.pending and g.components_with_edges:
        for f in (g.result_as_error_op_selection, g.result_as_pauli_frame):
            try:
                f()
            except ValueError:
                continue
            ctx.check(False, "stale-result", f"{what}: results were not read, but are answered")
    elif not h.pending:
        sel = [bool(x) for x in g.result_as_error_op_selection()]
        x = z = 0
        for (p, _, q), r in h.result.items():
            if r and p != "M":
                x ^= (p == "X") << q
                z ^= (p == "Z") << q
        ops = [sut.pauli_from_tableau(o, h.ref.n) for o in g.error_ops]
        want = [(x >> (a.bit_length() - 1) & 1) if a else (z >> (b.bit_length() - 1) & 1) for a, b in ops]
        ctx.check(sel == [bool(v) for v in want], "selected-operators", lambda: f"{what}: {sel}")
        frame = g.result_as_pauli_frame()
        ctx.check(sut.pauli_from_tableau(frame, h.ref.n) == (x, z), "pauli-frame", lambda: f"{what}: {frame}")
        frame[:] = 1  # the caller's own
        sel = g.result_as_error_op_selection()
        sel[:] = True


def build(case, ctx):
    """(function making a graph with weights, sizes and flips) for the code of this case."""
    if case["code"]:
        if case["code"]["fam"] == "five":
            raise Invalid("family")
        code = sut.build_code(case["code"])
        what = f"{case['code']} without {case['lost']}"
        if case["lost"]:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    data = code.lattice.dataqubits
                    code.apply_fabrication_errors(faulty_qubits=sorted({data[a % len(data)].equbit_idx for a in case["lost"]}))
            except ValueError:
                ctx.probe("no code is left")
                return None
            except IndexError:
                ctx.probe("no code is left")
                return None
            ctx.fault("lost qubit", len(case["lost"]))
        m = CodeModel(code)
        if not m.m:
            return None
        flips = [[i for i in range(m.m) if s >> i & 1] for k in (0, 1) for s in (c[k] for c in m.single_fault_columns())]

        def make(arg, direct):
            if direct:
                return Mgr(syngraph.SyndromeGraph.from_code(code, arg))
            return syngraph.SyndromeGraphManager(code, None, weights=arg) if arg is not None else (
                syngraph.SyndromeGraphManager(code, None, weighted=[None, False][len(case["ops"]) % 2]))

        return make, m.rounds, m.m, flips, what, code
    f = case["free"]
    n, m = len(f["flips"]) // 2, f["m"]
    if n < 1 or m < 1 or len(f["flips"]) % 2 or any(len(set(a % m for a in s)) > 2 for s in f["flips"]):
        raise Invalid("stabilizers")
    flips = [sorted({a % m for a in s}) for s in f["flips"]]
    if f["big"] is not None and m > 2:
        flips[f["big"] % (2 * n)] = [0, 1, 2]
    rows = np.zeros((m, 2 * n + 1), dtype="u1")
    for j, s in enumerate(flips):
        for i in s:
            # an X fault is seen by the Z part of a stabilizer and the other way round
            rows[i, (j + n) % (2 * n)] = 1
    for i in range(m):
        rows[i, 2 * n] = f["sign"] >> i & 1

    def make(arg, direct):
        return Mgr(syngraph.SyndromeGraph(f["rounds"], list(rows), arg))

    return make, f["rounds"], m, flips, f"{f}", None


def run(case, ctx):
    warnings.simplefilter("ignore")
    b = build(case, ctx)
    if b is None:
        return
    make, rounds, m, flips, what, code = b
    n = len(flips) // 2
    hs = []
    for w in case["w"][: 1 + case["two"]]:
        arg, full = draw_weights(w, n, m)
        ref = Ref(rounds, m, flips, full)
        if any(len(s) > 2 for s in flips):
            try:
                make(arg, True)
            except ValueError:
                ctx.fault("faults seen by three stabilizers")
                ctx.log("refused")
                return
            ctx.check(False, "not-refused", lambda: f"{what}: a fault is seen by three stabilizers")
        given = None if arg is None else {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in arg.items()}
        mgr = make(arg, w["seed"] & 1)
        if arg is not None:
            ctx.check(all(np.array_equal(arg[k], given[k], equal_nan=True) for k in given), "input-changed", what)
            for v in arg.values():
                if isinstance(v, np.ndarray):
                    v[:] = 77.0  # the caller's own
        h = Holder(mgr.sgraph, ref, w["style"] not in ("none", "nan"))
        h.mgr = mgr
        h.rank = None
        hs.append(h)
        structure(h, ctx, what)
        look(h, ctx, what)
        ctx.state(sorted((k, ref.faults[k][1]) for k in h.on), flips)
        ctx.log("graph", w["style"], sorted(h.on, key=str))
    if code is not None and case["ops"] and case["ops"][0]["seed"] % 8 == 0:
        contradictions(code, ctx, what, n, m)
    for k, o in enumerate(case["ops"]):
        ctx.steps += 1
        h = hs[o["on"] % len(hs)]
        label = f"{what}, operation {k} {o}"
        step(h, o, ctx, label, random.Random(o["seed"]))
        for x in hs:
            look(x, ctx, label)
            if o["seed"] % 16 == 0:
                structure(x, ctx, label)


def contradictions(code, ctx, what, n, m):
    w = dict(pauli_x=1.0, pauli_z=1.0, measurement=1.0)
    for kw in (dict(errordata={"pauli": {}}, weights=w), dict(errordata=None, weighted=True)):
        try:
            syngraph.SyndromeGraphManager(code, kw.pop("errordata"), **kw)
        except ValueError:
            ctx.fault("contradictory weights")
            continue
        ctx.check(False, "not-refused", lambda: f"{what}: {kw}")


def attempt(fn, o, ctx, name):
    """Run fn; if it is to be interrupted, interrupt it first and then run it again."""
    if o.get("stop"):
        at, exc = o["stop"]
        fired, res = interrupted(fn, 1 + at * count_lines(fn) // 1000, exc, ctx, name)
        if not fired:
            return res
    return fn()


def step(h, o, ctx, what, R):
    g, ref = h.g, h.ref
    kind = o["op"]
    T, m, n = ref.rounds, ref.m, ref.n
    full = g.components_with_edges
    if kind == "syndrome":
        p = R.choice([0, 0.1, 0.5, 1])
        bits = [[int(R.random() < p) for _ in range(m)] for _ in range(T)]
        arg = np.array(bits, dtype=R.choice([bool, "u1"]))
        if R.random() < 0.1:
            bits, arg = [[0] * m for _ in range(T)], None
        attempt(lambda: g.set_syndrome(arg), o, ctx, kind)
        h.syn = {(t, i): bits[t][i] for t in range(T) for i in range(m)}
        if arg is not None:
            ctx.check(arg.astype(int).tolist() == bits, "input-changed", what)
            arg[:] = 1 - arg if arg.dtype != bool else ~arg  # the caller's own
        ctx.log(kind, bits)
    elif kind == "erasure":
        p = R.choice([0, 0.1, 0.5, 1])
        bits = [[int(R.random() < p) for _ in range(n)] for _ in range(T)]
        arg = np.array(bits, dtype=R.choice([bool, "u1"]))
        if R.random() < 0.1:
            bits, arg = [[0] * n for _ in range(T)], None
        attempt(lambda: g.set_erasure(arg), o, ctx, kind)
        h.era = bits
        ctx.fault("erasure", sum(map(sum, bits)))
        if arg is not None:
            ctx.check(arg.astype(int).tolist() == bits, "input-changed", what)
            arg[:] = 1 - arg if arg.dtype != bool else ~arg
        ctx.log(kind, bits)
    elif kind == "result":
        if not full:
            return
        some = R.sample(range(len(full)), R.randint(1, len(full)))
        for c in some:
            res = np.array([R.random() < 0.4 for _ in full[c].edges], dtype=bool)
            full[c].set_edge_decoder_results(res)
            h.pending = True
        look_pending(h, ctx, what)
        if R.random() < 0.85:
            attempt(g.update_decoder_results, o, ctx, kind)
            read(h)
        ctx.log(kind, [[bool(x) for x in c.edge_decoder_result] for c in full])
    elif kind == "combine":
        parts = [np.array([R.random() < 0.4 for _ in c.edges], dtype=bool) for c in full]
        out = attempt(lambda: g.combine_decoding_results(parts), o, ctx, kind)
        want = [False] * len(g.edges)
        for c, p in zip(full, parts):
            for j, x in zip(c.parent_edge_idx, p):
                want[int(j)] = bool(x)
        ctx.check([bool(x) for x in out] == want, "combined", lambda: f"{what}: {out}")
        h.kept.append((out, want))
        ctx.log(kind, want)
    elif kind == "weights":
        arg, _ = draw_weights(dict(style=R.choice(["numbers", "arrays", "nan"]), seed=R.randrange(1 << 30)), n, m)
        refused(lambda: g.set_edge_weights(**arg), ctx, what, "new weights for a finished graph")
    elif kind == "refused":
        which = R.randrange(5)
        if which == 0:
            refused(lambda: g.set_syndrome(np.ones((T + 1, m), dtype=bool)), ctx, what, "syndrome of another size")
        elif which == 1:
            refused(lambda: g.set_erasure(np.ones((T, n + 1), dtype=bool)), ctx, what, "erasure of another size")
        elif which == 2:
            refused(lambda: g.set_syndrome(np.ones((T, m), dtype=float)), ctx, what, "syndrome of numbers")
        elif full:
            c = R.choice(full)
            if which == 3:
                refused(lambda: c.set_edge_decoder_results(np.ones(len(c.edges) + 1, dtype=bool)), ctx, what, "result of another size")
            else:
                refused(lambda: g.combine_decoding_results([np.ones(1, dtype=bool)] * (len(full) + 1)), ctx, what, "results of more parts")
    elif kind == "decode":
        decode(h, o, ctx, what, R)


def refused(fn, ctx, what, name):
    try:
        fn()
    except (AssertionError, ValueError, IndexError, TypeError):
        ctx.fault("refused: " + name)
        return
    ctx.check(False, "not-refused", lambda: f"{what}: {name}")


def look_pending(h, ctx, what):
    try:
        h.g.result_as_pauli_frame()
    except ValueError:
        return
    ctx.check(False, "stale-result", f"{what}: results were not read, but are answered")


def read(h):
    h.pending = False
    for c in h.g.components_with_edges:
        for j, x in zip(c.parent_edge_idx, c.edge_decoder_result):
            h.result[name_of(h.g.edges[int(j)])] = bool(x)


def decode(h, o, ctx, what, R):
    g, ref = h.g, h.ref
    T, m, n = ref.rounds, ref.m, ref.n
    names = ["PyMatchingDecoder", "FusionBlossomDecoder", "UnionFindDecoder"]
    if not h.weighted:
        names.append("UnionFindNoWeights")
    if not g.components_with_edges:
        return
    name = R.choice(names)
    if name not in h.decs or R.random() < 0.2:
        h.decs[name] = getattr(decoders, name)(h.mgr)
        ctx.probe("decoders sharing a graph", len(h.decs) > 1)
    faults = [k for k in h.on if R.random() < R.choice([0, 0.1, 0.3])]
    syn = dict.fromkeys(h.syn, 0)
    for k in faults:
        for p in ref.faults[k][0]:
            syn[p] ^= 1
    era = [[0] * n for _ in range(T)]
    if name.startswith("UnionFind") and R.random() < 0.5:
        era = [[int(R.random() < 0.2) for _ in range(n)] for _ in range(T)]
    s = np.array([[syn[t, i] for i in range(m)] for t in range(T)], dtype=bool)
    e = np.array(era, dtype=bool)
    ctx.fault("fault", len(faults))
    out = attempt(lambda: h.decs[name].decode(e.copy(), s.copy()), o, ctx, "decode")
    h.syn, h.era = syn, era
    read(h)
    par = dict.fromkeys(syn, 0)
    x = z = 0
    for k, r in h.result.items():
        if r:
            ctx.check(h.edge[k].enabled, "fault-without-part", lambda: f"{what} {name}: {k}")
            for p in ref.faults[k][0]:
                par[p] ^= 1
            if k[0] == "X":
                x ^= 1 << k[2]
            if k[0] == "Z":
                z ^= 1 << k[2]
    ctx.check(par == syn, "not-explained", lambda: f"{what} {name}: {[k for k, r in h.result.items() if r]} for {faults}")
    got = sut.pauli_from_tableau(out, n)
    ctx.check(got == (x, z), "pauli-frame", lambda: f"{what} {name}: {got}, selected {[k for k, r in h.result.items() if r]}")
    ctx.log("decode", name, faults, got)
