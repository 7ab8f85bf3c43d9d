"""Q08: decoder backends decode arbitrary graphs."""
import math
import random
import warnings

import fusion_blossom as fb
import numpy as np

from dst import sut
from dst.core import Invalid
from dst.interrupt import count_lines, interrupted
from plaquette import syngraph
from plaquette.decoders import fusionblossom, matching, unionfind_decoder, unionfind_erasure, unionfind_interfaces

ID = "Q08"
CASES = {"quick": 9000, "thorough": 250000}
RULE = (
    "one case = a random connected graph (tree plus extra, parallel and dangling edges), weights or none, one "
    "backend (two matching backends, two union-find backends, bare union find with split edges or chosen "
    "growth, bare erasure decoder) and 1-12 operations: decodings of random or fault-generated syndromes "
    "with erasures, interrupted decodings, changes of weights (to none as well), refused weights, exchanges of the graph; distinct = different event log"
)
STATES = "distinct (graph, weights, erasure, syndrome) decoded"
REAL = ["SyndromeGraphComponent, Vertex, Edge", "decoder backends", "union find, erasure decoder", "PyMatching and Fusion Blossom libraries"]
STUB = ["stabilizer code (graphs are given directly)"]
ASSUME = [
    "inputs which a component decoder would refuse (odd parity without dangling edge) are not handed to backends",
    "no parallel edges for the matching backends (syndrome graphs have none), no erasures for PyMatching",
    "erasures on which Fusion Blossom itself panics (a fault of that library) are left out",
    "tolerance for rounding of weights: 1 % of the largest for Fusion Blossom, 1/4000 for PyMatching",
]
BACKENDS = ["PyMatching", "FusionBlossom", "UFNoWeights", "UF", "split", "grow", "peel", "scaled"]


class Grow(unionfind_decoder.UnionFindNoWeights):
    """User-defined union find with chosen growth."""

    choose_growth_increment_enabled = True

    def _set_weights(self, weights):
        for edge, w in zip(self.graph.edges, weights):
            edge.set_weight(w, 1)


class Split(unionfind_decoder.UnionFindNoWeights):
    """Union find on split edges."""

    split_edges = True


def gen_graph(rng):
    n = rng.randint(1, 9)
    style = rng.choice(["tree", "sparse", "dense", "ring", "path"])
    edges = []
    if style in ("ring", "path"):
        edges = [[j, j + 1] for j in range(n - 1)]
        if style == "ring" and n > 2:
            edges.append([0, n - 1])
    else:
        edges = [[rng.randrange(j), j] for j in range(1, n)]
        for _ in range({"tree": 0, "sparse": rng.randint(0, 3), "dense": rng.randint(2, 9)}[style]):
            if n > 1:
                edges.append(rng.sample(range(n), 2))
    for _ in range(rng.choice([0, 1, 1, 2, 2, 4])):
        edges.append([rng.randrange(n)])
    if not edges:
        edges.append([0])
    rng.shuffle(edges)
    return dict(n=n, edges=edges, flip=rng.randrange(1 << 20))


def gen_weights(rng):
    return dict(
        style=rng.choice(["none", "none", "ones", "ints", "two", "wide"]), seed=rng.randrange(1 << 30))


def gen(rng, i):
    ops = []
    for j in range(rng.choice([1, 2, 4, 12])):
        k = rng.random()
        if k < 0.75 or j == 0:
            ops.append(dict(op="decode", by=rng.choice(["faults", "faults", "light", "light", "bits"]),
                            f=[rng.randrange(60) for _ in range(rng.randint(0, 5))],
                            e=[rng.randrange(60) for _ in range(rng.choice([0, 0, 1, 3, 6]))]))
            if rng.random() < 0.15:
                ops[-1]["stop"] = [rng.randrange(1000), rng.choice(["KeyboardInterrupt", "MemoryError"])]
        elif k < 0.9:
            ops.append(dict(op="weights", w=gen_weights(rng)))
            if rng.random() < 0.3:
                ops[-1]["bad"] = [rng.choice(["negative", "nan"]), rng.randrange(60), rng.random() < 0.5]
        else:
            ops.append(dict(op="graph", g=gen_graph(rng), w=gen_weights(rng)))
    return dict(backend=rng.choice(BACKENDS), g=gen_graph(rng), w=gen_weights(rng), ops=ops, c=rng.choice([1, 2, 3, 4.5, 10]))


class Graph:
    """The graph as the harness knows it."""

    def __init__(self, g, parallel):
        self.n = max(1, g["n"])
        self.edges = []
        seen = set()
        for e in g["edges"]:
            if not e or len(e) > 2:
                raise Invalid
            e = [v % self.n for v in e]
            if len(e) == 2 and e[0] == e[1]:
                continue
            key = frozenset(e)
            if not parallel and len(e) == 2 and key in seen:
                continue
            seen.add(key)
            if g["flip"] >> (len(self.edges) % 20) & 1:
                e.reverse()
            self.edges.append(tuple(e))
        if not self.edges:
            raise Invalid
        # connected?
        comp = {0}
        for _ in range(self.n):
            for e in self.edges:
                if comp & set(e):
                    comp |= set(e)
        if len(comp) != self.n:
            raise Invalid
        self.dangling = any(len(e) == 1 for e in self.edges)

    def boundary(self, sel):
        s = [0] * self.n
        for j in sel:
            for v in self.edges[j]:
                s[v] ^= 1
        return s

    def span(self, sel):
        """Whether each syndrome is explained by edges of `sel`: function."""
        comp = list(range(self.n + 1))

        def find(a):
            while comp[a] != a:
                a = comp[a]
            return a

        for j in sel:
            e = self.edges[j]
            a, b = find(e[0]), find(e[1] if len(e) == 2 else self.n)
            comp[a] = b

        def ok(s):
            par = {}
            for v in range(self.n):
                r = find(v)
                par[r] = par.get(r, 0) ^ s[v]
            out = find(self.n)
            return not any(p for r, p in par.items() if r != out)

        return ok

    def cheapest(self, w):
        """Cost of the cheapest explanation of every syndrome."""
        best = np.full(1 << self.n, math.inf)
        best[0] = 0
        idx = np.arange(1 << self.n)
        for j, e in enumerate(self.edges):
            mask = sum(1 << v for v in e)
            best = np.minimum(best, best[idx ^ mask] + w[j])
        return best

    def girth(self, w):
        """Length of the shortest closed loop (also through the outside)."""
        best = math.inf
        for j, e in enumerate(self.edges):
            a, b = e[0], (e[1] if len(e) == 2 else self.n)
            dist = [math.inf] * (self.n + 1)
            dist[a] = 0
            for _ in range(self.n + 1):
                for k, f in enumerate(self.edges):
                    if k == j:
                        continue
                    c, d = f[0], (f[1] if len(f) == 2 else self.n)
                    dist[c] = min(dist[c], dist[d] + w[k])
                    dist[d] = min(dist[d], dist[c] + w[k])
            best = min(best, dist[b] + w[j])
        return best


def weights_of(w, n):
    r = random.Random(w["seed"])
    st = w["style"]
    if st == "none":
        return None
    f = {"ones": lambda: 1.0, "ints": lambda: float(r.randint(1, 6)), "two": lambda: r.choice([1.0, 7.5]),
         "wide": lambda: 10 ** r.uniform(-1, 1)}[st]
    return [f() for _ in range(n)]


def component(G, w):
    """The component as the library defines it."""
    off = 3  # vertices and edges need not be numbered from zero
    vs = [syngraph.Vertex(vertex_idx=off + 2 * j, stabgen_idx=j, time_step=0) for j in range(G.n)]
    es = [syngraph.Edge(edge_idx=off + j, vertices=tuple(vs[v] for v in e)) for j, e in enumerate(G.edges)]
    arr = np.full(len(es), np.nan) if w is None else np.array(w, dtype=float)
    return syngraph.SyndromeGraphComponent(vs, es, arr)


def library_panics(G, w, erased, s):
    """Whether Fusion Blossom itself cannot solve this (a defect of that library with erased edges)."""
    top = max(w) if w else 1
    n, edges, outside = G.n, [], []
    for j, e in enumerate(G.edges):
        if len(e) == 1:
            e = (e[0], n + len(outside))
            outside.append(e[1])
        edges.append((*e, 2 * (int(100 * w[j] / top) if w else 1)))
    solver = fb.SolverSerial(fb.SolverInitializer(n + len(outside), edges, outside))
    try:
        solver.solve(fb.SyndromePattern(syndrome_vertices=[v for v in range(n) if s[v]], erasures=erased))
    except BaseException as e:  # noqa: B902
        return type(e).__name__ == "PanicException"
    return False


def scale(uf, c, ctx):
    """Set the normalisation of the weights, after attempts to set something else."""
    if not isinstance(c, (int, float)) or c <= 0:
        raise Invalid("coefficient")
    uf.normalization_coefficient = c
    for bad in (-1, -0.5, "2", None):
        try:
            uf.normalization_coefficient = bad
        except (ValueError, TypeError):
            continue
        ctx.check(False, "not-refused", f"coefficient {bad!r}")
    ctx.check(uf.normalization_coefficient == c, "coefficient", lambda: f"{uf.normalization_coefficient}, not {c}")


def run(case, ctx):
    name = case["backend"]
    high = name in ("PyMatching", "FusionBlossom", "UFNoWeights", "UF")
    parallel = name not in ("PyMatching", "FusionBlossom")
    supports = name in ("PyMatching", "FusionBlossom", "UF", "grow", "scaled")
    warnings.simplefilter("ignore")
    state = {}

    def setup(g, wspec, fresh):
        G = Graph(g, parallel)
        w = weights_of(wspec, len(G.edges)) if supports else None
        state.update(G=G, w=w)
        if high:
            cls = {"PyMatching": matching.PyMatchingDecoder, "FusionBlossom": fusionblossom.FusionBlossomDecoder,
                   "UFNoWeights": unionfind_interfaces.UnionFindNoWeights, "UF": unionfind_interfaces.UnionFindDecoder}[name]
            state["comp"] = component(G, w)
            if fresh:
                state["dec"] = cls()
            state["dec"].set_syngraph(state["comp"])
        else:
            graph = unionfind_erasure.Graph(G.n, list(G.edges))
            if name == "peel":
                state["dec"] = unionfind_erasure.ErasureDecoder(graph)
            else:
                cls = {"split": Split, "grow": Grow, "scaled": unionfind_decoder.UnionFind}[name]
                state["dec"] = unionfind_decoder.UnionFindDecoder(cls, graph)
                state["raw"] = unionfind_decoder.UnionFindDecoder(cls, graph, skip_erasure_decoder=True)
                if name == "scaled":
                    for d in ("dec", "raw"):
                        scale(state[d].uf, case["c"], ctx)
                if w is not None:
                    state["dec"].set_weights(np.array(w))
                    state["raw"].set_weights(np.array(w))

    setup(case["g"], case["w"], True)
    ctx.log("graph", name, state["G"].edges, state["w"])
    for op in case["ops"]:
        G, w = state["G"], state["w"]
        E = len(G.edges)
        ctx.steps += 1
        if op["op"] == "graph":
            setup(op["g"], op["w"], False)
            ctx.probe("graph exchanged")
            ctx.log("graph", state["G"].edges, state["w"])
            continue
        if op["op"] == "weights":
            if not (supports or high):
                continue
            w = weights_of(op["w"], E) if supports else None
            bad = op.get("bad")
            if bad and high and supports:
                # weights which are no weights are refused; good ones work afterwards
                arr = np.array(w if w is not None else [1.0] * E)
                at = bad[1] % E
                arr[at] = -arr[at] if bad[0] == "negative" else np.nan
                if not np.isnan(arr).all():
                    state["comp"].set_edge_weights(arr)
                    try:
                        if bad[2]:
                            state["dec"].update_weights()
                        else:
                            state["dec"].set_syngraph(state["comp"])
                    except ValueError:
                        ctx.fault("refused weights: " + bad[0])
                    else:
                        ctx.check(False, "not-refused", lambda: f"{name} accepts the weights {arr}")
                    ctx.log("refused", bad)
            state["w"] = w
            if high:
                state["comp"].set_edge_weights(np.full(E, np.nan) if w is None else np.array(w, dtype=float))
                state["dec"].update_weights()
            else:
                for d in ("dec", "raw"):
                    state[d].set_weights(None if w is None else np.array(w))
            ctx.probe("weights changed")
            ctx.log("weights", w)
            continue
        erased = sorted({j % E for j in op["e"]})
        if name == "PyMatching":
            erased = []
        if op["by"] in ("faults", "light"):
            faults = set()
            for j in op["f"]:
                faults ^= {j % E}
            if op["by"] == "light" and w is not None:  # only where faults are likely
                order = sorted(range(E), key=lambda j: w[j])
                faults = {order[j % max(1, E // 2)] for j in faults}
            s = G.boundary(faults)
        else:
            faults = None
            s = [0] * G.n
            for j in op["f"]:
                s[j % G.n] ^= 1
            if sum(s) % 2 and not G.dangling:
                s[0] ^= 1
        if name == "peel":
            # this decoder demands that the erasure explains the syndrome
            faults = {erased[j % len(erased)] for j in op["f"]} if erased else set()
            s = G.boundary(faults)
        for j in erased:
            ctx.fault("erasure")
        for j in faults or ():
            ctx.fault("edge fault")
        ctx.state((tuple(G.edges), tuple(w or ()), tuple(erased), tuple(s)))
        syn = np.array(s, dtype=bool)
        er = np.zeros(E, dtype=bool)
        er[erased] = True
        complete = None
        if high:
            state["comp"].set_erasure(er.copy())
            state["comp"].set_syndrome(syn.copy())
            call = state["dec"].decode
        else:
            bits = [bool(b) for b in s]

            def call():
                return state["dec"].decode(list(erased), list(bits))

        if name == "FusionBlossom" and erased and library_panics(G, w, erased, s):
            ctx.probe("left out: Fusion Blossom itself fails on these erasures")
            continue
        if op.get("stop"):
            at, exc = op["stop"]
            fired, _ = interrupted(call, 1 + at * count_lines(call) // 1000, exc, ctx, "decode")
            if fired:
                ctx.log("interrupted", erased, s)
                continue
        if high:
            call()
            ans = [int(j) for j in np.where(state["comp"].edge_decoder_result)[0]]
            ctx.check((state["comp"].syndrome == syn).all() and (state["comp"].edge_erased == er).all(),
                      "input-changed", f"{name} changed the syndrome or the erasure of the graph")
        else:
            ans = [j for j, b in enumerate(call()) if b]
            if name != "peel":
                complete = sorted(int(j) for j in state["raw"].decode(list(erased), list(bits)))
        ctx.log("decode", erased, s, ans, complete)
        where = f"{name} on {G.n} vertices, edges {G.edges}, weights {w}, erased {erased}, syndrome {s}: {ans}"
        ctx.check(G.boundary(ans) == s, "not-explained", f"{where} explains {G.boundary(ans)}")
        if name == "peel":
            ctx.check(set(ans) <= set(erased), "outside-erasure", where)
        if complete is not None:
            ctx.check(set(erased) <= set(complete) and set(ans) <= set(complete), "grown",
                      f"{where}; grown to {complete}")
            ctx.check(G.span(complete)(s), "grown", f"{where}; grown to {complete}, which does not explain the syndrome")
        if name not in ("PyMatching", "FusionBlossom") and G.span(erased)(s):
            ctx.probe("explained by erasure")
            ctx.check(set(ans) <= set(erased), "outside-erasure", f"{where}, although the erasure explains the syndrome")
            if complete is not None:
                ctx.check(complete == erased, "grown", f"{where}; grown to {complete} without need")
        base = w or [1.0] * E
        if name in ("PyMatching", "FusionBlossom"):
            cost = [0.0 if er[j] else base[j] for j in range(E)]
            best = G.cheapest(cost)[sum(b << v for v, b in enumerate(s))]
            mine = sum(cost[j] for j in ans)
            if w is None:
                tol = 1e-9
            else:
                unit = max(base) / (100 if name == "FusionBlossom" else 4000)
                tol = unit * max(1, len(ans)) + 1e-9
            ctx.check(mine <= best + tol, "not-cheapest", f"{where} costs {mine}, {best} is possible")
        elif name != "peel" and faults is not None:
            # lengths in growth steps; parts which are erased have no length
            if name in ("UF", "scaled") and w is not None:
                L = [2 * (case["c"] if name == "scaled" else 2) * x / min(w) for x in w]
                lo, hi = [max(0, x - 2) for x in L], [x + 1 for x in L]
            elif w is None:
                lo = hi = [1.0] * E
            else:
                continue  # nothing is promised for chosen growth
            lo = [0 if er[j] else lo[j] for j in range(E)]
            hi = [0 if er[j] else hi[j] for j in range(E)]
            if 2 * sum(hi[j] for j in faults) < G.girth(lo):
                ctx.probe("guaranteed")
                ctx.check(set(ans) == set(faults), "few-faults", f"{where}; faults were {sorted(faults)}")
