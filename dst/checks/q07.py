"""Q07: matching decoders answer with a most likely explanation."""
import heapq
import math
import random

from dst import sut
from dst.core import Invalid
from dst.model import CodeModel
from plaquette.syngraph import weights as weights_

ID = "Q07"
CASES = {"quick": 5000, "thorough": 120000}
RULE = (
    "one case = code, size, rounds, matching decoder, error rates or weights per qubit and stabilizer "
    "(or none; erasure rates ignored, or counted on demand), and 1-5 random fault histories; in every connected part of the space-time graph the "
    "cost of the cheapest explanation of the answer's logical class is compared with the cheapest of "
    "all (exact shortest paths and exact pairing of at most ten defects); distinct = different event log"
)
STATES = "distinct (code, syndrome, erasure record) triples decoded"
REAL = ["codes", "lattices", "syndrome graph", "weights", "PyMatching and Fusion Blossom decoders and libraries"]
STUB = ["quantum device (fault histories come from the code model)"]
ASSUME = [
    "X and Z faults count as independent, as the rates px+py and py+pz",
    "tolerance for the rounding of weights: 1 % of the largest for Fusion Blossom, 1/4000 for PyMatching",
    "parts with more than ten defects are not judged",
    "erasures only on qubits whose faults have syndromes of their own",
]
INF = math.inf


def gen(rng, i):
    spec = sut.gen_code(rng, max_rounds=rng.choice([1, 1, 2, 3, 4]), big=False, custom=0.2, huge=0.01)
    kind = rng.choice(["rates", "rates", "rates", "weights", "weights", "none"])
    shots = []
    for _ in range(rng.randint(1, 5)):
        sh = {"d": [], "e": [], "f": [], "x": []}
        for _ in range(rng.randint(1, 6)):
            v = [rng.randrange(12), rng.randrange(120)]
            if rng.random() < 0.3:
                sh["f"].append(v)
            else:
                sh["d"].append([*v, rng.choice("XYZ")])
        shots.append(sh)
    name = rng.choice(["PyMatchingDecoder", "FusionBlossomDecoder"])
    if name == "FusionBlossomDecoder" and kind == "none" and rng.random() < 0.5:
        for sh in shots:
            sh["e"] = [[rng.randrange(12), rng.randrange(120), rng.choice("IXYZ")] for _ in range(rng.randint(0, 4))]
    return dict(
        code=spec, decoder=name, kind=kind, shots=shots, wseed=rng.randrange(1 << 30),
        style=rng.choice(["wide", "narrow", "two", "integers"]), meas=rng.choice(["all", "all", "some", "none"]),
        missing=rng.random() < 0.2, lost=rng.choice([None, None, None, "heralded", "counted"]))


class Counted(weights_.WeightComputation):
    """Weights in which erasures count as unheralded X and Z faults."""

    erasure_weights = True


class Part:
    """Connected part of the space-time graph."""

    def __init__(self):
        self.adj = {}

    def add(self, u, v, w, lab):
        self.adj.setdefault(u, []).append((v, w, lab))
        self.adj.setdefault(v, []).append((u, w, lab))


def shortest(adj, src, labels):
    """{(vertex, label): cost} from (src, 0)."""
    dist = {(src, 0): 0.0}
    heap = [(0.0, src, 0)]
    while heap:
        d, u, a = heapq.heappop(heap)
        if d > dist[u, a]:
            continue
        for v, w, lab in adj.get(u, ()):
            k = (v, a ^ lab)
            if d + w < dist.get(k, INF) - 1e-12:
                dist[k] = d + w
                heapq.heappush(heap, (d + w, v, a ^ lab))
    return dist


def class_costs(adj, defects, labels, boundary):
    """Cheapest explanation of the defects for every logical class."""
    D = [shortest(adj, u, labels) for u in defects]
    k = len(defects)
    best = {0: {0: 0.0}}  # subset -> label -> cost
    full = (1 << k) - 1
    for S in range(full + 1):
        cur = best.get(S)
        if cur is None or S == full:
            continue
        i = next(j for j in range(k) if not S >> j & 1)
        for j in list(range(i + 1, k)) + [None]:
            if j is not None and S >> j & 1:
                continue
            v = defects[j] if j is not None else boundary
            T = S | 1 << i | (1 << j if j is not None else 0)
            tgt = best.setdefault(T, {})
            for lab in labels:
                c = D[i].get((v, lab))
                if c is None:
                    continue
                for a, ca in cur.items():
                    if ca + c < tgt.get(a ^ lab, INF):
                        tgt[a ^ lab] = ca + c
    res = dict(best.get(full, {}))
    # closed loops which carry a logical operator
    loops = {}
    todo = [b for b in labels if b]
    if todo:
        ends = {u for u, es in adj.items() for _, _, lab in es if lab}
        for u in ends:
            for (v, lab), c in shortest(adj, u, labels).items():
                if v == u and lab and c < loops.get(lab, INF):
                    loops[lab] = c
    for _ in range(len(labels)):
        for lab, c in loops.items():
            for a, ca in list(res.items()):
                if ca + c < res.get(a ^ lab, INF) - 1e-12:
                    res[a ^ lab] = ca + c
    return res


def run(case, ctx):
    spec = case["code"]
    sut.set_rng(case["seed"])
    code = sut.build_code(spec)
    model = CodeModel(code)
    n, m, R = model.n, model.m, model.rounds
    name, kind = case["decoder"], case["kind"]
    r = random.Random(case["wseed"])
    wx, wz, wm = [1.0] * n, [1.0] * n, [1.0] * m
    ed, kw = None, {}
    if kind == "rates":
        def rate():
            return {"wide": lambda: 10 ** r.uniform(-6, -0.7), "narrow": lambda: r.uniform(0.02, 0.2),
                    "two": lambda: r.choice([0.001, 0.12]), "integers": lambda: r.choice([0.01, 0.05, 0.1, 0.15])}[case["style"]]()

        lost = case.get("lost")
        ed = {"pauli": {}}
        if lost:
            ed["erasure"] = {}
        for j, q in enumerate(model.data_ids):
            if case["missing"] and r.random() < 0.3:
                px = py = pz = 1e-15 if lost != "counted" else 0.0
            else:
                px, py, pz = rate(), rate() * r.choice([0.1, 1]), rate()
                ed["pauli"][q] = dict(x=px, y=py, z=pz)
            pe = 0.0
            if lost and r.random() < 0.8:
                ed["erasure"][q] = {"p": r.choice([0.0, 0.02, 0.3, 0.45])}
                pe = ed["erasure"][q]["p"] / 2 if lost == "counted" else 0.0
            wx[j], wz[j] = (
                -math.log(p / (1 - p)) if p else INF
                for p in (p * (1 - pe) + pe * (1 - p) for p in (px + py, py + pz)))
        wm = [INF] * m
        if case["meas"] != "none":
            ed["measurement"] = {}
            for j, a in enumerate(model.anc_ids):
                if case["meas"] == "all" or r.random() < 0.6:
                    p = rate()
                    ed["measurement"][a] = {"p": p}
                    wm[j] = -math.log(p / (1 - p))
        if lost == "counted":
            kw = {"weights": Counted(code, ed).get_edge_weights()}
            ed = None
        if lost:
            ctx.probe("erasure rates " + lost)
    elif kind == "weights":
        def weight():
            return {"wide": lambda: 10 ** r.uniform(-1, 1.5), "narrow": lambda: r.uniform(1, 2.2),
                    "two": lambda: r.choice([2.0, 5.0]), "integers": lambda: float(r.randint(1, 20)) * 5}[case["style"]]()

        wx, wz, wm = ([weight() for _ in range(k)] for k in (n, n, m))
        kw = {"weights": dict(pauli_x=sut.np.array(wx), pauli_z=sut.np.array(wz), measurement=sut.np.array(wm))}
    else:
        kw = {"weighted": False} if r.random() < 0.5 else {}
    dec = getattr(sut.decoders, name).from_code(code, ed, **kw)

    # the space-time graph, from the code model alone
    B = (-1, -1)
    idx = list(range(2 * model.k))
    col = {}
    for q in range(n):
        for kind_, p in (("X", (1 << q, 0)), ("Z", (0, 1 << q))):
            s = model.syndrome_of(p)
            st = [i for i in range(m) if s >> i & 1]
            if not 0 <= len(st) <= 2:
                raise Invalid("hyperedge")
            lab = 0
            for b in sut.logical_effect(model, idx, p):
                lab = lab << 1 | b
            col[kind_, q] = (st, lab)
    syndromes = [st for st, _ in col.values()]
    parent = list(range(m))

    def find(a):
        while parent[a] != a:
            a = parent[a]
        return a

    for st, _ in col.values():
        for a, b in zip(st, st[1:]):
            parent[find(a)] = find(b)
    part_of = {("X", q): None for q in range(n)}
    for key, (st, _) in col.items():
        part_of[key] = find(st[0]) if st else None
    parts = sorted({find(i) for i in range(m)})
    ctx.probe("parts", len(parts))
    for shot, sh in enumerate(case["shots"]):
        sh = {a: [list(v) for v in b] for a, b in sh.items()}
        if sh["x"]:
            raise Invalid("x")
        sh["f"] = [[t, i] for t, i in sh["f"] if wm[i % m] < INF]
        sh["d"] = [
            v for v in sh["d"]
            if (v[2] == "Z" or wx[v[1] % n] < INF) and (v[2] == "X" or wz[v[1] % n] < INF)]
        sh["e"] = [v for v in sh["e"] if not any(
            st and syndromes.count(st) > 1 for st in (col["X", v[1] % n][0], col["Z", v[1] % n][0]))]
        s = sut.Shot(model, sh)
        e, syn = s.arrays(record=bool(s.ne))
        ctx.log(s.syn, s.era if s.ne else 0)
        ctx.state(spec["fam"], spec.get("size"), s.syn, s.era)
        ctx.fault("data Pauli", s.nd)
        ctx.fault("erasure", s.ne)
        ctx.fault("readout flip", s.nf)
        ctx.rounds += R
        ctx.steps += 1
        p = sut.pauli_from_tableau(dec.decode(e, syn), n)
        ctx.log(p)
        for c in parts:
            defects = [(t, i) for t in range(R) for i in range(m) if s.syn[t][i] and find(i) == c]
            if len(defects) > 10:
                ctx.probe("too many defects to judge")
                continue
            part = Part()
            part.adj[B] = []
            span = {0}
            answer = 0
            own = 0.0
            finite = []
            for (kd, q), (st, lab) in col.items():
                if part_of[kd, q] != c:
                    continue
                w = (wx if kd == "X" else wz)[q]
                span |= {a ^ lab for a in span}
                if p[0 if kd == "X" else 1] >> q & 1:
                    answer ^= lab
                    own += w
                for t in range(R):
                    wt = 0.0 if s.era[t][q] else w
                    if wt < INF:
                        finite.append(wt)
                        part.add((t, st[0]), (t, st[1]) if len(st) == 2 else B, wt, lab)
            for i in range(m):
                if find(i) == c and wm[i] < INF:
                    for t in range(R - 1):
                        finite.append(wm[i])
                        part.add((t, i), (t + 1, i), wm[i], 0)
            cost = class_costs(part.adj, defects, sorted(span), B)
            if not cost or not finite:
                continue
            low = min(cost.values())
            got = cost.get(answer, INF)
            unit = 0.0
            pos = [w for w in finite if w > 0]
            if pos and kind != "none":
                unit = max(pos) / (100 if name == "FusionBlossomDecoder" else 4000)
                unit = INF if min(pos) <= unit else unit * low / (min(pos) - unit)
            if unit == INF or low == INF:
                ctx.probe("too coarse to judge")
                continue
            ctx.probe("parts judged")
            if len(cost) > 1 and sorted(cost.values())[1] > low + unit + 1e-6:
                ctx.probe("parts with one best class")
            ctx.check(got <= low + unit + 1e-6, "unlikely-class",
                      lambda: f"{name} {spec} {kind} shot {shot}: answer {p} of class {answer} costs {got:.4f}, class costs {cost} (tolerance {unit:.4f}); {sh}")
            if R == 1 and not s.ne:
                ctx.check(own <= low + unit + 1e-6, "unlikely-answer",
                          lambda: f"{name} {spec} {kind} shot {shot}: answer {p} costs {own:.4f}, cheapest {low:.4f} (tolerance {unit:.4f}); {sh}")
                ctx.probe("answers judged exactly")
