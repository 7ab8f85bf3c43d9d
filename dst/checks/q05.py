"""Q05: a decoder's answer does not depend on what it decoded before."""
import copy

import numpy as np

from dst import sut
from dst.core import Invalid
from dst.interrupt import count_lines, interrupted
from dst.model import CodeModel
from plaquette import syngraph

ID = "Q05"
CASES = {"quick": 3000, "thorough": 75000}
RULE = (
    "one case = code, 1-3 decoders on the same code object and a history of 2-14 operations over them: "
    "decode a fault history, refused input (wrong shape, wrong type, undecodable, erasure for a decoder "
    "without erasures), decode interrupted by KeyboardInterrupt or MemoryError at an arbitrary executed "
    "library line, syndrome graph manager announcing new weights or a new graph, caller overwriting returned or passed arrays; distinct = different event log"
)
STATES = "distinct (decoder kind, previous operation kind, operation kind, had erasure) situations"
REAL = ["codes", "syndrome graph", "weights", "all four decoders", "PyMatching and Fusion Blossom libraries"]
STUB = ["quantum device (fault histories come from the code model)"]
ASSUME = ["the answer of a fresh decoder is itself checked against the syndrome"]
FROZEN = ("weights",)


def gen(rng, i):
    spec = sut.gen_code(rng, max_rounds=rng.choice([1, 2, 3]), small=True, custom=0.15, huge=0.03)
    nd = rng.choice([1, 1, 2, 3])
    decs = [rng.choice(sut.DECODERS) for _ in range(nd)]
    ws = [sut.gen_weights(rng) for _ in range(nd)]
    ops = []
    for _ in range(rng.randint(2, 14)):
        j = rng.randrange(nd)
        k = rng.random()
        sh = sut.gen_shot(rng, erasures=decs[j] != "PyMatchingDecoder" or rng.random() < 0.1, wild=0.08)
        # without an erasure record (None) as often as with an empty one
        sh["none"] = rng.random() < (0.25 if sh["e"] else 0.5)
        if sh["none"]:
            sh["e"] = []
        if k < 0.55 or not ops:
            op = ["decode", j, sh, rng.random() < 0.3]
        elif k < 0.75:
            op = ["interrupt", j, sh, rng.randrange(1000), rng.choice(["KeyboardInterrupt", "MemoryError"])]
        elif k < 0.93:
            op = ["refused", j, sh, rng.choice(["syndrome-shape", "erasure-shape", "erasure-type", "syndrome-type", "none"])]
        else:
            op = ["repeat", j, rng.randrange(20)]
        ops.append(op)
    # decoders whose syndrome graph manager announces new weights or a new graph between decodings
    managed = rng.random() < 0.4
    if managed:
        one = rng.randrange(nd) if rng.random() < 0.5 else None
        for _ in range(rng.randint(2, 8)):
            ops.insert(rng.randint(0, len(ops)), [
                "reweigh", rng.randrange(nd) if one is None else one, sut.gen_shot(rng, erasures=False),
                rng.randrange(2**32), rng.choice(["weights", "weights", "weights", "weights", "graph", "cut", "off"]),
            ])
    return dict(code=spec, decoders=decs, weights=ws, share=rng.random() < 0.3, ops=ops, managed=managed,
                buffers=rng.random() < 0.4)


class Manager(syngraph.SyndromeGraphManager):
    """A manager that announces whatever it was told to announce, once."""

    pending = None

    def update_for_decoding(self, erasure, syndrome):
        if self.pending is None:
            return syngraph.SyndromeGraphUpdate.Nothing
        graph, self.pending = self.pending, None
        if isinstance(graph, list):
            for comp, w in zip(self.sgraph.components_with_edges, graph):
                comp.set_edge_weights(w)
            return syngraph.SyndromeGraphUpdate.Weights
        self.sgraph = graph
        return syngraph.SyndromeGraphUpdate.GraphAndWeights


def new_weights(model, wseed, how, old=None):
    """Explicit weights; "cut" makes some edges infinitely heavy, "off" gives no weights at all.

    Half of the time an announcement only exchanges or alters a few of the ``old`` weights.
    """
    import random

    r = random.Random(wseed)
    if old is not None and how == "weights" and r.random() < 0.7:
        new = {k: v.copy() for k, v in old.items()}
        for _ in range(r.randint(1, 6)):
            v = new[r.choice(sorted(new))]
            if len(v):
                a, b = r.randrange(len(v)), r.randrange(len(v))
                if r.random() < 0.6:
                    v[a], v[b] = v[b], v[a]
                else:
                    v[a] = round(r.uniform(0.5, 9.0), 3)
        return new

    def arr(size):
        a = np.array([round(r.uniform(0.5, 9.0), 3) for _ in range(size)])
        if how == "cut" and size:
            a[r.randrange(size)] = np.inf
        return a

    if how == "off":
        return None
    return dict(pauli_x=arr(model.n), pauli_z=arr(model.n), measurement=arr(model.m))


def same_structure(a, b):
    return len(a.components_with_edges) == len(b.components_with_edges) and all(
        x.parent_edge_idx.tolist() == y.parent_edge_idx.tolist()
        for x, y in zip(a.components_with_edges, b.components_with_edges)
    )


def cp(e):
    return None if e is None else e.copy()


def run(case, ctx):
    spec = case["code"]
    sut.set_rng(case["seed"])
    code = sut.build_code(spec)
    model = CodeModel(code)
    nd = len(case["decoders"])
    if nd == 0 or len(case["weights"]) < nd:
        raise Invalid("decoders")
    ws = case["weights"]
    if case["share"]:
        ws = [ws[0]] * nd

    managed = bool(case.get("managed"))
    now = [None] * nd
    if managed:
        for j in range(nd):
            if case["decoders"][j] != "UnionFindNoWeights":
                now[j] = new_weights(model, ws[j]["wseed"], "explicit")

    def fresh(j, c=None):
        if managed:
            cls = getattr(sut.decoders, case["decoders"][j])
            make = Manager if c is not None else syngraph.SyndromeGraphManager
            return cls(make(c or sut.build_code(spec), None, weights=now[j])), True
        return sut.build_decoder(case["decoders"][j], c or sut.build_code(spec), ws[j], model)

    if case["share"] and not managed and all(d != "UnionFindNoWeights" for d in case["decoders"]):
        ed, kw, fl = sut.decoder_inputs(ws[0], model)
        decs = [(getattr(sut.decoders, d).from_code(code, ed, **kw), fl) for d in case["decoders"]]
        ctx.probe("decoders sharing one error table")
    else:
        decs = [fresh(j, code) for j in range(nd)]
    prev = ["start"] * nd
    cut = [False] * nd
    buffers = {}
    seen = []
    for op in case["ops"]:
        j = op[1] % nd
        dec, flips = decs[j]
        name = case["decoders"][j]
        kind = op[0]
        ctx.steps += 1
        ctx.rounds += model.rounds
        if kind == "repeat":
            mine = [x for x in seen if x[0] == j]
            if not mine:
                continue
            _, sh = mine[op[2] % len(mine)]
            scribble = False
        else:
            sh = op[2]
            scribble = kind == "decode" and op[3]
        if kind == "reweigh":
            how = op[4]
            if not managed:
                raise Invalid("no manager")
            if name == "UnionFindNoWeights":
                how = "off"
            now[j] = new_weights(model, op[3], how, now[j])
            graph = syngraph.SyndromeGraph.from_code(code, now[j])
            mgr = dec.synmgr
            cut[j] = now[j] is not None and any(np.isinf(v).any() for v in now[j].values())
            if how in ("weights", "off") and same_structure(mgr.sgraph, graph):
                mgr.pending = [c.edge_weights.copy() for c in graph.components_with_edges]
                ctx.probe("manager announces new weights")
            else:
                mgr.pending = graph
                ctx.probe("manager announces a new graph")
        s = sut.Shot(model, sh, flips=flips)
        e, syn = s.arrays(np.uint8 if len(seen) % 2 else bool, record=not sh.get("none") or s.ne)
        if e is None:
            ctx.probe("no erasure record")
        ctx.state(name, prev[j], kind, bool(s.ne))
        ctx.log(kind, j, s.syn, s.era if s.ne else 0)
        if kind == "interrupt":
            ref, _ = fresh(j)
            total = count_lines(lambda: ref.decode(cp(e), syn.copy()))
            at = 1 + op[3] * total // 1000
            try:
                fired, _ = interrupted(lambda: dec.decode(e, syn), at, op[4], ctx, "decode")
            except Exception as ex:  # noqa: B902
                from dst.core import Violation

                if isinstance(ex, Violation):
                    raise
                fired = False  # a refused input, not an interruption
            ctx.log("fired", fired, at)
            prev[j] = kind
            continue
        if kind == "refused":
            be, bs = e, syn
            if op[3] == "syndrome-shape":
                bs = syn[:, :-1]
            elif op[3] == "erasure-shape" and e is not None:
                be = e[:, :-1]
            elif op[3] == "erasure-type" and e is not None:
                be = e.astype(float)
            elif op[3] == "syndrome-type":
                bs = syn.astype(float)
            try:
                dec.decode(be, bs)
                ctx.log("accepted")
            except Exception as ex:  # noqa: B902
                ctx.fault("refused input " + op[3])
                ctx.log("refused", type(ex).__name__)
            prev[j] = kind + op[3]
            continue
        ref, _ = fresh(j)
        ok = s.decodable(flips) and not cut[j]
        got = want = None
        err = errw = None
        try:
            want = sut.pauli_from_tableau(ref.decode(cp(e), syn.copy()), model.n)
        except Exception as ex:  # noqa: B902
            errw = type(ex).__name__
            if ok and not (name == "PyMatchingDecoder" and s.ne):
                raise
        e1, s1 = cp(e), syn.copy()
        if case.get("buffers"):
            # the caller reuses its arrays and overwrites them for each shot
            ctx.probe("same arrays for every shot")
            if e is not None:
                e1 = buffers.setdefault(("e", e.dtype.str), np.empty_like(e))
                e1[...] = e
            s1 = buffers.setdefault(("s", syn.dtype.str), np.empty_like(syn))
            s1[...] = syn
        try:
            cor = dec.decode(e1, s1)
            got = sut.pauli_from_tableau(cor, model.n)
        except Exception as ex:  # noqa: B902
            err = type(ex).__name__
            if errw is None:
                raise
        ctx.check(
            (got, err is None) == (want, errw is None), "depends-on-history",
            lambda: f"{name} {spec} after {prev[j]}: got {got or err}, a fresh decoder gives {want or errw}",
        )
        ctx.log(got)
        if got is not None:
            ctx.check((ok or cut[j]) and model.syndrome_of(got) == s.parity, "invalid-answer",
                      lambda: f"{name} {spec} after {prev[j]}: {got} for {s.syn}")
            if scribble:
                cor[...] = 1
                if e1 is not None:
                    e1[...] = 1
                s1[...] = 1
                ctx.fault("caller overwrites arrays after the call")
        seen.append((j, copy.deepcopy(sh)))
        prev[j] = kind if err is None else "error"
