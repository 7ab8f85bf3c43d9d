"""Q03: a correction always explains the observed syndrome."""
import random

import numpy as np

from dst import sut
from dst.model import CodeModel, Span

ID = "Q03"
CASES = {"quick": 6000, "thorough": 110000}
RULE = (
    "one case = code, size, rounds, decoder, weighting and a sequence of 1-10 fault histories "
    "(data Paulis, erasures, readout flips, arbitrary toggled syndrome bits) decoded by one decoder, with some "
    "faults declared impossible (infinite weight) in an eighth of the cases; "
    "distinct = different event log (syndromes, erasures and corrections)"
)
STATES = "distinct (code, syndrome, erasure record) triples decoded"
REAL = ["codes", "lattices", "syndrome graph", "weights", "all four decoders", "PyMatching and Fusion Blossom libraries"]
STUB = ["quantum device (fault histories come from the code model)"]
ASSUME = ["weights are positive", "PyMatching may refuse erasures"]


def gen(rng, i):
    spec = sut.gen_code(rng, max_rounds=rng.choice([1, 2, 3, 5, 8]), big=rng.random() < 0.4, custom=0.15, huge=0.03)
    name = rng.choice(sut.DECODERS)
    w = sut.gen_weights(rng)
    return dict(
        code=spec,
        decoder=name,
        weights=w,
        shots=[sut.gen_shot(rng, erasures=name != "PyMatchingDecoder" or rng.random() < 0.1)
               for _ in range(rng.randint(1, 10))],
        dtype=rng.choice(["bool", "uint8"]),
        record=rng.random() < 0.8,
        cut=[rng.randrange(2**32), rng.choice([0.02, 0.1, 0.3, 0.6])]
        if name != "UnionFindNoWeights" and rng.random() < 0.15 else None,
    )


class Cut:
    """Weights with impossible faults, and what can be decoded with the others."""

    def __init__(self, model, seed, p):
        r = random.Random(seed)

        def arr(size):
            return np.array([np.inf if r.random() < p else round(r.uniform(0.5, 9.0), 3) for _ in range(size)])

        self.weights = dict(pauli_x=arr(model.n), pauli_z=arr(model.n), measurement=arr(model.m))
        self.model = model
        self.allowed = [0, 0]
        self.span = Span()
        for q in range(model.n):
            for c, pauli in ("x", (1 << q, 0)), ("z", (0, 1 << q)):
                if np.isfinite(self.weights["pauli_" + c][q]):
                    self.allowed["xz".index(c)] |= 1 << q
                    for t in range(model.rounds):
                        self.span.add(model.syndrome_of(pauli) << (t * model.m))
        for i in range(model.m):
            if np.isfinite(self.weights["measurement"][i]):
                for t in range(model.rounds - 1):
                    self.span.add(1 << (t * model.m + i) | 1 << ((t + 1) * model.m + i))

    def decodable(self, shot):
        return sum(b << (t * self.model.m + i) for t, row in enumerate(shot.syn) for i, b in enumerate(row)) in self.span


FROZEN = ("weights",)


def run(case, ctx):
    spec = case["code"]
    sut.set_rng(case["seed"])
    code = sut.build_code(spec)
    model = CodeModel(code)
    cut = None
    if case.get("cut") and case["decoder"] != "UnionFindNoWeights" and model.n * model.rounds <= 300:
        cut = Cut(model, *case["cut"])
        dec, flips = getattr(sut.decoders, case["decoder"]).from_code(code, None, weights=cut.weights), True
        ctx.probe("impossible faults")
    else:
        dec, flips = sut.build_decoder(case["decoder"], code, case["weights"], model)
        ctx.probe("weights:" + case["weights"]["kind"])
    for k, sh in enumerate(case["shots"]):
        s = sut.Shot(model, sh, flips=flips)
        record = case["record"] or s.ne > 0
        e, syn = s.arrays(np.dtype(case["dtype"]), record)
        e0, syn0 = None if e is None else e.copy(), syn.copy()
        ok = cut.decodable(s) if cut else s.decodable(flips)
        ctx.log(s.syn, s.era if s.ne else 0)
        ctx.state(spec["fam"], spec.get("size"), s.syn, s.era)
        ctx.rounds += model.rounds
        ctx.steps += 1
        ctx.fault("data Pauli", s.nd)
        ctx.fault("erasure", s.ne)
        ctx.fault("readout flip", s.nf)
        ctx.fault("corrupted syndrome bits", len(sh["x"]))
        try:
            cor = dec.decode(e, syn)
        except Exception as ex:  # noqa: B902
            if not ok:
                ctx.probe("undecodable syndrome refused")
                ctx.log("refused")
                continue
            if case["decoder"] == "PyMatchingDecoder" and s.ne and isinstance(ex, ValueError):
                ctx.probe("erasure refused by PyMatching")
                ctx.log("refused erasure")
                continue
            raise
        p = sut.pauli_from_tableau(cor, model.n)
        ctx.log(p)
        ctx.check(ok, "undecodable-answered", lambda: f"{case['decoder']} {spec} shot {k}: {p} for undecodable {s.syn}")
        got = model.syndrome_of(p)
        ctx.check(
            got == s.parity, "correction-does-not-explain",
            lambda: f"{case['decoder']} {spec} shot {k}: correction x={p[0]:b} z={p[1]:b} gives {got:b}, "
            f"observed parity {s.parity:b}; syndrome {s.syn}",
        )
        if cut:
            ctx.check(not (p[0] & ~cut.allowed[0] or p[1] & ~cut.allowed[1]), "impossible-fault",
                      lambda: f"{case['decoder']} {spec} shot {k}: {p} of {cut.allowed} for {s.syn}")
        ctx.check((syn == syn0).all() and (e is None or (e == e0).all()), "input-changed", "decode() changed its input")
        if s.ne > model.n * model.rounds // 2:
            ctx.probe("more than half of all qubits erased")
        if not any(map(any, s.syn)):
            ctx.probe("trivial syndrome")
