"""Q04: correctable fault histories are corrected."""
from dst import sut
from dst.core import Invalid
from dst.model import CodeModel, Span

ID = "Q04"
CASES = {"quick": 5500, "thorough": 120000}
RULE = (
    "one case = code, size, rounds, decoder, one guarantee (few faults; correctable erasure; erasures "
    "plus few faults; biased rates with faults only where they are likely; minimality) and 1-6 fault "
    "histories inside it; distinct = different event log (histories and corrections)"
)
STATES = "distinct (code, syndrome, erasure record) triples decoded"
REAL = ["codes", "lattices", "syndrome graph", "weights", "all four decoders", "PyMatching and Fusion Blossom libraries", "check_success"]
STUB = ["quantum device (fault histories come from the code model)"]
ASSUME = [
    "distance of the five-qubit and Shor code 3, of the other families their size",
    "repetition codes protect against X faults only; Y faults of the five-qubit code are left out (matching treats them as two faults)",
    "erasures only on qubits whose faults have syndromes of their own",
]
MODES = ("few", "erasure", "mixed", "biased", "minimal")


def distance(spec):
    return min(3 if p["fam"] in ("five", "shor") else p["size"] for p in sut.parts(spec))


def gen(rng, i):
    spec = sut.gen_code(rng, max_rounds=rng.choice([1, 2, 3, 4, 6]), big=rng.random() < 0.5, custom=0.15, huge=0.03)
    mode = rng.choice(MODES)
    names = list(sut.DECODERS)
    if mode in ("erasure", "mixed"):
        names.remove("PyMatchingDecoder")
    if mode == "biased":
        names.remove("UnionFindNoWeights")
    if mode == "minimal":
        names = ["PyMatchingDecoder", "FusionBlossomDecoder"]
    d = distance(spec)

    def pos():
        return [rng.randrange(12), rng.randrange(120)]

    shots = []
    for _ in range(rng.randint(1, 6)):
        sh = {"d": [], "e": [], "f": [], "x": []}
        nd = (d - 1) // 2
        if mode == "few":
            k = nd
        elif mode == "erasure":
            k = 0
            sh["e"] = [[*pos(), rng.choice("IXYZ")] for _ in range(rng.randint(1, 3 * d))]
        elif mode == "mixed":
            k = rng.randint(0, nd)
            sh["e"] = [[*pos(), rng.choice("IXYZ")] for _ in range(d - 1 - 2 * k)]
        elif mode == "biased":
            k = rng.randint(1, 6)
        else:
            k = rng.randint(1, 15)
        for _ in range(k):
            if rng.random() < 0.3:
                sh["f"].append(pos())
            else:
                sh["d"].append([*pos(), rng.choice("XYZ")])
        shots.append(sh)
    return dict(
        code=spec, decoder=rng.choice(names), mode=mode, shots=shots,
        uniform=rng.random() < 0.3,
        likely=[[rng.randrange(120), rng.choice("XYZ")] for _ in range(rng.randint(1, 12))],
        likely_m=[rng.randrange(120) for _ in range(rng.randint(0, 6))],
    )


def correctable(model, cols, idx):
    """No undetected combination of these faults changes a logical operator."""
    # rows: syndrome in the low bits, logical effect above
    sp = Span()
    m = model.m
    for p in cols:
        v = 0
        for b in sut.logical_effect(model, idx, p):
            v = v << 1 | b
        sp.add(model.syndrome_of(p) << 16 | v)
    # a reduced vector with no syndrome part but a logical part is a logical fault
    return all(bit >= 16 for bit in sp.basis)


def run(case, ctx):
    spec, mode = case["code"], case["mode"]
    sut.set_rng(case["seed"])
    code = sut.build_code(spec)
    model = CodeModel(code)
    name = case["decoder"]
    d = distance(spec)
    rep = all(p["fam"] == "repetition" for p in sut.parts(spec))
    five = any(p["fam"] == "five" for p in sut.parts(spec))
    only = "X" if rep else "XZ"
    idx = list(range(1, 2 * model.k, 2)) if rep else list(range(2 * model.k))
    R, n = model.rounds, model.n
    paulis = lambda q: [(1 << q, 0)] if rep else [(1 << q, 0), (0, 1 << q)]  # noqa: E731
    all_cols = [model.syndrome_of(p) for q in range(n) for p in paulis(q)]
    kw = {"weighted": False}
    ed = None
    if case["uniform"] and mode == "few" and name != "UnionFindNoWeights":
        kw = {"weights": {"pauli_x": 1.0, "pauli_z": 1.0, "measurement": 1.0}}
    good_x, good_z, good_m = set(), set(), set()
    if mode == "biased":
        ed, kw = {"pauli": {}, "measurement": {}}, {}
        cols = []
        for a, p in case["likely"]:
            q = a % n
            p = "X" if rep else p
            new = [(1 << q, 0)] if p == "X" else [(0, 1 << q)] if p == "Z" else [(1 << q, 0), (0, 1 << q)]
            if correctable(model, cols + new, idx) and model.data_ids[q] not in ed["pauli"]:
                cols += new
                ed["pauli"][model.data_ids[q]] = {p.lower(): 0.2}
                if p in "XY":
                    good_x.add(q)
                if p in "YZ":
                    good_z.add(q)
        for a in case["likely_m"]:
            good_m.add(a % model.m)
            ed["measurement"][model.anc_ids[a % model.m]] = {"p": 0.2}
    dec = getattr(sut.decoders, name).from_code(code, ed, **kw)
    ctx.probe("mode:" + mode)
    for k, sh in enumerate(case["shots"]):
        sh = {a: [list(v) for v in b] for a, b in sh.items()}
        if sh["x"]:
            raise Invalid("x")
        if mode == "erasure" or mode == "mixed":
            ok = []
            seen = []
            for t, q, p in sh["e"]:
                q %= n
                if any(c and all_cols.count(c) > 1 for c in (model.syndrome_of(x) for x in paulis(q))):
                    continue
                if mode == "erasure" and not correctable(model, seen + paulis(q), idx):
                    continue
                seen += paulis(q)
                ok.append([t, q, p])
            sh["e"] = ok
        if mode == "erasure":
            sh["d"], sh["f"] = [], []
        if R == 1:
            sh["f"] = []
        if mode in ("few", "mixed"):
            limit = d - 1 if mode == "few" else d - 1 - len(sh["e"])
            if five:
                sh["d"] = [[t, q, "X" if p == "Y" else p] for t, q, p in sh["d"]]
            if 2 * (len(sh["d"]) + len(sh["f"])) > limit:
                if k == 0 and len(case["shots"]) == 1 and mode == "few":
                    raise Invalid("too many faults")
                continue
        elif mode == "biased":
            keep = []
            for t, q, p in sh["d"]:
                q %= n
                bx, bz = p in "XY", p in "YZ"
                bx, bz = bx and q in good_x, bz and q in good_z
                if bx or bz:
                    keep.append([t, q, "Y" if bx and bz else "X" if bx else "Z"])
            sh["d"] = keep
            sh["f"] = [[t, i] for t, i in sh["f"] if i % model.m in good_m]
        s = sut.Shot(model, sh, only=only)
        e, syn = s.arrays(record=bool(s.ne))
        ctx.log(s.syn, s.era if s.ne else 0)
        ctx.state(spec["fam"], spec.get("size"), s.syn, s.era)
        ctx.fault("data Pauli", s.nd)
        ctx.fault("erasure", s.ne)
        ctx.fault("readout flip", s.nf)
        ctx.rounds += R
        ctx.steps += 1
        cor = dec.decode(e, syn)
        p = sut.pauli_from_tableau(cor, n)
        ctx.log(p)
        if mode == "minimal":
            used = p[0].bit_count() + p[1].bit_count()
            had = sum(1 + (q == "Y" and not rep) for _, _, q in sh["d"] if not rep or q in "XY") + len(sh["f"])
            ctx.check(used <= had, "correction-not-minimal",
                      lambda: f"{name} {spec}: {used} faults proposed, {had} happened: {sh}")
            continue
        res = (s.total[0] ^ p[0], s.total[1] ^ p[1])
        eff = sut.logical_effect(model, idx, res)
        ctx.check(not any(eff), "correctable-not-corrected",
                  lambda: f"{name} {spec} mode {mode} shot {k}: faults {sh}; logical operators {eff} flipped; "
                  f"likely {sorted(good_x)} {sorted(good_z)} {sorted(good_m)}")
        # the library's own verdict
        tog = sut.np.array(sut.logical_effect(model, idx, s.total))
        ctx.check(bool(sut.check_success(code, cor, tog, idx if rep else None)), "verdict",
                  lambda: f"{name} {spec} mode {mode}: success reported as failure")
        if s.nd + s.ne + s.nf >= 3:
            ctx.probe("at least three faults corrected")
