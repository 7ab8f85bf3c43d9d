"""Q09: fewer faults than the code distance never go unnoticed."""
import itertools
import random

from dst import sut
from plaquette.codes import latticeinstances
from dst.core import Invalid
from dst.faults import P1, P2, Memory, pauli_bits

ID = "Q09"
CASES = {"quick": 700, "thorough": 14000}
RULE = (
    "one case = surface or repetition code, rounds, logical operators, read-out mode and backend; the effect of "
    "every single fault (data Pauli, readout flip, Pauli after any H, R, M, CX or CZ of a noisy round, in or "
    "behind the rounds of a seeded window) is propagated through the generated circuit, combinations of fewer "
    "than distance faults that cancel best are searched, and the worst ones and seeded ones are injected into "
    "the running device; distinct = different event log (injected histories and records)"
)
STATES = "distinct (code, operators, syndrome, toggles) of injected fault histories"
REAL = ["codes", "lattices with their gate schedule", "circuit generator", "Device", "clifford backend", "stim backend", "result processing"]
STUB = ["random source (seeded)", "probabilities of error instructions (set to 0 or 1)"]
ASSUME = [
    "the distance of the built-in surface and repetition codes is their size; repetition codes keep Z only",
    "the gate schedule is the one the library chooses for the code (shared time steps)",
]
KINDS = ("pauli", "measurement", "R", "H", "M", "CX", "CZ")
SIZES = {"repetition": [3, 5, 7, 9], "planar": [2, 3, 4, 5], "rotated": [2, 3, 4, 5, 6, 7], "toric": [2, 3, 4]}


def gen(rng, i):
    fam = rng.choice(["rotated", "rotated", "rotated", "planar", "planar", "toric", "repetition"])
    sizes = SIZES[fam]
    size = rng.choice(sizes[:3] if rng.random() < 0.85 else sizes)
    spec = {"fam": fam, "size": size, "rounds": rng.choice([2, 2, 2, 3, 3, 4, 6])}
    if fam == "rotated" and rng.random() < 0.4:
        spec["xzzx"] = True
    k = sut.n_logical(spec)
    if fam == "repetition":
        ops = rng.choice(["Z", [1]])
    else:
        ops = sut.gen_logical_ops(rng, spec) if rng.random() < 0.7 else rng.choice("XZ") * k
    return dict(
        code=spec, ops=ops, ancilla=rng.random() < 0.5, backend=rng.choice(sut.BACKENDS),
        t0=rng.randrange(6), span=rng.choice([1, 1, 2, 3]), pick=rng.randrange(1 << 30),
        extra=rng.choice([0, 1, 2]), order=None if fam == "repetition" else rng.choice([None, None, None, "default", "reversed", rng.randrange(24)]),
    )


CORNERS = ((1, 1), (-1, 1), (1, -1), (-1, -1))
SIDES = ((0, 1), (-1, 0), (1, 0), (0, -1))


def directions(case):
    """The documented default order of the couplings of a stabilizer or another one."""
    order = CORNERS if case["code"]["fam"] == "rotated" else SIDES
    k = case["order"]
    if k == "reversed":
        return order[::-1]
    if isinstance(k, int):
        return list(itertools.permutations(order))[k % 24]
    return order


def build(case):
    spec = case["code"]
    if case["order"] is None:
        return sut.build_code(spec)
    cls = {
        "rotated": latticeinstances.RotatedPlanarCodeLattice, "planar": latticeinstances.PlanarCodeLattice,
        "toric": latticeinstances.ToricCodeLattice,
    }[spec["fam"]]
    kw = {"xzzx": True} if spec.get("xzzx") else {}
    return sut.LatticeCode(cls(spec["size"], edge_order=directions(case), **kw), spec["rounds"])


def check_order(case, ctx, mem, ideal):
    """Couplings on a common qubit act in the requested order."""
    fam, order = case["code"]["fam"], directions(case)
    if fam == "repetition":
        return
    lat = mem.code.lattice
    data = {v.equbit_idx: v.pos for v in lat.dataqubits}
    anc = {v.equbit_idx: (v.pos, v.group) for v in lat.stabgens}
    rounds, seen = [[]], set()
    for name, args in ideal:
        if name in ("CX", "CZ"):
            for a, q in zip(args[::2], args[1::2]):
                if a in anc and q in data:
                    if (a, q) in seen:
                        rounds.append([])
                        seen = set()
                    seen.add((a, q))
                    rounds[-1].append((a, q))
    ctx.check(len(rounds) == mem.rounds + 1, "rounds", lambda: f"{len(rounds)} rounds of couplings")
    groups = sorted({g for _, g in anc.values()})
    ok = False
    for swapped in ([None] if fam != "rotated" else groups):
        good = True
        for rnd in rounds:
            last: dict = {}
            for a, q in rnd:
                (ax, ay), g = anc[a]
                d = (data[q][0] - ax, data[q][1] - ay)
                step = order.index(tuple(v if abs(v) <= 1 else (-1 if v > 0 else 1) for v in d))
                if g == swapped and step in (1, 2):
                    step = 3 - step
                # (an arbitrary order may want two couplings of a data qubit at once)
                good &= last.get(a, -1) < step and last.get(q, -1) < step + isinstance(case["order"], int)
                last[a] = last[q] = step
        ok |= good
    ctx.check(ok, "gate-order", lambda: f"{case['code']} couplings do not act in the order {order}")


def every_fault(mem, t0, t1):
    """Every elementary fault of the rounds t0..t1 (data faults up to the round behind)."""
    m = mem.model
    out = []
    for t in range(t0, min(t1 + 1, mem.rounds)):
        out += [("P", t, q, p) for q in range(m.n) for p in "XYZ"]
    for t in range(t0, min(t1, mem.rounds - 1)):
        for i in range(m.m):
            out.append(("F", t, i))
            for g in ("R", "H", "M"):
                out += [("G1", g, t, i, o, p.upper()) for o in range(2 if g == "H" else 1) for p in P1]
        out += [("G2", g, t, i, q, p.upper()) for i, q, g in mem.edges for p in P2]
    return out


def effects(mem, ideal, faults):
    """fault -> (syndrome bits, toggle bits); all faults ride through the circuit together."""
    m, R = mem.model, mem.rounds
    pos = mem.gate_positions(ideal)
    at: dict = {}
    lanes: dict = {}
    out = {}
    need = {}

    def lane(i, q, p):
        key = (i, q, p)
        if key not in lanes:
            lanes[key] = len(lanes)
            at.setdefault(i, []).append((q, p, lanes[key]))
        return lanes[key]

    for f in faults:
        if f[0] in "PF":
            syn, tog, _ = mem.expect([f], ideal)
            out[f] = (mem.pack(syn, []), mem.pack([], tog))
            continue
        if f[0] == "G1":
            a = m.anc_ids[f[3]]
            c = 2 if f[1] == "H" else 1
            where = [(pos[f[1], a][c * (f[2] + 1) + f[4]], a, f[5])]
        else:
            a, d = m.anc_ids[f[3]], m.data_ids[f[4]]
            i = pos[f[1], a, d][f[2] + 1]
            where = [(i, a, f[5][0]), (i, d, f[5][1])]
        ls = []
        for i, q, p in where:
            if p != "I":
                bx, bz = pauli_bits(p)
                ls += [lane(i, q, "X")] * bx + [lane(i, q, "Z")] * bz
        need[f] = ls
    x: dict = {}
    z: dict = {}
    flips = []
    for i, (name, args) in enumerate(ideal):
        if name == "H":
            for q in args:
                x[q], z[q] = z.get(q, 0), x.get(q, 0)
        elif name == "CX":
            for c, t in zip(args[::2], args[1::2]):
                x[t] = x.get(t, 0) ^ x.get(c, 0)
                z[c] = z.get(c, 0) ^ z.get(t, 0)
        elif name == "CZ":
            for c, t in zip(args[::2], args[1::2]):
                z[t] = z.get(t, 0) ^ x.get(c, 0)
                z[c] = z.get(c, 0) ^ x.get(t, 0)
        elif name == "M":
            flips += [x.get(q, 0) for q in args]
        elif name == "R":
            for q in args:
                x[q] = z[q] = 0
        for q, p, n in at.get(i, ()):
            tab = x if p == "X" else z
            tab[q] = tab.get(q, 0) ^ 1 << n
    w = mem.lay
    a, b, mid = flips[: w.nlog], flips[len(flips) - w.nlog :], flips[w.nlog : len(flips) - w.nlog]
    rows = []
    o = 0
    tog = []
    for k in w.w:
        v = 0
        for j in range(o, o + k):
            v ^= a[j] ^ b[j]
        tog.append(v)
        o += k
    for t in range(R):
        for i in range(m.m):
            rows.append(mid[(t + 1) * m.m + i] ^ mid[t * m.m + i])
    ls, lt = [0] * len(lanes), [0] * len(lanes)
    for vals, acc in ((rows, ls), (tog, lt)):
        for k, v in enumerate(vals):
            while v:
                low = v & -v
                acc[low.bit_length() - 1] |= 1 << k
                v ^= low
    for f, l in need.items():
        s = t = 0
        for n in l:
            s ^= ls[n]
            t ^= lt[n]
        out[f] = (s, t)
    return out


def search(sig, limit, pairs, rng):
    """A combination of at most ``limit`` faults without syndrome that flips a logical operator
    (as few faults as possible), or None; ``pairs`` bounds the number of pairs looked at."""
    by: dict = {}
    for (s, t), f in sig.items():
        by.setdefault(s, {})[t] = f
    if limit >= 1:
        for t, f in by.get(0, {}).items():
            if t:
                return [f], 1
    if limit >= 2:
        for d in by.values():
            if len(d) > 1:
                return list(d.values())[:2], 2
    items = [(s, t, f) for (s, t), f in sig.items() if s or t]
    rng.shuffle(items)
    while len(items) * (len(items) - 1) // 2 > pairs:
        items.pop()
    done = min(limit, 2)
    if limit >= 3:
        for i, (sa, ta, fa) in enumerate(items):
            for sb, tb, fb in items[:i]:
                for t, f in by.get(sa ^ sb, {}).items():
                    if t != ta ^ tb:
                        return [fa, fb, f], 3
        done = 3
    if limit >= 4:
        seen: dict = {}
        for i, (sa, ta, fa) in enumerate(items):
            for sb, tb, fb in items[:i]:
                s, t = sa ^ sb, ta ^ tb
                old = seen.setdefault(s, (t, fa, fb))
                if old[0] != t:
                    return [fa, fb, old[1], old[2]], 4
        done = 4
    return None, done


def run(case, ctx):
    spec = case["code"]
    if spec["fam"] not in SIZES or spec["rounds"] < 2:
        raise Invalid("code")
    sut.check_logical_ops(case["ops"], spec)
    if spec["fam"] == "repetition" and case["ops"] not in ("Z", [1]):
        raise Invalid("unprotected operator")
    sut.set_rng(case["seed"])
    d = spec["size"]
    mem = Memory(spec, case["ops"], case["ancilla"], code=build(case))
    R = mem.rounds
    qe, ge = mem.tagged(set(KINDS))
    circ0 = mem.noisy(qe, ge)
    located = mem.locate(circ0, qe, ge)
    errors = {p for p, _ in located}
    ideal = [g for p, g in enumerate(sut.gate_list(circ0)) if p not in errors]
    check_order(case, ctx, mem, ideal)
    if isinstance(case["order"], int):
        ctx.probe("some order of the couplings")
        ctx.log("order", case["order"], ideal)
        return
    t0 = case["t0"] % (R - 1)
    faults = every_fault(mem, t0, t0 + max(1, case["span"]))
    rng = random.Random(case["pick"])
    rng.shuffle(faults)
    eff = effects(mem, ideal, faults)
    sig: dict = {}
    for f, e in eff.items():
        sig.setdefault(e, f)
    limit = d - 1
    bad, done = search(sig, limit, 60000, rng)
    ctx.probe(f"combinations of {done} faults searched" if bad is None else "silent combination found")
    plans = [bad] if bad else []
    # seeded combinations: neighbours in the space of syndromes cancel best
    keys = [e for e in sig if e[0]]
    for _ in range(1 + case["extra"]):
        k = rng.randint(1, max(1, limit)) if limit else 0
        if not k or not keys:
            break
        plan = [rng.choice(keys)]
        left = plan[0][0]
        while len(plan) < k:
            cand = [rng.choice(keys) for _ in range(40)]
            best = min(cand, key=lambda e: (left ^ e[0]).bit_count())
            plan.append(best)
            left ^= best[0]
        plans.append([sig[e] for e in plan])
    dev = sut.Device(case["backend"])
    for plan in plans:
        plan = mem.dedup(plan)
        for f in plan:
            ctx.fault({"P": "data Pauli", "F": "readout flip"}.get(f[0], f"gate fault {f[1]}"))
        circ = mem.rewrite(circ0, located, plan)
        dev.run(circ)
        raw, er = dev.get_sample()
        rb = sut.bits(raw, mem.lay.total, "raw results")
        res = sut.MeasurementSample.from_code_and_raw_results(mem.code, raw, er, logical_ancilla=mem.ancilla)
        ctx.log(plan, rb)
        ctx.rounds += R + 1
        ctx.steps += len(circ.gates)
        syn = sut.matrix(res.syndrome, (R, mem.model.m), "syndrome")
        tog = sut.bits(res.logical_op_toggle, len(mem.lay.idx), "logical toggles")
        ctx.state(spec["fam"], d, str(case["ops"]), str(syn), str(tog))
        ctx.check(
            any(map(any, syn)) or not any(tog), "silent-logical-error",
            lambda: f"{spec} operators {case['ops']}: {len(plan)} faults {plan} (distance {d}) leave no trace in the "
            f"syndrome and flip the logical operators {tog}",
        )
        s = t = 0
        for f in plan:
            s ^= eff[f][0]
            t ^= eff[f][1]
        ctx.check(
            mem.pack(syn, []) == s and mem.pack([], tog) == t, "record-differs",
            lambda: f"{spec} faults {plan}: syndrome {syn}, toggles {tog}",
        )
    if bad:
        ctx.check(False, "silent-logical-error", f"{spec}: {bad} (not confirmed by the device)")
