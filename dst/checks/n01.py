"""N01: the configured noise is the noise that acts."""
import itertools
import json
import math
import os
import shutil
import tempfile

import numpy as np

from dst import stat, sut
from dst.core import Invalid
from dst.faults import P1, P2, Memory
from plaquette import frontend

ID = "N01"
CASES = {"quick": 3000, "thorough": 60000}
RULE = (
    "one case = code, logical operators, a qubit and gate error configuration (constant, gaussian or user "
    "tables per channel, switched on or off one by one or as a whole, tables with missing rows or vanished "
    "files) and up to 4 configuration updates, each followed by rebuilding; every channel of the resulting "
    "circuit is compared with a configuration model, and configurations with rates 0 and 1 are run; "
    "distinct = different event log"
)
STATES = "distinct (channel, distribution, on/off, table present) combinations seen together"
REAL = ["ErrorsConfig and its parts", "ErrorData", "circuit generator", "CSV files", "Device and both backends (rates 0/1)"]
STUB = ["random source (seeded)"]
ASSUME = [
    "one channel per gate entry of a configuration (more are a known finding), any number in tables",
    "gaussian rates are only tested for range, spread and median",
]
QK = ["X", "Y", "Z", "erasure", "measurement"]
GK = ["H", "R", "M", "CX", "CZ"]


def gen_entry(rng, key, certain):
    """One entry of the configuration; qubit and gate channels alike."""
    dist = rng.choice(["constant", "user"] if certain else ["constant", "constant", "gaussian", "user"])
    if certain:
        params = [float(rng.random() < 0.7)]
    elif dist == "constant":
        params = [rng.choice([0.0, 1e-9, 3e-7, 0.001, 0.013, 0.05, 0.0612345678901, 0.11, 0.2])]
    else:
        params = [rng.choice([0.0, 0.02, 0.1, 0.25]), rng.choice([0.0, 0.0, 0.01, 0.1, 0.3])]
    e = dict(dist=dist, params=params, on=rng.random() < 0.75, implicit=rng.random() < 0.3)
    if key in ("CX", "CZ"):
        e["err"] = rng.choice(P2).upper()
    elif key in GK:
        e["err"] = rng.choice("XYZ")
    return e


def gen(rng, i):
    certain = rng.random() < 0.3
    spec = sut.gen_code(rng, max_rounds=rng.choice([1, 2, 3]), small=True, huge=0.03)
    qe, ge = {}, {}
    for k in QK:
        if rng.random() < 0.55:
            qe[k] = gen_entry(rng, k, certain)
    for k in GK:
        if rng.random() < 0.45:
            ge[k] = gen_entry(rng, k, certain)
    if certain:
        # at most one Pauli per qubit
        one = rng.choice("XYZ")
        for k in "XYZ":
            if k != one:
                qe.pop(k, None)
    vals = [0.0, 1.0] if certain else [0.0, 2e-8, 0.004, 0.03, 0.07, 0.15]
    qrows = [[rng.randrange(60), [rng.choice(vals) for _ in QK]] for _ in range(rng.randint(1, 30))]
    grows = []
    for _ in range(rng.randint(1, 10)):
        g = rng.choice(GK)
        nerr = 1 if certain else rng.choice([1, 1, 2, 3])
        errs = rng.sample([p.upper() for p in P2] if g in ("CX", "CZ") else list("XYZ"), nerr)
        grows.append([g, [rng.randrange(200) for _ in range(rng.randint(1, 5))], errs, [rng.choice(vals) for _ in errs]])
    updates = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        u = rng.choice(["entry", "entry", "toggle", "sample"])
        grp = rng.choice(["q", "g"])
        if u == "sample":
            updates.append([u, grp, rng.random() < 0.5])
        else:
            k = rng.choice(QK if grp == "q" else GK)
            if certain and k in "XYZ" and k != one:
                k = one
            updates.append([u, grp, k, gen_entry(rng, k, certain) if u == "entry" else rng.random() < 0.5])
    return dict(
        code=spec, ops=sut.gen_logical_ops(rng, spec), certain=certain, qe=qe, ge=ge,
        sample=[rng.random() < 0.85, rng.random() < 0.85], sample_implicit=rng.random() < 0.2,
        qrows=qrows, grows=grows, full=rng.random() < 0.4, order=[rng.choice([1, 1, 7, 40, 60]), rng.randrange(120)],
        files=[rng.choice(["there", "there", "there", "vanishes", "none"]) for _ in range(2)],
        updates=updates, backend=rng.choice(sut.BACKENDS),
    )


class Config:
    """The configuration model: what is switched on and with which parameters."""

    def __init__(self, case, mem):
        self.e = {"q": json.loads(json.dumps(case["qe"])), "g": json.loads(json.dumps(case["ge"]))}
        self.mem = mem
        self.files = case["files"]
        self.sample = {"q": case["sample"][0], "g": case["sample"][1]}
        if case["sample_implicit"]:
            self.sample = {"q": True, "g": False}  # the documented defaults
        m = mem.model
        self.qids = list(m.data_ids) + list(m.anc_ids)
        # the user's tables; later rows for the same qubit would be ambiguous, so there are none
        self.qtab = {}
        rows = case["qrows"]
        for a, v in rows:
            self.qtab[self.qids[a % len(self.qids)]] = dict(zip(QK, v))
        if case["full"]:
            for k, q in enumerate(self.qids):
                self.qtab.setdefault(q, dict(zip(QK, rows[k % len(rows)][1])))
        self.gtab = []
        for g, qs, errs, ps in case["grows"]:
            if not qs or len(errs) != len(ps) or not errs:
                raise Invalid("row")
            if g in ("CX", "CZ"):
                on = []
                for a in qs:
                    i, q, gg = mem.edges[a % len(mem.edges)]
                    on += [m.anc_ids[i], m.data_ids[q]]
            else:
                on = [m.anc_ids[a % m.m] for a in qs]
            self.gtab.append((g, on, errs, ps))

    def active(self, grp):
        if not self.sample[grp]:
            return {}
        return {k: v for k, v in self.e[grp].items() if v["on"]}

    def present(self, j):
        return self.files[j] == "there"

    def qubit_tables(self, drawn):
        """{channel: {qubit: rate}} that must act; drawn(key, qubit) gives gaussian rates."""
        out = {}
        m = self.mem.model
        for k, e in self.active("q").items():
            ids = m.anc_ids if k == "measurement" else m.data_ids
            t = {}
            for q in ids:
                if e["dist"] == "constant":
                    t[q] = e["params"][0]
                elif e["dist"] == "gaussian":
                    t[q] = drawn(k, q)
                else:
                    t[q] = self.qtab.get(q, {}).get(k, 0.0) if self.present(0) else 0.0
            out[k] = t
        return out

    def gate_tables(self, drawn):
        """{gate: {ancilla or (ancilla, data): {pauli: rate}}}"""
        out = {}
        m = self.mem.model
        for g, e in self.active("g").items():
            if g in ("CX", "CZ"):
                keys = [(m.anc_ids[i], m.data_ids[q]) for i, q, _ in self.mem.edges]
            else:
                keys = list(m.anc_ids)
            t = {}
            if e["dist"] == "user":
                if self.present(1):
                    for gg, on, errs, ps in self.gtab:
                        if gg != g:
                            continue
                        kk = on if g not in ("CX", "CZ") else list(zip(on[::2], on[1::2]))
                        for key in kk:
                            t[key] = {p.lower(): v for p, v in zip(errs, ps)}
            else:
                for key in keys:
                    v = e["params"][0] if e["dist"] == "constant" else drawn(g, key, e["err"].lower())
                    t[key] = {e["err"].lower(): v}
                    if e.get("more"):
                        t[key].update({a.lower(): b for a, b in e["more"]})
            out[g] = t
        return out


def as_dict(e, group):
    d = {"distribution": e["dist"]}
    if not (e["implicit"] and e["on"]):
        d["enabled"] = e["on"]
    if group == "q":
        if e["dist"] != "user":
            d["params"] = list(e["params"][: 1 if e["dist"] == "constant" else 2])
    elif e["dist"] != "user":
        more = e.get("more", [])
        d["distribution"] = [e["dist"]] + ["constant" for _ in more]
        d["induced_errors"] = [e["err"]] + [a for a, _ in more]
        d["params"] = [list(e["params"][: 1 if e["dist"] == "constant" else 2])] + [[b] for _, b in more]
    return d


def write_tables(conf, tmp, order):
    """Rows and columns come in any order."""
    mult, perm = order
    cols = list(itertools.permutations(QK))[perm % 120]
    qp, gp = os.path.join(tmp, "qubits.csv"), os.path.join(tmp, "gates.csv")
    data = set(conf.mem.model.data_ids)
    with open(qp, "w") as f:
        f.write("qubit_id,qubit_type," + ",".join(cols) + "\n")
        for q in sorted(conf.qtab, key=lambda q: (q * mult % 61, q)):
            t = "data" if q in data else "stab"
            f.write(f"{q},{t}," + ",".join(repr(float(conf.qtab[q][k])) for k in cols) + "\n")
    with open(gp, "w") as f:
        f.write("gate,on_qubits,induced_errors,probs\n")
        for g, on, errs, ps in conf.gtab:
            f.write(f"{g},{'|'.join(map(str, on))},{'|'.join(errs)},{'|'.join(map(repr, map(float, ps)))}\n")
    return qp, gp


def acting(circ, ideal):
    """(qubit time, channel) -> sorted rates of everything in the circuit that can strike."""
    count: dict = {}
    out: dict = {}
    pure = []

    def add(where, channel):
        out.setdefault(where, []).append(channel)

    for name, args in circ.gates:
        if name == "E_PAULI":
            if any(args[:3]):
                add((args[3], count.get(args[3], 0)), ("pauli", *args[:3]))
        elif name == "E_PAULI2":
            a, b = args[15:]
            if any(args[:15]):
                add((a, count.get(a, 0), b, count.get(b, 0)), ("pauli2", *args[:15]))
        elif name == "E_ERASE":
            if args[0]:
                add((args[1], count.get(args[1], 0)), ("erase", args[0]))
        elif name == "ERROR" and len(args) == 3 and args[1] in ("X", "Y", "Z"):
            if args[0]:
                add((args[2], count.get(args[2], 0)), ("pauli", *(args[0] if c == args[1] else 0.0 for c in "XYZ")))
        elif name.startswith("E"):
            add(("?",), (name, *args))
        else:
            pure.append((name, args))
            for q in args:
                count[q] = count.get(q, 0) + 1
    return {k: sorted(v) for k, v in out.items()}, pure


def expected(mem, ideal, qt, gt):
    m, R = mem.model, mem.rounds
    pos = mem.gate_positions(ideal)
    touch: dict = {}
    for i, (name, args) in enumerate(ideal):
        for q in args:
            touch.setdefault(q, []).append(i)

    def before(q, i):
        return sum(1 for p in touch.get(q, ()) if p < i)

    out: dict = {}

    def add(where, channel):
        if any(channel[1:]):
            out.setdefault(where, []).append(tuple([channel[0], *map(float, channel[1:])]))

    for t in range(1, R + 1):
        start = min(pos["R", a][t] for a in m.anc_ids)
        for q in m.data_ids:
            w = (q, before(q, start))
            add(w, ("pauli", *(qt.get(c, {}).get(q, 0.0) for c in "XYZ")))
            add(w, ("erase", qt.get("erasure", {}).get(q, 0.0)))
    for t in range(1, R):
        for a in m.anc_ids:
            add((a, before(a, pos["M", a][t])), ("pauli", qt.get("measurement", {}).get(a, 0.0), 0.0, 0.0))
            for g in ("R", "H", "M"):
                r = gt.get(g, {}).get(a, {})
                for o in range(2 if g == "H" else 1):
                    i = pos[g, a][(2 if g == "H" else 1) * t + o]
                    add((a, before(a, i) + 1), ("pauli", *(r.get(c, 0.0) for c in P1)))
        for i, q, g in mem.edges:
            a, d = m.anc_ids[i], m.data_ids[q]
            r = gt.get(g, {}).get((a, d), {})
            k = pos[g, a, d][t]
            add((a, before(a, k) + 1, d, before(d, k) + 1), ("pauli2", *(r.get(c, 0.0) for c in P2)))
    return {k: sorted(v) for k, v in out.items()}


def close(a, b):
    if a.keys() != b.keys():
        return False
    for k, v in a.items():
        w = b[k]
        if len(v) != len(w):
            return False
        for x, y in zip(v, w):
            if x[0] != y[0] or len(x) != len(y) or any(abs(p - q) > 1e-12 for p, q in zip(x[1:], y[1:])):
                return False
    return True


def run(case, ctx):
    spec = case["code"]
    sut.check_logical_ops(case["ops"], spec)
    tmp = tempfile.mkdtemp(prefix="dst-n01.", dir="/tmp")
    try:
        _run(case, ctx, spec, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(case, ctx, spec, tmp):
    sut.set_rng(case["seed"])
    mem = Memory(spec, case["ops"], False)
    m = mem.model
    if not case["qrows"]:
        raise Invalid("rows")
    conf = Config(case, mem)
    paths = write_tables(conf, tmp, case.get("order", [1, 0]))
    groups = []
    for j, (grp, ent) in enumerate((("q", case["qe"]), ("g", case["ge"]))):
        d = {k: as_dict(e, grp) for k, e in ent.items()}
        if not case["sample_implicit"]:
            d["sample"] = case["sample"][j]
        if case["files"][j] == "none":
            os.unlink(paths[j])
            d["data_path"], d["load_file"] = paths[j], False
        else:
            d["data_path"] = paths[j]
        groups.append(d)
    keep = json.dumps(groups, sort_keys=True)
    ec = frontend.ErrorsConfig.from_dict({"qubit_errors": groups[0], "gate_errors": groups[1]})
    ctx.check(json.dumps(groups, sort_keys=True) == keep, "caller-dict-changed", "configuration dictionary was modified")
    for j in range(2):
        if case["files"][j] == "vanishes":
            os.unlink(paths[j])
            ctx.fault("table file vanished")
        elif case["files"][j] == "none":
            ctx.probe("table file never existed")
    ideal = sut.gate_list(mem.ideal())
    for step, u in enumerate([None, *case["updates"]]):
        ctx.log(u)
        ctx.steps += 1
        if u is not None:
            part = ec.qubit_errors if u[1] == "q" else ec.gate_errors
            if u[0] == "sample":
                part.update(sample=u[2])
                conf.sample[u[1]] = u[2]
            elif u[0] == "toggle":
                if u[2] not in conf.e[u[1]]:
                    continue
                getattr(part, u[2]).update(enabled=u[3])
                conf.e[u[1]][u[2]]["on"] = u[3]
            else:
                cls = frontend._QubitErrorMetadata if u[1] == "q" else frontend._GateErrorMetadata
                part.update(**{u[2]: cls.from_dict(as_dict(u[3], u[1]))})
                conf.e[u[1]][u[2]] = json.loads(json.dumps(u[3]))
            ctx.probe("configuration updated")
        check_build(case, ctx, mem, conf, ec, ideal, step)


def check_build(case, ctx, mem, conf, ec, ideal, step):
    m = mem.model
    ed = ec.instantiate(mem.code.lattice)
    qd, gd = ed.qubit_errors_dict, ed.gate_errors_dict
    gauss: dict = {}

    def note(key, v, e):
        ctx.check(isinstance(v, (float, np.floating)) and 0.0 <= v <= 1.0, "rate-out-of-range", lambda: f"{key}: {v!r}")
        mean, std = e["params"][:2]
        if std == 0:
            ctx.check(v == mean, "gaussian-without-spread", lambda: f"{key}: {v}, mean {mean}")
        gauss.setdefault((key, mean, std), []).append(float(v))
        return float(v)

    def drawn_q(k, q):
        name = "pauli" if k in "XYZ" else k
        t = qd.get(name, {}).get(q, {})
        v = t.get(k.lower() if k in "XYZ" else "p")
        return note(k, v, conf.e["q"][k])

    def drawn_g(g, key, err):
        return note(g, gd.get(g, {}).get(key, {}).get(err), conf.e["g"][g])

    qt, gt = conf.qubit_tables(drawn_q), conf.gate_tables(drawn_g)
    for (key, mean, std), vals in gauss.items():
        if std > 0:
            ctx.check(len(set(vals)) == len(vals), "gaussian-rates-repeat", lambda: f"{key}: {vals}")
            med = truncated_median(mean, std)
            lo = sum(v < med for v in vals)
            ctx.check(not stat.unlikely(lo, len(vals), 0.5), "gaussian-median",
                      lambda: f"{key} mean {mean} deviation {std}: {lo} of {len(vals)} below {med}: {vals}")
            ctx.check(max(vals) < mean + 12 * std + 1e-9 and min(vals) > mean - 12 * std - 1e-9, "gaussian-spread",
                      lambda: f"{key} mean {mean} deviation {std}: {vals}")
            ctx.probe("gaussian rates drawn", len(vals))
    circ = frontend.CircuitConfig.from_dict({}).instantiate(mem.code, ed, case["ops"])
    got, pure = acting(circ, ideal)
    ctx.check(pure == ideal, "noise-changes-gates", "the noisy circuit executes other ideal gates")
    want = expected(mem, ideal, qt, gt)
    ctx.state(*((k, e["dist"], e["on"]) for g in "qg" for k, e in sorted(conf.e[g].items())), *conf.sample.items(), *conf.files)
    ctx.log(sorted((k, v) for k, v in want.items()))
    ctx.rounds += mem.rounds
    if not close(got, want):
        multi = [g for g, e in conf.active("g").items() if e.get("more")]
        if multi:
            last = {g: ({k: {e["more"][-1][0].lower(): e["more"][-1][1]} for k in t} if e.get("more") else t)
                    for g, t in gt.items() for e in [conf.e["g"][g]]}
            ctx.check(not close(got, expected(mem, ideal, qt, last)), "last-channel-only",
                      lambda: f"{multi}: only the last channel of the entry acts")
        bad = sorted((k for k in set(got) | set(want) if got.get(k) != want.get(k)), key=str)
        ctx.check(False, "acting-noise",
                  f"step {step} {case['code']}: {len(bad)} places differ, first {bad[0]}: circuit {got.get(bad[0])}, "
                  f"configured {want.get(bad[0])}; q {conf.e['q']} g {conf.e['g']} sample {conf.sample} files {conf.files}")
    # what the decoders get are the same rates
    full = ed.error_data_dict
    for k in qt:
        name = "pauli" if k in "XYZ" else k
        for q, v in qt[k].items():
            w = full.get(name, {}).get(q, {}).get(k.lower() if k in "XYZ" else "p", 0.0)
            ctx.check(abs(w - v) < 1e-12, "decoder-table", lambda: f"{k} qubit {q}: {w} instead of {v}")
    on = {("pauli" if k in "XYZ" else k) for k, t in qt.items()} | {g for g, t in gt.items() if t}
    for name, t in full.items():
        if name not in on:
            bad = [k for k, r in t.items() if any(v for v in r.values())]
            ctx.check(not bad, "decoder-table-extra", lambda: f"{name}: {bad[:4]}")
    if case["certain"]:
        run_certain(case, ctx, mem, circ, ideal, qt, gt)


def truncated_median(mean, std):
    cdf = lambda x: 0.5 * (1 + math.erf((x - mean) / std / math.sqrt(2)))  # noqa: E731
    a, b = cdf(0.0), cdf(1.0)
    lo, hi = 0.0, 1.0
    for _ in range(80):
        mid = (lo + hi) / 2
        if cdf(mid) < (a + b) / 2:
            lo = mid
        else:
            hi = mid
    return lo


def run_certain(case, ctx, mem, circ, ideal, qt, gt):
    """All rates are 0 or 1: the record must be the one of exactly these faults."""
    m, R = mem.model, mem.rounds
    faults = []
    paulis = {q: [c for c in "XYZ" if qt.get(c, {}).get(q)] for q in m.data_ids}
    if any(len(v) > 1 for v in paulis.values()):
        raise Invalid("more than one certain Pauli")
    for t in range(R):
        for i, q in enumerate(m.data_ids):
            faults += [("P", t, i, c) for c in paulis[q]]
            if qt.get("erasure", {}).get(q):
                faults.append(("E", t, i))
    for t in range(R - 1):
        for i, a in enumerate(m.anc_ids):
            if qt.get("measurement", {}).get(a):
                faults.append(("F", t, i))
            for g in ("R", "H", "M"):
                for p, v in gt.get(g, {}).get(a, {}).items():
                    if v:
                        faults += [("G1", g, t, i, o, p.upper()) for o in range(2 if g == "H" else 1)]
        for i, q, g in mem.edges:
            for p, v in gt.get(g, {}).get((m.anc_ids[i], m.data_ids[q]), {}).items():
                if v:
                    faults.append(("G2", g, t, i, q, p.upper()))
    if any(sum(f[:5] == h[:5] for h in faults) > 1 for f in faults if f[0][0] == "G"):
        raise Invalid("more than one certain Pauli")
    syn, tog, era = mem.expect(faults, ideal)
    span = mem.erasure_span(era)
    dev = sut.Device(case["backend"])
    dev.run(circ)
    raw, er = dev.get_sample()
    rb = sut.bits(raw, mem.lay.total, "raw results")
    t0, s0 = mem.lay.split(rb)
    diff = mem.pack(s0, t0) ^ mem.pack(syn, tog)
    ctx.check(diff in span, "configured-faults-not-seen",
              lambda: f"{case['code']}: syndrome {s0}, toggles {t0}; configured faults give {syn}, {tog}")
    flags = [] if er is None else sut.bits(er, None, "erasure")
    ctx.check(sum(flags) == sum(map(sum, era)), "erasure-count", lambda: f"{flags}, expected {era}")
    for f in faults:
        ctx.fault({"P": "configured data Pauli", "E": "configured erasure", "F": "configured readout flip"}.get(f[0], "configured gate fault"))
    ctx.log(rb)
