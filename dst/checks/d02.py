"""D02: batched sampling delivers every shot exactly once."""
import numpy as np

from dst import sut
from dst.core import Ctx, Invalid

ID = "D02"
CASES = {"quick": 2000, "thorough": 40000}
RULE = (
    "one case = history of up to 60 operations (run, read, read again after the caller overwrote the "
    "arrays, combined sampling, reset with and without a new seed, extension and exchange of the circuit) "
    "interleaved over up to 3 stim devices with batch sizes from 1 to beyond the number of shots; every "
    "shot is compared with the stream of an independent sampler of the same seed and batch size, or must "
    "be new if the library chose the seed; the whole history is run twice; distinct = different event log"
)
STATES = "distinct (device, position in the batch, circuit, shot) tuples"
REAL = ["stim backend", "Device", "conversion to stim", "stim sampler"]
STUB = ["random source (seeded) from which the library draws seeds"]
ASSUME = ["the stream which Stim itself produces for a circuit, a seed and a batch size is the reference"]
WIDE = 56


def gen(rng, i):
    circs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        circs.append(dict(kind=rng.choice(["coins", "coins", "noise", "memory"]), n=rng.randint(1, 4),
                          era=rng.choice([0, 0, 1, 3]), spec=sut.gen_code(rng, max_rounds=2, small=True)))
    devs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        devs.append(dict(via=rng.choice(["device", "simulator"]), batch=rng.choice([1, 2, 3, 5, 8, 16, 0]),
                         seeded=rng.random() < 0.6, sseed=rng.choice([0, 1, 5, 7, 2**40 + 3])))
    ops = []
    kinds = ["run"] * 8 + ["read"] * 4 + ["reset", "reseed", "extend", "change", "sample", "runs", "bad"]
    for _ in range(rng.choice([5, 15, 30, 60])):
        k = rng.choice(kinds)
        op = [k, rng.randrange(len(devs)), rng.randrange(len(circs))]
        if k == "reseed":
            op.append(rng.choice([0, 1, 5, 99]))
        if k == "runs":
            op.append(rng.randint(2, 20))
        ops.append(op)
        if k == "run":
            ops.append(["read", op[1], op[2]])
    return dict(circs=circs, devs=devs, ops=ops)


def make(spec):
    k = spec["kind"]
    n = max(1, spec["n"])
    if k == "memory":
        code = sut.build_code(spec["spec"])
        ids = [v.equbit_idx for v in code.lattice.dataqubits]
        qe = {"pauli": {q: {"x": 0.1, "y": 0.1, "z": 0.1} for q in ids}}
        if spec["era"]:
            qe["erasure"] = {q: {"p": 0.3} for q in ids}
        return sut.make_circuit(code, qe, {}, "X" * sut.n_logical(spec["spec"]), False)
    c = sut.circuit.Circuit()
    if k == "coins":
        q = list(range(WIDE))
        c.append("H", *q)
        for j in range(spec["era"]):
            c.append("E_ERASE", 0.4, j)
        c.append("M", *q)
    else:
        for j in range(n):
            c.append("E_PAULI", 0.2, 0.1, 0.2, j)
        for j in range(spec["era"]):
            c.append("E_ERASE", 0.4, j % n)
        c.append("M", *range(n))
        c.append("H", *range(n))
        c.append("M", *range(n))
    return c


class Stream:
    """Reference stream of one sampler."""

    def __init__(self, circ, seed, batch):
        from plaquette.device._stimsim import circuit_to_stim

        sc, era = circuit_to_stim(circ)
        self.era = np.array(era, dtype=bool)
        self.sampler = sc.compile_sampler(seed=seed)
        self.size = batch
        self.left = []

    def next(self):
        if not self.left:
            b = self.sampler.sample(shots=self.size)
            self.left = [row.copy() for row in b]
        row = self.left.pop(0)
        return row[~self.era].astype(int).tolist(), row[self.era].astype(int).tolist()


class Dev:
    def __init__(self, spec, circs):
        from plaquette.device._stimsim import StimSimulator

        self.spec = spec
        kw = {"batch_size": spec["batch"]} if spec["batch"] else {}
        self.batch = spec["batch"] or 1024
        self.seed = spec["sseed"] if spec["seeded"] else None
        if spec["seeded"]:
            kw["stim_seed"] = spec["sseed"]
        self.sim = spec["via"] == "simulator"
        self.circ = None
        self.shot = None
        self.stream = None
        self.pending = False
        if self.sim:
            self.circ = circs[0]
            self.h = StimSimulator(self.circ, **kw)
            if self.seed is None:
                self.seed = int(self.h.stim_seed)
            self.restart()
        else:
            self.h = sut.Device("stim", **kw)

    def run(self, c):
        if not self.sim:
            if c is not self.circ:
                # another circuit: a new stream
                self.seed = self.spec["sseed"] if self.spec["seeded"] else None
                self.circ = c
                self.restart()
            self.h.run(c)
        else:
            self.h.run()
        self.advance()

    def restart(self):
        self.compiled = list(self.circ.gates)
        self.stream = Stream(self.circ, self.seed, self.batch) if self.seed is not None else None

    def advance(self):
        if self.pending or self.compiled != self.circ.gates:
            self.restart()
            self.pending = False
        self.expect = self.stream.next() if self.stream else None
        self.shot = None

    def read(self):
        return self.h.process_results() if self.sim else self.h.get_sample()


def history(case, ctx):
    """Run the history; returns all shots read."""
    if not case["circs"] or not case["devs"]:
        raise Invalid("empty")
    for d in case["devs"]:
        if d["batch"] < 0:
            raise Invalid("batch")
    sut.set_rng(case["seed"])
    circs = [make(c) for c in case["circs"]]
    kinds = [c["kind"] for c in case["circs"]]
    devs = [Dev(d, circs) for d in case["devs"]]
    out = []
    unique = {}

    def look(d, raw, er, where):
        nm = d.circ.number_measured_qubits
        if d.stale_m is not None:
            nm = d.stale_m
        rb = sut.bits(raw, nm, "outcomes")
        eb = [] if er is None else sut.bits(er, None, "erasure flags")
        if d.shot is not None:
            ctx.check((rb, eb) == d.shot, "reread", lambda: f"{where}: read {d.shot} before, now {(rb, eb)}")
            ctx.probe("read again")
        else:
            if d.expect is not None:
                ctx.check((rb, eb) == d.expect, "stream",
                          lambda: f"{where}: got {rb} {eb}, the sampler's shot is {d.expect}")
                ctx.probe("shot compared with the sampler")
            elif kinds[circs.index(d.circ)] == "coins":
                key = tuple(rb[:WIDE])
                ctx.check(key not in unique, "shot-twice", lambda: f"{where}: same shot as {unique.get(key)}")
                unique[key] = where
                ctx.probe("shot is new")
            d.shot = (rb, eb)
            out.append((rb, eb))
            ctx.state(where[1:3], tuple(rb))
        for a in (raw, er):
            if isinstance(a, np.ndarray) and a.flags.writeable:
                a[...] = ~a if a.dtype == bool else 1 - a
                ctx.fault("caller overwrote a returned record")

    for d in devs:
        d.stale_m = None
        d.expect = None
        d.ran = False
    for pos, op in enumerate(case["ops"]):
        k, di = op[0], op[1] % len(devs)
        d = devs[di]
        c = circs[op[2] % len(circs)]
        where = (pos, k, di)
        ctx.steps += 1
        ctx.log(k, di, op[2] % len(circs))
        if k in ("run", "runs", "sample"):
            for _ in range(op[3] if k == "runs" else 1):
                if k == "sample" and d.sim:
                    raw, er = d.h.get_sample()
                    d.stale_m = None
                    d.ran = True
                    d.advance()
                    look(d, raw, er, where)
                else:
                    d.run(c)
                    d.stale_m = None
                    d.ran = True
                if k == "runs":
                    look(d, *d.read(), where)
        elif k == "read":
            if d.ran:
                look(d, *d.read(), where)
        elif k in ("reset", "reseed"):
            if d.circ is None:
                continue
            new = op[3] if k == "reseed" else None
            (d.h.reset if d.sim else d.h.reset_backend)(*([] if new is None else [new]))
            if new is not None:
                d.seed = new
            # a reset of a stream with a seed the library chose repeats that stream
            if d.seed is None:
                unique.clear()
            d.pending = True
            d.ran = False
            ctx.probe(k)
        elif k == "extend":
            for e in devs:
                if e.ran and e.circ is c and e.stale_m is None:
                    # until the next run, the shot of the old circuit stays
                    e.stale_m = c.number_measured_qubits
            c.append("X", 0)
            c.append("H", 0)
            c.append("M", 0)
            for e in devs:
                if e.circ is c and e.seed is None:
                    unique.clear()
            ctx.probe("circuit extended")
        elif k == "change":
            if d.circ is None:
                continue
            if d.ran and d.stale_m is None:
                d.stale_m = d.circ.number_measured_qubits
            if d.sim:
                d.h.circ = c
            else:
                d.h.circuit = c
            d.circ = c
            if d.seed is None:
                unique.clear()
            ctx.probe("circuit exchanged")
        elif k == "bad":
            if d.circ is None:
                continue
            try:
                d.h.run(after_reset=False) if d.sim else d.h.run(d.circ, after_reset=False)
            except ValueError:
                ctx.fault("refused run without reset")
            else:
                ctx.check(False, "run-without-reset", "stim accepted after_reset=False")
    return out


def run(case, ctx):
    a = history(case, ctx)
    ctx.log(a)
    b = history(case, Ctx())
    ctx.check(a == b, "not-repeatable", "the same history with the same seeds gave different shots")
