"""D01: a device follows its documented lifecycle."""
import numpy as np

from dst import machine, sut
from dst.core import Invalid
from dst.model import Impossible, Span, SymState

ID = "D01"
CASES = {"quick": 5000, "thorough": 120000}
RULE = (
    "one case = history of up to 40 operations on one device (run with and without reset, read, read "
    "again after the caller overwrote what it got, reset, step through, extend or exchange the circuit, "
    "circuits which must be refused, at the start or in the middle) over up to 3 circuits with error "
    "instructions; a reference machine replays everything that was executed since the last reset; "
    "distinct = different event log"
)
STATES = "distinct (operation, circuit, number of executed instructions, outcomes) tuples"
REAL = ["Device", "clifford and stim backends", "Circuit and CircuitBuilder", "pauli tableau"]
STUB = ["random source (seeded, optionally with extreme outcomes)"]
ASSUME = ["circuits are extended only within the qubits they already use"]

BAD = ("ERROR_CONTINUE", "ERROR_ELSE", "E_PAULI", "E_PAULI-")


def gen(rng, i):
    backend = rng.choice(["clifford", "clifford", "clifford", "stim"])
    via = rng.choice(["device", "device", "simulator"])
    n = rng.choice([1, 2, 3, 4])
    circuits = []
    nmax = n
    for c in range(rng.choice([1, 2, 3])):
        # circuits of one history differ in size in every other case
        n = nmax if i % 2 else rng.randint(1, nmax)
        g = machine.certain_program(rng, n, rng.choice([2, 4, 8, 14]), stim=backend == "stim")
        circuits.append(dict(gates=g, builder=rng.random() < 0.4, n=n, text=rng.random() < 0.3))
    if rng.random() < 0.5:
        # a circuit which must be refused, after a while
        c = rng.choice(circuits)
        k = rng.randrange(len(c["gates"]) + 1)
        c["gates"].insert(k, ["!", rng.choice(BAD)])
        if not machine.open_enough(map(concrete, c["gates"])):
            c["gates"][k] = ["!", "E_PAULI"]
        if rng.random() < 0.6:
            good = dict(c, gates=[g for g in c["gates"] if g[0] != "!"])
            circuits.append(good)
    ops = []
    kinds = ["run"] * 6 + ["read"] * 5 + ["reset", "step", "step", "next", "extend", "swap", "alien", "state"]
    if backend == "clifford":
        kinds += ["run+", "run+", "sample+"]
    kinds += ["sample"]
    for _ in range(rng.choice([4, 12, 25, 40])):
        k = rng.choice(kinds)
        c = rng.randrange(len(circuits))
        if k in ("step", "next"):
            ops.append([k, c, rng.randrange(15)])
        elif k == "extend":
            ops.append([k, c, machine.certain_program(rng, circuits[c]["n"], rng.randint(1, 3), stim=backend == "stim", blocks=False), rng.random() < 0.5])
        else:
            ops.append([k, c])
        if k in ("run", "run+", "step", "next") and rng.random() < 0.7:
            ops.append(["read", c])
            if rng.random() < 0.3:
                ops.append(["read", c])
    return dict(backend=backend, via=via, circuits=circuits, ops=ops,
                rngmode=rng.choice(["seeded", "zeros", "ones"]), batch=rng.choice([1, 2, 5, 1024]))


def concrete(g):
    if g[0] != "!":
        return [g[0], g[1]]
    return {
        "ERROR_CONTINUE": ["ERROR_CONTINUE", ["X", 0]],
        "ERROR_ELSE": ["ERROR_ELSE", [0.5, "X", 0]],
        "E_PAULI": ["E_PAULI", [0.9, 0.4, 0.3, 0]],
        "E_PAULI-": ["E_PAULI", [-0.5, 0.2, 0.0, 0]],
    }[g[1]]


def unsound(name, args):
    """Must the library refuse this instruction itself?"""
    return name == "E_PAULI" and (sum(args[:3]) > 1 or min(args[:3]) < 0)


class Prog:
    def __init__(self, spec, n, stim):
        if n < 1:
            raise Invalid("empty")
        self.n = n
        # only the injected instruction may be invalid
        if not machine.valid([g for g in spec["gates"] if g[0] != "!"], n, stim):
            raise Invalid("program")
        if not machine.open_enough(map(concrete, spec["gates"])):
            raise Invalid("unknown branch")
        gates = [("X", (n - 1,)), ("X", (n - 1,))] + [(g, tuple(a)) for g, a in map(concrete, spec["gates"])]
        if spec["text"]:
            self.circ = sut.circuit.Circuit.from_str("\n".join(f"{g} " + " ".join(map(str, a)) for g, a in gates))
        else:
            self.circ = sut.circuit_from_gates(gates)
        self.gates = gates
        self.handle = sut.circuit.CircuitBuilder(self.circ) if spec["builder"] else self.circ

    def bad_at(self, stim):
        """Index of the first instruction which must be refused (None: none)."""
        bad = None
        try:
            for _ in machine.effective(self.gates):
                pass
        except machine.Fail as e:
            bad = e.pos
        for i, (g, a) in enumerate(self.gates):
            if unsound(g, a) or (stim and g in ("ERROR_CONTINUE", "ERROR_ELSE")):
                bad = i if bad is None else min(bad, i)
                break
        return bad


def run(case, ctx):
    n, stim = max([1] + [s["n"] for s in case["circuits"]]), case["backend"] == "stim"
    sut.set_rng(case["seed"], case["rngmode"])
    if not case["circuits"]:
        raise Invalid("empty")
    progs = [Prog(s, s["n"], stim) for s in case["circuits"]]
    kw = {"batch_size": max(1, case["batch"])} if stim else {}
    if case["via"] == "device":
        dev = sut.Device(case["backend"], **kw)
        cur = None
    else:
        p = progs[0]
        if stim and p.bad_at(True) is not None:
            from plaquette.device._stimsim import StimSimulator

            try:
                StimSimulator(p.handle, **kw)
            except Exception:  # noqa: B902
                ctx.fault("refused circuit")
                return
            ctx.check(False, "bad-circuit-accepted", f"stim accepted {p.gates}")
        from plaquette.device._circuitsim import CircuitSimulator
        from plaquette.device._stimsim import StimSimulator

        dev = (StimSimulator if stim else CircuitSimulator)(p.handle, **kw)
        cur = p
    simulator = case["via"] != "device"
    reset = dev.reset if simulator else dev.reset_backend
    read = dev.process_results if simulator else dev.get_sample
    hist: list = []  # instructions executed since the last reset
    ptr = None  # next instruction while stepping
    broken = False  # the last run failed: results unspecified until the next run
    ran = simulator and not stim  # is there anything to read?
    last = None  # the record after the previous read
    stale = False  # the circuit was exchanged: only a fresh run makes sense
    begun = simulator
    size = cur.n if simulator else None  # qubits of the present state

    def describe():
        return f"{case['backend']}/{case['via']} after {done}"

    def check_record(raw, er):
        nonlocal last
        m, e = machine.outcomes_needed(hist)
        rb = sut.bits(raw, None, "outcomes")
        ctx.check(len(rb) == m, "record-length", lambda: f"{describe()}: {len(rb)} outcomes, {m} measurements were executed")
        if e == 0:
            ctx.check(er is None or len(er) == 0, "erasure-record", lambda: f"{describe()}: {er}")
            eb = []
        else:
            ctx.check(er is not None and len(er) == e, "erasure-record",
                      lambda: f"{describe()}: {None if er is None else len(er)} flags, {e} erasure instructions were executed")
            eb = sut.bits(er, e, "erasure flags")
        if last is not None:
            ctx.check(rb[: len(last[0])] == last[0] and eb[: len(last[1])] == last[1], "record-changed",
                      lambda: f"{describe()}: was {last}, is {(rb, eb)}")
        last = (rb, eb)
        st = SymState(max(n, 1))
        machine.replay(st, hist, rb, eb, describe())
        ctx.log(rb, eb)
        ctx.state(len(hist), tuple(rb), tuple(eb))
        return st

    def check_state(st):
        # the state has the qubits of the circuit it was made for
        n = size
        tab = np.asarray(dev.state.tableau)
        ctx.check(tab.shape == (2 * n, 2 * n + 1), "state-shape", lambda: f"{describe()}: {tab.shape}")
        rows = []
        for r in tab[n:].tolist():
            x = sum(b << j for j, b in enumerate(r[:n]))
            z = sum(b << j for j, b in enumerate(r[n : 2 * n]))
            rows.append(x | z << n)
            try:
                st.contains(x, z, r[2 * n], "state")
            except Impossible:
                ctx.check(False, "state", f"{describe()}: {r} does not stabilise the state")
        ctx.check(Span(rows).rank == n, "state-rank", describe)
        nq = dev.n_qubits
        ctx.check(nq == n, "n-qubits", lambda: f"{describe()}: {nq}, expected {n}")

    done: list = []
    for op in case["ops"]:
        k = op[0]
        p = progs[op[1] % len(progs)]
        if simulator and k in ("run", "run+", "sample", "sample+"):
            p = cur
        ctx.steps += 1
        ctx.log(k, op[1] % len(progs))
        if k in ("run", "run+", "sample", "sample+"):
            plus = k.endswith("+")
            if plus and (stale or broken or (begun and p is not cur)):
                continue
            if k.startswith("sample") and not simulator:
                continue
            bad = p.bad_at(stim)
            if not plus or not begun:
                size = p.n
            done.append((k, progs.index(p)))
            raised = None
            res = None
            try:
                if k == "run" or k == "run+":
                    if simulator:
                        dev.run(after_reset=not plus)
                    else:
                        dev.run(p.handle, after_reset=not plus)
                else:
                    res = dev.get_sample(after_reset=not plus)
            except (ValueError, IndexError, RuntimeError, AssertionError) as e:
                raised = e
            if bad is not None:
                ctx.fault("refused circuit")
                ctx.check(raised is not None, "bad-circuit-accepted",
                          lambda: f"{describe()}: instruction {bad} of {p.gates} must be refused")
                broken, ran = True, False
                last = None
                cur = p if not stim else cur
                ptr = None
                if stim:
                    stale = True
                else:
                    begun, stale = True, False
                continue
            if raised is not None:
                raise raised
            if not plus or not begun:
                hist = []
                last = None
            elif stim:
                hist = []
            hist = hist + list(p.gates)
            begun, cur, broken, stale, ran = True, p, False, False, True
            ptr = None
            if res is not None:
                check_record(*res)
            if plus:
                ctx.probe("run without reset")
        elif not begun:
            continue
        elif k == "read":
            if broken or not ran:
                continue
            done.append(k)
            raw, er = read()
            st = check_record(raw, er)
            for a in (raw, er):
                if isinstance(a, np.ndarray) and a.flags.writeable:
                    a[...] = 1 - a if a.dtype != bool else ~a
                    ctx.fault("caller overwrote a returned record")
            if not stim:
                check_state(st)
        elif k == "reset":
            done.append(k)
            reset()
            ctx.probe("reset")
            size = cur.n if cur else size
            hist, last, broken = [], None, False
            ptr = 0
            if stim:
                ran = False
            else:
                ran = True
                stale = False
                st = check_record(*read())
                check_state(st)
        elif k in ("step", "next") and not stim:
            if broken or stale or cur is None:
                continue
            if k == "next" and ptr is None:
                continue
            bad = cur.bad_at(False)
            if bad is not None:
                continue
            done.append((k, op[2]))
            if k == "step":
                it = iter(dev)
                ptr = 0
            else:
                it = dev
            ran = True
            for _ in range(op[2]):
                ended = False
                try:
                    next(it)
                except StopIteration:
                    ended = True
                ctx.check(ended == (ptr >= len(cur.gates)), "iteration-length",
                          lambda: f"{describe()}: step {ptr} of {len(cur.gates)}, ended: {ended}")
                if ended:
                    ptr = None
                    break
                hist = hist + [cur.gates[ptr]]
                ptr += 1
                ctx.probe("single step")
        elif k == "extend":
            add = [(g, tuple(a)) for g, a in op[2]]
            if not machine.valid(op[2], p.n, stim):
                raise Invalid("extension")
            done.append((k, progs.index(p), op[2]))
            for g, a in add:
                if op[3] and p.handle is not p.circ and hasattr(p.handle, g):
                    getattr(p.handle, g)(*a)
                else:
                    p.circ.append(g, *a)
            p.gates = p.gates + add
            ctx.probe("circuit extended")
            if ptr is None or p is not cur:
                continue
        elif k == "swap":
            # exchange the circuit of the backend
            if cur is None or (stim and p.bad_at(True) is not None):
                continue
            done.append((k, progs.index(p)))
            if simulator:
                dev.circ = p.circ
            else:
                dev.circuit = p.circ
                ctx.check(dev.circuit is p.circ, "circuit-attribute", describe)
            cur = p
            stale = True
            ptr = None
            ctx.probe("circuit exchanged")
        elif k == "alien":
            if simulator:
                continue
            done.append(k)
            try:
                dev.run("X 0")
            except Exception:  # noqa: B902
                ctx.fault("run of something that is no circuit")
            else:
                ctx.check(False, "alien-accepted", "a string was run as a circuit")
        elif k == "state" and stim:
            if simulator:
                continue
            try:
                dev.run(p.circ, after_reset=False)
            except ValueError:
                ctx.fault("run without reset on stim")
                if p.bad_at(True) is None and cur is not p:
                    # a backend for this circuit may have been made
                    begun, ran, broken, cur, stale = True, False, True, p, True
            except IndexError:
                ctx.check(p.bad_at(True) is not None, "exception", "IndexError")
            else:
                ctx.check(False, "stim-without-reset", "accepted")

