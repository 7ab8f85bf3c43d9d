"""R01: plug-in backends are driven faithfully even when they fail."""
import numpy as np

from dst import sut
from dst.core import Invalid
from plaquette import circuit as pc
from plaquette import device as pd

ID = "R01"
CASES = {"quick": 7000, "thorough": 200000}
RULE = (
    "one case = up to 3 simulated remote backends behind an unreliable network (jobs complete late, out of "
    "order, twice or never; calls fail with various exceptions before or after taking effect; connections and "
    "plug-ins that cannot be loaded) and up to 40 operations on devices connected to them and on a local "
    "device in between; the simulated network knows what every call must have done; distinct = different event log"
)
STATES = "distinct (operation, fault, jobs submitted, jobs delivered, calls seen) tuples"
REAL = ["Device", "MeasurementSample", "recognized_devices registry", "clifford backend (local device in between)"]
STUB = ["remote backends, their network and entry points are simulated"]
ASSUME = ["backends follow the plug-in interface: constructor, run(circuit, shots=...), get_sample, is_completed, reset, circ, state, n_qubits, iteration"]

EXC = {
    "connection": ConnectionResetError, "timeout": TimeoutError, "value": ValueError, "runtime": RuntimeError,
    "key": KeyError, "attribute": AttributeError, "os": OSError, "interrupt": KeyboardInterrupt,
    "memory": MemoryError, "notimplemented": NotImplementedError, "type": TypeError, "assertion": AssertionError,
    "stop": StopIteration, "import": ImportError,
}


def gen(rng, i):
    n = rng.randint(1, 3)
    ops = []
    kinds = ["run"] * 6 + ["sample"] * 5 + ["completed"] * 4 + ["net"] * 5 + ["reset", "get-circuit", "set-circuit", "state",
             "nqubits", "iter", "next", "local", "open", "open-bad", "unknown", "builder", "read"]
    quiet = rng.random() < 0.2
    for _ in range(rng.choice([5, 15, 40])):
        k = rng.choice(kinds)
        f = [rng.choice(list(EXC)), rng.random() < 0.5] if not quiet and rng.random() < 0.25 else None
        ops.append([k, rng.randrange(4), rng.randrange(50), f])
    return dict(devices=n, args=[[rng.randrange(9) for _ in range(rng.randint(0, 3))] for _ in range(4)],
                kwargs=[{k: rng.randrange(9) for k in rng.sample(["token", "batch_size", "shots", "backend_name"], rng.randint(0, 3))} for _ in range(4)],
                ops=ops)


class Network:
    """All remote backends of a run, and everything that reached them."""

    def __init__(self):
        self.calls = []  # (backend, name, args, kwargs)
        self.fault = None

    def call(self, who, name, args, kw, effect):
        self.calls.append((who, name, args, kw))
        f, self.fault = self.fault, None
        if f and f[1]:
            raise f[0]
        res = effect()
        if f:
            raise f[0]
        return res


class Remote:
    """A simulated remote backend."""

    net: Network

    def __init__(self, *args, **kw):
        self.jobs = []
        self.done = []
        self.inbox = []  # delivered samples, in delivery order
        self.token = object()
        self.circ_ = None
        self.net.call(self, "init", args, kw, lambda: None)

    def run(self, *args, **kw):
        def effect():
            self.jobs.append((args, kw))
            self.done.append(False)
            return ("job", len(self.jobs), self.token)

        return self.net.call(self, "run", args, kw, effect)

    def get_sample(self, *args, **kw):
        def effect():
            self.last = self.inbox.pop(0) if len(self.inbox) > 1 else (self.inbox[0] if self.inbox else None)
            return self.last

        return self.net.call(self, "get_sample", args, kw, effect)

    @property
    def is_completed(self):
        def effect():
            self.last = list(self.done)
            return self.last

        return self.net.call(self, "is_completed", (), {}, effect)

    def reset(self, *args, **kw):
        def effect():
            self.inbox.clear()
            self.last = ("reset", self.token)
            return self.last

        return self.net.call(self, "reset", args, kw, effect)

    @property
    def circ(self):
        return self.net.call(self, "get-circ", (), {}, lambda: self.circ_)

    @circ.setter
    def circ(self, c):
        def effect():
            self.circ_ = c

        self.net.call(self, "set-circ", (c,), {}, effect)

    @property
    def state(self):
        return self.net.call(self, "state", (), {}, lambda: self.token)

    @property
    def n_qubits(self):
        return self.net.call(self, "n_qubits", (), {}, lambda: 7 + len(self.jobs))

    def __iter__(self):
        return self.net.call(self, "iter", (), {}, lambda: self)

    def __next__(self):
        return self.net.call(self, "next", (), {}, lambda: self.token)


class Entry:
    def __init__(self, net, cls, ok=True):
        self.net, self.cls = net, cls
        self.fault = None

    def load(self):
        if self.fault:
            f, self.fault = self.fault, None
            raise f
        return self.cls


def run(case, ctx):
    sut.set_rng(case["seed"])
    if not 1 <= case["devices"] <= 4:
        raise Invalid("devices")
    net = Network()
    entries = []
    for i in range(case["devices"]):
        cls = type(f"Remote{i}", (Remote,), {"net": net})
        e = Entry(net, cls)
        entries.append(e)
        pd.recognized_devices[("remote-%d" if i else "cliffordlike-%d") % i] = e
    names = [("remote-%d" if i else "cliffordlike-%d") % i for i in range(case["devices"])]
    devs: list = []  # [device, remote, name]
    code = sut.build_code(dict(fam="five", rounds=1))
    circuits = [sut.circuit_from_gates([("X", (k,)), ("M", (0, k))]) for k in range(1, 5)]
    builder = pc.CircuitBuilder(pc.Circuit())
    builder.H(0)
    builder.M(0)
    local = sut.Device("clifford")
    done: list = []

    def expect(what, who, name, args, kw, n0):
        new = net.calls[n0:]
        ctx.check(len(new) == 1, "number-of-calls", lambda: f"{what}: {[(c[1], c[2], c[3]) for c in new]} reached the backend")
        w, nm, a, k = new[0]
        ctx.check(w is who, "wrong-backend", what)
        ctx.check(nm == name, "wrong-call", lambda: f"{what}: {nm}")
        same = len(a) == len(args) and all(x is y or (isinstance(x, (int, str)) and x == y and type(x) is type(y)) for x, y in zip(a, args))
        ctx.check(same and k == kw, "arguments-changed", lambda: f"{what}: backend got {a} {k}, caller gave {args} {kw}")

    def do(what, fn, fault, who, name, args=(), kw=None):
        """Run fn; exactly one call must reach the backend; returns (result, failed)."""
        n0 = len(net.calls)
        exc = None
        if fault:
            exc = EXC[fault[0]]("injected")
            net.fault = (exc, fault[1])
        try:
            res = fn()
        except BaseException as e:  # noqa: B902
            if exc is None or e is not exc:
                ctx.check(exc is None, "exception-replaced", lambda: f"{what}: {exc!r} became {e!r}")
                raise
            ctx.fault(f"backend raises {fault[0]} in {name} " + ("before" if fault[1] else "after") + " taking effect")
            expect(what, who, name, args, kw or {}, n0)
            return None, True
        finally:
            net.fault = None
        ctx.check(exc is None, "exception-swallowed", lambda: f"{what}: {exc!r} did not reach the caller")
        expect(what, who, name, args, kw or {}, n0)
        return res, False

    def open_(i, fault, what):
        args, kw = tuple(case["args"][i % len(case["args"])]), dict(case["kwargs"][i % len(case["kwargs"])])
        kw.pop("backend", None)
        n0 = len(net.calls)
        exc = EXC[fault[0]]("injected") if fault else None
        if exc:
            net.fault = (exc, fault[1])
        try:
            d = sut.Device(names[i], *args, **kw)
        except BaseException as e:  # noqa: B902
            ctx.check(e is exc, "exception-replaced", lambda: f"{what}: {exc!r} became {e!r}")
            ctx.fault(f"backend raises {fault[0]} while connecting")
            d = None
        else:
            ctx.check(exc is None, "exception-swallowed", what)
        finally:
            net.fault = None
        new = net.calls[n0:]
        ctx.check(len(new) == 1 and new[0][1] == "init", "number-of-calls", lambda: f"{what}: {[c[1] for c in new]}")
        ctx.check(new[0][2] == args and new[0][3] == kw, "arguments-changed", lambda: f"{what}: {new[0][2:]}, caller gave {args} {kw}")
        if d is not None:
            devs.append((d, new[0][0], names[i]))

    if not case["args"] or not case["kwargs"]:
        raise Invalid("args")
    for i in range(case["devices"]):
        open_(i, None, f"open {names[i]}")
    for n, (k, a, b, f) in enumerate(case["ops"]):
        ctx.steps += 1
        dev, who, name = devs[a % len(devs)]
        what = f"{name} after {done[-8:]} then {k} {f}"
        ctx.log(n, k, a % len(devs), b, f)
        done.append((k, f))
        if k in ("run", "builder"):
            c = builder if k == "builder" else circuits[b % len(circuits)]
            before = repr(c.gates if k == "run" else c.circ.gates)
            if b % 5 == 0:
                res, failed = do(what, lambda: dev.run(c), f, who, "run", (c,), {"shots": 1})
            else:
                res, failed = do(what, lambda: dev.run(c, shots=b), f, who, "run", (c,), {"shots": b})
            ctx.check(repr(c.gates if k == "run" else c.circ.gates) == before, "circuit-changed", what)
            if not failed:
                ctx.check(res == ("job", len(who.jobs), who.token), "result-changed", lambda: f"{what}: run returned {res}")
        elif k == "sample":
            res, failed = do(what, dev.get_sample, f, who, "get_sample")
            if not failed:
                ctx.check(res is who.last, "result-changed", lambda: f"{what}: {res} instead of {who.last}")
                ctx.probe("sample delivered", res is not None)
        elif k == "completed":
            res, failed = do(what, lambda: dev.is_completed, f, who, "is_completed")
            if not failed:
                ctx.check(res == who.done and len(res) == len(who.jobs), "result-changed", lambda: f"{what}: {res}, expected {who.done}")
        elif k == "reset":
            args = (b,) if b % 2 else ()
            kw = {"hard": True} if b % 3 == 0 else {}
            res, failed = do(what, lambda: dev.reset_backend(*args, **kw), f, who, "reset", args, kw)
            if not failed:
                ctx.check(res is who.last, "result-changed", what)
        elif k == "get-circuit":
            res, failed = do(what, lambda: dev.circuit, f, who, "get-circ")
            if not failed:
                ctx.check(res is who.circ_, "result-changed", what)
        elif k == "set-circuit":
            c = circuits[b % len(circuits)]
            do(what, lambda: setattr(dev, "circuit", c), f, who, "set-circ", (c,))
        elif k == "state":
            res, failed = do(what, lambda: dev.state, f, who, "state")
            ctx.check(failed or res is who.token, "result-changed", what)
        elif k == "nqubits":
            res, failed = do(what, lambda: dev.n_qubits, f, who, "n_qubits")
            ctx.check(failed or res == 7 + len(who.jobs), "result-changed", what)
        elif k == "iter":
            res, failed = do(what, lambda: iter(dev), f, who, "iter")
            ctx.check(failed or res is who, "result-changed", what)
        elif k == "next":
            res, failed = do(what, lambda: next(dev), f, who, "next")
            ctx.check(failed or res is who.token, "result-changed", what)
        elif k == "net":
            event(who, b, ctx)
        elif k == "open":
            if len(devs) < 8:
                open_(a % len(names), f, what)
        elif k == "open-bad":
            # the plug-in cannot be loaded this time
            e = entries[a % len(entries)]
            exc = EXC[f[0] if f else "import"]("injected")
            e.fault = exc
            n0 = len(net.calls)
            try:
                sut.Device(names[a % len(names)])
            except BaseException as err:  # noqa: B902
                ctx.check(err is exc, "exception-replaced", lambda: f"{what}: {exc!r} became {err!r}")
                ctx.fault("plug-in cannot be loaded")
            else:
                ctx.check(False, "exception-swallowed", what)
            ctx.check(len(net.calls) == n0, "number-of-calls", what)
        elif k == "unknown":
            try:
                sut.Device("no-such-device", 1)
            except ValueError:
                ctx.fault("unknown device name")
            else:
                ctx.check(False, "unknown-device-accepted", what)
        elif k == "local":
            n0 = len(net.calls)
            local.run(circuits[b % len(circuits)])
            raw, _ = local.get_sample()
            ctx.check(sut.bits(raw, 2, "raw") == [0, 1], "local-device", lambda: f"{what}: {raw}")
            ctx.check(local.is_completed is None, "local-device", what)
            ctx.check(len(net.calls) == n0, "number-of-calls", what)
        elif k == "read":
            # what a remote delivers is interpreted like any other result
            n0 = len(net.calls)
            m = code.n_stabgens
            r = np.random.Generator(np.random.PCG64(b))
            raw = r.integers(0, 2, 2 * m + 2)
            er = r.integers(0, 2, code.n_data_qubits).astype(bool) if b % 2 else None
            who.inbox.insert(0, (raw.copy(), None if er is None else er.copy()))
            (raw2, er2), failed = do(what, dev.get_sample, None, who, "get_sample")
            s = pd.MeasurementSample.from_code_and_raw_results(code, raw2, er2, logical_ancilla=True)
            ctx.check(np.asarray(s.syndrome).tolist() == [(raw[1 + m:1 + 2 * m] ^ raw[1:1 + m]).tolist()], "remote-syndrome", what)
            ctx.check(np.asarray(s.logical_op_toggle).tolist() == [raw[0] ^ raw[-1]], "remote-toggle", what)
            ctx.check((s.erased_qubits is None) == (er is None) and (er is None or np.asarray(s.erased_qubits).tolist() == [er.tolist()]), "remote-erasure", what)
        ctx.state(k, f, [(len(w.jobs), sum(w.done), len(w.inbox)) for _, w, _ in devs])
    # nothing but the recorded calls ever happened, every connection was made once
    seen = [c[0] for c in net.calls if c[1] == "init"]
    ctx.check(len(set(map(id, seen))) == len(seen), "reconnected", "a backend was initialised twice")


def event(who, b, ctx):
    """The network delivers, duplicates, reorders or loses results."""
    open_jobs = [j for j, d in enumerate(who.done) if not d]
    kind = b % 5
    if kind in (0, 1) and open_jobs:
        j = open_jobs[b % len(open_jobs)]  # in any order
        who.done[j] = True
        who.inbox.append(([j, b], None))
        if j != open_jobs[0]:
            ctx.fault("network: completed out of order")
    elif kind == 2 and who.inbox:
        who.inbox.append(who.inbox[b % len(who.inbox)])
        ctx.fault("network: delivered twice")
    elif kind == 3 and len(who.inbox) > 1:
        who.inbox.pop(b % len(who.inbox))
        ctx.fault("network: result lost")
    elif kind == 4 and len(who.inbox) > 1:
        who.inbox.reverse()
        ctx.fault("network: results reordered")
