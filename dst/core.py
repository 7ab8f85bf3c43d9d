"""Deterministic-simulation core: seeded cases, isolated execution, shrinking, replay.

A *case* is a JSON document which fixes everything a simulated run depends on: the
configuration, the operation history, every injected fault, every scheduling decision
and the seed of the random source.  Running a case is a pure function of the case and
of the code in /repo.  Each case runs in its own forked process, so cases share nothing
(but some cases contain an earlier run, see make_case).
"""
from __future__ import annotations

import hashlib
import json
import os
import random
import resource
import select
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("DST_REPO_SRC", "/repo/src")
CPU_LIMIT = 60  # seconds of CPU time per simulated run; typical runs need < 2
WALL_LIMIT = 400
MEM_LIMIT = 6 << 30


class Violation(Exception):
    """The property is broken in this run."""

    def __init__(self, kind: str, msg: str):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg = kind, msg


class Invalid(Exception):
    """The case is not a meaningful case (arises only while shrinking)."""


class Ctx:
    """Per-run log, counters and coverage."""

    def __init__(self):
        self.h = hashlib.sha256()
        self.faults: dict[str, int] = {}
        self.probes: dict[str, int] = {}
        self.states: set[str] = set()
        self.steps = 0  # simulated operations / gates / scheduling decisions
        self.rounds = 0  # simulated QEC rounds ("simulated time")

    def log(self, *items):
        self.h.update(repr(items).encode())

    def fault(self, kind: str, n: int = 1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + int(n)

    def probe(self, name: str, n: int = 1):
        if n:
            self.probes[name] = self.probes.get(name, 0) + int(n)

    def state(self, *items):
        if len(self.states) < 400:
            self.states.add(hashlib.sha1(repr(items).encode()).hexdigest()[:12])

    def check(self, cond, kind: str, msg=""):
        if not cond:
            raise Violation(kind, msg() if callable(msg) else str(msg))


def case_seed(*parts) -> int:
    return int.from_bytes(
        hashlib.sha256(":".join(map(str, parts)).encode()).digest()[:8], "big"
    )


def make_case(check, seed: int, index: int) -> dict:
    rng = random.Random(case_seed(seed, check.ID, index))
    case = check.gen(rng, index)
    case.setdefault("seed", rng.getrandbits(48))
    # Some runs follow an earlier one in the same process, often on a code which is
    # much like the first: whatever a library remembers of that must not matter.
    r2 = random.Random(case_seed(seed, check.ID, index, "before"))
    if r2.random() < getattr(check, "BEFORE", 0.12):
        from . import sut

        with sut.similar_codes(r2, case.get("code")):
            before = check.gen(r2, r2.randrange(1 << 20))
        before.setdefault("seed", r2.getrandbits(48))
        case["before"] = before
    return json.loads(json.dumps(case))


# ------------------------------------------------------------------ execution
def _in_repo(tb) -> bool:
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO_SRC):
            return True
        tb = tb.tb_next
    return False


def _where(exc) -> str:
    out = []
    for fr in traceback.extract_tb(exc.__traceback__):
        out.append(f"{os.path.basename(fr.filename)}:{fr.name}")
    return " < ".join(reversed(out[-6:]))


def _chain_in_repo(exc) -> bool:
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        if _in_repo(exc.__traceback__):
            return True
        exc = exc.__cause__ or exc.__context__
    return False


def execute_here(check, case: dict) -> dict:
    """Run one case in this process and describe the outcome."""
    ctx = Ctx()
    out: dict = {}
    try:
        case = json.loads(json.dumps(case))
        before = case.pop("before", None)
        if before is not None:
            first = Ctx()
            check.run(before, first)
            ctx.log(first.h.hexdigest())
            ctx.probe("runs after an earlier run in the same process")
        check.run(case, ctx)
        out["status"] = "ok"
    except Invalid as e:
        out.update(status="invalid", msg=str(e))
    except Violation as e:
        out.update(status="violation", kind=e.kind, msg=e.msg[:2000])
    except BaseException as e:  # noqa: B902
        sys.settrace(None)
        name = type(e).__name__
        detail = f"{name}: {e} [{_where(e)}]"[:2000]
        if _chain_in_repo(e):
            out.update(status="violation", kind=f"exception:{name}", msg=detail)
        elif isinstance(
            e, (TypeError, ValueError, IndexError, KeyError, AttributeError, AssertionError)
        ):
            # the harness could not interpret what the library returned
            out.update(status="violation", kind=f"malformed-result:{name}", msg=detail)
        else:
            out.update(status="harness", msg=detail)
    sys.settrace(None)
    out.update(
        digest=ctx.h.hexdigest()[:24],
        faults=ctx.faults,
        probes=ctx.probes,
        states=sorted(ctx.states),
        steps=ctx.steps,
        rounds=ctx.rounds,
    )
    return out


def _child(check, case, wfd):
    code = 0
    try:
        for s in (signal.SIGINT, signal.SIGTERM):
            signal.signal(s, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        null = os.open(os.devnull, os.O_RDWR)
        os.dup2(null, 0)
        os.dup2(null, 1)
        if not os.environ.get("DST_DEBUG"):
            os.dup2(null, 2)
        import numpy as np

        h = case_seed(json.dumps(case, sort_keys=True))
        random.seed(h)
        np.random.seed(h % 2**32)
        out = execute_here(check, case)
        data = json.dumps(out).encode()
    except BaseException as e:  # noqa: B902
        data = json.dumps(
            {"status": "harness", "msg": f"child: {type(e).__name__}: {e} {_where(e)}"}
        ).encode()
        code = 3
    try:
        off = 0
        while off < len(data):
            off += os.write(wfd, data[off : off + 65536])
    finally:
        os._exit(code)


class Slot:
    def __init__(self, check, key, case):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            _child(check, case, w)
        os.close(w)
        self.pid, self.fd, self.key, self.case = pid, r, key, case
        self.buf = b""
        self.t0 = time.monotonic()

    def finish(self) -> dict:
        os.close(self.fd)
        _, st = os.waitpid(self.pid, 0)
        if os.WIFSIGNALED(st):
            sig = os.WTERMSIG(st)
            if sig == signal.SIGXCPU or (sig == signal.SIGKILL and self._cpu_dead()):
                return dict(
                    status="violation",
                    kind="no-progress",
                    msg=f"run did not finish within {CPU_LIMIT} s of CPU time",
                )
            if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS):
                return dict(
                    status="violation",
                    kind=f"crash:{signal.Signals(sig).name}",
                    msg="the process died",
                )
            return dict(status="harness", msg=f"run killed by signal {sig}")
        try:
            return json.loads(self.buf.decode())
        except ValueError:
            return dict(status="harness", msg=f"no result (status {st})")

    def _cpu_dead(self):
        return False

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.close(self.fd)
        os.waitpid(self.pid, 0)


def _fill(o: dict) -> dict:
    for k, v in (("digest", ""), ("faults", {}), ("probes", {}), ("states", []),
                 ("steps", 0), ("rounds", 0)):
        o.setdefault(k, v)
    return o


def run_many(check, cases, jobs: int, on_result, stop=lambda: False):
    """Run (key, case) pairs; call on_result(key, case, outcome) as they finish."""
    it = iter(cases)
    live: dict[int, Slot] = {}
    exhausted = False
    while True:
        while not exhausted and len(live) < jobs and not stop():
            try:
                key, case = next(it)
            except StopIteration:
                exhausted = True
                break
            s = Slot(check, key, case)
            live[s.fd] = s
        if not live:
            if exhausted or stop():
                return
            continue
        ready, _, _ = select.select(list(live), [], [], 1.0)
        now = time.monotonic()
        for fd in ready:
            s = live[fd]
            chunk = os.read(fd, 1 << 16)
            if chunk:
                s.buf += chunk
                continue
            del live[fd]
            on_result(s.key, s.case, _fill(s.finish()))
        for fd, s in list(live.items()):
            if now - s.t0 > WALL_LIMIT:
                del live[fd]
                s.kill()
                on_result(
                    s.key, s.case, _fill(dict(status="harness", msg="wall-clock limit"))
                )


def run_one(check, case) -> dict:
    res = []
    run_many(check, [(0, case)], 1, lambda k, c, o: res.append(o))
    return res[0]


# ------------------------------------------------------------------ shrinking
def _paths(x, path=()):
    yield path, x
    if isinstance(x, dict):
        for k in sorted(x):
            yield from _paths(x[k], path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from _paths(v, path + (i,))


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def _with(case, path, value):
    c = json.loads(json.dumps(case))
    if not path:
        return value
    _get(c, path[:-1])[path[-1]] = value
    return c


def candidates(case, frozen=()):
    """Simpler variants of a case, biggest reductions first."""
    if "before" in case:
        yield {k: v for k, v in case.items() if k != "before"}

    def is_frozen(p):
        p = p[1:] if p and p[0] == "before" else p
        return bool(p) and p[0] in frozen

    lists = [
        (p, v)
        for p, v in _paths(case)
        if isinstance(v, list) and v and not is_frozen(p)
    ]
    lists.sort(key=lambda pv: -len(json.dumps(pv[1])))
    for frac in (2, 4, 8):
        for p, v in lists:
            n = len(v)
            step = n // frac
            if step < 2 and not (frac == 2 and n == 1):
                continue
            step = max(step, 1)
            for i in range(0, n, step):
                yield _with(case, p, v[:i] + v[i + step :])
    for p, v in lists:
        if len(v) <= 40:
            for i in range(len(v) - 1, -1, -1):
                yield _with(case, p, v[:i] + v[i + 1 :])
    for p, v in _paths(case):
        if is_frozen(p) or (p and p[-1] == "seed"):
            continue
        if isinstance(v, bool):
            if v:
                yield _with(case, p, False)
        elif isinstance(v, int):
            for t in (0, 1, 2, v // 2, v - 1):
                if 0 <= t < v:
                    yield _with(case, p, t)
        elif v is not None and isinstance(p[-1] if p else None, str) and isinstance(v, (dict,)):
            if v:
                pass
    if case.get("seed"):
        for t in (0, 1, 2, 3):
            if t < case["seed"]:
                yield _with(case, ("seed",), t)


def size_of(case):
    s = json.dumps(case, sort_keys=True)
    return (len(s), s)


def shrink(check, case, kind, budget_s=60.0, max_runs=1500, jobs=8):
    t0 = time.monotonic()
    frozen = getattr(check, "FROZEN", ())
    runs = 0
    cur = case
    seen = {json.dumps(case, sort_keys=True)}
    improved = True
    msg = None
    while improved and time.monotonic() - t0 < budget_s and runs < max_runs:
        improved = False
        gen = candidates(cur, frozen)
        done = False
        while not done:
            batch = []
            while len(batch) < jobs * 2:
                try:
                    c = next(gen)
                except StopIteration:
                    done = True
                    break
                key = json.dumps(c, sort_keys=True)
                if key in seen or size_of(c) >= size_of(cur):
                    continue
                seen.add(key)
                batch.append(c)
            if not batch:
                break
            results = {}
            run_many(
                check,
                list(enumerate(batch)),
                jobs,
                lambda k, c, o: results.__setitem__(k, o),
            )
            runs += len(batch)
            for k in range(len(batch)):
                o = results[k]
                if o["status"] == "violation" and o["kind"] == kind:
                    cur, msg, improved = batch[k], o["msg"], True
                    break
            if improved or time.monotonic() - t0 > budget_s or runs > max_runs:
                break
    return cur, msg, runs
