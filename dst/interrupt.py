"""Interruptions at arbitrary executed lines of the library (crash points)."""
from __future__ import annotations

import sys

from . import sut
from .core import Violation

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


class Lines:
    """Counts executed library lines; raises ``exc`` at number ``at`` (if given)."""

    def __init__(self, at=None, exc=None, pkg=None):
        self.at, self.exc = at, exc
        self.n = 0
        self.fired = False
        self.where = None
        self.prefix = pkg or sut.REPO_SRC

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        if event == "line":
            self.n += 1
            if self.at is not None and self.n >= self.at and not self.fired:
                self.fired = True
                self.where = f"{frame.f_code.co_name}"
                sys.settrace(None)
                raise self.exc("injected")
        return self._trace

    def __enter__(self):
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


def count_lines(fn):
    """Number of library lines executed by fn() (exceptions are ignored)."""
    with Lines() as ln:
        try:
            fn()
        except Exception:  # noqa: B902
            pass
    return ln.n


def interrupted(fn, at, exc_name, ctx, what):
    """Run fn, interrupting it at its at-th line; returns (fired, result).

    The interruption must reach the caller unchanged.
    """
    exc = EXC[exc_name]
    ln = Lines(max(1, at), exc)
    res = None
    caught = None
    try:
        with ln:
            res = fn()
    except exc as e:
        caught = e
    except BaseException as e:  # noqa: B902
        if ln.fired:
            raise Violation(
                "interrupt-replaced", f"{what}: {exc_name} in {ln.where} became {type(e).__name__}: {e}"
            )
        raise
    if ln.fired:
        ctx.fault(f"{exc_name} inside {what}")
        if caught is None:
            raise Violation("interrupt-swallowed", f"{what}: {exc_name} in {ln.where} did not reach the caller")
    elif caught is not None:
        raise caught
    return ln.fired, res


class Recorder:
    """Records the sequence of executed library lines."""

    def __init__(self):
        self.seq = []
        self.prefix = sut.REPO_SRC

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        if event == "line":
            self.seq.append((frame.f_code.co_filename, frame.f_lineno))
        return self._trace


def pick_line(fn, how, x, y):
    """Where to interrupt: ``how`` 'uniform' over the execution, or 'line' (uniform over the
    distinct lines that are executed, x selects the line and y the occurrence)."""
    rec = Recorder()
    sys.settrace(rec._trace)
    try:
        fn()
    except Exception:  # noqa: B902
        pass
    finally:
        sys.settrace(None)
    if not rec.seq:
        return 1, 0
    if how == "uniform":
        return 1 + x % len(rec.seq), len(rec.seq)
    where = {}
    for i, ln in enumerate(rec.seq):
        where.setdefault(ln, []).append(i)
    occ = list(where.values())
    o = occ[x % len(occ)]
    return 1 + o[y % len(o)], len(rec.seq)
