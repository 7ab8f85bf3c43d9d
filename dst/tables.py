"""A dictionary model of error tables, and generators for tables and edits."""
from __future__ import annotations

import math

from . import sut
from .core import Invalid
from .faults import P2, edges_of

QK = ["X", "Y", "Z", "erasure", "measurement"]
GK = ["H", "R", "M", "CX", "CZ"]
VALS = [0.0, 1e-9, 0.003, 0.01, 0.1, 0.125, 1 / 3, 0.5, 0.99, 1.0]


def gen_value(rng):
    return rng.choice(VALS) if rng.random() < 0.7 else rng.random()


def gen_qframe(rng, types=True, nan=0.0):
    """Rows are [abstract qubit, [values]]; cols are names."""
    cols = [c for c in QK if rng.random() < 0.6] or ["X"]
    rng.shuffle(cols)
    rows = []
    for _ in range(rng.choice([1, 2, 5, 12, 40])):
        rows.append([rng.randrange(60), [None if rng.random() < nan else gen_value(rng) for _ in cols]])
    return dict(cols=cols, rows=rows, fab=rng.random() < 0.15, types=types, index=rng.random() < 0.3)


def gen_grows(rng, n=None):
    rows = []
    for _ in range(n if n is not None else rng.choice([1, 1, 2, 4, 8])):
        g = rng.choice(GK)
        errs = rng.sample([p.upper() for p in P2] if g in ("CX", "CZ") else list("XYZ"), rng.choice([1, 1, 2, 3]))
        rows.append([g, [rng.randrange(200) for _ in range(rng.randint(1, 4))], errs, [gen_value(rng) for _ in errs]])
    return rows


class Names:
    """Concrete qubits and couplings of a code."""

    def __init__(self, model):
        self.data, self.anc = list(model.data_ids), list(model.anc_ids)
        self.all = self.data + self.anc
        self.pairs = [(model.anc_ids[i], model.data_ids[q]) for i, q, _ in edges_of(model)]

    def type(self, q):
        return "data" if q in self.data else "stab"

    def rows(self, frame):
        """{qubit: {column: value}}, None values are missing cells."""
        if not frame["cols"] or not frame["rows"]:
            raise Invalid("empty frame")
        out = {}
        for a, vals in frame["rows"]:
            if len(vals) != len(frame["cols"]):
                raise Invalid("row")
            q = self.all[a % len(self.all)]
            out[q] = dict(zip(frame["cols"], vals))
            if frame["fab"]:
                out[q]["fabrication"] = "missing" if a % 7 == 0 else "available"
        return out

    def frame(self, frame, types=None):
        """The table as a pandas frame."""
        import pandas as pd

        rows = self.rows(frame)
        d = {"qubit_id": list(rows)}
        if frame["types"] if types is None else types:
            d["qubit_type"] = [self.type(q) for q in rows]
        for c in [*frame["cols"], *(["fabrication"] if frame["fab"] else [])]:
            d[c] = [math.nan if r[c] is None else r[c] for r in rows.values()]
        df = pd.DataFrame(d)
        if frame["index"]:
            df.index = range(100, 100 + len(df))
        return df

    def gate_rows(self, grows):
        out = []
        for g, qs, errs, ps in grows:
            if not qs or not errs or len(errs) != len(ps) or g not in GK:
                raise Invalid("gate row")
            if g in ("CX", "CZ"):
                on = [x for a in qs for x in self.pairs[a % len(self.pairs)]]
            else:
                on = [self.anc[a % len(self.anc)] for a in qs]
            out.append((g, on, list(errs), list(ps)))
        return out

    def gate_frame(self, grows):
        import pandas as pd

        rows = self.gate_rows(grows)
        return pd.DataFrame(
            {
                "gate": [r[0] for r in rows], "on_qubits": [list(r[1]) for r in rows],
                "induced_errors": [list(r[2]) for r in rows], "probs": [list(r[3]) for r in rows],
            }
        )


class Tables:
    """What the error data must contain."""

    def __init__(self, names):
        self.names = names
        self.q: dict = {}  # qubit -> {column: value}
        self.cols: list = []
        self.g: list = []
        self.on_q: set = set()
        self.on_g: set = set()

    def default(self, col):
        return "available" if col == "fabrication" else 0.0

    def add_column(self, col):
        if col not in self.cols:
            self.cols.append(col)
            for r in self.q.values():
                r[col] = self.default(col)

    def merge(self, rows, cols, overwrite):
        if overwrite or not self.q:
            self.q, self.cols = {}, []
        for c in cols:
            self.add_column(c)
        for q, r in rows.items():
            if q not in self.q:
                self.q[q] = {c: self.default(c) for c in self.cols}
            for c, v in r.items():
                if v is not None:
                    self.q[q][c] = v
        self.on_q = set(self.cols)

    def merge_gates(self, rows, overwrite):
        self.g = list(rows) if overwrite else self.g + list(rows)
        self.on_g = {r[0] for r in self.g}

    def qubit_dict(self):
        out: dict = {}
        for c in sorted(self.on_q):
            if c in ("X", "Y", "Z"):
                t = out.setdefault("pauli", {q: {} for q in self.q if self.names.type(q) == "data"})
                for q in t:
                    t[q][c.lower()] = float(self.q[q][c])
            elif c in ("erasure", "measurement"):
                want = "data" if c == "erasure" else "stab"
                out[c] = {q: {"p": float(self.q[q][c])} for q in self.q if self.names.type(q) == want}
        return out

    def gate_dict(self):
        out: dict = {}
        for g, on, errs, ps in self.g:
            if g not in self.on_g:
                continue
            t = out.setdefault(g, {})
            keys = zip(on[::2], on[1::2]) if g in ("CX", "CZ") else on
            for k in keys:
                t[k] = {e.lower(): float(p) for e, p in zip(errs, ps)}
        return out


def plain(d):
    """A library dictionary with plain keys and numbers."""
    out = {}
    for name, t in d.items():
        out[str(name)] = {
            (tuple(int(x) for x in k) if isinstance(k, tuple) else int(k)): {str(a): float(b) for a, b in r.items()}
            for k, r in t.items()
        }
    return out


def difference(got, want, tol=0.0):
    """Human-readable first difference of two dictionaries of dictionaries (None: equal)."""
    if set(got) != set(want):
        return f"channels {sorted(got)}, expected {sorted(want)}"
    for n in sorted(want):
        if set(got[n]) != set(want[n]):
            return (f"{n}: entries {sorted(set(got[n]) - set(want[n]), key=str)[:4]} unexpected, "
                    f"{sorted(set(want[n]) - set(got[n]), key=str)[:4]} missing")
        for k, r in want[n].items():
            h = got[n][k]
            if set(h) != set(r):
                return f"{n} {k}: {h}, expected {r}"
            for a, v in r.items():
                if not abs(h[a] - v) <= tol * max(abs(v), abs(h[a])):
                    return f"{n} {k}: {h}, expected {r}"
    return None


def check_tables(ctx, ed, model, what, tol=0.0):
    q, g = plain(ed.qubit_errors_dict), plain(ed.gate_errors_dict)
    wq, wg = model.qubit_dict(), model.gate_dict()
    d = difference(q, wq, tol)
    ctx.check(d is None, "qubit-errors", lambda: f"{what}: {d}")
    d = difference(g, wg, tol)
    ctx.check(d is None, "gate-errors", lambda: f"{what}: {d}")
    full = plain(ed.error_data_dict)
    d = difference(full, {**wq, **wg}, tol)
    ctx.check(d is None, "error-data-dict", lambda: f"{what}: {d}")
    ctx.log(sorted(wq.items()), sorted(wg.items(), key=str))


def snapshot(df):
    """Everything visible of a frame, for comparison."""
    return repr([list(df.columns), list(df.index), [[repr(v) for v in df[c]] for c in df.columns], [str(t) for t in df.dtypes]])
