"""N02: error data keep exactly what was entered."""
import copy
import os
import shutil
import tempfile

import numpy as np

from dst import sut, tables
from dst.core import Invalid
from dst.model import CodeModel
from dst.tables import GK, QK, Names, Tables
from plaquette.errors import ErrorData

ID = "N02"
CASES = {"quick": 2800, "thorough": 60000}
RULE = (
    "one case = code and a history of up to 16 edits on one ErrorData object (add, update, merge and "
    "overwrite from tables and files, add gate errors, switch channels on and off, refused edits, caller "
    "changing returned dictionaries), compared after every edit with a dictionary model; distinct = "
    "different event log"
)
STATES = "distinct (operation, channels present, channels enabled) situations"
REAL = ["ErrorData", "CSV files", "pandas", "check_against_code"]
STUB = ["error tables are generated"]
ASSUME = [
    "qubit ids of one table are distinct, ids passed to add/update exist in the table",
    "a table merged without a cell (NaN) does not mention it",
]


def gen(rng, i):
    spec = sut.gen_code(rng, max_rounds=1, small=True, custom=0.15, huge=0.03)
    start = rng.choice(["lattice", "lattice", "frame", "frame", "csv", "empty"])
    ops = []
    for _ in range(rng.choice([1, 3, 6, 10, 16])):
        k = rng.choice(["add", "add", "set", "set", "set-list", "set-list", "gate", "gate", "gate", "merge", "merge", "merge",
                        "csv", "csv", "toggle", "toggle", "refused", "refused", "scribble"])
        if k in ("add", "set-list"):
            ids = [rng.randrange(60) for _ in range(rng.choice([1, 2, 5, 20]))]
            ops.append([k, rng.choice(QK), ids, [tables.gen_value(rng) for _ in ids], rng.random() < 0.5])
        elif k == "set":
            ops.append([k, rng.choice(QK), rng.randrange(60), tables.gen_value(rng)])
        elif k == "gate":
            ops.append([k, tables.gen_grows(rng, 1)])
        elif k in ("merge", "csv"):
            what = rng.choice(["q", "g", "qg"])
            q = tables.gen_qframe(rng, nan=rng.choice([0.0, 0.0, 0.3])) if "q" in what else None
            g = tables.gen_grows(rng) if "g" in what else None
            ops.append([k, q, g, rng.random() < 0.25])
        elif k == "toggle":
            grp = rng.choice("qg")
            ops.append([k, grp, rng.choice(QK if grp == "q" else GK), rng.random() < 0.5])
        elif k == "refused":
            ops.append([k, rng.choice(["exists", "column", "length", "types", "fab-add", "fab-set", "file-q", "file-g", "file-bad"]),
                        rng.choice(QK), rng.randrange(60)])
        else:
            ops.append([k])
    return dict(code=spec, start=start, frame=tables.gen_qframe(rng), grows=tables.gen_grows(rng),
                with_gates=rng.random() < 0.5, ops=ops,
                misfit=[rng.choice(MISFITS), rng.randrange(1000), rng.randrange(1000)] if rng.random() < 0.5 else None)


def run(case, ctx):
    tmp = tempfile.mkdtemp(prefix="dst-n02.", dir="/tmp")
    try:
        _run(case, ctx, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def write(tmp, names, q, g, k):
    qp = gp = None
    if q is not None:
        qp = os.path.join(tmp, f"q{k}.csv")
        names.frame(q).to_csv(qp, index=False)
    if g is not None:
        gp = os.path.join(tmp, f"g{k}.csv")
        with open(gp, "w") as f:
            f.write("gate,on_qubits,induced_errors,probs\n")
            for gate, on, errs, ps in names.gate_rows(g):
                f.write(f"{gate},{'|'.join(map(str, on))},{'|'.join(errs)},{'|'.join(repr(float(p)) for p in ps)}\n")
    return qp, gp


def _run(case, ctx, tmp):
    sut.set_rng(case["seed"])
    code = sut.build_code(case["code"])
    names = Names(CodeModel(code))
    model = Tables(names)
    kept = []  # (table of the caller, what it looked like)

    def keep(df):
        kept.append((df, tables.snapshot(df)))
        return df

    start = case["start"]
    tol = 0.0
    if start == "lattice":
        ed = ErrorData.from_lattice(code.lattice)
        model.merge({q: {c: 0.1 for c in "XYZ"} for q in names.all}, list("XYZ"), True)
    elif start == "empty":
        ed = ErrorData()
    else:
        fr, g = case["frame"], case["grows"] if case["with_gates"] else None
        if start == "frame":
            kw = {"gate_errors": keep(names.gate_frame(g))} if g else {}
            ed = ErrorData(qubit_errors=keep(names.frame(fr)), **kw)
        else:
            ed = ErrorData.from_csv(*write(tmp, names, fr, g, "s"))
            tol = 1e-12
        rows = names.rows(fr)
        model.merge(rows, cols_of(fr), True)
        if g:
            model.merge_gates(names.gate_rows(g), True)
    tables.check_tables(ctx, ed, model, f"start {start}", tol)
    done = [start]
    for n, op in enumerate(case["ops"]):
        k = op[0]
        ctx.steps += 1
        ctx.log(n, op)
        what = f"{case['code']['fam']} after {done} then {op}"
        if k in ("add", "set", "set-list"):
            if not model.q:
                continue
            col = op[1]
            qs = sorted(model.q)
            ids = [qs[a % len(qs)] for a in (op[2] if isinstance(op[2], list) else [op[2]])]
            vals = op[3] if isinstance(op[3], list) else [op[3]]
            if len(ids) != len(vals):
                raise Invalid("lengths")
            exists = col in model.cols
            if (k == "add") == exists:
                try:
                    if k == "add":
                        ed.add_qubit_error(ids, col, vals)
                    else:
                        ed.update_qubit_error(ids, col, vals)
                except ValueError:
                    ctx.fault("refused edit: column " + ("exists" if exists else "does not exist"))
                else:
                    ctx.check(False, "edit-accepted", what)
            elif k == "add":
                ed.add_qubit_error(np.array(ids) if op[4] else ids, col, np.array(vals, dtype=float) if op[4] else vals)
                model.add_column(col)
                model.on_q.add(col)
            elif k == "set":
                ed.update_qubit_error(ids[0], col, float(vals[0]))
            else:
                ed.update_qubit_error(ids, col, np.array(vals, dtype=float) if op[4] else vals)
            if not ((k == "add") == exists):
                for q, v in zip(ids, vals):
                    model.q[q][col] = v
        elif k == "gate":
            for g, on, errs, ps in names.gate_rows(op[1]):
                ed.add_gate_error(g, list(on), list(errs), list(ps))
                model.g = model.g + [(g, on, errs, ps)]
                model.on_g.add(g)
        elif k in ("merge", "csv"):
            q, g, over = op[1:]
            if q is not None:
                rows = names.rows(q)
                if over or not model.q:
                    # a new table must be complete
                    q = dict(q, rows=[[a, [0.25 if v is None else v for v in vals]] for a, vals in q["rows"]])
                    rows = names.rows(q)
            if k == "merge":
                dq = keep(names.frame(q)) if q is not None else None
                dg = keep(names.gate_frame(g)) if g is not None and g else None
                if g is not None and not g:
                    g = None
                ed.update(dq, dg, over)
            else:
                if g is not None and not g:
                    g = None
                ed.update_from_csv(*write(tmp, names, q, g, n), overwrite=over)
                tol = 1e-12
            if q is not None:
                model.merge(rows, cols_of(q), over)
            if g is not None:
                model.merge_gates(names.gate_rows(g), over)
            if over:
                ctx.probe("tables replaced")
        elif k == "toggle":
            on_set, mine, have = (
                (ed.enabled_qubit_errors, model.on_q, set(model.cols)) if op[1] == "q"
                else (ed.enabled_gate_errors, model.on_g, {r[0] for r in model.g})
            )
            if op[2] not in have:
                continue
            (on_set.add if op[3] else on_set.discard)(op[2])
            (mine.add if op[3] else mine.discard)(op[2])
            ctx.probe("channel switched")
        elif k == "refused":
            if not refused(op, ed, model, names, tmp, n, ctx, what):
                continue
        elif k == "scribble":
            for d in (ed.qubit_errors_dict, ed.gate_errors_dict, ed.error_data_dict):
                for t in d.values():
                    for r in t.values():
                        for a in list(r):
                            r[a] = 0.77
                    t.clear()
                d.clear()
            ctx.fault("caller changed a returned dictionary")
        done.append(k)
        tables.check_tables(ctx, ed, model, what, tol)
        ctx.state(k, sorted(model.cols), sorted(model.on_q), sorted({r[0] for r in model.g}), sorted(model.on_g))
        for df, s in kept:
            ctx.check(tables.snapshot(df) == s, "caller-table-changed", lambda: f"{what}: {s} became {tables.snapshot(df)}")
    ed.check_against_code(code)
    if case.get("misfit"):
        misfit(case["misfit"], ed, code, CodeModel(code), ctx)


def misfit(pick, ed, code, m, ctx):
    """Tables which do not fit the code are refused by everything they are handed to."""
    how, a, b = pick
    full = copy.deepcopy(ed.error_data_dict)
    data, anc = m.data_ids[a % m.n], m.anc_ids[b % m.m]
    edges = [(m.anc_ids[i], m.data_ids[q]) for i in range(m.m) for q in range(m.n) if (m.stabs[i][0] | m.stabs[i][1]) >> q & 1]
    edge = edges[a % len(edges)]
    name, key, row = {
        "name": (["bitflip", "Pauli", "CY"][b % 3], data, {"p": 0.1}),
        "pauli on ancilla": ("pauli", anc, {"x": 0.1}),
        "erasure on ancilla": ("erasure", anc, {"p": 0.1}),
        "measurement on data": ("measurement", data, {"p": 0.1}),
        "no such qubit": (["pauli", "erasure", "measurement"][b % 3], [-1, 10**6][a % 2], {"x" if b % 3 == 0 else "p": 0.1}),
        "qubit channel": (["pauli", "erasure", "measurement"][b % 3], anc if b % 3 == 2 else data, {["p", "x", "X"][b % 3]: 0.1}),
        "gate reversed": (["CX", "CZ"][b % 2], edge[::-1], {"xx": 0.1}),
        "gate on data": (["H", "R", "M"][b % 3], data, {"x": 0.1}),
        "gate channel": (["CX", "H", "R", "M"][b % 4], edge if b % 4 == 0 else anc, {"x" if b % 4 == 0 else "xx": 0.1}),
        "gate width": (["CX", "CZ"][b % 2], (edge[0],), {"xx": 0.1}),
    }[how]
    full.setdefault(name, {})[key] = row
    ctx.fault("table which does not fit")
    try:
        ErrorData().check_against_code(code, full)
    except ValueError:
        pass
    else:
        ctx.check(False, "misfit-accepted", f"{how}: {name} {key} {row} accepted by check_against_code")
    try:
        sut.decoders.UnionFindDecoder.from_code(code, copy.deepcopy(full))
    except ValueError:
        pass
    else:
        ctx.check(False, "misfit-accepted", f"{how}: {name} {key} {row} accepted for decoding")
    groups = [{}, {}]
    groups[name in GK or (how == "name" and b % 2)][name] = {key: row}
    try:
        sut.generate_qec_circuit(code, *groups, "Z")
    except (KeyError, ValueError):
        pass
    else:
        ctx.check(False, "misfit-accepted", f"{how}: {name} {key} {row} accepted by the circuit generator")


MISFITS = ["name", "name", "pauli on ancilla", "erasure on ancilla", "measurement on data", "no such qubit", "qubit channel",
           "gate reversed", "gate on data", "gate channel", "gate width"]


def cols_of(fr):
    return [*fr["cols"], *(["fabrication"] if fr["fab"] else [])]


def refused(op, ed, model, names, tmp, n, ctx, what):
    _, how, col, a = op
    if how.startswith("file"):
        bad = os.path.join(tmp, f"bad{n}.csv")
        good_q, good_g = write(tmp, names, dict(cols=["X"], rows=[[0, [0.9]]], fab=False, types=True, index=False),
                               [["H", [0], ["X"], [0.9]]], f"r{n}")
        if how == "file-bad":
            with open(bad, "w") as f:
                f.write("gate,on_qubits,induced_errors,probs\nH,0,X,abc\n")
        args = (bad, good_g) if how == "file-q" else (good_q, bad)
        call = lambda: ed.update_from_csv(*args, overwrite=bool(a % 2))  # noqa: E731
        exc = (ValueError, FileNotFoundError)
    else:
        if not model.q:
            return False
        q = sorted(model.q)[a % len(model.q)]
        exc = (ValueError, TypeError)
        have = col in model.cols
        if how == "exists" and have:
            call = lambda: ed.add_qubit_error([q], col, [0.5])  # noqa: E731
        elif how == "column" and not have:
            call = lambda: ed.update_qubit_error(q, col, 0.5)  # noqa: E731
        elif how == "length" and have:
            call = lambda: ed.update_qubit_error([q, q], col, [0.5])  # noqa: E731
        elif how == "types" and have:
            call = lambda: ed.update_qubit_error(q, col, [0.5])  # noqa: E731
        elif how == "fab-add":
            call = lambda: ed.add_qubit_error([q], "fabrication", [0.5])  # noqa: E731
        elif how == "fab-set":
            call = lambda: ed.update_qubit_error([q], "fabrication", [0.5])  # noqa: E731
        else:
            return False
    try:
        call()
    except exc:
        ctx.fault("refused edit: " + how)
        return True
    ctx.check(False, "edit-accepted", what)
