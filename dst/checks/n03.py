"""N03: saved error data read back unchanged or the failure is reported."""
import copy
import os
import shutil
import tempfile

import numpy as np

from dst import disk, sut, tables
from dst.core import Invalid
from dst.model import CodeModel
from dst.tables import QK, Names, Tables
from plaquette.errors import ErrorData, generate_empty_qubit_errors_csv

ID = "N03"
CASES = {"quick": 3000, "thorough": 75000}
RULE = (
    "one case = up to 4 ErrorData objects and up to 20 operations: edit, save to one of 3 pairs of files, "
    "load as a new object, merge from files; each I/O operation may meet a disk fault (full disk after any "
    "number of bytes, error on open, read, write or close, short reads and writes, missing directory, path "
    "is a directory, failing allocation); the simulated disk remembers which table each file must hold; "
    "distinct = different event log"
)
STATES = "distinct (operation, fault, columns, number of gate rows) situations"
REAL = ["ErrorData", "pandas CSV reader and writer", "files in a scratch directory"]
STUB = ["open/read/write/close of these files (simulated disk)", "error tables are generated"]
ASSUME = [
    "which channels are switched on is not part of the files",
    "rates survive up to a relative error of 1e-12 (rounding when text is parsed)",
    "a file that was cut off by a failed save may be read as whatever it then contains",
]


def gen(rng, i):
    spec = sut.gen_code(rng, max_rounds=1, small=True, custom=0.1, huge=0.03)
    ops = [["new", rng.choice(["lattice", "frame", "frame", "empty"]), tables.gen_qframe(rng),
            tables.gen_grows(rng) if rng.random() < 0.6 else None, rng.choice(["list", "tuple", "array"])]]
    faulty = rng.random() < 0.75
    for _ in range(rng.choice([2, 5, 10, 20])):
        k = rng.choice(["save"] * 5 + ["load"] * 5 + ["merge", "merge", "set", "add", "gate", "off", "new", "blank"])
        o = rng.randrange(4)
        wf = disk.gen_fault(rng) if faulty and rng.random() < 0.35 else None
        rf = disk.gen_fault(rng, ("open", "read", "read", "short-read")) if faulty and rng.random() < 0.3 else None
        where = rng.choice(["", "", "", "", "", "nodir", "isdir"]) if faulty else ""
        if k == "save":
            ops.append([k, o, rng.randrange(4), wf, where, rng.choice(["q", "g"])])
        elif k == "load":
            gone = rng.choice(["q", "g"]) if faulty and rng.random() < 0.12 else ""
            ops.append([k, rng.randrange(4), rf, rng.choice(["qg", "qg", "q", "g"]), gone, rng.choice(["gone", "isdir"])])
        elif k == "merge":
            ops.append([k, o, rng.randrange(4), rf, rng.choice(["qg", "qg", "q", "g"]), rng.random() < 0.4])
        elif k in ("set", "add"):
            ops.append([k, o, rng.choice(QK), rng.randrange(60), tables.gen_value(rng)])
        elif k == "gate":
            ops.append([k, o, tables.gen_grows(rng, 1)])
        elif k == "off":
            ops.append([k, o, rng.choice("qg"), rng.randrange(5)])
        elif k == "new":
            ops.append([k, rng.choice(["lattice", "frame", "empty"]), tables.gen_qframe(rng),
                        tables.gen_grows(rng) if rng.random() < 0.5 else None, rng.choice(["list", "tuple", "array"])])
        else:
            ops.append([k, rng.randrange(4), rng.sample(QK, rng.randint(1, 5)) + (["fabrication"] if rng.random() < 0.3 else []), wf])
    return dict(code=spec, ops=ops)


def run(case, ctx):
    tmp = tempfile.mkdtemp(prefix="dst-n03.", dir="/tmp")
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        _run(case, ctx, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


class Obj:
    def __init__(self, ed, model):
        self.ed, self.model = ed, model


def _run(case, ctx, tmp):
    sut.set_rng(case["seed"])
    code = sut.build_code(case["code"])
    names = Names(CodeModel(code))
    objs: list = []
    files: dict = {}  # slot -> [qubit table or None, gate rows or None]; None: unknown content
    done: list = []

    def paths(slot):
        if slot == 3:
            return os.path.join(tmp, "qubit_error.csv"), os.path.join(tmp, "gate_error.csv")
        return os.path.join(tmp, f"q{slot}.csv"), os.path.join(tmp, f"g{slot}.csv")

    def verify(o, what):
        tables.check_tables(ctx, o.ed, o.model, what, 1e-12)
        if "fabrication" in o.model.cols:
            t = o.ed.qubit_errors
            got = {int(a): str(b) for a, b in zip(t["qubit_id"], t["fabrication"])}
            want = {q: r["fabrication"] for q, r in o.model.q.items()}
            ctx.check(got == want, "fabrication-column", lambda: f"{what}: {got}, expected {want}")

    def shot(o):
        return tables.snapshot(o.ed.qubit_errors), tables.snapshot(o.ed.gate_errors), sorted(o.ed.enabled_qubit_errors), sorted(o.ed.enabled_gate_errors)

    def attempt(fn, d, o, what):
        """(result, failed): run fn on the simulated disk."""
        before = shot(o) if o else None
        try:
            with d:
                res = fn()
        except (OSError, MemoryError, ValueError) as e:
            if d.fired is None:
                raise
            ctx.fault("disk " + d.fired)
            ctx.log("failed", type(e).__name__)
            if o:
                after = shot(o)
                ctx.check(after == before, "object-changed-by-failure", lambda: f"{what}: {before} became {after}")
                verify(o, what + " (failed)")
            return None, True
        ctx.check(d.fired is None, "disk-error-swallowed", lambda: f"{what}: {d.fired} was not reported")
        if d.short:
            ctx.fault("disk: short reads or writes", d.short)
        return res, False

    for n, op in enumerate(case["ops"]):
        k = op[0]
        ctx.steps += 1
        ctx.log(n, op)
        what = f"{case['code']['fam']} after {done} then {op}"
        o = objs[op[1] % len(objs)] if objs and k not in ("new", "load", "blank") else None
        if k == "new":
            model = Tables(names)
            if op[1] == "lattice":
                ed = ErrorData.from_lattice(code.lattice)
                model.merge({q: {c: 0.1 for c in "XYZ"} for q in names.all}, list("XYZ"), True)
            elif op[1] == "empty":
                ed = ErrorData()
            else:
                ed = ErrorData(qubit_errors=names.frame(op[2]))
                model.merge(names.rows(op[2]), [*op[2]["cols"], *(["fabrication"] if op[2]["fab"] else [])], True)
            if op[3]:
                gf = names.gate_frame(op[3])
                conv = {"list": list, "tuple": tuple, "array": np.array}[op[4]]
                for c in ("on_qubits", "probs"):
                    gf[c] = [conv(v) for v in gf[c]]
                ed.update(None, gf)
                model.merge_gates(names.gate_rows(op[3]), False)
            if len(objs) < 4:
                objs.append(Obj(ed, model))
            else:
                objs[n % 4] = Obj(ed, model)
            verify(objs[-1], what)
        elif k == "blank":
            slot, cols, fault = op[1:]
            qp = paths(slot)[0]
            d = disk.Disk(tmp, fault)
            _, failed = attempt(lambda: generate_empty_qubit_errors_csv(code.lattice, list(cols), qp), d, None, what)
            f = files.setdefault(slot, [None, None])
            f[0] = None
            if not failed:
                m = Tables(names)
                m.merge({q: {c: m.default(c) for c in cols} for q in names.all}, list(cols), True)
                f[0] = (m.q, m.cols)
        elif k == "load":
            slot, fault, which, gone, how = op[1:]
            f = files.get(slot)
            if gone and gone in which:
                if f is None or any(f["qg".index(w)] is None for w in which):
                    which = gone
                miss = os.path.join(tmp, "missing.csv") if how == "gone" else tmp
                pq, pg = [miss if w == gone else p for w, p in zip("qg", paths(slot))]
                try:
                    ErrorData.from_csv(pq if "q" in which else None, pg if "g" in which else None)
                except OSError:
                    ctx.fault("disk " + {"gone": "missing file", "isdir": "path is a directory"}[how])
                else:
                    ctx.check(False, "disk-error-swallowed", lambda: f"{what}: {how} was not reported")
                continue
            if f is None or any(f["qg".index(w)] is None for w in which):
                continue
            qp, gp = paths(slot)
            d = disk.Disk(tmp, fault)
            ed, failed = attempt(lambda: ErrorData.from_csv(qp if "q" in which else None, gp if "g" in which else None), d, None, what)
            if not failed:
                model = Tables(names)
                if "q" in which:
                    model.q, model.cols = copy.deepcopy(f[0])
                    model.on_q = set(model.cols)
                if "g" in which:
                    model.merge_gates(f[1], True)
                new = Obj(ed, model)
                verify(new, what)
                if len(objs) < 4:
                    objs.append(new)
                else:
                    objs[n % 4] = new
                ctx.probe("saved and loaded")
        elif o is None:
            continue
        elif k == "save":
            slot, fault, where, part = op[2:]
            qp, gp = paths(slot)
            if where and slot != 3:
                bad = os.path.join(tmp, "missing", "x.csv") if where == "nodir" else tmp
                if part == "q":
                    qp = bad
                else:
                    gp = bad
                before = shot(o)
                try:
                    o.ed.save_to_csv(qp, gp)
                except OSError:
                    ctx.fault("disk " + {"nodir": "missing directory", "isdir": "path is a directory"}[where])
                else:
                    ctx.check(False, "disk-error-swallowed", lambda: f"{what}: {where} was not reported")
                ctx.check(shot(o) == before, "object-changed-by-failure", what)
                verify(o, what)
                files[slot] = [None, None]
                done.append((k, where))
                continue
            d = disk.Disk(tmp, fault)
            args = (qp, gp) if slot != 3 else ()
            before = shot(o)
            _, failed = attempt(lambda: o.ed.save_to_csv(*args), d, o, what)
            files[slot] = [None, None]
            if not failed:
                ctx.check(shot(o) == before, "object-changed-by-saving", what)
                files[slot] = [(copy.deepcopy(o.model.q), list(o.model.cols)), list(o.model.g)]
        elif k == "merge":
            slot, fault, which, over = op[2:]
            f = files.get(slot)
            if f is None or any(f["qg".index(w)] is None for w in which):
                continue
            if "q" in which and not f[0][0]:
                continue  # an empty table
            if "g" in which and not f[1]:
                continue
            qp, gp = paths(slot)
            d = disk.Disk(tmp, fault)
            _, failed = attempt(
                lambda: o.ed.update_from_csv(qp if "q" in which else None, gp if "g" in which else None, overwrite=over), d, o, what)
            if not failed:
                if "q" in which:
                    o.model.merge(copy.deepcopy(f[0][0]), f[0][1], over)
                if "g" in which:
                    o.model.merge_gates(f[1], over)
        elif k in ("set", "add"):
            if not o.model.q or (op[2] in o.model.cols) != (k == "set"):
                continue
            q = sorted(o.model.q)[op[3] % len(o.model.q)]
            if k == "set":
                o.ed.update_qubit_error(q, op[2], float(op[4]))
            else:
                o.ed.add_qubit_error([q], op[2], [op[4]])
                o.model.add_column(op[2])
                o.model.on_q.add(op[2])
            o.model.q[q][op[2]] = op[4]
        elif k == "gate":
            for g, on, errs, ps in names.gate_rows(op[2]):
                o.ed.add_gate_error(g, list(on), list(errs), list(ps))
                o.model.g = o.model.g + [(g, on, errs, ps)]
                o.model.on_g.add(g)
        elif k == "off":
            a = sorted(o.model.on_q if op[2] == "q" else o.model.on_g)
            if not a:
                continue
            c = a[op[3] % len(a)]
            (o.ed.enabled_qubit_errors if op[2] == "q" else o.ed.enabled_gate_errors).discard(c)
            (o.model.on_q if op[2] == "q" else o.model.on_g).discard(c)
        if o is not None:
            verify(o, what)
        done.append(k)
        ctx.state(k, str(op[2:4])[:40] if k in ("save", "load", "merge") else "", [(sorted(x.model.cols), len(x.model.g)) for x in objs])
    if not objs:
        raise Invalid("no object")
