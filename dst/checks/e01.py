"""E01: a dumped experiment configuration is the same configuration."""
import copy
import csv
import json
import os
import shutil
import tempfile

import numpy as np
import toml

from dst import disk, exper, sut
from dst.core import Invalid
from dst.exper import GK, QK
from plaquette import frontend

ID = "E01"
CASES = {"quick": 700, "thorough": 40000}
RULE = (
    "one case = up to 3 experiment configurations and up to 14 operations: dump as TOML or JSON, load as a "
    "new experiment, update parts, build, run a few shots, caller changing returned dictionaries; dumps and "
    "loads may meet disk faults (full disk after any number of bytes, error on open, read, write, close, "
    "short reads and writes, missing directory, directory in place of the file, failing allocation); a model "
    "of the configuration with the documented defaults is compared after every operation; distinct = "
    "different event log"
)
STATES = "distinct (operation, fault, configuration) situations"
REAL = ["ExperimentConfig and all its parts", "toml and json libraries", "schema validation", "code, error data, circuit, device and decoder built from the configuration"]
STUB = ["open/read/write/close of the files (simulated disk)", "configurations are generated"]
ASSUME = [
    "lists hold numbers of one type (TOML), texts are ASCII",
    "a file that was cut off by a failed dump may be anything",
]


def gen(rng, i):
    faulty = rng.random() < 0.7
    ops = []
    for _ in range(rng.choice([2, 4, 8, 14])):
        k = rng.choice(["dump"] * 5 + ["load"] * 5 + ["update"] * 3 + ["build", "scribble", "new", "bad", "bad"])
        o = rng.randrange(3)
        fmt = rng.choice(["toml", "json"])
        if k == "dump":
            f = disk.gen_fault(rng) if faulty and rng.random() < 0.5 else None
            ops.append([k, o, rng.randrange(2), fmt, f, rng.choice(["", "", "", "", "", "", "", "", "nodir", "isdir"]) if faulty else ""])
        elif k == "load":
            f = disk.gen_fault(rng, ("open", "read", "read", "short-read")) if faulty and rng.random() < 0.4 else None
            ops.append([k, rng.randrange(2), fmt, f])
        elif k == "update":
            ops.append([k, o, gen_update(rng)])
        elif k == "new":
            ops.append([k, exper.gen_config(rng)])
        elif k == "build":
            ops.append([k, o, rng.choice([0, 0, 1, 3])])
        elif k == "bad":
            ops.append([k, o, rng.randrange(len(BAD)), rng.choice(["toml", "json", "toml", "json", "dict", "part"])])
        else:
            ops.append([k, o])
    return dict(first=exper.gen_config(rng), ops=ops)


# (what is wrong, where it is, the wrong value or None to leave it out, ways in which it must be noticed:
# file = when the file is loaded, dict = when read or validated from a dictionary, part = when updated or validated)
BAD = [
    ("no code", ("code",), None, ("file", "dict")),
    ("no errors", ("errors",), None, ("file",)),
    ("no code name", ("code", "name"), None, ("file", "dict")),
    ("no rounds", ("code", "rounds"), None, ("file",)),
    ("unknown code", ("code", "name"), "SurfaceCode", ("file", "dict", "part")),
    ("code name in lower case", ("code", "name"), "planarcode", ("file", "dict", "part")),
    ("no rounds at all", ("code", "rounds"), 0, ("file", "dict", "part")),
    ("negative rounds", ("code", "rounds"), -2, ("file", "dict", "part")),
    ("half a round", ("code", "rounds"), 1.5, ("file", "dict", "part")),
    ("rounds as text", ("code", "rounds"), "2", ("file", "dict", "part")),
    ("unknown device", ("device", "name"), "gpu", ("file", "dict", "part")),
    ("no shots", ("device", "shots"), 0, ("file", "dict", "part")),
    ("negative shots", ("device", "shots"), -1, ("file", "dict", "part")),
    ("too many shots", ("device", "shots"), 1000001, ("file", "dict", "part")),
    ("shots as text", ("device", "shots"), "10", ("file", "dict", "part")),
    ("half a shot", ("device", "shots"), 10.5, ("file", "dict", "part")),
    ("unknown decoder", ("decoder", "name"), "Blossom", ("file", "dict", "part")),
    ("unclear whether weighted", ("decoder", "weighted"), "yes", ("file", "dict", "part")),
    ("unknown logical operator", ("general", "logical_op"), "W", ("file", "dict", "part")),
    ("seed as text", ("general", "seed"), "one", ("file",)),
    ("no seed", ("general", "seed"), None, ("file",)),
    ("unknown property", ("general", "qec_property"), ["speed"], ("file", "dict", "part")),
    ("unclear whether a circuit is given", ("circuit", "circuit_provided"), "no", ("file",)),
    ("unclear whether the circuit has errors", ("circuit", "has_errors"), 3, ("file", "dict", "part")),
    ("missing circuit file", ("circuit",), {"circuit_provided": True, "has_errors": True, "circuit_path": "@no/such.txt"}, ("file", "dict")),
    ("missing error file", ("errors", "qubit_errors", "data_path"), "@nothing.csv", ("load", "load-dict")),
    ("missing gate error file", ("errors", "gate_errors", "data_path"), "@nothing.csv", ("load", "load-dict")),
    ("missing folder", ("errors", "qubit_errors", "data_path"), "@no/q.csv", ("file", "dict")),
    ("unknown distribution", ("errors", "qubit_errors", "X"), {"distribution": "poisson", "params": [0.1], "enabled": True}, ("file", "dict")),
    ("two constants", ("errors", "qubit_errors", "Y"), {"distribution": "constant", "params": [0.1, 0.2], "enabled": True}, ("file", "dict")),
    ("no constant", ("errors", "qubit_errors", "measurement"), {"distribution": "constant", "params": [], "enabled": True}, ("file", "dict")),
    ("no width", ("errors", "qubit_errors", "erasure"), {"distribution": "gaussian", "params": [0.1], "enabled": True}, ("file", "dict")),
    ("constant for user data", ("errors", "qubit_errors", "Z"), {"distribution": "user", "params": [0.1], "enabled": True}, ("file", "dict")),
    ("unknown gate error", ("errors", "gate_errors", "CX"), {"distribution": ["constant"], "induced_errors": ["XQ"], "params": [[0.1]], "enabled": True}, ("file", "dict")),
    ("one gate error too many", ("errors", "gate_errors", "CZ"), {"distribution": ["constant"], "induced_errors": ["XI", "ZZ"], "params": [[0.1]], "enabled": True}, ("file", "dict")),
    ("unknown gate distribution", ("errors", "gate_errors", "H"), {"distribution": ["poisson"], "induced_errors": ["X"], "params": [[0.1]], "enabled": True}, ("file", "dict")),
    ("no width of a gate error", ("errors", "gate_errors", "H"), {"distribution": ["gaussian"], "induced_errors": ["X"], "params": [[0.1]], "enabled": True}, ("file", "dict")),
    ("two constants of a gate error", ("errors", "gate_errors", "M"), {"distribution": ["constant"], "induced_errors": ["Z"], "params": [[0.1, 0.2]], "enabled": True}, ("file", "dict")),
    ("negative mean", ("errors", "qubit_errors", "Z"), {"distribution": "gaussian", "params": [-0.1, 0.1], "enabled": True}, ("build",)),
    ("mean above one", ("errors", "qubit_errors", "erasure"), {"distribution": "gaussian", "params": [1.1, 0.1], "enabled": True}, ("build",)),
    ("negative width", ("errors", "qubit_errors", "Y"), {"distribution": "gaussian", "params": [0.1, -0.1], "enabled": True}, ("build",)),
    ("width above one", ("errors", "qubit_errors", "Y"), {"distribution": "gaussian", "params": [0.1, 1.1], "enabled": True}, ("build",)),
    ("size missing", ("code",), {"name": "PlanarCode", "rounds": 2}, ("file", "dict")),
    ("negative size", ("code",), {"name": "ToricCode", "rounds": 2, "size": -3}, ("file", "dict")),
    ("size as text", ("code",), {"name": "RotatedPlanarCode", "rounds": 2, "size": "3"}, ("file", "dict")),
]


def refused(e, bad, via, tmp, ctx, what):
    """A wrong configuration must be noticed, and must leave all others alone."""
    name, where, value, ways = bad
    d = json.loads(json.dumps(e.model))
    at = d
    for key in where[:-1]:
        at = at[key]
    if value is None:
        del at[where[-1]]
    else:
        at[where[-1]] = exper.place(json.loads(json.dumps(value)), tmp)
    build = ways[0] == "build"
    if build:
        at["sample"] = True
        at["load_file"] = False
        d["circuit"]["circuit_provided"] = False
        ways = ("file", "dict")
    if ways[0] == "load":
        at["load_file"] = True
        ways = ("file", "dict")
    if via in ("toml", "json"):
        path = os.path.join(tmp, "bad." + via)
        with open(path, "w") as f:
            f.write(toml.dumps(d) if via == "toml" else json.dumps(d))
        load = lambda: getattr(frontend.ExperimentConfig, "load_" + via)(path)  # noqa: E731
        tries = [lambda: load().build() if build else load()]
    elif via == "dict":
        if "dict" not in ways:
            return
        read = lambda: frontend.ExperimentConfig.from_dict(d)  # noqa: E731
        tries = [lambda: read().build() if build else read().validate()]
    else:
        if "part" not in ways:
            return
        obj = frontend.ExperimentConfig.from_dict(json.loads(json.dumps(e.model)))
        part = getattr(obj, where[0] + "_conf")
        tries = [lambda: part.update(**{where[1]: value}), obj.validate]
    for fn in tries:
        try:
            fn()
        except Exception as err:  # noqa: B902
            ctx.log("refused", type(err).__name__)
            ctx.fault("wrong configuration")
            return
    ctx.check(False, "wrong-configuration-accepted", lambda: f"{what}: {name} ({via})")


def blank(e, tmp, ctx, what):
    """The table an experiment hands out for the user to fill in lists every qubit once, without errors."""
    path = os.path.join(tmp, "blank.csv")
    e.obj.generate_empty_error_csv(path)
    with open(path) as f:
        rows = list(csv.DictReader(f))
    lat = e.obj.code.lattice
    want = {(q.equbit_idx, "data") for q in lat.dataqubits} | {(q.equbit_idx, "stab") for q in lat.stabgens}
    got = [(int(r["qubit_id"]), r["qubit_type"]) for r in rows]
    ctx.check(len(got) == len(want) and set(got) == want, "blank-table", lambda: f"{what}: {sorted(got)} instead of {sorted(want)}")
    for r in rows:
        for c in set(QK) & set(r):
            ctx.check(float(r[c]) == 0, "blank-table", lambda: f"{what}: {r}")


def gen_update(rng):
    u = rng.choice(["code", "device", "decoder", "general", "q", "q", "g", "g", "qflag", "gflag", "circuit", "whole", "on", "on", "entry", "entry"])
    if u in ("code",):
        return [u, exper.gen_code(rng)]
    if u == "device":
        return [u, rng.choice([{"shots": rng.randint(1, 50)}, {"name": rng.choice(sut.BACKENDS)}])]
    if u == "decoder":
        return [u, exper.gen_decoder(rng)]
    if u == "general":
        return [u, rng.choice([{"logical_op": rng.choice("XZ")}, {"seed": rng.randrange(1000)}])]
    if u == "q":
        return [u, rng.choice(QK), exper.gen_qentry(rng)]
    if u == "g":
        g = rng.choice(GK)
        return [u, g, exper.gen_gentry(rng, g)]
    if u in ("qflag", "gflag"):
        return [u, rng.choice([{"sample": rng.random() < 0.5}, {"load_file": rng.random() < 0.5}])]
    if u == "on":
        grp = rng.choice("qg")
        return [u, grp, rng.choice(QK if grp == "q" else GK), rng.random() < 0.5]
    if u == "circuit":
        return [u, {"has_errors": rng.random() < 0.5}]
    if u == "entry":
        grp = rng.choice("qg")
        name = rng.choice(QK if grp == "q" else GK)
        return [u, grp, name, exper.gen_qentry(rng) if grp == "q" else exper.gen_gentry(rng, name)]
    return [u, rng.choice(["device", "decoder", "general", "code", "errors", "qubit_errors", "gate_errors"]), exper.gen_config(rng)]


def run(case, ctx):
    tmp = tempfile.mkdtemp(prefix="dst-e01.", dir="/tmp")
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        _run(case, ctx, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


class Exp:
    def __init__(self, obj, model, raw):
        self.obj, self.model = obj, model
        self.raw = raw  # the caller's dictionary and its content
        self.built = False


def parts(cfg):
    return (cfg.code_conf, cfg.errors_conf, cfg.general_conf, cfg.device_conf, cfg.circuit_conf, cfg.decoder_conf)


def _run(case, ctx, tmp):
    sut.set_rng(case["seed"])
    with open("q.csv", "w") as f:
        f.write("qubit_id,qubit_type,X,Y,Z,erasure,measurement\n0,data,0.1,0.2,0.05,0.0,0.0\n1,data,0.3,0.0,0.25,0.125,0.0\n")
    with open("g.csv", "w") as f:
        f.write("gate,on_qubits,induced_errors,probs\nCX,5|0,XX|IZ,0.1|0.2\nH,5|6,X,0.25\n")
    with open("circuit.txt", "w") as f:
        f.write("R 0\nH 0\nCX 0 1\nE_PAULI 0.1 0.2 0.3 1\nM 0 1\n")
    exps: list = []
    files: dict = {}
    done: list = []

    def new(raw):
        exper.meaningful(raw)
        d = exper.place(raw, tmp)
        keep = copy.deepcopy(d)
        obj = frontend.ExperimentConfig.from_dict(d)
        e = Exp(obj, exper.place(exper.normal(raw), tmp), (d, keep))
        put(e)

    def put(e):
        verify(e)
        if len(exps) < 3:
            exps.append(e)
        else:
            exps[len(done) % 3] = e

    def verify(e):
        got = exper.plain(e.obj.as_dict())
        ctx.check(got == e.model, "configuration-changed", lambda: f"after {done}: {diff(got, e.model)}")
        ctx.check(e.obj.validate() is True, "not-valid", lambda: f"after {done}")
        if e.raw:
            ctx.check(e.raw[0] == e.raw[1], "caller-dict-changed", lambda: f"after {done}: {e.raw[1]} became {e.raw[0]}")

    def attempt(fn, d, what):
        try:
            with d:
                res = fn()
        except Exception as e:  # noqa: B902
            if d.fired is None:
                raise
            ctx.fault("disk " + d.fired)
            ctx.log("failed", type(e).__name__)
            return None, True
        ctx.check(d.fired is None, "disk-error-swallowed", lambda: f"{what}: {d.fired} was not reported")
        if d.short:
            ctx.fault("disk: short reads or writes", d.short)
        return res, False

    new(case["first"])
    for n, op in enumerate(case["ops"]):
        k = op[0]
        ctx.steps += 1
        ctx.log(n, op)
        what = f"after {done} then {op}"
        if k == "new":
            new(op[1])
        elif k == "dump":
            e = exps[op[1] % len(exps)]
            slot, fmt, fault, where = op[2:]
            path = os.path.join(tmp, f"exp{slot}.{fmt}")
            if where:
                bad = os.path.join(tmp, "missing", "x") if where == "nodir" else tmp
                try:
                    getattr(e.obj, "dump_" + fmt)(bad)
                except OSError:
                    ctx.fault("disk " + {"nodir": "missing directory", "isdir": "path is a directory"}[where])
                else:
                    ctx.check(False, "disk-error-swallowed", what)
                verify(e)
                continue
            files.pop((slot, fmt), None)
            _, failed = attempt(lambda: getattr(e.obj, "dump_" + fmt)(path), disk.Disk(tmp, fault), what)
            done.append((k, fmt, failed))
            verify(e)
            if not failed:
                files[slot, fmt] = (json.loads(json.dumps(e.model)), e)
        elif k == "load":
            slot, fmt, fault = op[1:]
            if (slot, fmt) not in files:
                continue
            model, src = files[slot, fmt]
            path = os.path.join(tmp, f"exp{slot}.{fmt}")
            loader = getattr(frontend.ExperimentConfig, "load_" + fmt)
            d = disk.Disk(tmp, fault)
            obj, failed = attempt(lambda: loader(path), d, what)
            done.append((k, fmt, failed))
            for e in exps:
                verify(e)
            if failed:
                continue
            e = Exp(obj, json.loads(json.dumps(model)), None)
            put(e)
            ctx.probe("dumped and loaded as " + fmt)
            if src.model == model:
                ctx.check(parts(src.obj) == parts(obj), "not-equal", lambda: f"{what}: {parts(src.obj)} / {parts(obj)}")
        elif k == "update":
            e = exps[op[1] % len(exps)]
            if update(e, op[2], tmp):
                done.append((k, op[2]))
        elif k == "build":
            e = exps[op[1] % len(exps)]
            done.append((k, op[2]))
            build(e, op[2], ctx, what)
        elif k == "bad":
            e = exps[op[1] % len(exps)]
            refused(e, BAD[op[2] % len(BAD)], op[3], tmp, ctx, what)
        elif k == "scribble":
            e = exps[op[1] % len(exps)]
            d = e.obj.as_dict()
            scribble(d)
            ctx.fault("caller changed a returned dictionary")
            done.append(k)
        for e in exps:
            verify(e)
        ctx.state(k, [json.dumps(e.model, sort_keys=True) for e in exps])


def scribble(d):
    for k in list(d):
        if isinstance(d[k], dict):
            scribble(d[k])
        else:
            d[k] = "scribbled"


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return f"{path}/{k}: " + ("missing" if k not in a else "unexpected")
            if a[k] != b[k] or type(a[k]) is not type(b[k]):
                return diff(a[k], b[k], f"{path}/{k}")
    return f"{path}: {a!r}, expected {b!r}"


def update(e, u, tmp):
    k = u[0]
    m = e.model
    o = e.obj
    if k == "code":
        exper.meaningful({"code": u[1], "errors": {}})
        o.code_conf.update(**u[1])
        m["code"] = exper.normal({"code": u[1], "errors": {}})["code"]
    elif k == "device":
        o.device_conf.update(**u[1])
        m["device"].update(u[1])
    elif k == "decoder":
        o.decoder_conf.update(**u[1])
        m["decoder"].update(u[1])
    elif k == "general":
        o.general_conf.update(**u[1])
        m["general"].update(u[1])
    elif k == "circuit":
        if m["circuit"]["circuit_provided"]:
            return False  # circuits without errors are documented as not supported
        o.circuit_conf.update(**u[1])
        m["circuit"].update(u[1])
    elif k in ("qflag", "gflag"):
        grp = "qubit_errors" if k[0] == "q" else "gate_errors"
        if "load_file" in u[1] and not m["errors"][grp]["data_path"].startswith("/"):
            return False
        getattr(o.errors_conf, grp).update(**u[1])
        m["errors"][grp].update(u[1])
    elif k in "qg":
        exper.check_entry(u[2], u[1])
        grp, cls = ("qubit_errors", frontend._QubitErrorMetadata) if k == "q" else ("gate_errors", frontend._GateErrorMetadata)
        getattr(o.errors_conf, grp).update(**{u[1]: cls.from_dict(copy.deepcopy(u[2]))})
        m["errors"][grp][u[1]] = exper.normal_entry(u[2], k == "g")
    elif k == "on":
        grp = "qubit_errors" if u[1] == "q" else "gate_errors"
        ent = m["errors"][grp][u[2]]
        if ent["distribution"] == "":
            return False
        getattr(getattr(o.errors_conf, grp), u[2]).update(enabled=u[3])
        ent["enabled"] = u[3]
    elif k == "entry":
        exper.check_entry(u[3], u[2])
        grp = "qubit_errors" if u[1] == "q" else "gate_errors"
        new = exper.normal_entry(u[3], u[1] == "g")
        getattr(getattr(o.errors_conf, grp), u[2]).update(**copy.deepcopy(new))
        m["errors"][grp][u[2]] = new
    else:
        exper.meaningful(u[2])
        other = frontend.ExperimentConfig.from_dict(exper.place(u[2], tmp))
        om = exper.place(exper.normal(u[2]), tmp)
        part = u[1]
        if part in ("qubit_errors", "gate_errors"):
            o.errors_conf.update(**{part: getattr(other.errors_conf, part)})
            m["errors"][part] = om["errors"][part]
            return True
        o.update(**{part + "_conf": getattr(other, part + "_conf")})
        m[part] = om[part]
    return True


def build(e, shots, ctx, what):
    """Build the experiment and the one loaded from its own dump; both must be the same."""
    m = e.model
    if m["decoder"]["weighted"] and m["decoder"]["name"] == "UnionFindNoWeights":
        try:
            e.obj.build()
        except ValueError:
            ctx.fault("refused build")
        else:
            ctx.check(False, "build-accepted", what)
        return
    twins = []
    for obj in (e.obj, frontend.ExperimentConfig.from_dict(json.loads(json.dumps(m)))):
        try:
            obj.build()
        except ValueError as err:
            twins.append(("refused", str(err)))
            ctx.fault("refused build")
            continue
        twins.append(summary(obj, ctx, what))
        blank(e if obj is e.obj else Exp(obj, None, None), os.getcwd(), ctx, what)
    ctx.check(twins[0] == twins[1], "different-experiment", lambda: f"{what}: {twins}")
    ctx.probe("built")
    if shots and twins[0][0] == "built" and not m["circuit"]["circuit_provided"]:
        keep = m["device"]["shots"]
        e.obj.device_conf.update(shots=shots)
        try:
            e.obj.run()
            ctx.probe("ran")
        except ValueError:
            ctx.probe("run refused")
        e.obj.device_conf.update(shots=keep)


def summary(obj, ctx, what):
    """What was built, as plain values."""
    ed = obj.errors
    gates = sut.gate_list(obj.circuit)
    dec = obj.decoder
    code = obj.code
    shape = code.n_rounds, len(code.lattice.dataqubits)
    syn = np.zeros((code.n_rounds, len(code.lattice.stabgens)), dtype="u1")
    answer = dec.decode(None if type(dec).__name__ == "PyMatchingDecoder" else np.zeros(shape, dtype=bool), syn)
    ctx.rounds += code.n_rounds
    return (
        "built", repr(sorted((k, sorted(v.items(), key=repr)) for k, v in ed.error_data_dict.items())), repr(gates),
        type(dec).__name__, np.asarray(answer).tolist(), getattr(obj.device, "_backend_name", None),
    )
