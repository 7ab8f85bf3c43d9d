"""Experiment configurations: generation, documented defaults, and files they name."""
from __future__ import annotations

import json
import os

from . import sut
from .core import Invalid
from .faults import P2

QK = ["X", "Y", "Z", "erasure", "measurement"]
GK = ["H", "R", "M", "CX", "CZ"]
CODES = {
    "five": "FiveQubitCode", "shor": "ShorCode", "repetition": "RepetitionCode", "planar": "PlanarCode",
    "rotated": "RotatedPlanarCode", "toric": "ToricCode",
}
FAM = {v: k for k, v in CODES.items()}
RATES = [0.0, 1e-9, 0.001, 0.013, 0.05, 0.1, 0.125, 1 / 3, 0.5, 1.0]


def gen_qentry(rng, rates=RATES):
    d = rng.choice(["constant", "constant", "gaussian", "user"])
    e = {"distribution": d}
    if rng.random() < 0.7:
        e["enabled"] = rng.random() < 0.7
    if d == "constant":
        e["params"] = [rng.choice(rates)]
    elif d == "gaussian":
        e["params"] = [rng.choice(rates), rng.choice([0.0, 0.01, 0.1])]
    elif rng.random() < 0.2:
        e["params"] = []
    return e


def gen_gentry(rng, g, rates=RATES, many=True):
    e = {}
    if rng.random() < 0.7:
        e["enabled"] = rng.random() < 0.7
    if rng.random() < 0.25:
        e["distribution"] = "user"
        return e
    pool = [p.upper() for p in P2] if g in ("CX", "CZ") else list("XYZ")
    n = min(len(pool), rng.choice([1, 1, 1, 2, 2, 3, 6])) if many else 1
    e["induced_errors"] = rng.sample(pool, n)
    e["distribution"] = [rng.choice(["constant", "gaussian"]) for _ in range(n)]
    e["params"] = [[rng.choice(rates)] + ([rng.choice([0.0, 0.01])] if d == "gaussian" else []) for d in e["distribution"]]
    return e


def gen_code(rng, spec=None):
    spec = spec or sut.gen_code(rng, max_rounds=3, small=True)
    d = {"name": CODES[spec["fam"]], "rounds": spec["rounds"]}
    if "size" in spec:
        d["size"] = spec["size"]
    return d


def gen_decoder(rng):
    d = {}
    if rng.random() < 0.8:
        d["name"] = rng.choice(sut.DECODERS)
    if d.get("name") == "UnionFindNoWeights":
        if rng.random() < 0.5:
            d["weighted"] = False
    elif rng.random() < 0.7:
        d["weighted"] = rng.random() < 0.5
    return d


def gen_config(rng, files=True):
    """A configuration dictionary.  Paths are file names, see ``place``."""
    c = {"code": gen_code(rng), "errors": {}}
    if rng.random() < 0.85:
        c["general"] = {"logical_op": rng.choice("XZ"), "qec_property": ["logical_error_rate"], "seed": rng.choice([0, 1, 12345, rng.randrange(1 << 31)])}
    if rng.random() < 0.8:
        c["device"] = {}
        if rng.random() < 0.8:
            c["device"]["name"] = rng.choice(sut.BACKENDS)
        if rng.random() < 0.8:
            c["device"]["shots"] = rng.choice([1, 2, 5, 1000, 1000000])
    if rng.random() < 0.8:
        c["decoder"] = gen_decoder(rng)
    if rng.random() < 0.3:
        c["circuit"] = {"circuit_provided": False}
        if rng.random() < 0.5:
            c["circuit"]["has_errors"] = rng.random() < 0.5
        if rng.random() < 0.5:
            c["circuit"]["circuit_path"] = "@circuit.stim"
    elif files and rng.random() < 0.15:
        c["circuit"] = {"circuit_provided": True, "has_errors": True, "circuit_path": "@circuit.txt"}
    for grp, keys, fn in (("qubit_errors", QK, gen_qentry), ("gate_errors", GK, gen_gentry)):
        if rng.random() < 0.25:
            continue
        d = {}
        for k in keys:
            if rng.random() < 0.5:
                d[k] = fn(rng) if grp == "qubit_errors" else fn(rng, k)
        if rng.random() < 0.6:
            d["sample"] = rng.random() < 0.7
        r = rng.random() if files else 1
        name = "@" + grp[0] + ".csv"
        if r < 0.25:
            d["data_path"] = name
        elif r < 0.5:
            d["data_path"], d["load_file"] = name, rng.random() < 0.5
        if rng.random() < 0.1:
            d["fabrication"] = {"distribution": "user", "enabled": False}
        c["errors"][grp] = d
    return c


def place(x, tmp):
    """The configuration with file names in the scratch directory."""
    if isinstance(x, dict):
        return {k: place(v, tmp) for k, v in x.items()}
    if isinstance(x, list):
        return [place(v, tmp) for v in x]
    if isinstance(x, str) and x.startswith("@"):
        return os.path.join(tmp, x[1:])
    return x


def meaningful(c):
    """Raise Invalid for configurations which no longer are configurations."""
    try:
        code = c["code"]
        fam = FAM[code["name"]]
        spec = dict(fam=fam, rounds=code["rounds"], size=code.get("size", 0))
        sut.build_code(spec)
        for grp, keys in (("qubit_errors", QK), ("gate_errors", GK)):
            for k, e in c["errors"].get(grp, {}).items():
                if k in keys:
                    check_entry(e, k)
        if c.get("general") is not None:
            g = c["general"]
            if g["logical_op"] not in ("X", "Z") or g["seed"] < 0 or g["qec_property"] != ["logical_error_rate"]:
                raise Invalid("general")
        if c.get("device", {}).get("shots", 1) < 1:
            raise Invalid("shots")
        ci = c.get("circuit", {})
        if ci.get("circuit_provided") and (not ci.get("has_errors") or not ci.get("circuit_path")):
            raise Invalid("circuit")
    except KeyError as e:
        raise Invalid(str(e)) from None


def check_entry(e, k):
    d = e["distribution"]
    if k in QK:
        if len(e.get("params", [])) != {"constant": 1, "gaussian": 2, "user": 0}[d]:
            raise Invalid("params")
    elif d != "user":
        if not isinstance(d, list) or not d or not len(d) == len(e["params"]) == len(e["induced_errors"]):
            raise Invalid("gate entry")
        for a, p in zip(d, e["params"]):
            if len(p) != {"constant": 1, "gaussian": 2}[a]:
                raise Invalid("gate params")


def normal(c):
    """The same configuration with the documented defaults filled in."""
    c = json.loads(json.dumps(c))
    out = {}
    out["general"] = c.get("general") or {"logical_op": "X", "qec_property": ["logical_error_rate"], "seed": 12345}
    d = c.get("device", {})
    out["device"] = {"name": d.get("name", "clifford"), "shots": d.get("shots", 1024)}
    d = c["code"]
    out["code"] = {"name": d["name"], "rounds": d.get("rounds", 1)}
    if FAM[d["name"]] in sut.SIZES:
        out["code"]["size"] = d["size"]
    d = c.get("circuit", {})
    out["circuit"] = {
        "circuit_provided": d.get("circuit_provided", False), "has_errors": d.get("has_errors", False),
        "circuit_path": d.get("circuit_path", "circuit.txt"),
    }
    d = c.get("decoder", {})
    out["decoder"] = {"name": d.get("name", "PyMatchingDecoder"), "weighted": d.get("weighted", False)}
    out["errors"] = {}
    for grp, keys, default, sample in (
        ("qubit_errors", QK, "qubit_errors.csv", True), ("gate_errors", GK, "gate_errors.csv", False),
    ):
        d = c["errors"].get(grp) or {}
        o = {"sample": d.get("sample", sample), "data_path": d.get("data_path", default)}
        o["load_file"] = d.get("load_file", "data_path" in d)
        for k in [*keys, "fabrication"]:
            o[k] = normal_entry(d.get(k), grp == "gate_errors")
        out["errors"][grp] = o
    return out


def normal_entry(e, gate):
    if e is None:
        out = {"distribution": "", "params": [], "enabled": False}
    else:
        out = {"distribution": e["distribution"], "params": e.get("params", []), "enabled": e.get("enabled", True)}
    if gate:
        out["induced_errors"] = e.get("induced_errors", []) if e else []
    return out


def plain(x):
    """JSON-like copy of what as_dict() returned."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x
