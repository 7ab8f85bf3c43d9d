"""A03: pictures show the lattice and the shot that is given, whatever was drawn or failed before."""
import math
import warnings

import matplotlib

matplotlib.use("Agg")

from dst import sut  # noqa: E402

import matplotlib.axes  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import plotly.graph_objects as go  # noqa: E402
from dst.core import Invalid  # noqa: E402
from dst.faults import Memory, gen_faults  # noqa: E402
from plaquette.codes.latticebase import NoLogicalOperatorError  # noqa: E402
from plaquette.visualizer import LatticeVisualizer  # noqa: E402

# the forked runs then need not load the renderers' tables anew
_fig = go.Figure()
_fig.add_trace(go.Scatter(x=[0], y=[0], mode="markers", marker={"color": "red", "symbol": "x", "size": 3, "colorbar": {}}, hovertext=["a"], name="a", line={"color": "red", "dash": "solid"}))
_fig.update_layout(height=300, margin={"l": 3}, coloraxis_colorbar_x=-0.1)
_fig.update_yaxes(scaleanchor="x")
plt.axes().plot([0], [0], label="a")
plt.legend()
plt.close("all")

ID = "A03"
CASES = {"quick": 420, "thorough": 9000}
RULE = (
    "one case = code and a session of 2-9 operations on one or two visualizers: faulty shots of the real experiment "
    "are simulated, decoded and drawn (syndrome of a round, error, correction, one Pauli kind, grey or not, parts left "
    "out), plain Plotly and Matplotlib drawings, drawings refused for wrong arguments, drawings whose renderer fails "
    "at a seeded call, loss of a qubit between drawings; distinct = different event log (what every picture shows)"
)
STATES = "distinct (code, operation, things shown) combinations"
REAL = ["codes", "lattices", "circuit generator", "Device", "clifford backend", "stim backend", "decoders", "visualizer", "Plotly and Matplotlib"]
STUB = ["random source (seeded)", "renderer calls fail where the simulator says so", "screen (figures are read, Matplotlib draws off screen)"]
ASSUME = ["what a picture shows is read from the traces of the figure: kind from the legend, place from the coordinates"]
FAIL = ("height", "margin", "syndrome", "pauli", "error", "two", "renderer", "renderer", "renderer")


def gen(rng, i):
    spec = sut.gen_code(rng, max_rounds=rng.choice([1, 2, 3]), small=rng.random() < 0.8, custom=0.15)
    ops = []
    for _ in range(rng.randint(2, 8)):
        k = rng.choice(["shot", "shot", "shot", "plain", "mpl", "fail", "fail", "lose"])
        v = rng.randrange(2)
        opt = {
            "round": rng.randrange(6), "syn": rng.random() < 0.8, "err": rng.random() < 0.7, "cor": rng.random() < 0.7,
            "only": rng.choice([None, None, "X", "Z"]), "grey": rng.random() < 0.5, "stabs": rng.random() < 0.8,
            "edges": rng.random() < 0.8, "size": rng.choice([None, [300, 5], [900, 0]]),
        }
        if k == "shot":
            ops.append([k, v, gen_faults(rng, spec, rng.choice([0, 1, 2, 4, 12]), ["pauli", "pauli", "measurement"]), opt])
        elif k == "fail":
            ops.append([k, v, rng.choice(FAIL), rng.randrange(8), opt, rng.choice(["data", "data", "plain", "mpl"])])
        elif k == "lose":
            ops.append([k, v, rng.randrange(60)])
        else:
            ops.append([k, v, rng.choice([None, [400, 3]])])
    ops.append([rng.choice(["plain", "plain", "mpl"]), rng.randrange(2), None])
    return dict(
        code=spec, lops=sut.gen_logical_ops(rng, spec), ancilla=rng.random() < 0.5, backend=rng.choice(sut.BACKENDS),
        decoder=rng.choice(sut.DECODERS), probs=rng.choice([None, None, [round(rng.random(), 3) for _ in range(7)]]), ops=ops,
    )


NAMES = {"U": "stabilizer", "A": "A stabilizer", "B": "B stabilizer"}


def key(p):
    return tuple(round(float(c), 6) for c in p)


def places(lat):
    """What a picture has to show, from the lattice itself."""
    data = [(key(v.pos), v.dataqubit_idx, v.equbit_idx) for v in lat.dataqubits]
    stabs = [(key(v.pos), v.stabgen_idx, v.equbit_idx, v.group.name) for v in lat.stabgens]
    logs = [(key(v.pos), v.logical_idx, v.equbit_idx, v.name) for v in lat.logical_ops]
    lines = {"X": [], "Z": []}
    for v in list(lat.stabgens) + list(lat.logical_ops):
        for e in v.edges:
            lines[e.factor.name].append(frozenset((key(e.op.pos), key(e.data.pos))))
    return data, stabs, logs, lines


def segments(x, y):
    out, cur = [], []
    for a, b in list(zip(x, y)) + [(math.nan, math.nan)]:
        if math.isnan(a) or math.isnan(b):
            out += [frozenset(map(key, s)) for s in zip(cur, cur[1:])]
            cur = []
        else:
            cur.append((a, b))
    return out


def same(a, b):
    return sorted(map(sorted, a)) == sorted(map(sorted, b))


def style(tr):
    if tr.mode == "lines":
        return ("line", tr.line.color, tr.line.dash)
    return ("marker", str(tr.marker.color), tr.marker.symbol, tr.marker.size)


class Session:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.spec = case["code"]
        self.mem = Memory(self.spec, case["lops"], case["ancilla"])
        self.code = self.mem.code
        self.lat = self.code.lattice
        self.lost = False
        self.dev = sut.Device(case["backend"])
        p = case["probs"]
        self.probs = None if p is None else np.array([p[i % len(p)] for i in range(self.mem.model.n)])
        self.vis = [LatticeVisualizer(self.code), LatticeVisualizer(self.lat, self.probs)]
        self.base = {}
        m = self.mem.model
        ones = np.ones((1, 2 * m.n + 1), dtype="u1")
        for grey in (False, True):
            fresh = LatticeVisualizer(self.code)
            for syn in (np.zeros(m.m, dtype="u1"), np.ones(m.m, dtype="u1")):
                for t in fresh.draw_latticedata(syn, ones, ones, grey=grey).data:
                    self.base[grey, t.name] = style(t)
        for name in {n for _, n in self.base}:
            a, b = self.base[False, name], self.base[True, name]
            shown = "oggled" in name or "error" in name or "correction" in name
            ctx.check((a == b) if shown else (a[1] != b[1] and "gr" in str(b[1])), "grey", lambda: f"{name}: {a}, grey {b}")
        everything = list(self.base.values())
        ctx.check(len(set(everything)) >= len({n for _, n in self.base}), "styles", lambda: f"{self.base}")

    def snapshot(self):
        return repr(places(self.lat)), repr(sut.plaquette.rng.bit_generator.state)

    def check_lines(self, got, name, want, what):
        self.ctx.check(same(got, want), "couplings", lambda: f"{what}: {name}: {[sorted(s) for s in got if s not in want][:3]} instead of {[sorted(s) for s in want if s not in got][:3]}, {len(got)} of {len(want)}")

    def check_figure(self, fig, v, what, syndrome=None, frames=(), grey=False, stabs=True, edges=True, size=None):
        """The figure shows exactly what it should."""
        ctx = self.ctx
        data, stab, logs, lines = places(self.lat)
        tr: dict = {}
        for t in fig.data:
            ctx.check(t.name not in tr, "legend", lambda: f"{what}: {t.name} twice")
            tr[t.name] = t
        probs = v == 1 and self.probs is not None and not self.lost
        for name, t in tr.items():
            if name == "Data qubit" and probs:
                continue
            want = self.base.get((grey, name))
            ctx.check(want is not None, "legend", lambda: f"{what}: unexpected {name}")
            ctx.check(style(t) == want, "style", lambda: f"{what}: {name} drawn as {style(t)}, at first as {want}")
        for p in "XZ":
            t = tr.pop(f"Pauli {p}", None)
            self.check_lines(segments(t.x, t.y) if t is not None else [], f"Pauli {p}", lines[p] if edges else [], what)
        want: dict = {"Data qubit": {pos: (f"Data qubit {i}<", f"Ext. qubit {e}") for pos, i, e in data}}
        if stabs:
            for pos, i, e, g in stab:
                on = syndrome is not None and bool(syndrome[i])
                name = ("Toggled " + NAMES[g]) if on else NAMES[g][0].upper() + NAMES[g][1:]
                want.setdefault(name, {})[pos] = (f"Stabgen {i}<", f"Ext. qubit {e}") + (("yndrome",) if on else ())
            for pos, i, e, n in logs:
                want.setdefault("Logical operator", {})[pos] = (n, f"Logical {i}<", f"Ext. qubit {e}")
        for kind, fr in frames:
            for p, qs in fr.items():
                if qs:
                    want[f"{p} {kind}"] = {q: (f"Data qubit {q}",) for q in qs}
        if not stabs:
            tr.pop("Logical operator", None)
        ctx.check(set(tr) == set(want), "shown", lambda: f"{what}: shows {sorted(tr)}, expected {sorted(want)}")
        where = {i: pos for pos, i, _ in data}
        for name, items in want.items():
            t = tr[name]
            texts = list(t.hovertext)
            ctx.check(len(t.x) == len(t.y) == len(texts) == len(items), "number", lambda: f"{what}: {len(t.x)} x {name}, expected {len(items)}")
            pts = list(zip(t.x, t.y))
            if name.endswith((" error", " correction")):
                got = {}
                for p, h in zip(pts, texts):
                    near = [i for i, pos in where.items() if abs(pos[0] - p[0]) < 0.5 and abs(pos[1] - p[1]) < 0.5]
                    ctx.check(len(near) == 1, "place", lambda: f"{what}: {name} at {p}")
                    got[near[0]] = h
            else:
                got = {key(p): h for p, h in zip(pts, texts)}
            ctx.check(set(got) == set(items), "place", lambda: f"{what}: {name} at {sorted(set(got) - set(items))[:4]} instead of {sorted(set(items) - set(got))[:4]}")
            for k, words in items.items():
                text = str(got[k]) + "<"
                ctx.check(all(w in text for w in words), "text", lambda: f"{what}: {name} at {k} says {got[k]!r}, expected {words}")
                if "yndrome" not in words:
                    ctx.check("yndrome" not in text, "text", lambda: f"{what}: {name} at {k} says {got[k]!r}")
            if name == "Data qubit" and probs:
                shown = dict(zip(map(key, pts), map(float, t.marker.color)))
                ctx.check(shown == {pos: float(self.probs[i]) for pos, i, _ in data}, "probabilities", lambda: f"{what}: {shown}")
                for pos, i, _ in data:
                    ctx.check(f"{self.probs[i]}" in str(got[pos]), "text", lambda: f"{what}: {got[pos]!r} without p = {self.probs[i]}")
        if size is not None:
            lo = fig.layout
            ctx.check(lo.height == size[0] and {lo.margin[k] for k in "lrtb"} == {size[1]}, "size", lambda: f"{what}: {lo.height}, {lo.margin}")
        ctx.state(self.spec["fam"], tuple(sorted((k, len(v)) for k, v in want.items())), grey)

    def check_mpl(self, ax, what):
        ctx = self.ctx
        data, stab, logs, lines = places(self.lat)
        by: dict = {}
        for ln in ax.get_lines():
            ctx.check(ln.get_label() not in by, "legend", lambda: f"{what}: {ln.get_label()} twice")
            by[ln.get_label()] = ln
        for p in "XZ":
            ln = by.pop(f"Pauli {p}", None)
            xy = ([], []) if ln is None else ln.get_data()
            self.check_lines(segments(*map(list, xy)), f"Pauli {p}", lines[p], what)
        want: dict = {"Data qubit": [p for p, *_ in data]}
        for pos, _, _, g in stab:
            want.setdefault(NAMES[g][0].upper() + NAMES[g][1:], []).append(pos)
        if logs:
            want["Logical operator"] = [p for p, *_ in logs]
        ctx.check(set(by) == set(want), "shown", lambda: f"{what}: shows {sorted(by)}, expected {sorted(want)}")
        (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
        seen = set()
        for name, pos in want.items():
            ln = by[name]
            got = sorted(map(key, zip(*ln.get_data())))
            ctx.check(got == sorted(pos), "place", lambda: f"{what}: {name} at {got}, expected {sorted(pos)}")
            ctx.check(ln.get_linestyle() == "None" and ln.get_marker() not in ("", "None", None), "style", lambda: f"{what}: {name}")
            look = (ln.get_marker(), ln.get_color())
            ctx.check(look not in seen, "style", lambda: f"{what}: {name} looks like something else")
            seen.add(look)
            ctx.check(all(x0 <= x <= x1 and y0 <= y <= y1 for x, y in pos), "in-view", lambda: f"{what}: {name} outside {x0, x1, y0, y1}")
        leg = ax.get_legend()
        ctx.check(leg is not None and {t.get_text() for t in leg.get_texts()} >= set(want), "legend", lambda: f"{what}: no complete legend")

    # -- operations ------------------------------------------------------
    def shot(self, faults):
        """One shot of the running experiment: syndrome rows, error and correction."""
        mem, m = self.mem, self.mem.model
        use = [f for f in mem.dedup(mem.concrete(faults)) if f[0] in "PF"]
        if not self.lost:
            qe, ge = mem.tagged({"pauli", "measurement"})
            circ = mem.noisy(qe, ge)
            circ = mem.rewrite(circ, mem.locate(circ, qe, ge), use)
            self.dev.run(circ)
            raw, er = self.dev.get_sample()
            res = sut.MeasurementSample.from_code_and_raw_results(mem.code, raw, er, logical_ancilla=mem.ancilla)
            syn = np.array(res.syndrome)
            qe = {"pauli": {q: {"x": 0.1, "y": 0.1, "z": 0.1} for q in m.data_ids}, "measurement": {q: {"p": 0.1} for q in m.anc_ids}}
            dec = sut.make_decoder(self.case["decoder"], mem.code, qe, weighted=self.case["decoder"] != "UnionFindNoWeights")
            cor = np.array(dec.decode(None, res.syndrome)).reshape(1, -1)
            self.ctx.rounds += mem.rounds + 1
            self.ctx.steps += len(circ.gates)
        else:
            n, k = len(self.lat.dataqubits), len(self.lat.stabgens)
            use = [(f[0], f[1], f[2] % (n if f[0] == "P" else k), *f[3:]) for f in use]
            syn = np.zeros((mem.rounds, k), dtype="u1")
            for f in use:
                syn[f[1] % mem.rounds, f[2] % k] ^= 1
            cor = np.zeros((1, 2 * n + 1), dtype="u1")
            for f in use:
                cor[0, f[2] % n] ^= 1
        n = len(self.lat.dataqubits)
        err = np.zeros((1, 2 * n + 1), dtype="u1")
        for f in use:
            if f[0] == "P":
                err[0, f[2]] ^= f[3] in "XY"
                err[0, n + f[2]] ^= f[3] in "YZ"
            self.ctx.fault("data Pauli" if f[0] == "P" else "readout flip")
        return syn, err, cor

    def frame(self, t, only):
        n = len(self.lat.dataqubits)
        return {p: [q for q in range(n) if t[0, q + o]] if only in (None, p) else [] for p, o in (("X", 0), ("Z", n))}

    def data_args(self, opt, syn, err, cor):
        s = syn[opt["round"] % len(syn)] if opt["syn"] else None
        kw = dict(
            syndrome=s, error=err if opt["err"] else None, correction=cor if opt["cor"] else None, only_pauli=opt["only"],
            grey=opt["grey"], draw_stabs=opt["stabs"], draw_edges=opt["edges"],
        )
        if opt["size"]:
            kw |= {"height": opt["size"][0], "margin": opt["size"][1]}
        frames = []
        if opt["err"]:
            frames.append(("error", self.frame(err, opt["only"])))
        if opt["cor"]:
            frames.append(("correction", self.frame(cor, opt["only"])))
        return kw, dict(syndrome=s, frames=frames, grey=opt["grey"], stabs=opt["stabs"], edges=opt["edges"], size=opt["size"] or [600, 20])


class Failing:
    """The renderer fails at its k-th call."""

    def __init__(self, k):
        self.left = k
        self.error = OSError(28, "renderer failed")
        self.fired = False

    def __enter__(self):
        self.old = [(c, n, c.__dict__[n]) for c, n in ((matplotlib.axes.Axes, "plot"),)]
        self.old += [(go.Figure, n, go.Figure.__dict__.get(n)) for n in ("add_trace", "update_layout", "add_traces")]
        for c, n, _ in self.old:
            setattr(c, n, self.wrap(getattr(c, n)))
        return self

    def wrap(self, f):
        def g(*a, **k):
            self.left -= 1
            if self.left == -1:
                self.fired = True
                raise self.error
            return f(*a, **k)

        return g

    def __exit__(self, *a):
        for c, n, f in self.old:
            if f is None:
                delattr(c, n)
            else:
                setattr(c, n, f)


def run(case, ctx):
    spec = case["code"]
    if not case["ops"] or any(len(o) < 3 for o in case["ops"]):
        raise Invalid("operations")
    sut.check_logical_ops(case["lops"], spec)
    sut.set_rng(case["seed"])
    warnings.simplefilter("ignore")
    s = Session(case, ctx)
    for k, op in enumerate(case["ops"]):
        v = op[1] % 2
        if s.lost and s.probs is not None:
            v = 0  # (one probability for every qubit of the whole lattice)
        vis = s.vis[v]
        what = f"{spec} after {[o[0] for o in case['ops'][:k]]}: {op[0]}"
        if op[0] == "lose":
            if spec["fam"] not in ("planar", "rotated", "toric") or s.lost:
                continue
            q = s.lat.dataqubits[op[2] % len(s.lat.dataqubits)].equbit_idx
            try:
                s.code.apply_fabrication_errors(faulty_qubits=[q])
            except (NoLogicalOperatorError, ValueError, IndexError):
                ctx.log("nothing survives")
                return
            s.lost = True
            ctx.fault("lost qubit")
            ctx.log("lose", q)
            continue
        if op[0] == "shot":
            syn, err, cor = s.shot(op[2])
            kw, want = s.data_args(op[3], syn, err, cor)
            keep = [a.copy() for a in (syn, err, cor)]
            before = s.snapshot()
            fig = vis.draw_latticedata(**kw)
            s.check_figure(fig, v, what, **want)
            ctx.check(all((a == b).all() for a, b in zip(keep, (syn, err, cor))), "changed-data", lambda: f"{what}: the drawn arrays changed")
            ctx.log("shot", syn.tolist(), err.tolist(), cor.tolist(), sorted(op[3].items(), key=str))
        elif op[0] == "plain":
            before = s.snapshot()
            fig = vis.draw_lattice(*(op[2] or ()))
            s.check_figure(fig, v, what, size=op[2] or [600, 20])
            ctx.log("plain", len(fig.data))
        elif op[0] == "mpl":
            before = s.snapshot()
            plt.close("all")
            if op[2]:
                ax = plt.figure().add_subplot()
                plt.figure()
                vis.draw_lattice_mpl(ax)
            else:
                vis.draw_lattice_mpl()
                ax = plt.gca()
            s.check_mpl(ax, what)
            plt.close("all")
            ctx.log("mpl", len(ax.get_lines()))
        elif op[0] == "fail":
            before = s.snapshot()
            fail(s, ctx, vis, op, what)
        else:
            raise Invalid("operation")
        ctx.check(s.snapshot() == before, "changed-lattice", lambda: f"{what}: drawing changed the lattice or the random stream")


def fail(s, ctx, vis, op, what):
    _, _, kind, k, opt, how = op
    syn, err, cor = np.zeros((1, len(s.lat.stabgens)), dtype="u1"), *(np.ones((1, 2 * len(s.lat.dataqubits) + 1), dtype="u1") for _ in "ab")
    kw, _ = s.data_args(opt, syn, err, cor)
    plt.close("all")

    def draw():
        if how == "plain" and kind not in ("syndrome", "pauli", "error", "two"):
            vis.draw_lattice(**{x: y for x, y in kw.items() if x in ("height", "margin")})
        elif how == "mpl" and kind == "renderer":
            vis.draw_lattice_mpl()
        else:
            vis.draw_latticedata(**kw)

    fired = True
    got = None
    if kind == "renderer":
        with Failing(k) as fl:
            try:
                draw()
            except Exception as e:
                got = e
        fired = fl.fired
        if fired:
            ctx.check(got is fl.error, "failure-hidden", lambda: f"{what}: renderer failed, caller saw {got!r}")
            ctx.fault("renderer failure")
        elif got is not None:
            raise got
    else:
        if kind in ("height", "margin"):
            kw[kind] = [-3, "tall"][k % 2]
        elif kind == "syndrome":
            kw["syndrome"] = np.zeros(len(s.lat.stabgens) + 1 + k, dtype="u1")
        elif kind == "pauli":
            kw["only_pauli"] = "Q"
            kw["error"] = err
        elif kind == "error":
            kw["error"] = np.ones((1, 2 * len(s.lat.dataqubits)), dtype="u1")
        elif kind == "two":
            kw["correction"] = np.ones((2, 2 * len(s.lat.dataqubits) + 1), dtype="u1")
        else:
            raise Invalid("failure")
        try:
            draw()
        except Exception as e:
            got = e
        ctx.check(got is not None, "accepted", lambda: f"{what}: {kind} {k} was accepted")
        ctx.fault(f"refused drawing ({kind})")
    plt.close("all")
    ctx.log("fail", kind, k, how, fired, type(got).__name__)
