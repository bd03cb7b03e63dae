"""P23: plot and template files are right and complete, or fail loudly.

Property models are plotted and data set templates are written, onto a
simulated file system that fails, with failed and interrupted plots in between
and with figures of the caller open. Every file is compared with the one that
the same call writes in a fresh process.
"""

import csv
import gc
import hashlib
import io
import os
import posixpath

from sim import core, fs, inject
from sim.core import SimCrash
from sim.props import p14

ID = "P23"
IMPORTS = ["auxi.tools.materialphysicalproperties.core",
           "auxi.tools.materialphysicalproperties.gases",
           "auxi.tools.materialphysicalproperties.idealgas",
           "auxi.tools.materialphysicalproperties.polynomial",
           "matplotlib.pyplot", "pandas", "numpy"]
RUNS = {"quick": 400, "thorough": 12000}
RULE = ("A case is a set of models and data sets, and a history of plots "
        "(good ones, ones that have to fail half way, interrupted ones), of "
        "templates and of figures of the caller, with up to three storage "
        "faults each. Non-trivial: a plot that failed or was broken off, and "
        "a later one that succeeded.")
STATE_MEASURE = ("distinct (kind of model, faults that struck or point of "
                 "interruption, outcome, kind and outcome of the operation "
                 "before)")
REAL = ["auxi.tools.materialphysicalproperties", "matplotlib", "pandas",
        "cerberus", "io buffering and text layers"]
STUB = ["the file system below the buffers", "the caller's own figures",
        "the creation date in the files (SOURCE_DATE_EPOCH)",
        "interrupts (raised between two executed lines)",
        "the web browser"]
SHRINK = ("ops", "faults", "data")
ASSUMPTIONS = ["one thread at a time plots (pyplot is not made for several)"]

GASES = [("air", "Air"), ("argon", "Ar"), ("ammonia", "NH3"),
         ("carbon_dioxide", "CO2"), ("carbon_monoxide", "CO"),
         ("nitrogen", "N2"), ("oxygen", "O2"), ("water_vapour", "H2O")]
WIDE = [0, 0, 0, 5, 5, 5, 6, 6, 6]             # known from 100 K to 1000 K
PATHS = ["/sim/out/p.pdf", "/sim/out/q.pdf", "/sim/out/p", "/sim/none/p.pdf"]
NAMES = ["Auxiite", "a b", "x, \"y\"", "caf\u00e9", "Zn-2.5"]


def generate(rng, tier, index):
    data = []
    for _ in range(rng.randint(1, 2)):
        low = rng.choice([100.0, 298.15, 298.15, 400.0, 400.0, 1200.0])
        data.append([[low + 50.0 * i, rng.choice([1.0, 2.5, 1e-6, 400.0]) *
                      (1 + i), round(rng.uniform(-5, 5), 3)]
                     for i in range(rng.randint(3, 9))])
    models = []
    for _ in range(rng.randint(1, 3)):
        models.append(rng.choice([
            ["poly", rng.randrange(len(data)), rng.choice(["a", "b"]),
             rng.randint(0, 3)],
            ["poly", rng.randrange(len(data)), "a", 1],
            ["gas", rng.randrange(len(GASES)), rng.choice(["Cp", "mu", "k"])],
            ["ideal", 28.9, rng.choice([101325.0, 2e5])],
            ["wilke"], ["herning"], ["cp"]]))
    ops = []
    for _ in range(rng.randint(3, 8 if tier == "quick" else 16)):
        r = rng.random()
        op = {"faults": p14.gen_save_faults(rng)
              if rng.random() < 0.5 else [],
              "capacity": rng.choice([None] * 9 + [rng.randint(0, 30000)])}
        if r < 0.74:
            m = rng.randrange(len(models))
            wide = models[m][0] in ("wilke", "herning", "cp")
            op.update(op="plot", m=m,
                      sets=[gen_set(rng, models[m], len(data))
                            for _ in range(rng.choice([1, 1, 2, 3]))],
                      path=rng.choice([0, 0, 0, 1, 2, 3]),
                      mix=[rng.choice(WIDE + [rng.randrange(8)] * (not wide)),
                           rng.choice(WIDE + [rng.randrange(8)]),
                           rng.choice([0.0, 0.3, 1.0])],
                      miss=rng.random() < 0.1,
                      show=rng.random() < 0.2,
                      stop=int(10 ** rng.uniform(0, 3.7))
                      if rng.random() < 0.25 else None)
            plots = [o for o in ops if o["op"] == "plot"]
            if plots and rng.random() < 0.3:
                # the same plot, with one thing changed
                op = dict(op, **{k: plots[-1][k] for k in (
                    "m", "sets", "path", "mix", "miss")})
                k = rng.choice(["mix", "sets", "m", "path"])
                if k == "mix":
                    op["mix"] = op["mix"][:2] + [rng.choice([0.1, 0.5, 2.0])]
                elif k == "sets":
                    op["sets"] = op["sets"][::-1]
                elif k == "m":
                    op["m"] = rng.randrange(len(models))
                else:
                    op["path"] = rng.choice([0, 1])
            ops.append(op)
            if (op["faults"] or op["stop"]) and rng.random() < 0.6:
                ops.append(dict(op, faults=[], stop=None, capacity=None))
            if models[op["m"]][0] in ("wilke", "herning", "cp") and \
                    rng.random() < 0.4:
                # one mixture after another, in one picture each
                a, b = rng.sample([0, 5, 6], 2)
                sets = [["gas", rng.choice([0, 5, 6])] for _ in op["sets"]]
                for f in rng.sample([0.0, 0.1, 0.3, 0.5, 1.0, 2.0], 2):
                    ops.append(dict(op, sets=sets, mix=[a, b, f], miss=False,
                                    path=rng.choice([0, 0, 1]), faults=[],
                                    stop=None, capacity=None))
        elif r < 0.86:
            ops.append(dict(op, op="template", name=rng.choice(NAMES),
                            show=rng.random() < 0.3,
                            dir=rng.choice(["/sim/out", "/sim/out",
                                            "/sim/none"])))
        else:
            ops.append({"op": rng.choice(["figure", "figure", "close"]),
                        "n": rng.randint(1, 4)})
    return {"data": data, "models": models, "ops": ops,
            "split": rng.choice([0, 0, 0, 700]),
            "eintr": rng.choice([0.0, 0.0, 0.1]),
            "fs": rng.randrange(1 << 30)}


def gen_set(rng, model, n):
    """A data set, mostly one that the model can be plotted against."""
    r = rng.random()
    if r < 0.1:
        return ["gas", rng.randrange(len(GASES))]
    if model[0] == "poly":
        return ["user", rng.randrange(n)]
    if r < 0.45 and model[0] != "ideal":
        return ["user", rng.randrange(n)]
    if model[0] == "gas":
        return ["gas", model[1]]
    return ["gas", rng.choice(WIDE)]


class Case:
    def __init__(self, sc, ctx):
        from auxi.tools.materialphysicalproperties import core as mc
        from auxi.tools.materialphysicalproperties import gases, idealgas
        from auxi.tools.materialphysicalproperties import polynomial
        self.sc, self.ctx, self.gases, self.mc = sc, ctx, gases, mc
        self.sim = sim = fs.SimFS(ctx, sc["fs"])
        sim.mkdir("/sim/out")
        self.user = []
        for i, rows in enumerate(sc["data"]):
            out = io.StringIO()
            csv.writer(out).writerows([
                ["Material Name", "U%d" % i], ["Description", "about"],
                ["Reference", "ref"], ["Temperature", "A", "B", "M", "H", "R"],
                ["T", "a_1", "b_1", "\\mu", "C_p", "\\rho"],
                ["K", "-", "kg", "Pa.s", "J/kg/K", "kg/m3"],
                ["T", "a", "b", "mu", "Cp", "rho"]] +
                [row + [row[1] * 1e-5, row[1] + 900.0, row[1] / 3]
                 for row in rows])
            path = "/sim/data/u%d.csv" % i
            sim.put(path, out.getvalue())
            sim.install()
            try:
                self.user.append(mc.DataSet(path))
            finally:
                sim.uninstall()
        self.models = []
        for m in sc["models"]:
            if m[0] == "poly":
                if m[1] >= len(self.user):
                    m = ["poly", 0] + m[2:]
                self.models.append(polynomial.PolynomialModelT.create(
                    self.user[m[1]], m[2], m[3]))
            elif m[0] == "gas":
                mat = gases.materials[GASES[m[1]][1]]
                self.models.append(getattr(mat, m[2]))
            elif m[0] == "ideal":
                self.models.append(idealgas.RhoT(m[1], m[2]))
            else:
                self.models.append({
                    "wilke": gases.WilkeMuTx,
                    "herning": gases.HerningZippererMuTx,
                    "cp": gases.IdealCpTx}[m[0]]())

    def data_set(self, which):
        kind, i = which
        if kind == "user":
            return "u%d" % (i % len(self.user)), self.user[i % len(self.user)]
        name, key = GASES[i]
        sets = getattr(self.gases, name + "_datasets")
        return key, sets[sorted(sets)[-1]]

    def call(self, op, to=None):
        show = {"show": True} if op.get("show") and not to else {}
        if op["op"] == "template":
            name = op["name"]
            file = posixpath.join(to or op["dir"],
                                  "dataset-%s.csv" % name.lower())
            return file, lambda: self.mc.DataSet.create_template(
                name, to or op["dir"], **show)
        model = self.models[op["m"] % len(self.models)]
        kind = self.sc["models"][op["m"] % len(self.models)][0]
        sets = {}
        for w in op["sets"]:
            key, ds = self.data_set(w)
            sets[key] = ds
        file = posixpath.join(to, "x.pdf") if to else PATHS[op["path"]]
        if kind in ("wilke", "herning", "cp"):
            a, b, f = op["mix"]
            xs = {k: {GASES[a][1]: 1.0, GASES[b][1]: f} for k in sets}
            if op["miss"]:
                del xs[sorted(xs)[-1]]
            return file, lambda: model.plot(xs, sets, file, **show)
        return file, lambda: model.plot(sets, file, **show)

    def reference(self, op):
        """What the call writes when nothing has happened before."""
        from matplotlib.figure import Figure
        sim = self.sim
        file, call = self.call(op, "/sim/reference")
        sim.mkdir("/sim/reference")
        pages = []
        real = Figure.savefig

        def savefig(fig, *args, **kw):
            pages.append([drawn(fig), [
                ax.get_title() + ax.get_xlabel() + ax.get_ylabel()
                for ax in fig.axes]])
            return real(fig, *args, **kw)
        Figure.savefig = savefig
        sim.install()
        try:
            call()
        except Exception as e:
            return {"error": type(e).__name__}
        finally:
            sim.uninstall()
            Figure.savefig = real
        data = bytes(sim.files.get(file, b""))
        wrong = self.judge(op, pages) if op["op"] == "plot" else None
        return {"file": digest(data), "size": len(data), "wrong": wrong}

    def judge(self, op, pages):
        """Whether the picture shows the data sets and the model."""
        if len(pages) != 1:
            return "%d pages" % len(pages)
        lines, texts = pages[0]
        model = self.models[op["m"] % len(self.models)]
        sets = dict(self.data_set(w) for w in op["sets"])
        kind = self.sc["models"][op["m"] % len(self.models)][0]
        mix = kind in ("wilke", "herning", "cp")
        for key, ds in sets.items():
            data = [ds.data["T"].tolist(), ds.data[model.symbol].tolist()]
            if not any(same(ln, data) for ln in lines):
                return "the data of %s are not shown" % key
            if mix and not self.curve(model, op, key, lines):
                return "the model's curve for %s is not shown" % key
        if not mix and not self.curve(model, op, None, lines):
            return "the model's curve is not shown"
        if len(lines) != len(sets) * 2 and mix or \
                len(lines) != len(sets) + 1 and not mix:
            return "%d lines for %d data sets" % (len(lines), len(sets))
        if not any(model.units in t and model.display_symbol in t
                   for t in texts):
            return "the axis does not name %s in %s" % (
                model.symbol, model.units)
        return None

    def curve(self, model, op, key, lines):
        """A line follows the model over more than two points."""
        a, b, f = op["mix"]
        more = {} if key is None else {
            "x": {GASES[a][1]: 1.0, GASES[b][1]: f}}
        for xs, ys in lines:
            try:
                if len(xs) > 20 and same([ys], [
                        [float(model(T=x, **more)) for x in xs]]):
                    return True
            except Exception:           # the data: outside the model
                pass
        return False

    def picture(self):
        """What no plot may change."""
        out = []
        for w in [["user", i] for i in range(len(self.user))] + [
                ["gas", i] for i in range(len(GASES))]:
            _, ds = self.data_set(w)
            out.append(short([ds.name, ds.material, ds.col_names,
                              ds.col_symbols, ds.names_dict, ds.units_dict,
                              list(ds.data.columns),
                              ds.data.values.tolist()]))
        for m in self.models:
            out.append(short(str(m)))
        return out


def short(x):
    return core.short_hash(x)


def digest(data):
    return hashlib.blake2b(data, digest_size=12).hexdigest()


def drawn(fig):
    return [[list(map(float, ln.get_xdata())), list(map(float, ln.get_ydata()))]
            for ax in fig.axes for ln in ax.get_lines()]


def same(a, b):
    """Lists of lists of numbers are equal (a missing number equals one)."""
    return len(a) == len(b) and all(
        len(x) == len(y) and all(
            u == v or (u != u and v != v) or abs(u - v) <= 1e-12 * abs(v)
            for u, v in zip(x, y)) for x, y in zip(a, b))


def fig_state(fig):
    return [[(list(map(float, ln.get_xdata())),
              list(map(float, ln.get_ydata()))) for ln in ax.get_lines()] +
            [ax.get_title(), ax.get_xlabel(), ax.get_legend() is None]
            for ax in fig.axes]


def execute(sc, ctx):
    os.environ["SOURCE_DATE_EPOCH"] = "0"
    import matplotlib.pyplot as plt
    import webbrowser
    case = Case(sc, ctx)
    sim = case.sim
    # Each different call is made once in a process of its own.
    want, keys = {}, []
    for op in sc["ops"]:
        key = None
        if op["op"] in ("plot", "template"):
            key = core.canon([op.get(k) for k in (
                "op", "m", "sets", "mix", "miss", "name")])
            if key not in want:
                want[key] = core.in_fork(lambda: case.reference(op))
        keys.append(key)
    before = case.picture()
    settings = repr(sorted(plt.rcParams.items(), key=lambda kv: kv[0]))
    shown = []                  # what a browser was asked to open
    webbrowser.open_new = lambda p: shown.append(
        [p, digest(bytes(sim.files.get(p, b"")))]) or True
    webbrowser.open = webbrowser.open_new
    sim.split, sim.eintr = sc["split"], sc["eintr"]
    mine = {}                   # the caller's figures
    leaked = broken = False
    scrap = set()               # what failed calls left behind
    last = ["start"]
    for op, key in zip(sc["ops"], keys):
        ctx.step()
        ctx.probe(op["op"])
        if op["op"] == "figure":
            fig = plt.figure()
            fig.gca().plot(range(op["n"]), range(op["n"]))
            mine[fig.number] = (fig, fig_state(fig))
            last = ["figure"]
            continue
        if op["op"] == "close":
            for n in list(mine)[:op["n"]]:
                plt.close(mine.pop(n)[0])
            last = ["close"]
            continue
        current = plt.gcf().number if mine else None
        file, call = case.call(op)
        files = sim.snapshot()
        sim.capacity = None if op["capacity"] is None else op["capacity"] + \
            sum(len(b) for p, b in files.items() if p != file)
        sim.arm(op["faults"])
        sim.install()
        failed = crashed = stopped = None
        del shown[:]
        try:
            if op.get("stop"):
                stopped, _ = inject.interrupt_at(call, op["stop"])
            else:
                call()
        except SimCrash:
            crashed = True
        except Exception as e:
            failed = [type(e).__name__, repr(e)]
        finally:
            sim.uninstall()
        # What a broken off plot leaves behind may still hold an open file,
        # which is closed when the garbage is collected: now.
        if failed or crashed or stopped:
            sim.install()
            try:
                gc.collect()
            finally:
                sim.uninstall()
        crashed = crashed or sim.dead
        struck = sim.disarm()
        sim.capacity = None
        hard = p14.errors(struck)
        kind = sc["models"][op["m"] % len(sc["models"])][0] \
            if op["op"] == "plot" else "template"
        outcome = "crash" if crashed else stopped or (failed or ["done"])[0]
        ctx.log(kind, struck, outcome, len(mine))
        ctx.probe(kind + ("-refused" if "error" in want[key] else ""))
        ctx.state([kind, sorted(set(struck)), outcome, last])
        last = [kind, outcome]
        if stopped:
            ctx.fault("interrupt-at-line")
        if crashed:
            sim.restart()
        # Whatever happened, nothing else has changed.
        now = sim.snapshot()
        if failed or crashed or stopped:
            scrap |= set(now) - set(files) - {file}
        for p in sorted((set(files) | set(now)) - scrap):
            ctx.check(crashed or p == file or files.get(p) == now.get(p),
                      "other-file", lambda: "%s changed %s" % (kind, p))
        ctx.check(case.picture() == before, "changed", lambda:
                  "%s changed a model or a data set" % kind)
        for n, (fig, state) in sorted(mine.items()):
            ctx.check(plt.fignum_exists(n) and fig_state(fig) == state,
                      "callers-figure", lambda: "%s (%s) changed or closed a "
                      "figure of the caller" % (kind, outcome))
        ctx.check(repr(sorted(plt.rcParams.items(), key=lambda kv: kv[0])) ==
                  settings, "settings", lambda: "%s (%s) changed the settings "
                  "of matplotlib" % (kind, outcome))
        leaked = leaked or bool(stopped) or bool(crashed)
        if not leaked:
            ctx.check(sorted(plt.get_fignums()) == sorted(mine),
                      "open-figure", lambda: "%s (%s) left a figure open" % (
                          kind, outcome))
            ctx.check(not mine or plt.gcf().number == current,
                      "callers-figure", "another figure is current")
        if crashed or stopped:
            broken = True
            continue
        exp = want[key]
        there = sim.is_dir(posixpath.dirname(file))
        if failed is not None:
            broken = True
            ctx.check(p14.excuses(struck) or not there or
                      exp.get("error") == failed[0], "refused",
                      lambda: "%s failed: %s (in a fresh process: %r)" % (
                          kind, failed[1], exp))
            ctx.check(not shown, "shown", lambda: "%s failed, but was shown" %
                      kind)
            continue
        ctx.check(not hard, "error-lost", lambda: "%s returned normally "
                  "though the storage failed: %s" % (kind, struck))
        ctx.check("error" not in exp and there, "accepted", lambda:
                  "%s succeeded (in a fresh process: %r)" % (kind, exp))
        ctx.check(file in now, "no-file", lambda: file + " was not written")
        data = now[file]
        ctx.check(digest(data) == exp["file"], "wrong-file", lambda:
                  "%s: %s of %d bytes is not what a fresh process writes (%d "
                  "bytes)" % (kind, file, len(data), exp["size"]))
        ctx.check(not exp["wrong"], "wrong-picture", lambda: "%s: %s" % (
            kind, exp["wrong"]))
        ctx.check(shown == ([[file, digest(data)]] if op.get("show") else []),
                  "shown", lambda: "%s: a browser was asked to open %r" % (
                      kind, shown))
        if op["op"] == "template":
            sim.install()
            try:
                ds = case.mc.DataSet(file)
            finally:
                sim.uninstall()
            ctx.check(ds.material == op["name"] and len(ds.data) == 10,
                      "template", lambda: str(ds))
        sim.sync()
        if broken:
            ctx.nontrivial = True
