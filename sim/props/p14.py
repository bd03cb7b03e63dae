"""P14: saved objects come back equal or not at all, under storage faults.

Objects of every kind are worked on, saved and loaded on a simulated file
system that shortens and interrupts transfers, fails at open, write and close,
fills up, and crashes after any operation with only some of what was written
surviving. For every path the simulator knows which objects it may hold.
"""

import copy
import os
import posixpath
import warnings

from sim import business as B
from sim import core, fs, graph, plant
from sim.core import SimCrash

ID = "P14"
IMPORTS = sorted(set(B.IMPORTS + plant.IMPORTS + [
    "jsonpickle", "auxi.core.objects", "auxi.core.reporting",
    "auxi.modelling.financial.reporting",
    "auxi.tools.materialphysicalproperties.polynomial",
    "auxi.tools.materialphysicalproperties.gases",
    "auxi.tools.materialphysicalproperties.slags",
    "auxi.tools.materialphysicalproperties.idealgas"]))
RUNS = {"quick": 1600, "thorough": 40000}
RULE = ("A case is up to three objects (models, ledgers, account structures, "
        "clocks, activities, reports, materials, packages, streams, whole "
        "plants, compounds, property models) and a history of work on them, "
        "saves and loads, each save and load with up to three storage "
        "faults. Non-trivial: a save that failed or crashed, and a later "
        "load of the same path.")
STATE_MEASURE = ("distinct (kind of object, faults that struck the save, "
                 "outcome of a later load)")
REAL = ["auxi.core.objects (save and load)", "jsonpickle",
        "auxi.tools.chemistry.thermochemistry (compound files)",
        "auxi.modelling", "io buffering and text layers"]
STUB = ["the file system below the buffers"]
SHRINK = ("ops", "faults", "entities", "components", "activities",
          "accounts", "materials")

PATHS = ["/sim/a.json", "/sim/b.json", "/sim/sub/c.json"]
DIR = "/sim/compounds"
NAMES = ["plain", "With \"quotes\"", "N\u00fcmber\u00f6\u00df", "two\nlines",
         "back\\slash", "\u65e5\u672c", "", "a/b", "\U0001f600", "tab\t",
         "two  blanks,   three", "five     or          ten", "  edges  ", "\u00a0odd\u2003 blanks\r\n",
         "long " + "words  " * 200, "{\"json\": [1, null]}", "py/object",
         "\\u00e9 \\n %s {0} $x", "nul\x00\x1f", "\ud83d half",
         "cafe\u0301 \u212b \ufb01", "2020-02-01", "2020-02-01T00:00:00",
         "NaN", "1e3", "None"]
KINDS = ["model", "model", "model", "ledger", "structure", "clock",
         "activity", "report", "plant", "plant", "unit", "unit", "material",
         "compound", "compound", "physics"]


# ---------------------------------------------------------------------------
# the objects
# ---------------------------------------------------------------------------

def gen_object(rng, kind):
    spec = {"kind": kind, "name": rng.choice(NAMES)}
    if kind in ("model", "ledger", "structure", "activity", "report",
                "clock"):
        spec["model"] = B.gen_model(rng, kinds=("basic", "basic", "loan"),
                                    max_count=14, max_entities=2,
                                    periods=["day", "month", "month",
                                             "year"])
        spec["steps"] = rng.choice([0, 1, 3, 14])
        if kind in ("model", "ledger") and rng.random() < 0.02:
            spec["bulk"] = rng.choice([300, 1000, 3000])
    if kind in ("plant", "unit", "material"):
        fam = rng.choice(sorted(plant.FAMILIES))
        spec["plant"] = plant.generate(
            rng, fam, "quick", count=rng.randint(3, 8),
            exclude=("reject", "interrupt", "restart"))
    if kind == "compound":
        spec["dir"] = rng.choice(["rao", "nist"])
        spec["r"] = rng.random()
        spec["magnetic"] = rng.random() < 0.3
    if kind == "physics":
        spec["which"] = rng.choice(["poly", "rhoT", "rhoTPx", "riboud",
                                    "wilke", "cp"])
        spec["coeffs"] = [rng.choice([1.5, -2e-3, 1e-30, 0.1, 7.0])
                          for _ in range(rng.randint(1, 4))]
    spec["ix"] = rng.randrange(8)
    return spec


class Thing:
    """One object and what is done with it."""

    def __init__(self, spec, ctx, n):
        self.spec, self.ctx, self.n = spec, ctx, n
        self.done = 0
        getattr(self, "make_" + spec["kind"])()

    @property
    def kind(self):
        return self.spec["kind"]

    # --- business ---------------------------------------------------------
    def make_model(self):
        s = self.spec
        self.model = m = B.build_model(s["model"])
        m.description = s["name"]
        if s["steps"]:
            m.prepare_to_run()
            self.steps(s["steps"])
        e = self.entity()
        if s.get("bulk") and e is not None:
            for i in range(s["bulk"]):
                e.gl.create_transaction(
                    "No. %d: %s" % (i, NAMES[i % len(NAMES)]),
                    description=NAMES[i // 7 % len(NAMES)],
                    tx_date=m.clock.start_datetime, dt_account="Sales",
                    cr_account="Bank/Default", amount=i / 4.0, source="bulk")
            self.ctx.probe("large-object")

    make_ledger = make_structure = make_activity = make_clock = make_model

    def make_report(self):
        from auxi.modelling.financial import reporting
        self.make_model()
        gl = self.entity().gl
        make = [reporting.TransactionList, reporting.BalanceSheet,
                reporting.IncomeStatement,
                reporting.GeneralLedgerStructure][self.spec["ix"] % 4]
        if make is reporting.GeneralLedgerStructure:
            self.report = make(gl.structure, None)
        elif make is reporting.BalanceSheet:
            self.report = make(gl)
        else:
            self.report = make(gl, "2000-01-01", "2099-12-31",
                               "Model/" + self.entity().name, None)

    def steps(self, n):
        m = self.model
        for _ in range(min(n, m.period_count - m.clock.timestep_ix)):
            for e in m.entities:
                e.run(m.clock)
            m.clock.tick()

    def entity(self):
        es = self.model.entities
        return es[self.spec["ix"] % len(es)] if es else None

    def activities(self):
        def rec(c):
            yield from c.activities
            for s in c.components:
                yield from rec(s)
        for e in self.model.entities:
            for c in e.components:
                yield from rec(c)

    # --- plants -----------------------------------------------------------
    def make_plant(self):
        from sim.props.p13 import Quiet

        class Calm(plant.Plant):
            def verify(self, before, touched, kind):
                pass

            def temperature(self, led, T0):
                return T0
        d = os.path.join(self.ctx.scratch, "t%d" % self.n)
        os.makedirs(d, exist_ok=True)
        self.plant = Calm(self.spec["plant"], Quiet((), d))
        for op in self.spec["plant"]["ops"]:
            self.plant.run(op)

    make_unit = make_material = make_plant

    def make_compound(self):
        from auxi.tools.chemistry import thermochemistry as tc
        p = os.path.join(os.path.dirname(tc.default_data_path),
                         self.spec["dir"])
        names = sorted(n for n in os.listdir(p) if n.startswith("Compound_"))
        n = names[int(self.spec["r"] * len(names))]
        self.compound = tc.Compound.read(os.path.join(p, n))
        if self.spec["magnetic"]:
            self.compound = tc.Compound({
                "Formula": "Fe", "Reference": self.spec["name"],
                "Phases": {"bcc": {
                    "Symbol": "bcc", "DHref": 0.0, "Sref": 27.3,
                    "magnetic": {"Tc": 1043.0, "beta0": 2.22, "p": 0.4},
                    "Cp_records": {1811.0: {
                        "Tmin": 298.15, "Tmax": 1811.0, "Terms": [
                            {"Coefficient": 23.5, "Exponent": 0.0},
                            {"Coefficient": 8.8e-3, "Exponent": 1.0}]}}}}})

    def make_physics(self):
        from auxi.tools.materialphysicalproperties import gases, idealgas
        from auxi.tools.materialphysicalproperties import polynomial, slags
        w = self.spec["which"]
        self.physics = (
            polynomial.PolynomialModelT("Air", self.spec["name"], "rho",
                                        r"\rho", "kg/m3", ["x"], ["d"],
                                        self.spec["coeffs"])
            if w == "poly" else idealgas.RhoT(28.5, 101325.0)
            if w == "rhoT" else idealgas.RhoTPx() if w == "rhoTPx" else
            slags.RiboudViscosityTx() if w == "riboud" else
            gases.WilkeMuTx() if w == "wilke" else gases.IdealCpTx())

    # --- what is saved ------------------------------------------------------
    def object(self):
        k, ix = self.kind, self.spec["ix"]
        if k == "model":
            return self.model
        if k == "clock":
            return self.model.clock
        if k in ("ledger", "structure"):
            e = self.entity()
            if e is None:
                return self.model
            return e.gl if k == "ledger" else e.gl.structure
        if k == "activity":
            acts = list(self.activities())
            return acts[ix % len(acts)] if acts else self.model
        if k == "report":
            return self.report
        if k == "plant":
            p = self.plant
            return plant.PlantState(p.mats, p.units)
        if k == "material":
            return self.plant.mats[ix % len(self.plant.mats)]
        if k == "unit":
            us = [u for u in self.plant.units if u is not None]
            return us[ix % len(us)] if us else self.plant.mats[0]
        return getattr(self, k)

    def tweak(self, n):
        """Change the object without changing the size of its text."""
        o = self.object()
        if self.kind in ("plant", "unit"):
            o = self.plant.mats
            for m in o:
                m.description = "tweaked %d" % n
        elif self.kind == "compound":
            o.reference = "tweaked %d" % n
        elif self.kind == "physics":
            o.references = ["tweaked %d" % n]
        elif self.kind == "report":
            o.output_path = "tweaked %d" % n
        elif self.kind != "report":
            o.description = "tweaked %d" % n

    def work(self, r):
        """Change the object as its users do."""
        k = self.kind
        self.done += 1
        if k in ("plant", "unit", "material"):
            ops = [o for o in self.spec["plant"]["ops"] if o[0] != "assay"]
            if not ops:
                return
            self.plant.run(ops[int(r * len(ops)) % len(ops)])
            if k == "material":
                m = self.object()
                n = sorted(a for a in getattr(m, "assays", None) or
                           m.raw_assays)[0]
                m.description = "%s %d" % (n, self.done)
        elif k == "compound":
            c = self.compound
            p = c._phases[c.get_phase_list()[0]]
            p.DHref = p.DHref + 1.0 + r
            c.reference = "worked on %d" % self.done
        elif k == "physics":
            self.physics.references = ["%d" % self.done]
        else:
            m = self.model
            if r < 0.3:
                if m.clock.timestep_ix == 0:
                    m.prepare_to_run()
                self.steps(1 + int(r * 20))
            elif r < 0.45:
                m.run()
            elif r < 0.7 and m.entities:
                e = m.entities[int(r * 100) % len(m.entities)]
                e.gl.create_transaction(
                    "by hand", description=self.spec["name"],
                    tx_date=m.clock.start_datetime, dt_account="Sales",
                    cr_account="Bank/Default", source="x",
                    amount=0.1 + self.done)
                e.gl.structure.get_account("Sales").create_account(
                    "Extra %d" % self.done, "77")
            elif r < 0.85:
                m.name = "Renamed %d" % self.done
            else:
                for a in self.activities():
                    a.description = self.spec["name"] + str(self.done)


def follow(obj, other=None):
    """What an object does from here on, as plain data."""
    t = type(obj).__module__ + "." + type(obj).__name__
    out = [t]

    def note(what, fn):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                v = fn()
        except Exception as e:
            v = "%s: %s" % (type(e).__name__, e)
        out.append([what, v])
    if t.endswith("TimeBasedModel"):
        note("paths", lambda: [[e.path, [c.path for c in e.components]]
                               for e in obj.entities])
        note("reports", lambda: [e.gl.balance_sheet(format=string())
                                 for e in obj.entities])

        def go():
            for e in obj.entities:
                if obj.clock.timestep_ix:
                    e.run(obj.clock)
            obj.clock.tick()
            return [B.ledger_rows(e) for e in obj.entities]
        note("step", go)
        note("run", obj.run)
        note("ledgers", lambda: [B.ledger_rows(e) for e in obj.entities])
    elif t.endswith("GeneralLedger"):
        note("lists", lambda: [obj.transaction_list(format=string()),
                               obj.balance_sheet(format=string()),
                               obj.income_statement(format=string())])
        note("post", lambda: B.tx_row(obj.create_transaction(
            "n", tx_date=obj.transactions[0].tx_date if obj.transactions
            else __import__("datetime").datetime(2020, 1, 1),
            dt_account="Sales", cr_account="Bank/Default", amount=1.0,
            source="s")))
        note("rows", lambda: [B.tx_row(x) for x in obj.transactions])
    elif t.endswith("des.GeneralLedgerStructure"):
        note("report", lambda: obj.report(format=string()))
        note("create", lambda: str(obj.get_account("Bank").create_account(
            "Z", "1").path))
        note("lookup", lambda: obj.get_account("Bank/Z").path)
    elif t.endswith("Clock"):
        note("dates", lambda: [str(obj.get_datetime()),
                               str(obj.get_datetime_at_period_ix(7)),
                               obj.tick(), str(obj.get_datetime())])
    elif ".reporting." in t:
        note("render", lambda: obj.render(string()))
    elif ".basic." in t:
        note("activity", lambda: [obj.path, str(obj.start_datetime),
                                  str(obj.end_datetime), obj.amount,
                                  obj.interval])
    elif t.endswith("PlantState"):
        for m in obj.materials:
            out.append(follow(m))
        for p in obj.units:
            if p is not None:
                out.append(follow(p))
        note("sharing", lambda: [[p is q for q in obj.units]
                                 for p in obj.units])
    elif t.endswith(".Material"):
        note("text", lambda: str(obj))
        for a in sorted(getattr(obj, "assays", None) or obj.raw_assays):
            note(a, lambda: [str(x) for x in create(obj, a)])
    elif "Package" in t or "Stream" in t:
        note("text", lambda: str(obj))
        note("half", lambda: str(obj * 0.5))
        note("twice", lambda: str(obj + obj))
        note("clone", lambda: str(obj.clone()))
        note("assay", lambda: [float(x) for x in obj.get_assay()])
        if hasattr(obj, "T") and not callable(obj.T):
            note("hotter", lambda: setattr(obj, "T", obj.T + 50.0))
            note("text", lambda: str(obj))
        note("part", lambda: str(obj.extract(0.001)))
        note("rest", lambda: str(obj))
        note("clear", lambda: [obj.clear(), str(obj)])
    elif t.endswith("thermochemistry.Compound"):
        for p in obj.get_phase_list():
            for T in (298.15, 500.0, 1043.0, 2000.0, 7000.0):
                note([p, T], lambda: [repr(getattr(obj, f)(p, T))
                                      for f in ("Cp", "H", "S", "G")])
        note("data", lambda: [obj.formula, obj.molar_mass, obj.reference])
    else:
        for T in (300.0, 1500.0, -1.0):
            for kw in ({"T": T}, {"T": T, "x": {"N2": 0.7, "O2": 0.3}},
                       {"T": T, "P": 2e5, "x": {"N2": 1.0}},
                       {"T": T, "x": {"SiO2": 0.5, "CaO": 0.5}}):
                note(str(kw), lambda: repr(obj.calculate(**kw)))
    return out


def create(material, assay):
    if "thermo" in type(material).__module__:
        return [material.create_package(assay, 2.0, 1.0, 40.0, True),
                material.create_stream(assay, 2.0, 1.0, 40.0, True)]
    return [material.create_package(assay, 2.0, True)]


def string():
    from auxi.core.reporting import ReportFormat
    return ReportFormat.string


# ---------------------------------------------------------------------------
# generation
# ---------------------------------------------------------------------------

ERRORS = ["EIO", "ENOSPC", "EDQUOT"]


def gen_save_faults(rng):
    if rng.random() < 0.4:
        return []
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        if r < 0.35:
            f = {"op": "any", "n": rng.choice([1, 2, 2, 3, 3, 4, 5, 6]),
                 "kind": rng.choice(["kill", "power"]), "keep": rng.random()}
        elif r < 0.5:
            f = {"op": "open", "n": 1, "kind": rng.choice(
                ["EIO", "EACCES", "ENOSPC", "EMFILE", "EROFS"])}
        elif r < 0.58:      # what a save that goes by another file meets
            f = {"op": rng.choice(["rename", "rename", "fsync"]), "n": 1,
                 "kind": rng.choice(["EIO", "EACCES", "ENOSPC"])}
        elif r < 0.82:
            f = {"op": "write", "n": rng.choice([1, 1, 1, 2, 3]),
                 "kind": rng.choice(ERRORS + ["short", "EINTR"]),
                 "keep": rng.choice([0.0, rng.random(), 0.99])}
        else:
            f = {"op": "close", "n": 1, "kind": rng.choice(ERRORS)}
        out.append(f)
    return out


def gen_load_faults(rng):
    if rng.random() < 0.75:
        return []
    return [rng.choice([
        {"op": "open", "n": 1, "kind": rng.choice(["EIO", "EMFILE",
                                                   "EACCES"])},
        {"op": "read", "n": rng.choice([1, 1, 2]),
         "kind": rng.choice(["EIO", "short", "EINTR"]), "keep": 0.0}])]


def generate(rng, tier, index):
    objs = [gen_object(rng, rng.choice(KINDS))
            for _ in range(rng.choice([1, 2, 2, 3]))]
    ops = []
    for _ in range(rng.randint(4, 12 if tier == "quick" else 24)):
        r = rng.random()
        i = rng.randrange(len(objs))
        path = rng.randrange(len(PATHS))
        if r < 0.25:
            ops.append({"op": "work", "i": i, "r": rng.random()})
        elif r < 0.65:
            ops.append({"op": "save", "i": i, "path": path,
                        "how": rng.random(), "faults": gen_save_faults(rng),
                        "capacity": rng.choice([None] * 7 +
                                               [rng.randint(0, 9000)])})
        else:
            ops.append({"op": "load", "path": path, "i": i,
                        "adopt": rng.random() < 0.3,
                        "faults": gen_load_faults(rng)})
    if rng.random() < 0.5:
        # One path used again and again for nearly the same object.
        i, path, at = (rng.randrange(len(objs)), rng.randrange(len(PATHS)),
                       rng.randrange(len(ops) + 1))
        again = []
        for k in range(rng.randint(2, 4)):
            again += [
                {"op": "tweak", "i": i, "r": k},
                {"op": "save", "i": i, "path": path, "how": 0.5,
                 "faults": gen_save_faults(rng) if rng.random() < 0.3
                 else [], "capacity": None},
                {"op": "load", "path": path, "i": i, "adopt": False,
                 "faults": []}]
        ops[at:at] = again
    for p in range(len(PATHS)):
        ops.append({"op": "load", "path": p, "i": 0, "adopt": False,
                    "faults": []})
    return {"objs": objs, "ops": ops, "split": rng.choice(
        [0, 0, 0, 29, 100, 1000]), "eintr": rng.choice([0.0, 0.0, 0.1]),
        "fs": rng.randrange(1 << 30)}


HARD = ("EIO", "ENOSPC", "EDQUOT", "EACCES", "EMFILE", "EROFS", "disk")


def errors(struck, ops=("open", "read", "write", "close", "list", "fsync")):
    """The faults that have to be reported. One in moving a file may be
    overcome; what counts then is what the file holds."""
    return [s for s in struck if s.split("-")[-1] in HARD and
            s.split("-")[0] in ops]


def excuses(struck):
    """The faults for which a call may fail."""
    return errors(struck, ("open", "read", "write", "close", "list", "fsync",
                           "rename"))


# ---------------------------------------------------------------------------
# execution
# ---------------------------------------------------------------------------

class Path:
    """What a file may hold."""

    def __init__(self):
        self.options = []       # [(picture, behaviour)]
        self.certain = False
        self.failed = None


def execute(sc, ctx):
    from auxi.core.objects import Object
    from auxi.tools.chemistry import thermochemistry as tc
    os.makedirs(ctx.scratch, exist_ok=True)
    warnings.simplefilter("ignore")
    things = [Thing(s, ctx, n) for n, s in enumerate(sc["objs"])]
    sim = fs.SimFS(ctx, sc["fs"])
    for p in PATHS + [DIR + "/x"]:
        sim.mkdir(posixpath.dirname(p))
    sim.split, sim.eintr = sc["split"], sc["eintr"]
    known = {}
    adopted = {}
    for op in sc["ops"]:
        ctx.step()
        thing = things[op["i"] % len(things)]
        if op["op"] == "tweak":
            adopted.pop(op["i"] % len(things), None)
            thing.tweak(op["r"])
            continue
        if op["op"] == "work":
            adopted.pop(op["i"] % len(things), None)
            thing.work(op["r"])
            continue
        if op["op"] == "save":
            obj = adopted.get(op["i"] % len(things)) or thing.object()
            save(op, obj, thing, sim, known, ctx, tc)
        else:
            names = [PATHS[op["path"]]]
            if op["path"] == 0:
                names += sorted(p for p in known if p.startswith(DIR))
            for path in names:
                back = load(op, path, sim, known, ctx, Object)
                if back is not None and op["adopt"] and \
                        thing.kind not in ("plant", "unit", "material") and \
                        type(back) is type(thing.object()):
                    adopted[op["i"] % len(things)] = back


def behaviour(obj):
    return core.in_fork(lambda: follow(obj))


def save(op, obj, thing, sim, known, ctx, tc):
    compound = type(obj).__name__ == "Compound"
    if compound and op["how"] < 0.6:
        path = DIR + "/Compound_%s.json" % obj.formula
        call = lambda: tc.write_compound_to_auxi_file(DIR, obj)
    else:
        path = PATHS[op["path"]]
        call = lambda: obj.write(path)
    before = graph.picture(obj)
    does = behaviour(obj)
    others = {p: b for p, b in sim.snapshot().items() if p in known and
              p != path}
    sim.capacity = op["capacity"]
    sim.arm(op["faults"])
    sim.install()
    crashed = failed = None
    try:
        call()
    except SimCrash:
        crashed = True
    except OSError as e:
        failed = e
    except Exception as e:
        failed = e
    finally:
        sim.uninstall()
    crashed = crashed or sim.dead
    struck = sim.disarm()
    sim.capacity = None
    ctx.log("save", thing.kind, path, struck, type(failed).__name__)
    st = known.setdefault(path, Path())
    if crashed:
        sim.restart()
        st.options.append((before, does))
        st.certain = False
        st.failed = struck
    elif failed is not None:
        ctx.check(excuses(struck), "save-refused", lambda: "saving a %s "
                  "failed without a storage fault: %r" % (thing.kind,
                                                          failed))
        st.options.append((before, does))
        st.certain = False
        st.failed = struck
    else:
        ctx.check(not errors(struck), "save-error-lost", lambda:
                  "saving a %s returned normally though the storage failed: "
                  "%s" % (thing.kind, struck))
        st.options = [(before, does)]
        st.certain = True
        st.failed = None
        sim.sync()
    after = graph.picture(obj)
    ctx.check(after == before, "changed-by-save", lambda:
              graph.difference(before, after))
    if not crashed:
        now = sim.snapshot()
        for p, b in others.items():
            ctx.check(now.get(p) == b, "other-file", lambda: p +
                      " was changed by saving to " + path)


def load(op, path, sim, known, ctx, Object):
    st = known.get(path)
    content = sim.snapshot()
    sim.arm(op["faults"])
    sim.install()
    back = failed = None
    try:
        back = Object.read(path)
    except Exception as e:
        failed = e
    finally:
        sim.uninstall()
    struck = sim.disarm()
    ctx.check(sim.snapshot() == content, "changed-by-load",
              "loading changed a file")
    if failed is not None:
        ctx.log("load", path, type(failed).__name__, struck)
        ctx.check(st is None or not st.certain or errors(struck),
                  "lost", lambda: "what was saved cannot be loaded: %r" %
                  (failed,))
        if st is not None and not errors(struck):
            ctx.state(["load", "raised", st.failed])
            ctx.nontrivial = True
        return None
    ctx.check(st is not None, "from-nothing", "a file that was never saved "
              "was loaded")
    now = graph.picture(back)
    match = [d for p, d in st.options if p == now]
    ctx.check(match, "different", lambda: "after %s: %s" % (
        st.failed, graph.difference(st.options[-1][0], now)))
    does = behaviour(back)
    ctx.check(does in match, "behaves-differently", lambda:
              graph.difference(match[-1], does))
    ctx.log("load", path, struck, core.short_hash(does))
    ctx.state(["load", now[0], st.failed])
    if st.failed:
        ctx.nontrivial = True
    return back
