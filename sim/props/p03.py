"""P03: a re-run equals a first run, whatever happened before."""

import copy
import os

from sim import business as B
from sim import inject
from sim.core import Injected

ID = "P03"
IMPORTS = B.IMPORTS + ["auxi.core.objects", "jsonpickle"]
RUNS = {"quick": 1400, "thorough": 30000}
RULE = ("A case is a generated model and a history of runs: completed, broken "
        "off by a failing activity, interrupted at an arbitrary executed "
        "line, separated by reconfigurations, saves and restores. "
        "Non-trivial: an earlier run (complete or broken off) and a final "
        "ledger that is not empty.")
STATE_MEASURE = ("distinct (function in which the run was interrupted, "
                 "kinds of the operations before the judged run)")
REAL = ["auxi.modelling.business", "auxi.modelling.financial.des",
        "auxi.core.time", "auxi.core.objects", "jsonpickle"]
STUB = ["interrupts (raised between two executed lines)",
        "failing activities"]
SHRINK = ("entities", "components", "activities", "accounts", "history")
ASSUMPTIONS = ["the bounds of a loan are not set by hand after its "
               "creation"]


def comps_of(espec):
    """[(index path, component spec)] of an entity spec."""
    out = []

    def rec(c, path):
        out.append((path, c))
        for i, s in enumerate(c["components"]):
            rec(s, path + [i])
    for i, c in enumerate(espec["components"]):
        rec(c, [i])
    return out


def gen_edit(rng, spec):
    kind = rng.choice(["count", "count", "start", "duration", "amount",
                       "amount", "rate", "months", "interval", "window", "window",
                       "rename", "remove", "add_activity", "add_component",
                       "account"])
    return {"op": "edit", "kind": kind, "r": [rng.random() for _ in range(6)],
            "seed": rng.randrange(1 << 30)}


def generate(rng, tier, index):
    spec = B.gen_model(rng, kinds=("basic", "basic", "loan"), max_count=30,
                       periods=["day", "week", "month", "month", "month",
                                "year", "hour"], max_entities=2)
    if spec["count"] < 2:
        spec["count"] = rng.randint(2, 26)
    spec["entities"][0]["components"][0]["activities"].insert(
        0, {"t": "failing", "name": "fails"})
    if rng.random() < 0.5:
        spec["entities"][-1]["components"].append(
            {"name": "Last", "components": [], "activities": [
                {"t": "failing", "name": "fails last"}]})
    history = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        r = rng.random()
        if r < 0.25:
            history.append({"op": "run"})
        elif r < 0.55:
            history.append({"op": "interrupt", "frac": rng.random()})
        elif r < 0.75:
            history.append({"op": "fail", "at": rng.randint(
                0, max(0, spec["count"] - 1)),
                "name": rng.choice(["fails", "fails last"])})
        elif r < 0.8:
            history.append({"op": "abandon", "frac": rng.random()})
        elif r < 0.88:
            history.append({"op": "save"})
        else:
            history.append({"op": "restore"})
        while rng.random() < 0.45:
            history.append(gen_edit(rng, spec))
    return {"model": spec, "history": history}


def pick(seq, x):
    return seq[int(x * len(seq)) % len(seq)]


def find_comp(model, ei, path):
    c = model.entities[ei]
    for i in path:
        c = c.components[i]
    return c


def apply_edit(spec, model, ed):
    """Edit the specification and, through the public interface, the model.
    The specification is what a fresh model is built from."""
    import random
    from auxi.core.time import TimePeriod
    rng = random.Random(ed["seed"])
    r = ed["r"]
    kind = ed["kind"]
    start = B.dec_dt(spec["start"])
    if kind == "count":
        spec["count"] = rng.randint(0, 30)
        model.period_count = spec["count"]
        return True
    if kind == "start":
        new = B.gen_start(rng)
        spec["start"] = B.enc(new)
        spec["start_as"] = "datetime"
        model.clock.start_datetime = new
        return True
    if kind == "duration":
        spec["duration"] = rng.choice(["day", "week", "month", "year"])
        if spec["duration"] == "year":
            spec["count"] = min(spec["count"], 8)
            model.period_count = spec["count"]
        model.clock.timestep_period_duration = TimePeriod[spec["duration"]]
        return True
    if not spec["entities"]:
        return False
    ei = int(r[0] * len(spec["entities"]))
    espec = spec["entities"][ei]
    if kind == "account":
        gi = espec["gls"]
        name = "New%d" % rng.randrange(1000)
        spec["structures"][gi]["accounts"].append(["Sales", name, "9999"])
        model.entities[ei].gl.structure.get_account("Sales").create_account(
            name, "9999")
        return True
    comps = comps_of(espec)
    if kind == "rename" and (r[1] < 0.3 or not comps):
        name = "Renamed %d" % rng.randrange(1000)
        if r[1] < 0.1:
            spec["name"] = name
            model.name = name
        else:
            espec["name"] = name
            model.entities[ei].name = name
        return True
    if not comps:
        return False
    path, cspec = pick(comps, r[2])
    comp = find_comp(model, ei, path)
    if kind == "rename":
        name = "Renamed %d" % rng.randrange(1000)
        if cspec["activities"] and r[3] < 0.5:
            i = int(r[4] * len(cspec["activities"]))
            if cspec["activities"][i]["t"] == "failing":
                return False
            cspec["activities"][i]["name"] = name
            comp.activities[i].name = name
        else:
            cspec["name"] = name
            comp.name = name
        return True
    if kind == "remove":
        if len(spec["entities"]) > 1 and r[3] < 0.25:
            model.remove_entity(espec["name"])
            spec["entities"].pop(ei)
            return True
        parent = model.entities[ei] if len(path) == 1 else \
            find_comp(model, ei, path[:-1])
        owner = espec
        for i in path[:-1]:
            owner = owner["components"][i]
        parent.remove_component(cspec["name"])
        owner["components"].pop(path[-1])
        return True
    types = B.account_types(spec["structures"][espec["gls"]])
    if kind == "add_activity":
        a = B.gen_activity(rng, "added %d" % rng.randrange(10000), types,
                           start, spec["duration"], spec["count"],
                           ("basic", "loan"))
        comp.add_activity(B.make_activity(a))
        cspec["activities"].append(a)
        return True
    if kind == "add_component":
        c = B.gen_component(rng, "added %d" % rng.randrange(10000), 1, types,
                            start, spec["duration"], spec["count"],
                            ("basic", "loan"), 2)
        B.build_component(comp, c)
        cspec["components"].append(c)
        return True
    if not cspec["activities"]:
        return False
    i = int(r[4] * len(cspec["activities"]))
    a, act = cspec["activities"][i], comp.activities[i]
    if a["t"] == "failing":
        return False
    if kind == "amount":
        a["amount"] = rng.choice([0, 10, 77.25, 4000])
        act.amount = a["amount"]
        return True
    if kind == "rate" and a["t"] == "loan":
        a["rate"] = rng.choice([0.0, 0.2, 0.33])
        act.interest_rate = a["rate"]
        return True
    if kind == "months" and a["t"] == "loan":
        a["months"] = rng.choice([0, 2, 9, 30])
        act.duration = a["months"]
        return True
    if kind == "interval" and a["t"] == "basic":
        a["interval"] = rng.choice([1, 2, 3])
        act.interval = a["interval"]
        return True
    if kind == "window" and a["t"] == "basic":
        s = B.gen_bound(rng, start, spec["duration"], spec["count"], True)
        e = B.gen_bound(rng, start, spec["duration"], spec["count"], False)
        a["start"], a["end"] = (B.enc(B.dec_dt(s)), B.enc(B.dec_dt(e)))
        act.start_datetime = B.dec_dt(s)
        act.end_datetime = B.dec_dt(e)
        return True
    return False


def execute(sc, ctx):
    from auxi.core.objects import Object
    from sim import scripted
    os.makedirs(ctx.scratch, exist_ok=True)
    path = os.path.join(ctx.scratch, "model.json")
    spec = copy.deepcopy(sc["model"])
    model = B.build_model(spec)
    saved = None
    ran = False
    kinds = []
    where = None
    for op in sc["history"]:
        scripted.ARMED.clear()
        ctx.step()
        if op["op"] == "run":
            model.run()
            ran = True
            compare(ctx, spec, model, kinds, where)
        elif op["op"] == "interrupt":
            total, _ = inject.count_lines(B.build_model(spec).run)
            n = 1 + int(op["frac"] * total)
            where, _ = inject.interrupt_at(model.run, n)
            if where is not None:
                ctx.fault("interrupt-at-line")
            ran = True
            ctx.log("interrupted", where)
        elif op["op"] == "fail":
            scripted.ARMED.update(at=op["at"], name=op["name"])
            try:
                model.run()
            except Injected:
                ctx.fault("failing-activity")
            ran = True
            scripted.ARMED.clear()
        elif op["op"] == "abandon":
            model.prepare_to_run()
            for _ in range(int(op["frac"] * spec["count"])):
                for e in model.entities:
                    e.run(model.clock)
                model.clock.tick()
            ctx.fault("run-abandoned")
            ran = True
        elif op["op"] == "save":
            model.write(path)
            saved = copy.deepcopy(spec)
        elif op["op"] == "restore":
            if saved is None:
                model.write(path)
                saved = copy.deepcopy(spec)
            model = Object.read(path)
            spec = copy.deepcopy(saved)
            ctx.fault("restart-from-file")
        elif op["op"] == "edit":
            if apply_edit(spec, model, op):
                ctx.probe("edit-" + op["kind"])
        kinds.append(op["op"] if op["op"] != "edit" else op["kind"])
    scripted.ARMED.clear()
    model.run()
    rows = compare(ctx, spec, model, kinds, where)
    if ran and any(rows):
        ctx.nontrivial = True
    if spec["count"] > 1:
        d = B.ref_dates(spec)
        ctx.sim_seconds += (d[-1] - d[0]).total_seconds()


def compare(ctx, spec, model, kinds, where):
    fresh = B.build_model(spec)
    fresh.run()
    got = [B.ledger_rows(e) for e in model.entities]
    want = [B.ledger_rows(e) for e in fresh.entities]
    ctx.log("ledgers", got)
    ctx.state([where, kinds])
    ctx.check(len(got) == len(want), "entities", "the entities differ")
    for e, g, w in zip(fresh.entities, got, want):
        if g != w:
            n = next((i for i, (a, b) in enumerate(zip(g, w)) if a != b),
                     min(len(g), len(w)))
            ctx.fail("stale-run", "entity %r: transaction %d of %d (%d in a "
                     "fresh model) differs: %r instead of %r; after %s" % (
                         e.name, n, len(g), len(w),
                         g[n] if n < len(g) else None,
                         w[n] if n < len(w) else None, kinds))
    return got
