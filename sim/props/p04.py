"""P04: entities and models do not depend on each other or the wall clock."""

import copy
import random
import sys
import time
from datetime import datetime, timedelta

from sim import business as B
from sim import core

ID = "P04"
IMPORTS = B.IMPORTS
DETERMINISM = True
RECHECK = 200
RUNS = {"quick": 900, "thorough": 20000}
RULE = ("A case is two to four generated models, with shared or separate "
        "account structures, stepped by a seeded scheduler in an interleaved "
        "order, while other models are built, run, reported on and removed "
        "and the simulated wall clock jumps. Non-trivial: at least two models "
        "were in the middle of their runs at the same time and one ledger is "
        "not empty.")
STATE_MEASURE = "distinct interleavings (order of the first 60 steps)"
REAL = ["auxi.modelling.business", "auxi.modelling.financial",
        "auxi.core.time"]
STUB = ["the scheduler of the models' steps", "the wall clock (datetime.now "
        "and time.time as seen by the library)"]
SHRINK = ("models", "entities", "components", "activities", "accounts",
          "noise", "schedule")


def generate(rng, tier, index):
    n = rng.choice([2, 2, 3, 4])
    models = []
    shared = rng.random() < 0.6
    structures = [B.gen_structure(rng)]
    same_names = rng.random() < 0.5
    for i in range(n):
        m = B.gen_model(rng, kinds=("basic", "basic", "loan"), max_count=26,
                        periods=["day", "week", "month", "month", "year"],
                        max_entities=2,
                        name="Model" if same_names else "Model%d" % i)
        if shared:
            m["structures"] = structures
            types = B.account_types(structures[0])
            start = B.dec_dt(m["start"])
            for e in m["entities"]:
                e["gls"] = 0
                e["components"] = [B.gen_component(
                    rng, "C%d" % k, 1, types, start, m["duration"],
                    m["count"], ("basic", "loan")) for k in range(2)]
        if rng.random() < 0.4:
            busy(rng, m)
        if models and rng.random() < 0.5:
            m = twin(rng, rng.choice(models), m["name"])
        models.append(m)
    total = sum(m["count"] + 1 for m in models)
    schedule = [rng.randrange(n) for _ in range(total * 2)]
    noise = [[rng.randrange(max(total, 1)), rng.choice(
        ["build", "run-other", "report", "jump", "jump", "jump",
         "entity-other", "prepare-other"])] for _ in range(rng.randint(1, 8))]
    return {"models": models, "shared": shared, "schedule": schedule,
            "before": [[rng.randrange(n), rng.choice([0, 1, 3, 14, -1])]
                       for _ in range(rng.choice([0, 0, 1, 2, 4]))],
            "late": [i for i in range(n) if rng.random() < 0.3],
            "noise": noise, "clock": rng.randrange(10**9),
            "jumps": [rng.choice([-1, 1]) * rng.choice(
                [1, 3600, 86400 * 40, 86400 * 4000]) for _ in range(10)]}


def busy(rng, m):
    """Let many accounts move in years that are completed."""
    m["duration"] = rng.choice(["month", "month", "year"])
    m["count"] = rng.choice([13, 14, 25]) if m["duration"] == "month" else \
        rng.randint(2, 5)
    for e in m["entities"]:
        types = B.account_types(m["structures"][e["gls"]])
        income = [a for a in sorted(types) if types[a] in
                  ("revenue", "expense") and a not in (B.GP, B.IS)]
        acts = []
        for k, a in enumerate(rng.sample(income, rng.randint(
                3, min(9, len(income))))):
            pair = [a, "Bank/Default"]
            rng.shuffle(pair)
            acts.append({"t": "basic", "name": "busy%d" % k, "desc": None,
                         "dt": pair[0], "cr": pair[1],
                         "amount": B.gen_amount(rng), "start": "min",
                         "end": "max", "interval": rng.choice([1, 1, 2])})
        e["components"].append({"name": "Busy", "components": [],
                                "activities": acts})


def activities(comps):
    for c in comps:
        yield from c["activities"]
        yield from activities(c["components"])


def twin(rng, model, name):
    """The same model but for one or two things."""
    m = copy.deepcopy(model)
    m["name"] = rng.choice([m["name"], name])
    acts = list(activities(rng.choice(m["entities"])["components"]))
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice(["duration", "duration", "count", "start", "activity",
                        "activity", "structure"])
        if k == "duration":
            m[k] = rng.choice(["day", "week", "month", "year"])
            if m[k] == "year":
                m["count"] = min(m["count"], 8)
        elif k == "count":
            m[k] = rng.choice([m[k] + 1, max(m[k] - 1, 0), 13])
            if m["duration"] == "year":
                m["count"] = min(m["count"], 8)
        elif k == "start" and m["start_as"] == "datetime":
            m[k] = B.enc(B.dec_dt(m[k]) + timedelta(days=rng.choice(
                [1, -1, 31, -31, 365])))
        elif k == "activity" and acts:
            a, other = rng.choice(acts), rng.choice(acts)
            f = rng.choice(sorted(set(a) & set(other) - {"t", "name", "omit",
                                                         "interval"}))
            if f not in a.get("omit", ()):
                a[f] = other[f] if rng.random() < 0.5 or f != "amount" \
                    else B.gen_amount(rng)
        elif k == "structure":
            for st in m["structures"]:      # the same accounts in another order
                made = {x[0] + "/" + x[1] for x in st["accounts"]}
                if not any(x[0] in made for x in st["accounts"]):
                    st["accounts"] = st["accounts"][::-1]
    return m


class WallClock:
    """The wall clock the library would see if it looked."""

    def __init__(self, offset):
        self.now = datetime(2001, 2, 3) + timedelta(seconds=offset)
        self.reads = 0

    def install(self):
        clock = self

        class Kind(type(datetime)):
            """SimDatetime makes, and is, the class of ordinary datetimes."""

            def __instancecheck__(cls, x):
                return isinstance(x, datetime)

            def __subclasscheck__(cls, c):
                return issubclass(c, datetime)

            def __call__(cls, *args, **kwargs):
                return datetime(*args, **kwargs)

        class SimDatetime(datetime, metaclass=Kind):
            combine = datetime.combine
            fromisoformat = datetime.fromisoformat
            fromtimestamp = datetime.fromtimestamp
            strptime = datetime.strptime

            @classmethod
            def now(cls, tz=None):
                clock.reads += 1
                return clock.now

            @classmethod
            def utcnow(cls):
                clock.reads += 1
                return clock.now

            @classmethod
            def today(cls):
                clock.reads += 1
                return clock.now

        for name, mod in sorted(sys.modules.items()):
            if name == "auxi" or name.startswith("auxi."):
                if getattr(mod, "datetime", None) is datetime:
                    mod.datetime = SimDatetime
        base = datetime(1970, 1, 1)
        time.time = lambda: (clock.now - base).total_seconds()


def stepper(models, i, build):
    """The steps of a model's run, as the model's own run makes them."""
    if models[i] is None:
        models[i] = build(i)
    model = models[i]
    model.prepare_to_run()
    yield
    for _ in range(model.period_count):
        for e in model.entities:
            e.run(model.clock)
            yield
        model.clock.tick()


def isolated(spec, clock, only=None):
    """The ledgers of a model, or of one entity, alone in its process."""
    spec = copy.deepcopy(spec)
    if only is not None:
        spec["entities"] = [spec["entities"][only]]

    def work():
        WallClock(clock).install()
        m = B.build_model(spec)
        m.run()
        return [B.ledger_rows(e) for e in m.entities]
    return core.in_fork(work)


def execute(sc, ctx):
    specs = sc["models"]
    if not specs:
        return
    want = [[isolated(s, 0, e)[0] for e in range(len(s["entities"]))]
            for s in specs]
    # Two executions of the same model, at another time of the wall clock.
    again = isolated(specs[0], sc["clock"] + 99)
    ctx.check(again == want[0], "not-repeatable",
              "two executions of the same model differ")
    clock = WallClock(sc["clock"])
    clock.install()
    if sc["shared"]:
        gls = [B.build_structure(s) for s in specs[0]["structures"]]
    else:
        gls = None

    def build(i):
        return B.build_model(specs[i], gls)
    for i in sc.get("before", ()):      # gone when the others are built
        s = copy.deepcopy(specs[i[0] % len(specs)])
        if s["start_as"] == "datetime":
            s["start"] = B.enc(B.dec_dt(s["start"]) + timedelta(days=i[1]))
        m = B.build_model(s)
        m.run()
        ctx.probe("model-run-before")
        del m
    late = set(sc.get("late", ()))
    models = [None if i in late else build(i) for i in range(len(specs))]
    gens = [stepper(models, i, build) for i in range(len(models))]
    live = set(range(len(models)))
    started = set()
    order = []
    noise = {}
    for at, what in sc["noise"]:
        noise.setdefault(at, []).append(what)
    jumps = list(sc["jumps"])
    schedule = list(sc["schedule"])
    n = 0
    overlap = False
    extra = []
    while live:
        for what in noise.get(n, ()):
            if what == "jump" and jumps:
                clock.now += timedelta(seconds=jumps.pop())
                ctx.fault("wall-clock-jump")
            elif what == "build":
                extra.append(B.build_model(specs[n % len(specs)]))
                ctx.probe("model-built-midway")
            elif what == "run-other":
                B.build_model(specs[(n + 1) % len(specs)]).run()
                ctx.probe("model-run-midway")
            elif what == "prepare-other" and extra:
                extra[-1].prepare_to_run()
            elif what == "report":
                from auxi.core.reporting import ReportFormat
                m = models[n % len(models)]
                for e in m.entities if m else ():
                    e.gl.balance_sheet(format=ReportFormat.string)
                    e.gl.income_statement(format=ReportFormat.string)
                ctx.probe("report-midway")
            elif what == "entity-other" and extra:
                x = extra[-1]
                if x.entities:
                    x.remove_entity(x.entities[0].name)
        i = schedule.pop(0) % len(models) if schedule else min(live)
        n += 1
        if i not in live:
            i = min(live)
        order.append(i)
        started.add(i)
        try:
            next(gens[i])
        except StopIteration:
            live.discard(i)
        if len(started & live) > 1:
            overlap = True
        ctx.step()
    ctx.state(order[:60])
    got = [[B.ledger_rows(e) for e in m.entities] for m in models]
    ctx.log("ledgers", got)
    ctx.probe("wall-clock-reads", clock.reads)
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            for j, (a, b) in enumerate(zip(g, w)):
                if a != b:
                    k = next((k for k, (x, y) in enumerate(zip(a, b))
                              if x != y), min(len(a), len(b)))
                    ctx.fail("interference", "model %d entity %d: transaction "
                             "%d is %r, alone it is %r (%d and %d "
                             "transactions)" % (
                                 i, j, k, a[k] if k < len(a) else None,
                                 b[k] if k < len(b) else None,
                                 len(a), len(b)))
    if overlap and any(any(x) for x in got):
        ctx.nontrivial = True
    for s in specs:
        d = B.ref_dates(s)
        if len(d) > 1:
            ctx.sim_seconds += (d[-1] - d[0]).total_seconds()
