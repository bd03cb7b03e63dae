"""P01: activities post exactly in their scheduled periods."""

from collections import Counter

from sim import business as B

ID = "P01"
RUNS = {"quick": 6000, "thorough": 60000}
RULE = ("A case is a generated model (period length, horizon, start date, "
        "entities, component trees, activities with windows and intervals) "
        "plus a stepping plan: run as a whole, or stepped by hand with the "
        "entities in another order per period and with stalled entities and "
        "skipped clock periods. Non-trivial: at least one posting expected "
        "and at least one activity with a bounded window or interval > 1.")
STATE_MEASURE = ("distinct (first period, last period, interval, horizon) "
                 "shapes of activity windows met")
REAL = ["auxi.modelling.business (models, structure, basic)",
        "auxi.modelling.financial.des", "auxi.core.time", "dateutil"]
STUB = ["the caller that steps the model (stepping order, stalls, jumps)"]
IMPORTS = B.IMPORTS
SHRINK = ("entities", "components", "activities", "accounts", "stalls",
          "jumps")
ASSUMPTIONS = ["intervals are positive", "amounts are exact binary fractions"]


def generate(rng, tier, index):
    m = B.gen_model(rng, kinds=("basic",),
                    max_count=60 if tier == "thorough" else 40)
    if rng.random() < 0.06:
        stretch(rng, m)
    plan = {"mode": rng.choice(["run", "step", "step"])}
    if plan["mode"] == "step":
        plan["orders"] = rng.random() < 0.7
        plan["order_seed"] = rng.randrange(1 << 30)
        n = max(m["count"], 1)
        ne = len(m["entities"])
        plan["stalls"] = [[rng.randrange(n), rng.randrange(ne)]
                          for _ in range(rng.choice([0, 0, 1, 3, 6]))]
        plan["jumps"] = sorted({rng.randrange(n)
                                for _ in range(rng.choice([0, 0, 0, 1, 3]))})
    plan["beyond"] = rng.choice([0, 0, 0, 0, 1, 3, 14])
    return {"model": m, "plan": plan}


def stretch(rng, m):
    """A long horizon, with windows and intervals to match."""
    m["duration"] = rng.choice(["hour", "day", "week", "month"])
    m["count"] = rng.choice([100, 130, rng.randint(60, 400)])
    start = B.dec_dt(m["start"])
    for e in m["entities"]:
        types = B.account_types(m["structures"][e["gls"]])
        e["components"] = [{"name": "Long", "components": [], "activities": [
            B.gen_activity(rng, "a%d" % i, types, start, m["duration"],
                           m["count"], intervals=(1, 1, 2, 7, 13, 24, 30, 52,
                                                  60, 100))
            for i in range(rng.randint(1, 4))]}]


def execute(sc, ctx):
    import random
    spec, plan = sc["model"], sc["plan"]
    model = B.build_model(spec)
    count = spec["count"]
    skipped = {}
    if plan["mode"] == "run":
        model.run()
    else:
        order_rng = random.Random(plan["order_seed"])
        stalls = {tuple(s) for s in plan["stalls"]}
        jumps = set(plan["jumps"])
        model.prepare_to_run()
        for ix in range(count):
            order = list(range(len(model.entities)))
            if plan["orders"]:
                order_rng.shuffle(order)
            for e in order:
                if ix in jumps or (ix, e) in stalls:
                    skipped.setdefault(e, set()).add(ix)
                    continue
                model.entities[e].run(model.clock)
                ctx.step()
            if ix in jumps:
                ctx.fault("clock-jump")
            model.clock.tick()
        for e in range(len(spec["entities"])):
            for ix in skipped.get(e, ()):
                ctx.fault("stalled-entity-period")
    if plan.get("beyond"):
        # the run is over: its entities have nothing left to do
        done = [B.ledger_rows(e) for e in model.entities]
        for _ in range(plan["beyond"]):
            for e in model.entities:
                e.run(model.clock)
                ctx.step()
            model.clock.tick()
        ctx.fault("stepped-beyond-the-run", plan["beyond"])
        for e, rows in zip(model.entities, done):
            ctx.check(B.ledger_rows(e) == rows, "beyond-the-run",
                      lambda: "entity %r posts after the end of its run: %s"
                      % (e.name, B.ledger_rows(e)[len(rows):][:3]))
    dates = B.ref_dates(spec)
    if count > 1:
        ctx.sim_seconds += (dates[-1] - dates[0]).total_seconds()
    expected_any = False
    for ei, espec in enumerate(spec["entities"]):
        epath = spec["name"] + "/" + espec["name"]
        rows = B.ledger_rows(model.entities[ei])
        got = [r[:7] for r in rows if r[5] != epath]
        ctx.log("entity", ei, got)
        ref = B.ref_entity(spec, espec)
        want = [r for ix in sorted(ref) if ix not in skipped.get(ei, ())
                for r in ref[ix]]
        expected_any = expected_any or bool(want)
        gc, wc = Counter(map(B_key, got)), Counter(map(B_key, want))
        missing = wc - gc
        extra = gc - wc
        ctx.check(not missing and not extra, "schedule",
                  lambda: "entity %r: missing %s; unexpected %s" % (
                      espec["name"], list(missing.items())[:4],
                      list(extra.items())[:4]))
        when = [r[2] for r in got]
        ctx.check(when == sorted(when), "posting-order",
                  "the postings of an entity are not in the order of time")
        for path, a in B.walk_activities(espec, spec["name"]):
            first, last = B.ref_window(dates, B.dec_dt(a["start"]),
                                       B.dec_dt(a["end"]), count)
            ctx.state([first, min(last, count + 1), a["interval"], count])
            if (a["interval"] > 1 or a["start"] != "min" or
                    a["end"] != "max") and want:
                ctx.nontrivial = True
            if first == count:
                ctx.probe("window-after-horizon")
            if last == first and count:
                ctx.probe("empty-window")
            if isinstance(a["start"], dict) or isinstance(a["end"], dict):
                ctx.probe("string-date")
    if expected_any:
        ctx.probe("postings-expected")


def B_key(r):
    return tuple(r)
