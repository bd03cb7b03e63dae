"""P05: a loan is paid out once and amortised exactly."""

import copy

from sim import business as B
from sim import inject
from sim.core import Injected

ID = "P05"
IMPORTS = B.IMPORTS
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("A case is a model with one to four loans (rates from zero up, terms "
        "from 0 to 60, dated, string dated or undated), and a history of "
        "complete, interrupted and failed runs with changed amounts, rates, "
        "terms and horizons; the last run is stepped (stalled in some periods) and "
        "judged. Non-trivial: at "
        "least one loan posts an instalment.")
STATE_MEASURE = ("distinct (term, first period, instalments posted, rate is "
                 "zero, period kind)")
REAL = ["auxi.modelling.business", "auxi.modelling.financial.des",
        "auxi.core.time"]
STUB = ["interrupts", "failing activities", "the caller stepping the model"]
SHRINK = ("activities", "history", "stalls")
ASSUMPTIONS = ["the interval of a loan is 1",
               "yearly rates up to 240% (rounding grows as (1+r)^n)"]


def gen_loan(rng, k, start, duration, count):
    own = rng.random() < 0.6
    r = rng.random()
    if r < 0.2:
        s = "min"
    elif r < 0.6:
        s = B.enc(B.period_date(start, duration,
                                rng.randint(0, max(count // 3, 1))))
    else:
        s = B.gen_bound(rng, start, duration, count, True)
    return B.leave_out(rng, {
            "t": "loan", "name": "loan%d" % k,
            "desc": rng.choice([None, None, "a loan"]),
            "bank": "Bank/Default",
            "loan": "Long Term Borrowing/L%d" % k if own else
            "Shareholders Loan",
            "interest": rng.choice(["Expense", "Cost of Sales",
                                    "Expense/I%d" % k]),
            "amount": rng.choice([1000, 50000.5, 1, 123456, 10**9, 0.01,
                                  180000, 0]) if rng.random() < 0.9 else -5,
            "rate": rng.choice([0, 0.0, 0.15, 0.1, 0.01, 1.2, 0.155, 0.0001,
                                2.4]),
            "start": s, "months": rng.choice([1, 2, 3, 6, 12, 24, 60, 36, 0]),
            "interval": 1})


def generate(rng, tier, index):
    duration = rng.choice(["month"] * 6 + ["day", "week", "year", "hour"])
    count = rng.choice([14, 26, 40, 62, 70, rng.randint(1, 70)])
    if duration == "year":
        count = min(count, 9)
    long = duration == "month" and rng.random() < 0.08
    if long:
        count = rng.choice([130, 250, 370])
    start = B.gen_start(rng)
    accounts = []
    for k in range(4):
        accounts.append(["Long Term Borrowing", "L%d" % k, "001%d" % k])
        accounts.append(["Expense", "I%d" % k, "002%d" % k])
    acts = [{"t": "failing", "name": "fails"}]
    acts += [gen_loan(rng, k, start, duration, count)
             for k in range(rng.choice([1, 1, 2, 3, 4]))]
    if long:
        for a in acts[1:]:
            a["rate"] = rng.choice([0.0, 0.01, 0.1, 0.155])
            a["months"] = rng.choice([60, 61, 120, 180, 240, 300, 360])
    rng.shuffle(acts)
    spec = {"name": "M", "start": B.enc(start), "duration": duration,
            "count": count, "structures": [{"accounts": accounts}],
            "entities": [{"name": "E", "gls": 0, "components": [
                {"name": "C", "components": [], "activities": acts}]}]}
    history = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        r = rng.random()
        if r < 0.3:
            history.append({"op": "run"})
        elif r < 0.5:
            history.append({"op": "fail", "at": rng.randrange(count)})
        elif r < 0.75:
            history.append({"op": "interrupt", "n": int(
                10 ** rng.uniform(1, 4.3))})
        else:
            history.append({"op": "abandon", "steps": rng.randrange(count)})
        for _ in range(rng.choice([0, 0, 1, 2])):
            kind = rng.choice(["amount", "rate", "count", "both", "months",
                               "months"])
            history.append({"op": kind, "k": rng.randrange(5),
                            "by": rng.choice([None, None, 1e-9, 1e-6, 4e-4,
                                              -3e-5, 0.02, -0.3]),
                            "amount": rng.choice([10, 777.5, 9000, 0]),
                            "rate": rng.choice([0.0, 0.07, 0.3]),
                            "months": rng.choice([0, 1, 5, 12, 24, 48]),
                            "count": rng.randint(1, 70)
                            if duration != "year" else rng.randint(1, 9)})
    stalls = sorted({rng.randrange(70)
                     for _ in range(rng.choice([0, 0, 0, 1, 2, 5, 15]))})
    return {"model": spec, "history": history, "stalls": stalls}


def execute(sc, ctx):
    from sim import scripted
    spec = copy.deepcopy(sc["model"])
    model = B.build_model(spec)
    ent = model.entities[0]
    acts = spec["entities"][0]["components"][0]["activities"]
    comp = ent.components[0]
    for op in sc["history"]:
        scripted.ARMED.clear()
        kind = op["op"]
        if kind == "run":
            model.run()
        elif kind == "fail":
            scripted.ARMED.update(at=op["at"], name="fails")
            try:
                model.run()
            except Injected:
                ctx.fault("failing-activity")
        elif kind == "interrupt":
            where, _ = inject.interrupt_at(model.run, op["n"])
            if where:
                ctx.fault("interrupt-at-line")
                ctx.log("interrupted", where)
        elif kind == "abandon":
            model.prepare_to_run()
            for _ in range(min(op["steps"], spec["count"])):
                ent.run(model.clock)
                model.clock.tick()
            ctx.fault("run-abandoned")
        elif kind == "count":
            spec["count"] = op["count"]
            model.period_count = op["count"]
        else:
            if not acts:
                continue
            a = acts[op["k"] % len(acts)]
            act = comp.activities[op["k"] % len(acts)]
            if a["t"] != "loan":
                continue
            by = op.get("by")
            if kind in ("amount", "both"):
                a["amount"] = op["amount"] if by is None else \
                    a["amount"] * (1 + by)
                act.amount = a["amount"]
            if kind in ("rate", "both"):
                a["rate"] = op["rate"] if by is None else a["rate"] * (1 + by)
                act.interest_rate = a["rate"]
            if kind == "months":
                a["months"] = op["months"]
                act.duration = op["months"]
    scripted.ARMED.clear()
    count = spec["count"]
    dates = B.ref_dates(spec)
    stalls = set(sc["stalls"])
    want = B.ref_entity(spec, spec["entities"][0], stalls)
    model.prepare_to_run()
    seen = 0
    epath = "M/E"
    for ix in range(count):
        if ix in stalls:
            ctx.fault("stalled-entity-period")
        else:
            ent.run(model.clock)
        model.clock.tick()
        ctx.step()
        new = [r[:7] for r in B.ledger_rows(ent)[seen:]]
        seen += len(new)
        new = [r for r in new if r[5] != epath]
        ctx.log(ix, new)
        exp = want.get(ix, [])
        ctx.check(len(new) == len(exp), "loan-postings",
                  lambda: "period %d: posted %r instead of %r" %
                  (ix, new, exp))
        key = lambda r: (r[5], r[1])
        for g, w in zip(sorted(new, key=key), sorted(exp, key=key)):
            ctx.check(B.rows_close(g, w, 1e-8), "loan-posting",
                      lambda: "period %d: posted %r instead of %r" %
                      (ix, g, w))
    if count > 1:
        ctx.sim_seconds += (dates[-1] - dates[0]).total_seconds()
    # conservation over the whole history, from the ledger alone
    rows = [r for r in B.ledger_rows(ent) if r[5] != epath]
    for a in acts:
        if a["t"] != "loan":
            continue
        mine = [r for r in rows if r[5] == "M/E/C/" + a["name"]]
        paid_out = [r[6] for r in mine if r[3] == a["bank"]]
        interest = [r[6] for r in mine if r[3] == a["interest"]]
        paid = [r[6] for r in mine if r[4] == a["bank"]]
        ctx.check(len(paid_out) == (1 if mine else 0), "paid-out",
                  lambda: "%s: paid out %r" % (a["name"], paid_out))
        ctx.check(len(paid) <= max(a["months"], 0), "too-many-instalments",
                  lambda: "%s: %d instalments" % (a["name"], len(paid)))
        if paid:
            ctx.nontrivial = True
            tol = 1e-7 * max(paid)
            ctx.check(max(paid) - min(paid) <= tol, "unequal-instalments",
                      lambda: "%s: %r" % (a["name"], paid[:5]))
        if paid and len(paid) == a["months"]:
            ctx.probe("loan-repaid-in-full")
            left = paid_out[0] + sum(interest) - sum(paid)
            tol = 1e-6 * max(paid_out[0], sum(paid))
            ctx.check(abs(left) <= tol, "not-repaid",
                      lambda: "%s: %r is left after the last instalment" %
                      (a["name"], left))
        if a["rate"] == 0 and paid:
            ctx.probe("interest-free")
            ctx.check(abs(paid[0] - a["amount"] / a["months"]) <=
                      1e-9 * a["amount"] and not any(interest),
                      "interest-free", lambda: "%s: pays %r" %
                      (a["name"], paid[0]))
        first = B.ref_fires(a, dates, count)[:1]
        ctx.state([a["months"], first, len(paid), a["rate"] == 0,
                   spec["duration"]])
