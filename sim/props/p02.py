"""P02: every completed financial year is closed once, with right amounts."""

import copy
from datetime import timedelta

from sim import business as B

ID = "P02"
IMPORTS = B.IMPORTS
RUNS = {"quick": 1800, "thorough": 40000}
RULE = ("A case is a generated model of one to four years with activities "
        "and scripted postings (any account pair, reversals, postings on and "
        "one second around year boundaries), stepped with stalls and in any "
        "entity order. Non-trivial: at least one year is closed in which at "
        "least two income statement accounts moved.")
STATE_MEASURE = ("distinct multisets of (account class, sign of the net "
                 "movement) closed in a year, with the sign of net income")
REAL = ["auxi.modelling.business", "auxi.modelling.financial.des",
        "auxi.core.time", "dateutil"]
STUB = ["the caller that steps the model", "scripted activities"]
SHRINK = ("entities", "components", "activities", "accounts", "stalls", "late",
          "posts", "hand")
ASSUMPTIONS = ["a year of a model that starts on 29 February starts on 28 "
               "February when there is no 29th",
               "amounts are exact binary fractions",
               "no posting is dated in an already closed year",
               "nothing but closing entries is posted to Gross Profit, "
               "Income Summary and Retained Earnings"]


def gen_posts(rng, types, start, duration, count):
    posts = []
    years = [B.add_months(start, 12 * y) for y in range(1, 6)]
    dates = [B.period_date(start, duration, i) for i in range(count)]
    if not dates:
        return posts
    for _ in range(rng.randint(1, 8)):
        dt, cr = B.gen_accounts_pair(rng, types, income=0.9)
        amount = B.gen_amount(rng, signed=True)
        if rng.random() < 0.45:
            # near a year boundary: in the step before it, or the one on it
            ye = rng.choice(years)
            before = [i for i in range(count) if dates[i] < ye]
            if before and len(before) < count:
                ix = before[-1]
                off = (ye - dates[ix]).total_seconds() + \
                    rng.choice([-1, -1, 0, -2, 1, -0.5, -0.000001])
                if rng.random() < 0.4:
                    ix += 1
                    off = rng.choice([0, 1])
                posts.append([ix, off, dt, cr, amount])
                continue
        ix = rng.randrange(count)
        off = rng.choice([0, 0, 0, 1, 3600, None])
        if off is None and dates[ix].date() <= start.date():
            off = 0             # that day begins before the first year
        posts.append([ix, off, dt, cr, amount])
        if rng.random() < 0.1:
            # taken back but for very little
            posts.append([ix, off, cr, dt, amount + rng.choice(
                [2.0 ** -9, -2.0 ** -9, 2.0 ** -12, -2.0 ** -12])])
    return posts


def generate(rng, tier, index):
    duration = rng.choice(["month", "month", "month", "week", "day", "year"])
    cap = {"month": 50, "week": 160, "day": 800, "year": 6}[duration]
    year = {"month": 12, "week": 53, "day": 366, "year": 1}[duration]
    m = B.gen_model(rng, kinds=("basic",), periods=[duration],
                    max_entities=2, max_count=4)
    count = min(cap, rng.choice([year + 1, year, year + 2, 2 * year + 1,
                                 3 * year + 2, rng.randint(1, cap)]))
    if duration != "day" and rng.random() < 0.12:
        # Started on a leap day, and run to the next one.
        m["start"] = "%d-02-29%s" % (rng.choice([1996, 2016, 2020, 2024]),
                                     m["start"][10:])
        count = 4 * year + rng.randint(0, 2 if duration != "year" else 5)
    m["count"] = count
    start = B.dec_dt(m["start"])
    for e in m["entities"]:
        types = B.account_types(m["structures"][e["gls"]])
        # activities over the new horizon, and scripted postings
        e["components"] = [B.gen_component(
            rng, "C%d" % k, rng.choice([0, 1]), types, start, duration,
            count, ("basic",), max_acts=2) for k in range(rng.randint(0, 2))]
        e["components"].append({
            "name": "Scripted", "components": [], "activities": [
                {"t": "script", "name": "s%d" % k,
                 "posts": gen_posts(rng, types, start, duration, count)}
                for k in range(rng.randint(1, 2))]})
    stalls = [[rng.randrange(count), rng.randrange(len(m["entities"]))]
              for _ in range(rng.choice([0, 0, 2, 5]))]
    late = []
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        ei = rng.randrange(len(m["entities"]))
        gls = m["structures"][m["entities"][ei]["gls"]]
        parent = rng.choice(["Sales", "Sales", "Cost of Sales", "Expense",
                             "Other Income"] +
                            ["/".join(a[:2]) for a in gls["accounts"]
                             if a[0] in ("Sales", "Cost of Sales")])
        name = "Late %d" % len(late)
        posts = gen_posts(rng, B.account_types(gls), start, duration, count)
        for p in posts:
            p[rng.choice([2, 3])] = parent + "/" + name
        late.append([ei, parent, name, posts])
    # Posted by the caller, before or after a step, some to accounts that are
    # created at that time.
    hand = []
    for k in range(rng.choice([0, 0, 1, 2, 4])):
        ei = rng.randrange(len(m["entities"]))
        gls = m["structures"][m["entities"][ei]["gls"]]
        account = None
        posts = gen_posts(rng, B.account_types(gls), start, duration, count)
        posts.sort(key=lambda p: p[0])
        if posts and rng.random() < 0.5:
            parent = rng.choice(["Sales", "Cost of Sales", "Expense", "Tax",
                                 "Other Income", "Dividends", "Bank"] +
                                ["/".join(a[:2]) for a in gls["accounts"]])
            account = [parent, "Mid %d" % k, rng.randint(0, posts[0][0])]
            for p in posts:
                p[rng.choice([2, 3])] = parent + "/Mid %d" % k
        hand.append([ei, account, rng.choice(["hand", None, "", "Model"]),
                     rng.random() < 0.5, posts])
    for e in m["entities"]:
        if rng.random() < 0.15:
            e["components"] = []
    return {"model": m, "stalls": stalls, "late": late, "hand": hand,
            "order_seed": rng.randrange(1 << 30)}


def normal(row):
    """(debit, credit, amount) with a non-negative amount."""
    dt, cr, amount = row[3], row[4], row[6]
    return (dt, cr, amount) if amount >= 0 else (cr, dt, -amount)


def execute(sc, ctx):
    import random
    spec = copy.deepcopy(sc["model"])
    model = B.build_model(spec)
    count = spec["count"]
    if sc.get("late"):
        # Accounts, and activities posting to them, added after a first run.
        model.run()
        ctx.probe("accounts-added-after-a-run")
    for k, (ei, parent, name, posts) in enumerate(sc.get("late", ())):
        if ei >= len(spec["entities"]):     # dropped by the minimiser
            continue
        espec, ent = spec["entities"][ei], model.entities[ei]
        if parent not in B.account_types(spec["structures"][espec["gls"]]):
            continue
        spec["structures"][espec["gls"]]["accounts"].append(
            [parent, name, "99%02d" % k])
        ent.gl.structure.get_account(parent).create_account(
            name, "99%02d" % k)
        types = B.account_types(spec["structures"][espec["gls"]])
        cspec = {"name": "Late %d" % k, "components": [], "activities": [
            {"t": "script", "name": "s", "posts": [
                p for p in posts if p[2] in types and p[3] in types]}]}
        espec["components"].append(cspec)
        B.build_component(ent, cspec)
    hands = []
    for k, (ei, account, source, early, posts) in enumerate(sc["hand"]):
        if ei >= len(spec["entities"]):
            continue
        gls = spec["structures"][spec["entities"][ei]["gls"]]
        if account is not None:
            if account[0] not in B.account_types(gls):
                continue
            gls["accounts"].append([account[0], account[1], "98%02d" % k])
        types = B.account_types(gls)
        hands.append((ei, account, "98%02d" % k, source, early,
                      [p for p in posts if p[2] in types and p[3] in types]))

    def by_hand(ix, e, before):
        for ei, account, number, source, early, posts in hands:
            if ei != e:
                continue
            ent = model.entities[e]
            if before and account is not None and account[2] == ix:
                ent.gl.structure.get_account(account[0]).create_account(
                    account[1], number)
                ctx.probe("account-created-between-steps")
            if early != before:
                continue
            for p in posts:
                if p[0] == ix:
                    t = model.clock.get_datetime()
                    # Behind the step the year before its time is closed.
                    t = t.date() if p[1] is None and before else \
                        t + timedelta(seconds=p[1] or 0)
                    ent.gl.create_transaction(
                        "By hand", tx_date=t, dt_account=p[2],
                        cr_account=p[3], source=source, amount=p[4])
                    ctx.probe("posted-by-hand")

    order_rng = random.Random(sc["order_seed"])
    stalls = {tuple(s) for s in sc["stalls"]}
    executed = {e: [] for e in range(len(model.entities))}
    model.prepare_to_run()
    for ix in range(count):
        order = list(executed)
        order_rng.shuffle(order)
        for e in order:
            by_hand(ix, e, True)
            if (ix, e) in stalls:
                ctx.fault("stalled-entity-period")
            else:
                model.entities[e].run(model.clock)
                executed[e].append(ix)
                ctx.step()
            by_hand(ix, e, False)
        model.clock.tick()
    dates = B.ref_dates(spec)
    if dates:
        ctx.sim_seconds += (dates[-1] - dates[0]).total_seconds()
    for ei, espec in enumerate(spec["entities"]):
        types = B.account_types(spec["structures"][espec["gls"]])
        judge(ctx, spec, espec, types, B.ledger_rows(model.entities[ei]),
              [dates[i] for i in executed[ei]], model.entities[ei])


def judge(ctx, spec, espec, types, rows, steps, entity):
    from datetime import datetime
    start = B.dec_dt(spec["start"])
    epath = spec["name"] + "/" + espec["name"]
    ctx.log("ledger", espec["name"], rows)
    closing = [r for r in rows if r[5] == epath]
    others = [r for r in rows if r[5] != epath]
    for r in others:
        ctx.check(not r[7] and not r[8], "marked",
                  "an ordinary transaction is marked as closing: %r" % (r,))
    # years passed by a step; one is surely closed per step
    years = []
    must = 0
    passed = 0
    for d in steps:
        while B.add_months(start, 12 * (passed + 1)) <= d:
            passed += 1
        if must < passed:
            must += 1
    left = list(closing)
    for y in range(passed):
        lo = B.add_months(start, 12 * y)
        hi = B.add_months(start, 12 * (y + 1))
        when = (hi - timedelta(seconds=1)).isoformat()
        entries = [r for r in left if r[2] == when]
        left = [r for r in left if r[2] != when]
        net = {}
        for r in others:
            t = datetime.fromisoformat(r[2])
            if lo <= t < hi:
                net[r[4]] = net.get(r[4], 0) + r[6]
                net[r[3]] = net.get(r[3], 0) - r[6]
            if t in (lo, hi, hi - timedelta(seconds=1)):
                ctx.probe("posting-at-year-boundary")
        net = {a: v for a, v in net.items()
               if types[a] in ("revenue", "expense") and v != 0}
        if y >= must and not entries:
            ctx.probe("year-left-open-by-stalls")
            continue
        judge_year(ctx, y, entries, net, types)
    ctx.check(not left, "unexpected-closing",
              lambda: "closing entries of no completed year: %r" % left[:4])


def judge_year(ctx, y, entries, net, types):
    for r in entries:
        ctx.check(r[7] or r[8], "not-marked",
                  "a closing entry is not marked as closing: %r" % (r,))
        ctx.check(r[3] in types and r[4] in types, "unknown-account",
                  "a closing entry names no account: %r" % (r,))
    todo = [normal(r) for r in entries]

    def take(a, b, what):
        """The one entry between accounts a and b."""
        found = [t for t in todo if {t[0], t[1]} == {a, b}]
        ctx.check(len(found) <= 1, "closed-twice",
                  lambda: "year %d: %s has entries %r" % (y, what, found))
        if found:
            todo.remove(found[0])
            return found[0]
        return None

    def settle(a, b, amount, what):
        """The entry moving a credit balance of 'amount' from a to b; returns
        whether its direction is right."""
        e = take(a, b, what)
        if amount == 0:
            ctx.check(e is None, "closed-for-nothing",
                      lambda: "year %d: %s without movement has %r" %
                      (y, what, e))
            return True
        ctx.check(e is not None, "not-closed",
                  lambda: "year %d: %s with net movement %r has no entry" %
                  (y, what, amount))
        ctx.check(abs(e[2] - abs(amount)) <= 1e-9 * abs(amount),
                  "closing-amount",
                  lambda: "year %d: %s moved %r but is closed for %r" %
                  (y, what, amount, e[2]))
        want = (a, b) if amount > 0 else (b, a)
        return (e[0], e[1]) == want

    gross = {a: v for a, v in net.items()
             if a.startswith("Sales/") or a.startswith("Cost of Sales/")}
    other = {a: v for a, v in net.items() if a not in gross}
    right = []
    for a in sorted(gross):
        right.append(settle(a, B.GP, gross[a], a))
    if gross and not all(right):
        if any(right):
            ctx.fail("closing-direction", "year %d: accounts are closed in "
                     "different directions: %r" %
                     (y, list(zip(sorted(gross), right))))
        ctx.deviation("gross-profit-direction",
                      "year %d: %s doubled instead of settled" %
                      (y, sorted(gross)))
    for a in sorted(other):
        ctx.check(settle(a, B.IS, other[a], a), "closing-direction",
                  lambda: "year %d: %s is closed in the wrong direction" %
                  (y, a))
    gp = sum(gross.values())
    ctx.check(settle(B.GP, B.IS, gp, "Gross Profit"), "closing-direction",
              "year %d: Gross Profit is closed in the wrong direction" % y)
    ni = gp + sum(other.values())
    ok = settle(B.IS, B.RE, ni, "Income Summary")
    if not ok:
        if ni < 0:
            ctx.deviation("loss-raises-retained-earnings",
                          "year %d: a loss of %r" % (y, -ni))
        else:
            ctx.fail("closing-direction", "year %d: a profit lowers the "
                     "retained earnings" % y)
    ctx.check(not todo, "unexpected-closing",
              lambda: "year %d: entries that settle nothing: %r" % (y, todo))
    ctx.probe("year-closed")
    if ni < 0:
        ctx.probe("loss-year")
    if gp < 0:
        ctx.probe("negative-gross-profit")
    if len(net) >= 2:
        ctx.nontrivial = True
    ctx.state([sorted((types[a], a in gross, v > 0)
                      for a, v in net.items()), ni > 0, ni < 0])


def _witness(dt, cr):
    return {"model": {"name": "M", "start": "2016-01-01T00:00:00",
                      "duration": "month", "count": 14,
                      "structures": [{"accounts":
                                      [["Sales", "Coal", "0010"]]}],
                      "entities": [{"name": "E", "gls": 0, "components": [
                          {"name": "C", "components": [], "activities": [
                              {"t": "script", "name": "s",
                               "posts": [[1, 0, dt, cr, 100]]}]}]}]},
            "stalls": [], "hand": [], "order_seed": 0}


WITNESSES = [_witness("Bank/Default", "Sales/Coal"),
             _witness("Expense", "Bank/Default")]
