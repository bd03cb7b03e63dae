"""P06: reports agree with the ledger at every moment."""

import csv
import io
import os
import sys
from collections import Counter
from datetime import date, datetime, time as dtime, timedelta

from sim import business as B
from sim import inject

ID = "P06"
IMPORTS = B.IMPORTS + ["auxi.core.reporting", "tabulate"]
RUNS = {"quick": 3500, "thorough": 70000}
RULE = ("A case is a history on one ledger: manual postings (any accounts, "
        "signs, sources, out of date order), model steps with year ends, and "
        "report requests of every kind, window, component and format in "
        "between, some of them interrupted first. Non-trivial: a report whose window or component leaves out "
        "some but not all of at least three transactions.")
STATE_MEASURE = ("distinct (report, format, kinds of the bounds, share of the "
                 "ledger selected, account sides met)")
REAL = ["auxi.modelling.financial.reporting", "auxi.core.reporting",
        "auxi.modelling.financial.des", "auxi.modelling.business", "tabulate"]
STUB = ["the users posting and requesting reports in a seeded order"]
SHRINK = ("ops", "accounts", "activities", "components")
ASSUMPTIONS = ["account names contain no line breaks"]

COMPS = ["M/E", "M/E/C", "M/E/C2", "M/E/C/Sub", "M/E/CX", "Other", "M",
         "M/E/C/Sub/Deep", "M/E/c", "m/e/C/Sub", "M/E/C.*", "M/E/C ",
         "M/E/[C]", "M/E/C%"]


def gen_when(rng, base):
    return base + timedelta(days=rng.choice([0, 0, 1, 2, 30, 31, 59, 365,
                                             rng.randint(0, 800)]),
                            seconds=rng.choice([0, 0, 1, 86399, 43200]))


def gen_bound(rng, base, low):
    r = rng.random()
    if r < 0.35:
        return None
    t = gen_when(rng, base)
    kind = rng.choice(["datetime", "date", "str"])
    if kind == "datetime":
        return {"k": kind, "v": t.isoformat()}
    return {"k": kind, "v": t.date().isoformat()}


def generate(rng, tier, index):
    structure = B.gen_structure(rng)
    types = B.account_types(structure)
    base = datetime(2015, rng.randint(1, 12), rng.randint(1, 28))
    with_model = rng.random() < 0.45
    dated = rng.choice([0, 0, 0, 1, 1, 0.3])    # share of dates, not datetimes
    spec = {"name": "M", "start": B.enc(base), "duration": "month",
            "count": 40, "structures": [structure],
            "entities": [{"name": "E", "gls": 0, "components": []}]}
    if with_model:
        comps = []
        for nm in ("C", "C2", "CX"):
            c = B.gen_component(rng, nm, 0, types, base, "month", 40,
                                ("basic", "loan"), 2)
            comps.append(c)
        comps[0]["components"].append(B.gen_component(
            rng, "Sub", 0, types, base, "month", 40, ("basic",), 2))
        spec["entities"][0]["components"] = comps
    ops = []
    made = 0
    edits = rng.random() < 0.4
    for _ in range(rng.randint(3, 26)):
        r = rng.random()
        if edits and r < 0.15:
            if made and rng.random() < 0.7:
                # the same report before and after a change
                ops.append(dict(rng.choice([o for o in ops
                                            if o["op"] == "report"] or
                                           [gen_report(rng, base)])))
            if rng.random() < 0.4:
                how = rng.choice(["create", "rename", "number", "remove"]) \
                    if made else "create"
                made += how == "create"
                ops.append({"op": "account", "how": how,
                            "i": rng.randrange(made), "r": rng.random(),
                            "n": rng.randrange(1000)})
            else:
                dt, cr = B.gen_accounts_pair(rng, types, avoid=())
                ops.append({"op": "edit", "i": rng.random(), "dt": dt,
                            "cr": cr, "what": rng.choice(
                                ["amount", "amount", "when", "accounts",
                                 "source", "closing", "remove", "move"]),
                            "amount": B.gen_amount(rng, signed=True),
                            "when": gen_when(rng, base).isoformat(),
                            "src": rng.choice(COMPS) + "/act"})
            if rng.random() < 0.7:
                before = [o for o in ops if o["op"] == "report"]
                ops.append(dict(before[-1]) if before else
                           gen_report(rng, base))
            continue
        if r < 0.55:
            dt, cr = B.gen_accounts_pair(rng, types, avoid=())
            src = rng.choice(COMPS) + "/" + rng.choice(["act", "sale", "x"])
            name = rng.choice(["sale", "x", "buy", "a name", "C", "sal",
                               "E/C", "/"])
            ops.append({"op": "post", "name": name,
                        "desc": rng.choice([None, "", "words, \"quoted\""]),
                        "when": gen_when(rng, base).isoformat(),
                        "date": rng.random() < dated,
                        "dt": dt, "cr": cr,
                        "src": rng.choice([src, src, src, None, "M/E/C",
                                           "M/E/C2"]),
                        "amount": B.gen_amount(rng, signed=True),
                        "closing": rng.choice([0, 0, 0, 0, 1, 2]),
                        "times": rng.choice([60, 130, 300])
                        if rng.random() < 0.01 else 1})
        elif r < 0.7 and with_model:
            ops.append({"op": "tick", "n": rng.choice([1, 1, 2, 5, 13])})
        else:
            ops.append(gen_report(rng, base))
    ops.append(gen_report(rng, base))
    return {"model": spec, "ops": ops}


def gen_report(rng, base):
    return {"op": "report",
            "what": rng.choice(["tx", "tx", "balance", "balance", "income",
                                "income", "structure"]),
            "start": gen_bound(rng, base, True),
            "end": gen_bound(rng, base, False),
            "comp": rng.choice(["", "", ""] + COMPS),
            "interrupt": rng.choice([0, 0, 0, 1]) * rng.randint(1, 400),
            "formats": rng.sample(["string", "printout", "txt", "latex",
                                   "csv-print", "latex-print", "txt-print"],
                                  rng.randint(0, 3))}


def bound_value(b):
    if b["k"] == "datetime":
        return datetime.fromisoformat(b["v"])
    if b["k"] == "date":
        return date.fromisoformat(b["v"])
    return b["v"]


def not_before(t, b):
    """t is on or after the bound b."""
    if b is None:
        return True
    if b["k"] == "datetime" and isinstance(t, datetime):
        return t >= datetime.fromisoformat(b["v"])
    d = t.date() if isinstance(t, datetime) else t
    return d >= date.fromisoformat(b["v"][:10])


def not_after(t, b):
    if b is None:
        return True
    if b["k"] == "datetime" and isinstance(t, datetime):
        return t <= datetime.fromisoformat(b["v"])
    d = t.date() if isinstance(t, datetime) else t
    return d <= date.fromisoformat(b["v"][:10])


def execute(sc, ctx):
    spec = sc["model"]
    model = B.build_model(spec)
    ent = model.entities[0]
    gl = ent.gl
    types = B.account_types(spec["structures"][0])
    model.prepare_to_run()
    ticks = 0
    posted = []
    hand = []           # the transactions posted by hand, in step with posted
    spec = dict(spec, structures=[dict(
        spec["structures"][0],
        accounts=list(spec["structures"][0]["accounts"]))])
    made = []
    nrep = 0
    for op in sc["ops"]:
        ctx.step()
        if op["op"] == "post":
            if op["dt"] not in types or op["cr"] not in types:
                continue
            when = datetime.fromisoformat(op["when"])
            if op["date"]:
                when = when.date()
            tx = gl.create_transaction(
                op["name"], description=op["desc"], tx_date=when,
                dt_account=op["dt"], cr_account=op["cr"], source=op["src"],
                amount=op["amount"])
            for _ in range(op.get("times", 1) - 1):
                gl.create_transaction(
                    op["name"], description=op["desc"], tx_date=when,
                    dt_account=op["dt"], cr_account=op["cr"],
                    source=op["src"], amount=op["amount"])
            if op["closing"] == 1:
                tx.is_closing_cr_account = True
            elif op["closing"] == 2:
                tx.is_closing_dt_account = True
            posted.append([op["name"], op["desc"], when.isoformat(),
                           op["dt"], op["cr"], op["src"], op["amount"],
                           op["closing"] == 2, op["closing"] == 1])
            hand.append(tx)
        elif op["op"] == "edit":
            edit(op, gl, types, posted, hand, ctx)
        elif op["op"] == "account":
            edit_account(op, gl.structure, types, spec["structures"][0],
                         made, ctx)
        elif op["op"] == "tick":
            for _ in range(op["n"]):
                if ticks < spec["count"]:
                    ent.run(model.clock)
                    model.clock.tick()
                    ticks += 1
            ctx.sim_seconds += op["n"] * 30 * 86400
        else:
            nrep += 1
            before = [B.tx_row(t) for t in gl.transactions]
            if op["interrupt"]:
                where, _ = inject.interrupt_at(
                    lambda: call(op, gl, "string", None), op["interrupt"])
                if where:
                    ctx.fault("interrupt-at-line")
            check_report(op, gl, types, spec, ctx, nrep)
            after = [B.tx_row(t) for t in gl.transactions]
            ctx.check(before == after, "report-changed-ledger",
                      lambda: "%s changed the ledger" % op["what"])
    # What was posted by hand is in the ledger, as posted.
    have = Counter(repr(B.tx_row(t)) for t in gl.transactions)
    for row in posted:
        k = repr(row)
        ctx.check(have[k] > 0, "lost-posting", lambda: "missing: " + k)
        have[k] -= 1


def edit(op, gl, types, posted, hand, ctx):
    """Correct or remove a transaction that was posted by hand."""
    if not hand:
        return
    i = int(op["i"] * len(hand))
    tx, row, what = hand[i], posted[i], op["what"]
    ctx.probe("edit-" + what)
    if what == "amount":
        tx.amount = row[6] = op["amount"]
    elif what == "when":
        when = datetime.fromisoformat(op["when"])
        tx.tx_date = when if isinstance(tx.tx_date, datetime) else when.date()
        row[2] = tx.tx_date.isoformat()
    elif what == "accounts":
        if op["dt"] in types and op["cr"] in types:
            tx.dt_account = row[3] = op["dt"]
            tx.cr_account = row[4] = op["cr"]
    elif what == "source":
        tx.source = row[5] = op["src"]
    elif what == "closing":
        tx.is_closing_cr_account = row[8] = not row[8]
    elif what == "remove":
        gl.transactions.remove(tx)
        del hand[i], posted[i]
    else:
        gl.transactions.remove(tx)
        gl.transactions.append(tx)


def edit_account(op, gls, types, structure, made, ctx):
    """Create, rename, renumber or remove an account that nothing is posted
    to."""
    how = op["how"]
    ctx.probe("account-" + how)
    if how == "create":
        parents = sorted(a for a in types if a not in made)
        p, no = parents[int(op["r"] * len(parents))], "7%03d" % op["n"]
        nm = "New %d" % op["n"]
        if p + "/" + nm in types:
            return
        gls.get_account(p).create_account(nm, no)
        structure["accounts"].append([p, nm, no])
        types[p + "/" + nm] = types[p]
        made.append(p + "/" + nm)
    elif made:
        path = made[op["i"] % len(made)]
        row = next(r for r in structure["accounts"]
                   if r[0] + "/" + r[1] == path)
        acc = gls.get_account(path)
        if how == "rename":
            new = "Other %d" % op["n"]
            if row[0] + "/" + new in types:
                return
            acc.name = new
            types[row[0] + "/" + new] = types.pop(path)
            row[1] = new
            made[made.index(path)] = row[0] + "/" + new
        elif how == "number":
            acc.number = row[2] = "8%03d" % op["n"]
        else:
            gls.get_account(row[0]).remove_account(row[1])
            del types[path]
            structure["accounts"].remove(row)
            made.remove(path)


def call(op, gl, fmt, path):
    from auxi.core.reporting import ReportFormat
    kw = {"format": ReportFormat[fmt], "output_path": path}
    if op["what"] == "structure":
        return gl.structure.report(**kw)
    if op["end"] is not None:
        kw["end"] = bound_value(op["end"])
    if op["what"] == "balance":
        return gl.balance_sheet(**kw)
    if op["start"] is not None:
        kw["start"] = bound_value(op["start"])
    if op["comp"]:
        kw["component_path"] = op["comp"]
    if op["what"] == "tx":
        return gl.transaction_list(**kw)
    return gl.income_statement(**kw)


def printed(fn):
    return sys.stdout.of(fn)


def read(path):
    with open(path, newline="") as f:
        return f.read()


def norm(s):
    return " ".join(str(s).split())


def check_report(op, gl, types, spec, ctx, n):
    path = os.path.join(ctx.scratch, "r%d" % n)
    call(op, gl, "csv", path)
    text = read(path + ".csv")
    rows = list(csv.reader(io.StringIO(text)))
    ctx.log("report", op["what"], text)
    for fmt in op["formats"]:
        check_format(op, gl, fmt, path, rows, text, ctx)
    txs = list(gl.transactions)
    if op["what"] == "structure":
        return check_structure(rows, types, spec, ctx)
    sel = [t for t in txs if not_after(t.tx_date, op["end"]) and
           (op["what"] == "balance" or (
               not_before(t.tx_date, op["start"]) and
               from_comp(t.source, op["comp"])))]
    if len(txs) >= 3 and 0 < len(sel) < len(txs):
        ctx.nontrivial = True
    ctx.state([op["what"], sorted(op["formats"]),
               op["start"] and op["start"]["k"],
               op["end"] and op["end"]["k"], bool(op["comp"]),
               len(sel) * 4 // max(len(txs), 1),
               sorted({(types[t.dt_account], types[t.cr_account])
                       for t in sel})[:6]])
    if op["what"] == "tx":
        check_tx(rows, sel, ctx)
    elif op["what"] == "balance":
        check_balance(rows, sel, types, ctx)
    else:
        check_income(rows, sel, types, ctx)


def from_comp(source, comp):
    return comp == "" or (source is not None and (
        source == comp or source.startswith(comp + "/")))


def check_format(op, gl, fmt, path, rows, csv_text, ctx):
    ctx.probe("format-" + fmt)
    if fmt == "string":
        text = call(op, gl, "string", None)
    elif fmt == "printout":
        text = printed(lambda: call(op, gl, "printout", None))
    elif fmt == "txt":
        call(op, gl, "txt", path)
        text = read(path + ".txt")
    elif fmt == "txt-print":
        text = printed(lambda: call(op, gl, "txt", None))
    elif fmt == "latex":
        call(op, gl, "latex", path)
        text = read(path + ".tex")
    elif fmt == "latex-print":
        text = printed(lambda: call(op, gl, "latex", None))
    else:
        text = printed(lambda: call(op, gl, "csv", None))
        ctx.check(text.rstrip("\n") == csv_text.rstrip("\n"), "csv-print",
                  "the printed and the written CSV differ")
        return
    ctx.check(isinstance(text, str), "format", "no text for %s" % fmt)
    if fmt.startswith("latex"):
        lines = [ln.rstrip().rstrip("\\").rstrip()
                 for ln in text.split("\n") if "&" in ln]
        want = rows
    else:
        lines = text.rstrip("\n").split("\n")
        lines = lines[:1] + lines[2:]
        want = rows
        # trailing rows without any text are blank lines
        while len(lines) < len(want) and not any(want[-1]):
            want = want[:-1]
    ctx.check(len(lines) == len(want), "format-rows",
              lambda: "%s has %d rows, the CSV has %d" %
              (fmt, len(lines), len(want)))
    for ln, row in zip(lines, want):
        if fmt.startswith("latex"):
            cells = [norm(c.replace("\\", "")) for c in ln.split("&")]
            exp = [norm(c) for c in row]
            ctx.check(cells == exp, "format-cells",
                      lambda: "%s shows %r for %r" % (fmt, cells, exp))
        else:
            exp = norm(" ".join(row))
            ctx.check(norm(ln) == exp, "format-cells",
                      lambda: "%s shows %r for %r" % (fmt, norm(ln), exp))


def money(s, ctx):
    neg = s.startswith("(") and s.endswith(")")
    try:
        v = float(s.strip("()"))
    except ValueError:
        ctx.fail("not-a-number", "a figure reads %r" % s)
    return -v if neg else v


def same(ctx, got, want, what):
    ctx.check(abs(got - want) <= 0.0051 + 1e-12 * abs(want), "figure",
              lambda: "%s shows %r instead of %r" % (what, got, want))


def check_tx(rows, sel, ctx):
    body, total = rows[1:-1], rows[-1]
    ctx.check(len(body) == len(sel), "tx-rows",
              lambda: "%d transactions are listed instead of %d" %
              (len(body), len(sel)))
    want = Counter()
    for t in sel:
        name = t.name
        if t.source is not None and t.source.endswith(t.name):
            name = ""
        want[(str(t.tx_date), t.source or "", name, t.dt_account,
              t.cr_account, "%.2f" % t.amount, t.description or "")] += 1
    got = Counter((r[0], r[1], r[2], r[3], r[4],
                   "%.2f" % money(r[5], ctx), r[6]) for r in body)
    ctx.check(got == want, "tx-rows", lambda: "missing %r, unexpected %r" % (
        list((want - got))[:3], list((got - want))[:3]))
    when = [r[0] for r in body]
    parsed = [datetime.fromisoformat(w) for w in when]
    ctx.check(parsed == sorted(parsed), "tx-order",
              "the transactions are not in the order of their dates")
    ctx.check("Total" in total, "tx-total", "no total: %r" % (total,))
    same(ctx, money(total[5], ctx), sum(t.amount for t in sel), "the total")


def balances(sel, types, skip_closing=False):
    """Net credit per account."""
    net = {}
    for t in sel:
        if skip_closing and (t.is_closing_cr_account or
                             t.is_closing_dt_account):
            continue
        net[t.cr_account] = net.get(t.cr_account, 0) + t.amount
        net[t.dt_account] = net.get(t.dt_account, 0) - t.amount
    return net


def check_balance(rows, sel, types, ctx):
    net = balances(sel, types)
    got = {}
    for r in rows[1:-1]:
        for a, v in ((r[0], r[1]), (r[2], r[3])):
            if a in types and v.strip():
                ctx.check(a not in got, "twice", lambda: a + " appears twice")
                got[a] = money(v, ctx)
                ctx.check((types[a] == "asset") == (a == r[0] and v == r[1]),
                          "side", lambda: a + " is on the wrong side")
    sums = {"asset": 0, "liability": 0, "equity": 0}
    for a, v in sorted(net.items()):
        k = types[a]
        if k not in sums:
            continue
        v = -v if k == "asset" else v
        sums[k] += v
        ctx.check(a in got, "missing-account",
                  lambda: a + " is missing")
        same(ctx, got.get(a, 0), v, a)
    for a in got:
        ctx.check(a in net and types[a] in sums, "unexpected-account",
                  lambda: a + " does not belong here")
    last = rows[-1]
    same(ctx, money(last[1], ctx), sums["asset"], "total assets")
    same(ctx, money(last[4], ctx), sums["liability"] + sums["equity"],
         "total liabilities and equity")
    tot = {norm(r[2]): r[4] for r in rows[1:] if r[2].startswith("Total ")}
    same(ctx, money(tot["Total liabilities"], ctx), sums["liability"],
         "total liabilities")
    same(ctx, money(tot["Total owners' equities"], ctx), sums["equity"],
         "total equity")


def check_income(rows, sel, types, ctx):
    net = balances(sel, types, skip_closing=True)
    got = {}
    figures = {}
    for r in rows[1:]:
        a = r[0]
        if a in types and (r[1].strip() or r[2].strip()):
            ctx.check(a not in got, "twice", lambda: a + " appears twice")
            revenue = types[a] == "revenue"
            col = 2 if revenue else 1
            ctx.check(r[col].strip() and not r[3 - col].strip(), "side",
                      lambda: a + " is on the wrong side")
            got[a] = money(r[col], ctx)
        elif a and (r[1].strip(" -") or r[2].strip(" -")):
            figures[a] = money(r[1].strip() or r[2].strip(), ctx)
    inc = exp = cos = 0
    for a, v in sorted(net.items()):
        if types[a] == "revenue":
            inc += v
        elif types[a] == "expense":
            v = -v
            exp += v
            if a == "Cost of Sales" or a.startswith("Cost of Sales/"):
                cos += v
        else:
            continue
        ctx.check(a in got, "missing-account",
                  lambda: a + " is missing")
        same(ctx, got.get(a, 0), v, a)
    for a in got:
        ctx.check(a in net and types[a] in ("revenue", "expense"),
                  "unexpected-account", lambda: a + " does not belong here")
    for label, v in (("Gross Revenues (including interest income)",
                      inc - cos), ("Total Expenses", exp - cos),
                     ("Net Income", inc - exp)):
        ctx.check(label in figures, "missing-figure", "no " + label)
        same(ctx, figures[label], v, label)


def check_structure(rows, types, spec, ctx):
    want = Counter((types[a], a.split("/")[-1]) for a in types)
    got = Counter((r[0], r[2]) for r in rows[1:])
    ctx.check(got == want, "structure", lambda: "missing %r, unexpected %r" %
              (list(want - got)[:4], list(got - want)[:4]))
    numbers = {(p + "/" + nm): no
               for p, nm, no, *own in spec["structures"][0]["accounts"]}
    shown = Counter((r[2], r[1].split("/")[-1]) for r in rows[1:])
    for a, no in numbers.items():
        ctx.check(shown[(a.split("/")[-1], no)] > 0, "structure",
                  lambda: "%s is not shown with number %s" % (a, no))
