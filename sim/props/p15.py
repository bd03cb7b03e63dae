"""P15: a report file is complete or its writing fails loudly.

Reports of a living ledger are rendered to files of a simulated file system
that shortens and interrupts transfers, fails at open, write and close, fills
up, and crashes.
"""

import csv
import io
import posixpath
from datetime import datetime

from sim import business as B
from sim import fs
from sim.core import SimCrash
from sim.props import p06, p14

ID = "P15"
IMPORTS = p06.IMPORTS
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("A case is a history on one ledger: postings, model steps, and "
        "reports of every kind rendered to text, LaTeX and CSV files, by new "
        "and by kept report objects, onto new and existing files, with up to "
        "three storage faults each. Non-trivial: a render that failed, and a "
        "later one that succeeded onto the same file.")
STATE_MEASURE = ("distinct (report, format, kept object or not, file there "
                 "already or not, faults that struck)")
REAL = ["auxi.modelling.financial.reporting", "auxi.core.reporting",
        "auxi.modelling.financial.des", "auxi.modelling.business", "tabulate",
        "io buffering and text layers"]
STUB = ["the file system below the buffers", "the locale's encoding",
        "the users posting and requesting reports in a seeded order"]
SHRINK = ("ops", "faults", "accounts", "activities", "components")
ASSUMPTIONS = ["account names contain no line breaks"]

PATHS = ["/sim/out/report", "/sim/out/report.v1", "/sim/out/other",
         "/sim/report", "/sim/none/report"]
EXT = {"csv": ".csv", "txt": ".txt", "latex": ".tex"}
DESC = ["caf\u00e9", "\u65e5\u672c", "two words", "a, b; \"c\"", "x" * 400,
        "100 % & more_", None, ""]


def generate(rng, tier, index):
    sc = p06.generate(rng, tier, index)
    ops = [o for o in sc["ops"] if o["op"] in ("post", "tick")]
    for o in ops:
        if o["op"] == "post":
            o["desc"] = rng.choice(DESC)
            if rng.random() < 0.06:
                o["copies"] = rng.choice([40, 150, 400])
    base = B.dec(sc["model"]["start"])
    for _ in range(rng.randint(3, 12 if tier == "quick" else 30)):
        r = p06.gen_report(rng, base)
        r.update(op="render", format=rng.choice(sorted(EXT)),
                 path=rng.choice([0, 0, 0, 1, 2, 3, 4]),
                 keep=rng.choice([None, None, 0, 1]),
                 faults=p14.gen_save_faults(rng),
                 capacity=rng.choice([None] * 7 + [rng.randint(0, 6000)]))
        ops.insert(rng.randrange(len(ops) + 1), r)
    # What failed is tried again.
    last = dict([o for o in ops if o["op"] == "render"][-1], faults=[],
                capacity=None)
    ops.append(last)
    sc["ops"] = ops
    sc.update(split=rng.choice([0, 0, 0, 29, 1000]),
              eintr=rng.choice([0.0, 0.0, 0.1]), fs=rng.randrange(1 << 30),
              encoding=rng.choice(["utf-8", "utf-8", "utf-8", "cp1252"]))
    return sc


def make(op, gl, path):
    """A report object that can be rendered again."""
    from auxi.modelling.financial import reporting as R
    kw = {"output_path": path}
    if op["what"] == "structure":
        return R.GeneralLedgerStructure(gl.structure, path)
    if op["end"] is not None:
        kw["end"] = p06.bound_value(op["end"])
    if op["what"] == "balance":
        return R.BalanceSheet(gl, **kw)
    if op["start"] is not None:
        kw["start"] = p06.bound_value(op["start"])
    if op["comp"]:
        kw["component_path"] = op["comp"]
    return (R.TransactionList if op["what"] == "tx" else
            R.IncomeStatement)(gl, **kw)


def execute(sc, ctx):
    from auxi.core.reporting import ReportFormat
    spec = sc["model"]
    model = B.build_model(spec)
    ent = model.entities[0]
    gl = ent.gl
    types = B.account_types(spec["structures"][0])
    model.prepare_to_run()
    ticks = 0
    sim = fs.SimFS(ctx, sc["fs"])
    for p in PATHS[:4]:
        sim.mkdir(posixpath.dirname(p))
    sim.put("/sim/out/report.csv.old", "something else")
    sim.split, sim.eintr = sc["split"], sc["eintr"]
    sim.encoding = sc["encoding"]
    kept = {}
    failed_on = set()
    scrap = set()       # what renders that failed left behind
    for op in sc["ops"]:
        ctx.step()
        if op["op"] == "post":
            if op["dt"] not in types or op["cr"] not in types:
                continue
            when = datetime.fromisoformat(op["when"])
            for _ in range(op.get("copies", 1)):
                gl.create_transaction(
                    op["name"], description=op["desc"],
                    tx_date=when.date() if op["date"] else when,
                    dt_account=op["dt"], cr_account=op["cr"],
                    source=op["src"], amount=op["amount"])
            continue
        if op["op"] == "tick":
            for _ in range(op["n"]):
                if ticks < spec["count"]:
                    ent.run(model.clock)
                    model.clock.tick()
                    ticks += 1
            ctx.sim_seconds += op["n"] * 30 * 86400
            continue
        # What the report has to hold.
        fmt = op["format"]
        path = PATHS[op["path"]]
        if op["keep"] is not None:
            if op["keep"] not in kept:
                kept[op["keep"]] = (make(op, gl, path), op, path)
            report, shown, path = kept[op["keep"]]
            call = lambda: report.render(ReportFormat[fmt])
        else:
            shown = op
            call = lambda: p06.call(op, gl, fmt, path)
        want = p06.printed(lambda: p06.call(shown, gl, fmt, None))
        rows = list(csv.reader(io.StringIO(p06.printed(
            lambda: p06.call(shown, gl, "csv", None)).rstrip("\n"))))
        judge_rows(shown, rows, gl, types, spec, ctx)
        if fmt == "csv":
            ctx.check(list(csv.reader(io.StringIO(want.rstrip("\n")))) ==
                      rows, "csv", "two printed reports differ")
        file = path + EXT[fmt]
        ledger = [B.tx_row(t) for t in gl.transactions]
        files = sim.snapshot()
        sim.capacity = None if op["capacity"] is None else \
            op["capacity"] + sum(len(b) for p, b in files.items()
                                 if p != file)
        sim.arm(op["faults"])
        sim.install()
        crashed = failed = None
        try:
            call()
        except SimCrash:
            crashed = True
        except Exception as e:
            failed = e
        finally:
            sim.uninstall()
        crashed = crashed or sim.dead
        struck = sim.disarm()
        ctx.log("render", shown["what"], fmt, struck,
                type(failed).__name__, bool(crashed))
        ctx.state([shown["what"], fmt, op["keep"] is None, file in files,
                   sorted(set(struck))])
        ctx.check([B.tx_row(t) for t in gl.transactions] == ledger,
                  "ledger-changed", "rendering changed the ledger")
        if crashed:
            sim.restart()
            failed_on.add(file)
            scrap |= set(sim.snapshot()) - set(files) - {file}
            continue
        now = sim.snapshot()
        if failed is not None:
            scrap |= set(now) - set(files) - {file}
        for p in sorted((set(files) | set(now)) - scrap):
            ctx.check(p == file or files.get(p) == now.get(p), "other-file",
                      lambda: "rendering to %s changed %s" % (file, p))
        if failed is not None:
            failed_on.add(file)
            encodable = True
            try:
                want.encode(sc["encoding"])
            except UnicodeEncodeError:
                encodable = False
            ctx.check(p14.excuses(struck) or not encodable or
                      not sim.is_dir(posixpath.dirname(file)), "refused",
                      lambda: "rendering %s failed without a storage fault: "
                      "%r" % (file, failed))
            continue
        ctx.check(not p14.errors(struck), "error-lost", lambda:
                  "rendering %s as %s returned normally though the storage "
                  "failed: %s" % (shown["what"], fmt, struck))
        ctx.check(file in now, "no-file", lambda: file + " was not written")
        text = now[file].decode(sc["encoding"])
        ctx.check(text.rstrip("\n") == want.rstrip("\n"), "incomplete",
                  lambda: "%s holds %d characters, the report has %d: ...%r "
                  "instead of ...%r" % (file, len(text), len(want),
                                        text[-80:], want[-80:]))
        sim.sync()
        if file in failed_on:
            ctx.nontrivial = True


def judge_rows(op, rows, gl, types, spec, ctx):
    if op["what"] == "structure":
        return p06.check_structure(rows, types, spec, ctx)
    sel = [t for t in gl.transactions if p06.not_after(
        t.tx_date, op["end"]) and (op["what"] == "balance" or (
            p06.not_before(t.tx_date, op["start"]) and
            p06.from_comp(t.source, op["comp"])))]
    if op["what"] == "tx":
        p06.check_tx(rows, sel, ctx)
    elif op["what"] == "balance":
        p06.check_balance(rows, sel, types, ctx)
    else:
        p06.check_income(rows, sel, types, ctx)
