"""P18: concurrent callers get the results they would get alone."""

import io
import os
import sys
import warnings

from sim import business as B
from sim import calc, core, plant, threads

threads.install_locks()

ID = "P18"
IMPORTS = sorted(set(calc.IMPORTS + plant.IMPORTS + B.IMPORTS))
DETERMINISM = True
RECHECK = 60
RUNS = {"quick": 1500, "thorough": 40000}
RULE = ("A case is two to four threads, each with its own packages, models, "
        "ledgers, files and calls, that share materials, account structures, "
        "property models and the calculators, and a schedule that says after "
        "how many executed lines (or opcodes) which other thread goes on. "
        "Every thread's results are compared with those of the same thread "
        "alone. Non-trivial: control changed inside the library at least "
        "twice.")
STATE_MEASURE = ("distinct points (function and line) of the library at "
                 "which control changed between two numbered threads")
REAL = ["auxi.tools", "auxi.modelling", "auxi.core", "cerberus",
        "parsimonious", "numpy", "threads of the interpreter"]
STUB = ["the choice of the thread that runs (a monitoring callback passes a "
        "baton)", "locks made by the library (none at present): they pass "
        "the baton when contended"]
SHRINK = ("switches", "roles", "calls", "ops", "jobs", "kills")
ASSUMPTIONS = ["threads change over only between lines (in part of the runs: "
               "opcodes) of the library, cerberus and parsimonious; what "
               "runs in C is not split",
               "loading other thermochemical data and adding assays change "
               "what is shared and are not done concurrently"]


# ---------------------------------------------------------------------------
# generation
# ---------------------------------------------------------------------------

GROUPS = [["conv", "gas", "liquid"], ["gas"], ["slag", "st"], ["poly"],
          ["st"], ["th"], ["th", "st"], ["ig", "coal"], ["slag"], ["conv"],
          ["coal"], None]
FOCUS = {"calc": [["auxi"], ["materialphysicalproperties"], ["chemistry"]],
         "model": [["reporting.py"], ["core/reporting.py"],
                   ["financial/reporting.py"], ["financial/des.py"],
                   ["business/structure.py"], ["business/basic.py"],
                   ["core/time.py", "business/models.py"],
                   ["core/objects.py", "core/helpers.py"]],
         "plant": [["process/materials"], ["process/materials"],
                   ["chemistry/thermochemistry.py"],
                   ["chemistry/stoichiometry.py"],
                   ["core/objects.py", "materials/core.py"]]}


def generate(rng, tier, index):
    n = rng.choice([2, 2, 2, 3, 3, 4])
    duel = index % 4 == 3
    kind = "calc" if duel else rng.choice(
        ["calc", "plant", "plant", "model", "mixed"])
    family = rng.choice(sorted(plant.FAMILIES))
    mats = plant.generate_materials(rng, family)
    structures = [B.gen_structure(rng)]
    pool = calc.generate_calls(rng, rng.randint(2, 8), rng.choice(GROUPS))
    if duel:    # every thread calls the same function, with other arguments
        pool = calc.generate_duel(
            rng, calc.NAMES[index // 4 % len(calc.NAMES)], rng.randint(3, 6))
    roles = []
    for i in range(n):
        k = rng.choice(["calc", "plant", "model"]) if kind == "mixed" \
            else kind
        roles.append(ROLES[k](rng, i, tier, family, mats, structures, pool))
        if duel:
            roles[-1]["calls"] = [rng.choice(pool)
                                  for _ in range(rng.choice([6, 12, 20]))]
    # How often control changes: from a single change to one at every line.
    focus = None
    if rng.random() < (0.7 if duel else 0.4):
        focus = ["auxi"] if duel else rng.choice(
            FOCUS[rng.choice(roles)["t"]])
    dense = duel or focus is not None
    mode = rng.choice(["many", "every", "every"] if dense else
                      ["few", "few", "few", "some", "many", "every"])
    opcodes = rng.random() < 0.25
    switches = []
    if mode == "few":
        for _ in range(rng.randint(1, 4)):
            switches.append([int(10 ** (rng.random() * 3.6)),
                             rng.randrange(12)])
    else:
        mean = {"some": 120, "many": 8 if dense else 20,
                "every": rng.choice([2, 3, 4])}[mode]
        for _ in range(800 if dense else rng.choice([40, 150, 400])):
            switches.append([rng.randint(1, 2 * mean), rng.randrange(12)])
    kills = []
    if rng.random() < 0.2:
        kills.append([rng.randrange(n), int(10 ** (rng.random() * 3.3))])
    return {"family": family, "materials": mats, "structures": structures,
            "roles": roles, "switches": switches, "opcodes": opcodes,
            "kills": kills, "warm": rng.random() < 0.5,
            "focus": focus}


def calc_role(rng, i, tier, family, mats, structures, pool):
    calls = [rng.choice(pool) for _ in range(rng.randint(1, 6))]
    return {"t": "calc", "calls": calls}


def plant_role(rng, i, tier, family, mats, structures, pool):
    sc = plant.generate(rng, family, tier, mats, rng.randint(1, 9),
                        exclude=("assay", "interrupt", "restart"))
    ops = sc["ops"]
    for _ in range(rng.choice([0, 0, 1, 2])):
        ops.insert(rng.randrange(len(ops) + 1),
                   ["load", rng.randrange(len(mats))])
    for _ in range(rng.choice([0, 0, 0, 1])):
        ops.insert(rng.randrange(len(ops) + 1), ["save", rng.randrange(5)])
    return {"t": "plant", "ops": ops}


def model_role(rng, i, tier, family, mats, structures, pool):
    m = B.gen_model(rng, kinds=("basic", "basic", "loan"), max_count=14,
                    periods=["week", "month", "month", "year"],
                    max_entities=1, name="Model")
    types = B.account_types(structures[0])
    start = B.dec_dt(m["start"])
    m["structures"] = []
    for e in m["entities"]:
        e["gls"] = 0
        e["components"] = [B.gen_component(
            rng, "C%d" % k, 1, types, start, m["duration"], m["count"],
            ("basic", "loan"), 2) for k in range(rng.randint(1, 2))]
    jobs = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["run", "run", "report", "report", "file", "save",
                        "str", "lookup", "count", "print"])
        if k in ("report", "file", "print"):
            jobs.append([k, rng.choice(["transaction_list", "balance_sheet",
                                        "income_statement", "structure"]),
                         rng.choice(["txt", "csv", "latex"])])
        elif k == "lookup":
            jobs.append([k, rng.choice(sorted(types))])
        elif k == "count":
            jobs.append([k, rng.randint(0, 14)])
        else:
            jobs.append([k])
    jobs.insert(0, ["run"])
    return {"t": "model", "spec": m, "jobs": jobs}


ROLES = {"calc": calc_role, "plant": plant_role, "model": model_role}


# ---------------------------------------------------------------------------
# what a thread does
# ---------------------------------------------------------------------------

class Recorder(core.Ctx):
    def __init__(self, scratch):
        super().__init__((), scratch)
        self.rows = []

    def log(self, *event):
        self.rows.append(core.canon(event))

    def common(self, name):
        """A path of its own in the directory all threads write to."""
        d, me = os.path.split(self.scratch)
        d = os.path.join(d, "common")
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, me + name)


class Shared:
    def __init__(self, sc, ctx):
        self.sc = sc
        self.dir = os.path.join(ctx.scratch, "shared")
        os.makedirs(self.dir, exist_ok=True)
        self.scratch = ctx.scratch
        self.fam = plant.FAMILIES[sc["family"]]()
        used = {r["t"] for r in sc["roles"]}
        self.mats = plant.make_materials(self.fam, sc["materials"], self.dir) \
            if "plant" in used else []
        self.gls = [B.build_structure(s) for s in sc["structures"]] \
            if "model" in used else []
        self.world = calc.World()
        self.out = sys.stdout

    def snapshot(self):
        return [sys.stdout is self.out, os.getcwd(),
                [self.fam.material_snapshot(m) for m in self.mats],
                [[self.account(a) for a in g.accounts] for g in self.gls]]

    def account(self, a):
        return [a.name, a.path, a.number, a.description, a.account_type.name,
                [self.account(c) for c in a.accounts]]


def work(shared, role, ix, tag):
    """The whole work of one thread as a generator of nothing; the results go
    to the recorder."""
    d = os.path.join(shared.scratch, "%s%d" % (tag, ix))
    os.makedirs(d, exist_ok=True)
    rec = Recorder(d)
    return rec, {"calc": do_calc, "plant": do_plant,
                 "model": do_model}[role["t"]]


def do_calc(shared, role, rec):
    for call in role["calls"]:
        got, _, changed = calc.outcome(shared.world, call)
        rec.log(call, got, changed)


def do_plant(shared, role, rec):
    sc = dict(shared.sc, ops=role["ops"])
    p = plant.Plant(sc, rec, shared.mats)
    for op in role["ops"]:
        if op[0] == "load":
            i = op[1] % len(shared.mats)
            m = p.fam.make("Material %d" % i,
                           os.path.join(shared.dir, "m%d.txt" % i))
            rec.log("load", p.fam.material_snapshot(m))
        elif op[0] == "save":
            u = p.units[op[1]]
            if u is not None:
                path = rec.common("p.json")
                u.write(path)
                back = plant.Object.read(path)
                rec.log("save", p.fam.snapshot(back)[1:])
        else:
            p.run(op)


def do_model(shared, role, rec):
    from auxi.core.objects import Object
    from auxi.core.reporting import ReportFormat
    m = B.build_model(role["spec"], shared.gls)
    rec.log("built")
    for job in role["jobs"]:
        k = job[0]
        if k == "run":
            m.run()
            rec.log("run", [B.ledger_rows(e) for e in m.entities])
        elif k == "count":
            m.period_count = job[1]
        elif k == "save":
            path = rec.common("model.json")
            m.write(path)
            back = Object.read(path)
            rec.log("save", [B.ledger_rows(e) for e in back.entities])
        elif k == "str":
            rec.log("str", [str(e.gl) for e in m.entities])
        elif k == "lookup":
            for e in m.entities:
                a = e.gl.structure.get_account(job[1])
                rec.log("lookup", None if a is None else
                        [a.path, a.account_type.name,
                         [x.path for x in
                          e.gl.structure.get_account_descendants(a)]])
        elif k == "print":
            for e in m.entities:
                rec.log("print", shared.out.of(lambda: render(
                    e, job[1], ReportFormat.printout, None)))
        elif k == "report":
            for e in m.entities:
                rec.log("report", render(e, job[1], ReportFormat.string,
                                         None))
        elif k == "file":
            path = rec.common("r")
            ext = {"txt": ".txt", "csv": ".csv", "latex": ".tex"}[job[2]]
            for e in m.entities:
                render(e, job[1], ReportFormat[job[2]], path)
                with io.open(path + ext, newline="") as f:
                    rec.log("file", f.read())


def render(e, what, fmt, path):
    if what == "structure":
        return e.gl.structure.report(format=fmt, output_path=path)
    return getattr(e.gl, what)(format=fmt, output_path=path)


def outcome(e):
    if e is None:
        return None
    if isinstance(e, core.Violation):
        return ["violation", e.kind]
    return ["error", type(e).__name__]


def solo(shared, role, ix):
    def fn():
        rec, do = work(shared, role, ix, "solo")
        err = None
        try:
            do(shared, role, rec)
        except Exception as e:
            err = e
        return [rec.rows, outcome(err)]
    return core.in_fork(fn)


# ---------------------------------------------------------------------------
# execution
# ---------------------------------------------------------------------------

def execute(sc, ctx):
    warnings.simplefilter("ignore")
    if not sc["roles"]:
        return
    os.makedirs(ctx.scratch, exist_ok=True)
    shared = Shared(sc, ctx)
    want = [solo(shared, r, i) for i, r in enumerate(sc["roles"])]
    if sc["warm"]:
        for r in sc["roles"]:
            if r["t"] == "calc":
                for call in r["calls"]:
                    calc.outcome(shared.world, call)
    before = shared.snapshot()
    s = threads.Scheduler(sc["switches"], sc["opcodes"],
                          sc["focus"])
    recs = []
    for i, role in enumerate(sc["roles"]):
        rec, do = work(shared, role, i, "t")
        recs.append(rec)
        s.add(lambda w, do=do, role=role, rec=rec: do(shared, role, rec))
    for t, line in sc["kills"]:
        s.workers[t % len(s.workers)].kill_at = line
    s.run()
    ctx.check(not s.deadlock, "deadlock", "every thread waits for another")
    for i, (w, rec, (rows, err)) in enumerate(zip(s.workers, recs, want)):
        what = sc["roles"][i]["t"]
        if w.killed:
            ctx.fault("thread-killed-at-line")
            ctx.check(rec.rows == rows[:len(rec.rows)], "other-result",
                      lambda: "thread %d (%s), before it was killed: %s" %
                      (i, what, first_difference(rec.rows, rows)))
            continue
        got = outcome(w.error)
        ctx.check(rec.rows == rows and got == err, "other-result",
                  lambda: "thread %d (%s): %s; it ended with %r (%s), alone "
                  "with %r" % (i, what, first_difference(rec.rows, rows),
                               got, w.error, err))
        ctx.log(i, what, core.short_hash(rows), err)
    now = shared.snapshot()
    ctx.check(now == before, "shared-changed", lambda: "%r was %r" %
              (now, before))
    # What is shared still answers as it did.
    for i, (role, (rows, err)) in enumerate(zip(sc["roles"], want)):
        rec, do = work(shared, role, i, "after")
        e2 = None
        try:
            do(shared, role, rec)
        except Exception as e:
            e2 = e
        ctx.check(rec.rows == rows and outcome(e2) == err, "other-afterwards",
                  lambda: "%s" % first_difference(rec.rows, rows))
    ctx.step(sum(w.lines for w in s.workers))
    ctx.fault("preemption", s.switched)
    ctx.probe("roles-" + "+".join(sorted({r["t"] for r in sc["roles"]})))
    if sc["opcodes"]:
        ctx.probe("opcode-granularity")
    for p in s.points:
        ctx.state(p)
    ctx.nontrivial = s.switched >= 2


def first_difference(got, want):
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return "result %d is %s, alone it is %s" % (i, a[:600], b[:600])
    return "%d results, alone %d" % (len(got), len(want))
