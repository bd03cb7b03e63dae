"""P13: refused and interrupted operations leave everything as it was.

Two worlds get the same operations. In one of them operations that have to be
refused, and operations broken off between two lines, are put in between. The
whole observable state is compared before and after each of these, and the two
worlds have to stay the same to the last bit.
"""

import os
import warnings

from sim import business as B
from sim import core, inject, plant

ID = "P13"
IMPORTS = sorted(set(B.IMPORTS + plant.IMPORTS))
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("A case is a plant of packages or streams, or a business model with "
        "its ledgers and account structure, a history of valid operations "
        "and, in one of two worlds, refused and broken off operations in "
        "between. Non-trivial: at least two faults that took effect, and a "
        "valid operation after one of them.")
STATE_MEASURE = ("distinct (refused operation, kind of error) and (function "
                 "in which an operation was broken off, kind of break)")
REAL = ["auxi.modelling.process.materials", "auxi.modelling.business",
        "auxi.modelling.financial", "auxi.core"]
STUB = ["interrupts, cancellations and failing allocations (raised between "
        "two executed lines)"]
SHRINK = ("ops", "entities", "components", "activities", "accounts",
          "materials")
ASSUMPTIONS = ["operations that modify their operand are not interrupted "
               "(the property does not promise anything for them)"]

BREAKS = ["crash", "memory", "keyboard"]


def generate(rng, tier, index):
    if rng.random() < 0.65:
        return generate_plant(rng, tier)
    return generate_business(rng, tier)


def sprinkle(rng, ops, fault, most):
    for _ in range(rng.randint(1, most)):
        at = rng.randrange(len(ops) + 1)
        ops[at:at] = [fault() for _ in range(rng.choice([1, 1, 1, 2, 4]))]


# ---------------------------------------------------------------------------
# packages and streams
# ---------------------------------------------------------------------------

def generate_plant(rng, tier):
    family = rng.choice(sorted(plant.FAMILIES))
    sc = plant.generate(rng, family, tier,
                        count=rng.randint(4, 24 if tier == "quick" else 60),
                        exclude=("reject", "interrupt", "restart"))
    ops = sc["ops"]
    u = lambda: rng.randrange(plant.UNITS)

    def fault():
        if rng.random() < 0.6:
            return ["refuse", rng.random(), u(), u(), rng.random(),
                    rng.random()]
        return ["break", rng.random(), u(), u(), rng.random(), rng.random(),
                rng.choice(BREAKS)]
    sprinkle(rng, ops, fault, 9)
    sc["world"] = "plant"
    return sc


class Quiet(core.Ctx):
    """For the valid operations: they are judged by comparing two worlds."""

    def check(self, ok, kind, detail):
        pass

    def fail(self, kind, detail, signature=None):
        pass

    def log(self, *event):
        pass


class PlantWorld(plant.Plant):
    def __init__(self, sc, ctx, faulty, directory):
        os.makedirs(directory, exist_ok=True)
        self.real = ctx
        self.faulty = faulty
        self.faults = 0
        self.ended = False
        super().__init__(sc, Quiet((), directory))

    # Nothing is judged against the ledger here.
    def verify(self, before, touched, kind):
        pass

    def temperature(self, led, T0):
        return T0

    def snapshots(self):
        return {}

    def dump(self):
        out = []
        for p in self.units + [self.hold[c][0] for c in sorted(self.hold)]:
            if p is None:
                out.append(None)
                continue
            row = [self.index(p)] + self.fam.snapshot(p)[1:]
            for q in self.fam.queries(p):
                row.append(sorted(q.items()) if isinstance(q, dict)
                           else [repr(float(x)) for x in q])
            row.append(str(p))
            out.append(row)
        out.append([self.same(p) for p in self.units])
        for m in self.mats:
            out.append([self.fam.material_snapshot(m), str(m)])
        return out

    def same(self, p):
        return [p is not None and p is q for q in self.units]

    def refused(self, fn, what):
        if self.faulty:
            self.attempt(what, fn, True)

    def attempt(self, what, fn, strict):
        ctx = self.real
        before = self.dump()
        try:
            fn()
        except Exception as e:
            kind = type(e).__name__
            self.faults += 1
            ctx.fault("refused-operation")
            ctx.state(["refused", self.fam.__class__.__name__, what, kind])
            ctx.log("refused", what, kind)
        else:
            ctx.check(not strict, "not-refused", what)
            ctx.probe("accepted")
            if self.dump() != before:
                self.ended = True       # the other world did not do that
                return
        now = self.dump()
        ctx.check(now == before, "changed-by-refused", lambda: "%s: %s" %
                  (what, difference(now, before)))

    def op_refuse(self, how, a, b, r, r2):
        if not self.faulty:
            return
        cases = self.refusals(a, b, r, r2)
        if cases:
            self.attempt(*cases[int(how * len(cases)) % len(cases)])

    def refusals(self, a, b, r, r2):
        pa, pb, la, lb = (self.units[a], self.units[b], self.leds[a],
                          self.leds[b])
        if pa is None:
            return []
        f = self.fam
        k = self.pick(la, r)
        m = self.mats[la.material]
        n = len(la.m)
        total = float(f.total(pa))
        big = total * 1.001 + 0.5
        bigk = float(f.key_mass(pa, k)) * 1.001 + 0.5
        first = sorted(self.spec[la.material]["assays"])[0]
        bad = f.bad_key()
        wrong = lambda count: {"values": [0.1] * count, "rho": 1.0,
                               "water": 0.0}
        c = [("a negative factor", lambda: pa * -1.0, True),
             ("a text as factor", lambda: pa * "2", True),
             ("nothing as factor", lambda: pa * None, True),
             ("a package as factor", lambda: pa * pa, True),
             ("too much", lambda: pa.extract(big), True),
             ("too much of a key", lambda: pa.extract((k, bigk)), True),
             ("an unknown key to add", lambda: pa + (bad, 1.0), True),
             ("a text to add", lambda: pa + "nonsense", True),
             ("a number to add", lambda: pa + 1.0, True),
             ("nothing to add", lambda: pa + None, True),
             ("a list to add", lambda: pa + [k, 1.0], True),
             ("a material to add", lambda: pa + m, True),
             ("a list to extract", lambda: pa.extract([1.0]), True),
             ("nothing to extract", lambda: pa.extract(None), True),
             ("a package to extract", lambda: pa.extract(pa.clone()), True),
             ("an unknown assay", lambda: f.create(
                 m, "No such assay", 1.0, True, 25.0, 1.0), True),
             ("an assay that is too long", lambda: f.add_assay(
                 m, "Wrong", wrong(n + 1)), True),
             ("an assay that is too short", lambda: f.add_assay(
                 m, "Wrong", wrong(n - 1)), True),
             ("an assay that is there already", lambda: f.add_assay(
                 m, first, wrong(n)), True),
             ("an assay that is none", lambda: m.add_assay("Wrong", "abc"),
              True),
             ("an unknown assay's total", lambda: m.get_assay_total(
                 "No such assay"), True),
             ("an unknown key's mass", lambda: f.key_mass(pa, bad), False),
             ("a text as mass", lambda: pa + (k, "x"), False),
             ("a text as mass to extract", lambda: pa.extract((k, "x")),
              False),
             ("three things to extract", lambda: pa.extract((k, 1.0, 2.0)),
              False)]
        if not f.thermo:
            c += [("an unknown key to extract", lambda: pa.extract(
                (bad, 1.0)), True),
                  ("a whole unknown key", lambda: f.extract_whole_key(
                      pa, bad), True)]
        else:
            c += [("an unknown key to extract", lambda: pa.extract(
                (bad, 1.0)), False),
                  ("an unknown key and temperature", lambda: pa + (
                      bad, 1.0, 300.0), True),
                  ("a text as temperature", lambda: self.set_T(pa, "hot"),
                   False),
                  ("a text as enthalpy", lambda: f.set_H(pa, "much" if
                                                          total else 1.0),
                   False),
                  ("a text as temperature to add", lambda: pa + (
                      k, 1.0, "hot"), False),
                  ("an element that is not there", lambda: f.elements(pa)[2](
                      "Zr"), False),
                  ("a stranger material to extract", lambda: pa.extract(
                      self.mats[b % len(self.mats)]), None)]
            c = [x for x in c if x[2] is not None]
        if f.has_add_to:
            c += [("a number to add to", lambda: pa.add_to(3), True),
                  ("a text to add to", lambda: pa.add_to("x"), True),
                  ("nothing to add to", lambda: pa.add_to(None), True),
                  ("an unknown key to add to", lambda: pa.add_to((bad, 1.0)),
                   True)] * 2
            c += [("a text as mass to add to", lambda: pa.add_to((k, "x")),
                   False)]
        if f.slurry:
            c += [("too much water", lambda: pa.extract(
                ("H2O", float(pa.H2O_mass) * 1.001 + 0.5)), True)]
        if pb is not None:
            lacking = [x for x in lb.m if x not in la.m and
                       float(f.key_mass(pb, x)) > 0]
            if lacking:
                c += [("a package with more", lambda: pa + pb, True)] * 4
                if f.has_add_to:
                    c += [("a package with more to add to",
                           lambda: pa.add_to(pb), True)] * 6
        return c

    def set_T(self, p, T):
        p.T = T

    def op_break(self, how, a, b, r, where, kind):
        if not self.faulty:
            return
        pa, pb, la, lb = (self.units[a], self.units[b], self.leds[a],
                          self.leds[b])
        if pa is None or pb is None:
            return
        f = self.fam
        k = self.pick(la, r)
        mi = la.material
        m = self.mats[mi]
        first = sorted(self.spec[mi]["assays"])[0]
        path = os.path.join(self.ctx.scratch, "again.txt")
        f.write_definition(path, self.spec[mi])
        cases = [lambda: pa * 0.5, lambda: pa.clone(),
                 lambda: pa + (k, 1.0), lambda: str(pa), lambda: str(m),
                 lambda: f.create(m, first, 1.0, True, 100.0, 1.0),
                 lambda: f.empty(m), lambda: m.create_empty_assay(),
                 lambda: m.get_assay_total(first),
                 lambda: f.queries(pa), lambda: f.total(pa),
                 lambda: f.key_mass(pa, k),
                 lambda: f.make("Again", path)]
        if self.accepts(mi, lb.material):
            cases += [lambda: pa + pb] * 6
        if f.thermo:
            cases += [lambda: pa + (k, 1.0, 500.0)] * 2
            cases += [lambda: f.elements(pa), lambda: f.amounts(pa)]
        if f.slurry:
            cases += [lambda: pa + ("H2O", 1.0), lambda: pa.get_volume()]
        fn = cases[int(how * len(cases)) % len(cases)]
        broken(self.real, self, fn, where, kind)


def broken(ctx, world, fn, where, kind):
    """Run fn once to its end, then once broken off at a line."""
    before = world.dump()
    exc = {"crash": core.SimCrash, "memory": MemoryError,
           "keyboard": KeyboardInterrupt}[kind]
    total, _ = inject.count_lines(fn)
    if total == 0:
        return
    name, _ = inject.interrupt_at(fn, 1 + int(where * total), exc)
    now = world.dump()
    ctx.check(now == before, "changed-by-interrupted", lambda: "%s in %s: %s"
              % (kind, name, difference(now, before)))
    if name is not None:
        world.faults += 1
        ctx.fault({"crash": "interrupt-at-line", "memory":
                   "failed-allocation-at-line", "keyboard":
                   "keyboard-interrupt-at-line"}[kind])
        ctx.state(["broken", name, kind])
        ctx.log("broken", name, kind)


def difference(now, before):
    if isinstance(now, list) and isinstance(before, list) and \
            len(now) == len(before):
        for x, y in zip(now, before):
            if x != y:
                return difference(x, y)
    if isinstance(now, dict) and isinstance(before, dict):
        for k in sorted(set(now) | set(before)):
            if now.get(k) != before.get(k):
                return "%s: %s" % (k, difference(now.get(k), before.get(k)))
    return "%.600r, before %.600r" % (now, before)


# ---------------------------------------------------------------------------
# business models
# ---------------------------------------------------------------------------

def generate_business(rng, tier):
    m = B.gen_model(rng, kinds=("basic", "basic", "loan"), max_count=14,
                    periods=["day", "week", "month", "month", "year"],
                    max_entities=2)
    types = B.account_types(m["structures"][0])
    start = B.dec_dt(m["start"])
    ops = []
    for i in range(rng.randint(3, 16 if tier == "quick" else 40)):
        k = rng.choice(["run", "run", "activity", "activity", "activity",
                        "component", "account", "rename", "post", "count",
                        "entity", "report"])
        if k == "activity":
            ops.append([k, rng.random(), B.gen_activity(
                rng, "New %d" % i, types, start, m["duration"], m["count"],
                ("basic", "loan"))])
        elif k == "post":
            a, b = B.gen_accounts_pair(rng, types)
            ops.append([k, rng.random(), a, b, B.gen_amount(rng),
                        rng.randint(-30, 400)])
        elif k == "report":
            ops.append([k, rng.random(), rng.choice(REPORTS),
                        rng.choice(FORMATS)])
        elif k == "count":
            ops.append([k, rng.randint(0, 14)])
        else:
            ops.append([k, rng.random(), rng.random(), "N%d" % i])

    def fault():
        if rng.random() < 0.55:
            return ["refuse", rng.random(), rng.random(), rng.random(),
                    B.gen_activity(rng, "Refused", types, start,
                                   m["duration"], m["count"],
                                   ("basic", "basic", "loan")),
                    rng.randrange(3), rng.choice(UNKNOWN)]
        return ["break", rng.random(), rng.random(), rng.random(),
                rng.choice(REPORTS), rng.choice(FORMATS), rng.random(),
                rng.choice(BREAKS)]
    sprinkle(rng, ops, fault, 7)
    return {"world": "business", "model": m, "ops": ops}


REPORTS = ["transaction_list", "balance_sheet", "income_statement",
           "structure"]
FORMATS = ["string", "string", "printout"]
UNKNOWN = ["No such account", "Bank/No such", "Nothing/Default", "",
           "Bank/Default/Deeper", "bank", "Sales/", None]


class BusinessWorld:
    def __init__(self, sc, ctx, faulty, directory):
        self.real = ctx
        self.dir = directory
        os.makedirs(directory, exist_ok=True)
        self.faulty = faulty
        self.faults = 0
        self.ended = False
        self.gls = [B.build_structure(s) for s in sc["model"]["structures"]]
        self.m = B.build_model(sc["model"], self.gls)
        self.answers = []

    # -- what can be seen -------------------------------------------------
    def dump(self):
        c = self.m.clock
        return [self.m.name, self.m.period_count, c.name, str(
            c.start_datetime), c.timestep_period_duration.name,
            c.timestep_period_count, c.timestep_ix,
            [self.entity(e) for e in self.m.entities],
            [[g.name, [self.account(a) for a in g.accounts]]
             for g in self.gls], sorted(os.listdir(self.dir))]

    def entity(self, e):
        return [e.name, e.path, e.description, e.period_count,
                e.negative_income_tax_total, e.gl.name,
                [self.component(c) for c in e.components], B.ledger_rows(e)]

    def component(self, c):
        return [c.name, c.path, c.description,
                [self.component(s) for s in c.components],
                [activity(a) for a in c.activities]]

    def account(self, a):
        return [a.name, a.path, a.number, a.description, a.account_type.name,
                [self.account(c) for c in a.accounts]]

    def all_components(self):
        def rec(c):
            yield c
            for s in c.components:
                yield from rec(s)
        return [x for e in self.m.entities for c in e.components
                for x in rec(c)]

    def all_accounts(self):
        def rec(a):
            yield a
            for s in a.accounts:
                yield from rec(s)
        return [x for g in self.gls for a in g.accounts for x in rec(a)]

    # -- valid operations -------------------------------------------------
    def run(self, op):
        getattr(self, "op_" + op[0])(*op[1:])

    def pick(self, seq, r):
        return seq[int(r * len(seq)) % len(seq)]

    def op_run(self, *_):
        self.m.run()

    def op_count(self, n):
        self.m.period_count = n

    def op_activity(self, r, spec):
        comps = self.all_components()
        if comps:
            try:
                self.pick(comps, r).add_activity(B.make_activity(spec))
            except ValueError:      # of an account only another one has
                pass

    def op_component(self, r, r2, name):
        comps = self.all_components() + list(self.m.entities)
        if comps:
            self.pick(comps, r).create_component(name)

    def op_entity(self, r, r2, name):
        self.m.create_entity(name, self.pick(self.gls, r))

    def op_account(self, r, r2, name):
        self.pick(self.all_accounts(), r).create_account(name, name)

    def op_rename(self, r, r2, name):
        objs = self.all_components() + list(self.m.entities) + [self.m]
        self.pick(objs, r).name = name

    def op_post(self, r, dt, cr, amount, days):
        from datetime import timedelta
        if self.m.entities:
            self.pick(self.m.entities, r).gl.create_transaction(
                "Posted", tx_date=self.m.clock.start_datetime +
                timedelta(days=days), dt_account=dt, cr_account=cr,
                source="", amount=amount)

    def op_report(self, r, what, fmt):
        if self.m.entities:
            self.answers.append(self.report(self.pick(
                self.m.entities, r), what, fmt))

    def report(self, e, what, fmt, **kw):
        import sys
        from auxi.core.reporting import ReportFormat
        target = e.gl.structure.report if what == "structure" else \
            getattr(e.gl, what)
        fmt = ReportFormat[fmt]
        got = []
        text = sys.stdout.of(lambda: got.append(target(format=fmt, **kw)))
        return [str(got), text]

    # -- faults -----------------------------------------------------------
    def op_refuse(self, how, r, r2, spec, slot, bad):
        if not self.faulty:
            return
        cases = self.refusals(r, r2, spec, slot, bad)
        what, fn, strict = cases[int(how * len(cases)) % len(cases)]
        ctx = self.real
        before = self.dump()
        try:
            fn()
        except Exception as e:
            kind = type(e).__name__
            self.faults += 1
            ctx.fault("refused-operation")
            ctx.state(["refused", what, kind])
            ctx.log("refused", what, kind)
        else:
            ctx.check(not strict, "not-refused", what)
            ctx.probe("accepted")
            if self.dump() != before:
                self.ended = True
                return
        now = self.dump()
        ctx.check(now == before, "changed-by-refused", lambda: "%s: %s" %
                  (what, difference(now, before)))

    def refusals(self, r, r2, spec, slot, bad):
        from datetime import datetime
        from auxi.core.objects import Object
        from auxi.modelling.business.models import TimeBasedModel
        comps = self.all_components()
        acts = [a for c in comps for a in c.activities]
        loans = [a for a in acts if hasattr(a, "interest_rate")]
        g = self.pick(self.gls, r)
        good = [a.path for a in g.accounts[:5]]
        c = [("validating unknown accounts", lambda:
              g.validate_account_names(good[:slot] + [bad] + good[slot:]),
              True),
             ("an unknown entity", lambda: self.m["No such entity"], False),
             ("an account that is no name", lambda: g.get_account(None),
              False),
             ("a model with a start that is none", lambda: TimeBasedModel(
                 "x", start_datetime="no date"), True),
             ("an activity with a start that is none", lambda:
              B.make_activity(dict(spec, start={"str": "31/12/2016"})),
              True),
             ("a text as period", lambda:
              self.m.clock.get_datetime_at_period_ix("x"), False),
             ("a period too far", lambda:
              self.m.clock.get_datetime_at_period_ix(10 ** 12), True),
             ("a file that is not there", lambda: Object.read(
                 os.path.join(self.dir, "nothing.json")), True)]
        named = comps + acts + list(self.m.entities) + self.all_accounts()
        no_name = [None, 5, [], 1.5][slot]
        for o in [self.pick(named, r), self.pick(named, r2), self.m]:
            c.append(("a name that is no text", lambda o=o: setattr(
                o, "name", no_name), False))
        for o in [self.pick(acts or named, r2), self.pick(comps or named, r)]:
            c.append(("a path that is no text", lambda o=o:
                      o.set_parent_path(no_name), False))
        acc = self.pick(self.all_accounts(), r2)
        c += [("an account without a name", lambda: acc.create_account(
            no_name, "9"), False),
              ("an entity without a name", lambda: self.m.create_entity(
                  no_name, g), False)]
        if acts:
            act = self.pick(acts, r2)

            def moment():
                act.start_datetime = "31/12/2016"

            c += [("a start that is none", moment, False)]
        if comps:
            comp = self.pick(comps, r)
            c.append(("a component without a name", lambda:
                      comp.create_component(no_name), False))
            activity_ = dict(spec)
            slots = ["dt", "cr"] if spec["t"] == "basic" else \
                ["bank", "loan", "interest"]
            activity_[slots[slot % len(slots)]] = bad
            a = B.make_activity(activity_)
            seen = activity(a)

            def add():
                try:
                    comp.add_activity(a)
                finally:
                    self.real.check(activity(a) == seen, "changed-by-refused",
                                    lambda: "the activity: %s" %
                                    difference(activity(a), seen))
            c += [("an activity of an unknown account", add, True)] * 10
            c += [("an unknown component", lambda: comp["No such"], False),
                  ("an unknown activity", lambda: comp("No such"), False),
                  ("an unknown activity", lambda: comp.get_activity(
                      "No such"), False),
                  ("an unknown component", lambda: comp.get_component(
                      "No such"), False)]
        if loans:
            loan = self.pick(loans, r2)

            def amount():
                loan.amount = "much"

            def rate():
                loan.interest_rate = "high"

            def months():
                loan.duration = "long"
            c += [("a text as amount", amount, False),
                  ("a text as duration", months, False),
                  ("a text as rate", rate, False)]
        if self.m.entities:
            e = self.pick(self.m.entities, r2)
            gone = os.path.join(self.dir, "no such directory", "report")
            c += [("an unknown component", lambda: e["No such"], False),
                  ("a report with a start that is none", lambda:
                   e.gl.transaction_list(start="no date", format=string()),
                   False),
                  ("a report with an end that is none", lambda:
                   e.gl.balance_sheet(end=1.5, format=string()), False),
                  ("a report with an end that is none", lambda:
                   e.gl.income_statement(end="31/12", format=string()),
                   False),
                  ("a report in no format", lambda: e.gl.transaction_list(
                      format="nonsense"), False),
                  ("a report of a component that is none", lambda:
                   e.gl.transaction_list(component_path=5, format=string()),
                   False),
                  ("a report to nowhere", lambda: e.gl.transaction_list(
                      format=file_format(), output_path=gone), True),
                  ("a report to nowhere", lambda: e.gl.structure.report(
                      format=file_format(), output_path=gone), True),
                  ("a transaction without a name", lambda:
                   e.gl.create_transaction(), True)]
        return c

    def op_break(self, how, r, r2, what, fmt, where, kind):
        if not self.faulty:
            return
        g = self.pick(self.gls, r)
        acc = self.pick([a for a in self.all_accounts()], r2)
        deep = [a.path for a in self.all_accounts()]
        cases = [lambda: g.get_account(acc.path),
                 lambda: g.get_account_descendants(acc),
                 lambda: g.validate_account_names(deep[:3]),
                 lambda: str(g), lambda: self.m.clock.get_datetime(),
                 lambda: str(self.m)]
        if self.m.entities:
            e = self.pick(self.m.entities, r2)
            cases += [lambda: self.report(e, what, fmt)] * 8
            cases += [lambda: self.report(
                e, "transaction_list", fmt, component_path=e.path)] * 2
            cases += [lambda: str(e.gl), lambda: self.m[e.name]]
        comps = self.all_components()
        if comps:
            c = self.pick(comps, r)
            cases += [lambda: str(c)]
            cases += [lambda a=a: a.get_referenced_accounts()
                      for a in c.activities[:1]]
        fn = cases[int(how * len(cases)) % len(cases)]
        broken(self.real, self, lambda: tolerant(fn), where, kind)


def tolerant(fn):
    try:
        return fn()
    except (LookupError, ValueError, TypeError, AttributeError):
        return None


def string():
    from auxi.core.reporting import ReportFormat
    return ReportFormat.string


def file_format():
    from auxi.core.reporting import ReportFormat
    return ReportFormat.csv


def activity(a):
    r = [type(a).__name__, a.name, a.path, a.description,
         str(a.start_datetime), str(a.end_datetime), a.interval,
         a.start_period_ix, a.end_period_ix, a.period_count,
         list(a.get_referenced_accounts())]
    for n in ("amount", "interest_rate", "duration"):
        r.append(getattr(a, n, None))
    return r


# ---------------------------------------------------------------------------
# execution
# ---------------------------------------------------------------------------

def execute(sc, ctx):
    warnings.simplefilter("ignore")
    make = PlantWorld if sc["world"] == "plant" else BusinessWorld
    subject = make(sc, ctx, True, os.path.join(ctx.scratch, "subject"))
    control = make(sc, ctx, False, os.path.join(ctx.scratch, "control"))
    after = 0
    for op in sc["ops"]:
        ctx.step()
        ctx.probe(op[0])
        if op[0] in ("refuse", "break"):
            subject.run(op)
            if subject.ended:
                return
            continue
        got = [valid(w, op) for w in (subject, control)]
        after += subject.faults > 0
        ctx.check(got[0] == got[1], "later-operation", lambda: "%r: %r, "
                  "without the faults %r" % (op, got[0], got[1]))
    if sc["world"] == "business":
        for w in (subject, control):
            w.op_run()
            w.answers += [w.report(e, k, "string") for e in w.m.entities
                          for k in REPORTS]
        ctx.check(subject.answers == control.answers, "later-report", lambda:
                  difference(subject.answers, control.answers))
    a, b = subject.dump(), control.dump()
    ctx.check(a == b, "later-state", lambda: difference(a, b))
    ctx.log("end", core.short_hash(a))
    ctx.nontrivial = subject.faults >= 2 and after > 0


def valid(world, op):
    try:
        world.run(op)
    except Exception as e:
        return type(e).__name__
    return None
