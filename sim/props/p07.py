"""P07: paths and lookups follow the tree through every edit."""

import zlib

from sim import business as B

ID = "P07"
IMPORTS = B.IMPORTS
RUNS = {"quick": 7000, "thorough": 70000}
RULE = ("A case is a history of creating, renaming and removing entities, "
        "components, activities and accounts, of lookups of present and "
        "absent names, refused additions and names, and postings; every path and lookup "
        "is checked after every operation. Non-trivial: a rename or removal "
        "of an object that has descendants.")
STATE_MEASURE = "distinct shapes of the business and account trees reached"
REAL = ["auxi.modelling.business", "auxi.modelling.financial.des"]
STUB = ["the users editing the trees in a seeded order"]
SHRINK = ("ops",)
ASSUMPTIONS = ["names are unique among siblings, not empty and contain no "
               "slash"]

NAMES = ["A", "B", "Ab", "a", "Coal", "Coal 2", "X.Y", "Sales", "Bank", "é",
         "[1]", "Default", "A B", "C", "D", "E"]


def generate(rng, tier, index):
    ops = [["entity", 0, 0, rng.choice(NAMES)]]
    for _ in range(rng.choice([0, 1, 3, 5])):
        ops.append([rng.choice(["component", "component", "activity",
                                "entity", "account"]),
                    rng.random(), rng.random(), rng.choice(NAMES)])
    most = 40 if tier == "quick" else 80
    if rng.random() < 0.05:
        most *= 4
    for _ in range(rng.randint(4, most)):
        ops.append([rng.choice(
            ["entity", "component", "component", "component", "activity",
             "activity", "rename", "rename", "rename", "rename-model",
             "remove", "remove", "missing", "refused", "post", "step", "step",
             "loan", "no-name",
             "account", "account", "account", "rename-account",
             "rename-account", "remove-account", "missing-account"]),
            rng.random(), rng.random(), rng.choice(NAMES)])
    return {"ops": ops, "model": rng.choice(["M", "Model 1", "A"]),
            "look": rng.choice([1.0, 1.0, 1.0, 0.4, 0.1])}


class Node:
    def __init__(self, kind, name, obj, parent=None):
        self.kind, self.name, self.obj = kind, name, obj
        self.parent = parent
        self.children = []

    @property
    def path(self):
        if self.parent is None:
            return self.name
        return self.parent.path + "/" + self.name

    def all(self):
        yield self
        for c in self.children:
            yield from c.all()

    def free(self, name, kind):
        """A name no sibling of that kind has."""
        used = {c.name for c in self.children if c.kind == kind}
        n, k = name, 1
        while n in used:
            k += 1
            n = "%s#%d" % (name, k)
        return n

    def shape(self):
        return [self.kind, sorted(c.shape() for c in self.children)]


def absent(ctx, fn, what):
    """fn finds nothing: it raises or returns None."""
    try:
        r = fn()
    except Exception:
        return
    ctx.check(r is None, "found-absent", lambda: "%s found %r" %
              (what, getattr(r, "path", r)))


def no_account(ctx, gls, path):
    """An account that is not there is None, and not valid."""
    found = gls.get_account(path)
    ctx.check(found is None, "found-absent", lambda: "%r is looked up as %r" %
              (path, getattr(found, "path", found)))
    try:
        gls.validate_account_names([path])
    except ValueError:
        pass
    else:
        ctx.fail("found-absent", "%r is a valid account name" % path)


def execute(sc, ctx):
    from auxi.modelling.business.models import TimeBasedModel
    from auxi.modelling.business.basic import BasicActivity
    from auxi.modelling.business.basic import BasicLoanActivity
    from auxi.modelling.financial.des import GeneralLedgerStructure
    from auxi.core.time import TimePeriod
    from datetime import datetime
    gls = GeneralLedgerStructure("GLS")
    model = TimeBasedModel(sc["model"], start_datetime=datetime(2016, 1, 1),
                           period_duration=TimePeriod.day, period_count=1000)
    root = Node("model", sc["model"], model)
    acc = Node("gls", "", gls)
    for a in gls.accounts:
        t = Node("account", a.name, a, None)
        acc.children.append(t)
        for c in a.accounts:
            t.children.append(Node("account", c.name, c, t))
    post_dt = next(t for t in acc.children if t.name == "Bank")
    post_cr = next(t for t in acc.children if t.name == "Sales")
    removed = []
    serial = [0]
    prepared = {}
    for kind, x, y, name in sc["ops"]:
        ctx.step()
        nodes = list(root.all())
        ents = [n for n in nodes if n.kind == "entity"]
        comps = [n for n in nodes if n.kind == "component"]
        accts = [n for t in acc.children for n in t.all()]
        pick = lambda seq, r: seq[int(r * len(seq)) % len(seq)]
        if kind == "entity":
            name = root.free(name, "entity")
            root.children.append(Node(
                "entity", name, model.create_entity(name, gls), root))
        elif kind == "component" and ents + comps:
            p = pick(ents + comps, x)
            name = p.free(name, "component")
            p.children.append(Node(
                "component", name, p.obj.create_component(name), p))
        elif kind in ("activity", "refused", "loan") and comps:
            p = pick(comps, x)
            name = p.free(name, "activity")
            serial[0] += 1
            if kind == "refused":
                act = BasicActivity(name, post_dt.path, "No such account",
                                    amount=1)
                n = len(p.obj.activities)
                try:
                    p.obj.add_activity(act)
                except Exception:
                    ctx.fault("refused-activity")
                    ctx.check(len(p.obj.activities) == n, "refused",
                              "a refused activity was added")
                else:
                    ctx.fail("refused", "an activity of an unknown account "
                             "was accepted")
            else:
                act = BasicActivity(name, post_dt.path, post_cr.path,
                                    amount=serial[0])
                if kind == "loan":
                    act = BasicLoanActivity(
                        name, post_dt.path, post_cr.path, post_cr.path,
                        amount=serial[0], duration=900)
                p.obj.add_activity(act)
                p.children.append(Node("activity", name, act, p))
        elif kind == "rename" and len(nodes) > 1:
            n = pick(nodes[1:], x)
            old = n.name
            new = n.parent.free(name, n.kind)
            n.obj.name = new
            n.name = new
            removed.append((n.parent, n.kind, old))
            if n.children:
                ctx.nontrivial = True
                ctx.probe("deep-rename")
        elif kind == "no-name":
            # A name that is no text is refused and changes nothing.
            n = pick(nodes[1:] + [a for a in accts if a.parent] or [root], x)
            for n in (n, root, pick(accts, y)):
                if n.parent is not None or n.children:
                    try:
                        n.obj.name = None
                    except Exception:
                        ctx.fault("refused-name")
                    else:
                        ctx.fail("name", "%s is named None" % n.path)
        elif kind == "rename-model":
            root.name = name
            model.name = name
            if root.children:
                ctx.nontrivial = True
        elif kind == "remove":
            cand = [n for n in nodes if n.kind in ("entity", "component")]
            if cand:
                n = pick(cand, x)
                if n.kind == "entity":
                    model.remove_entity(n.name)
                else:
                    n.parent.obj.remove_component(n.name)
                n.parent.children.remove(n)
                removed.append((n.parent, n.kind, n.name))
                if n.children:
                    ctx.nontrivial = True
                    ctx.probe("subtree-removed")
        elif kind == "missing":
            # removing what is not there changes nothing
            model.remove_entity("no such entity")
            for c in ents + comps:
                c.obj.remove_component("no such component")
        elif kind in ("post", "step"):
            # The first step of a run, or a further one after the edits.
            if kind == "post":
                model.prepare_to_run()
                prepared = {n: 0 for n in nodes}
            for e in ents:
                if e not in prepared:   # added during the run
                    continue
                txs = e.obj.gl.transactions
                before = len(txs) if kind == "step" else 0
                want = []
                for a in e.all():
                    if a.kind != "activity" or a not in prepared:
                        continue
                    if isinstance(a.obj, BasicLoanActivity):
                        times = 2 if prepared[a] else 1
                        want += [(a.path, 0)] * times
                    else:
                        want.append((a.path, a.obj.amount))
                    prepared[a] += 1
                e.obj.run(model.clock)
                got = sorted((t.source, 0 if t.description else t.amount)
                             for t in txs[before:])
                want.sort()
                ctx.check(got == want, "source", lambda:
                          "posted %r instead of %r" % (got, want))
                ctx.log("posted", got)
                ctx.probe("postings", len(got))
                if kind == "step" and want:
                    ctx.probe("postings-after-edits")
            model.clock.tick()
        elif kind == "account":
            p = pick(accts, x)
            if depth(p) < 4:
                name = p.free(name, "account")
                serial[0] += 1
                p.children.append(Node(
                    "account", name,
                    p.obj.create_account(name, "%04d" % serial[0]), p))
        elif kind == "rename-account":
            n = pick(accts, x)
            owner = n.parent or acc
            old = n.name
            new = owner.free(name, "account")
            n.obj.name = new
            n.name = new
            removed.append((n.parent, "account", old))
            if n.children:
                ctx.nontrivial = True
                ctx.probe("deep-account-rename")
        elif kind == "remove-account":
            cand = [n for n in accts if n.parent is not None]
            if cand:
                n = pick(cand, x)
                n.parent.obj.remove_account(n.name)
                n.parent.children.remove(n)
                removed.append((n.parent, "account", n.name))
        elif kind == "missing-account":
            no_account(ctx, gls, "Nothing/" + name)
            no_account(ctx, gls, "Nothing")
            p = pick(accts, x)
            p.obj.remove_account("no such account")
            no_account(ctx, gls, p.path + "/no such")
            no_account(ctx, gls, p.path + "/no such/" + name)
            no_account(ctx, gls, p.path + p.name)
        # A lookup may refresh what is kept for the next one, so some users
        # hardly ever look.
        if zlib.crc32(repr((kind, x, y)).encode()) % 1000 < \
                1000 * sc.get("look", 1.0):
            verify(ctx, root, acc, gls, model, removed)
        else:
            ctx.probe("not-looked-at")
        ctx.state([root.shape(), [t.shape() for t in acc.children
                                  if t.children]])
    verify(ctx, root, acc, gls, model, removed)


def depth(n):
    return 1 if n.parent is None else 1 + depth(n.parent)


def verify(ctx, root, acc, gls, model, removed):
    paths = []
    for n in root.all():
        if n.parent is None:
            ctx.check(n.obj.name == n.name, "name", "the model's name")
            continue
        ctx.check(n.obj.name == n.name, "name",
                  lambda: "%s is named %r" % (n.path, n.obj.name))
        ctx.check(n.obj.path == n.path, "path", lambda: "%s %r has path %r" %
                  (n.kind, n.path, n.obj.path))
        paths.append(n.obj.path)
        p = n.parent.obj
        if n.kind == "activity":
            found = [p(n.name), p.get_activity(n.name)]
        elif n.parent.kind == "component":
            found = [p[n.name], p.get_component(n.name)]
        else:
            found = [p[n.name]]
        ctx.check(all(f is n.obj for f in found), "lookup",
                  lambda: "looking up %r finds %r" %
                  (n.path, [getattr(f, "path", f) for f in found]))
    for n in root.all():
        kids = lambda kind: sorted(c.name for c in n.children
                                   if c.kind == kind)
        if n.kind == "model":
            have = [sorted(e.name for e in n.obj.entities)]
            want = [kids("entity")]
        elif n.kind == "entity":
            have = [sorted(c.name for c in n.obj.components)]
            want = [kids("component")]
        elif n.kind == "component":
            have = [sorted(c.name for c in n.obj.components),
                    sorted(a.name for a in n.obj.activities)]
            want = [kids("component"), kids("activity")]
        else:
            continue
        ctx.check(have == want, "children", lambda: "%s has %r instead of %r"
                  % (n.path, have, want))
    for t in acc.children:
        for n in t.all():
            ctx.check(n.obj.path == n.path, "path", lambda: "account %r has "
                      "path %r" % (n.path, n.obj.path))
            found = gls.get_account(n.path)
            ctx.check(found is n.obj, "lookup", lambda: "account %r is looked "
                      "up as %r" % (n.path, getattr(found, "path", found)))
            if n.parent is not None:
                ctx.check(n.parent.obj[n.name] is n.obj, "lookup",
                          lambda: "account %r by its parent" % n.path)
                ctx.check(n.obj.account_type == n.parent.obj.account_type,
                          "type", lambda: "%r is of type %s" %
                          (n.path, n.obj.account_type))
                rel = n.path[len(t.path) + 1:]
                ctx.check(t.obj.get_child_account(rel) is n.obj, "lookup",
                          lambda: "%r from its top account" % n.path)
            desc = gls.get_account_descendants(n.obj)
            want = [d.obj for d in n.all()][1:]
            ctx.check(len(desc) == len(want) and
                      {id(d) for d in desc} == {id(d) for d in want},
                      "descendants", lambda: "%r has descendants %r" %
                      (n.path, [d.path for d in desc]))
            gls.validate_account_names([n.path])
    ctx.log("paths", paths)
    live = set(map(id, root.all()))
    live_acc = {id(n) for t in acc.children for n in t.all()}
    for parent, kind, name in removed[-6:]:
        if kind == "account":
            siblings = acc.children if parent is None else parent.children
            if parent is not None and id(parent) not in live_acc:
                continue
            if any(c.name == name for c in siblings):
                continue
            path = name if parent is None else parent.path + "/" + name
            no_account(ctx, gls, path)
            if parent is not None:
                absent(ctx, lambda: parent.obj[name], "account " + path)
            continue
        if id(parent) not in live or any(
                c.name == name and c.kind == kind for c in parent.children):
            continue
        if kind == "activity":
            absent(ctx, lambda: parent.obj(name), name)
            absent(ctx, lambda: parent.obj.get_activity(name), name)
        else:
            absent(ctx, lambda: parent.obj[name], name)
