"""
Business models: generation, building through the public API, stepping, and an
independent reference model of what the ledgers must contain.
"""

import calendar
from datetime import datetime, timedelta

IMPORTS = ["auxi.modelling.business.models", "auxi.modelling.business.basic",
           "auxi.modelling.financial.des", "sim.scripted", "numpy"]

PERIODS = ["millisecond", "second", "minute", "hour", "day", "week", "month",
           "year"]

TOP = {
    "Unallocated Income Statement": "revenue", "Sales": "revenue",
    "Cost of Sales": "expense", "Other Income": "revenue",
    "Expense": "expense", "Tax": "expense", "Dividends": "expense",
    "Share Capital": "asset", "Retained Income": "equity",
    "Shareholders Loan": "liability", "Long Term Borrowing": "liability",
    "Other Long Term Liabilities": "liability", "Fixed Assets": "asset",
    "Investments": "asset", "Other Fixed Assets": "asset",
    "Inventory": "asset", "Accounts Receivable": "asset", "Bank": "asset",
    "Other Current Assets": "asset", "Account Payable": "liability",
    "Taxation": "liability", "Other Current Liabilities": "liability",
}
PRESET = {
    "Bank/Default": "asset",
    "Unallocated Income Statement/Gross Profit": "revenue",
    "Unallocated Income Statement/Income Summary": "revenue",
    "Retained Income/Retained Earnings": "equity",
    "Tax/Income Tax Expense": "expense",
}
GP = "Unallocated Income Statement/Gross Profit"
IS = "Unallocated Income Statement/Income Summary"
RE = "Retained Income/Retained Earnings"


# --- dates -----------------------------------------------------------------

def enc(dt):
    if dt == datetime.min:
        return "min"
    if dt == datetime.max:
        return "max"
    return dt.isoformat()


def dec(s):
    """A JSON date to what is passed to the API."""
    if s == "min":
        return datetime.min
    if s == "max":
        return datetime.max
    if isinstance(s, dict):
        return s["str"]                    # passed as a string
    return datetime.fromisoformat(s)


def dec_dt(s):
    """A JSON date to the datetime it denotes."""
    if isinstance(s, dict):
        y, m, d = s["str"].split("-")
        return datetime(int(y), int(m), int(d))
    return dec(s)


def add_months(dt, n):
    """dt plus n months; the day is clamped to the month's length."""
    k = dt.year * 12 + (dt.month - 1) + n
    y, m = divmod(k, 12)
    m += 1
    if y < 1 or y > 9999:
        raise OverflowError("year out of range")
    return dt.replace(year=y, month=m,
                      day=min(dt.day, calendar.monthrange(y, m)[1]))


def period_date(start, duration, ix):
    if duration == "month":
        return add_months(start, ix)
    if duration == "year":
        return add_months(start, 12 * ix)
    unit = {"millisecond": 0.001, "second": 1, "minute": 60, "hour": 3600,
            "day": 86400, "week": 7 * 86400}[duration]
    if duration == "millisecond":
        return start + timedelta(milliseconds=ix)
    return start + timedelta(seconds=unit * ix)


# --- generation ------------------------------------------------------------

def gen_start(rng, leap=True):
    y = rng.choice([1970, 1999, 2000, 2015, 2016, 2019, 2020, 2023, 2024,
                    2100])
    m = rng.randint(1, 12)
    last = calendar.monthrange(y, m)[1]
    d = rng.choice([1, 1, 15, 28, last, last, rng.randint(1, last)])
    if not leap and m == 2 and d == 29:
        d = 28
    t = rng.choice([(0, 0, 0), (0, 0, 0), (0, 0, 0), (8, 30, 0),
                    (23, 59, 59), (12, 0, 1)])
    return datetime(y, m, d, *t)


def gen_bound(rng, start, duration, count, is_start):
    """A start or end bound of an activity, near the interesting places."""
    r = rng.random()
    if r < 0.3:
        return "min" if is_start else "max"
    third = max(count // 3, 1)
    if is_start:
        ix = rng.choice([0, 1, rng.randint(0, third), rng.randint(0, third),
                         rng.randint(0, max(count, 1)), -1, -3,
                         rng.choice([max(count - 1, 0), count, count + 1])])
    else:
        ix = rng.choice([max(count - 1, 0), count, max(count - 2, 0),
                         rng.randint(count // 2, max(count, 1)),
                         rng.randint(0, max(count, 1)), count + 1,
                         rng.choice([0, 1, -1])])
    if ix < 0:
        base = start - timedelta(days=31 * -ix)
    else:
        base = period_date(start, duration, ix)
    off = rng.choice([0, 0, 0, 1, -1, 86400, -86400, 3600, -3600])
    if off:
        base = base + timedelta(seconds=off)
    if rng.random() < 0.06:
        base = base + timedelta(microseconds=rng.choice([-1, 1]))
    if rng.random() < 0.2:
        return {"str": base.strftime("%Y-%m-%d")}
    return enc(base)


def gen_amount(rng, signed=False):
    a = rng.choice([1, 2.5, 100, 0.25, 1000000, 12.75,
                    rng.randint(1, 4000) / 4])
    if rng.random() < 0.06:         # less than a cent, and exact
        a = rng.choice([2.0 ** -9, 2.0 ** -12, 3 * 2.0 ** -10])
    if signed and rng.random() < 0.2:
        a = rng.choice([0, -a])
    return a


NAMES = ["Alpha", "Beta", "Gamma", "Delta", "Eps", "Alpha2", "Alp", "Mine",
         "Mine A", "Plant", "Admin", "X", "alpha", "MINE", "x"]


def uniq(rng, used, pool=NAMES):
    for _ in range(40):
        n = rng.choice(pool)
        if n not in used:
            used.add(n)
            return n
    n = "N%d" % len(used)
    used.add(n)
    return n


def gen_structure(rng, rich=True):
    """Extra accounts as [parent path, name, number]."""
    accounts = []
    parents = ["Sales", "Cost of Sales", "Other Income", "Expense", "Tax",
               "Dividends", "Bank", "Long Term Borrowing",
               "Accounts Receivable", "Retained Income", "Account Payable",
               "Inventory", "Unallocated Income Statement"]
    n = rng.randint(2, 9) if rich else rng.randint(0, 3)
    seen = {}
    renamed = {}
    if rng.random() < 0.2:              # tops that resemble others
        for top in rng.sample(sorted(ALIKE), rng.choice([1, 1, 2])):
            renamed[top] = rng.choice(ALIKE[top])
    for i in range(n):
        p = rng.choice(parents[:4] if rng.random() < 0.6 else parents)
        p = renamed.get(p, p)
        if accounts and rng.random() < 0.3:
            p = rng.choice([a[0] + "/" + a[1] for a in accounts])
        used = seen.setdefault(p, set())
        nm = uniq(rng, used, ["Coal", "Iron", "Steam", "Interest", "Wages",
                              "Default2", "Loan A", "Loan B", "Other", "Coal2",
                              "Sales", "Expense", "coal", "WAGES"])
        accounts.append([p, nm, "%04d" % (10 * (i + 1))])
    if accounts and rng.random() < 0.25:        # the same but for its case
        p, nm = rng.choice(accounts)[:2]
        for twin in (nm.upper(), nm.lower(), nm.title()):
            if twin not in seen.setdefault(p, set()):
                seen[p].add(twin)
                accounts.append([p, twin, "8%03d" % len(accounts)])
                break
    if rng.random() < 0.08:             # a deep hierarchy
        p = rng.choice(parents)
        p = renamed.get(p, p)
        for i in range(rng.randint(4, 10)):
            nm = uniq(rng, seen.setdefault(p, set()), ["Deep", "Coal"])
            accounts.append([p, nm, "9%03d" % i])
            p += "/" + nm
    if rng.random() < 0.2:              # accounts with a type of their own
        for a in rng.sample(accounts, min(len(accounts), 2)):
            a.append(rng.choice(
                ["revenue", "expense"]
                if a[0].split("/")[0] in ("Sales", "Cost of Sales") else
                ["revenue", "expense", "asset", "liability", "equity"]))
    return {"accounts": accounts, "renamed": renamed}


ALIKE = {"Other Income": ["Sales of Scrap", "Sales 2", "Sale", "sales"],
         "Tax": ["Cost of Sales Tax", "Expenses", "Expense 2"],
         "Dividends": ["Income Summary", "Gross Profit", "Bank2"],
         "Inventory": ["Bank Notes", "Cost of Sales2", "Retained Earnings"],
         "Investments": ["Sales Ledger", "Expensed", "Long Term"]}


def account_types(structure):
    """All account paths of a structure with their type."""
    to = structure.get("renamed", {})
    t = {}
    for a, kind in list(TOP.items()) + list(PRESET.items()):
        top, *below = a.split("/")
        t["/".join([to.get(top, top)] + below)] = kind
    for p, nm, _, *own in structure["accounts"]:
        t[p + "/" + nm] = own[0] if own else t[p]
    return t


def gen_accounts_pair(rng, types, income=0.6, avoid=(GP, IS, RE)):
    names = sorted(n for n in types if n not in avoid)
    inc = [n for n in names if types[n] in ("revenue", "expense")]
    bal = [n for n in names if types[n] not in ("revenue", "expense")]
    a = rng.choice(inc if rng.random() < income else bal)
    b = rng.choice(inc if rng.random() < 0.2 else bal)
    if rng.random() < 0.5:
        a, b = b, a
    return a, b


def gen_activity(rng, name, types, start, duration, count, kinds=("basic",),
                 intervals=(1, 1, 1, 2, 3, 4, 6, 12, 5)):
    kind = rng.choice(kinds)
    desc = None if rng.random() < 0.5 else "about " + name
    if kind == "loan":
        return leave_out(rng, {
            "t": "loan", "name": name, "desc": desc,
            "bank": "Bank/Default",
            "loan": rng.choice(["Long Term Borrowing", "Shareholders Loan"]),
            "interest": rng.choice(["Expense", "Cost of Sales"]),
            "amount": rng.choice([1000, 50000.5, 1, 123456]),
            "rate": rng.choice([0.0, 0.15, 0.1, 0.01, 1.2, 0.155]),
            "start": gen_bound(rng, start, duration, count, True),
            "months": rng.choice([1, 2, 3, 6, 12, 60, 0]),
            "interval": 1})
    dt, cr = gen_accounts_pair(rng, types)
    return leave_out(rng, {
        "t": "basic", "name": name, "desc": desc, "dt": dt, "cr": cr,
        "amount": gen_amount(rng, signed=True),
        "start": gen_bound(rng, start, duration, count, True),
        "end": gen_bound(rng, start, duration, count, False),
        "interval": rng.choice(intervals)})


def gen_component(rng, name, depth, types, start, duration, count, kinds,
                  max_acts=3):
    comp = {"name": name, "components": [], "activities": []}
    used = set()
    same = rng.random() < 0.05          # activities may share a name
    for _ in range(rng.randint(0 if depth else 1, max_acts)):
        comp["activities"].append(gen_activity(
            rng, "Same" if same else uniq(rng, used), types, start, duration,
            count, kinds))
    if depth > 0:
        used = set()
        for _ in range(rng.choice([0, 1, 1, 2])):
            comp["components"].append(gen_component(
                rng, uniq(rng, used), depth - 1, types, start, duration,
                count, kinds, max_acts))
    return comp


def gen_model(rng, kinds=("basic",), max_count=40, periods=PERIODS,
              leap=True, max_entities=3, share=None, name="Model"):
    duration = rng.choice(periods)
    if duration == "year":
        max_count = min(max_count, 8)
    count = rng.choice([1, 2, 12, 13, rng.randint(1, max_count),
                        rng.randint(1, max_count), 0])
    count = min(count, max_count)
    start = gen_start(rng, leap)
    structures = [gen_structure(rng)
                  for _ in range(1 if rng.random() < 0.5 else 2)]
    entities = []
    used = set()
    for _ in range(rng.randint(1, max_entities)):
        si = rng.randrange(len(structures))
        types = account_types(structures[si])
        cu = set()
        entities.append({
            "name": uniq(rng, used), "gls": si,
            "components": [gen_component(rng, uniq(rng, cu),
                                         rng.choice([0, 1, 2]), types, start,
                                         duration, count, kinds)
                           for _ in range(rng.randint(1, 2))]})
    if rng.random() < 0.05:             # many of a kind
        e = rng.choice(entities)
        used = set()
        types = account_types(structures[e["gls"]])
        e["components"] = [gen_component(rng, uniq(rng, used), 0, types,
                                         start, duration, count, kinds, 2)
                           for _ in range(rng.randint(6, 12))]
    return {"name": name, "start": enc(start), "duration": duration,
            "start_as": "str" if
            start.time() == datetime.min.time() and rng.random() < 0.25
            else "datetime",
            "count": count, "structures": structures, "entities": entities}


# --- building through the public API ---------------------------------------

def build_structure(spec, name="GLS"):
    from auxi.modelling.financial.des import AccountType
    from auxi.modelling.financial.des import GeneralLedgerStructure
    gls = GeneralLedgerStructure(name)
    for old, new in sorted(spec.get("renamed", {}).items()):
        gls.get_account(old).name = new
    for parent, nm, number, *own in spec["accounts"]:
        acc = gls.get_account(parent)
        if acc is None:                     # dropped by the minimiser
            continue
        new = acc.create_account(nm, number)
        if own:
            new.account_type = AccountType[own[0]]
    return gls


DEFAULTS = {"basic": {"amount": 0, "start": "min", "end": "max",
                      "interval": 1},
            "loan": {"amount": 0, "rate": 0.0, "start": "min", "months": 60,
                     "interval": 1}}
PARAMETERS = {"rate": "interest_rate", "months": "duration"}


def leave_out(rng, a):
    """Let an activity be created with some arguments left to the default."""
    if rng.random() < 0.85:
        return a
    for k in rng.sample(sorted(DEFAULTS[a["t"]]), rng.choice([1, 1, 2])):
        a[k] = DEFAULTS[a["t"]][k]
        a.setdefault("omit", []).append(PARAMETERS.get(k, k))
    return a


def given(a, args):
    """The arguments to pass: not those left out, unless changed since."""
    out = dict(args)
    for k, v in DEFAULTS[a["t"]].items():
        name = PARAMETERS.get(k, k)
        if a[k] == v and name in a.get("omit", ()):
            del out[name]
    return out


def make_activity(a):
    from auxi.modelling.business.basic import BasicActivity
    from auxi.modelling.business.basic import BasicLoanActivity
    if a["t"] == "basic":
        return BasicActivity(a["name"], a["dt"], a["cr"], **given(a, {
            "amount": a["amount"], "start": dec(a["start"]),
            "end": dec(a["end"]), "interval": a["interval"],
            "description": a["desc"]}))
    if a["t"] == "loan":
        return BasicLoanActivity(
            a["name"], a["bank"], a["loan"], a["interest"], **given(a, {
                "amount": a["amount"], "interest_rate": a["rate"],
                "start": dec(a["start"]), "duration": a["months"],
                "interval": a["interval"], "description": a["desc"]}))
    if a["t"] == "script":
        return make_script_activity(a)
    if a["t"] == "failing":
        from sim.scripted import FailingActivity
        return FailingActivity(a["name"])
    raise ValueError(a["t"])


def make_script_activity(a):
    from sim.scripted import ScriptActivity
    return ScriptActivity(a["name"], a["posts"])


def build_component(owner, spec):
    comp = owner.create_component(spec["name"])
    for c in spec["components"]:
        build_component(comp, c)
    for a in spec["activities"]:
        comp.add_activity(make_activity(a))
    return comp


def build_entity(model, espec, structures):
    ent = model.create_entity(espec["name"], structures[espec["gls"]])
    for c in espec["components"]:
        build_component(ent, c)
    return ent


def build_model(spec, structures=None):
    from auxi.modelling.business.models import TimeBasedModel
    from auxi.core.time import TimePeriod
    if structures is None:
        structures = [build_structure(s) for s in spec["structures"]]
    start = dec(spec["start"])
    if spec.get("start_as") == "str":
        start = start.strftime("%Y-%m-%d")
    m = TimeBasedModel(spec["name"], start_datetime=start,
                       period_duration=TimePeriod[spec["duration"]],
                       period_count=spec["count"])
    for e in spec["entities"]:
        build_entity(m, e, structures)
    return m


def tx_row(t):
    """A transaction as plain data."""
    return [t.name, t.description, t.tx_date.isoformat(), t.dt_account,
            t.cr_account, t.source, t.amount,
            bool(t.is_closing_dt_account), bool(t.is_closing_cr_account)]


def ledger_rows(entity):
    return [tx_row(t) for t in entity.gl.transactions]


# --- the reference model ---------------------------------------------------

def ref_window(dates, start, end, count):
    """First period and one past the last period of an activity's window.

    dates: the dates of periods 0..count-1."""
    if start == datetime.min:
        first = 0
    else:
        later = [i for i in range(count) if dates[i] > start]
        if later:
            first = later[0]
        elif count and dates[count - 1] == start:
            first = count - 1
        else:
            first = count
    last = first + count
    if end != datetime.max:
        after = [i for i in range(count) if dates[i] > end]
        if after:
            last = max(after[0], first)
    return first, last


def ref_fires(a, dates, count, end=None):
    """The periods in which an activity's schedule fires."""
    start = dec_dt(a["start"])
    if a["t"] == "loan":
        end = datetime.max if start == datetime.min else \
            add_months(start, a["months"] + 1)
    else:
        end = dec_dt(a["end"])
    first, last = ref_window(dates, start, end, count)
    k = a["interval"]
    return [i for i in range(count)
            if (i + 1) % k == 0 and first <= i and i + k <= last]


def ref_activity(a, path, dates, count, skipped=()):
    """[(period, row)] of an activity; row as in tx_row, without the flags.
    It is not stepped in the skipped periods."""
    src = path + "/" + a["name"]
    title = a.get("desc") if a.get("desc") is not None else a["name"]
    out = []
    if a["t"] == "failing":
        return out
    if a["t"] == "script":
        for ix, off, dt, cr, amount in a["posts"]:
            if 0 <= ix < count:
                when = dates[ix].date() if off is None else \
                    dates[ix] + timedelta(seconds=off)
                out.append((ix, ["post", None, when.isoformat(), dt, cr, src,
                                 amount]))
        out.sort(key=lambda p: p[0])
        return out
    if a["t"] == "basic":
        if a["amount"] > 0:
            for i in ref_fires(a, dates, count):
                if i in skipped:
                    continue
                out.append((i, [title, "", dates[i].isoformat(), a["dt"],
                                a["cr"], src, a["amount"]]))
        return out
    # a loan
    n = a["months"]
    if a["amount"] <= 0 or n <= 0:
        return out
    left = a["amount"]
    r = a["rate"] / 12.0
    pay = a["amount"] / n if r == 0 else \
        a["amount"] * r / (1 - (1 + r) ** -n)
    fires = [i for i in ref_fires(a, dates, count) if i not in skipped]
    for k, i in enumerate(fires):
        when = dates[i].isoformat()
        if k == 0:
            out.append((i, [title, "Make a loan", when, a["bank"], a["loan"],
                            src, a["amount"]]))
        elif k <= n:
            interest = left * r
            out.append((i, [title, "Consider interest", when, a["interest"],
                            a["loan"], src, interest]))
            out.append((i, [title, "Pay principle", when, a["loan"],
                            a["bank"], src, pay]))
            left += interest - pay
    return out


def walk_activities(espec, model_name):
    """(path of the owning component, activity) of an entity, in tree order:
    a component's sub components come before its own activities."""
    def rec(c, prefix):
        path = prefix + "/" + c["name"]
        for s in c["components"]:
            yield from rec(s, path)
        for a in c["activities"]:
            yield path, a
    for c in espec["components"]:
        yield from rec(c, model_name + "/" + espec["name"])


def ref_dates(spec):
    start = dec_dt(spec["start"])
    return [period_date(start, spec["duration"], i)
            for i in range(spec["count"])]


def ref_entity(spec, espec, skipped=()):
    """{period: [rows]} of an entity's activities, in execution order."""
    dates = ref_dates(spec)
    per = {}
    for path, a in walk_activities(espec, spec["name"]):
        for ix, row in ref_activity(a, path, dates, spec["count"],
                                    skipped):
            per.setdefault(ix, []).append(row)
    return per


def rows_close(a, b, rel=1e-9):
    """Rows equal, amounts within a relative tolerance."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, (int, float)) and isinstance(y, (int, float)) and \
                not isinstance(x, bool):
            if abs(x - y) > rel * max(1.0, abs(x), abs(y)):
                return False
        elif x != y:
            return False
    return True
