"""P17: calculators answer the same regardless of what was asked before."""

import gc
import json
import os
import random
import sys
import warnings

from sim import calc, core, inject

ID = "P17"
IMPORTS = calc.IMPORTS
DETERMINISM = True
RECHECK = 300
RUNS = {"quick": 2600, "thorough": 60000}
RULE = ("A case is a set of calculator calls (many of them close relatives of "
        "each other) and a history in which up to four callers make them in a "
        "seeded order, with interrupts at executed lines, calls made in the "
        "middle of other calls, results changed by their caller, arguments "
        "kept and changed by their caller, bursts of many other calls, new "
        "instances, reloads of the same data and failed loads in between. "
        "Every outcome is compared with the one of the same call made first "
        "in a fresh process. Non-trivial: some call is answered at least "
        "twice with other calls or faults in between.")
STATE_MEASURE = "distinct (call, kinds of the two operations before it)"
REAL = ["auxi.tools.chemistry", "auxi.tools.materialphysicalproperties",
        "auxi.tools.transportphenomena", "auxi.core.helpers",
        "auxi.core.bibliography", "cerberus", "parsimonious", "numpy"]
STUB = ["the callers and the order of their calls", "interrupts and nested "
        "calls (between two executed lines)"]
SHRINK = ("history", "calls")
ASSUMPTIONS = ["an error counts as the same when its type is the same"]


def generate(rng, tier, index):
    groups = None
    r = rng.random()
    if r < 0.5:
        groups = rng.choice([["st"], ["th", "st"], ["gas", "liquid", "ig"],
                             ["slag", "st"], ["conv", "gas", "liquid"],
                             ["poly", "liquid"], ["coal", "ig"], ["dp", "dq"],
                             ["th"], ["core", "th"]])
    n = rng.randint(3, 14 if tier == "quick" else 24)
    calls = calc.generate_calls(rng, n, groups)
    busy = rng.random() < 0.12
    faulty = rng.choice([0.0, 0.2, 0.5])
    history = []
    for _ in range(rng.randint(n, 4 * n)):
        i = rng.randrange(n)
        if busy and rng.random() < 0.15:
            history.append(["burst", rng.randint(10, 200 if tier == "quick"
                                                 else 600), groups,
                            rng.randrange(1 << 30)])
            continue
        if rng.random() >= faulty:
            history.append(["call", i, rng.random() < 0.2,
                            rng.random() < 0.2])
            continue
        k = rng.choice(["interrupt", "interrupt", "nest", "nest", "spoil",
                        "spoil", "reload", "failed-load", "gc"])
        line = int(10 ** (rng.random() * 2.6))
        if k == "interrupt":
            history.append([k, i, line])
        elif k == "nest":
            history.append([k, i, rng.randrange(n), line])
        elif k == "spoil":
            history.append([k, i])
        else:
            history.append([k, rng.random() < 0.5])
    return {"calls": calls, "history": history}


def fresh(call):
    """The outcome of a call made first in a fresh process."""
    return core.in_fork(lambda: calc.outcome(calc.World(), call)[0])


def execute(sc, ctx):
    warnings.simplefilter("ignore")
    from auxi.tools.chemistry import thermochemistry
    calls = sc["calls"]
    world = calc.World()
    want = {}
    asked = {}
    last = ["start", "start"]

    def expected(call):
        k = json.dumps(call)
        if k not in want:
            want[k] = fresh(call)
        return want[k]

    def judge(call, got, changed, how):
        exp = expected(call)
        ctx.check(got == exp, "other-answer", lambda: "%r %s: %r instead of "
                  "%r" % (call, how, got, exp))
        ctx.check(not changed, "argument-changed", lambda: "by %r" % (call,))
        k = json.dumps(call)
        if asked.get(k, 0) and asked[k] < len(history_done):
            ctx.nontrivial = True
        asked[k] = len(history_done) + 1
        ctx.log(how, call, got)

    history_done = []
    for op in sc["history"]:
        ctx.step()
        kind = op[0]
        if kind in ("call", "interrupt", "nest", "spoil") and not calls:
            continue
        if kind == "call":
            call = calls[op[1] % len(calls)]
            got, _, changed = calc.outcome(world, call, op[2], keep=op[3])
            judge(call, got, changed, "after %s, %s" % tuple(last))
        elif kind == "interrupt":
            call = calls[op[1] % len(calls)]
            hit = [None]

            def runner(fn):
                hit[0], result = inject.interrupt_at(fn, op[2])
                return result
            got, _, changed = calc.outcome(world, call, runner=runner)
            if hit[0] is None:
                judge(call, got, changed, "to its end")
            else:
                ctx.fault("interrupt-at-line")
                ctx.check(not changed, "argument-changed",
                          lambda: "by %r, interrupted" % (call,))
        elif kind == "nest":
            call = calls[op[1] % len(calls)]
            inner = calls[op[2] % len(calls)]
            expected(call)
            expected(inner)
            box = []
            ran = [False]

            def runner(fn):
                ran[0], result = inject.nest_at(
                    fn, op[3], lambda: sys.stdout.of(
                        lambda: box.append(calc.outcome(world, inner))))
                return result
            got, _, changed = calc.outcome(world, call, runner=runner)
            if box:
                ctx.fault("call-within-call")
                judge(inner, box[0][0], box[0][2], "within another call")
            judge(call, got, changed, "with another call within")
        elif kind == "spoil":
            call = calls[op[1] % len(calls)]
            got, raw, changed = calc.outcome(world, call)
            judge(call, got, changed, "before its result is changed")
            if raw is not None and not isinstance(raw, (str, float, int)) \
                    and calc.spoil(raw):
                ctx.fault("result-changed-by-caller")
        elif kind == "reload":
            path = thermochemistry.default_data_path if op[1] else ""
            thermochemistry.load_data_auxi(path)
            ctx.fault("data-reloaded")
        elif kind == "failed-load":
            failed_load(ctx, op[1])
        elif kind == "burst":
            # Many other questions, the answers to which nobody keeps.
            rng = random.Random(op[3])
            for c in calc.generate_calls(rng, op[1], op[2]):
                calc.outcome(world, c, rng.random() < 0.2)
            ctx.fault("burst-of-calls")
        elif kind == "gc":
            gc.collect()
        history_done.append(kind)
        ctx.state([calls[op[1] % len(calls)] if kind == "call" else kind,
                   last])
        last = [last[1], kind]
        ctx.probe(kind)


def failed_load(ctx, auxi):
    """Loading from a directory with a torn compound file raises."""
    from auxi.tools.chemistry import thermochemistry
    d = os.path.join(ctx.scratch, "torn")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(thermochemistry.default_data_path, "Compound_FeO.json")
    with open(src) as f:
        text = f.read()
    name = "Compound_FeO.json" if auxi else "Compound_FeO.txt"
    with open(os.path.join(d, name), "w") as f:
        f.write(text[:len(text) // 2])
    try:
        if auxi:
            thermochemistry.load_data_auxi(d)
        else:
            thermochemistry.load_data_factsage(d)
    except Exception:
        ctx.fault("failed-load")
    else:
        ctx.fail("torn-file-loaded", "a torn compound file was loaded")
