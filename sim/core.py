"""
The simulator's core: seeded runs, isolation, the event log, and the search.

One run is a pure function of (scenario, code).  The scenario is plain JSON: it
is generated from ``random.Random(f"{seed}/{property}/{index}")`` and holds
every operation, every scheduling choice and every fault of the run.  Each run
executes in a freshly forked child, so no run can see what another left behind.
"""

import gc
import hashlib
import io
import json
import os
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property is broken."""

    def __init__(self, kind, detail, signature=None):
        super().__init__("%s: %s" % (kind, detail))
        self.kind = kind
        self.detail = detail
        self.signature = signature


class NoProgress(BaseException):
    """The run used up its CPU time: something does not terminate."""


class HarnessError(Exception):
    """The simulator itself could not do its work."""


class SimCrash(BaseException):
    """An injected crash or cancellation. Never caught by 'except Exception'."""


class Injected(Exception):
    """An injected failure of a collaborator (an ordinary exception)."""


def canon(x):
    return json.dumps(x, sort_keys=True, default=repr)


def short_hash(x):
    if not isinstance(x, (bytes, str)):
        x = canon(x)
    if isinstance(x, str):
        x = x.encode("utf-8", "surrogatepass")
    return hashlib.blake2b(x, digest_size=6).hexdigest()


class Ctx:
    """What one run records."""

    def __init__(self, known=(), scratch=None):
        self.events = 0
        self._digest = hashlib.blake2b(digest_size=16)
        self.tail = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.known_hits = {}
        self.known = set(known)
        self.sim_seconds = 0.0
        self.steps = 0
        self.nontrivial = False
        self._scratch = scratch

    # --- recording -------------------------------------------------------
    def log(self, *event):
        """Record an event. Never draws randomness and never reads a clock."""
        line = canon(event)
        self.events += 1
        self._digest.update(line.encode("utf-8", "surrogatepass"))
        self.tail.append(line if len(line) < 400 else line[:400] + "...")
        if len(self.tail) > 60:
            del self.tail[0]

    def digest(self):
        return self._digest.hexdigest()

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, x):
        if len(self.states) < 400:
            self.states.add(short_hash(x))

    def step(self, n=1):
        self.steps += n

    # --- judging ---------------------------------------------------------
    def fail(self, kind, detail, signature=None):
        raise Violation(kind, detail, signature)

    def check(self, ok, kind, detail):
        if not ok:
            raise Violation(kind, detail() if callable(detail) else detail)

    def deviation(self, signature, detail):
        """A deviation that may be a recorded finding: only the exact
        signatures listed in known_findings.txt are tolerated."""
        if signature in self.known:
            self.known_hits.setdefault(signature, detail)
        else:
            raise Violation(signature, detail, signature)

    # --- resources -------------------------------------------------------
    @property
    def scratch(self):
        """A private scratch directory; its name never enters the log."""
        if self._scratch is None:
            raise HarnessError("no scratch directory")
        os.makedirs(self._scratch, exist_ok=True)
        return self._scratch


# ---------------------------------------------------------------------------
# executing one scenario
# ---------------------------------------------------------------------------

CPU_LIMIT = 40.0
WALL_LIMIT = 240.0


def _on_prof(signum, frame):
    raise NoProgress()


def _describe_exception(e):
    frames = traceback.extract_tb(e.__traceback__)
    where = ""
    in_auxi = False
    for f in frames:
        if f.filename.startswith(REPO + "/"):
            in_auxi = True
            where = "%s:%s" % (os.path.relpath(f.filename, REPO), f.name)
    text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    return in_auxi, where, text


class Output(threading.local):
    """Standard output of a run: every thread has its own."""

    encoding, errors, newlines = "utf-8", "strict", None

    def __init__(self):
        self.text = []

    def write(self, s):
        self.text.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def of(self, fn):
        """What a call writes."""
        outer, self.text = self.text, []
        try:
            fn()
            return "".join(self.text)
        finally:
            self.text = outer


def run_here(prop, scenario, known, scratch):
    """Execute a scenario in this process and return the result dictionary."""
    ctx = Ctx(known, scratch)
    violation = None
    real_stdout = sys.stdout
    sys.stdout = Output()
    random.seed(0)
    try:
        prop.execute(scenario, ctx)
    except Violation as v:
        violation = {"kind": v.kind, "detail": str(v.detail)[:4000]}
    except NoProgress:
        violation = {"kind": "no-progress",
                     "detail": "the run used %g s of CPU without finishing"
                     % CPU_LIMIT}
    except (MemoryError, HarnessError):
        raise
    except (Exception, SimCrash) as e:
        in_auxi, where, text = _describe_exception(e)
        kind = "exception:%s" % type(e).__name__
        violation = {"kind": kind + (("@" + where) if where else ""),
                     "detail": text[-3000:]}
    finally:
        sys.settrace(None)
        sys.stdout = real_stdout
    if violation is not None:
        ctx.log("violation", violation["kind"])
    return {
        "digest": ctx.digest(), "events": ctx.events, "tail": ctx.tail[-25:],
        "violation": violation, "known": ctx.known_hits,
        "faults": ctx.faults, "probes": ctx.probes,
        "states": sorted(ctx.states), "sim_s": ctx.sim_seconds,
        "steps": ctx.steps, "nontrivial": bool(ctx.nontrivial),
    }


def run_forked(prop, scenario, known=()):
    """Execute a scenario in a forked child."""
    r, w = os.pipe()
    scratch = tempfile.mkdtemp(prefix="auxisim-")
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            signal.signal(signal.SIGPROF, _on_prof)
            signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
            os.chdir(scratch)
            out = run_here(prop, scenario, known, os.path.join(scratch, "d"))
            signal.setitimer(signal.ITIMER_PROF, 0)
            data = json.dumps(out, default=repr).encode()
            code = 0
        except BaseException:
            data = json.dumps({"harness_error":
                               traceback.format_exc()[-3000:]}).encode()
        try:
            view = memoryview(data)
            while view:
                n = os.write(w, view)
                view = view[n:]
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + WALL_LIMIT
    killed = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            killed = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    if killed:
        return {"digest": "", "events": 0, "tail": [], "known": {},
                "violation": {"kind": "no-progress",
                              "detail": "the run did not finish within %g s"
                              % WALL_LIMIT},
                "faults": {}, "probes": {}, "states": [], "sim_s": 0.0,
                "steps": 0, "nontrivial": False}
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return {"harness_error": "the run's process ended with status %r"
                % status}


def scenario_for(prop, seed, index, tier):
    rng = random.Random("%s/%s/%s" % (seed, prop.ID, index))
    sc = prop.generate(rng, tier, index)
    # Everything that decides a run is in the JSON.
    return json.loads(json.dumps(sc))


# ---------------------------------------------------------------------------
# known findings
# ---------------------------------------------------------------------------

def load_known(prop_id):
    """Signatures recorded for a property in known_findings.txt."""
    result = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return result
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("finding: "):
                continue
            parts = line[len("finding: "):].split(" ", 2)
            d = dict(p.split("=", 1) for p in parts[:2])
            if d.get("property") == prop_id:
                result[d["signature"]] = parts[2] if len(parts) > 2 else ""
    return result


# ---------------------------------------------------------------------------
# searching
# ---------------------------------------------------------------------------

def search(prop, seed, tier, known, runs, wall, workers, stop_after=12):
    """Run scenarios on a set of worker processes."""
    gc.collect()
    gc.freeze()
    sys.stdout.flush()
    sys.stderr.flush()
    start = time.monotonic()
    procs = []
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for p in procs:
                    os.close(p[1])
                f = os.fdopen(wr, "w")
                stop = []
                signal.signal(signal.SIGTERM, lambda *a: stop.append(1))
                for i in range(w, runs, workers):
                    if stop or time.monotonic() - start > wall:
                        break
                    try:
                        sc = scenario_for(prop, seed, i, tier)
                    except BaseException:
                        f.write(json.dumps({"i": i, "harness_error":
                                            traceback.format_exc()}) + "\n")
                        f.flush()
                        break
                    res = run_forked(prop, sc, known)
                    if "harness_error" in res:      # once more, e.g. ENOMEM
                        res = run_forked(prop, sc, known)
                    res["i"] = i
                    res["key"] = short_hash(sc)
                    if i >= 3:
                        res.pop("tail", None)
                    else:
                        res["scenario"] = sc
                    f.write(json.dumps(res) + "\n")
                    f.flush()
                f.close()
            finally:
                os._exit(0)
        os.close(wr)
        procs.append((pid, r))
    bufs = {r: b"" for _, r in procs}
    results = []
    failures = 0
    open_fds = set(bufs)
    stopped = False
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [], 5.0)
        for r in ready:
            b = os.read(r, 1 << 20)
            if not b:
                open_fds.discard(r)
                continue
            bufs[r] += b
            *lines, bufs[r] = bufs[r].split(b"\n")
            for ln in lines:
                d = json.loads(ln)
                results.append(d)
                if d.get("violation") or d.get("harness_error"):
                    failures += 1
        if failures >= stop_after and not stopped:
            stopped = True
            for pid, _ in procs:
                try:
                    os.kill(pid, signal.SIGTERM)
                except ProcessLookupError:
                    pass
    for pid, r in procs:
        os.close(r)
        os.waitpid(pid, 0)
    gc.unfreeze()
    results.sort(key=lambda d: d["i"])
    return results, time.monotonic() - start


# ---------------------------------------------------------------------------
# minimising
# ---------------------------------------------------------------------------

def _lists_in(sc, names):
    """Paths of the shrinkable lists (keys in names) in a scenario."""
    found = []

    def walk(x, path):
        if isinstance(x, dict):
            for k in sorted(x):
                if k in names and isinstance(x[k], list):
                    found.append(path + [k])
                walk(x[k], path + [k])
        elif isinstance(x, list):
            for i, y in enumerate(x):
                walk(y, path + [i])
    walk(sc, [])
    return found


def _get(sc, path):
    for k in path:
        sc = sc[k]
    return sc


def _with(sc, path, value):
    sc = json.loads(json.dumps(sc))
    d = sc
    for k in path[:-1]:
        d = d[k]
    d[path[-1]] = value
    return sc


def same_class(a, b):
    return a is not None and b is not None and a["kind"] == b["kind"]


def minimise(prop, sc, violation, known, budget_s=25.0, budget_runs=400):
    """Shrink operations and faults while the same violation class persists."""
    end = time.monotonic() + budget_s
    state = {"runs": 0}

    def still(c):
        if time.monotonic() > end or state["runs"] >= budget_runs:
            return False
        state["runs"] += 1
        res = run_forked(prop, c, known)
        return same_class(res.get("violation"), violation)

    names = getattr(prop, "SHRINK", ("ops", "faults"))
    progress = True
    while progress and time.monotonic() < end and \
            state["runs"] < budget_runs:
        progress = False
        for path in _lists_in(sc, names):
            try:
                items = _get(sc, path)
            except (KeyError, IndexError):
                continue
            n = max(1, len(items) // 2)
            while n >= 1 and items:
                i = 0
                while i < len(items):
                    cand_items = items[:i] + items[i + n:]
                    cand = _with(sc, path, cand_items)
                    if still(cand):
                        sc, items, progress = cand, cand_items, True
                    else:
                        i += n
                n //= 2
        simpler = getattr(prop, "simplify", None)
        if simpler is not None:
            for cand in simpler(json.loads(json.dumps(sc))):
                if canon(cand) != canon(sc) and still(cand):
                    sc, progress = json.loads(json.dumps(cand)), True
                    break
    return sc, state["runs"]


def in_fork(fn):
    """Call fn in a forked child of this run and return its JSON result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = json.dumps({"ok": fn()}).encode()
            except Violation as v:
                data = json.dumps({"violation": [v.kind, v.detail]}).encode()
            except BaseException as e:
                _, where, text = _describe_exception(e)
                data = json.dumps({"exc": [type(e).__name__, where,
                                           text[-2500:]]}).encode()
            view = memoryview(data)
            while view:
                view = view[os.write(w, view):]
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    out = json.loads(b"".join(chunks))
    if "ok" in out:
        return out["ok"]
    if "violation" in out:
        raise Violation(*out["violation"])
    raise Violation("exception:%s" % out["exc"][0] +
                    ("@" + out["exc"][1] if out["exc"][1] else ""),
                    out["exc"][2])
