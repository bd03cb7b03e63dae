"""P16: loading data is all or nothing and independent of storage behaviour.

Material definitions, both compound file formats, data sets and the reference
lists are loaded from a simulated file system that permutes directory
listings, splits and interrupts reads, fails at open, read and listing, loses
files between listing and opening, and holds torn and foreign files.
"""

import csv
import io
import json
import logging
import os
import posixpath
import warnings

from sim import core, fs, plant
from sim.core import SimCrash

ID = "P16"
IMPORTS = sorted(set(plant.IMPORTS + [
    "auxi.tools.materialphysicalproperties.core", "auxi.core.bibliography",
    "jsonpickle"]))
RUNS = {"quick": 1600, "thorough": 50000}
RULE = ("A case is a set of data directories (both compound formats, with "
        "decoys, torn and foreign files), material, data set and reference "
        "files, and a history of loads from them with storage faults. "
        "Non-trivial: a load that failed, and a later one that succeeded.")
STATE_MEASURE = ("distinct (what was loaded, faults that struck, outcome, "
                 "what was loaded before)")
REAL = ["auxi.tools.chemistry.thermochemistry (loaders)",
        "auxi.modelling.process.materials (definition readers)",
        "auxi.tools.materialphysicalproperties.core.DataSet", "pandas",
        "auxi.core.bibliography", "jsonpickle",
        "io buffering and text layers"]
STUB = ["the file system below the buffers"]
SHRINK = ("ops", "faults", "files", "decoys", "materials")
ASSUMPTIONS = ["a file is not changed while it is being read",
               "the directory of a load exists"]

# phase, records [(Tmin, Tmax, [(coefficient, exponent)...])]
FACT = ["FeO", "SiO2", "CaO", "MgO", "Fe2O3", "Al2O3", "TiO2", "K2O"]
DIRS = ["/sim/data/one", "/sim/data/[two]", "/sim/data/t h*ree",
        "/sim/data/fact", "/sim/data/empty"]
JUNK = ["", "{}", "null", "[]", "\"text\"", "{\"py/object\": "
        "\"auxi.core.objects.NamedObject\", \"name\": \"x\"}", "nonsense"]
DECOYS = ["README.md", "compound_Zn.json", "Compound_Zn.json.bak",
          "Compound_Zn.csv", ".Compound_Zn.json", "xCompound_Zn.json",
          "Compounds.json", "Compound_Zn.jso"]
TEMPS = (298.15, 400.0, 1000.0, 2500.0)


def generate(rng, tier, index):
    dirs = {}
    for d in DIRS[:3]:
        src = rng.choice(["rao", "nist"])
        names = sorted(
            n for n in os.listdir(os.path.join(
                core.REPO, "auxi/tools/chemistry/data", src))
            if n.startswith("Compound_"))
        picked = rng.sample(names, rng.randint(1, 7))
        # A second file for a compound that has one: the last name counts.
        twice = [[n, rng.random()] for n in picked
                 if rng.random() < 0.12]
        dirs[d] = {"from": src, "files": picked, "twice": twice,
                   "shift": rng.choice([0.0, 1000.0, -2.5])}
    fact = []
    for f in rng.sample(FACT, rng.randint(1, 4)):
        phases = []
        for ph in rng.sample(["S", "S1", "L", "G"], rng.randint(1, 3)):
            records, low = [], 298.15
            for _ in range(rng.randint(1, 3)):
                high = low + rng.choice([100.0, 500.5, 1000.0])
                records.append([low, high, [[
                    rng.choice([48.5, 0.00837, -280152.0, 1e-7]),
                    rng.choice([0.0, 1.0, -2.0, 2.0, -0.5])]
                    for _ in range(rng.randint(1, 5))]])
                low = high
            phases.append([ph, rng.choice([-272044.0, 1.5]), 60.75, records])
        fact.append([f, phases])
    mats = []
    for fam in ("chem", "psd", "slurry", "thermo", "coal"):
        if rng.random() < 0.5:
            mats.append({"family": fam, "spec": plant.generate_materials(
                rng, fam)[0]})
    large = rng.random() < 0.06
    if large:
        # More than any buffer holds: fine size classes, and many rows.
        keys = ["%r" % (2.0 - k * 2.0 ** -11)
                for k in range(rng.choice([700, 1500, 2600]))]
        mats.append({"family": rng.choice(["psd", "slurry"]), "large": True,
                     "spec": {"keys": keys, "price": False, "assays": {
                         n: plant.assay(rng, len(keys))
                         for n in ["A", "Feed"]}}})
    data = [[rng.choice([100.0, 0.5, 1e-9, 7.25, -3.0]) for _ in range(3)]
            for _ in range(rng.randint(1, 6) if not large else
                           rng.choice([800, 6000]))]
    ops = []
    for _ in range(rng.randint(4, 12 if tier == "quick" else 30)):
        r = rng.random()
        op = {"order": rng.choice([None, rng.randrange(1 << 20)]),
              "split": rng.choice([0, 0, 1, 13, 500]),
              "eintr": rng.choice([0.0, 0.0, 0.2]),
              "faults": gen_faults(rng)}
        if r < 0.62:
            op.update(op="thermo", dir=rng.choice([0, 0, 1, 2, 3, 3, 4]),
                      other=rng.random() < 0.06,
                      hurt=None if rng.random() < 0.65 else {
                          "i": rng.random(), "keep": rng.random(),
                          "how": rng.choice(["torn", "torn", "hole", "junk",
                                             "bytes", "dir"]),
                          "junk": rng.randrange(len(JUNK))})
        elif r < 0.85 and mats:
            op.update(op="material", i=rng.randrange(len(mats)),
                      split=rng.choice([0, 1, 13, 64, 64, 200]))
        elif r < 0.93:
            op.update(op="dataset")
        else:
            op.update(op=rng.choice(["references", "bibliography",
                                     "default"]))
        ops.append(op)
        if op["faults"] and rng.random() < 0.5:
            ops.append(dict(op, faults=[], hurt=None))
    return {"dirs": dirs, "fact": fact, "materials": mats, "data": data,
            "decoys": rng.sample(DECOYS, rng.randint(0, 4)), "ops": ops,
            "fs": rng.randrange(1 << 30)}


def gen_faults(rng):
    if rng.random() < 0.45:
        return []
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        r = rng.random()
        if r < 0.35:
            out.append({"op": "open", "n": rng.choice([1, 1, 2, 3, 5]),
                        "kind": rng.choice(["EIO", "EACCES", "EMFILE",
                                            "ENOENT"])})
        elif r < 0.7:
            out.append({"op": "read", "n": rng.choice([1, 1, 2, 3, 4, 9]),
                        "kind": rng.choice(["EIO", "EIO", "short", "EINTR"]),
                        "keep": rng.choice([0.0, rng.random()])})
        elif r < 0.85:
            out.append({"op": "list", "n": 1,
                        "kind": rng.choice(["EIO", "EACCES", "EMFILE"])})
        else:
            out.append({"op": rng.choice(["open", "read"]),
                        "n": rng.choice([1, 2, 3]), "kind": "interrupt"})
    return out


def factsage(formula, phases):
    lines = ["Compound %s and its name\n" % formula, "some words\n",
             "_" * 40 + "\n"]
    for ph, dh, s, records in phases:
        for n, (low, high, terms) in enumerate(records):
            first = True
            rest = [list(t) for t in terms]
            while rest:
                now, rest = rest[:2], rest[2:]
                text = "  ".join("%r %r" % tuple(t) for t in now)
                head = "%s  %d  " % (ph, n + 1)
                if n == 0 and first:
                    head += "%r %r  " % (dh, s)
                lows = "298" if low == 298.15 else repr(low)
                lines.append("%s%s  %s - %r \n" % (head, text, lows, high))
                first = False
    lines += ["_" * 40 + "\n", "more words 1 2 3\n"]
    return "".join(lines)


class Case:
    def __init__(self, sc, ctx):
        from auxi.tools.chemistry import thermochemistry as tc
        self.sc, self.ctx, self.tc = sc, ctx, tc
        logging.disable(logging.CRITICAL)   # the bibliography's entry types
        base = os.path.join(core.REPO, "auxi", "tools", "chemistry", "data")
        self.sim = sim = fs.SimFS(ctx, sc["fs"], mounts=(
            base, os.path.join(core.REPO, "auxi", "core", "data")))
        self.files = {}             # directory: {path: formula}
        for d in DIRS:
            sim.mkdir(d)
            self.files[d] = {}
        for d, spec in sorted(sc["dirs"].items()):
            for n in spec["files"]:
                with open(os.path.join(base, spec["from"], n)) as f:
                    data = json.load(f)
                for ph in data["_phases"].values():
                    ph["DHref"] += spec["shift"]
                sim.put(posixpath.join(d, n), json.dumps(data, indent=1))
                self.files[d][posixpath.join(d, n)] = data["formula"]
            for n, r in spec.get("twice", ()):
                if n not in spec["files"]:
                    continue
                with open(os.path.join(base, spec["from"], n)) as f:
                    data = json.load(f)
                for ph in data["_phases"].values():
                    ph["DHref"] += 4711.0
                p = posixpath.join(d, "Compound_%s%d.json" % (
                    "" if r < 0.3 else "zzz" if r < 0.6 else "Fe", r * 1000))
                sim.put(p, json.dumps(data, indent=1))
                self.files[d][p] = data["formula"]
        for formula, phases in sc["fact"]:
            p = posixpath.join(DIRS[3], "Compound_%s.txt" % formula)
            sim.put(p, factsage(formula, phases))
            self.files[DIRS[3]][p] = formula
        for d in DIRS:
            for n in sc["decoys"]:
                sim.put(posixpath.join(d, n), "not a compound")
        sim.mkdir("/sim/mat")
        for i, m in enumerate(sc["materials"]):
            fam = plant.FAMILIES[m["family"]]()
            sim.put("/sim/mat/%d.txt" % i, fam.definition(m["spec"]))
        rows = [["Material Name", "Test"], ["Description", "about, it"],
                ["Reference", "ref"], ["Temperature", "A", "B"],
                ["T", "a_1", "b_1"], ["K", "-", "%"], ["T", "a", "b"]]
        out = io.StringIO()
        csv.writer(out).writerows(rows + sc["data"])
        sim.put("/sim/mat/dataset-test.csv", out.getvalue())
        self.reference = {}
        self.current = None
        self.label = "default"

    # --- what loading has to give -------------------------------------------
    def expected(self, path):
        """Compound data of one file, read on its own in a fresh process."""
        if path not in self.reference:
            tc, sim = self.tc, self.sim

            def read():
                sim.install()
                try:
                    if path.endswith(".json"):
                        c = tc.Compound.read(path)
                    else:
                        c = tc.Compound(
                            tc._read_compound_from_factsage_file_(path))
                finally:
                    sim.uninstall()
                return values(c)
            self.reference[path] = core.in_fork(read)
            self.sanity(path, self.reference[path])
        return self.reference[path]

    def sanity(self, path, got):
        """The file's own words against what was read from it."""
        if path.endswith(".txt"):
            formula = self.files[DIRS[3]][path]
            phases = dict(self.sc["fact"])[formula]
            want = sorted(p[0] for p in phases)
            for p in phases:
                self.ctx.check(got[1].get(p[0]) and got[1][p[0]][0] ==
                               repr(p[1]), "wrong-data", lambda: "%s in %s: "
                               "%r" % (p[0], path, got))
        else:
            data = json.loads(bytes(self.sim.files[path]))
            want = sorted(data["_phases"])
        self.ctx.check(sorted(got[1]) == want, "wrong-data", lambda:
                       "%s: %r instead of %r" % (path, sorted(got[1]), want))

    def table(self, d):
        return {f: p for p, f in sorted(self.files[d].items())}

    def verify(self, what, full):
        """The loaded compounds are those that were loaded last."""
        ctx, tc = self.ctx, self.tc
        if self.current is None:
            return
        have = sorted(tc.compounds)
        ctx.check(have == sorted(self.current), "wrong-compounds", lambda:
                  "after %s: %r is loaded instead of %r" % (
                      what, have, sorted(self.current)))
        for f, p in sorted(self.current.items()):
            got = values(tc.compounds[f])
            ctx.check(got == self.expected(p), "wrong-data", lambda:
                      "after %s: %s is not what %s says: %r" % (
                          what, f, p, got))
            ph = sorted(got[1])[0]
            H = tc.H("%s[%s]" % (f, ph), 500.0)
            ctx.check(abs(H) < 1e12, "unusable", f)
        try:
            tc.H("Zr5O3[S]", 500.0)
        except Exception:
            pass
        else:
            ctx.fail("unknown-compound", "a compound that is not there")

    # --- operations -----------------------------------------------------------
    def faulty(self, op, call, big=0):
        sim = self.sim
        sim.order, sim.split, sim.eintr = (op["order"], op["split"],
                                           op["eintr"])
        if op["op"] in ("default", "bibliography", "references") or \
                big > 20000:
            sim.split = op["split"] * 100       # these are larger
        before = sim.snapshot()
        sim.arm(op["faults"])
        sim.install()
        result = failed = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                result = call()
        except SimCrash as e:
            failed = e
        except Exception as e:
            failed = e
        finally:
            sim.uninstall()
        struck = sim.disarm()
        sim.order, sim.split, sim.eintr = None, 0, 0.0
        self.ctx.check(sim.snapshot() == before, "changed-by-load",
                       "loading changed a file")
        hard = [s for s in struck if not s.endswith(("short", "EINTR"))]
        return result, failed, hard

    def judge(self, what, failed, hard, must_fail=None):
        ctx = self.ctx
        ctx.log(what, type(failed).__name__, hard, self.label)
        ctx.state([what, hard, must_fail, type(failed).__name__, self.label])
        if failed is not None:
            ctx.check(hard or must_fail, "refused", lambda: "%s failed on "
                      "healthy storage: %r" % (what, failed))
            self.failures = True
            return False
        ctx.check(not must_fail, "bad-file-loaded", lambda:
                  "%s succeeded with a %s file" % (what, must_fail))
        ctx.check(not hard, "error-lost", lambda: "%s returned normally "
                  "though the storage failed: %s" % (what, hard))
        if self.failures:
            ctx.nontrivial = True
        return True

    failures = False

    def op_thermo(self, op):
        d = DIRS[op["dir"]]
        fact = op["dir"] == 3
        load = self.tc.load_data_factsage if fact != op["other"] else \
            self.tc.load_data_auxi
        hurt, saved, bad = op["hurt"], None, None
        names = [] if op["other"] else sorted(self.files[d])
        for p in names:
            self.expected(p)
        if hurt and names and not (fact and hurt["how"] in ("torn", "hole",
                                                            "junk")):
            bad = hurt["how"]
            p = names[int(hurt["i"] * len(names))]
            saved = bytes(self.sim.files.pop(p))
            self.spoil(p, saved, hurt)
            self.ctx.fault("file-" + bad)
        _, failed, hard = self.faulty(op, lambda: load(d))
        if saved is not None:
            self.sim.dirs.discard(p)
            self.sim.put(p, saved)
        what = "loading " + ("factsage" if fact else "auxi") + " data"
        if self.judge(what, failed, hard, bad):
            self.current = {} if op["other"] else self.table(d)
            self.label = "fact" if fact else "auxi"
        self.verify(what, True)

    def spoil(self, p, data, hurt):
        keep = hurt["keep"]
        if hurt["how"] == "torn":
            data = data[:int(keep * (len(data.rstrip()) - 1))]
        elif hurt["how"] == "hole":
            at = int(keep * len(data.rstrip())) // 64 * 64
            at = min(at, len(data.rstrip()) - 1)
            n = min(64, len(data) - at)
            data = data[:at] + b"\0" * n + data[at + n:]
        elif hurt["how"] == "junk":
            data = JUNK[hurt["junk"]].encode()
        elif hurt["how"] == "bytes":
            data = b"\xff\xfe\x00" + data
        elif hurt["how"] == "dir":
            self.sim.mkdir(p)
            return
        self.sim.put(p, data)

    def op_default(self, op):
        tc = self.tc
        _, failed, hard = self.faulty(op, tc.load_data_auxi)
        if self.judge("loading the default data", failed, hard):
            self.current = None
            self.label = "default"
            names = set()
            for n in os.listdir(tc.default_data_path):
                if n.startswith("Compound_"):
                    with open(os.path.join(tc.default_data_path, n)) as f:
                        names.add(json.load(f)["formula"])
            self.ctx.check(set(tc.compounds) == names, "wrong-compounds",
                           "the default data is not complete")
        else:
            self.verify("the default data", True)

    def op_material(self, op):
        m = self.sc["materials"]
        if not m:
            return
        m = m[op["i"] % len(m)]
        path = "/sim/mat/%d.txt" % (self.sc["materials"].index(m))
        fam = plant.FAMILIES[m["family"]]()
        mat, failed, hard = self.faulty(op, lambda: fam.make("n", path),
                                        len(self.sim.files[path]))
        if self.judge(m["family"] + " material", failed, hard):
            ctx, spec = self.ctx, m["spec"]
            keys = [fam.key(k) for k in spec["keys"]]
            ctx.check(list(fam.keys(mat)) == keys, "wrong-data", lambda:
                      "%r instead of %r" % (list(fam.keys(mat)), keys))
            assays = getattr(mat, "assays", None) or mat.raw_assays
            ctx.check(sorted(assays) == sorted(spec["assays"]), "wrong-data",
                      lambda: "assays %r" % sorted(assays))
            for n, a in sorted(spec["assays"].items()):
                got = [float(x) for x in assays[n]]
                ctx.check(got == [float(v) for v in a["values"]],
                          "wrong-data", lambda: "%s: %r" % (n, got))
                if fam.slurry:
                    ctx.check((mat.solid_densities[n], mat.H2O_fractions[n])
                              == (a["rho"], a["water"]), "wrong-data", n)
        self.verify("a material", False)

    def op_dataset(self, op):
        from auxi.tools.materialphysicalproperties.core import DataSet
        path = "/sim/mat/dataset-test.csv"
        ds, failed, hard = self.faulty(op, lambda: DataSet(path),
                                       len(self.sim.files[path]))
        if self.judge("data set", failed, hard):
            ctx = self.ctx
            got = [[float(x) for x in row] for row in ds.data.values]
            ctx.check(got == self.sc["data"], "wrong-data", lambda: repr(got))
            ctx.check([ds.material, ds.description, ds.reference,
                       ds.names_dict, ds.units_dict] == [
                           "Test", "about, it", "ref",
                           {"T": "Temperature", "a": "A", "b": "B"},
                           {"T": "K", "a": "-", "b": "%"}], "wrong-data",
                      lambda: str(ds))

    def op_references(self, op):
        refs, failed, hard = self.faulty(op, self.tc.get_datafile_references)
        if self.judge("references", failed, hard):
            p = os.path.join(core.REPO,
                             "auxi/tools/chemistry/data/references.json")
            with open(p) as f:
                want = json.load(f)
            self.ctx.check(refs == want, "wrong-data", "references")

    def op_bibliography(self, op):
        from auxi.core import bibliography
        p = os.path.join(core.REPO, "auxi/core/data/bibliography.bib")
        db, failed, hard = self.faulty(op, lambda: bibliography.Database(p))
        if self.judge("bibliography", failed, hard):
            self.ctx.check(str(db) == str(bibliography.db), "wrong-data",
                           "the bibliography differs")


def values(c):
    """A compound's data, through its public functions."""
    out = {}
    for p in c.get_phase_list():
        row = [repr(c._phases[p].DHref)]
        for T in TEMPS:
            for f in ("Cp", "H", "S", "G"):
                try:
                    row.append(repr(getattr(c, f)(p, T)))
                except Exception as e:
                    row.append(type(e).__name__)
        out[p] = row
    return [c.formula, out, repr(c.molar_mass), c.reference]


def execute(sc, ctx):
    case = Case(sc, ctx)
    for op in sc["ops"]:
        ctx.step()
        getattr(case, "op_" + op["op"])(op)
        ctx.probe(op["op"])
