"""P11: histories of thermochemical operations against a plain ledger."""

import os

from sim import plant

ID = "P11"
IMPORTS = plant.IMPORTS
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("A case is a plant of units that hold thermochemical packages: creating, "
        "adding, scaling, extracting, clearing, transporting (taken out in "
        "one step, delivered in a later one), restarts from file, refused "
        "and broken off operations in a seeded order; every package and "
        "material is compared with the ledger after every step. "
        "Non-trivial: at least one operation that modifies a package.")
STATE_MEASURE = ("distinct pairs of operation and contents of the plant (to "
                 "three digits)")
REAL = ["auxi.modelling.process.materials", "auxi.tools.chemistry",
        "auxi.core.objects (save and restore)"]
STUB = ["the units and transports, driven by a seeded order",
        "interrupts raised between lines"]
SHRINK = ("ops", "materials")
ASSUMPTIONS = ["masses, factors and assay fractions are not negative and an "
               "assay has a positive total"]


def generate(rng, tier, index):
    if index % 97 == 96:
        return {"coal": plant.generate_coals(rng)[0],
                "mass": rng.choice(plant.MASSES), "T": rng.choice([25.0, 200.0])}
    return plant.generate(rng, "thermo", tier)


def execute(sc, ctx):
    if "coal" in sc:
        coal_packages(sc, ctx)
    else:
        plant.execute(sc, ctx)


def coal_packages(sc, ctx):
    """Packages of coal: as much energy as a stream of the same coal has."""
    os.makedirs(ctx.scratch, exist_ok=True)
    spec = sc["coal"]
    path = os.path.join(ctx.scratch, "coal.txt")
    with open(path, "w") as f:
        f.write(plant.FAMILIES["coal"]().definition(spec))
    material = plant.FAMILIES["coal"]().make("Coal", path)
    for name in sorted(spec["assays"]):
        ctx.step()
        s = material.create_stream(name, sc["mass"], 1.0, sc["T"])
        try:
            p = material.create_package(name, sc["mass"], 1.0, sc["T"])
        except AttributeError as e:
            ctx.deviation("coal-package-not-created", "create_package(%r, %r)"
                          " raises %r" % (name, sc["mass"], e))
            continue
        ctx.check(abs(p.mass - s.mfr) <= 1e-9 * s.mfr, "mass",
                  lambda: "%r instead of %r" % (p.mass, s.mfr))
        ctx.check(abs(p.H - s.Hfr) <= 1e-6 * abs(s.Hfr) + 1e-9 * s.mfr,
                  "coal-enthalpy", lambda: "%r instead of %r" % (p.H, s.Hfr))


WITNESSES = [{"coal": {
    "keys": ["C[Sgr]", "H2[G]", "O2[G]", "N2[G]", "S[Sortho]", "SiO2[S]"],
    "price": False, "HHV": {"A": 25.0}, "assays": {"A": {
        "values": [0.7, 0.05, 0.1, 0.02, 0.01, 0.12]}}},
    "mass": 1.0, "T": 25.0}]
