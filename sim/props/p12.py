"""P12: histories of thermochemical stream operations against a plain ledger."""

from sim import plant

ID = "P12"
IMPORTS = plant.IMPORTS
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("A case is a plant of units that hold thermochemical stream packages: creating, "
        "adding, scaling, extracting, clearing, transporting (taken out in "
        "one step, delivered in a later one), restarts from file, refused "
        "and broken off operations in a seeded order; every package and "
        "material is compared with the ledger after every step. "
        "Non-trivial: at least one operation that modifies a package.")
STATE_MEASURE = ("distinct pairs of operation and contents of the plant (to "
                 "three digits)")
REAL = ["auxi.modelling.process.materials", "auxi.tools.chemistry",
        "auxi.core.objects (save and restore)"]
STUB = ["the units and transports, driven by a seeded order",
        "interrupts raised between lines"]
SHRINK = ("ops", "materials")
ASSUMPTIONS = ["masses, factors and assay fractions are not negative and an "
               "assay has a positive total"]


def generate(rng, tier, index):
    family = "coal" if index % 8 == 5 else "stream"
    return plant.generate(rng, family, tier)


execute = plant.execute
