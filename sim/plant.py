"""
The plant: units that hold material packages (or streams) and pass material
between them while a seeded scheduler interleaves their operations.

Next to the real packages the simulator keeps a ledger of masses (and volumes,
enthalpies and temperatures) that is updated from the meaning of the operation
alone. After every operation every package is read back through its public
queries and compared with the ledger; packages and materials an operation is
not meant to change must answer exactly as before.
"""

import copy
import math
import os
import warnings
import zlib

from auxi.core.objects import Object
from sim import inject
from sim.core import SimCrash

IMPORTS = ["auxi.core.objects", "auxi.modelling.process.materials.chem",
           "auxi.modelling.process.materials.psd",
           "auxi.modelling.process.materials.slurry",
           "auxi.modelling.process.materials.thermo",
           "auxi.tools.chemistry.thermochemistry",
           "auxi.tools.chemistry.stoichiometry"]

UNITS = 5
REL = 1e-9


class PlantState(Object):
    """Everything the plant holds, as one saveable object."""

    def __init__(self, materials, units):
        self.materials = materials
        self.units = units


class Ledger:
    """What a package has to contain."""

    def __init__(self, material, masses, rho=1.0, water=0.0, T=25.0, H=0.0,
                 P=1.0, HHV=None):
        self.material = material
        self.m = dict(masses)
        self.rho = rho
        self.water = water
        self.T = T
        self.H = H
        self.P = P
        self.HHV = HHV          # of coal only [MJ/kg]
        self.peak = sum(self.m.values()) + water

    def copy(self):
        r = Ledger(self.material, self.m, self.rho, self.water, self.T,
                   self.H, self.P, self.HHV)
        r.peak = self.peak
        return r

    @property
    def solids(self):
        return sum(self.m.values())

    @property
    def mass(self):
        return self.solids + self.water

    def scaled(self, f):
        r = self.copy()
        r.m = {k: v * f for k, v in r.m.items()}
        r.water *= f
        r.H *= f
        r.peak = max(r.mass, self.peak * f)
        return r


# ---------------------------------------------------------------------------
# families
# ---------------------------------------------------------------------------

class Family:
    """How one kind of package is built, read and told what to do."""

    thermo = False
    slurry = False
    has_add_to = False
    stream = False
    coal = False

    def key(self, name):
        return name

    def write_definition(self, path, spec):
        with open(path, "w", encoding="utf-8") as f:
            f.write(self.definition(spec))

    def assay_value(self, values):
        import numpy
        return numpy.array([float(v) for v in values])

    def number(self, x, kind):
        import numpy
        if kind == "np64":
            return numpy.float64(x)
        if kind == "np32":
            return numpy.float32(x)
        return float(x)

    def add_assay(self, material, name, a):
        material.add_assay(name, self.assay_value(a["values"]))

    def extract_whole_key(self, pkg, key):
        return pkg.extract(key)

    def material_snapshot(self, m):
        r = [m.name, m.description, list(self.keys(m))]
        for n in sorted(m.assays):
            r.append([n, [float(x) for x in m.assays[n]]])
        return r

    def snapshot(self, pkg):
        r = [id(pkg.material)]
        for k in self.keys(pkg.material):
            r.append(repr(float(self.key_mass(pkg, k))))
        r.append(repr(float(self.total(pkg))))
        return r + self.extra_snapshot(pkg)

    def extra_snapshot(self, pkg):
        return []

    def create(self, material, assay, mass, normalise, T, P):
        return material.create_package(assay, mass, normalise)

    def empty(self, material):
        return material.create_package()

    def queries(self, pkg):
        """Query results a caller could change."""
        return [pkg.material.create_empty_assay()] + (
            [pkg.get_assay()] if self.solids(pkg) > 0 else [])

    def solids(self, pkg):
        return self.total(pkg)

    def check_extra(self, ctx, pkg, led, touched, kind):
        pass


class Chem(Family):
    has_add_to = True
    POOL = ["FeO", "Fe2O3", "SiO2", "Al2O3", "CaO", "MgO", "H2O", "C",
            "TiO2", "K2O", "Ca(OH)2", "Fe3O4", "P4O10"]

    def make(self, name, path):
        from auxi.modelling.process.materials.chem import Material
        return Material(name, path, "a material")

    def definition(self, spec):
        names = sorted(spec["assays"])
        lines = ["Compound  " + " ".join(names)]
        for i, k in enumerate(spec["keys"]):
            lines.append(k + "\t" + "  ".join(
                repr(spec["assays"][n]["values"][i]) for n in names))
        return "\n".join(lines) + "\n"

    def keys(self, material):
        return material.compounds

    def assay_value(self, values):
        return [float(v) for v in values]

    def number(self, x, kind):
        return float(x)

    def key_mass(self, pkg, k):
        return pkg.get_compound_mass(k)

    def total(self, pkg):
        return pkg.get_mass()

    def bad_key(self):
        return "Zr5O3"

    def extra_snapshot(self, pkg):
        return [str(pkg)]

    def queries(self, pkg):
        r = super().queries(pkg)
        r.append(pkg.get_element_masses())
        r.append(pkg.get_element_mass_dictionary())
        return r

    def check_extra(self, ctx, pkg, led, touched, kind):
        if touched:
            check_elements(ctx, pkg.material, led,
                           pkg.get_element_masses(),
                           pkg.get_element_mass_dictionary(),
                           pkg.get_element_mass)
            if led.mass > 1e-6 * led.peak and led.mass > 0:
                for k in led.m:
                    near(ctx, pkg.get_compound_mass_fraction(k),
                         led.m[k] / led.mass, 1e-3 * REL * led.peak
                         / led.mass + REL, "mass-fraction", k)


class Psd(Family):
    has_add_to = True
    POOL = ["0.3072", "0.1086", "0.0384", "0.0136", "0.0048", "0.0017",
            "0.0006", "0.00021", "7.5e-05", "0.0"]

    def make(self, name, path):
        from auxi.modelling.process.materials.psd import Material
        return Material(name, path, "a material")

    def key(self, name):
        return float(name)

    def definition(self, spec):
        names = sorted(spec["assays"])
        lines = ["SizeClass  " + " ".join(names)]
        lines += self.head(spec, names)
        for i, k in enumerate(spec["keys"]):
            lines.append(k + "\t" + "  ".join(
                repr(spec["assays"][n]["values"][i]) for n in names))
        return "\n".join(lines) + "\n"

    def head(self, spec, names):
        return []

    def keys(self, material):
        return material.size_classes

    def key_mass(self, pkg, k):
        return pkg.get_size_class_mass(k)

    def total(self, pkg):
        return pkg.get_mass()

    def bad_key(self):
        return 0.777

    def extract_whole_key(self, pkg, key):
        return pkg.extract(str(key))

    def extra_snapshot(self, pkg):
        return [str(pkg)]

    def check_extra(self, ctx, pkg, led, touched, kind):
        if touched and led.solids > 1e-6 * led.peak and led.solids > 0:
            for k in led.m:
                near(ctx, pkg.get_size_class_mass_fraction(k),
                     led.m[k] / led.solids,
                     1e-3 * REL * led.peak / led.solids + REL,
                     "mass-fraction", k)


class Slurry(Psd):
    has_add_to = False
    slurry = True

    def make(self, name, path):
        from auxi.modelling.process.materials.slurry import Material
        return Material(name, path, "a material")

    def number(self, x, kind):
        # A water mass times a single precision number has single precision.
        return super().number(x, "np64" if kind == "np32" else kind)

    def head(self, spec, names):
        return ["solid_density " + " ".join(
                    repr(spec["assays"][n]["rho"]) for n in names),
                "H2O " + " ".join(
                    repr(spec["assays"][n]["water"]) for n in names)]

    def solids(self, pkg):
        return pkg.get_solid_mass()

    def add_assay(self, material, name, a):
        material.add_assay(name, float(a["rho"]), float(a["water"]),
                           self.assay_value(a["values"]))

    def material_snapshot(self, m):
        r = super().material_snapshot(m)
        r.append([[n, float(m.solid_densities[n]), float(m.H2O_fractions[n])]
                  for n in sorted(m.assays)])
        return r

    def extra_snapshot(self, pkg):
        return [repr(float(pkg.solid_density)), repr(float(pkg.H2O_mass)),
                repr(float(pkg.get_volume()))]

    def check_extra(self, ctx, pkg, led, touched, kind):
        super().check_extra(ctx, pkg, led, touched, kind)
        tol = REL * led.peak
        near(ctx, pkg.H2O_mass, led.water, tol, "water", kind)
        near(ctx, pkg.get_solid_mass(), led.solids, tol, "solid-mass", kind)
        vs = led.solids / led.rho
        v = vs + led.water
        vtol = tol * (1.0 + 1.0 / led.rho)
        near(ctx, pkg.get_volume(), v, vtol, "volume", kind)
        if led.solids > 1e-3 * led.peak and led.solids > 0:
            near(ctx, pkg.solid_density, led.rho,
                 10 * REL * led.peak / led.solids * led.rho,
                 "solids-density", kind)
        if led.mass > 1e-3 * led.peak and led.mass > 0:
            tol = 10 * REL * led.peak / led.mass
            near(ctx, pkg.get_density(), led.mass / v, tol * led.mass / v,
                 "slurry-density", kind)
            near(ctx, pkg.get_mass_fraction_solids(), led.solids / led.mass,
                 tol, "mass-fraction-solids", kind)
            near(ctx, pkg.get_volume_fraction_solids(), vs / v, tol,
                 "volume-fraction-solids", kind)


class Thermo(Family):
    thermo = True
    POOL = ["FeO[S]", "SiO2[S]", "Fe2O3[Salpha]", "H2O[G]", "CaO[S]",
            "MgO[S]", "Al2O3[S]", "CO2[G]", "CO[G]", "N2[G]", "O2[G]",
            "C[Sgr]", "Fe[L]", "TiO2[Srutile]", "H2O[L]"]

    def make(self, name, path):
        from auxi.modelling.process.materials.thermo import Material
        return Material(name, path, "a material")

    def definition(self, spec):
        names = sorted(spec["assays"])
        lines = ["Compound  " + " ".join(names)]
        for i, k in enumerate(spec["keys"]):
            lines.append(k + "\t" + "  ".join(
                repr(spec["assays"][n]["values"][i]) for n in names))
        if spec.get("price"):
            lines.append("#")
            lines.append("Price[USD/kg] " + " ".join("1.5" for n in names))
        return "\n".join(lines) + "\n"

    def keys(self, material):
        return material.compounds

    def bad_key(self):
        return "Zr5O3[S]"

    def material_snapshot(self, m):
        r = [m.name, m.description, list(m.compounds), list(m.elements)]
        for d in (m.raw_assays, m.converted_assays):
            for n in sorted(d):
                r.append([n, [float(x) for x in d[n]]])
        return r

    # packages
    def create(self, material, assay, mass, normalise, T, P):
        return material.create_package(assay, mass, P, T, normalise)

    def key_mass(self, pkg, k):
        return pkg.get_compound_mass(k)

    def total(self, pkg):
        return pkg.mass

    def H(self, pkg):
        return pkg.H

    def set_H(self, pkg, H):
        pkg.H = H

    def amounts(self, pkg):
        return pkg.amount, pkg.get_compound_amounts(), pkg.get_compound_amount

    def elements(self, pkg):
        return (pkg.get_element_masses(), pkg.get_element_mass_dictionary(),
                pkg.get_element_mass)

    def extra_snapshot(self, pkg):
        return [repr(float(pkg.T)), repr(float(pkg.P)),
                repr(float(self.H(pkg))), sorted(pkg.custom_properties)]

    def queries(self, pkg):
        e = self.elements(pkg)
        return super().queries(pkg) + [self.amounts(pkg)[1], e[0], e[1]]

    def check_extra(self, ctx, pkg, led, touched, kind):
        from auxi.tools.chemistry import stoichiometry
        if not touched:
            return
        T, H, P = float(pkg.T), float(self.H(pkg)), float(pkg.P)
        amount, amounts, one = self.amounts(pkg)
        e = self.elements(pkg)
        numbers = [T, H, P, float(amount)] + [float(x) for x in amounts] + \
            [float(x) for x in e[0]]
        ctx.check(all(math.isfinite(x) for x in numbers), "not-a-number",
                  lambda: "after %s: %r" % (kind, numbers))
        str(pkg)
        check_elements(ctx, pkg.material, led, *e)
        total = 0.0
        for i, k in enumerate(pkg.material.compounds):
            n = stoichiometry.amount(k, led.m[k])
            tol = REL * led.peak / 1.0 + REL * n
            near(ctx, float(amounts[i]), n, tol, "amount", k)
            near(ctx, float(one(k)), n, tol, "amount", k)
            total += n
        near(ctx, float(amount), total, REL * led.peak * 5, "amount", kind)
        if led.mass <= 1e-6 * led.peak or led.mass == 0.0:
            # Nothing, or nothing but rounding.
            ctx.check(abs(H) <= 1e-5 * led.peak * 10, "enthalpy-of-nothing",
                      lambda: "after %s the enthalpy of %g kg is %r" %
                      (kind, led.mass, H))
            return
        masses = {k: float(self.key_mass(pkg, k))
                  for k in pkg.material.compounds}
        parts = enthalpy_parts(masses, T, led.HHV)
        gross = sum(abs(x) for x in parts)
        tol = 1e-8 * gross + 1e-8 * led.mass
        near(ctx, H, sum(parts), tol, "enthalpy-temperature", kind)
        scale = led.peak / led.mass
        tol = (1e-7 * gross + 1e-7 * led.mass) * scale
        near(ctx, H, led.H, tol, "enthalpy", kind)
        near(ctx, T, led.T, 1e-3 * scale, "temperature", kind)


class Stream(Thermo):
    stream = True

    def create(self, material, assay, mass, normalise, T, P):
        return material.create_stream(assay, mass, P, T, normalise)

    def empty(self, material):
        return material.create_stream()

    def key_mass(self, pkg, k):
        return pkg.get_compound_mfr(k)

    def total(self, pkg):
        return pkg.mfr

    def H(self, pkg):
        return pkg.Hfr

    def set_H(self, pkg, H):
        pkg.Hfr = H

    def amounts(self, pkg):
        return pkg.afr, pkg.get_compound_afrs(), pkg.get_compound_afr

    def elements(self, pkg):
        return (pkg.get_element_mfrs(), pkg.get_element_mfr_dictionary(),
                pkg.get_element_mfr)


class Coal(Stream):
    """Streams of coal with its ash, and of ash alone."""

    coal = True
    DAF = ["C[Sgr]", "H2[G]", "O2[G]", "N2[G]", "S[Sortho]"]
    ASH = ["SiO2[S]", "CaO[S]", "MgO[S]", "Al2O3[S]", "Fe2O3[Salpha]"]

    def definition(self, spec):
        text = super().definition(spec)
        names = sorted(spec["assays"])
        if "HHV" in spec:
            text = text.rstrip("\n") + "\n"
            if "Price" not in text:
                text += "#\n"
            text += "IsCoal " + " ".join("1" for n in names) + "\n"
            text += "HHV[MJ/kg] " + " ".join(
                repr(spec["HHV"][n]) for n in names) + "\n"
        return text

    def extra_snapshot(self, pkg):
        return super().extra_snapshot(pkg) + [
            bool(pkg.isCoal),
            None if pkg.HHV is None else repr(float(pkg.HHV))]

    def check_extra(self, ctx, pkg, led, touched, kind):
        super().check_extra(ctx, pkg, led, touched, kind)
        if touched and led.mass > 1e-6 * led.peak and led.mass > 0.0:
            ctx.check(bool(pkg.isCoal) == (led.HHV is not None), "is-coal",
                      lambda: "after %s isCoal is %r" % (kind, pkg.isCoal))
            if led.HHV is not None:
                near(ctx, pkg.HHV, led.HHV,
                     1e-7 * (1.0 + led.HHV) * led.peak / led.mass,
                     "heating-value", kind)


FAMILIES = {"chem": Chem, "psd": Psd, "slurry": Slurry, "thermo": Thermo,
            "stream": Stream, "coal": Coal}


def enthalpy_parts(masses, T, HHV=None):
    """The contributions to the enthalpy of the masses at T. With a heating
    value the elements are coal, which has the enthalpy of its products of
    combustion and its heating value at 25 degrees, and what the model of
    the heat of coal adds to that up to T; the rest is ash."""
    from auxi.tools.chemistry import stoichiometry, thermochemistry
    if HHV is None:
        return [thermochemistry.H(k, T, v) for k, v in masses.items()]
    from auxi.tools.materialphysicalproperties import coals
    parts, daf = [], {}
    for k, v in masses.items():
        if k in Coal.DAF:
            daf[k] = v
        else:
            parts.append(thermochemistry.H(k, T, v))
    total = sum(daf.values())
    if total > 0.0:
        y = {"y_" + e: daf.get(k, 0.0) / total
             for e, k in zip("CHONS", Coal.DAF)}
        model = coals.DafHTy()
        h = [model.calculate(T=t + 273.15, **y) / 3.6e6 for t in (25.0, T)]
        parts.append(total * (h[1] - h[0]))
        parts.append(HHV * sum(masses.values()) / 3.6)
        for k, v in daf.items():
            e, product = {
                "C[Sgr]": ("C", "CO2[G]"), "H2[G]": ("H", "H2O[L]"),
                "S[Sortho]": ("S", "SO2[G]")}.get(k, (None, k))
            if e is not None:
                v = v / stoichiometry.element_mass_fraction(
                    product.split("[")[0], e)
            parts.append(thermochemistry.H(product, 25.0, v))
    return parts


def near(ctx, got, want, tol, kind, what):
    got = float(got)
    ctx.check(abs(got - want) <= tol, kind,
              lambda: "%s: %r instead of %r" % (what, got, want))


def more(x, i):
    """More than x: by much, or by very little."""
    if x < 1e-9:
        return x + 0.5
    return [x * 1.001 + 0.5, x * (1.0 + 1e-6), x * (1.0 + 1e-9)][i % 3]


def unknown_key(known, k, default, i):
    """A key the material does not have, which may resemble one it has."""
    if isinstance(k, float):
        near = [k * (1.0 + 1e-9), k + 1e-7, -k, k * 1.01]
    else:
        name = k.split("[")[0]
        near = [name + "[X]", name, k.lower(), k + " ", name + "[S]", k[:-1],
                name + "[L]"]
    near = [x for x in near if x not in known] + [default]
    return near[i % len(near)]


def check_elements(ctx, material, led, masses, dictionary, one):
    from auxi.tools.chemistry import stoichiometry
    want = {}
    for k, m in led.m.items():
        for e in stoichiometry.elements([k]):
            want[e] = want.get(e, 0.0) + \
                m * stoichiometry.element_mass_fraction(k.split("[")[0], e)
    ctx.check(sorted(want) == list(material.elements) and
              sorted(dictionary) == sorted(want), "elements",
              lambda: "%r, %r" % (material.elements, sorted(dictionary)))
    for e, got in zip(material.elements, masses):
        near(ctx, got, want[e], REL * led.peak, "element-mass", e)
        near(ctx, dictionary[e], want[e], REL * led.peak, "element-mass", e)
    for e in sorted(want)[:2]:
        near(ctx, one(e), want[e], REL * led.peak, "element-mass", e)


# ---------------------------------------------------------------------------
# generation
# ---------------------------------------------------------------------------

def assay_values(rng, n, kind):
    if kind == "unit":
        v = [rng.choice([0.0, 1.0, 2.0, 5.0, 10.0]) for _ in range(n)]
    else:
        v = [0.0 if rng.random() < 0.2 else round(rng.random(), 4)
             for _ in range(n)]
    if sum(v) == 0.0:
        v[rng.randrange(n)] = 1.0
    if rng.random() < 0.5:
        s = sum(v)
        if rng.random() < 0.4:  # Rounded fractions hardly ever add up to one.
            s *= 1.0 + rng.choice([1e-8, -1e-6, 1e-5, -2e-4, 3e-3])
        v = [x / s for x in v]
    return v


def assay(rng, n):
    return {"values": assay_values(rng, n, rng.choice(["unit", "any"])),
            "rho": rng.choice([1.0, 2.0, 2.7, 3.5, 7.9]),
            "water": rng.choice([0.0, 0.0, 0.2, 0.5, 0.8, 1.0])}


def generate_coals(rng):
    """One or two coals of the same compounds, and ash."""
    ash = rng.sample(Coal.ASH, rng.randint(1, 4))
    mats = []
    for c in range(rng.choice([1, 2])):
        keys = Coal.DAF + (rng.sample(ash, rng.randint(1, len(ash))) if c
                           else ash)
        rng.shuffle(keys)
        names = rng.sample(["A", "B", "Feed", "Mix"], rng.randint(1, 4))
        assays = {}
        for n in names:
            a = assay(rng, len(keys))
            a["values"] = [
                {"C[Sgr]": round(rng.uniform(0.4, 0.9), 3),
                 "H2[G]": round(rng.uniform(0.0, 0.06), 3)}.get(
                     k, round(rng.uniform(0.0, 0.15), 3)) for k in keys]
            assays[n] = a
        mats.append({"keys": keys, "price": rng.random() < 0.2,
                     "assays": assays, "HHV": {
                         n: rng.choice([32.0, 28.0, 24.5,
                                        round(rng.uniform(18, 35), 2)])
                         for n in names}})
    part = rng.sample(ash, rng.randint(1, len(ash)))
    for keys in [part, ash[::-1]][:rng.randint(1, 2)]:
        mats.append({"keys": keys, "price": False, "assays": {
            "Ash": assay(rng, len(keys))}})
    return mats


def resembling(rng, family, k, pool):
    if family in ("psd", "slurry"):
        x = float(k)
        return repr(rng.choice([x * (1.0 + 1e-9), x + 1e-7, x * 1.001]))
    if family == "chem":
        return k + rng.choice(["[S]", "[L]", "[G]", "[S1]"])
    name = k.split("[")[0]
    twins = [t for t in PHASES if t.startswith(name + "[") and t not in pool]
    return rng.choice(twins) if twins else k


# More phases of the compounds of the thermochemical materials.
PHASES = ["Al2O3[S]", "C[Sgr]", "CO[G]", "CO2[G]", "CaO[S]", "Fe[G]", "Fe[L]",
          "Fe[Salpha]", "Fe[Sbeta]", "Fe[Sgamma]", "Fe2O3[Salpha]", "FeO[S]",
          "H2O[G]", "H2O[L]", "MgO[S]", "N2[G]", "O2[G]", "SiO2[S]",
          "TiO2[Srutile]"]


def generate_materials(rng, family):
    if family == "coal":
        return generate_coals(rng)
    pool = list(FAMILIES[family].POOL)
    rng.shuffle(pool)
    large = rng.random() < 0.05
    if large and family in ("psd", "slurry"):
        pool = sorted({"%.4g" % (10 ** rng.uniform(-5, 0))
                       for _ in range(rng.randint(14, 40))})
        rng.shuffle(pool)
    elif large and family == "chem":
        pool = pool + ["MnO", "Na2O", "Cr2O3", "PbO", "ZnO", "NiO", "CoO",
                       "CuO", "CaF2", "SO3", "BaO", "V2O5", "ZrO2", "Fe"]
        rng.shuffle(pool)
    elif rng.random() < 0.2:
        # Keys that resemble one another.
        for k in pool[:rng.randint(1, 3)]:
            pool.insert(rng.randrange(4), resembling(rng, family, k, pool))
        pool = list(dict.fromkeys(pool))
    base = pool[:len(pool) - 2 if large else rng.randint(2, 6)]
    if family in ("psd", "slurry"):
        base.sort(key=float, reverse=True)
    mats = [base]
    sub = rng.sample(base, rng.randint(1, len(base)))
    mats.append(sub)                                    # accepted by the base
    perm = list(base)
    rng.shuffle(perm)
    mats.append(perm)                                   # the same, reordered
    other = rng.sample(base, rng.randint(0, len(base) - 1)) + \
        pool[len(base):len(base) + rng.randint(1, 2)]
    rng.shuffle(other)
    mats.append(other)                                  # has something else
    result = []
    for keys in mats[:rng.choice([2, 3, 4, 4])]:
        names = rng.sample(["A", "B", "Feed", "Mix"], rng.randint(1, 3))
        result.append({"keys": keys, "price": rng.random() < 0.2,
                       "assays": {n: assay(rng, len(keys)) for n in names}})
    if rng.random() < 0.2:      # the same material, loaded a second time
        result.append(dict(result[0]))
    if rng.random() < 0.3:
        for m in result:
            m["name"] = "Material"
    return result


MASSES = [1.0, 10.0, 100.0, 1234.5, 0.001, 1e6, 3.7, 250.0]
TEMPS = [25.0, 100.0, 300.0, 550.0, 1000.0, 1300.0, 1500.0]


def generate(rng, family, tier, mats=None, count=None, exclude=()):
    fam = FAMILIES[family]
    if mats is None:
        mats = generate_materials(rng, family)
    u = lambda: rng.randrange(UNITS)
    m = lambda: rng.randrange(len(mats))
    ops = []
    for i in range(UNITS):
        if rng.random() < 0.85:
            ops.append(create_op(rng, i, m()))
        else:
            ops.append(["empty", i, m()])
    kinds = ["create", "empty", "add", "add", "add", "addc", "mul", "clone",
             "alias", "extract", "extract", "extractc", "extractc",
             "extracts", "clear", "transfer", "transfer", "assay", "queries"]
    if fam.has_add_to:
        kinds += ["addto", "addto", "addtoc", "addto", "swap"]
    if fam.slurry:
        kinds += ["addw", "extractw", "addw", "extractw"]
    if fam.thermo:
        kinds += ["addct", "addct", "setT", "setT", "setH", "setH", "setP",
                  "extractm", "custom"]
    if fam.coal:
        # Assays added later have no heating value.
        kinds = [k for k in kinds if k != "assay"]
    faults = ["reject", "interrupt", "restart", "reject", "interrupt"]
    kinds = [k for k in kinds if k not in exclude]
    faults = [k for k in faults if k not in exclude]
    fault_rate = rng.choice([0.0, 0.1, 0.2, 0.35]) if faults else 0.0
    if count is None:
        count = rng.randint(5, 40) if tier == "quick" else \
            rng.randint(5, 120)
        if rng.random() < 0.03:
            count *= 4
    held = []
    for _ in range(count):
        if rng.random() < fault_rate:
            k = rng.choice(faults)
            if k == "reject":
                ops.append(["reject", rng.random(), u(), u(), rng.random()])
            elif k == "interrupt":
                ops.append(["interrupt", rng.random(), u(), u(),
                            rng.random(), rng.random()])
            else:
                ops.append(["restart", rng.choice(["plant", "plant",
                                                   "unit"]), u()])
            continue
        k = rng.choice(kinds)
        if k == "create":
            ops.append(create_op(rng, u(), m()))
        elif k == "empty":
            ops.append(["empty", u(), m()])
        elif k == "add":
            ops.append(["add", u(), u(), u()])
        elif k == "addto":
            ops.append(["addto", u(), u()])
        elif k in ("addc", "addtoc"):
            ops.append([k, u(), u(), rng.random(), rng.choice(MASSES),
                        rng.choice(["float", "np64", "np32"])])
        elif k == "swap":
            ops.append([k, u(), rng.random(), rng.random(),
                        rng.choice([1.0, 1.0, 0.5])])
        elif k == "addct":
            ops.append([k, u(), u(), rng.random(), rng.choice(MASSES),
                        temp(rng), rng.choice(["float", "np64"])])
        elif k == "addw":
            ops.append([k, u(), u(), rng.choice(MASSES),
                        rng.choice(["float", "np64"])])
        elif k == "extractw":
            ops.append([k, u(), u(), frac(rng),
                        rng.choice(["float", "np64"])])
        elif k == "mul":
            ops.append([k, u(), u(), rng.choice(
                [0.0, 1.0, 2.0, 0.5, 1e-3, 1 / 3.0, 1000.0]),
                rng.choice(["float", "float", "np64", "np32"])])
        elif k in ("clone", "alias"):
            ops.append([k, u(), u()])
        elif k == "extract":
            ops.append([k, u(), u(), frac(rng),
                        rng.choice(["float", "np64", "np32"])])
        elif k == "extractc":
            ops.append([k, u(), u(), rng.random(), frac(rng),
                        rng.choice(["float", "np64", "np64", "np32"])])
        elif k == "extracts":
            ops.append([k, u(), u(), rng.random()])
        elif k == "extractm":
            ops.append([k, u(), u(), m()])
        elif k == "clear":
            ops.append([k, u()])
        elif k == "transfer":
            # A transport: material taken out now, delivered some steps
            # later, with whatever else happens in between.
            c = len(held)
            held.append(c)
            ops.append(["depart", c, u(), rng.random(), frac(rng),
                        rng.choice(["mass", "mass", "key"])])
            at = len(ops) + rng.choice([0, 1, 2, 5])
            ops.append(["arrive", c, u(), at])
        elif k == "setT":
            ops.append([k, u(), temp(rng)])
        elif k == "setH":
            ops.append([k, u(), temp(rng)])
        elif k == "setP":
            ops.append([k, u(), rng.choice([0.5, 1.0, 2.0])])
        elif k == "custom":
            ops.append([k, u(), rng.choice(["Price", "Grade"])])
        elif k == "assay":
            ops.append([k, m(), "N%d" % len(ops), [assay(rng, 12)][0],
                        u(), rng.choice(MASSES)])
        elif k == "queries":
            ops.append([k, u()])
    # Deliveries happen when their transports come in.
    flow, late = [], []
    for op in ops:
        if op[0] == "arrive":
            late.append(op)
            continue
        flow.append(op[:4] if op[0] == "arrive" else op)
        due = [o for o in late if o[3] <= len(flow)]
        for o in due:
            late.remove(o)
            flow.append(o[:3])
    flow += [o[:3] for o in late]
    return {"family": family, "materials": mats, "ops": flow,
            "look": rng.choice([1.0, 1.0, 1.0, 1.0, 0.4, 0.1])}


def create_op(rng, unit, mat):
    return ["create", unit, mat, rng.random(), rng.choice(MASSES + [50, 0]),
            rng.random() < 0.7, temp(rng), rng.choice([1.0, 1.0, 2.0, 3])]


def temp(rng):
    """Mostly from a few values, so that the same ones come again; also ones
    close to those, and whole numbers."""
    T = rng.choice(TEMPS)
    r = rng.random()
    if r < 0.1:
        return T + rng.choice([1e-3, 0.01, 0.4])
    if r < 0.2:
        return int(T)
    if r < 0.3:
        return round(rng.uniform(25.0, 1500.0), 3)
    if r < 0.36:
        return rng.choice([0.0, 0, -0.0, 4.5])
    return T


def frac(rng):
    return rng.choice([0.0, 1.0, 0.5, 0.25, 0.9, 1e-6, 1.0 - 1e-6,
                       round(rng.random(), 6)])


# ---------------------------------------------------------------------------
# execution
# ---------------------------------------------------------------------------

def make_materials(fam, spec, directory):
    mats = []
    for i, s in enumerate(spec):
        path = os.path.join(directory, "m%d.txt" % i)
        fam.write_definition(path, s)
        mats.append(fam.make(s.get("name", "Material %d" % i), path))
    return mats


class Plant:
    def __init__(self, sc, ctx, mats=None):
        self.ctx = ctx
        self.fam = FAMILIES[sc["family"]]()
        self.spec = copy.deepcopy(sc["materials"])
        self.mats = []
        self.units = [None] * UNITS     # packages
        self.leds = [None] * UNITS      # their ledgers, shared by aliases
        self.hold = {}                  # material under way
        self.msnap = []
        self.unseen = False             # nobody looks after this operation
        if mats is not None:
            self.mats = list(mats)
        else:
            self.mats = make_materials(self.fam, self.spec, ctx.scratch)
        for m, s in zip(self.mats, self.spec):
            want = [self.fam.key(k) for k in s["keys"]]
            ctx.check(list(self.fam.keys(m)) == want, "definition",
                      lambda: "%r instead of %r" % (self.fam.keys(m), want))
        self.msnap = [self.fam.material_snapshot(m) for m in self.mats]

    # -- helpers ----------------------------------------------------------
    def index(self, pkg):
        for i, m in enumerate(self.mats):
            if m is pkg.material:
                return i
        return None

    def pick(self, led, r):
        keys = list(led.m)
        if self.fam.coal:   # what is bound in coal cannot be told apart
            keys = [k for k in keys if k not in Coal.DAF]
        return keys[int(r * len(keys)) % len(keys)]

    def objects(self):
        """All live packages with their ledgers, each once."""
        seen, out = set(), []
        for p, l in list(zip(self.units, self.leds)) + \
                [self.hold[k] for k in sorted(self.hold)]:
            if p is not None and id(p) not in seen:
                seen.add(id(p))
                out.append((p, l))
        return out

    def snapshots(self):
        if self.unseen:
            return {}
        return {id(p): self.fam.snapshot(p) for p, _ in self.objects()}

    def put(self, u, pkg, led):
        self.ctx.check(pkg is not None, "no-result",
                       "an operation that makes a new package returned none")
        self.units[u], self.leds[u] = pkg, led
        for p, l in self.objects():
            if p is pkg and l is not led:
                self.ctx.fail("not-a-new-package", "an operation that makes "
                              "a new package returned one that is in use")

    def sum_ledger(self, a, b):
        """The ledger of a + b, in the material of a."""
        r = a.copy()
        for k, v in b.m.items():
            r.m[k] = r.m.get(k, 0.0) + v
        s = a.solids + b.solids
        if s > 0.0:
            r.rho = s / (a.solids / a.rho + b.solids / b.rho)
        r.water = a.water + b.water
        r.H = a.H + b.H
        r.peak = max(a.peak + b.peak, a.mass + b.mass)
        if a.HHV is not None or b.HHV is not None:
            r.HHV = ((a.HHV or 0.0) * a.mass + (b.HHV or 0.0) * b.mass) / (
                a.mass + b.mass) if a.mass + b.mass > 0.0 else 0.0
        if self.fam.thermo:
            r.T = self.temperature(r, a.T if a.mass > 0 else b.T)
        return r

    def enthalpy(self, led, T):
        return float(sum(enthalpy_parts(led.m, T, led.HHV)))

    def temperature(self, led, T0):
        """The temperature at which the ledger's masses have its enthalpy,
        by bisection."""
        if led.mass <= 1e-6 * led.peak:
            return T0
        lo, hi = -50.0, 3000.0
        for _ in range(200):
            mid = 0.5 * (lo + hi)
            if mid == lo or mid == hi:
                break
            if self.enthalpy(led, mid) < led.H:
                lo = mid
            else:
                hi = mid
        return 0.5 * (lo + hi)

    def verify(self, before, touched, kind):
        """touched: ids of the objects the operation may have changed or
        made."""
        ctx, fam = self.ctx, self.fam
        if self.unseen:
            for p, l in self.objects():
                if id(p) in touched and fam.thermo and (
                        l.mass <= 1e-6 * l.peak or l.mass == 0.0):
                    l.T, l.H = float(p.T), float(fam.H(p))
            return
        for m, s in zip(self.mats, self.msnap):
            now = fam.material_snapshot(m)
            ctx.check(now == s, "material-changed",
                      lambda: "by %s: %r was %r" % (kind, now, s))
        digest = []
        for p, l in self.objects():
            is_touched = id(p) in touched or id(p) not in before
            if not is_touched:
                now = fam.snapshot(p)
                ctx.check(now == before[id(p)], "other-package-changed",
                          lambda: "by %s: %r was %r" %
                          (kind, now, before[id(p)]))
            self.check(p, l, is_touched, kind)
            if is_touched:
                if fam.thermo and (l.mass <= 1e-6 * l.peak or
                                   l.mass == 0.0):
                    l.T, l.H = float(p.T), float(fam.H(p))
                digest.append(fam.snapshot(p)[1:])
        # No two packages share what one of them can change.
        ctx.log(kind, digest)

    def check(self, p, l, touched, kind):
        ctx, fam = self.ctx, self.fam
        ctx.check(self.index(p) == l.material, "material",
                  lambda: "after %s a package is of material %r instead of "
                  "%r" % (kind, self.index(p), l.material))
        tol = REL * l.peak
        for k, want in l.m.items():
            near(ctx, fam.key_mass(p, k), want, tol, "mass",
                 "%s after %s" % (k, kind))
        near(ctx, fam.total(p), l.mass, tol * 5, "total-mass", kind)
        fam.check_extra(ctx, p, l, touched, kind)

    def refused(self, fn, what):
        """fn has to be refused; everything stays as it was."""
        before = self.snapshots()
        try:
            fn()
        except Exception:
            self.ctx.fault("refused-operation")
        else:
            self.ctx.fail("not-refused", what)
        self.verify(before, set(), "refused " + what)

    def accepts(self, a, b):
        """Material index a takes everything material index b has."""
        return set(self.spec[b]["keys"]) <= set(self.spec[a]["keys"])

    # -- operations -------------------------------------------------------
    def run(self, op):
        kind = op[0]
        getattr(self, "op_" + kind)(*op[1:])

    def new_ledger(self, mi, values=None):
        keys = [self.fam.key(k) for k in self.spec[mi]["keys"]]
        return Ledger(mi, dict(zip(keys, values or [0.0] * len(keys))))

    def op_create(self, u, mi, r, mass, normalise, T, P):
        names = sorted(self.spec[mi]["assays"])
        name = names[int(r * len(names)) % len(names)]
        self.create(u, mi, name, mass, normalise, T, P)

    def create(self, u, mi, name, mass, normalise, T=25.0, P=1.0):
        fam, ctx = self.fam, self.ctx
        a = self.spec[mi]["assays"][name]
        before = self.snapshots()
        pkg = fam.create(self.mats[mi], name, mass, normalise, T, P)
        total = sum(a["values"]) if normalise else 1.0
        water = mass * a["water"] if fam.slurry else 0.0
        solid = mass - water
        led = self.new_ledger(mi, [solid * v / total for v in a["values"]])
        led.water = water
        if fam.slurry:
            led.rho = a["rho"]
        if fam.thermo:
            led.T, led.P = T, P
            if "HHV" in self.spec[mi]:
                led.HHV = self.spec[mi]["HHV"][name]
            led.H = self.enthalpy(led, T)
        led.peak = led.mass
        self.put(u, pkg, led)
        self.verify(before, {id(pkg)}, "create")
        if fam.thermo:
            ctx.check(float(pkg.T) == T and float(pkg.P) == P,
                      "temperature", "a package made at %r, %r is at %r, %r"
                      % (T, P, pkg.T, pkg.P))

    def op_empty(self, u, mi):
        before = self.snapshots()
        pkg = self.fam.empty(self.mats[mi])
        self.put(u, pkg, self.new_ledger(mi))
        self.verify(before, {id(pkg)}, "empty")

    def op_add(self, u, a, b):
        pa, pb = self.units[a], self.units[b]
        if pa is None or pb is None:
            return
        la, lb = self.leds[a], self.leds[b]
        if not self.accepts(la.material, lb.material):
            lacking = [k for k in lb.m if k not in la.m and lb.m[k] > 0]
            if lacking:
                self.refused(lambda: pa + pb, "a package with more")
            return
        before = self.snapshots()
        r = pa + pb
        self.put(u, r, self.sum_ledger(la, lb))
        self.verify(before, {id(r)}, "add")

    def op_addto(self, a, b):
        pa, pb = self.units[a], self.units[b]
        if pa is None or pb is None:
            return
        la, lb = self.leds[a], self.leds[b]
        if not self.accepts(la.material, lb.material):
            lacking = [k for k in lb.m if k not in la.m and lb.m[k] > 0]
            if lacking:
                self.refused(lambda: pa.add_to(pb), "a package with more")
            return
        before = self.snapshots()
        pa.add_to(pb)
        self.become(la, self.sum_ledger(la, lb))
        self.verify(before, {id(pa)}, "add_to")

    def become(self, led, new):
        led.__dict__.update(new.__dict__)

    def plus_key(self, la, k, mass, T=None):
        r = la.copy()
        r.m[k] += mass
        self.dilute(r, la)
        r.peak = max(r.peak, 0.0) + mass
        if self.fam.thermo:
            from auxi.tools.chemistry import thermochemistry
            r.H += float(thermochemistry.H(k, la.T if T is None else T,
                                           mass))
            if T is not None:
                r.T = self.temperature(r, la.T)
        return r

    def dilute(self, now, was):
        """Ash does not burn."""
        if was.HHV is not None:
            now.HHV = was.HHV * was.mass / now.mass if now.mass > 0.0 \
                else 0.0

    def as_number(self, mass, num):
        if self.fam.thermo and num == "np32":
            num = "np64"        # enthalpies would get single precision
        num = self.fam.number(mass, num)
        return float(num), num

    def op_addc(self, u, a, r, mass, num):
        pa, la = self.units[a], self.leds[a]
        if pa is None:
            return
        k = self.pick(la, r)
        if self.fam.slurry and la.solids == 0.0:
            la.rho = float(pa.solid_density)
        if self.fam.thermo and la.mass <= 1e-6 * la.peak:
            self.settle(pa, la)
        mass, num = self.as_number(mass, num)
        before = self.snapshots()
        res = pa + (k, num)
        self.put(u, res, self.plus_key(la, k, mass))
        self.verify(before, {id(res)}, "add-key")

    def op_addtoc(self, a, _, r, mass, num):
        pa, la = self.units[a], self.leds[a]
        if pa is None:
            return
        k = self.pick(la, r)
        mass, num = self.as_number(mass, num)
        before = self.snapshots()
        pa.add_to((k, num))
        self.become(la, self.plus_key(la, k, mass))
        self.verify(before, {id(pa)}, "add_to-key")

    def op_swap(self, a, r, r2, f):
        """Some of one key is replaced by as much of another one, and only
        then looked at."""
        pa, la = self.units[a], self.leds[a]
        if pa is None:
            return
        mass = f * float(self.fam.key_mass(pa, self.pick(la, r)))
        if mass == 0.0:
            return
        before, was = self.snapshots(), self.unseen
        self.unseen = True
        self.op_extractc(None, a, r, f, "float")
        self.op_addtoc(a, None, r2, mass, "float")
        self.unseen = was
        self.verify(before, {id(pa)}, "swap")

    def settle(self, p, l):
        """A package of nothing (but rounding) has whatever temperature it
        says it has, and no enthalpy."""
        l.T = float(p.T)

    def op_addct(self, u, a, r, mass, T, num="float"):
        pa, la = self.units[a], self.leds[a]
        if pa is None:
            return
        k = self.pick(la, r)
        before = self.snapshots()
        res = pa + (k, self.fam.number(mass, num),
                    self.fam.number(T, num) if type(T) is float else T)
        self.put(u, res, self.plus_key(la, k, mass, T))
        self.verify(before, {id(res)}, "add-key-T")

    def op_addw(self, u, a, mass, num="float"):
        pa, la = self.units[a], self.leds[a]
        if pa is None:
            return
        before = self.snapshots()
        res = pa + ("H2O", self.fam.number(mass, num))
        led = la.copy()
        led.water += mass
        led.peak += mass
        self.put(u, res, led)
        self.verify(before, {id(res)}, "add-water")

    def op_extractw(self, u, a, f, num="float"):
        pa, la = self.units[a], self.leds[a]
        if pa is None:
            return
        mass = f * float(pa.H2O_mass)
        before = self.snapshots()
        res = pa.extract(("H2O", self.fam.number(mass, num)))
        led = self.new_ledger(la.material)
        led.rho = float(res.solid_density)
        led.water = led.peak = mass
        la.water -= mass
        self.put_extracted(u, a, res, led, before, "extract-water")

    def op_mul(self, u, a, f, num="float"):
        pa, la = self.units[a], self.leds[a]
        if pa is None:
            return
        before = self.snapshots()
        num = self.fam.number(f, num)
        res = pa * num
        led = la.scaled(float(num))
        if self.fam.thermo and led.mass <= 1e-6 * led.peak:
            led.T = float(res.T)
        self.put(u, res, led)
        self.verify(before, {id(res)}, "multiply")

    def op_clone(self, u, a):
        pa, la = self.units[a], self.leds[a]
        if pa is None:
            return
        before = self.snapshots()
        res = pa.clone()
        self.put(u, res, la.copy())
        self.verify(before, {id(res)}, "clone")
        self.ctx.check(self.fam.snapshot(res) == self.fam.snapshot(pa),
                       "clone-differs", lambda: "%r of %r" %
                       (self.fam.snapshot(res), self.fam.snapshot(pa)))

    def op_alias(self, u, a):
        if self.units[a] is not None:
            self.units[u], self.leds[u] = self.units[a], self.leds[a]

    def part_ledger(self, la, mass):
        total = la.mass
        f = mass / total if total > 0.0 else 0.0
        f = min(f, 1.0)
        part, rest = la.scaled(f), la.scaled(1.0 - f)
        rest.peak = la.peak
        if la.mass <= 1e-6 * la.peak:   # hardly anything but rounding errors
            part.peak = la.peak
        return part, rest

    def put_extracted(self, u, a, res, led, before, kind):
        pa = self.units[a]
        if u is not None:
            self.put(u, res, led)
        self.verify(before, {id(res), id(pa)}, kind)

    def amount(self, f, total, kind):
        """A share of what there is, as a number of some kind."""
        mass = f * float(total)
        num = self.fam.number(mass, kind)
        if float(num) > float(total):       # rounded to single precision
            num = self.fam.number(mass, "float")
        return float(num), num

    def op_extract(self, u, a, f, num):
        pa, la = self.units[a], self.leds[a]
        if pa is None:
            return
        mass, num = self.amount(f, self.fam.total(pa), num)
        before = self.snapshots()
        res = pa.extract(num)
        part, rest = self.part_ledger(la, mass)
        self.become(la, rest)
        if self.fam.thermo:
            self.nothing(res, part)
            self.nothing(pa, la)
        self.put_extracted(u, a, res, part, before, "extract-mass")
        near(self.ctx, self.fam.total(res), mass, REL * mass,
             "extracted-mass", "extract-mass")

    def nothing(self, p, l):
        if l.mass <= 1e-6 * l.peak or l.mass == 0.0:
            l.T = float(p.T)

    def key_ledger(self, la, k, mass):
        part = self.new_ledger(la.material)
        part.rho = la.rho
        part.T, part.P = la.T, la.P
        part.m[k] = mass
        part.peak = max(mass, REL * la.peak)
        rest = la.copy()
        rest.m[k] = rest.m[k] - mass
        if abs(rest.m[k]) < 1e-12 * la.peak:
            rest.m[k] = 0.0
        self.dilute(rest, la)
        if self.fam.thermo:
            from auxi.tools.chemistry import thermochemistry
            part.H = float(thermochemistry.H(k, la.T, mass))
            rest.H -= part.H
        return part, rest

    def op_extractc(self, u, a, r, f, num):
        pa, la = self.units[a], self.leds[a]
        if pa is None:
            return
        k = self.pick(la, r)
        if self.fam.thermo and num == "np32":
            num = "np64"        # enthalpies would get single precision
        mass, num = self.amount(f, self.fam.key_mass(pa, k), num)
        before = self.snapshots()
        res = pa.extract((k, num))
        self.extracted_key(u, a, k, mass, res, before, "extract-key-mass")

    def extracted_key(self, u, a, k, mass, res, before, kind):
        pa, la = self.units[a], self.leds[a]
        if self.fam.slurry and la.solids == 0.0:
            la.rho = float(pa.solid_density)
        part, rest = self.key_ledger(la, k, mass)
        self.become(la, rest)
        if self.fam.slurry and part.solids == 0.0:
            part.rho = float(res.solid_density)
        if self.fam.thermo:
            self.nothing(res, part)
            self.nothing(pa, la)
        self.put_extracted(u, a, res, part, before, kind)
        near(self.ctx, self.fam.total(res), mass, REL * mass,
             "extracted-mass", kind)

    def op_extracts(self, u, a, r):
        pa, la = self.units[a], self.leds[a]
        if pa is None:
            return
        k = self.pick(la, r)
        mass = float(self.fam.key_mass(pa, k))
        before = self.snapshots()
        res = self.fam.extract_whole_key(pa, k)
        self.extracted_key(u, a, k, mass, res, before, "extract-key")
        self.ctx.check(float(self.fam.key_mass(pa, k)) == 0.0,
                       "left-behind", "some %s is left" % k)

    def op_extractm(self, u, a, mi):
        pa, la = self.units[a], self.leds[a]
        keys = self.spec[mi]["keys"]
        if pa is None or (self.fam.coal and set(keys) & set(Coal.DAF)):
            return
        before = self.snapshots()
        taken = {k: float(self.fam.key_mass(pa, k)) for k in keys
                 if k in la.m}
        res = pa.extract(self.mats[mi])
        part = self.new_ledger(mi)
        part.T, part.P = la.T, la.P
        rest = la.copy()
        for k, v in taken.items():
            part.m[k] = v
            rest.m[k] = 0.0
        self.dilute(rest, la)
        part.H = self.enthalpy(part, la.T)
        part.peak = max(part.mass, REL * la.peak)
        rest.H = self.enthalpy(rest, la.T)
        self.become(la, rest)
        self.nothing(res, part)
        self.nothing(pa, la)
        self.put_extracted(u, a, res, part, before, "extract-material")

    def op_clear(self, a):
        pa, la = self.units[a], self.leds[a]
        if pa is None:
            return
        before = self.snapshots()
        pa.clear()
        new = self.new_ledger(la.material)
        new.HHV = la.HHV
        self.become(la, new)
        self.verify(before, {id(pa)}, "clear")
        f = self.fam
        self.ctx.check(f.total(pa) == 0.0, "not-cleared", "mass %r" %
                       f.total(pa))
        if f.thermo:
            self.ctx.check(pa.T == 25.0 and f.H(pa) == 0.0 and pa.P == 1.0,
                           "not-cleared", "T %r H %r P %r" %
                           (pa.T, f.H(pa), pa.P))

    # a transport in two steps
    def op_depart(self, c, a, r, f, how):
        pa, la = self.units[a], self.leds[a]
        if pa is None:
            return
        if how == "mass":
            mass = f * float(self.fam.total(pa))
            before = self.snapshots()
            res = pa.extract(mass)
            part, rest = self.part_ledger(la, mass)
        else:
            k = self.pick(la, r)
            mass = float(self.fam.key_mass(pa, k))
            if self.fam.slurry and la.solids == 0.0:
                la.rho = float(pa.solid_density)
            before = self.snapshots()
            res = self.fam.extract_whole_key(pa, k)
            part, rest = self.key_ledger(la, k, mass)
        self.become(la, rest)
        if self.fam.slurry and part.solids == 0.0:
            part.rho = float(res.solid_density)
        if self.fam.thermo:
            self.nothing(res, part)
            self.nothing(pa, la)
        self.hold[c] = (res, part)
        self.put_extracted(None, a, res, part, before, "depart")
        self.ctx.fault("delayed-transport")

    def op_arrive(self, c, b):
        if c not in self.hold or self.units[b] is None:
            return
        pc, lc = self.hold.pop(c)
        pb, lb = self.units[b], self.leds[b]
        if not self.accepts(lb.material, lc.material):
            self.hold[c] = (pc, lc)
            return
        before = self.snapshots()
        if self.fam.has_add_to and c % 2:
            pb.add_to(pc)
            self.become(lb, self.sum_ledger(lb, lc))
            self.verify(before, {id(pb)}, "arrive")
        else:
            r = pb + pc
            self.put(b, r, self.sum_ledger(lb, lc))
            self.verify(before, {id(r)}, "arrive")

    def op_setT(self, a, T):
        pa, la = self.units[a], self.leds[a]
        if pa is None:
            return
        before = self.snapshots()
        pa.T = T
        la.T = T
        la.H = self.enthalpy(la, T)
        self.verify(before, {id(pa)}, "set-T")
        self.ctx.check(float(pa.T) == T, "temperature", "%r was set to %r"
                       % (pa.T, T))

    def op_setH(self, a, T):
        pa, la = self.units[a], self.leds[a]
        if pa is None or la.mass <= 1e-6 * la.peak:
            return
        H = self.enthalpy(la, T)
        before = self.snapshots()
        self.fam.set_H(pa, H)
        la.H, la.T = H, T
        self.verify(before, {id(pa)}, "set-H")
        self.ctx.check(float(self.fam.H(pa)) == H, "enthalpy",
                       "%r was set to %r" % (self.fam.H(pa), H))

    def op_setP(self, a, P):
        pa, la = self.units[a], self.leds[a]
        if pa is None:
            return
        before = self.snapshots()
        pa.P = P
        la.P = P
        self.verify(before, {id(pa)}, "set-P")

    def op_custom(self, a, name):
        pa = self.units[a]
        if pa is None:
            return
        before = self.snapshots()
        pa.custom_properties[name] = 1.0
        self.verify(before, {id(pa)}, "custom")

    def op_assay(self, mi, name, a, u, mass):
        n = len(self.spec[mi]["keys"])
        a = dict(a, values=a["values"][:n])
        if sum(a["values"]) == 0.0:
            a["values"] = [1.0] * n
        while len(a["values"]) < n:
            a["values"].append(0.5)
        before = self.snapshots()
        self.fam.add_assay(self.mats[mi], name, a)
        self.spec[mi]["assays"][name] = a
        got = self.fam.material_snapshot(self.mats[mi])
        self.msnap[mi] = got
        self.verify(before, set(), "add_assay")
        near(self.ctx, self.mats[mi].get_assay_total(name),
             sum(a["values"]), 1e-9, "assay-total", name)
        self.create(u, mi, name, mass, True)

    def op_queries(self, a):
        """What a query returns belongs to its caller."""
        pa = self.units[a]
        if pa is None:
            return
        before = self.snapshots()
        for q in self.fam.queries(pa):
            if isinstance(q, dict):
                for k in q:
                    q[k] = -1.0
            else:
                for i in range(len(q)):
                    q[i] = -1.0
        self.verify(before, set(), "queries")

    # -- faults -----------------------------------------------------------
    def op_reject(self, how, a, b, r):
        pa, la = self.units[a], self.leds[a]
        if pa is None:
            return
        f = self.fam
        k = self.pick(la, r)
        m = self.mats[la.material]
        fine = int(r * 1000)
        big = more(float(f.total(pa)), fine)
        bigk = more(float(f.key_mass(pa, k)), fine)
        bad = unknown_key(la.m, k, f.bad_key(), fine)
        cases = [
            ("a negative factor", lambda: pa * -1.0),
            ("a text as factor", lambda: pa * "2"),
            ("too much", lambda: pa.extract(big)),
            ("too much of a key", lambda: pa.extract((k, bigk))),
            ("an unknown key", lambda: pa + (bad, 1.0)),
            ("nonsense to add", lambda: pa + "nonsense"),
            ("nonsense to add", lambda: pa + [k, 1.0]),
            ("nonsense to extract", lambda: pa.extract([1.0])),
            ("an unknown assay",
             lambda: f.create(m, "No such assay", 1.0, True, 25.0, 1.0)),
            ("an assay of the wrong length",
             lambda: f.add_assay(m, "Wrong", {
                 "values": [0.1] * (len(la.m) + 1), "rho": 1.0,
                 "water": 0.0})),
            ("an assay that is there already",
             lambda: f.add_assay(m, sorted(
                 self.spec[la.material]["assays"])[0], {
                 "values": [0.1] * len(la.m), "rho": 1.0, "water": 0.0})),
        ]
        if not f.thermo:
            cases.append(("an unknown key", lambda: pa.extract(
                (bad, 1.0))))
            cases.append(("an unknown key", lambda: f.extract_whole_key(
                pa, bad)))
        if f.has_add_to:
            cases.append(("nonsense to add", lambda: pa.add_to(3)))
            cases.append(("an unknown key",
                          lambda: pa.add_to((bad, 1.0))))
        if f.slurry:
            cases.append(("too much water", lambda: pa.extract(
                ("H2O", more(float(pa.H2O_mass), fine)))))
        if f.thermo:
            cases.append(("an unknown key",
                          lambda: pa + (bad, 1.0, 300.0)))
        what, fn = cases[int(how * len(cases)) % len(cases)]
        self.refused(fn, what)

    def op_interrupt(self, how, a, b, r, where):
        """Break off an operation that does not modify its operands."""
        pa, pb, la, lb = (self.units[a], self.units[b], self.leds[a],
                          self.leds[b])
        if pa is None or pb is None:
            return
        f = self.fam
        k = self.pick(la, r)
        m = self.mats[la.material]
        assay_name = sorted(self.spec[la.material]["assays"])[0]
        cases = [lambda: pa * 0.5, lambda: pa.clone(),
                 lambda: pa + (k, 1.0), lambda: str(pa),
                 lambda: f.create(m, assay_name, 1.0, True, 100.0, 1.0),
                 lambda: f.queries(pa)]
        if self.accepts(la.material, lb.material):
            cases += [lambda: pa + pb] * 3
        if f.thermo:
            cases.append(lambda: pa + (k, 1.0, 500.0))
        fn = cases[int(how * len(cases)) % len(cases)]
        before = self.snapshots()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            total, _ = inject.count_lines(fn)
            name, _ = inject.interrupt_at(fn, 1 + int(where * total))
        if name is not None:
            self.ctx.fault("interrupt-at-line")
        self.verify(before, set(), "interrupted operation")

    def op_restart(self, what, a):
        """Save, forget, and read back: the whole plant (identities are
        kept) or one unit (which then has materials of its own)."""
        ctx = self.ctx
        path = os.path.join(ctx.scratch, "plant.json")
        if what == "plant":
            before = {i: self.fam.snapshot(p)[1:]
                      for i, p in enumerate(self.units) if p is not None}
            shared = [[p is q for q in self.units] for p in self.units]
            held = sorted(self.hold)
            state = PlantState(self.mats, self.units +
                               [self.hold[c][0] for c in held])
            state.write(path)
            back = Object.read(path)
            self.mats = back.materials
            units = back.units
            self.units = units[:UNITS]
            for c, p in zip(held, units[UNITS:]):
                self.hold[c] = (p, self.hold[c][1])
            ctx.check([[p is q for q in self.units] for p in self.units] ==
                      shared, "restart", "packages are shared differently")
            for i, s in before.items():
                now = self.fam.snapshot(self.units[i])[1:]
                ctx.check(now == s, "restart", lambda: "%r was %r" %
                          (now, s))
        else:
            p = self.units[a]
            if p is None:
                return
            p.write(path)
            back = Object.read(path)
            ctx.check(self.fam.snapshot(back)[1:] ==
                      self.fam.snapshot(p)[1:], "restart",
                      lambda: "%r was %r" % (self.fam.snapshot(back)[1:],
                                             self.fam.snapshot(p)[1:]))
            led = self.leds[a].copy()
            # A material of its own from now on.
            self.mats.append(back.material)
            self.spec.append(copy.deepcopy(self.spec[led.material]))
            led.material = len(self.mats) - 1
            self.msnap.append(self.fam.material_snapshot(back.material))
            self.units[a], self.leds[a] = back, led
        ctx.fault("restart-from-file")
        self.verify({}, set(), "restart")


def execute(sc, ctx):
    os.makedirs(ctx.scratch, exist_ok=True)
    warnings.simplefilter("error", RuntimeWarning)
    plant = Plant(sc, ctx)
    changed = 0
    for op in sc["ops"]:
        ctx.step()
        # What looks at a package may refresh what it keeps, so some users
        # hardly ever look.
        plant.unseen = zlib.crc32(repr(op).encode()) % 1000 >= \
            1000 * sc.get("look", 1.0)
        if plant.unseen:
            ctx.probe("not-looked-at")
        plant.run(op)
        if op[0] in ("addto", "extract", "extractc", "extracts", "depart",
                     "arrive", "setH", "extractm"):
            changed += 1
        ctx.probe(op[0])
        ctx.state([op[0], [None if l is None else
                           [l.material, "%.3g" % l.mass] for l in
                           plant.leds]])
    plant.unseen = False
    plant.verify({}, set(), "the end")
    ctx.nontrivial = changed >= 1 and len(sc["ops"]) > UNITS
