"""
The calculators: a catalogue of calls with generated arguments. A call is JSON
(a name and arguments); its outcome is JSON as well (a value, or the kind of
error). Nothing here knows what the right value is: outcomes are compared with
those of the same call made alone in a fresh process.
"""

import copy
import datetime
import sys

IMPORTS = ["auxi.core.helpers", "auxi.core.bibliography",
           "auxi.tools.chemistry.stoichiometry",
           "auxi.tools.chemistry.thermochemistry",
           "auxi.tools.materialphysicalproperties.core",
           "auxi.tools.materialphysicalproperties.gases",
           "auxi.tools.materialphysicalproperties.liquids",
           "auxi.tools.materialphysicalproperties.idealgas",
           "auxi.tools.materialphysicalproperties.slags",
           "auxi.tools.materialphysicalproperties.coals",
           "auxi.tools.materialphysicalproperties.polynomial",
           "auxi.tools.transportphenomena.dimensionlessquantities",
           "auxi.tools.transportphenomena.fluidflow.pressuredrop",
           "auxi.tools.transportphenomena.heattransfer.naturalconvection"]

FORMULAS = ["FeO", "Fe2O3", "SiO2", "CaO", "Ca(OH)2", "CaSO4.2H2O", "P4O10",
            "H2O", "CO", "Co", "CO2", "Al2(SO4)3", "C6H12O6", "Fe2O3[S1]",
            "FeO[S]", "MgSiO3", "K2Cr2O7", "Fe3O4", "CuSO4.5H2O", "N2", "O"]
BAD_FORMULAS = ["Xx", "fe", "Fe2(", "", " FeO ", "H2O[", "Fe 2O3", "Zz2O3",
                "Fe[S]]"]
ELEMENTS = ["Fe", "O", "Si", "H", "C", "Ca", "Cu", "Co", "S", "P", "Zz"]
PHASES = ["Fe[L]", "FeO[S]", "FeO[L]", "SiO2[S]", "Fe2O3[Salpha]", "H2O[L]",
          "H2O[G]", "CO2[G]", "CO[G]", "N2[G]", "O2[G]", "C[Sgr]", "CaO[S]",
          "MgO[S]", "Al2O3[S]", "Fe3O4[S]", "TiO2[Srutile]"]
BAD_PHASES = ["FeO[Q]", "Xx[S]", "FeO", "", "H2O[S]", "FeO[S", "fe[S]"]
TEMPS = [25.0, 25, 26.0, 100.0, 500.0, 500.4, 999.0, 1000.0, 1500.0, 2500.0,
         -10.0, 3999.5]
TEMPS_K = [298.15, 300.0, 300, 300.5, 350.0, 400.0, 450.0, 600.0, 601.0,
           1000.0, 273.15, 1e-3, 5000.0, -1.0, "300", None]
GASES = ["Air", "Ar", "NH3", "CO2", "CO", "N2", "O2", "H2O"]
GAS_PROPS = ["rho", "beta", "Cp", "mu", "k", "nu", "alpha"]
OXIDES = ["SiO2", "CaO", "MgO", "FeO", "Al2O3", "Fe2O3", "TiO2", "P2O5",
          "B2O3", "MnO", "Na2O", "K2O", "CaF2", "ZrO2", "Cr2O3"]


class R:
    """Generators of arguments."""

    @staticmethod
    def formula(rng):
        return rng.choice(BAD_FORMULAS) if rng.random() < 0.08 else \
            rng.choice(FORMULAS)

    @staticmethod
    def element(rng):
        return rng.choice(ELEMENTS)

    @staticmethod
    def elements(rng):
        return [rng.choice(ELEMENTS) for _ in range(rng.randint(0, 5))]

    @staticmethod
    def formulas(rng):
        return [R.formula(rng) for _ in range(rng.randint(0, 5))]

    @staticmethod
    def phase(rng):
        return rng.choice(BAD_PHASES) if rng.random() < 0.1 else \
            rng.choice(PHASES)

    @staticmethod
    def mass(rng):
        return rng.choice([1.0, 1, 2.0, 0.0, 0.5, 100.0, 1e-6, 1234.5, -1.0])

    @staticmethod
    def masses(rng):
        keys = rng.sample(FORMULAS, rng.randint(0, 5))
        return {k: rng.choice([1.0, 2.0, 0.0, 0.25, 100.0]) for k in keys}

    @staticmethod
    def temp(rng):
        return rng.choice(TEMPS)

    @staticmethod
    def tempK(rng):
        return rng.choice(TEMPS_K[:10] if rng.random() < 0.8 else TEMPS_K)

    @staticmethod
    def gas_state(rng):
        s = {"T": R.tempK(rng)}
        r = rng.random()
        if r < 0.05:
            s = {}
        elif r < 0.12:
            s["P"] = 101325.0
        return s

    @staticmethod
    def gas_mix(rng):
        keys = rng.sample(GASES + ["Xe"], rng.randint(1, 5))
        if rng.random() < 0.05:
            keys = ["Xe"]
        return {k: rng.choice([0.1, 0.25, 0.5, 1.0, 2.0]) for k in keys}

    @staticmethod
    def slag(rng):
        keys = rng.sample(OXIDES, rng.randint(1, 6))
        return {k: rng.choice([0.1, 0.2, 0.3, 0.5, 1.0, 10.0]) for k in keys}

    @staticmethod
    def positive(rng):
        return rng.choice([0.1, 0.5, 1.0, 1, 2.0, 3.7, 10.0, 1e4, 0.0])

    @staticmethod
    def fraction(rng):
        return rng.choice([0.0, 0.05, 0.2, 0.5, 0.8, 0.9])

    @staticmethod
    def reynolds(rng):
        return rng.choice([100.0, 2300.0, 5000.0, 1e5, 1e6, 1e9, 0.0])

    @staticmethod
    def rough(rng):
        return rng.choice([0.0, 1e-5, 1e-4, 0.01, 0.5])

    @staticmethod
    def angle(rng):
        return rng.choice([-90, -60, -45, -30.0, 0, 0.0, 30.0, 45.0, 60.0,
                           88, 89, 90, 120])

    @staticmethod
    def when(rng):
        return rng.choice(["2016-02-29", "2016-12-31", "2015-02-29", "soon",
                           "", "2020-1-1"])


# name: ([argument generators], uses an instance that is kept or new)
CATALOGUE = {
    "st.amount": [R.formula, R.mass],
    "st.mass": [R.formula, R.mass],
    "st.amounts": [R.masses],
    "st.masses": [R.masses],
    "st.amount_fractions": [R.masses],
    "st.mass_fractions": [R.masses],
    "st.convert_compound": [R.mass, R.formula, R.formula, R.element],
    "st.element_mass_fraction": [R.formula, R.element],
    "st.element_mass_fractions": [R.formula, R.elements],
    "st.elements": [R.formulas],
    "st.molar_mass": [R.formula],
    "st.stoichiometry_coefficient": [R.formula, R.element],
    "st.stoichiometry_coefficients": [R.formula, R.elements],
    "th.Cp": [R.phase, R.temp, R.mass],
    "th.H": [R.phase, R.temp, R.mass],
    "th.S": [R.phase, R.temp, R.mass],
    "th.G": [R.phase, R.temp, R.mass],
    "th.molar_mass": [R.formula],
    "th.compound": [R.phase, R.temp],
    "th.magnetic": [lambda r: r.choice(["bcc", "fcc"]),
                    lambda r: r.choice([1043.0, 67.0, 298.15, 633, -80.0]),
                    lambda r: r.choice([2.22, 0.7, 0.52, 0.0]),
                    lambda r: r.choice([0.4, 0.28]), R.tempK],
    "th.phase": [lambda r: r.choice(["S", "L", "S1"]),
                 lambda r: r.choice([-1e5, 0.0, 8000.0]),
                 lambda r: r.choice([27.3, 51.0]), R.tempK],
    "core.dataset": [lambda r: r.choice(["Air", "N2", "water"])],
    "th.references": [],
    "th.list": [],
    "gas.prop": [lambda r: r.choice(GASES), lambda r: r.choice(GAS_PROPS),
                 R.gas_state],
    "liquid.prop": [lambda r: r.choice(GAS_PROPS), R.gas_state],
    "gas.Wilke": [R.tempK, R.gas_mix],
    "gas.Herning": [R.tempK, R.gas_mix],
    "gas.IdealCp": [R.tempK, R.gas_mix],
    "ig.BetaT": [R.gas_state],
    "ig.RhoT": [R.positive, R.positive, R.gas_state],
    "ig.RhoTP": [R.positive, R.tempK, R.positive],
    "ig.RhoTPx": [R.tempK, R.positive, R.masses],
    "slag.UrbainTx": [R.tempK, R.slag],
    "slag.UrbainTy": [R.tempK, R.slag],
    "slag.RiboudTx": [R.tempK, R.slag],
    "slag.RiboudTy": [R.tempK, R.slag],
    "coal.Cp": [R.tempK] + [R.fraction] * 5,
    "coal.H": [R.tempK] + [R.fraction] * 5,
    "poly.fit": [lambda r: r.choice(["Air", "N2", "water"]),
                 lambda r: r.choice(["Cp", "mu", "k", "rho"]),
                 lambda r: r.choice([1, 2, 3]), R.gas_state],
    "conv.h_x": [lambda r: r.choice(["Air", "N2", "water"]), R.positive,
                 R.angle, R.tempK, R.tempK],
    "conv.h_L": [lambda r: r.choice(["Air", "N2", "water"]), R.positive,
                 R.angle, R.tempK, R.tempK],
    "conv.Nu_x": [lambda r: r.choice(["Air", "N2", "water"]), R.positive,
                  R.angle, R.tempK, R.tempK],
    "conv.Nu_L": [lambda r: r.choice(["Air", "N2", "water"]), R.positive,
                  R.angle, R.tempK, R.tempK],
    "dq.Gr": [R.positive] * 6,
    "dq.Pr": [R.positive] * 2,
    "dq.Re": [R.positive] * 3,
    "dq.Nu": [R.positive] * 3,
    "dq.Sh": [R.positive] * 3,
    "dp.f_l": [R.reynolds],
    "dp.f_ts": [R.reynolds],
    "dp.f_tr_Haaland": [R.reynolds, R.rough, R.positive,
                        lambda r: r.random() < 0.5],
    "dp.f_tr_Colebrook": [R.reynolds, R.rough, R.positive],
    "dp.D_h": [R.positive] * 2,
    "dp.dp": [R.positive] * 5,
    "core.get_date": [R.when],
    "core.bib": [lambda r: r.choice(["merrick1983a", "lienhard2015",
                                     "nothing"])],
}
NAMES = sorted(CATALOGUE)
SIBLINGS = {}
for _n in NAMES:
    SIBLINGS.setdefault(_n.split(".")[0], []).append(_n)


def relative(rng, x):
    """Something that is easily mistaken for x."""
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, (int, float)):
        return rng.choice([x * (1 + 1e-3), x * (1 + 1e-6), x * (1 + 1e-9),
                           x * (1 + 1e-12), x + 0.04, x + 0.3, -x,
                           float(x), int(x)])
    if isinstance(x, str):
        return rng.choice([x.upper(), x.lower(), x + " ", x[:-1], x[::-1],
                           x.replace("2", "3"), x.split("[")[0]])
    if isinstance(x, list):
        x = list(x)
        if rng.random() < 0.5:
            rng.shuffle(x)
        else:
            x = x + x[:1] if rng.random() < 0.5 else x[1:]
        return x
    x = dict(x)
    keys = sorted(x)
    if len(keys) >= 2 and rng.random() < 0.6:
        a, b = rng.sample(keys, 2)      # the same keys, values and sum
        x[a], x[b] = x[b], x[a]
        if rng.random() < 0.3 and isinstance(x[a], float) and \
                isinstance(x[b], float):
            x[a], x[b] = x[a] + 0.05, x[b] - 0.05
    elif keys:
        k = rng.choice(keys)
        x[k] = relative(rng, x[k])
    return x


def generate_calls(rng, n, groups=None):
    """n calls, many of them close relatives of each other."""
    calls = []
    names = [x for x in NAMES if groups is None or x.split(".")[0] in groups]
    while len(calls) < n:
        if calls and rng.random() < 0.65:
            base = rng.choice(calls)
            name, args = base[0], copy.deepcopy(base[1])
            r = rng.random()
            if r < 0.25:
                # the same question to a sibling with the same arguments
                same = [s for s in SIBLINGS[name.split(".")[0]]
                        if CATALOGUE[s] == CATALOGUE[name]]
                name = rng.choice(same)
            elif args:
                i = rng.randrange(len(args))
                if rng.random() < 0.3:
                    args[i] = relative(rng, args[i])
                elif isinstance(args[i], dict) and args[i] and r < 0.7:
                    k = rng.choice(sorted(args[i]))
                    if r < 0.4:
                        v = args[i].pop(k)          # another order
                        args[i][k] = v
                    elif r < 0.55 and isinstance(args[i][k], float):
                        args[i][k] *= 2.0
                    else:
                        del args[i][k]
                else:
                    args[i] = CATALOGUE[name][i](rng)
        else:
            name = rng.choice(names)
            args = [g(rng) for g in CATALOGUE[name]]
        calls.append([name, args])
    return calls


def plausible(x):
    if isinstance(x, dict):
        return all(plausible(v) for kv in x.items() for v in kv)
    if isinstance(x, (list, tuple)):
        return all(plausible(v) for v in x)
    if isinstance(x, (int, float)):
        return x > 0.0
    return x is not None and x not in BAD_FORMULAS and x not in BAD_PHASES \
        and x not in ("300", "Xe")


def generate_duel(rng, name, n):
    """n calls of one function with arguments that it answers, most of them
    different in every argument."""
    def one(g):
        for _ in range(9):
            x = g(rng)
            if plausible(x):
                return x
        return x
    calls = [[name, [one(g) for g in CATALOGUE[name]]]]
    while len(calls) < n:
        args = copy.deepcopy(rng.choice(calls)[1])
        for i, g in enumerate(CATALOGUE[name]):
            if rng.random() < 0.8:
                args[i] = one(g)
        calls.append([name, args])
    return calls


def normal(x):
    """A result as JSON data."""
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, dict):
        return {"dict": [[normal(k), normal(x[k])]
                         for k in sorted(x, key=repr)]}
    if isinstance(x, (set, frozenset)):
        return {"set": sorted((normal(v) for v in x), key=repr)}
    if isinstance(x, (list, tuple)):
        return [normal(v) for v in x]
    if isinstance(x, (datetime.date, datetime.datetime)):
        return x.isoformat()
    if hasattr(x, "tolist") and getattr(x, "ndim", 0):
        return [normal(v) for v in x.tolist()]
    if isinstance(x, complex):
        return ["complex", repr(x.real), repr(x.imag)]
    try:
        return repr(float(x))
    except (TypeError, ValueError):
        return "object of " + type(x).__name__


class World:
    """The instances the callers share."""

    def __init__(self):
        self.instances = {}
        self.kept = {}              # argument objects of a thrifty caller

    def keep(self, i, x):
        """The caller's own object, changed to hold the argument."""
        if type(x) not in (dict, list):
            return x
        mine = self.kept.setdefault((i, type(x).__name__), type(x)())
        mine.clear()
        mine.update(x) if isinstance(x, dict) else mine.extend(x)
        return mine

    def instance(self, key, make, new):
        if new:
            return make()
        if key not in self.instances:
            self.instances[key] = make()
        return self.instances[key]


def fluid(name):
    from auxi.tools.materialphysicalproperties import gases, liquids
    return liquids.h2o if name == "water" else gases.materials[name]


def dataset(name):
    from auxi.tools.materialphysicalproperties import gases, liquids
    if name == "water":
        return liquids.h2o_dataset
    d = gases.air_datasets if name == "Air" else gases.nitrogen_datasets
    return d[sorted(d)[-1]]


def magnetic(symbol, Tc, beta0, p):
    """A compound whose only phase has magnetic data."""
    from auxi.tools.chemistry import thermochemistry as th
    return th.Compound({
        "Formula": "Fe", "Reference": "magnetic", "Phases": {symbol: dict(
            phase_data(symbol, 8000.0, 27.3),
            magnetic={"Tc": Tc, "beta0": beta0, "p": p})}})


def phase_data(symbol, H, S):
    return {"Symbol": symbol, "DHref": H, "Sref": S,
            "Cp_records": {"900.0": record(298.15, 900.0),
                           "1811.0": record(900.0, 1811.0)}}


def record(low, high):
    return {"Tmin": low, "Tmax": high, "Terms": [
        {"Coefficient": 23.5, "Exponent": 0.0},
        {"Coefficient": 8.8e-3, "Exponent": 1.0},
        {"Coefficient": 3.1, "Exponent": -1.0}]}


def perform(world, name, args, new=False):
    """Make the call and return its raw result."""
    group, what = name.split(".")
    if group == "st":
        from auxi.tools.chemistry import stoichiometry
        return getattr(stoichiometry, what)(*args)
    if group == "th":
        from auxi.tools.chemistry import thermochemistry as th
        if what == "references":
            return th.get_datafile_references()
        if what == "list":
            return sys.stdout.of(th.list_compounds)
        if what == "magnetic":
            c = world.instance("magnetic/%r" % args[:4], lambda: magnetic(
                *args[:4]), new)
            ph = args[0]
            return [c.get_phase_list()] + [
                f(ph, args[4]) for f in (c.Cp, c.H, c.S, c.G)]
        if what == "phase":
            p = world.instance("phase/%r" % args[:3], lambda: th.Phase(
                phase_data(*args[:3])), new)
            return [str(p), p.name, p.Tref, p.DHref, p.Sref] + [
                f(args[3]) for f in (p.Cp, p.H, p.S, p.G, p.Cp_mag, p.H_mag,
                                     p.S_mag, p.G_mag)]
        if what == "compound":
            formula, phase = args[0].rstrip("]").split("[")
            c = th.compounds[formula]
            return [c.formula, c.molar_mass, c.get_phase_list(),
                    c.get_reference(), c.Cp(phase, args[1]),
                    c.H(phase, args[1]), c.S(phase, args[1]),
                    c.G(phase, args[1])]
        return getattr(th, what)(*args)
    if group == "gas":
        from auxi.tools.materialphysicalproperties import gases
        if what == "prop":
            return getattr(gases.materials[args[0]], args[1])(**args[2])
        cls = {"Wilke": gases.WilkeMuTx, "Herning": gases.HerningZippererMuTx,
               "IdealCp": gases.IdealCpTx}[what]
        return world.instance(what, cls, new)(T=args[0], x=args[1])
    if group == "liquid":
        from auxi.tools.materialphysicalproperties import liquids
        return getattr(liquids.h2o, args[0])(**args[1])
    if group == "ig":
        from auxi.tools.materialphysicalproperties import idealgas as ig
        if what == "BetaT":
            return world.instance(what, ig.BetaT, new)(**args[0])
        if what == "RhoT":
            key = "RhoT/%r/%r" % (args[0], args[1])
            return world.instance(key, lambda: ig.RhoT(args[0], args[1]),
                                  new)(**args[2])
        if what == "RhoTP":
            return world.instance("RhoTP/%r" % args[0],
                                  lambda: ig.RhoTP(args[0]), new)(
                T=args[1], P=args[2])
        return world.instance(what, ig.RhoTPx, new)(
            T=args[0], P=args[1], x=args[2])
    if group == "slag":
        from auxi.tools.materialphysicalproperties import slags
        cls = {"UrbainTx": slags.UrbainViscosityTx,
               "UrbainTy": slags.UrbainViscosityTy,
               "RiboudTx": slags.RiboudViscosityTx,
               "RiboudTy": slags.RiboudViscosityTy}[what]
        kw = {"T": args[0], what[-1]: args[1]}
        return world.instance(what, cls, new)(**kw)
    if group == "coal":
        from auxi.tools.materialphysicalproperties import coals
        cls = {"Cp": coals.DafCpTy, "H": coals.DafHTy}[what]
        kw = dict(zip(("T", "y_C", "y_H", "y_O", "y_N", "y_S"), args))
        return world.instance("coal" + what, cls, new)(**kw)
    if group == "poly":
        from auxi.tools.materialphysicalproperties.polynomial import \
            PolynomialModelT
        key = "poly/%r/%r/%r" % tuple(args[:3])
        m = world.instance(key, lambda: PolynomialModelT.create(
            dataset(args[0]), args[1], args[2]), new)
        return [m.material, m.property, m.symbol, m.display_symbol, m.units,
                list(m.datasets), m(**args[3])]
    if group == "conv":
        from auxi.tools.transportphenomena.heattransfer.naturalconvection \
            import IsothermalFlatSurface
        obj = world.instance("conv/" + args[0], lambda: IsothermalFlatSurface(
            fluid(args[0]), args[0] != "water"), new)
        return getattr(obj, what)(args[1], args[2], args[3], T=args[4])
    if group == "dq":
        from auxi.tools.transportphenomena import dimensionlessquantities
        return getattr(dimensionlessquantities, what)(*args)
    if group == "dp":
        from auxi.tools.transportphenomena.fluidflow import pressuredrop
        fn = getattr(pressuredrop, "\u0394p" if what == "dp" else what)
        return fn(*args)
    if group == "core":
        if what == "get_date":
            from auxi.core.helpers import get_date
            return get_date(args[0])
        if what == "dataset":
            d = dataset(args[0])
            return [str(d), d.name, d.description, list(d.col_names),
                    list(d.col_symbols), list(d.col_units),
                    dict(d.display_symbols_dict), dict(d.names_dict),
                    dict(d.units_dict), d.data.to_csv()]
        from auxi.core.bibliography import db
        return dict(db[args[0]])
    raise ValueError(name)


def outcome(world, call, new=False, runner=None, keep=False):
    """[outcome, raw result, arguments changed]; errors by their kind."""
    name, args = call
    mine = copy.deepcopy(args)
    if keep:
        mine = [world.keep(i, x) for i, x in enumerate(mine)]
    order = [list(a) if isinstance(a, dict) else None for a in mine]
    raw = None
    run = runner or (lambda fn: fn())
    try:
        raw = run(lambda: perform(world, name, mine, new))
        out = ["value", normal(raw)]
    except Exception as e:
        out = ["error", type(e).__name__]
    changed = mine != args or order != [
        list(a) if isinstance(a, dict) else None for a in mine]
    return out, raw, changed


def spoil(x):
    """Change a returned list or dictionary as a caller might."""
    if isinstance(x, dict):
        for k in list(x):
            if not spoil(x[k]):
                x[k] = -1.0
        x["spoilt"] = -1.0
        return True
    if isinstance(x, list):
        for i, v in enumerate(list(x)):
            if not spoil(v):
                x[i] = -1.0
        x.append(-1.0)
        return True
    if isinstance(x, set):
        x.add("spoilt")
        return True
    if hasattr(x, "fill") and getattr(x, "ndim", 0):
        x.fill(-1.0)
        return True
    return False
