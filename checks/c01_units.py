"""C01: unit conversions agree with the SI definition of the units, in every place a unit can be written."""
import os, sys, math
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np

PREFIX = {"": 0, "yotta": 24, "zetta": 21, "exa": 18, "peta": 15, "tera": 12, "giga": 9, "mega": 6,
          "kilo": 3, "milli": -3, "micro": -6, "nano": -9, "pico": -12, "femto": -15, "atto": -18,
          "zepto": -21, "yocto": -24}
# CODATA 2018, SI
Eh, a0, me, hbar, e, kB, NA, c = (4.3597447222071e-18, 5.29177210903e-11, 9.1093837015e-31,
    1.054571817e-34, 1.602176634e-19, 1.380649e-23, 6.02214076e23, 299792458.0)
t_au = hbar / Eh
amu = 1.66053906660e-27
ang = 1e-10
REF = {
    "energy": {"electronvolt": e / Eh, "j/mol": 1 / NA / Eh, "cal/mol": 4.1868 / NA / Eh, "kelvin": kB / Eh},
    "temperature": {"kelvin": kB / Eh},
    "time": {"second": 1 / t_au},
    "frequency": {"inversecm": 2 * math.pi * c * 100 * t_au, "hertz*rad": t_au, "hertz": 2 * math.pi * t_au,
                  "hz": 2 * math.pi * t_au, "thz": 2e12 * math.pi * t_au},
    "electric-field": {"v/ang": (e / ang) / (Eh / a0)},
    "electric-dipole": {"eang": ang / a0, "debye": 3.33564095e-30 / (e * a0)},
    "ms-momentum": {},
    "length": {"angstrom": ang / a0, "meter": 1 / a0, "radian": 1.0, "degree": math.pi / 180},
    "action": {"joule*second": 1 / hbar},
    "volume": {"angstrom3": (ang / a0) ** 3},
    "velocity": {"m/s": t_au / a0},
    "momentum": {},
    "mass": {"dalton": amu / me, "electronmass": 1.0},
    "pressure": {"bar": 1e5 * a0 ** 3 / Eh, "atmosphere": 101325 * a0 ** 3 / Eh, "pascal": a0 ** 3 / Eh,
                 "ev/ang3": e / Eh * (a0 / ang) ** 3},
    "density": {"g/cm3": 1e-3 / me * (a0 / 1e-2) ** 3},
    "force": {"newton": a0 / Eh, "ev/ang": (e / Eh) * (a0 / ang)},
    "hessian": {"ev/ang^2": (e / Eh) * (a0 / ang) ** 2},
    "undefined": {},
}
# units of the ASE package: eV, Angstrom, amu as base
ASE = {"energy": REF["energy"]["electronvolt"], "length": REF["length"]["angstrom"], "mass": REF["mass"]["dalton"]}
ASE["time"] = ASE["length"] * (ASE["mass"] / ASE["energy"]) ** 0.5
ASE["velocity"] = ASE["length"] / ASE["time"]
ASE["force"] = ASE["energy"] / ASE["length"]
ASE["volume"] = ASE["length"] ** 3
ASE["frequency"] = 1 / ASE["time"]
ASE["action"] = ASE["energy"] * ASE["time"]
ASE["pressure"] = ASE["energy"] / ASE["volume"]
ASE["momentum"] = ASE["mass"] * ASE["velocity"]
ASE["density"] = ASE["mass"] / ASE["volume"]
ASE["hessian"] = ASE["energy"] / ASE["length"] ** 2
ASE["electric-dipole"] = ASE["length"]
ASE["electric-field"] = ASE["force"]
ASE["temperature"] = REF["temperature"]["kelvin"]
for k in REF:
    for n in ("", "automatic", "atomic_unit"):
        REF[k][n] = 1.0
    if k in ASE:
        REF[k]["ase"] = ASE[k]
REF["undefined"]["ase"] = 1.0
PAIRS = [(f, u) for f in sorted(REF) for u in sorted(REF[f])]
RTOL = 6e-6   # the tables of the package carry eight digits of older CODATA sets
# docs/src/units.rst documents the atomic unit of pressure as 2.9421912e13 Pa (CODATA: 2.9421016e13)
LOOSE = {("pressure", "bar"), ("pressure", "atmosphere"), ("pressure", "pascal")}


def tol_of(case):
    return 4e-5 if (case["family"], case["unit"]) in LOOSE or (case["family"], case.get("unit2")) in LOOSE else RTOL


def close(a, b, tol=RTOL):
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b))


num = st.one_of(st.integers(-10 ** 6, 10 ** 6).map(float), st.floats(1e-20, 1e12), st.floats(1e-20, 1e12).map(lambda x: -x),
                st.floats(1e-30, 1e-9))


@st.composite
def conv(draw):
    f, u = draw(st.sampled_from(PAIRS))
    p = "" if u in ("", "automatic") else draw(st.sampled_from(sorted(PREFIX)))
    style = draw(st.sampled_from(["lower", "lower", "upper", "title"]))
    pad = draw(st.sampled_from(["", "", " ", "  "]))
    x = draw(num)
    f2, u2 = draw(st.sampled_from([q for q in PAIRS if q[0] == f]))
    return dict(family=f, unit=u, prefix=p, style=style, pad=pad, x=x, unit2=u2)


def ref(case):
    return REF[case["family"]][case["unit"]] * 10.0 ** PREFIX[case["prefix"]]


def unit_string(case):
    return case["pad"] * (case["unit"] != "") + case["prefix"] + getattr(case["unit"], case["style"])()


def t_convert(case):
    from ipi.utils.units import unit_to_internal, unit_to_user
    u = unit_string(case)
    k = ref(case)
    x = case["x"]
    got = unit_to_internal(case["family"], u, x)
    require(close(got, x * k, tol_of(case)), "%g %r of kind %s became %r internal units, SI says %r", x, u, case["family"], got, x * k)
    back = unit_to_user(case["family"], u, got)
    require(close(back, x, 1e-12), "%r: %r -> internal -> user gives %r", u, x, back)
    got = unit_to_user(case["family"], u, x)
    require(close(got, x / k, tol_of(case)), "internal %g to %r of kind %s gave %r, SI says %r", x, u, case["family"], got, x / k)
    # conversion between two user units goes through internal units consistently
    v = unit_to_user(case["family"], case["unit2"], unit_to_internal(case["family"], u, x))
    require(close(v, x * k / REF[case["family"]][case["unit2"]], 2 * tol_of(case)), "%r -> %r", u, case["unit2"])
    a = np.array([x, 2 * x, -x])
    ga = unit_to_internal(case["family"], u, a)
    require(np.allclose(ga, a * k, rtol=tol_of(case), atol=0), "array conversion differs from scalar conversion")
    require(unit_to_internal("number", u, x) == x, "pure numbers must not be converted")
    return None if (case["unit"] in ("", "automatic", "atomic_unit") and not case["prefix"]) or x == 0 else case["family"]


@st.composite
def bad(draw):
    f = draw(st.sampled_from(sorted(REF)))
    kind = draw(st.sampled_from(["unknown", "otherkind", "badfamily", "twoprefix"]))
    other = draw(st.sampled_from(PAIRS))
    junk = draw(st.text("bcdfghlnrsvwxz_", min_size=3, max_size=8))
    return dict(family=f, kind=kind, other=list(other), junk=junk, p=draw(st.sampled_from(sorted(PREFIX))))


def t_reject(case):
    from ipi.utils.units import unit_to_internal
    f = case["family"]
    if case["kind"] == "unknown":
        u = case["p"] + case["junk"]
        if case["junk"] in REF[f]:
            raise Skip()
    elif case["kind"] == "otherkind":
        u = case["other"][1]
        if u in REF[f]:
            raise Skip()
    elif case["kind"] == "twoprefix":
        u = "kilo" + "mega" + case["junk"]
    else:
        f, u = case["junk"], "atomic_unit"
        if f in REF or f == "number":
            raise Skip()
    try:
        v = unit_to_internal(f, u, 1.0)
    except (ValueError, TypeError, IndexError, KeyError):
        return case["kind"]
    raise Violation("unit %r accepted for kind %r, giving %r" % (u, f, v))


# --- units written in the input file and in output specifications ----------------------------
INPUTS = [("timestep", "time", "system/motion/dynamics"), ("temperature", "temperature", "system/ensemble"),
          ("pressure", "pressure", "system/ensemble"), ("tau", "time", "thermostat"), ("h", "length", "cell"),
          ("m", "mass", "beads"), ("q", "length", "beads"), ("p", "momentum", "beads"), ("freqs", "frequency", "nm")]


@st.composite
def xmlcase(draw):
    tag, fam, where = draw(st.sampled_from(INPUTS))
    u = draw(st.sampled_from(sorted(x for x in REF[fam] if x not in ("radian", "degree"))))
    p = "" if u in ("", "automatic") else draw(st.sampled_from(sorted(PREFIX)))
    xs = draw(st.lists(st.floats(0.01, 1e4), min_size=9, max_size=9))
    return dict(tag=tag, family=fam, unit=u, prefix=p, style=draw(st.sampled_from(["lower", "title"])), pad="", xs=xs)


def t_input(case):
    """A quantity written with units in the input is the SI-converted value in the built object."""
    from ipi.utils.io.inputs.io_xml import xml_parse_string
    k = ref(case)
    us = unit_string(case)
    att = " units='%s'" % us if us else ""
    xs = case["xs"]
    tag = case["tag"]

    def build(cls, xml):
        o = cls()
        o.parse(xml_parse_string(xml).fields[0][1])
        return o

    arr = "[" + ",".join(repr(x) for x in xs[:3]) + "]"
    if tag == "timestep":
        from ipi.inputs.motion.dynamics import InputDynamics
        o = build(InputDynamics, "<dynamics mode='nve'><timestep%s>%r</timestep></dynamics>" % (att, xs[0]))
        got, want = o.timestep.fetch(), xs[0] * k
    elif tag in ("temperature", "pressure"):
        from ipi.inputs.ensembles import InputEnsemble
        o = build(InputEnsemble, "<ensemble><%s%s>%r</%s></ensemble>" % (tag, att, xs[0], tag)).fetch()
        got, want = (o.temp if tag == "temperature" else o.pext), xs[0] * k
    elif tag == "tau":
        from ipi.inputs.thermostats import InputThermo
        o = build(InputThermo, "<thermostat mode='langevin'><tau%s>%r</tau></thermostat>" % (att, xs[0])).fetch()
        got, want = o.tau, xs[0] * k
    elif tag == "h":
        from ipi.inputs.cell import InputCell
        H = [xs[0], xs[1], xs[2], 0, xs[3], xs[4], 0, 0, xs[5]]
        o = build(InputCell, "<cell%s shape='(3,3)'>[%s]</cell>" % (att, ",".join(map(repr, H)))).fetch()
        got, want = np.array(o.h).flatten(), np.array(H) * k
    elif tag in ("m", "q", "p"):
        from ipi.inputs.beads import InputBeads
        extra = "".join("<%s shape='(1,3)'>[1.,1.,1.]</%s>" % (x, x) for x in "qp" if x != tag)
        if tag != "m":
            extra += "<m>[1.0]</m>"
            main = "<%s shape='(1,3)'%s>%s</%s>" % (tag, att, arr, tag)
        else:
            main = "<m%s>[%r]</m>" % (att, xs[0])
        o = build(InputBeads, "<beads natoms='1' nbeads='1'>%s%s<names>[H]</names></beads>" % (main, extra)).fetch()
        got, want = np.array(getattr(o, tag)).flatten(), np.array(xs[:3] if tag != "m" else xs[:1]) * k
    else:
        from ipi.inputs.normalmodes import InputNormalModes
        o = build(InputNormalModes, "<normal_modes><frequencies%s style='pa-cmd'>%s</frequencies></normal_modes>" % (att, arr))
        got, want = o.frequencies.fetch()[1] if isinstance(o.frequencies.fetch(), tuple) else o.frequencies.fetch(), np.array(xs[:3]) * k
    require(np.allclose(np.asarray(got, float), want, rtol=tol_of(case), atol=0),
            "input tag <%s units=%r> of %r gave %r internally, SI says %r", tag, us, xs, got, want)
    return tag + ":" + (case["prefix"] and "prefix" or "plain")


import functools


@functools.lru_cache(None)
def _masses():
    from ase.data import atomic_masses, chemical_symbols
    return {s: float(m) for s, m in zip(chemical_symbols[1:93], atomic_masses[1:93])}


ISO = {"D": 2.0141017778, "T": 3.0160492777, "He3": 3.0160293191, "Li6": 6.015122795,
       "C12": 12.0, "C13": 13.0033548, "C14": 14.003241989, "O17": 16.9991317, "O18": 17.999161,
       "Cl37": 36.96590259, "Br81": 80.9162906}


def t_mass(case):
    from ipi.utils.units import Elements
    s = case["symbol"]
    want = ISO.get(s) or _masses()[s]
    got = Elements.mass(s) * me / amu
    tol = 1e-5 if s in ISO else 1e-3
    require(abs(got - want) <= tol * want, "mass of %s is %.6f Da, standard value %.6f", s, got, want)
    return "isotope" if s in ISO else "element"


# elements up to uranium with a standard atomic weight on which ASE and the package's (1997) table agree to 1e-3
def symbols():
    from ipi.utils.units import Elements
    return [s for s in _masses() if s in Elements.mass_list and s not in SKIP] + [s for s in ISO if s in Elements.mass_list]


SKIP = set()

if __name__ == "__main__":
    from vlib import env
    env.preload()
    SYM = sorted(set(symbols()))
    subs = [
        Sub("convert", conv(), t_convert, quick=3000, thorough=60000, shards=2, tshards=8),
        Sub("reject", bad(), t_reject, quick=600, thorough=10000),
        Sub("input", xmlcase(), t_input, quick=1500, thorough=20000, shards=2, tshards=8, cost=4),
        Sub("mass", st.sampled_from(SYM).map(lambda s: dict(symbol=s)), t_mass, quick=600, thorough=600),
    ]
    main("C01", subs, rule="a case is a (kind, prefix, unit, spelling, number) tuple drawn from the full table of documented "
         "units; non-trivial if the conversion factor is not the identity and the number is not 0",
         assumptions=["CODATA 2018 as the definition of the atomic units; calories are IT calories (4.1868 J)",
                      "agreement to 6e-6 relative: the package's table carries about eight digits"])
