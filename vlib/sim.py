"""Builds whole simulations (XML input) from JSON-able descriptions, and drives them."""
import os
import numpy as np
from hypothesis import strategies as st

HERE = os.path.dirname(os.path.abspath(__file__))
VPES = os.path.join(HERE, "vpes.py")
EXACT = "%25.17e"


def num(x):
    return repr(float(x))


def arr(a, **attr):
    """array text with explicit shape"""
    a = np.asarray(a)
    at = "".join(" %s='%s'" % kv for kv in attr.items())
    shape = " shape='(%s)'" % ", ".join(str(s) for s in a.shape) if a.ndim > 1 else ""
    f = str if a.dtype.kind in "UiSb" else num
    return shape + at, "[" + ", ".join(f(x) for x in a.flatten()) + "]"


def tag(name, a, **attr):
    at, tx = arr(a, **attr)
    return "<%s%s>%s</%s>\n" % (name, at, tx, name)


def par_text(par):
    return "{" + ", ".join("%s: %s" % (k, v) for k, v in par.items()) + "}"


def thermostat(t):
    if not t:
        return ""
    s = "<thermostat mode='%s'>\n" % t["mode"]
    for k, v in t.items():
        if k == "mode":
            continue
        if k == "list":
            s += "".join(thermostat(x) for x in v)
        elif isinstance(v, (list, np.ndarray)):
            s += tag(k, v)
        else:
            s += "<%s>%s</%s>\n" % (k, num(v) if isinstance(v, float) else v, k)
    return s + "</thermostat>\n"


def barostat(b):
    if not b:
        return ""
    s = "<barostat mode='%s'>\n" % b["mode"]
    s += thermostat(b.get("thermostat"))
    for k in ("tau",):
        if k in b:
            s += "<tau>%s</tau>\n" % num(b[k])
    if "h0" in b:
        s += tag("h0", b["h0"])
    if "p" in b:
        s += tag("p", b["p"])
    if b.get("hfix"):
        s += "<hfix>[%s]</hfix>\n" % ", ".join(b["hfix"])
    if b.get("vol_constraint"):
        s += "<vol_constraint>True</vol_constraint>\n"
    return s + "</barostat>\n"


def dynamics(c, tagname="dynamics"):
    s = "<%s mode='%s' splitting='%s'>\n<timestep>%s</timestep>\n" % (tagname, c.get("mode", "nve"), c.get("splitting", "obabo"), num(c.get("dt", 1.0)))
    s += thermostat(c.get("thermostat")) + barostat(c.get("barostat"))
    if c.get("nmts"):
        s += tag("nmts", np.array(c["nmts"], int))
    return s + c.get("dynextra", "") + "</%s>\n" % tagname


def motion(c):
    if "motion" in c:
        return c["motion"]
    s = "<motion mode='dynamics'>\n"
    if "fixcom" in c:
        s += "<fixcom>%s</fixcom>\n" % c["fixcom"]
    if c.get("fixatoms"):
        s += tag("fixatoms", np.array(c["fixatoms"], int))
    if c.get("fixatoms_dof"):
        s += tag("fixatoms_dof", np.array(c["fixatoms_dof"], int))
    return s + dynamics(c) + "</motion>\n"


def ffxml(ffs):
    s = ""
    for f in ffs:
        at = "".join(" %s='%s'" % (k, f[k]) for k in ("pbc", "threaded") if k in f)
        s += "<ffdirect name='%s'%s><pes>custom</pes><pes_path>%s</pes_path><parameters>%s</parameters>%s%s</ffdirect>\n" % (
            f["name"], at, VPES, par_text(f["par"]),
            "<offset>%s</offset>" % num(f["offset"]) if "offset" in f else "",
            "<batch_size>%d</batch_size>" % f["batch_size"] if "batch_size" in f else "")
    return s


def forces(fl):
    s = ""
    for f in fl:
        s += "<force forcefield='%s'" % f["ff"]
        for k in ("weight", "nbeads", "fd_epsilon", "name"):
            if k in f:
                s += " %s='%s'" % (k, f[k])
        s += ">"
        if "mts_weights" in f:
            s += tag("mts_weights", np.array(f["mts_weights"], float))
        if f.get("interpolate_extras"):
            s += "<interpolate_extras>[%s]</interpolate_extras>" % ", ".join(f["interpolate_extras"])
        s += "</force>\n"
    return s


def system(c):
    q = np.asarray(c["q"], float)
    nb, n3 = q.shape
    s = "<system%s>\n" % (" prefix='%s'" % c["prefix"] if c.get("prefix") else "")
    if c.get("initialize"):
        s += "<initialize nbeads='%d'>%s</initialize>\n" % (nb, c["initialize"])
    if not c.get("nobeads"):
        s += "<beads natoms='%d' nbeads='%d'>\n" % (n3 // 3, nb)
        s += tag("q", q)
        s += tag("p", np.asarray(c["p"], float).reshape(q.shape))
        s += tag("m", np.asarray(c["m"], float))
        s += "<names>[%s]</names>\n</beads>\n" % ", ".join(c.get("names") or ["H"] * (n3 // 3))
    s += tag("cell", np.asarray(c.get("cell", np.eye(3) * 20.0), float))
    s += "<forces>%s</forces>\n" % forces(c["forces"])
    s += "<ensemble>\n"
    if c.get("temp") is not None:
        s += "<temperature>%s</temperature>\n" % num(c["temp"])
    if c.get("pressure") is not None:
        s += "<pressure>%s</pressure>\n" % num(c["pressure"])
    if c.get("stress") is not None:
        s += tag("stress", np.asarray(c["stress"], float))
    if c.get("bias"):
        s += "<bias>%s</bias>\n" % forces(c["bias"])
    if c.get("bias_weights"):
        s += tag("bias_weights", np.asarray(c["bias_weights"], float))
    if c.get("hamiltonian_weights"):
        s += tag("hamiltonian_weights", np.asarray(c["hamiltonian_weights"], float))
    s += "</ensemble>\n"
    nm = c.get("nm")
    if nm:
        s += "<normal_modes%s>" % "".join(" %s='%s'" % (k, nm[k]) for k in ("transform", "propagator", "fft_threads", "fft_float32") if k in nm)
        if "frequencies" in nm:
            s += "<frequencies style='%s'>[%s]</frequencies>" % (nm["frequencies"][0], ", ".join(num(x) for x in nm["frequencies"][1]))
        if nm.get("open_paths"):
            s += tag("open_paths", np.array(nm["open_paths"], int))
        if nm.get("bosons"):
            s += "<bosons id='index'>[%s]</bosons>" % ", ".join(map(str, nm["bosons"]))
        if nm.get("nmts"):
            s += "<nmts>%d</nmts>" % nm["nmts"]
        s += "</normal_modes>\n"
    s += motion(c) + "</system>\n"
    return s


def build(c):
    """XML for a description: one system (keys inline) or c['systems']."""
    at = "".join(" %s='%s'" % (k, c[k]) for k in ("threading", "safe_stride", "sockets_prefix") if k in c)
    s = "<simulation verbosity='%s' floatformat='%s'%s%s>\n" % (c.get("verbosity", "quiet"), c.get("floatformat", EXACT), at,
                                                             " mode='%s'" % c["simmode"] if "simmode" in c else "")
    s += c.get("output", "<output prefix='sim'></output>\n")
    if "step" in c:
        s += "<step>%d</step>" % c["step"]
    s += "<total_steps>%d</total_steps>\n" % c.get("total_steps", 1000)
    s += "<prng><seed>%d</seed></prng>\n" % c.get("seed", 12345) if "prng" not in c else c["prng"]
    s += ffxml(c["ffs"]) if isinstance(c["ffs"], list) else c["ffs"]
    for sc in c.get("systems", [c]):
        s += system(sc)
    s += c.get("smotion", "")
    return s + "</simulation>\n"


def make(c, **kw):
    from ipi.scripting import InteractiveSimulation

    return InteractiveSimulation(build(c) if isinstance(c, dict) else c, **kw)


def load(xml):
    from ipi.engine.simulation import Simulation

    return Simulation.load_from_xml(xml)


def state(sim, i=0):
    s = sim.syslist[i]
    return dict(q=np.array(s.beads.q), p=np.array(s.beads.p), h=np.array(s.cell.h), m=np.array(s.beads.m), econs=float(s.ensemble.econs),
                time=float(s.ensemble.time))


# ---- generators ------------------------------------------------------------------------------
def floats(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False).map(lambda x: float("%.6g" % x))


def unit_vec(n, lo=-1.0, hi=1.0):
    return st.lists(floats(lo, hi), min_size=n, max_size=n)


@st.composite
def matter(draw, max_atoms=4, max_beads=6, min_beads=1, min_atoms=1, cell=True, spread=1.0):
    """positions/momenta/masses/cell/temperature.  Momenta near thermal so that dynamics stays gentle."""
    n = draw(st.integers(min_atoms, max_atoms))
    P = draw(st.integers(min_beads, max_beads))
    m = draw(st.lists(floats(800.0, 8000.0), min_size=n, max_size=n))
    T = draw(floats(2e-4, 3e-3))
    cen = np.array(draw(unit_vec(3 * n))) * spread
    flu = np.array(draw(unit_vec(3 * n * P))).reshape(P, 3 * n) * 0.15 * (P > 1)
    v = np.array(draw(unit_vec(3 * n * P, -1.5, 1.5))).reshape(P, 3 * n)
    m3 = np.repeat(m, 3)
    d = dict(q=(cen + flu).tolist(), p=(v * np.sqrt(m3 * T * P)).tolist(), m=m, temp=T,
             names=draw(st.lists(st.sampled_from(["H", "O", "C", "X1"]), min_size=n, max_size=n)))
    if cell:
        a = draw(unit_vec(3, 8.0, 14.0))
        o = draw(unit_vec(3, -2.0, 2.0))
        d["cell"] = [[a[0], o[0], o[1]], [0.0, a[1], o[2]], [0.0, 0.0, a[2]]]
    return d


def pes_par(cellterm=False, pair=True):
    kw = dict(k=floats(0.005, 0.08), c=floats(0.0, 0.02), g=floats(-0.01, 0.01))
    if pair:
        kw.update(A=floats(0.0, 0.05), s=floats(0.8, 2.0))
    if cellterm:
        kw.update(bc=floats(0.02, 0.3), v0=floats(0.9, 1.1).map(lambda x: x * (cellterm if cellterm is not True else 1200.0)), gc=floats(1e-5, 3e-4))
    return st.fixed_dictionaries(kw)


@st.composite
def gle_A(draw, ns=None):
    ns = ns or draw(st.integers(1, 2))
    A = np.diag(np.array(draw(unit_vec(ns + 1, 2e-3, 2e-2))))
    for i in range(1, ns + 1):
        x = draw(floats(-1e-2, 1e-2))
        A[0, i], A[i, 0] = x, -x
    return A.tolist()


THERMO = ["langevin", "svr", "pile_l", "pile_g", "gle", "nm_gle", "nm_gle_g", "cl", "ffl", "multi"]


@st.composite
def thermo(draw, P, kinds=None, T=1e-3, withC=True):
    k = draw(st.sampled_from(kinds or THERMO))
    tau = draw(floats(20.0, 500.0))
    if k in ("langevin", "svr"):
        return dict(mode=k, tau=tau)
    if k in ("pile_l", "pile_g"):
        d = dict(mode=k, tau=tau)
        if draw(st.booleans()):
            d["pile_lambda"] = draw(floats(0.2, 2.0))
        if draw(st.booleans()):
            d["pile_centroid_t"] = T * draw(floats(0.5, 2.0))
        return d
    if k == "gle":
        A = draw(gle_A())
        d = dict(mode=k, A=A)
        if withC and draw(st.booleans()):
            d["C"] = (np.eye(len(A)) * T * P * draw(floats(0.5, 2.0))).tolist()
        return d
    if k in ("nm_gle", "nm_gle_g"):
        ns = draw(st.integers(1, 2))
        d = dict(mode=k, A=[draw(gle_A(ns)) for _ in range(P)])
        if k == "nm_gle_g":
            d["tau"] = tau
        if withC and draw(st.booleans()):
            d["C"] = [(np.eye(ns + 1) * T * P * (1 + 0.1 * i)).tolist() for i in range(P)]
        return d
    if k == "cl":
        return dict(mode=k, tau=tau, intau=draw(floats(100.0, 2000.0)), idtau=draw(st.sampled_from([0.0, 500.0])), apat=draw(st.sampled_from([0.0, 300.0])))
    if k == "ffl":
        return dict(mode=k, tau=tau, flip=draw(st.sampled_from(["soft", "hard", "rescale", "none"])))
    if k == "multi":
        return dict(mode=k, list=[draw(thermo(P, ["langevin", "svr", "pile_l", "gle"], T)) for _ in range(draw(st.integers(1, 2)))])
    raise ValueError(k)


@st.composite
def baro(draw, cell, kinds):
    k = draw(st.sampled_from(kinds))
    b = dict(mode=k, tau=draw(floats(400.0, 2000.0)))
    t = draw(st.sampled_from(["none", "langevin", "svr", "gle"]))
    if t in ("langevin", "svr"):
        b["thermostat"] = dict(mode=t, tau=draw(floats(50.0, 500.0)))
    elif t == "gle":
        b["thermostat"] = dict(mode="gle", A=draw(gle_A()))
    if k == "anisotropic":
        b["h0"] = (np.array(cell) * draw(floats(0.97, 1.03))).tolist()
    if k in ("flexible", "anisotropic"):
        b["hfix"] = draw(st.lists(st.sampled_from(["xx", "yy", "zz", "xy", "xz", "yz", "offdiagonal"]), max_size=3, unique=True))
        if k == "flexible" and draw(st.integers(0, 3)) == 0:
            b["vol_constraint"] = True
            b["hfix"] = [x for x in b["hfix"] if x not in ("xx", "yy", "zz")]
    if k == "flexible" or k == "anisotropic":
        b["p"] = (np.array(draw(unit_vec(9))).reshape(3, 3) * np.triu(np.ones((3, 3)))).tolist() if draw(st.booleans()) else None
    else:
        b["p"] = [draw(floats(-5.0, 5.0))] if draw(st.booleans()) else None
    if b["p"] is None or b.get("hfix") or b.get("vol_constraint"):
        del b["p"]
    return b


@st.composite
def md_case(draw, modes=("nve", "nvt", "npt", "nst", "sc", "scnpt", "nvt-cc"), thermos=None, max_atoms=3, max_beads=5, mts=True, min_beads=1, baros=None):
    mode = draw(st.sampled_from(list(modes)))
    sc = mode in ("sc", "scnpt")
    c = draw(matter(max_atoms=max_atoms, max_beads=max_beads, min_beads=max(min_beads, 2 if mode == "nvt-cc" else 1)))
    P = len(c["q"])
    if sc and P % 2:
        P = P + 1
        c["q"] = c["q"] + [c["q"][0]]
        c["p"] = c["p"] + [c["p"][0]]
    c["mode"] = mode
    c["splitting"] = draw(st.sampled_from(["obabo", "baoab"])) if mode != "nve" else "obabo"
    c["dt"] = draw(floats(2.0, 12.0))
    c["fixcom"] = draw(st.booleans()) and len(c["m"]) > 1
    T = c["temp"]
    npt = mode in ("npt", "nst", "scnpt")
    c["ffs"] = [dict(name="ffa", par=draw(pes_par(cellterm=float(np.linalg.det(c["cell"])) if npt else False)))]
    c["forces"] = [dict(ff="ffa")]
    if mts and mode in ("nve", "nvt", "npt", "sc") and draw(st.integers(0, 3)) == 0:
        c["ffs"].append(dict(name="ffb", par=draw(pes_par(cellterm=False))))
        w = draw(floats(0.2, 1.0))
        c["forces"] = [dict(ff="ffa", mts_weights=[1.0, 0.0]), dict(ff="ffb", weight=w, mts_weights=[draw(floats(0.0, 0.5)), 1.0])]
        c["nmts"] = [1, draw(st.integers(1, 4))]
    if mode != "nve":
        c["thermostat"] = t = draw(thermo(P, thermos, T))
        # listed findings C03-cl-parity and C03-svr-roundoff (known_findings.jsonl)
        if t["mode"] == "cl" and t["apat"] > 0 and t["idtau"] == 0.0:
            c["splitting"] = "obabo"
        if mode == "nvt-cc" and t["mode"] in ("pile_g", "nm_gle_g"):
            c["thermostat"] = dict(mode="pile_l", tau=t["tau"])
    n = len(c["m"])
    if n > 1 and mode in ("nve", "nvt") and draw(st.integers(0, 3)) == 0:
        tm = (c.get("thermostat") or {}).get("mode", "")
        if tm != "nm_gle_g":
            c["fixatoms"] = [draw(st.integers(0, n - 1))]
            c["fixcom"] = False
    if npt:
        c["pressure"] = draw(floats(-1e-4, 1e-4))
        bk = {"npt": ["isotropic", "flexible", "anisotropic"], "nst": ["anisotropic"], "scnpt": ["sc-isotropic"]}[mode]
        c["barostat"] = draw(baro(c["cell"], [b for b in bk if not baros or b in baros]))
        if mode == "nst" or c["barostat"]["mode"] == "anisotropic":
            x = np.array(draw(unit_vec(6))) * 1e-4
            c["stress"] = [[x[0], x[3], x[4]], [0.0, x[1], x[5]], [0.0, 0.0, x[2]]]
    if P > 1 and draw(st.booleans()):
        c["nm"] = dict(transform=draw(st.sampled_from(["fft", "matrix"])), propagator=draw(st.sampled_from(["exact", "cayley", "bab"])))
        if c["nm"]["propagator"] == "bab":
            c["nm"]["nmts"] = draw(st.integers(1, 5))
        elif mode in ("nve", "nvt", "nvt-cc") and draw(st.booleans()):
            s = draw(st.sampled_from(["pa-cmd", "manual", "wmax-cmd"]))
            fr = draw(unit_vec(P - 1, 5e-3, 2e-2))
            c["nm"]["frequencies"] = [s, fr if s == "manual" else fr[:1] if s == "pa-cmd" else [2e-2, 1e-2]]
    c["seed"] = draw(st.integers(1, 10**6))
    return c


def cli_run(xml, total=None):
    """What the command line program does: load, run, soft exit. Returns the simulation object."""
    from ipi.utils.softexit import softexit
    from vlib import env

    s = load(xml)
    if total is not None:
        s.tsteps = total
    s.run()
    try:
        softexit.trigger(status=s.exit_status, message=s.exit_message)
    except SystemExit:
        pass
    env.reset()
    return s
