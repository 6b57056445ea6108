"""C03: a run that is stopped and continued from its restart file follows the same trajectory as one that never stopped."""
import os, sys, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim
import numpy as np
import xml.etree.ElementTree as ET

OUT = """<output prefix='sim'>
<properties filename='out' stride='1'>[step, time{atomic_unit}, conserved{atomic_unit}, potential{atomic_unit}, kinetic_md{atomic_unit}, cell_h{atomic_unit}]</properties>
<trajectory filename='pos' stride='2' format='xyz'>positions{atomic_unit}</trajectory>
<checkpoint filename='chk' stride='%d' overwrite='False'/>
</output>
"""


def nums(path):
    """every number of a text file, non-numeric tokens kept as strings; header lines kept"""
    out = []
    for line in open(path):
        for t in line.split():
            t2 = t.rstrip(",")
            try:
                out.append(float(t2))
            except ValueError:
                out.append(t)
    return out


def same_file(a, b, tol, what):
    x, y = nums(a), nums(b)
    require(len(x) == len(y), "%s: %d tokens in one go, %d when split", what, len(x), len(y))
    for i, (u, v) in enumerate(zip(x, y)):
        if isinstance(u, float) and isinstance(v, float):
            if not (abs(u - v) <= tol * max(1e-3, abs(u)) or (u != u and v != v)):
                raise Violation("%s: value %d is %.12g in one go, %.12g when stopped and continued" % (what, i, u, v))
        else:
            require(u == v, "%s: token %d is %r vs %r", what, i, u, v)


def fullstate(s):
    d = {}
    for i, y in enumerate(s.syslist):
        d["q%d" % i] = np.array(y.beads.q)
        d["p%d" % i] = np.array(y.beads.p)
        d["h%d" % i] = np.array(y.cell.h)
        d["names%d" % i] = [str(x) for x in y.beads.names]
        d["m%d" % i] = np.array(y.beads.m)
        d["time%d" % i] = float(y.ensemble.time)
        d["temp%d" % i] = float(y.ensemble.temp)
        d["pext%d" % i] = float(y.ensemble.pext)
        d["econs%d" % i] = float(y.ensemble.econs)
    d["rng"] = json.loads(json.dumps(s.prng.state, default=lambda o: o.tolist() if hasattr(o, "tolist") else str(o)))
    return d


def same_state(a, b, tol):
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray):
            require(x.shape == y.shape, "%s has shape %r in one go, %r when continued", k, x.shape, y.shape)
            sc = np.abs(x).max() if x.size else 1.0
            err = np.abs(x - y).max() if x.size else 0.0
            require(err <= tol * max(sc, 1e-3), "final %s differs by %.3g (scale %.3g) after stopping and continuing", k, err, sc)
        elif isinstance(x, float):
            require(abs(x - y) <= tol * max(abs(x), 1e-3) or (x != x and y != y), "final %s is %.12g in one go, %.12g after stopping and continuing", k, x, y)
        elif k == "rng":
            require(x == y, "the random number generator is in a different state after stopping and continuing")
        else:
            require(x == y, "final %s: %r vs %r", k, x, y)


def compare(case, xmlf, tol=1e-7):
    """xmlf(total) -> XML.  One run of n steps against pieces cut at the given points."""
    n, cuts = case["n"], sorted(set(x for x in case["cuts"] if 0 < x < case["n"]))
    os.mkdir("one")
    os.mkdir("split")
    os.chdir("one")
    with np.errstate(all="ignore"):
        A = fullstate(sim.cli_run(xmlf(n)))
    if any(not np.isfinite(v).all() or np.abs(v).max(initial=0.0) > 1e6 for k, v in A.items() if k[0] in "qpe" and k[:2] != "pe"):
        raise Skip("the trajectory explodes")
    os.chdir("../split")
    how = case["how"]
    doc = None
    for i, stop in enumerate(cuts + [n]):
        if doc is None:
            s = sim.cli_run(xmlf(stop))
        else:
            root = ET.fromstring(doc)
            t = root.find("total_steps")
            require(t is not None, "the restart file does not record total_steps")
            t.text = str(stop)
            doc = ET.tostring(root, encoding="unicode")
            s = sim.cli_run(doc)
        if stop != n:
            f = "RESTART"
            if how == "chk":
                f = [x for x in os.listdir(".") if x.startswith("sim.chk_") and not x.endswith("#")]
                ok = []
                for x in f:
                    m = re.search(r"<step>\s*(\d+)\s*</step>", open(x).read())
                    if m and int(m.group(1)) == stop:
                        ok.append(x)
                require(len(ok) >= 1, "no checkpoint for step %d among %r", stop, f)
                f = ok[0]
            doc = open(f).read()
    B = fullstate(s)
    same_state(A, B, tol)
    os.chdir("..")
    for f in sorted(os.listdir("one")):
        if f.startswith("sim.") and not f.startswith("sim.chk") and not f.startswith("#"):
            require(os.path.exists("split/" + f), "output %s is missing when split", f)
            same_file("one/" + f, "split/" + f, tol, f)
    return len(cuts)


@st.composite
def cuts(draw):
    n = draw(st.integers(2, 9))
    return dict(n=n, cuts=draw(st.lists(st.integers(1, n - 1), min_size=1, max_size=2, unique=True)), how=draw(st.sampled_from(["RESTART", "chk"])))


@st.composite
def md(draw):
    c = draw(sim.md_case())
    c.update(draw(cuts()))
    c["threading"] = draw(st.sampled_from(["True", "False"]))
    return c


def t_md(case):
    def xmlf(total):
        return sim.build(dict(case, total_steps=total, output=OUT % 1))
    k = compare(case, xmlf)
    return "%s:%s%s" % (case["mode"], (case.get("thermostat") or {}).get("mode", "-"), ":" + case["barostat"]["mode"] if "barostat" in case else "")



MOT = ["t_ramp", "p_ramp", "alchemy", "atomswap"]


@st.composite
def multi(draw):
    """several motions run one after the other in every step"""
    c = draw(sim.md_case(modes=("nve", "nvt", "npt"), max_beads=4))
    n = len(c["m"])
    extra = draw(st.lists(st.sampled_from(MOT), min_size=1, max_size=2, unique=True))
    ms = []
    for e in extra:
        if e == "t_ramp":
            ms.append("<motion mode='t_ramp'><t_ramp><t_start>%r</t_start><t_end>%r</t_end><total_steps>%d</total_steps><logscale>%s</logscale></t_ramp></motion>" % (
                c["temp"], c["temp"] * draw(sim.floats(0.5, 2.0)), draw(st.integers(1, 12)), draw(st.booleans())))
        elif e == "p_ramp":
            ms.append("<motion mode='p_ramp'><p_ramp><p_start>%r</p_start><p_end>%r</p_end><total_steps>%d</total_steps><logscale>%s</logscale></p_ramp></motion>" % (
                draw(sim.floats(1e-5, 1e-4)), draw(sim.floats(1e-5, 1e-4)), draw(st.integers(1, 12)), draw(st.booleans())))
        else:
            if len(set(c["names"])) < 2 or c.get("fixatoms"):
                continue
            ms.append("<motion mode='%s'><%s><names>[%s]</names><nxc>%r</nxc></%s></motion>" % (
                e, e, ", ".join(sorted(set(c["names"]))), draw(sim.floats(0.3, 3.0)), e))
    if any("p_ramp" in m for m in ms) and c.get("pressure") is None:
        c["pressure"] = 1e-5
    dyn = sim.motion(c)
    pos = draw(st.integers(0, len(ms)))
    c["motion"] = "<motion mode='multi'>" + "".join(ms[:pos]) + dyn + "".join(ms[pos:]) + "</motion>"
    c["extra"] = [m.split("'")[1] for m in ms]
    c.update(draw(cuts()))
    return c


def t_multi(case):
    compare(case, lambda total: sim.build(dict(case, total_steps=total, output=OUT % 1)))
    return "+".join(sorted(case["extra"])) or None


@st.composite
def geop(draw):
    mode = draw(st.sampled_from(["bfgs", "bfgstrm", "lbfgs", "sd", "cg", "damped_bfgs"]))
    c = draw(sim.matter(max_atoms=3, max_beads=1, min_beads=1))
    c["ffs"] = [dict(name="ffa", par=draw(sim.pes_par()))]
    c["forces"] = [dict(ff="ffa")]
    c["geop"] = mode
    n = len(c["m"])
    c["fix"] = [draw(st.integers(0, n - 1))] if n > 1 and draw(st.integers(0, 3)) == 0 else []
    m = "<motion mode='minimize'><optimizer mode='%s'><tolerances><energy>1e-10</energy><force>1e-7</force><position>1e-7</position></tolerances>" % mode
    if mode in ("bfgs", "bfgstrm", "lbfgs", "damped_bfgs"):
        m += "<biggest_step>%r</biggest_step>" % draw(st.sampled_from([0.1, 0.5, 2.0]))
    if mode == "lbfgs":
        m += "<corrections_lbfgs>%d</corrections_lbfgs><scale_lbfgs>%d</scale_lbfgs>" % (draw(st.integers(2, 6)), draw(st.sampled_from([0, 1, 2])))
    if mode in ("sd", "cg"):
        m += "<ls_options><tolerance>1e-3</tolerance><iter>40</iter><step>%r</step><adaptive>%r</adaptive></ls_options>" % (draw(st.sampled_from([1e-3, 1e-2])), draw(st.sampled_from([0.0, 0.5, 1.0])))
    m += "</optimizer>"
    if c["fix"]:
        m += "<fixatoms>%r</fixatoms>" % c["fix"]
    c["motion"] = m + "</motion>"
    d = draw(cuts())
    d["n"] = min(d["n"], 5)
    d["cuts"] = [min(x, d["n"] - 1) for x in d["cuts"]]
    c.update(d)
    c["temp"] = None
    return c


GOUT = """<output prefix='sim'>
<properties filename='out' stride='1'>[step, potential{atomic_unit}]</properties>
<trajectory filename='pos' stride='1' format='xyz'>positions{atomic_unit}</trajectory>
<checkpoint filename='chk' stride='%d' overwrite='False'/>
</output>
"""


def t_geop(case):
    from vlib import vpes
    xmlf = lambda total: sim.build(dict(case, total_steps=total, output=GOUT % 1))
    # stay away from stationary points: there both runs move by rounding errors only
    f = vpes.evaluate(case["ffs"][0]["par"], case["cell"], np.array(case["q"][0]))[1]
    f[case["fix"]] = 0.0
    if np.abs(f).max() < 1e-4:
        return None
    os.mkdir("probe")
    os.chdir("probe")
    s = sim.cli_run(xmlf(case["n"]))
    os.chdir("..")
    f = vpes.evaluate(case["ffs"][0]["par"], case["cell"], s.syslist[0].beads.q[0])[1]
    f[case["fix"]] = 0.0
    if np.abs(f).max() < 1e-5 or s.step < case["n"]:
        return None
    compare(case, xmlf, tol=1e-6)
    return case["geop"] + ("+fix" if case["fix"] else "")


@st.composite
def remd(draw):
    nsys = draw(st.integers(2, 3))
    base = draw(sim.md_case(modes=("nvt", "npt"), max_beads=3, max_atoms=2, mts=False))
    systems = []
    for i in range(nsys):
        c = dict(base, temp=base["temp"] * (1.0 + 0.25 * i), prefix="S%d" % i)
        if base.get("pressure") is not None:
            c["pressure"] = base["pressure"] + 2e-5 * i
        systems.append(c)
    c = dict(systems=systems, threading='False', ffs=base["ffs"], seed=base["seed"],
             smotion="<smotion mode='remd'><remd><stride>%r</stride><krescale>%s</krescale></remd></smotion>" % (draw(st.sampled_from([1.0, 2.0])), draw(st.booleans())))
    c["lab"] = base["mode"] + ":" + base["thermostat"]["mode"]
    c.update(draw(cuts()))
    c["n"] = min(c["n"], 6)
    c["cuts"] = [min(x, c["n"] - 1) for x in c["cuts"]]
    return c


def t_remd(case):
    compare(case, lambda total: sim.build(dict(case, total_steps=total, output=OUT % 1)))
    return case["lab"]


if __name__ == "__main__":
    subs = [Sub("dynamics", md(), t_md, quick=260, thorough=6000, shards=4, tshards=8, cost=10),
            Sub("multi", multi(), t_multi, quick=80, thorough=2000, shards=2, tshards=8, cost=10),
            Sub("geop", geop(), t_geop, quick=80, thorough=2000, shards=2, tshards=8, cost=10),
            Sub("remd", remd(), t_remd, quick=50, thorough=1500, shards=2, tshards=8, cost=10)]
    main("C03", subs, rule="a case is a simulation set-up with 2-9 steps and 1-2 stopping points; non-trivial if it was stopped and continued at least once "
         "(and, for optimisers, is not at a stationary point); labels count set-ups by mode, thermostat, barostat, optimiser or motion",
         assumptions=["floats are written with 17 significant digits (floatformat), as exactness of the trajectory requires",
                      "systems of a replica exchange run unthreaded: threads share one random stream in scheduling order",
                      "listed findings (cl thermostat with apat and baoab; nvt-cc with pile_g/nm_gle_g) are not generated"])
