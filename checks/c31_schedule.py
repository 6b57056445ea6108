"""C31: driving that depends on time: ramps, electric fields, replayed trajectories."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim, vpes
from checks.c11_nmtrans import close
from checks.c03_restart import compare, OUT, cuts
import numpy as np
from hypothesis import strategies as st

F = sim.floats
KB = 3.1668115634556076e-06
GPA = 3.398931044e-05  # atomic units of pressure


# ------------------------------------------------------------------ ramps
@st.composite
def gen_ramp(draw):
    c = draw(sim.matter(max_atoms=3, max_beads=3)) if hasattr(sim, "matter") else {}
    c["temp"] = draw(F(5e-4, 2e-3))
    c["ffs"] = [dict(name="ffa", par=draw(sim.pes_par()))]
    c["forces"] = [dict(ff="ffa")]
    c["seed"] = draw(st.integers(0, 10**6))
    c["ramps"] = []
    for k in draw(st.sampled_from([["t"], ["p"], ["t", "p"], ["p", "t"]])):
        r = dict(kind=k, log=draw(st.booleans()), total=draw(st.integers(1, 9)), cur=draw(st.sampled_from([0, 0, 0, 2, 5])))
        if k == "t":
            r["unit"] = draw(st.sampled_from(["kelvin", "electronvolt", "atomic_unit"]))
            sc = dict(kelvin=300.0, electronvolt=0.03, atomic_unit=1e-3)[r["unit"]]
        else:
            r["unit"] = draw(st.sampled_from(["gigapascal", "megapascal", "atomic_unit"]))
            sc = dict(gigapascal=1.0, megapascal=300.0, atomic_unit=1e-5)[r["unit"]]
        r["a"], r["b"] = sc * draw(F(0.2, 3.0)), sc * draw(F(0.2, 3.0))
        if not r["log"] and k == "p" and draw(st.booleans()):
            r["a"] = -r["a"]
        c["ramps"].append(r)
    c["md"] = draw(st.sampled_from([None, "before", "after"]))
    c["npt"] = any(r["kind"] == "p" for r in c["ramps"])
    if c["npt"]:
        c["pressure"] = 1e-5
    c["steps"] = draw(st.integers(1, 12))
    c.update(draw(cuts()))
    return c


def ramp_xml(c):
    parts = []
    for r in c["ramps"]:
        n = r["kind"] + "_ramp"
        parts.append("<motion mode='{n}'><{n}><{k}_start units='{u}'>{a!r}</{k}_start><{k}_end units='{u}'>{b!r}</{k}_end><logscale>{log}</logscale><total_steps>{total}</total_steps><current_step>{cur}</current_step></{n}></motion>".format(n=n, k=r["kind"], u=r["unit"], a=r["a"], b=r["b"], log=r["log"], total=r["total"], cur=r["cur"]))
    md = "<motion mode='dynamics'><dynamics mode='%s'><timestep>5.0</timestep>%s<thermostat mode='langevin'><tau>100</tau></thermostat></dynamics></motion>" % (
        "npt" if c["npt"] else "nvt", "<barostat mode='isotropic'><tau>2000</tau><thermostat mode='langevin'><tau>200</tau></thermostat></barostat>" if c["npt"] else "")
    if c["md"] == "before":
        parts.insert(0, md)
    elif c["md"] == "after":
        parts.append(md)
    return "<motion mode='multi'>%s</motion>" % "".join(parts) if len(parts) > 1 else parts[0]


UN = dict(kelvin=KB, electronvolt=0.036749326, atomic_unit=1.0, gigapascal=GPA, megapascal=GPA * 1e-3)


def ramp_value(r, k):
    """k: number of ramp steps done since the beginning of the ramp"""
    x = min(1.0, k / r["total"])
    a, b = r["a"] * UN[r["unit"]], r["b"] * UN[r["unit"]]
    return a * (b / a)**x if r["log"] else a + (b - a) * x


def t_ramp(c):
    s = sim.make(dict(c, motion=ramp_xml(c)))
    sy = s.syslist[0]
    v0 = dict(t=c["temp"], p=c.get("pressure"))
    for it in range(c["steps"]):
        q0, p0 = np.array(sy.beads.q), np.array(sy.beads.p)
        s.run(1)
        for r in c["ramps"]:
            want = ramp_value(r, it + 1 + r["cur"])
            got = float(sy.ensemble.temp) if r["kind"] == "t" else float(sy.ensemble.pext)
            require(abs(got - want) <= 1e-4 * abs(want) + 1e-4 * max(abs(r["a"]), abs(r["b"])) * UN[r["unit"]], "%s ramp from %r to %r %s in %d steps (log=%r): %r after %d steps, should be %r", r["kind"], r["a"], r["b"], r["unit"], r["total"], r["log"], got, it + 1 + r["cur"], want)
            if r["kind"] == "t" and c["md"]:  # thermostats follow
                m = [x for x in sy.motion.mlist if hasattr(x, "thermostat")][0]
                close(float(m.thermostat.temp), float(sy.ensemble.temp) * len(c["q"]), "temperature of the thermostat", 1e-9)
        for k in ("t", "p"):
            if v0[k] is not None and not any(r["kind"] == k for r in c["ramps"]):
                got = float(sy.ensemble.temp) if k == "t" else float(sy.ensemble.pext)
                close(got, v0[k], "what is not ramped", 1e-12)
        if not c["md"]:
            require(np.array_equal(q0, np.array(sy.beads.q)) and np.array_equal(p0, np.array(sy.beads.p)), "a ramp moves atoms")
    compare(c, lambda total: sim.build(dict(c, motion=ramp_xml(c), total_steps=total, output=OUT % 1)))
    return "%s%s" % ("+".join(r["kind"] + ("log" if r["log"] else "") for r in c["ramps"]), " md" if c["md"] else "")


# ------------------------------------------------------------------ electric field
@st.composite
def gen_eda(draw):
    nb, n = draw(st.sampled_from([1, 1, 2, 3])), draw(st.integers(1, 3))
    q = np.array(draw(sim.unit_vec(3 * n, -2.0, 2.0)))[None, :] + np.array(draw(sim.unit_vec(3 * n * nb, -0.3, 0.3))).reshape(nb, -1)
    c = dict(q=q.tolist(), p=np.array(draw(sim.unit_vec(3 * n * nb, -3.0, 3.0))).reshape(nb, -1).tolist(), m=[draw(F(1000.0, 20000.0)) for _ in range(n)], names=["H"] * n, cell=(30 * np.eye(3)).tolist())
    c["temp"] = draw(F(5e-4, 2e-3))
    c["dt"] = draw(F(2.0, 20.0))
    c["amp"] = draw(sim.unit_vec(3, -0.02, 0.02))
    c["freq"] = draw(st.one_of(st.just(0.0), F(1e-3, 0.1)))
    c["phase"] = draw(st.one_of(st.just(0.0), F(-3.0, 3.0)))
    if draw(st.booleans()):
        c["peak"], c["sigma"] = draw(F(10.0, 100.0)), draw(F(10.0, 60.0))
    c["driver"] = n > 1 and draw(st.booleans())
    par = draw(sim.pes_par())
    par["ext"] = 1
    if c["driver"]:
        par["bec"] = draw(F(0.5, 2.0))
    else:
        c["Z"] = draw(sim.unit_vec(9 * n * nb, -2.0, 2.0))
        if draw(st.integers(0, 3)) == 0:
            par["rawdip"] = 1
    c["ffs"] = [dict(name="ffa", par=par)]
    c["forces"] = [dict(ff="ffa")]
    c["mode"] = draw(st.sampled_from(["nve", "nve", "nvt"]))
    c["split"] = draw(st.sampled_from(["obabo", "baoab"]))
    c["therm"] = draw(st.sampled_from(["langevin", "pile_l", "svr"]))
    c["fixcom"] = draw(st.booleans())
    c["fixatoms"] = [0] if not c["fixcom"] and n > 1 and c["therm"] == "langevin" and draw(st.booleans()) else []
    c["nmts"] = draw(st.sampled_from([[], [], [2], [3], [1, 2], [2, 2]]))
    if len(c["nmts"]) > 1:
        a = draw(F(0.0, 1.0))
        c["forces"][0]["mts_weights"] = [a, 1 - a]
    c["seed"] = draw(st.integers(0, 10**6))
    c["steps"] = draw(st.integers(1, 8))
    c.update(draw(cuts()))
    return c


def eda_xml(c, driven=True):
    tg = "driven_dynamics" if driven else "dynamics"
    s = "<motion mode='%s'><fixcom>%s</fixcom>%s<%s mode='%s' splitting='%s'><timestep>%r</timestep>" % (tg, c["fixcom"], sim.tag("fixatoms", np.array(c["fixatoms"])) if c["fixatoms"] else "", tg, ("eda-" if driven else "") + c["mode"], c["split"], c["dt"])
    if c["nmts"]:
        s += "<nmts>%r</nmts>" % c["nmts"]
    if c["mode"] == "nvt":
        s += "<thermostat mode='%s'><tau>80.0</tau></thermostat>" % c["therm"]
    if driven:
        s += "<efield><amp>%r</amp><freq>%r</freq><phase>%r</phase>" % (list(c["amp"]), c["freq"], c["phase"])
        if "peak" in c:
            s += "<peak>%r</peak><sigma>%r</sigma>" % (c["peak"], c["sigma"])
        s += "</efield>"
        if c["driver"]:
            s += "<bec mode='driver'/>"
        else:
            s += sim.tag("bec", np.array(c["Z"]).reshape(-1, 3), mode="manual")
    return s + "</%s></motion>" % tg


def field(c, t):
    e = np.array(c["amp"]) * np.cos(c["freq"] * t + c["phase"])
    if "peak" in c:
        e = e * np.exp(-0.5 * ((t - c["peak"]) / c["sigma"])**2)
    return e


def charges(c, q):
    if c["driver"]:
        return np.array([vpes.born(c["ffs"][0]["par"], x) for x in q])
    return np.array(c["Z"]).reshape(len(q), -1, 3)


def t_eda(c):
    s = sim.make(dict(c, motion=eda_xml(c)))
    r = sim.make(dict(c, motion=eda_xml(c, False)))
    a, b = s.syslist[0], r.syslist[0]
    big = 0.0
    P = len(c["q"])

    def kick(t):
        q = np.array(b.beads.q)
        f = np.array([np.dot(z, field(c, t)) for z in charges(c, q)])
        p = np.array(b.beads.p) + 0.5 * c["dt"] * f
        n = len(c["m"])
        if c["fixcom"]:
            v = p.reshape(P, n, 3).sum((0, 1)) / (P * sum(c["m"]))
            p = (p.reshape(P, n, 3) - v * np.array(c["m"])[None, :, None]).reshape(P, -1)
        for i in c["fixatoms"]:
            p[:, 3 * i:3 * i + 3] = 0.0
        b.beads.p = p
        return np.abs(f).max()

    for it in range(c["steps"]):
        t = it * c["dt"]
        close(float(a.ensemble.time), t, "time", 1e-12)
        s.run(1)
        big = max(big, kick(t))
        r.run(1)
        kick(t + c["dt"])
        for k in "qp":
            x, y = np.array(getattr(a.beads, k)), np.array(getattr(b.beads, k))
            require(np.abs(x - y).max() <= 1e-7 * max(1.0, np.abs(y).max()), "%s in the electric field, after step %d: %r, should be %r", dict(q="positions", p="momenta")[k], it, x.tolist(), y.tolist())
        # what is reported
        t = (it + 1) * c["dt"]
        close(np.array(a.properties["Efield"][0], float).flatten(), field(c, t), "reported field", 1e-9)
        d = np.array(a.properties["dipole"][0], float).flatten()
        dref = np.mean([vpes.extras({}, None, x)["dipole"] for x in np.array(a.beads.q)], axis=0)
        close(d, dref, "reported dipole", 1e-6)
    return "%s P=%d%s%s%s" % (c["mode"], P, " driver" if c["driver"] else "", " mts" if c["nmts"] else "", " pulse" if "peak" in c else "") if big > 1e-6 else None


def t_eda_restart(c):
    compare(c, lambda total: sim.build(dict(c, motion=eda_xml(c), total_steps=total, output=OUT % 1)))
    return "%s%s" % (c["mode"], " driver" if c["driver"] else "")


# ------------------------------------------------------------------ replay
ANG = 1.8897261254535


@st.composite
def gen_rep(draw):
    nb, n = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    nf = draw(st.integers(1, 6))
    c = dict(P=nb, natoms=n, nf=nf, names=[draw(st.sampled_from(["H", "O", "C"])) for _ in range(n)])
    c["x"] = [draw(sim.unit_vec(3 * n * nb, -4.0, 4.0)) for _ in range(nf)]
    c["h"] = [draw(sim.unit_vec(6, -1.0, 1.0)) for _ in range(nf)]
    c["mode"] = draw(st.sampled_from(["xyz", "pdb", "ase"]))
    c["units"] = draw(st.sampled_from(["angstrom", "atomic_unit", "nanometer", ""])) if c["mode"] != "ase" else "angstrom"
    if c["mode"] == "pdb":  # always in angstrom
        c["units"] = draw(st.sampled_from(["angstrom", ""]))
    c["said"] = draw(st.sampled_from(["", "angstrom", "nanometer"]))  # units that an xyz file declares
    c["wild"] = draw(st.booleans())
    c["order"] = draw(st.permutations(range(nb)))
    c["par"] = draw(sim.pes_par(cellterm=900.0))
    c["start"] = draw(st.integers(0, nf - 1))
    c["temp"] = draw(F(5e-4, 2e-3))
    return c


def cellof(c, i):
    v = c["h"][i]
    return np.array([[9.0 + v[0], 0, 0], [v[1], 10.0 + v[2], 0], [v[3], v[4], 11.0 + v[5]]])  # rows are vectors


def abcABC(h):
    l = [np.linalg.norm(v) for v in h]
    g = lambda i, j: np.degrees(np.arccos(np.dot(h[i], h[j]) / l[i] / l[j]))
    return l + [g(1, 2), g(0, 2), g(0, 1)]


def frame(c, i, b):
    """text of a frame, written independently, lengths in the file's unit"""
    h, x = cellof(c, i), np.array(c["x"][i]).reshape(c["P"], -1, 3)[b]
    k = abcABC(h)
    if c["mode"] == "xyz":
        s = "%d\n# CELL(abcABC): %s  Step: %10d  Bead: %7d %s\n" % (len(x), " ".join("%.10f" % y for y in k), i, b, " positions{%s}  cell{%s}" % (c["said"], c["said"]) if c["said"] else "")
        return s + "".join("%-8s %.10f %.10f %.10f\n" % ((nm,) + tuple(r)) for nm, r in zip(c["names"], x))
    if c["mode"] == "ase":
        s = '%d\nLattice="%s" ipi_comment="Step: %d  Bead: %d" Properties=species:S:1:pos:R:3 pbc="T T T"\n' % (len(x), " ".join("%.12f" % y for y in h.flatten()), i, b)
        return s + "".join("%s %.10f %.10f %.10f\n" % ((nm,) + tuple(r)) for nm, r in zip(c["names"], x))
    s = "TITLE   Step:  %10d  Bead:   %7d \n" % (i, b)
    s += "CRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f P 1        1\n" % tuple(k)
    for j, (nm, r) in enumerate(zip(c["names"], x)):
        s += "ATOM  %5d %4s %3s %1s%4d%1s   %8.3f%8.3f%8.3f%6.2f%6.2f          %2s%2d\n" % (j + 1, nm, "  1", " ", 1, " ", r[0], r[1], r[2], 0.0, 0.0, "  ", 0)
    return s + "END\n"


def t_replay(c):
    P, n = c["P"], c["natoms"]
    unit = dict(angstrom=ANG, atomic_unit=1.0, nanometer=10 * ANG)
    if c["mode"] == "xyz" and c["said"] and c["units"]:
        c = dict(c, said=c["units"])
    unit[""] = unit[c["said"] or "atomic_unit"] if c["mode"] == "xyz" else ANG
    u = unit[c["units"]]
    names = []
    if c["wild"]:
        if c["mode"] == "ase":
            c = dict(c, mode="xyz", said="")
        for b in range(P):
            f = "tr_%s.%s" % ("abcdefgh"[c["order"][b]], c["mode"])
            open(f, "w").write("".join(frame(c, i, b) for i in range(c["nf"])))
        value = "tr_*." + c["mode"]
    else:
        value = "tr." + c["mode"]
        open(value, "w").write("".join(frame(c, i, b) for i in range(c["nf"]) for b in range(P)))
    d = dict(q=np.zeros((P, 3 * n)).tolist(), p=np.zeros((P, 3 * n)).tolist(), m=[1000.0] * n, names=c["names"], cell=(20 * np.eye(3)).tolist(), temp=c["temp"], seed=1)
    d["ffs"] = [dict(name="ffa", par=c["par"])]
    d["forces"] = [dict(ff="ffa")]
    d["motion"] = "<motion mode='replay'><fixcom>False</fixcom><file mode='%s'%s>%s</file></motion>" % (c["mode"], " units='%s'" % c["units"] if c["units"] else "", value)
    start = c["start"]
    import re
    x = sim.build(dict(d, total_steps=c["nf"] + 5, output=OUT % 1))
    if start:
        x = x.replace("<total_steps>", "<step>%d</step><total_steps>" % start, 1)
    s = sim.load(x)
    sy = s.syslist[0]
    tol = dict(xyz=1e-6, ase=1e-5, pdb=2e-3)[c["mode"]]
    seen = 0
    for i in range(start, c["nf"]):
        s.step = i
        sy.motion.step(i)
        want = np.array(c["x"][i]) * u
        got = np.array(sy.beads.q).flatten()
        require(np.abs(got - want).max() <= tol * u, "frame %d of a %s file%s, units %r: %r is replayed as %r", i, c["mode"], " (one per bead)" if c["wild"] else "", c["units"], want.tolist(), got.tolist())
        k, w = abcABC(np.array(sy.cell.h).T), abcABC(cellof(c, i))
        require(np.abs(np.array(k[:3]) / u - w[:3]).max() < 2 * tol and np.abs(np.array(k[3:]) - w[3:]).max() < (1e-4 if tol < 1e-4 else 0.02), "cell of frame %d: %r is replayed as %r", i, w, [y / u for y in k[:3]] + k[3:])
        v = sum(vpes.evaluate(c["par"], np.array(sy.cell.h), y)[0] for y in np.array(sy.beads.q))
        close(float(sy.forces.pot), v, "potential of a replayed frame", 1e-9)
        require(not getattr(sy.motion, "finished", False), "the replay ends before its last frame")
        seen += 1
    sy.motion.step(c["nf"])
    require(getattr(sy.motion, "finished", False), "the replay does not end after the last frame")
    return "%s P=%d%s%s" % (c["mode"], P, " files" if c["wild"] else "", " from %d" % start if start else "") if seen else None


SUBS = [Sub("ramp", gen_ramp(), t_ramp, 100, 2500, shards=3), Sub("field", gen_eda(), t_eda, 300, 6000, shards=3), Sub("field-restart", gen_eda(), t_eda_restart, 60, 1200, shards=2), Sub("replay", gen_rep(), t_replay, 300, 4000)]
RULE = "a case is non-trivial when a ramp changes something, the field exerts a force above 1e-6, or at least one frame is replayed"

if __name__ == "__main__":
    main("C31", SUBS, rule=RULE, assumptions=[], quick_s=80, thorough_s=1200)
