"""C32: driving the program from Python: interactive simulations, input templates, parsing of outputs."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim, vpes, env
from checks.c11_nmtrans import close
from checks.c03_restart import fullstate, same_state, same_file, OUT
import numpy as np
from hypothesis import strategies as st

F = sim.floats
# independent values of the units (CODATA)
ANG, EV, AMU = 1.8897261246, 1 / 27.211386246, 1822.888486
FORCE = EV / ANG
MOM = np.sqrt(AMU * EV)  # ASE momenta: sqrt(amu eV)
U = dict(rtol=3e-6)


def near(a, b, what, rtol=1e-5):
    a, b = np.asarray(a, float), np.asarray(b, float)
    require(a.shape == b.shape, "%s: shape %r, should be %r", what, a.shape, b.shape)
    s = max(np.abs(b).max(initial=0.0), 1e-12)
    require(np.abs(a - b).max(initial=0.0) <= rtol * s, "%s: %r, should be %r", what, a.tolist(), b.tolist())


def interactive(xml, **kw):
    from ipi.scripting import InteractiveSimulation
    env.reset()
    return InteractiveSimulation(xml, **kw)


# ------------------------------------------------------------------ running in pieces
@st.composite
def gen_pieces(draw):
    c = draw(sim.md_case(max_atoms=3, max_beads=3))
    c["pieces"] = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
    c["stride"] = draw(st.integers(1, 3))
    c["two"] = False
    return c


def t_pieces(c):
    n = sum(c["pieces"])
    out = OUT.replace("stride='1'", "stride='%d'" % c["stride"]) % 100
    x = lambda total: sim.build(dict(c, total_steps=total, output=out))
    for d in ("cli", "one", "many"):
        os.mkdir(d)
    os.chdir("cli")
    with np.errstate(all="ignore"):
        A = fullstate(sim.cli_run(x(n)))
    if any(not np.isfinite(v).all() or np.abs(v).max(initial=0.0) > 1e6 for k, v in A.items() if k[0] in "qpe" and k[:2] != "pe"):
        raise Skip("the trajectory explodes")
    for d, pieces in (("one", [n]), ("many", c["pieces"])):
        os.chdir("../" + d)
        s = interactive(x(n))
        done = 0
        for k in pieces:
            s.run(k)
            done += k
            require(int(s.step) == done, "after %d steps the simulation is at step %r", done, s.step)
        B = fullstate(s)
        for k in [k for k in A if "step" in k]:
            A.pop(k), B.pop(k, None)
        same_state(A, B, 1e-8)
        # open files are flushed by the program
        for f in sorted(os.listdir("../cli")):
            if f.startswith("sim.") and not f.startswith("sim.chk") and not f.startswith("#"):
                require(os.path.exists(f), "output %s is missing", f)
                same_file("../cli/" + f, f, 1e-8, f)
    os.chdir("..")
    env.reset()
    return "%d pieces %s" % (len(c["pieces"]), c["mode"])


# ------------------------------------------------------------------ structures and properties
@st.composite
def gen_struct(draw):
    ns = draw(st.integers(1, 2))
    c = dict(sys=[draw(sim.matter(max_atoms=3, max_beads=3)) for _ in range(ns)], seed=draw(st.integers(0, 10**6)))
    par = draw(sim.pes_par(cellterm=1000.0))
    for s in c["sys"]:
        s["names"] = [draw(st.sampled_from(["H", "O", "C"])) for _ in s["m"]]
        s["forces"] = [dict(ff="ffa", weight=draw(st.sampled_from([1.0, 0.5])))]
        s["dt"], s["mode"] = 5.0, "nve"
        s["fixcom"] = draw(st.booleans())
    c["ffs"] = [dict(name="ffa", par=par)]
    c["new"] = [[draw(sim.unit_vec(3 * len(s["m"]), -2.0, 2.0)) for _ in s["q"]] for s in c["sys"]]
    c["newp"] = [[draw(sim.unit_vec(3 * len(s["m"]), -2.0, 2.0)) for _ in s["q"]] for s in c["sys"]]
    c["newh"] = [draw(sim.unit_vec(6, -0.5, 0.5)) for _ in c["sys"]]
    c["withp"] = draw(st.booleans())
    c["tk"] = draw(st.one_of(st.none(), F(50.0, 2000.0)))
    return c


def whole(c, total=5):
    """one or more systems"""
    base = dict(c["sys"][0], ffs=c["ffs"], seed=c["seed"], total_steps=total, output=OUT % 100)
    if len(c["sys"]) == 1:
        return sim.build(base)
    x = sim.build(dict(base, prefix="a"))
    y = sim.system(dict(c["sys"][1], prefix="b"))
    return x.replace("</simulation>", y + "</simulation>")


def t_struct(c):
    s = interactive(whole(c))
    ns = len(c["sys"])

    def structs():
        x = s.get_structures()
        x = [x] if ns == 1 else x
        return [[y] if len(c["sys"][i]["q"]) == 1 else y for i, y in enumerate(x)]

    par = c["ffs"][0]["par"]
    x = structs()
    for i, d in enumerate(c["sys"]):
        for b, a in enumerate(x[i]):
            near(a.positions.flatten() * ANG, d["q"][b], "positions in ASE units")
            near(a.get_momenta().flatten() * MOM, np.array(s.syslist[i].beads.p[b]), "momenta in ASE units")
            near(np.array(a.cell).T * ANG, d["cell"], "cell in ASE units")
            require(list(a.symbols) == d["names"], "symbols %r, should be %r", list(a.symbols), d["names"])
            u, f, _ = vpes.evaluate(par, np.array(d["cell"]), np.array(d["q"][b]))
            w = d["forces"][0]["weight"]
            near(a.get_potential_energy() * EV, w * u, "energy in ASE units")
            near(a.get_forces().flatten() * FORCE, w * f.flatten(), "forces in ASE units")
    # nothing changes if structures are put back
    A = fullstate(s)
    y = s.get_structures()
    s.set_structures(y)
    same_state(A, fullstate(s), 1e-9)
    # new structures
    for i, d in enumerate(c["sys"]):
        h = np.array(d["cell"]) + np.array([[c["newh"][i][0], c["newh"][i][1], c["newh"][i][2]], [0, c["newh"][i][3], c["newh"][i][4]], [0, 0, c["newh"][i][5]]])
        for b, a in enumerate(x[i]):
            a.positions = np.array(c["new"][i][b]).reshape(-1, 3) / ANG
            a.cell[:] = h.T / ANG
            if c["withp"]:
                a.set_momenta(np.array(c["newp"][i][b]).reshape(-1, 3) / MOM)
            else:
                del a.arrays["momenta"]
        x[i] = x[i][0] if len(x[i]) == 1 else x[i]
    s.set_structures(x[0] if ns == 1 else x)
    pots = []
    for i, d in enumerate(c["sys"]):
        sy = s.syslist[i]
        h = np.array(d["cell"]) + np.array([[c["newh"][i][0], c["newh"][i][1], c["newh"][i][2]], [0, c["newh"][i][3], c["newh"][i][4]], [0, 0, c["newh"][i][5]]])
        near(np.array(sy.beads.q), np.array(c["new"][i]), "positions that were set")
        near(np.array(sy.cell.h), h, "cell that was set")
        if c["withp"]:
            near(np.array(sy.beads.p), np.array(c["newp"][i]), "momenta that were set")
        else:
            near(np.array(sy.beads.p), A["p%d" % i] if "p%d" % i in A else np.array(sy.beads.p), "momenta that were not set", 1e-9)
        u = [vpes.evaluate(par, h, np.array(q))[0] for q in c["new"][i]]
        pots.append(d["forces"][0]["weight"] * np.mean(u) / EV)
    v = s.properties("potential")
    near(np.array(v).flatten(), np.array(pots), "potential in ASE units")
    v = np.array(s.properties("cell_h")).reshape(ns, 6)
    hh = np.array(s.syslist[0].cell.h) / ANG
    near(v[0], [hh[0, 0], hh[1, 1], hh[2, 2], hh[0, 1], hh[0, 2], hh[1, 2]], "cell_h in ASE units")
    # momenta at a temperature
    e0 = [float(sy.ensemble.econs) for sy in s.syslist]
    s.thermalize_momenta(c["tk"])
    for i, sy in enumerate(s.syslist):
        e = float(sy.ensemble.econs)
        require(abs(e - e0[i]) <= 1e-9 * max(1.0, abs(e)), "thermalize_momenta changes the conserved quantity from %r to %r", e0[i], e)
        if c["sys"][i]["fixcom"]:
            p = np.array(sy.beads.p).reshape(len(c["sys"][i]["q"]), -1, 3).sum((0, 1))
            require(np.abs(p).max() < 1e-9 * max(1.0, np.abs(np.array(sy.beads.p)).max()), "thermalize_momenta gives the fixed centre of mass a momentum %r", p.tolist())
    env.reset()
    return "%d systems%s" % (ns, " momenta" if c["withp"] else "")


@st.composite
def gen_temp(draw):
    c = draw(sim.matter(max_atoms=4, max_beads=4, min_atoms=2))
    c["tk"] = draw(st.one_of(st.none(), F(50.0, 2000.0)))
    c["ffs"] = [dict(name="ffa", par=draw(sim.pes_par()))]
    c["forces"] = [dict(ff="ffa")]
    c["dt"], c["mode"], c["fixcom"], c["seed"] = 1.0, "nve", False, draw(st.integers(0, 10**6))
    return c


def t_temp(c):
    """thermalize_momenta draws from the Maxwell-Boltzmann distribution of every normal mode"""
    s = interactive(sim.build(dict(c, total_steps=2, output=OUT % 100)))
    sy = s.syslist[0]
    T = c["temp"] if c["tk"] is None else c["tk"] * 3.166811563e-06
    P = len(c["q"])
    z = []
    for _ in range(300):
        s.thermalize_momenta(c["tk"])
        z.append(np.array(sy.nm.pnm) / np.sqrt(np.array(sy.nm.dynm3) * P * T))
    z = np.array(z)
    n = z.size
    require(abs((z**2).mean() - 1) < 8 * np.sqrt(2.0 / n) + 1e-5, "thermalize_momenta: the mean square of the scaled momenta is %r, should be 1", (z**2).mean())
    v = (z**2).mean(0)
    require(np.abs(v - 1).max() < 8 * np.sqrt(2.0 / len(z)), "thermalize_momenta: mean squares of the scaled momenta of single modes are %r, should be 1", v.tolist())
    require(np.abs(z.mean(0)).max() < 8 / np.sqrt(len(z)), "thermalize_momenta: momenta have the average %r", z.mean(0).tolist())
    env.reset()
    return "P=%d" % P


# ------------------------------------------------------------------ parsing
COLS = [("step", 1, 1.0), ("time{picosecond}", 1, None), ("potential{electronvolt}", 1, EV), ("conserved", 1, 1.0), ("temperature{kelvin}", 1, None), ("atom_x{angstrom}(0)", 3, ANG), ("pressure_md{megapascal}", 1, None), ("cell_h", 6, 1.0), ("kinetic_md{electronvolt}(H)", 1, EV), ("stress_md{atomic_unit}", 6, 1.0)]
TRAJ = [("positions", "length", ["angstrom", "atomic_unit", "nanometer"]), ("velocities", "velocity", ["atomic_unit", "m/s"]), ("forces", "force", ["atomic_unit"]), ("x_centroid", "length", ["angstrom", "atomic_unit"]), ("v_centroid", "velocity", ["atomic_unit"]), ("momenta", "momentum", ["atomic_unit"])]
ASEU = dict(length=1 / ANG, force=1 / FORCE, momentum=1 / MOM, velocity=AMU / MOM)


@st.composite
def gen_parse(draw):
    c = draw(sim.matter(max_atoms=3, max_beads=2))
    c["names"] = [draw(st.sampled_from(["H", "O", "C"])) for _ in c["m"]]
    c["names"][0] = "H"
    c["ffs"] = [dict(name="ffa", par=dict(draw(sim.pes_par()), ext=1))]
    c["forces"] = [dict(ff="ffa")]
    c["dt"], c["mode"], c["fixcom"], c["seed"] = draw(F(1.0, 10.0)), "nve", False, draw(st.integers(0, 10**6))
    c["cols"] = draw(st.lists(st.sampled_from(range(len(COLS))), min_size=1, max_size=5, unique=True))
    t = draw(st.sampled_from(range(len(TRAJ))))
    c["traj"], c["tu"] = t, draw(st.sampled_from(TRAJ[t][2]))
    c["fmt"] = draw(st.sampled_from(["xyz", "xyz", "pdb", "ase"])) if TRAJ[t][1] == "length" else "xyz"
    c["n"] = draw(st.integers(1, 14))
    c["ts"], c["ps"] = draw(st.integers(1, 5)), draw(st.integers(1, 3))
    c["ext"] = draw(st.sampled_from(["dipole", "scalar", "polar"]))
    return c


def t_parse(c):
    from ipi.scripting import read_output, read_trajectory
    what, dim, _ = TRAJ[c["traj"]]
    cols = [COLS[i] for i in c["cols"]]
    unit = c["tu"] if c["fmt"] != "pdb" else "angstrom"
    tr = what + ("{%s}" % unit if c["fmt"] != "ase" else "")
    out = "<output prefix='sim'><properties filename='out' stride='%d'>[%s]</properties><trajectory filename='tr' stride='%d' format='%s'%s>%s</trajectory><trajectory filename='ex' stride='%d' extra_type='%s'>extras</trajectory></output>" % (
        c["ps"], ", ".join(x[0] for x in cols), c["ts"], c["fmt"], " cell_units='%s'" % (unit if dim == "length" else "angstrom") if c["fmt"] != "ase" else "", tr, c["ts"], c["ext"])
    x = sim.build(dict(c, total_steps=c["n"], output=out))
    # the values, step by step
    s0 = sim.load(x)
    sy = s0.syslist[0]
    P, n = len(c["q"]), len(c["m"])
    rec = []

    def snap():
        d = dict(props=[np.array(sy.properties[q[0].replace("{" + q[0].split("{")[1].split("}")[0] + "}", "") if "{" in q[0] else q[0]][0], float).flatten() for q in cols], h=np.array(sy.cell.h), q=np.array(sy.beads.q), p=np.array(sy.beads.p), f=np.array(sy.forces.f))
        d["ex"] = [vpes.extras({}, None, y)[c["ext"]] for y in d["q"]]
        rec.append(d)

    env.reset()
    os.mkdir("a")
    os.chdir("a")
    s0 = sim.load(x)
    sy = s0.syslist[0]
    snap()
    for _ in range(c["n"]):
        s0.run(1, write_outputs=False) if False else sy.motion.step(0)
        snap()
    os.chdir("..")
    env.reset()
    os.mkdir("b")
    os.chdir("b")
    sim.cli_run(x)
    vals, info = read_output("sim.out")
    rows = [r for k, r in enumerate(rec) if k % c["ps"] == 0]
    require(len(vals) == len(cols), "%d columns are asked for, %r are read", len(cols), sorted(vals))
    for k, (name, size, scale) in enumerate(cols):
        key = name
        if "{" in name:
            a, b = name.split("{")
            u, rest = b.split("}")
            key = a + rest
            require(key in info and info[key][0] == u, "units of %s: %r", name, info.get(key))
        require(key in vals, "column %s is missing, there are %r", key, sorted(vals))
        v = np.array(vals[key], float).reshape(-1, size)
        require(len(v) == len(rows), "column %s has %d rows, should have %d", key, len(v), len(rows))
        if key == "step":
            near(v[:, 0], np.arange(0, c["n"] + 1, c["ps"]), "steps")
        elif scale is not None:
            near(v, np.array([r["props"][k] for r in rows]).reshape(-1, size) / scale, "column " + name, 1e-5)
    # trajectories
    ext = dict(xyz="xyz", pdb="pdb", ase="extxyz")[c["fmt"]]
    fr = [(k, r) for k, r in enumerate(rec) if k % c["ts"] == 0]
    for b in range(P if what in ("positions", "velocities", "forces", "momenta") else 1):
        f = "sim.tr_%d.%s" % (b, ext) if what in ("positions", "velocities", "forces", "momenta") else "sim.tr.%s" % ext
        got = read_trajectory(f)
        require(len(got) == len(fr), "%s has %d frames, should have %d", f, len(got), len(fr))
        for g, (k, r) in zip(got, fr):
            m3 = np.repeat(c["m"], 3)
            ref = dict(positions=r["q"][b], velocities=r["p"][b] / m3, momenta=r["p"][b], forces=r["f"][b], x_centroid=r["q"].mean(0), v_centroid=(r["p"] / m3).mean(0))[what] * ASEU[dim]
            data = g.positions if dim == "length" and (c["fmt"] != "ase" or what == "positions") else g.arrays[what]
            tol = 3e-3 / max(np.abs(ref).max(), 1e-12) if c["fmt"] == "pdb" else 3e-5 + 2e-8 / max(np.abs(ref).max(), 1e-12)
            near(data.flatten(), ref, "%s of frame %d in %s" % (what, k, f), tol)
            near(np.array(g.cell).T, r["h"] / ANG, "cell of frame %d in %s" % (k, f), 1e-3 if c["fmt"] == "pdb" else 1e-5)
            require([str(y) for y in g.symbols] == c["names"], "symbols %r", g.symbols)
            if c["fmt"] != "ase":
                require(g.info.get("step") == k, "frame of step %d is read as step %r", k, g.info.get("step"))
    for b in range(P):
        e = read_trajectory("sim.ex_%d" % b, format="extras")
        require(list(e["step"]) == [k for k, _ in fr], "steps of the extras: %r, should be %r", list(e["step"]), [k for k, _ in fr])
        near(np.array(e[c["ext"]], float).flatten(), np.array([r["ex"][b] for _, r in fr]).flatten(), "extras " + c["ext"], 1e-5)
    os.chdir("..")
    return "%s %s %s" % (what, c["fmt"], c["ext"])


# ------------------------------------------------------------------ templates
@st.composite
def gen_tmpl(draw):
    n, P = draw(st.integers(2, 4)), draw(st.integers(1, 4))
    c = dict(names=[draw(st.sampled_from(["H", "O", "C", "Si"])) for _ in range(n)], pos=[draw(sim.unit_vec(3 * n, -3.0, 3.0)) for _ in range(P)], h=draw(sim.unit_vec(6, 0.0, 2.0)))
    c["aslist"] = P > 1 or draw(st.booleans())
    c["masses"] = draw(st.one_of(st.none(), st.lists(F(1.0, 50.0), min_size=n, max_size=n)))
    c["T"] = draw(F(20.0, 2000.0))
    c["dt"] = draw(F(0.05, 1.0))
    c["thermo"] = draw(st.sampled_from([None, None, "langevin", "pile_l"]))
    c["k"] = draw(F(0.01, 0.2))
    c["asdict"] = draw(st.booleans())
    c["prefix"] = draw(st.sampled_from([None, "run", "x-1"]))
    c["safe"] = draw(st.integers(1, 50))
    return c


def t_tmpl(c):
    import ase
    from ipi.scripting import simulation_xml, motion_nvt_xml, forcefield_xml
    n, P = len(c["names"]), len(c["pos"])
    h = np.array([[8.0 + c["h"][0], 0, 0], [c["h"][1], 8.0 + c["h"][2], 0], [c["h"][3], c["h"][4], 8.0 + c["h"][5]]])
    fr = []
    for p in c["pos"]:
        a = ase.Atoms(c["names"], positions=np.array(p).reshape(-1, 3), cell=h, pbc=True)
        if c["masses"]:
            a.set_masses(c["masses"])
        fr.append(a)
    ff = forcefield_xml("model", mode="direct", pes="harmonic", parameters={"k1": c["k"]} if c["asdict"] else "{k1: %r}" % c["k"])
    kw = {}
    if c["thermo"]:
        kw["thermostat"] = "<thermostat mode='%s'><tau units='femtosecond'> 33.0 </tau></thermostat>" % c["thermo"]
    mo = motion_nvt_xml(c["dt"], path_integrals=P > 1, **kw)
    kw = {} if c["prefix"] is None else dict(prefix=c["prefix"])
    x = simulation_xml(fr if c["aslist"] else fr[0], ff, mo, temperature=c["T"], safe_stride=c["safe"], **kw)
    s = interactive(x)
    sy = s.syslist[0]
    require(sy.beads.nbeads == P and sy.beads.natoms == n, "%d beads of %d atoms, should be %d of %d", sy.beads.nbeads, sy.beads.natoms, P, n)
    near(np.array(sy.beads.q), np.array(c["pos"]) * ANG, "positions from the template")
    near(np.array(sy.cell.h), h.T * ANG, "cell from the template")
    require([str(y) for y in sy.beads.names] == c["names"], "names %r", list(sy.beads.names))
    near(np.array(sy.beads.m), (np.array(c["masses"]) if c["masses"] else fr[0].get_masses()) * AMU, "masses from the template", 2e-4)
    near(float(sy.ensemble.temp), c["T"] * 3.166811563e-06, "temperature from the template")
    z = np.array(sy.nm.pnm)**2 / (np.array(sy.nm.dynm3) * P * c["T"] * 3.166811563e-06)
    require(n * P == 1 or 1e-3 < z.mean() < 30, "initial momenta have the temperature %r, should be about %r", z.mean() * c["T"], c["T"])
    near(float(sy.motion.dt), c["dt"] * np.sqrt(AMU / EV) * ANG, "time step from the template")  # ASE time unit
    require(int(s.safe_stride) == c["safe"] if hasattr(s, "safe_stride") else True, "safe_stride")
    th = sy.motion.thermostat
    if c["thermo"]:
        near(float(th.tau), 33.0 * 41.341373, "thermostat given to the template")
    u = 0.5 * c["k"] * sum((np.array(p) * ANG)**2 for p in c["pos"]).sum() / P
    near(float(np.array(s.properties("potential"))) * EV, u, "potential of the simulation from a template")
    s.run(2)
    pre = c["prefix"] or "simulation"
    require(os.path.exists(pre + ".out"), "no output file %s.out: %r", pre, os.listdir("."))
    env.reset()
    return "P=%d%s" % (P, " masses" if c["masses"] else "")


SUBS = [Sub("pieces", gen_pieces(), t_pieces, 60, 1200, shards=2), Sub("structures", gen_struct(), t_struct, 200, 4000, shards=2), Sub("thermalize", gen_temp(), t_temp, 16, 300), Sub("parse", gen_parse(), t_parse, 160, 3000, shards=2), Sub("templates", gen_tmpl(), t_tmpl, 100, 2000)]
RULE = "every case runs or reads at least one step"

if __name__ == "__main__":
    main("C32", SUBS, rule=RULE, assumptions=[], quick_s=80, thorough_s=1200)
