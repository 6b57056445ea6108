"""C06: the files of a run hold what was asked for, at the steps, beads, units and columns that were asked for."""
import os, sys, re, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim
from checks.c01_units import REF, LOOSE
from checks.c07_files import params
import numpy as np

# name -> (dimension, size); sizes that depend on the system: 'P', '3P'
PROPS = {"step": ("", 1), "time": ("time", 1), "temperature": ("temperature", 1), "potential": ("energy", 1), "volume": ("volume", 1), "density": ("density", 1),
         "cell_h": ("length", 6), "cell_abcABC": ("", 6), "bead_potentials": ("energy", "P"), "kinetic_cv": ("energy", 1), "kinetic_md": ("energy", 1), "conserved": ("energy", 1),
         "pressure_cv": ("pressure", 1), "stress_md": ("pressure", 6), "virial_cv": ("pressure", 6), "kinetic_tens": ("energy", 6), "ensemble_lp": ("", 1), "forcemod": ("force", 1),
         "atom_x": ("length", 3), "atom_v": ("velocity", 3), "atom_p": ("momentum", 3), "atom_f": ("force", 3), "atom_x_path": ("length", "3P"), "atom_f_path": ("force", "3P"),
         "vcom": ("velocity", 3), "pot_component": ("energy", 1), "pot_component_raw": ("energy", 1), "vir_component": ("pressure", 6), "scaledcoords": ("", 2), "isotope_scfep": ("", 7),
         "isotope_zetatd": ("", 3), "isotope_zetasc": ("", 3), "ti_weight": ("", 3), "ti_pot": ("energy", 1), "displacedpath": ("", 1), "r_gyration": ("length", 1), "spring": ("energy", 1),
         "virial_fq": ("energy", 1), "ensemble_temperature": ("temperature", 1), "ensemble_pressure": ("pressure", 1), "isotope_zetatd_4th": ("", 5), "kstress_cv": ("pressure", 6),
         "hweights_component": ("", 1)}
UNITS = {"time": ["femtosecond", "picosecond", "second"], "temperature": ["kelvin", "millikelvin"], "energy": ["electronvolt", "millielectronvolt", "j/mol", "kilocal/mol", "kelvin"],
         "volume": ["angstrom3"], "density": ["g/cm3"], "length": ["angstrom", "nanometer", "picometer"], "pressure": ["bar", "megapascal", "gigapascal", "ev/ang3"],
         "force": ["ev/ang", "newton", "nanonewton"], "velocity": ["m/s"], "momentum": [], "": []}
TRAJ = {"positions": ("length", 1), "velocities": ("velocity", 1), "momenta": ("momentum", 1), "forces": ("force", 1), "forces_spring": ("force", 1), "x_centroid": ("length", 0),
        "v_centroid": ("velocity", 0), "p_centroid": ("momentum", 0), "f_centroid": ("force", 0), "kinetic_cv": ("energy", 0), "kinetic_od": ("energy", 0), "r_gyration": ("length", 0),
        "Eforces": ("force", 1), "forces_component": ("force", 0)}
PRE = {"milli": 1e-3, "nano": 1e-9, "pico": 1e-12, "femto": 1e-15, "mega": 1e6, "giga": 1e9, "kilo": 1e3}
BASE = {"femtosecond": "second", "picosecond": "second", "nanometer": "meter", "picometer": "meter"}


def factor(dim, unit):
    """atomic units -> user units"""
    if not unit or not dim:
        return 1.0, 0.0
    r = REF[dim]
    tol = 4e-5 if dim == "pressure" else 1e-5
    if unit in r:
        return 1.0 / r[unit], tol
    for p, x in PRE.items():
        if unit.startswith(p) and unit[len(p):] in r:
            return 1.0 / (r[unit[len(p):]] * x), tol
    raise KeyError((dim, unit))


@st.composite
def prop(draw, n, P, names, nf):
    k = draw(st.sampled_from(sorted(PROPS)))
    a = ""
    i = draw(st.integers(0, n - 1))
    b = draw(st.integers(0, P - 1))
    if k in ("atom_x", "atom_v", "atom_p", "atom_f"):
        a = draw(st.sampled_from(["%d" % i, "atom=%d" % i, "%d;%d" % (i, b), "atom=%d; bead=%d" % (i, b)]))
    elif k in ("atom_x_path", "atom_f_path"):
        a = "%d" % i
    elif k in ("pot_component", "pot_component_raw", "vir_component", "hweights_component"):
        a = "%d" % draw(st.integers(0, nf - 1))
    elif k in ("kinetic_cv", "kinetic_md", "temperature", "kinetic_tens", "r_gyration", "ti_pot"):
        a = draw(st.sampled_from(["", "", "%d" % i, names[i]]))
    elif k in ("isotope_scfep", "isotope_zetatd", "isotope_zetasc", "isotope_zetatd_4th"):
        a = draw(st.sampled_from(["", "1.5", "alpha=0.7;atom=%s" % names[i]]))
    elif k == "displacedpath":
        a = "0.1;0.2;-0.1"
    d = PROPS[k][0]
    u = draw(st.sampled_from([""] + UNITS[d]))
    s = k
    if u and a:
        s += "(%s){%s}" % (a, u) if draw(st.booleans()) else "{%s}(%s)" % (u, a)
    else:
        s += "(%s)" % a if a else "{%s}" % u if u else ""
    return dict(text=s, key=k, args=a, unit=u)


@st.composite
def gen(draw):
    c = draw(sim.md_case(modes=("nve", "nvt", "npt"), mts=False, max_beads=12 if draw(st.integers(0, 9)) == 0 else 4, thermos=["langevin", "pile_l", "svr"]))
    P, n = len(c["q"]), len(c["m"])
    for f in c["ffs"]:
        f["par"]["ext"] = draw(st.integers(0, 1))
    if P > 1 and draw(st.booleans()):
        c["ffs"].append(dict(name="ffc", par=dict(draw(sim.pes_par()), ext=0)))
        c["forces"].append(dict(ff="ffc", nbeads=draw(st.integers(1, P)), weight=draw(sim.floats(0.3, 1.2))))
    c["N"] = draw(st.integers(1, 6))
    c["threading"] = draw(st.sampled_from(["True", "False"]))
    c["floatformat"] = draw(st.sampled_from(["%16.8e", sim.EXACT, "%.12g"]))
    c["pref"] = draw(st.sampled_from(["sim", "x.y", "sim"]))
    c["nsys"] = draw(st.sampled_from([1, 1, 2]))
    out = []
    stride = st.integers(1, 4)
    for i in range(draw(st.integers(1, 3))):
        out.append(dict(kind="p", fn="prop%d" % i, stride=draw(stride), flush=draw(st.integers(0, 3)), verb=draw(st.sampled_from(["low", "low", "high"])),
                        list=draw(st.lists(prop(n, P, c["names"], len(c["forces"])), min_size=1, max_size=5))))
    for i in range(draw(st.integers(0, 3))):
        k = draw(st.sampled_from(sorted(TRAJ) + ["positions", "extras"]))
        if k == "extras":
            if not all(f["par"].get("ext") for f in c["ffs"]):
                continue
            out.append(dict(kind="x", fn="ext%d" % i, stride=draw(stride), bead=draw(st.integers(-2, P - 1).filter(lambda x: x != 0 or True)),
                            et=draw(st.sampled_from(["dipole", "scalar", "polar", "dipole,scalar"]))))
            continue
        fmt = draw(st.sampled_from(["xyz", "xyz", "pdb"])) if k in ("positions", "x_centroid") else "xyz"
        u = draw(st.sampled_from([""] + [x for x in UNITS[TRAJ[k][0]] if x not in ("newton", "j/mol", "second")]))
        out.append(dict(kind="t", fn="traj%d" % i, stride=draw(stride), flush=draw(st.integers(0, 2)), key=k, unit=u, format=fmt, bead=draw(st.integers(-3, P - 1)),
                        cell=draw(st.sampled_from(["", "angstrom", "atomic_unit", "nanometer"])), arg=draw(st.integers(0, len(c["forces"]) - 1))))
    for i in range(draw(st.integers(0, 2))):
        out.append(dict(kind="c", fn="chk%d" % i, stride=draw(stride), over=draw(st.booleans())))
    for o in out:
        if o.get("bead") == 0 and draw(st.booleans()):
            o["bead"] = -1
    c["outs"] = draw(st.permutations(out))
    return c


def xml_out(c):
    s = "<output prefix='%s'>\n" % c["pref"]
    for o in c["outs"]:
        if o["kind"] == "p":
            s += "<properties filename='%s' stride='%d' flush='%d' verbosity='%s'>[%s]</properties>\n" % (o["fn"], o["stride"], o["flush"], o["verb"], ", ".join(x["text"] for x in o["list"]))
        elif o["kind"] == "t":
            at = " cell_units='%s'" % o["cell"] if o["cell"] else ""
            s += "<trajectory filename='%s' stride='%d' flush='%d' format='%s' bead='%d'%s>%s%s%s</trajectory>\n" % (
                o["fn"], o["stride"], o["flush"], o["format"], o["bead"], at, o["key"], "(%d)" % o["arg"] if o["key"] == "forces_component" else "", "{%s}" % o["unit"] if o["unit"] else "")
        elif o["kind"] == "x":
            s += "<trajectory filename='%s' stride='%d' bead='%d' extra_type='%s'>extras</trajectory>\n" % (o["fn"], o["stride"], o["bead"], o["et"])
        else:
            s += "<checkpoint filename='%s' stride='%d' overwrite='%s'/>\n" % (o["fn"], o["stride"], o["over"])
    return s + "</output>\n"


def xyz(text):
    L = text.split("\n")
    i, fr = 0, []
    while i < len(L) and L[i].strip():
        n = int(L[i])
        rows = [l.split() for l in L[i + 2:i + 2 + n]]
        m = re.search(r"CELL\(abcABC\):((?:\s+[-\d.]+){6})", L[i + 1])
        require(m is not None, "no cell in the title %r", L[i + 1])
        fr.append((L[i + 1], [r[0] for r in rows], np.array([[float(x) for x in r[1:]] for r in rows]), np.array([float(x) for x in m.group(1).split()])))
        i += 2 + n
    return fr


def pdb(text):
    fr, cur, ti, ce = [], [], None, None
    for l in text.split("\n"):
        if l.startswith("TITLE"):
            ti = l
        elif l.startswith("CRYST1"):
            ce = np.array([float(x) for x in (l[6:15], l[15:24], l[24:33], l[33:40], l[40:47], l[47:54])])
        elif l.startswith("ATOM"):
            cur.append((l[12:16].strip(), float(l[30:38]), float(l[38:46]), float(l[46:54])))
        elif l.startswith("END"):
            fr.append((ti, [x[0] for x in cur], np.array([x[1:] for x in cur]), ce))
            cur = []
    return fr


def t_out(c):
    nsys = c["nsys"]
    keys = ("q", "p", "m", "names", "cell", "temp", "forces", "pressure", "stress", "nm", "mode", "splitting", "dt", "fixcom", "fixatoms", "nmts", "thermostat", "barostat")
    base = {k: v for k, v in c.items() if k not in keys}
    one = {k: c[k] for k in keys if k in c}
    base["systems"] = [dict(one, prefix="s%d" % i if nsys > 1 else "") for i in range(nsys)]
    if nsys > 1:
        base["systems"][1]["q"] = (np.array(c["q"]) + 0.05).tolist()
        base["threading"] = c["threading"] = "False"     # concurrent systems share one random stream in no particular order
    # what the run does, without outputs
    os.mkdir("ref")
    os.chdir("ref")
    s = sim.make(dict(base, output="<output prefix='r'></output>"))
    texts = sorted({x["text"] for o in c["outs"] if o["kind"] == "p" for x in o["list"]})
    raw = {x["text"]: x["key"] + ("(%s)" % x["args"] if x["args"] else "") for o in c["outs"] if o["kind"] == "p" for x in o["list"]}
    tr = sorted({o["key"] for o in c["outs"] if o["kind"] == "t"})
    rec = []

    def snap(k):
        r = []
        for sy in s.syslist:
            d = {t: np.atleast_1d(np.array(sy.properties[raw[t]][0], float)) for t in texts if raw[t] != "step"}
            d.update({t: np.array([float(k)]) for t in texts if raw[t] == "step"})
            T = {t: np.array(sy.trajs[t][0]) for t in tr if t != "forces_component"}
            for i in range(len(c["forces"])):
                T["forces_component", i] = np.array(sy.trajs["forces_component(%d)" % i][0])
            ex = {a: np.array(b) for a, b in sy.forces.extras.items() if a != "raw"} if any(o["kind"] == "x" for o in c["outs"]) else {}
            r.append(dict(p=d, t=T, q=np.array(sy.beads.q), h=np.array(sy.cell.h), x=ex, pp=np.array(sy.beads.p)))
        rec.append(r)
    snap(0)
    for k in range(c["N"]):
        s.run(1, write_outputs=False)
        snap(k + 1)
    for f in s.fflist.values():
        f.stop()
    from vlib import env
    env.reset()
    os.chdir("..")
    shutil.rmtree("ref")
    r = sim.cli_run(sim.build(dict(base, output=xml_out(c), total_steps=c["N"])))
    # writing files does not change the dynamics
    for i, sy in enumerate(r.syslist):
        for k, a in (("q", sy.beads.q), ("pp", sy.beads.p), ("h", sy.cell.h)):
            require(np.allclose(np.array(a), rec[-1][i][k], rtol=1e-9, atol=1e-12), "the outputs change the dynamics: final %s of system %d", k, i)
    left = {x for x in os.listdir(".") if not x.startswith("RESTART") and x != "EXIT"}
    fftol = {"%16.8e": 1e-8, sim.EXACT: 1e-15, "%.12g": 1e-11}[c["floatformat"]]
    P = len(c["q"])
    for o in c["outs"]:
        steps = [k for k in range(c["N"] + 1) if k % o["stride"] == 0]
        if o["kind"] == "c":
            names = ["%s.%s" % (c["pref"], o["fn"])] if o["over"] else ["%s.%s_%d" % (c["pref"], o["fn"], i) for i in range(len(steps))]
            for i, nm_ in enumerate(names):
                require(nm_ in left, "checkpoint %s is missing (have %r)", nm_, sorted(left))
                left.discard(nm_)
                txt = open(nm_).read()
                m = re.search(r"<step>\s*(\d+)\s*</step>", txt)
                k = int(m.group(1)) if m else 0
                want = steps[-1] if o["over"] else steps[i]
                require(k == want, "checkpoint %s holds step %d instead of %d", nm_, k, want)
                st2 = sim.load(txt if k < c["N"] else txt.replace("<total_steps>%d</total_steps>" % c["N"], "<total_steps>%d</total_steps>" % (c["N"] + 5)))
                for j, sy in enumerate(st2.syslist):
                    require(np.allclose(np.array(sy.beads.q), rec[k][j]["q"], rtol=1e-8 if fftol < 1e-7 else 1e-6, atol=1e-7), "checkpoint %s does not hold the positions of step %d", nm_, k)
                for f in st2.fflist.values():
                    f.stop()
                for oo in st2.outputs:      # the streams opened by loading it
                    if hasattr(oo, "close_stream"):
                        oo.close_stream()
                env.reset()
            # loading opens the files again for appending, or backs them up: drop the backups
            for x in list(os.listdir(".")):
                if x.startswith("#"):
                    src = re.match(r"#(.*)#\d+#$", x).group(1)
                    shutil.move(x, src)
            continue
        for j in range(nsys):
            pre = ("s%d_" % j if nsys > 1 else "") + c["pref"] + "." + o["fn"]
            if o["kind"] == "p":
                require(pre in left, "property file %s is missing (have %r)", pre, sorted(left))
                left.discard(pre)
                check_props(c, o, pre, [(k, rec[k][j]) for k in steps], P, fftol)
                continue
            per = o["kind"] == "x" or TRAJ[o["key"]][1]
            ext = "" if o["kind"] == "x" else "." + o["format"]
            w = len(str(P))
            beads = [None] if not per else [o["bead"]] if o["bead"] >= 0 else [b for b in range(P) if b % -o["bead"] == 0]
            for b in beads:
                nm_ = pre + ("" if b is None else "_%0*d" % (w, b)) + ext
                require(nm_ in left, "trajectory file %s is missing (have %r)", nm_, sorted(left))
                left.discard(nm_)
                if o["kind"] == "x":
                    check_extras(o, nm_, [(k, rec[k][j]["x"]) for k in steps], b, fftol)
                else:
                    check_traj(c, o, nm_, [(k, rec[k][j]) for k in steps], b)
    require(not left, "unexpected files %r", sorted(left))
    return " ".join(sorted({o["kind"] + (o.get("format") or "") for o in c["outs"]}))


def check_props(c, o, fn, want, P, fftol):
    L = open(fn).read().split("\n")
    head = [l for l in L if l.startswith("# ")]
    body = [l.split() for l in L if l.strip() and not l.startswith("#")]
    require(len(body) == len(want), "%s has %d rows instead of %d", fn, len(body), len(want))
    require(len(head) == len(o["list"]), "%s: %d header lines for %d properties", fn, len(head), len(o["list"]))
    col = 1
    for l, x in zip(head, o["list"]):
        dim, size = PROPS[x["key"]]
        size = {"P": P, "3P": 3 * P}.get(size, size)
        m = re.match(r"# (?:column +(\d+)|cols\. +(\d+)-(\d+)) *--> (\S.*?) : ", l)
        require(m is not None, "%s: header line %r not understood", fn, l)
        a = int(m.group(1) or m.group(2))
        b = int(m.group(3) or a)
        require((a, b) == (col, col + size - 1), "%s: the header places %s in columns %d-%d, it is in %d-%d", fn, x["text"], a, b, col, col + size - 1)
        require(m.group(4).strip() == x["text"], "%s: header %r for %s", fn, m.group(4), x["text"])
        fac, tol = factor(dim, x["unit"])
        for (k, r), row in zip(want, body):
            require(len(row) >= b, "%s step %d: %d columns, %s should end in column %d", fn, k, len(row), x["text"], b)
            got = np.array([float(y) for y in row[a - 1:b]])
            w = r["p"][x["text"]] * fac
            lim = (tol + fftol * 3 + 1e-9) * np.abs(w) + 1e-12 * max(fac, 1e-30) * (1 + np.abs(r["p"][x["text"]]).max())
            if x["key"] in ("scaledcoords",):
                continue
            require(bool(np.all((np.abs(got - w) <= lim) | (got == w) | (np.isnan(got) & np.isnan(w)))), "%s step %d: %s is %r, expected %r", fn, k, x["text"], got.tolist(), w.tolist())
        col = b + 1
    for row in body:
        require(len(row) == col - 1, "%s: a row has %d values, the header announces %d columns", fn, len(row), col - 1)


def check_traj(c, o, fn, want, b):
    dim = TRAJ[o["key"]][0]
    fr = (pdb if o["format"] == "pdb" else xyz)(open(fn).read())
    require(len(fr) == len(want), "%s has %d frames instead of %d", fn, len(fr), len(want))
    auto = 1.0 / REF["length"]["angstrom"] if o["format"] == "pdb" else 1.0
    fac = factor(dim, o["unit"])[0] if o["unit"] else auto
    cf = factor("length", o["cell"])[0] if o["cell"] else auto
    un = o["unit"] or ("angstrom" if o["format"] == "pdb" else "atomic_unit")
    cu = o["cell"] or ("angstrom" if o["format"] == "pdb" else "atomic_unit")
    for (title, names, x, cell), (k, r) in zip(fr, want):
        m = re.search(r"Step: +(\d+) +Bead: +(\d+)", title)
        require(m is not None and int(m.group(1)) == k, "%s: frame of step %d is labelled %r", fn, k, title)
        require(int(m.group(2)) == (b or 0), "%s: bead %s is labelled %r", fn, b, title)
        require("%s{%s}" % (o["key"], un) in title or o["unit"] == "" and o["key"] + "{" in title, "%s: the title %r does not name the quantity %s and unit %s", fn, title, o["key"], un)
        require("cell{%s}" % cu in title or not o["cell"], "%s: the title %r does not name the cell unit %s", fn, title, cu)
        require(names == list(c["names"]), "%s step %d: atoms %r", fn, k, names)
        d = r["t"]["forces_component", o["arg"]] if o["key"] == "forces_component" else r["t"][o["key"]]
        w = (d[b] if b is not None else d).reshape(-1, 3) * fac
        lim = 1.6e-5 * np.abs(w) + (6e-4 if o["format"] == "pdb" else 0.0) + 1e-12 * fac
        require(bool(np.all(np.abs(x - w) <= lim)), "%s step %d: %r instead of %r", fn, k, x.tolist(), w.tolist())
        wc = params(r["h"])
        wc[:3] *= cf
        lc = np.array([6e-4] * 3 + [6e-3] * 3) if o["format"] == "pdb" else np.full(6, 6e-6)
        require(bool(np.all(np.abs(cell - wc) <= lc + 1e-5 * np.abs(wc))), "%s step %d: cell %r instead of %r", fn, k, cell.tolist(), wc.tolist())


def check_extras(o, fn, want, b, fftol):
    blocks = re.split(r" #EXTRAS\([^)]*\)# Step: +(\d+) *\n", open(fn).read())
    require(blocks[0].strip() == "", "%s starts with %r", fn, blocks[0])
    ks, tx = blocks[1::2], blocks[2::2]
    require([int(k) for k in ks] == [k for k, _ in want], "%s has steps %r instead of %r", fn, ks, [k for k, _ in want])
    for t, (k, x) in zip(tx, want):
        w = np.hstack([np.asarray(x[e][b], float) for e in o["et"].split(",")])
        got = [[float(y) for y in l.split()] for l in t.strip().split("\n")]
        got = np.array(got if w.ndim == 2 else got[0])
        require(got.shape == w.shape and np.allclose(got, w, rtol=fftol * 3 + 1e-9, atol=1e-12), "%s step %d: %r instead of %r", fn, k, got.tolist(), w.tolist())


if __name__ == "__main__":
    main("C06", [Sub("out", gen(), t_out, quick=500, thorough=8000, shards=8)],
         rule="a case is a simulation of one or two systems and a generated set of property, trajectory, extras and checkpoint outputs; all cases are non-trivial, labels give the kinds of output",
         assumptions=["atomic-unit values are taken from the property objects (their definitions are C28); unit factors are CODATA, tolerance of the package tables"], quick_s=100, thorough_s=900)
