"""C08: the simulation starts from the state that the input describes."""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim
from checks.c07_files import cell_of, abc, MASS, AMU, NAMES
from checks.c19_forces import cmat
import numpy as np

ANG, MS, KEL = 1.8897261, 4.5710289e-7, 3.1668152e-06
LU = {"": 1.0, "atomic_unit": 1.0, "angstrom": ANG, "nanometer": 10 * ANG}
PAR = "{k: 0.01, c: 0.0, g: 0.0}"


def arr(x):
    return "[" + ", ".join("%.12g" % v for v in np.asarray(x, float).reshape(-1)) + "]"


def frames_xyz(qs, names, com):
    return "".join("%d\n# %s\n" % (len(names), com) + "".join("%s %.12g %.12g %.12g\n" % (n, *x) for n, x in zip(names, np.reshape(q, (-1, 3)))) for q in qs)


@st.composite
def gen(draw):
    P, N = draw(st.integers(1, 6)), draw(st.integers(1, 4))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=N, max_size=N))
    vec = lambda n, s=1.0: [draw(sim.floats(-5.0, 5.0)) * s for _ in range(n)]
    lu = lambda: draw(st.sampled_from(sorted(LU)))
    F = lambda: draw(st.one_of(st.just(P), st.just(1), st.integers(1, 7)))
    ops = []
    start = draw(st.sampled_from(["xyz", "pdb", "chk", "ase", "manual"]))

    def path(kind, mode):
        """a whole-path positions/momenta/velocities directive"""
        f = F() if mode != "manual" else P
        o = dict(op=kind, mode=mode, v=[vec(3 * N) for _ in range(f)])
        if mode in ("xyz", "manual"):
            o["units"] = lu() if kind == "positions" else draw(st.sampled_from(["", "m/s"])) if kind == "velocities" else ""
            o["header"] = mode == "xyz" and draw(st.booleans())
        return o

    if start == "manual":
        ops.append(path("positions", "manual"))
        ops.append(dict(op="masses", v=[draw(sim.floats(1.0, 50.0)) for _ in range(N)], units=draw(st.sampled_from(["", "dalton"]))))
        ops.append(dict(op="labels", v=names))
        ops.append(dict(op="cell", mode="manual", abc=draw(abc()), units=lu()))
        if draw(st.booleans()):
            ops[1:] = draw(st.permutations(ops[1:]))
    else:
        ops.append(dict(op="file", mode=start, v=[vec(3 * N) for _ in range(F())], abc=draw(abc()), units=lu() if start == "xyz" else "", cunits=lu() if start == "xyz" else "", header=draw(st.booleans()), nocell=start == "xyz" and draw(st.integers(0, 3)) == 0))
        if ops[0]["nocell"]:
            ops.append(dict(op="cell", mode=draw(st.sampled_from(["abc", "abcABC", "manual"])), abc=draw(abc()), units=lu()))
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.sampled_from(["positions", "momenta", "velocities", "momenta", "velocities", "masses", "labels", "cell", "sub", "sub"]))
        if k in ("positions", "momenta", "velocities"):
            ops.append(path(k, draw(st.sampled_from(["manual", "xyz", "chk"]))))
        elif k == "masses":
            o = dict(op="masses", v=[draw(sim.floats(1.0, 50.0)) for _ in range(N)], units=draw(st.sampled_from(["", "dalton"])))
            if draw(st.booleans()):
                o["index"], o["v"] = draw(st.integers(0, N - 1)), o["v"][:1]
            ops.append(o)
        elif k == "labels":
            o = dict(op="labels", v=draw(st.lists(st.sampled_from(NAMES), min_size=N, max_size=N)))
            if draw(st.booleans()):
                o["index"], o["v"] = draw(st.integers(0, N - 1)), o["v"][:1]
            ops.append(o)
        elif k == "cell":
            ops.append(dict(op="cell", mode=draw(st.sampled_from(["abc", "abcABC", "manual", "chk", "pdb"])), abc=draw(abc()), units=lu()))
        else:
            o = dict(op=draw(st.sampled_from(["positions", "momenta", "velocities"])), mode="manual")
            o["units"] = lu() if o["op"] == "positions" else draw(st.sampled_from(["", "m/s"])) if o["op"] == "velocities" else ""
            w = draw(st.sampled_from(["bead", "index", "both"]))
            if w != "bead":
                o["index"] = draw(st.integers(0, N - 1))
            if w != "index":
                o["bead"] = draw(st.integers(0, P - 1))
            o["v"] = [vec(3 * (N if w == "bead" else 1)) for _ in range(P if w == "index" else 1)]
            ops.append(o)
    return dict(P=P, N=N, names=names, ops=ops, bad=draw(st.sampled_from([None] * 5 + ["index", "bead", "natoms", "order"])))


def t_init(case):
    c = json.loads(json.dumps(case))
    P, N = c["P"], c["N"]
    ops = c["ops"]
    if c["bad"] == "index":
        ops.append(dict(op="positions", mode="manual", units="", index=N, v=[[0.0, 0.0, 1.0]] * P))
    elif c["bad"] == "bead":
        ops.append(dict(op="momenta", mode="manual", units="", bead=P, v=[[0.5] * (3 * N)]))
    elif c["bad"] == "natoms":
        ops.append(dict(op="positions", mode="xyz", units="", header=False, v=[[0.5] * (3 * N + 3)]))
    elif c["bad"] == "order":
        if ops[0]["op"] == "file" or any(o["op"] == "masses" for o in ops[:1]):
            c["bad"] = None
        else:
            ops.insert(1, dict(op="velocities", mode="manual", units="", v=[[0.5] * (3 * N)] * P))
    q = np.zeros((P, 3 * N))
    p = np.zeros((P, 3 * N))
    m, names, h = None, c["names"], None
    fmom = False
    xml = ""

    def chk(fn, v, abc_=None, names_=None, ps=None):
        v = np.array(v)
        d = dict(q=v.tolist(), p=(ps if ps is not None else 0 * v), m=[MASS[x] * AMU for x in (names_ or names)], names=names_ or names, cell=cell_of(abc_) if abc_ else np.eye(3) * 9.0, ffs=[dict(name="ff", par=dict(k=0.01, c=0.0, g=0.0))], forces=[dict(ff="ff")], temp=1e-3, mode="nve", fixcom=False)
        open(fn, "w").write(sim.build(d))

    for i, o in enumerate(ops):
        k = o["op"]
        fn = "in%d.%s" % (i, o.get("mode", ""))
        fac = 1.0
        if k == "file":
            v = np.array(o["v"])
            mode = o["mode"]
            u = ANG if mode in ("pdb", "ase") else LU[o["units"]]
            cu = ANG if mode in ("pdb", "ase") else LU[o["cunits"]]
            at = " mode='%s'" % mode
            if mode == "xyz":
                com = "" if o["nocell"] else "CELL{abcABC}: " + " ".join("%.12g" % x for x in o["abc"]) + " "
                if o["header"]:
                    com += "positions{%s} cell{%s}" % (o["units"] or "atomic_unit", o["cunits"] or "atomic_unit")
                else:
                    at += (" units='%s'" % o["units"] if o["units"] else "") + (" cell_units='%s'" % o["cunits"] if o["cunits"] else "")
                if o["nocell"] and o["header"]:
                    com = "positions{%s}" % (o["units"] or "atomic_unit")
                open(fn, "w").write(frames_xyz(v, names, com))
            elif mode == "pdb":
                v = np.round(v, 3)
                o["abc"] = [round(x, 3) for x in o["abc"][:3]] + [round(x, 2) for x in o["abc"][3:]]
                s = ""
                for f in v:
                    s += "CRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f P 1           1\n" % tuple(o["abc"])
                    s += "".join("ATOM  %5d %4s   1     1    %8.3f%8.3f%8.3f  0.00  0.00            0\n" % (j + 1, n, *x) for j, (n, x) in enumerate(zip(names, f.reshape(-1, 3)))) + "END\n"
                open(fn, "w").write(s)
            elif mode == "ase":
                names = c["names"] = [{"D": "H", "O18": "O"}.get(n, n) for n in names]
                fn = fn.replace(".ase", ".extxyz")
                hh = cell_of(o["abc"])
                open(fn, "w").write("".join("%d\nLattice=\"%s\" Properties=species:S:1:pos:R:3 pbc=\"T T T\"\n" % (N, " ".join("%.12g" % x for x in hh.T.reshape(-1))) + "".join("%s %.12g %.12g %.12g\n" % (n, *x) for n, x in zip(names, f.reshape(-1, 3))) for f in v))
            else:
                u = cu = 1.0
                ps = np.random.RandomState(3).normal(size=v.shape)
                chk(fn, v, o["abc"], ps=ps)
                p = cmat(len(v), P, False) @ ps * np.sqrt(P / len(v))
                fmom = True
            xml += "<file%s>%s</file>" % (at, fn)
            q = cmat(len(v), P, False) @ v * u
            m = np.array([MASS[x] * AMU for x in names])
            if not o["nocell"]:
                h = cell_of(o["abc"]) * cu
        elif k in ("positions", "momenta", "velocities"):
            mode = o["mode"]
            at = " mode='%s'" % mode + "".join(" %s='%d'" % (x, o[x]) for x in ("index", "bead") if x in o)
            v = np.array(o["v"])
            un = o.get("units", "")
            fac = LU[un] if k == "positions" else MS if un == "m/s" else 1.0
            if mode == "manual":
                at += " units='%s'" % un if un else ""
                val = arr(v)
            elif mode == "xyz":
                com = "nothing"
                if o.get("header"):
                    com = "%s{%s}" % (k, un or "atomic_unit")
                elif un:
                    at += " units='%s'" % un
                open(fn, "w").write(frames_xyz(v, (names + ["H"])[: v.shape[1] // 3], com))
                val = fn
            else:
                chk(fn, v if k == "positions" else 0.0 * v, ps=v)
                if k == "velocities":
                    v = v / np.repeat([MASS[x] * AMU for x in names], 3)
                val = fn
            xml += "<%s%s>%s</%s>" % (k, at, val, k)
            if c["bad"] and i == (1 if c["bad"] == "order" else len(ops) - 1):
                continue
            v = v * fac
            sl = slice(3 * o["index"], 3 * o["index"] + 3) if "index" in o else slice(None)
            if k == "velocities":
                v = v * np.repeat(m, 3)[sl]
            if "bead" in o:
                new = v[0]
            else:
                new = cmat(len(v), P, False) @ v * (np.sqrt(P / len(v)) if k != "positions" else 1.0)
            tgt = q if k == "positions" else p
            if "bead" in o:
                tgt[o["bead"], sl] = new
            else:
                tgt[:, sl] = new
            if k != "positions":
                fmom = True
        elif k == "masses":
            f = AMU if o["units"] == "dalton" else 1.0
            xml += "<masses mode='manual'%s%s>%s</masses>" % (" units='%s'" % o["units"] if o["units"] else "", " index='%d'" % o["index"] if "index" in o else "", arr(o["v"]))
            old = m
            new = np.array(o["v"]) * f
            if "index" in o:
                m = m.copy()
                m[o["index"]] = new[0]
            else:
                m = new
            if fmom and old is not None:
                p = p * np.repeat(np.sqrt(m / old), 3)
        elif k == "labels":
            xml += "<labels mode='manual'%s>[%s]</labels>" % (" index='%d'" % o["index"] if "index" in o else "", ", ".join(o["v"]))
            if "index" in o:
                names = names[: o["index"]] + o["v"] + names[o["index"] + 1 :]
            else:
                names = o["v"]
        else:
            a = list(o["abc"])
            if o["mode"] == "abc":
                a[3:] = [90.0] * 3
            if o["mode"] == "chk":
                o["units"] = ""
                chk(fn, q, a)
            elif o["mode"] == "pdb":
                a = [round(x, 3) for x in a[:3]] + [round(x, 2) for x in a[3:]]
                o["units"] = ""
                open(fn, "w").write("CRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f P 1           1\nATOM      1    H   1     1       0.000   0.000   0.000  0.00  0.00            0\nEND\n" % tuple(a))
            h = cell_of(a) * (ANG if o["mode"] == "pdb" else LU[o["units"]])
            val = fn if o["mode"] in ("chk", "pdb") else arr(a[:3]) if o["mode"] == "abc" else arr(a) if o["mode"] == "abcABC" else arr(cell_of(a))
            xml += "<cell mode='%s'%s>%s</cell>" % (o["mode"], " units='%s'" % o["units"] if o["units"] else "", val)
    d = dict(q=np.zeros((P, 3 * N)), nobeads=True, initialize=xml, ffs=[dict(name="ff", par=dict(k=0.01, c=0.0, g=0.0))], forces=[dict(ff="ff")], temp=1e-3, mode="nve", fixcom=False)
    text = sim.build(d)
    i0 = text.index("<cell", text.index("</initialize>"))
    text = text[:i0] + text[text.index("</cell>", i0) + 7 :]
    try:
        s = sim.load(text)
    except Exception as ex:
        if c["bad"]:
            return "refused " + c["bad"]
        raise
    y = s.syslist[0]
    require(not c["bad"], "an initialization with wrong %s is accepted", c["bad"])
    S = lambda x: float(np.abs(x).max(initial=0.0))
    for nm, a, b in (("positions", np.array(y.beads.q), q), ("masses", np.array(y.beads.m), m), ("momenta", np.array(y.beads.p), p), ("cell", np.array(y.cell.h), h)):
        tol = 1e-2 if nm == "masses" and ops[0].get("mode") == "ase" else 3e-5
        if nm == "momenta" and ops[0].get("mode") == "ase":
            tol = 1e-2
        require(a.shape == b.shape and S(a - b) <= tol * (S(b) + 1e-12), "the %s are %r instead of %r after %s", nm, a.tolist(), b.tolist(), xml)
    require(list(y.beads.names) == names, "the labels are %r instead of %r after %s", list(y.beads.names), names, xml)
    return "%s %d" % (ops[0].get("mode"), len(ops))


# --- thermal momenta --------------------------------------------------------------------------

@st.composite
def gen_thermal(draw):
    P = draw(st.integers(1, 6))
    d = dict(P=P, N=draw(st.integers(60, 150)), seed=draw(st.integers(1, 10**6)), temp=draw(sim.floats(1e-4, 5e-3)), ask=draw(st.sampled_from([-1.0, 300.0, 0.002])), tag=draw(st.sampled_from(["velocities", "momenta"])),
             m=[draw(sim.floats(500.0, 30000.0)) for _ in range(3)], style=draw(st.sampled_from(["rpmd", "rpmd", "pa-cmd", "wmax-cmd", "manual"])), f=[draw(sim.floats(0.5, 4.0)) for _ in range(6)], open=draw(st.integers(0, 3)) == 0)
    if d["style"] == "manual" and d["open"]:
        d["style"] = "wmax-cmd"
    return d


def t_thermal(case):
    from scipy import stats
    c = case
    P, N = c["P"], c["N"]
    m = np.resize(c["m"], N)
    T = c["temp"] if c["ask"] < 0 else c["ask"] * (KEL if c["ask"] > 1 else 1.0)
    un = " units='kelvin'" if c["ask"] > 1 else ""
    om = P * c["temp"]
    j = np.arange(P)
    opened = list(range(0, N, 2)) if c["open"] else []
    w_c = 2 * om * np.sin(np.pi * j / P)
    w_o = 2 * om * np.sin(np.pi * j / (2 * P))
    nm = {}
    if c["style"] == "rpmd" or P == 1:
        f_c = f_o = np.ones(P)
    elif c["style"] == "pa-cmd":
        w = c["f"][0] * om
        nm["frequencies"] = ("pa-cmd", [w])
        f_c, f_o = np.where(j == 0, 1.0, (w_c / w) ** 2), np.where(j == 0, 1.0, (w_o / w) ** 2)
    elif c["style"] == "wmax-cmd":
        w, wt = c["f"][0] * om, c["f"][1] * om
        nm["frequencies"] = ("wmax-cmd", [w, wt])
        g = lambda x: np.where(j == 0, 1.0, (x**2 + w**2) / (x**2 + (w * x / wt) ** 2 + 1e-300 * (j == 0)))
        f_c = f_o = None
    else:
        w = np.array(c["f"][: P - 1]) * om
        nm["frequencies"] = ("manual", list(w))
        f_c = np.concatenate([[1.0], (w_c[1:] / w) ** 2])
        f_o = f_c
    d = dict(q=np.zeros((P, 3 * N)), p=np.zeros((P, 3 * N)), m=m.tolist(), names=["H"] * N, initialize="<%s mode='thermal'%s>%.12g</%s>" % (c["tag"], un, c["ask"], c["tag"]), ffs=[dict(name="ff", par=dict(k=0.01, c=0.0, g=0.0))], forces=[dict(ff="ff")],
             temp=c["temp"], mode="nve", seed=c["seed"], fixcom=False)
    if opened:
        nm["open_paths"] = opened
    if nm:
        d["nm"] = nm
    s = sim.make(d)
    y = s.syslist[0]
    p = np.array(y.beads.p)
    pn = np.array(y.nm.pnm)
    for nme, at in (("closed", [i for i in range(N) if i not in opened]), ("open", opened)):
        if not at:
            continue
        f = f_c if nme == "closed" else f_o
        for k in range(P):
            x = pn[k].reshape(N, 3)[at] / np.sqrt(m[at])[:, None]
            # the mass the dynamics uses for this mode
            M = np.array(y.nm.dynm3)[k].reshape(N, 3)[at] / m[at][:, None]
            if f is not None:
                require(np.allclose(M, f[k], rtol=1e-6), "dynamical mass factor of mode %d is %r instead of %g", k, M.reshape(-1)[:2].tolist(), f[k])
            z = (x / np.sqrt(M * P * T)).reshape(-1)
            pv = 2 * min(stats.chi2.cdf((z**2).sum(), z.size), stats.chi2.sf((z**2).sum(), z.size))
            require(pv > 1e-12, "thermal momenta of mode %d (%s paths) have variance %.4g of what temperature %g asks for", k, nme, (z**2).mean(), T)
            require(stats.kstest(z, "norm").pvalue > 1e-12, "thermal momenta of mode %d are not Gaussian", k)
    r = np.corrcoef(pn) if P > 1 else np.eye(1)
    require(np.abs(r - np.eye(P)).max() < 8 / np.sqrt(3 * N), "thermal momenta of different modes are correlated: %.3f", np.abs(r - np.eye(P)).max())
    return "%s P=%d%s" % (c["style"], P, " open" if opened else "")


@st.composite
def gen_gle(draw):
    c = draw(sim.matter(max_atoms=2, max_beads=3))
    c["A"] = draw(sim.gle_A())
    c["kind"] = draw(st.sampled_from(["gle", "nm_gle_g"]))
    c["mode2"] = draw(st.sampled_from(["manual", "chk", "short"]))
    c["s"] = [draw(sim.floats(-2.0, 2.0)) for _ in range(3 * len(c["m"]) * len(c["A"]) * len(c["q"]))]
    return c


def t_gle(case):
    c = dict(case)
    n, P, ns = len(c["m"]), len(c["q"]), len(c["A"])
    shape = (ns, 3 * n * P) if c["kind"] == "gle" else (P, ns, 3 * n)
    s = np.array(c["s"]).reshape(shape)
    if c["kind"] == "nm_gle_g":
        th = lambda extra: "<thermostat mode='nm_gle_g'><tau>100</tau>%s%s</thermostat>" % (sim.tag("A", np.array([c["A"]] * P)), extra)
    else:
        th = lambda extra: "<thermostat mode='gle'>%s%s</thermostat>" % (sim.tag("A", np.array(c["A"])), extra)
    d = dict(c, ffs=[dict(name="ff", par=dict(k=0.01, c=0.0, g=0.0))], forces=[dict(ff="ff")], mode="nvt", fixcom=False)
    mk = lambda t: "<motion mode='dynamics'><fixcom>False</fixcom><dynamics mode='nvt'><timestep>1.0</timestep>%s</dynamics></motion>" % t
    if c["mode2"] == "chk":
        open("a.chk", "w").write(sim.build(dict(d, motion=mk(th(sim.tag("s", s))))))
        init = "<gle mode='chk'>a.chk</gle>"
    else:
        init = "<gle mode='manual'>%s</gle>" % arr(s if c["mode2"] == "manual" else s.reshape(-1)[:-1])
    try:
        y = sim.make(dict(d, motion=mk(th("")), initialize=init)).syslist[0]
    except ValueError:
        if c["mode2"] == "short":
            return "refused"
        raise
    require(c["mode2"] != "short", "thermostat momenta of the wrong size are accepted")
    got = np.array(y.motion.thermostat.s)
    require(got.size == s.size and np.allclose(got.reshape(-1), s.reshape(-1)), "the thermostat momenta are %r instead of %r", got.tolist(), s.tolist())
    return c["mode2"]


if __name__ == "__main__":
    main("C08", [Sub("init", gen(), t_init, quick=1200, thorough=30000, shards=6), Sub("thermal", gen_thermal(), t_thermal, quick=200, thorough=3000, shards=2), Sub("gle", gen_gle(), t_gle, quick=40, thorough=1000, shards=1)],
         rule="a case is an <initialize> block with 1 to 8 directives (files in all formats with generated bead numbers, manual values, units, single atoms and beads, or one wrong directive), or thermal momenta for a generated ring polymer",
         assumptions=["files have the precision of their format", "thermal momenta are judged at p = 1e-12"], quick_s=60, thorough_s=600)
