"""C33: the installed analysis tools return what an independent analysis of the same files does."""
import os, sys, runpy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim, env
import numpy as np
from hypothesis import strategies as st

F = sim.floats
ANG = 1.8897261246
LEN = dict(angstrom=ANG, atomic_unit=1.0, nanometer=10 * ANG)
KB = 3.166811563e-06


def tool(name, *args):
    """runs an installed tool as from the command line; returns what it prints"""
    path = os.path.join(REPO, "bin", "i-pi-" + name)
    argv, so = sys.argv, sys.stdout
    from ipi.utils.messages import verbosity
    import tempfile, gc
    so.flush()
    sys.__stdout__.flush()
    old = os.dup(1)
    f = tempfile.TemporaryFile()
    os.dup2(f.fileno(), 1)
    try:
        sys.argv, sys.stdout = [path] + [str(a) for a in args], sys.__stdout__
        try:
            runpy.run_path(path, run_name="__main__")
        except SystemExit as e:
            require(not e.code, "i-pi-%s %s exits with %r", name, " ".join(map(str, args)), e.code)
        gc.collect()  # an interpreter that ends closes its files
    finally:
        sys.__stdout__.flush()
        os.dup2(old, 1)
        os.close(old)
        sys.argv, sys.stdout = argv, so
        verbosity.level = "quiet"
        f.seek(0)
        out = f.read().decode()
        f.close()
    return out


def must(name, *args):
    try:
        return tool(name, *args)
    except (Violation, HarnessError, KeyboardInterrupt):
        raise
    except Exception as e:
        raise Violation("i-pi-%s %s fails: %s: %s" % (name, " ".join(map(str, args)), type(e).__name__, e))


def near(a, b, what, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    require(a.shape == b.shape, "%s: shape %r, should be %r", what, a.shape, b.shape)
    require(np.abs(a - b).max(initial=0.0) <= tol, "%s: %r, should be %r", what, a.tolist(), b.tolist())


def cellmat(v):
    """upper triangular cell (columns are the lattice vectors) with given entries"""
    return np.array([[12.0 + v[0], v[1], v[2]], [0, 12.0 + v[3], v[4]], [0, 0, 12.0 + v[5]]])


def abc(h):
    l = np.linalg.norm(h, axis=0)
    ang = lambda i, j: np.degrees(np.arccos(h[:, i] @ h[:, j] / l[i] / l[j]))
    return list(l) + [ang(1, 2), ang(0, 2), ang(0, 1)]


def write_xyz(fn, frames, cells, names, what="positions", unit="atomic_unit", cunit="atomic_unit"):
    """frames and cells are in the units of the file"""
    with open(fn, "w") as f:
        for i, (x, h) in enumerate(zip(frames, cells)):
            f.write("%d\n# CELL(abcABC): %s  Step: %d  Bead: 0 %s{%s} cell{%s}\n" % (len(names), " ".join("%.10f" % y for y in abc(h)), i, what, unit, cunit))
            for n, y in zip(names, np.array(x).reshape(-1, 3)):
                f.write("%s %.12e %.12e %.12e\n" % ((n,) + tuple(y)))


def read_xyz(fn):
    """[(comment, names, data, cell, units of data, units of cell)]"""
    import re
    out, L = [], open(fn).read().split("\n")
    while len(L) > 2:
        n = int(L[0])
        r = [l.split() for l in L[2:2 + n]]
        m = re.search(r"CELL[\(\[\{]abcABC[\)\]\}]: *((?:\S+ +){6})", L[1] + " ")
        c = [float(y) for y in m.group(1).split()] if m else None
        u = re.search(r"(\w+)\{(\w+)\}", L[1].split(":", 1)[1] if ":" in L[1] else L[1])
        uu = dict(re.findall(r"(\w+)\{(\w+)\}", L[1]))
        out.append((L[1], [y[0] for y in r], np.array([[float(z) for z in y[1:4]] for y in r]).flatten(), c, uu))
        L = L[2 + n:]
    return out


# ------------------------------------------------------------------ ring polymer contraction of files
@st.composite
def beads_case(draw, maxP=6):
    n, P, nf = draw(st.integers(1, 3)), draw(st.integers(1, maxP)), draw(st.integers(1, 3))
    c = dict(n=n, P=P, nf=nf, names=[draw(st.sampled_from(["H", "O", "Si"])) for _ in range(n)])
    c["x"] = [[draw(sim.unit_vec(3 * n, -9.0, 9.0)) for _ in range(P)] for _ in range(nf)]
    c["h"] = [draw(sim.unit_vec(6, -1.5, 1.5)) for _ in range(nf)]
    c["unit"], c["cunit"] = draw(st.sampled_from(sorted(LEN))), draw(st.sampled_from(sorted(LEN)))
    c["Q"] = draw(st.integers(1, P))
    c["cout"] = draw(st.sampled_from([None, None] + sorted(LEN)))
    return c


def trunc(q, Q):
    """the smooth part of a path on Q beads: Fourier components that Q beads can represent"""
    P = len(q)
    K = (Q - 1) // 2
    t = np.zeros((Q, q.shape[1]), complex)
    for k in range(-K, K + 1):
        c = (q * np.exp(-2j * np.pi * k * np.arange(P) / P)[:, None]).mean(0)
        t += np.exp(2j * np.pi * k * np.arange(Q) / Q)[:, None] * c
    return t.real


def t_contract(c):
    P, Q, nf = c["P"], c["Q"], c["nf"]
    x = np.array(c["x"])  # frames, beads, coordinates, in the unit of the file
    if Q % 2 == 0 and Q < P:  # paths that Q beads can represent
        x = np.array([trunc(y, Q) if Q == P else np.array([trunc(np.array(y), 2 * ((Q - 1) // 2) + 1)]).repeat(1, 0)[0] for y in x])
        K = (Q - 1) // 2
        big = []
        for y in x:  # smooth path on P beads
            m = len(y)
            t = np.zeros((P, y.shape[1]), complex)
            for k in range(-K, K + 1):
                cc = (y * np.exp(-2j * np.pi * k * np.arange(m) / m)[:, None]).mean(0)
                t += np.exp(2j * np.pi * k * np.arange(P) / P)[:, None] * cc
            big.append(t.real)
        x = np.array(big)
    H = [cellmat(v) for v in c["h"]]
    fns = []
    for b in range(P):
        fns.append("in_%d.xyz" % b)
        write_xyz(fns[-1], x[:, b], H, c["names"], "positions", c["unit"], c["cunit"])
    a = fns + ["--n", Q, "--filename-out", "out_{:02d}.xyz" if Q > 1 else "out.xyz"]
    if c["cout"]:
        a += ["--cell_units-out", c["cout"]]
    must("contract-trajectory", *a)
    for j in range(Q):
        fr = read_xyz("out_%02d.xyz" % j if Q > 1 else "out.xyz")
        require(len(fr) == nf, "contract-trajectory writes %d frames, should be %d", len(fr), nf)
        for i, (com, names, d, cell, uu) in enumerate(fr):
            want = x[i] if Q == P else trunc(x[i], Q)
            require(names == c["names"], "contract-trajectory: names %r, should be %r", names, c["names"])
            u = [LEN[v] for k, v in uu.items() if k != "cell"]
            u = u[0] if u else LEN[c["unit"]]
            near(d * u / LEN[c["unit"]], want[j], "bead %d of %d contracted from %d, units %s" % (j, Q, P, c["unit"]), 6e-6 * (1 + np.abs(want).max()))
            cu = LEN[uu.get("cell", "atomic_unit")]
            w = abc(H[i])
            near(np.array(cell[:3]) * cu / LEN[c["cunit"]], w[:3], "cell of a contracted trajectory, %s -> %s" % (c["cunit"], c["cout"] or "same"), 2e-4)
            near(cell[3:], w[3:], "cell angles of a contracted trajectory", 2e-3)
    return "P=%d Q=%d" % (P, Q)


# ------------------------------------------------------------------ multiplexing, wrapping
@st.composite
def mux_case(draw):
    c = draw(beads_case(maxP=3))
    nf = c["nf"] = draw(st.integers(1, 6))
    c["x"] = [[draw(sim.unit_vec(3 * c["n"], -20.0, 20.0)) for _ in range(c["P"])] for _ in range(nf)]
    c["h"] = [draw(sim.unit_vec(6, -1.5, 1.5))] * nf if draw(st.booleans()) else [draw(sim.unit_vec(6, -1.5, 1.5)) for _ in range(nf)]
    c["begin"], c["end"], c["stride"] = draw(st.integers(0, 2)), draw(st.sampled_from([-1, -1, 1, 3, 5])), draw(st.integers(1, 3))
    c["op"] = draw(st.sampled_from(["", "", "--wrap", "--unwrap"]))
    return c


def t_mux(c):
    x, H, fns = np.array(c["x"]), [cellmat(v) for v in c["h"]], []
    cu = LEN[c["cunit"]] / LEN[c["unit"]]  # cell in the units of the positions
    for b in range(c["P"]):
        fns.append("in_%d.xyz" % b)
        write_xyz(fns[-1], x[:, b], [h / cu for h in H], c["names"], "positions", c["unit"], c["cunit"])
    must("mux-positions", *(fns + ["--filename-out", "out.xyz", "--begin", c["begin"], "--end", c["end"], "--stride", c["stride"]] + ([c["op"]] if c["op"] else [])))
    fr = read_xyz("out.xyz")
    want = [(i, b) for i in range(c["nf"]) for b in range(c["P"]) if i >= c["begin"] and i % c["stride"] == 0 and (c["end"] < 0 or i < c["end"])]
    require(len(fr) == len(want), "mux-positions %s writes %d frames, should be %d", c, len(fr), len(want))
    last = {}
    full = {}
    for b in range(c["P"]):  # reference of the unwrapped trajectory, all frames
        y = None
        for i in range(c["nf"]):
            q = x[i, b].reshape(-1, 3)
            if y is None:
                y = q
            else:
                s = np.linalg.solve(H[i], (q - y).T)
                y = y + (H[i] @ (s - np.round(s))).T
            full[i, b] = y.flatten()
    for (i, b), (com, names, d, cell, uu) in zip(want, fr):
        require(names == c["names"], "mux-positions: names %r", names)
        u = [LEN[v] for k, v in uu.items() if k != "cell"]
        d = d * (u[0] if u else LEN[c["unit"]]) / LEN[c["unit"]]
        q = x[i, b]
        if c["op"] == "--wrap":
            s = np.linalg.solve(H[i], d.reshape(-1, 3).T)
            require(np.abs(s).max() < 0.5 + 1e-5, "wrapped positions have fractional coordinates %r", s.T.tolist())
            k = np.linalg.solve(H[i], (d - q).reshape(-1, 3).T)
            require(np.abs(k - np.round(k)).max() < 1e-4, "wrapping moves atoms by %r lattice vectors", k.T.tolist())
        elif c["op"] == "--unwrap":
            s = np.linalg.solve(H[i], (full[i, b] - d).reshape(-1, 3).T)
            near(d, full[i, b], "unwrapped positions of frame %d" % i, 5e-4)
        else:
            near(d, q, "positions of frame %d, bead %d" % (i, b), 6e-6 * (1 + np.abs(q).max()))
        near(np.array(cell[:3]) * LEN[uu.get("cell", "atomic_unit")] / LEN[c["unit"]], abc(H[i])[:3], "cell of frame %d" % i, 5e-4)
    return (c["op"] or "plain") if want else None


# ------------------------------------------------------------------ kinetic energies from positions and forces
@st.composite
def kin_case(draw):
    c = draw(beads_case(maxP=5))
    c["nf"] = draw(st.integers(1, 7))
    c["x"] = [[draw(sim.unit_vec(3 * c["n"], -2.0, 2.0)) for _ in range(c["P"])] for _ in range(c["nf"])]
    c["f"] = [[draw(sim.unit_vec(3 * c["n"], -0.1, 0.1)) for _ in range(c["P"])] for _ in range(c["nf"])]
    c["T"] = draw(F(20.0, 1000.0))
    c["funit"] = draw(st.sampled_from(["atomic_unit", "ev/ang"]))
    c["lag"] = draw(st.integers(1, 3))
    return c


def t_kinetic(c):
    x, f, P, n, nf = np.array(c["x"]), np.array(c["f"]), c["P"], c["n"], c["nf"]
    H = [cellmat([0] * 6)] * nf
    fu = dict({"atomic_unit": 1.0, "ev/ang": 1 / 27.211386246 / ANG})[c["funit"]]
    for b in range(P):
        write_xyz("w.pos_%d.xyz" % b, x[:, b], H, c["names"], "positions", c["unit"], c["cunit"])
        write_xyz("w.for_%d.xyz" % b, f[:, b], H, c["names"], "forces", c["funit"], c["cunit"])
    must("posforce2kinetic", "w", c["T"])
    k, o = read_xyz("w.kin.xyz"), read_xyz("w.kod.xyz")
    require(len(k) == nf and len(o) == nf, "posforce2kinetic writes %d and %d frames, should be %d", len(k), len(o), nf)
    X, G = x * LEN[c["unit"]], f * fu
    Ts = []
    for i in range(nf):
        d = (X[i] - X[i].mean(0)).reshape(P, n, 3)
        t = -0.5 * np.einsum("bia,bic->iac", d, G[i].reshape(P, n, 3)) / P
        t = 0.5 * (t + t.transpose(0, 2, 1)) + 0.5 * c["T"] * KB * np.eye(3)[None]
        Ts.append(t)
        sc = np.abs(t).max()
        near(k[i][2].reshape(n, 3), t[:, [0, 1, 2], [0, 1, 2]], "diagonal of the kinetic energy tensors of frame %d" % i, 2e-5 * sc)
        near(o[i][2].reshape(n, 3), t[:, [0, 0, 1], [1, 2, 2]], "off-diagonal part of the kinetic energy tensors of frame %d" % i, 2e-5 * sc)
        require(k[i][1] == c["names"], "posforce2kinetic: names %r", k[i][1])
    lag = c["lag"]
    must("kinetic2tag", "w", lag)
    g = read_xyz("w.ktag_%d.xyz" % lag)
    require(len(g) == max(0, nf - 2 * lag), "kinetic2tag writes %d frames, should be %d", len(g), max(0, nf - 2 * lag))
    Ts = np.array(Ts)
    for i in range(len(g)):
        w = 1 - np.abs(np.arange(-lag, lag + 1)) / lag
        m = np.einsum("t,tiab->iab", w, Ts[i:i + 2 * lag + 1]) / w.sum()
        near(g[i][2].reshape(n, 3), np.linalg.eigvalsh(m), "eigenvalues of the averaged tensors around frame %d" % (i + lag), 1e-4 * np.abs(m).max())
        require(("Frame: %d" % (i + lag)) in g[i][0], "frame label %r, should be %d", g[i][0], i + lag)
    return "P=%d%s" % (P, " tag" if len(g) else "")


# ------------------------------------------------------------------ paths as pdb
def t_merge(c):
    x, H, P, n = np.array(c["x"]), [cellmat(v) for v in c["h"]], c["P"], c["n"]
    for b in range(P):
        write_xyz("w.pos_%d.xyz" % b, x[:, b], H, c["names"], "positions", c["unit"], c["unit"])
    fac = dict(angstrom=0.5291772, atomic_unit=1.0, nanometer=2.0)[c["cunit"]]
    out = must("mergebeadspdb", "w", "pos", repr(fac)).split("END\n")
    require(len(out) == c["nf"] + 1 and not out[-1].strip(), "mergebeadspdb writes %d frames, should be %d", len(out) - 1, c["nf"])
    for i, t in enumerate(out[:-1]):
        L = t.split("\n")
        at = [l for l in L if l.startswith("ATOM")]
        require(len(at) == n * P, "%d atoms in the frame, should be %d", len(at), n * P)
        got = np.array([[float(l[30:38]), float(l[38:46]), float(l[46:54])] for l in at])
        q = x[i].reshape(P * n, 3) * LEN[c["unit"]] * fac
        require(np.abs(got - q).max() < 6e-4 + 1e-6 * np.abs(q).max() or np.abs(got - q / ANG).max() < 6e-4 + 1e-6 * np.abs(q).max(), "positions of all beads: %r, should be %r", got.tolist(), q.tolist())
        near([l[12:16].strip() == c["names"][k % n] for k, l in enumerate(at)], [1] * (n * P), "names", 0)
        con = sorted((int(l[6:11]), int(l[11:16])) for l in L if l.startswith("CONECT"))
        want = sorted(set(((j * n + a + 1, ((j + 1) % P) * n + a + 1) if j < P - 1 else (a + 1, j * n + a + 1)) for j in range(P) for a in range(n))) if P > 1 else []
        if P == 2:
            con = sorted(set(con))
        require(con == want, "bonds of the paths %r, should be %r", con, want)
    return "P=%d" % P


# ------------------------------------------------------------------ reweighting of committees
@st.composite
def rew_case(draw):
    c = dict(nf=draw(st.integers(3, 12)), M=draw(st.integers(2, 4)), K=draw(st.integers(1, 3)), kt=draw(F(5e-4, 5e-3)), seed=draw(st.integers(0, 10**6)))
    c["stride"] = draw(st.sampled_from([1, 1, 2, 3, -2, -3]))
    c["mode"] = draw(st.sampled_from(["cea", "cea", "direct", "multi"]))
    if c["mode"] == "multi":
        c["K"] = max(2, c["K"])
    c["index"] = draw(st.integers(-1, c["K"] - 1)) if c["mode"] != "multi" and c["K"] > 1 else -1
    return c


def t_reweight(c):
    r = np.random.RandomState(c["seed"])
    s = abs(c["stride"])
    nf, M, K = c["nf"], c["M"], c["K"]
    pot = -1.0 + c["kt"] * r.normal(size=(nf * s if c["stride"] > 0 else nf, M))
    obs = r.normal(size=(nf * s if c["stride"] < 0 else nf, K)) + 3 * r.normal(size=K)
    np.savetxt("pot", pot, fmt="%.16e")
    np.savetxt("obs", obs, fmt="%.16e")
    a = ["pot", "obs", "--kt", repr(c["kt"]), "--stride", c["stride"]]
    if c["index"] >= 0:
        a += ["--index", c["index"]]
        obs = obs[:, [c["index"]]]
    if c["mode"] == "direct":
        a += ["--direct"]
    if c["mode"] == "multi":
        a += ["--multi-obs"]
    out = must("committee-reweight", *a)
    got = np.array([[float(y) for y in l.split()] for l in out.split("\n") if l.strip() and not l.startswith("#")])
    V, a = (pot[::s], obs) if c["stride"] > 0 else (pot, obs[::s])
    h = (V - V.mean(1)[:, None]) / c["kt"]
    if c["mode"] == "direct":
        w = np.exp(-h)
        rw = a.T @ (w / w.sum(0))
    else:
        rw = a.mean(0)[:, None] - (a.T @ h / len(a) - a.mean(0)[:, None] * h.mean(0)[None, :])
    if c["mode"] == "multi":
        sa, sv = a.mean(0).var(ddof=1), rw.var(1, ddof=1).mean()
        K = a.shape[1]
        tot = (M * (K - 1) * sa + (M - 1) * K * sv) / (M * K - 1)
        near(got.flatten(), [a.mean(), np.sqrt(tot), np.sqrt(sa), np.sqrt(sv)], "average and uncertainties from %d potentials and %d models" % (M, K), 1e-6 * (1 + np.abs(a).max()))
    else:
        want = np.hstack([rw.mean(1)[:, None], rw.std(1)[:, None], rw])
        near(got, want, "%s reweighting, stride %d" % (c["mode"], c["stride"]), 1e-6 * (1 + np.abs(a).max()))
    return "%s stride %d" % (c["mode"], c["stride"])


# ------------------------------------------------------------------ columns of property files
PROPS = [("step", 1), ("time{picosecond}", 1), ("conserved", 1), ("temperature{kelvin}", 1), ("kinetic_cv{electronvolt}", 1), ("potential{electronvolt}", 1), ("pressure_cv{megapascal}", 1), ("cell_h{angstrom}", 6), ("atom_x{angstrom}(0)", 3), ("volume", 1), ("kinetic_tens", 6), ("ensemble_temperature", 1)]


@st.composite
def col_case(draw):
    c = draw(sim.matter(max_atoms=2, max_beads=2))
    c["ffs"] = [dict(name="ffa", par=draw(sim.pes_par()))]
    c["forces"] = [dict(ff="ffa")]
    c["dt"], c["mode"], c["seed"] = 5.0, "nve", draw(st.integers(0, 10**6))
    c["props"] = draw(st.permutations(list(range(len(PROPS)))).map(lambda x: x[:6]))
    c["n"] = draw(st.integers(1, 5))
    c["skip"] = draw(st.integers(0, 3))
    c["bare"] = draw(st.booleans())
    return c


def t_columns(c):
    pr = [PROPS[i] for i in c["props"]]
    sim.cli_run(sim.build(dict(c, total_steps=c["n"], output="<output prefix='sim'><properties filename='out' stride='1'>[%s]</properties></output>" % ", ".join(p for p, _ in pr))))
    rows = [l.split() for l in open("sim.out") if not l.startswith("#")]
    require(len(rows) == c["n"] + 1, "%d rows", len(rows))
    k = 0
    for p, m in pr:
        name = p.split("{")[0].split("(")[0] if c["bare"] else p
        a = ["sim.out", name] + ([c["skip"]] if c["skip"] else [])
        got = [l.split() for l in must("getproperty", *a).split("\n") if l.strip()]
        want = [r[k:k + m] for r in rows[c["skip"]:]]
        require(got == want, "getproperty %s prints %r, should be %r", name, got, want)
        k += m
    env.reset()
    return "columns"


# ------------------------------------------------------------------ cutting outputs at a checkpoint
TRAJ = ["positions{angstrom}", "velocities", "forces", "momenta", "x_centroid{angstrom}", "extras", "kinetic_cv"]


@st.composite
def trim_case(draw):
    ns = draw(st.integers(1, 2))
    P = draw(st.integers(1, 3))
    c = dict(sys=[draw(sim.matter(max_atoms=2, max_beads=P, min_beads=P)) for _ in range(ns)], seed=draw(st.integers(0, 10**6)))
    par = draw(sim.pes_par())
    par["ext"] = 1
    for s in c["sys"]:
        s.update(forces=[dict(ff="ffa")], dt=5.0, mode="nve", names=["H"] * len(s["m"]))
    c["ffs"] = [dict(name="ffa", par=par)]
    c["pstride"] = [draw(st.integers(1, 4)) for _ in range(draw(st.integers(1, 2)))]
    c["tr"] = [dict(what=draw(st.sampled_from(TRAJ)), stride=draw(st.integers(1, 4)), fmt=draw(st.sampled_from(["xyz", "pdb", "ase"])), bead=draw(st.sampled_from([-1, -1, 0]))) for _ in range(draw(st.integers(0, 3)))]
    c["n"], c["at"] = draw(st.integers(3, 9)), draw(st.integers(1, 4))
    c["prefix"] = draw(st.sampled_from(["sim", "run-1"]))
    return c


def tr_xml(i, t, name="tr", stride=None):
    fmt, what = t["fmt"], t["what"]
    if fmt == "pdb" and not what.startswith(("positions", "x_c")):
        fmt = "xyz"
    if fmt == "ase":
        what = what.split("{")[0]
    return "<trajectory filename='%s%d' stride='%d' format='%s' bead='%d'>%s</trajectory>" % (name, i, stride or t["stride"], fmt, t["bead"], what)


def outputs(c, chk):
    o = "<output prefix='%s'>" % c["prefix"]
    for i, s in enumerate(c["pstride"]):
        o += "<properties filename='out%d' stride='%d'>[step, %s]</properties>" % (i, s, c.get("cols", "potential, conserved"))
    for i, t in enumerate(c["tr"]):
        o += tr_xml(i, t)
    return o + chk + "</output>"


def blocks(fn, extras):
    """a trajectory file as a list of frames"""
    t = open(fn).read()
    if extras:
        return [" #EXTRAS" + x for x in t.split(" #EXTRAS")[1:]]
    if fn.endswith(".pdb"):
        return [x + "END\n" for x in t.split("END\n")[:-1]]
    L, out = t.split("\n"), []
    while len(L) > 1:
        n = int(L[0]) + 2
        out.append("\n".join(L[:n]) + "\n")
        L = L[n:]
    return out


def t_trim(c):
    ns = len(c["sys"])
    base = dict(c["sys"][0], ffs=c["ffs"], seed=c["seed"], total_steps=c["n"], output=outputs(c, "<checkpoint filename='chk' stride='%d' overwrite='False'/>" % c["at"]))
    x = sim.build(dict(base, prefix="a") if ns > 1 else base)
    if ns > 1:
        x = x.replace("</simulation>", sim.system(dict(c["sys"][1], prefix="b")) + "</simulation>")
    sim.cli_run(x)
    env.reset()
    chk = sorted(f for f in os.listdir(".") if "chk" in f)
    files = sorted(f for f in os.listdir(".") if "chk" not in f and (".out" in f or ".tr" in f))
    import re
    for f in chk[1:3]:
        k = int(re.search(r"<step[^>]*>\s*(\d+)", open(f).read()).group(1))
        d = "trim_" + f
        must("trimsim", f, d)
        env.reset()
        have = sorted(os.listdir(d))
        require(have == files, "trimsim writes %r, should be %r", have, files)
        for g in files:
            m = re.search(r"\.(out|tr)(\d)", g)
            stride = c["pstride"][int(m.group(2))] if m.group(1) == "out" else c["tr"][int(m.group(2))]["stride"]
            if m.group(1) == "out":
                L = open(g).read().split("\n")[:-1]
                want = [l for l in L if l.startswith("#") or float(l.split()[0]) <= k]
                want = "".join(l + "\n" for l in want)
            else:
                bl = blocks(g, c["tr"][int(m.group(2))]["what"] == "extras")
                want = "".join(bl[:k // stride + 1])
            got = open(d + "/" + g).read()
            require(got == want, "%s cut at step %d (stride %d): %r, should be %r", g, k, stride, got[-600:], want[-600:])
    return "%d systems, %d trajectories" % (ns, len(c["tr"])) if len(chk) > 1 else None


# ------------------------------------------------------------------ sorting of replica exchange output
@st.composite
def sort_case(draw):
    ns, P, n = draw(st.integers(2, 4)), draw(st.integers(1, 3)), draw(st.integers(1, 2))
    T = draw(st.lists(F(3e-4, 3e-3), min_size=ns, max_size=ns, unique=True))
    par = draw(sim.pes_par())
    par["ext"] = 1
    c = dict(T=T, P=P, nat=n, ffs=[dict(name="ffa", par=par)], seed=draw(st.integers(0, 10**6)), cell=(20 * np.eye(3)).tolist())
    c["q"] = [[draw(sim.unit_vec(3 * n, -1.0, 1.0)) for _ in range(P)] for _ in T]
    c["sstride"] = draw(st.integers(1, 3))
    c["pstride"] = [draw(st.integers(1, 3)) for _ in range(draw(st.integers(0, 2)))]
    c["tr"] = [dict(what=draw(st.sampled_from(TRAJ)), stride=draw(st.integers(1, 3)), fmt=draw(st.sampled_from(["xyz", "pdb", "ase"])), bead=draw(st.sampled_from([-1, -1, 0]))) for _ in range(draw(st.integers(0 if c["pstride"] else 1, 2)))]
    c["n"] = draw(st.integers(2, 8))
    c["prefix"] = draw(st.sampled_from(["sim", "run-1"]))
    c["cols"] = "ensemble_temperature{kelvin}, potential, atom_x(0)"
    c["multi"] = draw(st.booleans())
    c["split"] = draw(st.sampled_from([0, 0, 1, 3]))
    return c


def t_sort(c):
    ns = len(c["T"])
    ref = "<properties filename='temp' stride='1'>[step, ensemble_temperature{kelvin}]</properties>"
    sysl = [dict(q=c["q"][i], p=np.zeros_like(c["q"][i]).tolist(), m=[2000.0] * c["nat"], names=["H"] * c["nat"], cell=c["cell"], temp=T, prefix="s%d" % i, dt=5.0, mode="nvt", thermostat=dict(mode="langevin", tau=50.0), fixcom=False, forces=[dict(ff="ffa")]) for i, T in enumerate(c["T"])]
    sm = "<smotion mode='remd'><remd><stride>%d</stride><swapfile>SW</swapfile></remd></smotion>" % c["sstride"]
    if c["multi"]:
        sm = "<smotion mode='multi'>%s</smotion>" % sm
    x = sim.build(dict(ffs=c["ffs"], systems=sysl, smotion=sm, seed=c["seed"], total_steps=c["n"], threading="False", output=outputs(c, ref)))
    if c["split"] and c["split"] < c["n"]:
        sim.cli_run(x, c["split"])
        y = open("RESTART").read()
        import re
        y = re.sub(r"<total_steps>.*?</total_steps>", "<total_steps>%d</total_steps>" % c["n"], y)
        sim.cli_run(y)
    else:
        sim.cli_run(x)
    env.reset()
    # the tool is given the same input without the output the reference is taken from
    open("in.xml", "w").write(x.replace(ref, ""))
    must("remdsort", "in.xml", "SRT_")
    env.reset()
    temps = {}
    for i in range(ns):
        for l in open("s%d_%s.temp" % (i, c["prefix"])):
            if not l.startswith("#"):
                a, b = l.split()[:2]
                temps[i, int(float(a))] = float(b)
    kel = [T / KB for T in c["T"]]
    at = lambda i, k: [j for j in range(ns) if abs(temps[j, k] - kel[i]) < 1e-4 * kel[i]][0]  # system at temperature i in step k
    exch = any(at(i, k) != i for i in range(ns) for k in range(c["n"] + 1))
    for pi, s in enumerate(c["pstride"]):
        src = [[l for l in open("s%d_%s.out%d" % (j, c["prefix"], pi)) if not l.startswith("#")] for j in range(ns)]
        for i in range(ns):
            got = [l for l in open("SRT_s%d_%s.out%d" % (i, c["prefix"], pi)) if not l.startswith("#")]
            want = [src[at(i, k)][k // s] for k in range(0, c["n"] + 1, s)]
            require(got == want, "sorted properties of replica %d (stride %d): %r, should be %r", i, s, got, want)
            require(all(abs(float(l.split()[1]) - kel[i]) < 1e-4 * kel[i] for l in got), "sorted file at %r K contains %r", kel[i], got)
    for ti, t in enumerate(c["tr"]):
        ff = [f for f in os.listdir(".") if f.startswith("s0_%s.tr%d" % (c["prefix"], ti))]
        for f in ff:
            src = [blocks("s%d" % j + f[2:], t["what"] == "extras") for j in range(ns)]
            for i in range(ns):
                g = "SRT_s%d" % i + f[2:]
                require(os.path.exists(g), "remdsort does not write %s", g)
                got = open(g).read()
                want = "".join(src[at(i, k)][k // t["stride"]] for k in range(0, c["n"] + 1, t["stride"]))
                require(got == want, "sorted trajectory %s: %r, should be %r", g, got[:800], want[:800])
    return "%d replicas%s" % (ns, " exchanged" if exch else "")


SUBS = [Sub("contract", beads_case(), t_contract, 160, 3000), Sub("mux", mux_case(), t_mux, 200, 4000), Sub("kinetic", kin_case(), t_kinetic, 120, 2000), Sub("merge", beads_case(maxP=4), t_merge, 100, 2000), Sub("reweight", rew_case(), t_reweight, 200, 4000), Sub("columns", col_case(), t_columns, 60, 1000), Sub("trim", trim_case(), t_trim, 120, 2000, shards=2), Sub("sort", sort_case(), t_sort, 160, 3000, shards=2)]

if __name__ == "__main__":
    main("C33", SUBS, rule="every case runs at least one tool on files with at least one frame or row", assumptions=[], quick_s=80, thorough_s=1200)
