"""C07: structures and atomic properties written to a file are read back as they were; malformed files are refused; backups keep every file."""
import os, sys, io, math, json, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim
import numpy as np

NAMES = ["H", "O", "C", "He", "D", "Na", "Cl", "O18", "Zr", "U"]
AMU = 1822.8885
MASS = dict(H=1.00794, O=15.9994, C=12.0107, He=4.002602, D=2.0141, Na=22.98977, Cl=35.453, O18=17.999161, Zr=91.224, U=238.0289)
# dimension -> unit -> size in atomic units (CODATA, good to 1e-6)
UN = dict(length={"atomic_unit": 1.0, "angstrom": 1.8897261, "nanometer": 18.897261, "meter": 1.8897261e10},
          velocity={"atomic_unit": 1.0, "m/s": 4.5710289e-7}, momentum={"atomic_unit": 1.0},
          force={"atomic_unit": 1.0, "newton": 12137805.0, "ev/ang": 0.019446904, "piconewton": 1.2137805e-5}, energy={"atomic_unit": 1.0, "electronvolt": 0.036749326, "kelvin": 3.1668152e-06, "millielectronvolt": 3.6749326e-5})
KEYS = dict(positions="length", velocities="velocity", momenta="momentum", forces="force", x_centroid="length", v_centroid="velocity", f_centroid="force", kinetic_cv="energy", forces_sc="force", r_gyration="length", p_centroid="momentum", Eforces="force", x_centroid_even="length")


def cell_of(abc):
    a, b, c, al, be, ga = abc[:3] + [math.radians(x) for x in abc[3:]]
    # column vectors: a along x, b in the xy plane; the angles are (b,c), (a,c), (a,b)
    h = np.zeros((3, 3))
    h[0, 0] = a
    h[:2, 1] = b * math.cos(ga), b * math.sin(ga)
    x = c * math.cos(be)
    y = c * (math.cos(al) - math.cos(be) * math.cos(ga)) / math.sin(ga)
    h[:, 2] = x, y, math.sqrt(max(c * c - x * x - y * y, 0.0))
    return h


def params(h):
    v = [h[:, i] for i in range(3)]
    l = [np.linalg.norm(x) for x in v]
    ang = lambda i, j: math.degrees(math.acos(max(-1, min(1, float(v[i] @ v[j] / l[i] / l[j])))))
    return np.array(l + [ang(1, 2), ang(0, 2), ang(0, 1)])


@st.composite
def abc(draw):
    l = [draw(sim.floats(3.0, 60.0)) for _ in range(3)]
    k = draw(st.integers(0, 2))
    if k == 0:
        return l + [90.0] * 3
    if k == 1:
        return [l[0]] * 3 + [90.0] * 3 if draw(st.booleans()) else l[:1] * 2 + l[2:] + [90.0, 90.0, 120.0]
    return l + [draw(sim.floats(65.0, 115.0)) for _ in range(3)]


@st.composite
def frame(draw, big=100.0):
    n = draw(st.integers(1, 6))
    mag = draw(st.sampled_from([1.0, 10.0, big, big]))
    q = [draw(st.one_of(sim.floats(-mag, mag), st.sampled_from([0.0, mag, -mag]))) for _ in range(3 * n)]
    return dict(names=draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n)), q=q, abc=draw(abc()))


@st.composite
def gen_rt(draw):
    mode = draw(st.sampled_from(["xyz", "xyz", "pdb", "json", "binary", "ase"]))
    key = "positions" if mode in ("pdb", "ase") else draw(st.sampled_from(sorted(KEYS)))
    un = "automatic" if mode == "ase" else draw(st.sampled_from(["automatic"] + sorted(UN[KEYS[key]])))
    if mode == "pdb":
        un = draw(st.sampled_from(["automatic", "angstrom", "atomic_unit", "nanometer"]))
    cun = "automatic" if mode == "ase" else draw(st.sampled_from(["automatic", "angstrom", "atomic_unit", "nanometer"]))
    big = 900.0 if mode == "pdb" else 1e4
    if mode == "pdb" and draw(st.booleans()):
        big = 9000.0
    nf = 1 if mode == "binary" else draw(st.integers(1, 4))
    frames = [draw(frame(big)) for _ in range(nf)]
    if mode == "pdb":
        for f in frames:
            f["q"] = [max(x, -999.0) for x in f["q"]]
    return dict(mode=mode, key=key, units=un, cunits=cun, frames=frames, title=draw(st.sampled_from(["", "Step:  10  Bead:   0 ", "Traj: "])),
                how=draw(st.sampled_from(["read", "iter", "explicit", "name", "raw"])))


def wr(mode, f, q, h, title, key, units, cunits, fd):
    from ipi.utils.io import print_file
    from ipi.engine.atoms import Atoms
    from ipi.engine.cell import Cell
    a = Atoms(len(f["names"]))
    a.q[:] = q
    a.names[:] = f["names"]
    q0 = np.array(a.q)
    c = Cell(h.copy())
    print_file(mode, a, c, fd, title=title, key=key, dimension=KEYS[key], units=units, cell_units=cunits)
    require(np.array_equal(q0, a.q) and np.array_equal(h, c.h), "writing a %s file changes the structure", mode)


def t_rt(case):
    import ipi.utils.io as uio
    c = case
    mode, key = c["mode"], c["key"]
    dim = KEYS[key]
    ase_l = 1.8897261
    un = c["units"]
    if un == "automatic":
        ul = {"pdb": UN["length"]["angstrom"], "ase": ase_l}.get(mode, 1.0)
    else:
        ul = UN[dim][un]
    cl = {"automatic": {"pdb": ase_l, "ase": ase_l}.get(mode, 1.0), "angstrom": ase_l, "atomic_unit": 1.0, "nanometer": 10 * ase_l}[c["cunits"]]
    ext = {"binary": "bin", "ase": "ase"}.get(mode, mode)
    fn = "t." + ext
    files = []
    with open(fn, "wb" if mode == "binary" else "w") as fd:
        for f in c["frames"]:
            if mode == "ase" and any(n in ("D", "O18") for n in f["names"]):
                f["names"] = ["H" if n in ("D", "O18") else n for n in f["names"]]
            q = np.array(f["q"]) * ul  # the case holds file units, so that the precision of the format is known
            h = cell_of(f["abc"]) * cl
            files.append((q, h))
            wr(mode, f, q, h, c["title"], key, c["units"], c["cunits"], fd)
    how = c["how"] if mode != "binary" else "read"
    if mode == "ase" and how in ("name", "iter"):
        how = "explicit"  # the format carries no dimension; the program always asks for lengths
    got = []
    if how == "raw":
        got = [dict(x, raw=True) for x in uio.iter_file_raw(mode, open(fn))]
    elif how == "name":
        got = list(uio.iter_file_name(fn))
    elif how == "iter":
        got = list(uio.iter_file(mode, open(fn)))
    else:
        fd = open(fn, "rb" if mode == "binary" else "r")
        kw = {}
        if how == "explicit":
            kw = dict(dimension=dim, units=c["units"], cell_units=c["cunits"])
        elif mode == "ase":
            kw = dict(dimension="length")
        for _ in range(len(c["frames"])):
            got.append(uio.read_file(mode, fd, **kw))
        if mode != "binary":
            try:
                uio.read_file(mode, fd, **kw)
                require(False, "a frame is read beyond the end of the file")
            except EOFError:
                pass
    require(len(got) == len(c["frames"]), "%d frames written, %d read", len(c["frames"]), len(got))
    for i, (g, f, (q, h)) in enumerate(zip(got, c["frames"], files)):
        n = len(f["names"])
        if g.get("raw"):
            names, Q, H, M, su, sc = list(g["names"]), np.array(g["data"]), np.array(g["cell"]), g["masses"], ul, cl
        else:
            a = g["atoms"]
            names, Q, H, M, su, sc = list(a.names), np.array(a.q), np.array(g["cell"].h), np.array(a.m), 1.0, 1.0
        names = [x.decode() if isinstance(x, bytes) else str(x) for x in names]
        require(names == f["names"], "frame %d: names %r instead of %r", i, names, f["names"])
        require(Q.shape == q.shape, "frame %d: %d coordinates instead of %d", i, Q.size, q.size)
        x, want = Q * su / ul, np.array(f["q"])  # in file units
        tol = {"xyz": 6e-6 * np.abs(want) + 1e-30, "pdb": 5.1e-4 + 0 * want, "ase": 6e-8 * (1 + np.abs(want)) * 1.0}.get(mode, 1e-12 * (np.abs(want) + 1e-30))
        tol = tol + 2e-6 * np.abs(want)  # constants
        require((np.abs(x - want) <= tol).all(), "frame %d: %s read as %r instead of %r (%s, %s)", i, key, x.tolist(), want.tolist(), mode, c["units"])
        p = params(H * sc / cl)
        w = np.array(f["abc"])
        ct = {"xyz": 1e-5, "pdb": np.array([6e-4] * 3 + [6e-3] * 3), "ase": 3e-7}.get(mode, 1e-9)
        ct = ct + 2e-6 * w
        require((np.abs(p - w) <= ct).all(), "frame %d: cell %r instead of %r (%s)", i, p.tolist(), w.tolist(), mode)
        require(abs(H[1, 0]) + abs(H[2, 0]) + abs(H[2, 1]) < 1e-9 * np.abs(H).max(), "frame %d: the cell is not upper triangular: %r", i, H.tolist())
        if mode in ("xyz", "pdb"):
            m = np.array([MASS[k] * AMU for k in f["names"]])
            require(np.allclose(M, m, rtol=2e-5), "frame %d: masses %r instead of %r", i, np.array(M).tolist(), m.tolist())
        elif mode == "ase":
            m = np.array([MASS[k] * AMU for k in f["names"]])
            require(np.allclose(M, m, rtol=2e-3), "frame %d: masses %r instead of %r", i, np.array(M).tolist(), m.tolist())
    return "%s %s %s" % (mode, how, "cross" if c["units"] not in ("automatic", "atomic_unit") else "au")


# --- files written by other programs ----------------------------------------------------------

@st.composite
def gen_foreign(draw):
    return dict(kind=draw(st.sampled_from(["abcABC", "H", "GENH", "none", "ase", "pdb"])), br=draw(st.sampled_from(["()", "[]", "{}"])), frames=[draw(frame(50.0)) for _ in range(draw(st.integers(1, 3)))],
                euler=[draw(sim.floats(0.0, 6.28)) for _ in range(3)], units=draw(st.sampled_from(["", "positions{angstrom}", "cell{angstrom}", "positions{angstrom} cell{nanometer}", "cell{angstrom} positions{atomic_unit}"])),
                cut=draw(st.sampled_from([None, None, "atoms", "last", "word"])), trail=draw(st.sampled_from(["", "  extra 1 2", "\t"])), nl=draw(st.booleans()))


def rot(e):
    a, b, c = e
    z = lambda t: np.array([[math.cos(t), -math.sin(t), 0], [math.sin(t), math.cos(t), 0], [0, 0, 1]])
    x = np.array([[1, 0, 0], [0, math.cos(b), -math.sin(b)], [0, math.sin(b), math.cos(b)]])
    return z(a) @ x @ z(c)


def t_foreign(case):
    import ipi.utils.io as uio
    c = case
    kind = c["kind"]
    k = lambda t, d: {"angstrom": 1.8897261, "nanometer": 18.897261}.get((re.search(t + r"\{(\w+)\}", c["units"]) or [0, d])[1], 1.0)
    if kind in ("pdb", "ase"):
        ul = cl = 1.8897261
    else:
        ul, cl = k("positions", ""), k("cell", "")
    text, want = "", []
    o, e = c["br"]
    for f in c["frames"]:
        h = cell_of(f["abc"])
        n = len(f["names"])
        q = np.array(f["q"]).reshape(-1, 3)
        x, R = q, np.eye(3)
        if kind in ("GENH", "ase"):
            R = rot(c["euler"])
            x = q @ R.T
        g = R @ h  # columns are the lattice vectors
        fl = lambda v: " ".join("%.12g" % y for y in v)
        if kind == "pdb":
            text += "CRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f P 1           1\n" % tuple(f["abc"])
            for i in range(n):
                text += "ATOM  %5d %-4s   1     1    %8.3f%8.3f%8.3f  0.00  0.00            0\n" % (i + 1, f["names"][i].rjust(2), *x[i])
            text += "END\n"
        elif kind == "ase":
            text += "%d\nLattice=\"%s\" Properties=species:S:1:pos:R:3 pbc=\"T T T\"\n" % (n, fl(g.T.reshape(-1)))
        else:
            com = {"abcABC": "CELL%sabcABC%s: %s " % (o, e, fl(f["abc"])), "H": "CELL%sH%s: %s " % (o, e, fl(h.reshape(-1))), "GENH": "CELL%sGENH%s: %s " % (o, e, fl(g.T.reshape(-1))), "none": "a comment "}[kind]
            text += "%d\n# %s%s\n" % (n, com, c["units"])
        if kind != "pdb":
            for i in range(n):
                text += "%s %s%s\n" % (f["names"][i] if kind != "ase" else {"D": "H", "O18": "O"}.get(f["names"][i], f["names"][i]), fl(x[i]), c["trail"] if kind != "ase" else "")
        want.append((q * ul, h * cl))
    lines = text.splitlines(True)
    bad = None
    if c["cut"] and kind in ("abcABC", "H", "GENH", "none") and len(c["frames"][-1]["names"]) > 1:
        bad = c["cut"]
        if bad == "atoms":
            lines = lines[:-1]
        elif bad == "last":
            lines[-1] = " ".join(lines[-1].split()[:2]) + "\n"
        else:
            w = lines[-1].split()
            lines[-1] = " ".join([w[0], w[1], "1.5x", w[3]]) + "\n"
    text = "".join(lines)
    if c["nl"] and kind not in ("pdb", "ase"):
        text = text.rstrip("\n")
    open("f.extxyz", "w").write(text)
    mode = kind if kind in ("pdb", "ase") else "xyz"
    try:
        got = list(uio.iter_file(mode, open("f.extxyz"), dimension="length" if kind == "ase" else "automatic"))
    except Exception as ex:
        if bad and not isinstance(ex, Violation):
            return "refused " + bad
        raise
    require(not bad, "a file with a broken last frame (%s) is read as %d frames: %r", bad, len(got), [np.array(g["atoms"].q).tolist() for g in got][-1:])
    require(len(got) == len(want), "%d frames read instead of %d", len(got), len(want))
    for i, (g, (q, h)) in enumerate(zip(got, want)):
        Q, H = np.array(g["atoms"].q).reshape(-1, 3), np.array(g["cell"].h)
        require(len(Q) == len(q), "frame %d: %d atoms instead of %d", i, len(Q), len(q))
        tol = 1e-5 * np.abs(q).max() + (2e-3 if kind == "pdb" else 1e-7)
        if kind == "none":
            require(H[0, 0] < 0, "a cell is made up: %r", H.tolist())
            require(np.abs(Q - q).max() <= tol, "frame %d: positions %r instead of %r", i, Q.tolist(), q.tolist())
            continue
        require(np.abs(H - h).max() <= 1e-5 * np.abs(h).max() + (2e-2 if kind == "pdb" else 0), "frame %d: cell %r instead of %r", i, H.tolist(), h.tolist())
        require(np.abs(Q - q).max() <= tol * 3 + (1e-5 * np.abs(q).max() if kind in ("GENH", "ase") else 0), "frame %d: positions %r instead of %r (%s)", i, Q.tolist(), q.tolist(), kind)
    return kind + (" units" if c["units"] else "")


# --- backups ----------------------------------------------------------------------------------

@st.composite
def gen_backup(draw):
    names = ["a", "b.xyz", "dir/c", "dir/sub/d.out"]
    return dict(ops=[(draw(st.sampled_from(names)), draw(st.sampled_from(["w", "w", "w", "a", "r", "wb"]))) for _ in range(draw(st.integers(2, 10)))], pre=draw(st.lists(st.sampled_from(["#a#0#", "#a#1#", "dir/#c#0#"]), max_size=2, unique=True)))


def t_backup(case):
    from ipi.utils.io import open_backup
    os.makedirs("dir/sub")
    live, all_ = {}, []
    for p in case["pre"]:
        open(p, "w").write("pre " + p)
        all_.append("pre " + p)
    for i, (n, m) in enumerate(case["ops"]):
        if m == "r":
            if n in live:
                s = open_backup(n, "r").read()
                require(s == live[n], "%s holds %r instead of %r", n, s, live[n])
            continue
        t = "text%d" % i
        with open_backup(n, m) as f:
            f.write(t.encode() if m == "wb" else t)
        if m == "a":
            live[n] = live.get(n, "") + t
        else:
            if n in live:
                all_.append(live[n])
            live[n] = t
    have = sorted(open(os.path.join(d, f)).read() for d, _, fs in os.walk(".") for f in fs)
    require(have == sorted(all_ + list(live.values())), "files hold %r after the operations, expected %r", have, sorted(all_ + list(live.values())))
    for n in live:
        require(open(n).read() == live[n], "%s holds %r instead of %r", n, open(n).read(), live[n])
    return "%d backups" % min(len(all_), 5)


if __name__ == "__main__":
    main("C07", [Sub("roundtrip", gen_rt(), t_rt, quick=1500, thorough=40000, shards=4), Sub("foreign", gen_foreign(), t_foreign, quick=1000, thorough=30000, shards=3), Sub("backup", gen_backup(), t_backup, quick=200, thorough=4000, shards=1)],
         rule="a case is a trajectory of generated frames written by the code in one format, quantity and unit and read back in one of the ways available, a foreign file with one of the accepted cell conventions (possibly truncated), or a history of files opened for writing",
         assumptions=["precision is that of the format: 6 digits in xyz, 3 decimals in pdb, 8 in extended xyz; coordinates that do not fit the columns of pdb are not generated"], quick_s=60, thorough_s=600)
