"""C10: cell geometry and periodic boundary conditions."""
import os, sys, json, math
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim
from checks.c07_files import cell_of, params, abc
import numpy as np


@st.composite
def gen_cell(draw):
    return dict(abc=draw(abc()), q=[draw(sim.floats(-200.0, 200.0)) for _ in range(3 * draw(st.integers(1, 5)))], n=[draw(st.integers(-4, 4)) for _ in range(3)], full=draw(st.booleans()),
                euler=[draw(sim.floats(0.0, 6.28)) for _ in range(3)], hist=[draw(st.tuples(st.sampled_from(["h", "elem", "scale"]), sim.floats(0.6, 1.6))) for _ in range(draw(st.integers(0, 3)))])


def t_cell(case):
    from ipi.engine.cell import Cell, GenericCell
    from ipi.engine.atoms import Atoms
    import ipi.utils.mathtools as mt
    from checks.c07_files import rot
    c = case
    h = cell_of(c["abc"])
    rad = c["abc"][:3] + [math.radians(x) for x in c["abc"][3:]]
    require(np.allclose(mt.abc2h(*rad), h, rtol=1e-9, atol=1e-9), "abc2h(%r) = %r instead of %r", rad, mt.abc2h(*rad).tolist(), h.tolist())
    require(np.allclose(mt.h2abc(h), rad, rtol=1e-7), "h2abc gives %r instead of %r", mt.h2abc(h), rad)
    require(np.allclose(mt.h2abc_deg(h), c["abc"], rtol=1e-7), "h2abc_deg gives %r instead of %r", mt.h2abc_deg(h), c["abc"])
    R = rot(c["euler"])
    require(np.allclose(mt.genh2abc((R @ h).T), rad, rtol=1e-7), "genh2abc gives %r instead of %r", mt.genh2abc((R @ h).T), rad)
    full = c["full"]
    H = R @ h if full else h
    cell = GenericCell(H.copy()) if full else Cell(H.copy())
    cl = cell.clone()
    for step in [("", 0.0)] + c["hist"]:
        k, x = step
        if k == "h":
            H = H @ np.diag([x, 1.0, 1.0 / x])
            cell.h = H.copy()
        elif k == "elem":
            H = H.copy()
            H[0, 0] *= x
            cell.h[0, 0] = H[0, 0]
        elif k == "scale":
            H = H * x
            cell.h *= x
        det = np.linalg.det(H)
        if abs(det) < 0.05 * np.prod(np.linalg.norm(H, axis=0)):
            raise Skip("nearly flat cell")
        t = "after %r: " % (step,) if k else ""
        require(np.allclose(cell.h, H), t + "cell %r instead of %r", np.array(cell.h).tolist(), H.tolist())
        require(abs(cell.V - det) <= 1e-9 * abs(det), t + "volume %r instead of %r", float(cell.V), det)
        require(np.allclose(cell.ih, np.linalg.inv(H), rtol=1e-7, atol=1e-9 / np.abs(H).max()), t + "inverse cell %r instead of %r", np.array(cell.ih).tolist(), np.linalg.inv(H).tolist())
        q = np.array(c["q"])
        N = len(q) // 3
        s = np.linalg.solve(H, q.reshape(-1, 3).T)
        amb = np.abs(np.abs(s - np.floor(s)) - 0.5).min() < 1e-6
        w = q.copy()
        cell.array_pbc(w)
        sw = np.linalg.solve(H, w.reshape(-1, 3).T)
        d = s - sw
        require(np.abs(d - np.round(d)).max() < 1e-6, t + "atoms are moved by %r lattice vectors", d.T.tolist())
        require(np.abs(sw).max() <= 0.5 + 1e-6, t + "wrapped atoms at fractional positions %r", sw.T.tolist())
        a = Atoms(N)
        a.q[:] = q
        for i in range(N):
            x1 = np.array(cell.apply_pbc(a[i]))
            require(np.array_equal(a.q, q), t + "apply_pbc moves the atom")
            if not amb:
                require(np.allclose(x1, w[3 * i : 3 * i + 3], atol=1e-7 * np.abs(q).max()), t + "apply_pbc gives %r, array_pbc %r", x1.tolist(), w[3 * i : 3 * i + 3].tolist())
        if not amb:
            w2 = q + np.tile(H @ np.array(c["n"]), N)
            cell.array_pbc(w2)
            require(np.allclose(w2, w, atol=1e-6 * (1 + np.abs(q).max())), t + "images of the same atoms are wrapped to %r and %r", w2.tolist(), w.tolist())
            w3 = w.copy()
            cell.array_pbc(w3)
            require(np.allclose(w3, w, atol=1e-9 * (1 + np.abs(q).max())), t + "wrapping twice changes positions")
        # minimum image: correct whenever the distance is below half the smallest width
        G = np.array([[i, j, l] for i in (-2, -1, 0, 1, 2) for j in (-2, -1, 0, 1, 2) for l in (-2, -1, 0, 1, 2)]) @ H.T
        width = abs(det) / max(np.linalg.norm(np.cross(H[:, i], H[:, j])) for i, j in ((0, 1), (1, 2), (0, 2)))
        for i in range(N):
            for j in range(N):
                if i == j:
                    continue
                v = np.array(cell.minimum_distance(a[i], a[j]))
                dd = q[3 * i : 3 * i + 3] - q[3 * j : 3 * j + 3]
                n = np.linalg.solve(H, dd - v)
                require(np.abs(n - np.round(n)).max() < 1e-6, t + "minimum_distance %r is not an image of %r", v.tolist(), dd.tolist())
                best = np.linalg.norm(v + G, axis=1).min()
                if best < 0.499 * width:
                    require(np.linalg.norm(v) <= best * (1 + 1e-9) + 1e-9, t + "minimum_distance %r although an image is at %g", np.linalg.norm(v), best)
                    require(np.allclose(np.array(cell.minimum_distance(a[j], a[i])), -v, atol=1e-6), t + "minimum_distance is not antisymmetric")
    require(np.allclose(cl.h, R @ h if full else h), "a clone follows its original")
    return "%s%s" % ("generic" if full else "triangular", " hist" if c["hist"] else "")


# --- a simulation does not depend on which image of an atom it starts from ----------------------

@st.composite
def gen_sim(draw):
    c = draw(sim.md_case(modes=("nve", "nvt", "npt"), max_atoms=3, max_beads=4))
    c["shift"] = [[draw(st.integers(-3, 3)) for _ in range(3)] for _ in c["m"]]
    c["n"] = draw(st.integers(1, 4))
    c["offc"] = [draw(sim.floats(-0.35, 0.35)) for _ in range(3)]
    return c


def t_sim(case):
    c = json.loads(json.dumps(case))
    for f in c["ffs"]:
        f["pbc"] = "True"
    h = np.array(c.get("cell", np.eye(3) * 20.0))
    n = len(c["m"])
    q = np.array(c["q"]) * 0.5
    out = []
    for sh in (None, c["shift"]):
        x = q.copy()
        if sh is not None:
            x = x + (np.array(sh) @ h.T).reshape(-1)[None, :]
        d = dict(c, q=x.tolist())
        if c["mode"] == "npt":
            d["mode"] = "nvt"
            d.pop("barostat", None)
        s = sim.make(d)
        y = s.syslist[0]
        r = []
        for _ in range(c["n"]):
            s.run(1)
            r.append((np.array(y.beads.q) - (0 if sh is None else (np.array(sh) @ h.T).reshape(-1)[None, :]), np.array(y.beads.p), np.array(y.forces.pots), np.array([float(y.ensemble.econs)])))
        out.append(r)
    sc = np.linalg.solve(h, out[0][-1][0].reshape(-1, 3).T)
    if np.abs(sc).max() > 0.49 or not all(np.isfinite(z).all() for r in out[0] for z in r):
        raise Skip("an atom is at the border of the cell")
    for i, (a, b) in enumerate(zip(*out)):
        for nm, u, v in zip(("positions", "momenta", "potentials", "conserved quantity"), a, b):
            require(np.abs(u - v).max() <= 1e-8 * (1e-2 + np.abs(u).max()), "step %d: %s differ by %.3g if atoms start from other periodic images", i + 1, nm, np.abs(u - v).max())
    return c["mode"] if any(any(x) for x in c["shift"]) else None


if __name__ == "__main__":
    main("C10", [Sub("cell", gen_cell(), t_cell, quick=2000, thorough=60000, shards=4), Sub("sim", gen_sim(), t_sim, quick=400, thorough=8000, shards=4)],
         rule="a case is a cell (orthorhombic, hexagonal, triclinic, or rotated) with atoms and a history of cell changes, or a short simulation started from two sets of periodic images",
         assumptions=["atoms exactly on the border of the cell may be wrapped to either side"], quick_s=45, thorough_s=600)
