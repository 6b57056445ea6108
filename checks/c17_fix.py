"""C17: constraints on the centre of mass and on atoms in every ensemble."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim
import numpy as np
from hypothesis import strategies as st


@st.composite
def gen(draw):
    c = draw(sim.md_case(max_atoms=4))
    n, P = len(c["m"]), len(c["q"])
    c["fixcom"] = draw(st.booleans()) and n > 1
    c.pop("fixatoms", None)
    tm = (c.get("thermostat") or {}).get("mode", "")
    if not c["fixcom"]:
        if c["mode"] in ("nve", "nvt", "nvt-cc", "sc") and tm != "nm_gle_g":
            k = draw(st.booleans()) and n > 1
            if k:
                c["fixatoms"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n - 1, unique=True))
            else:
                c["fixatoms_dof"] = draw(st.lists(st.integers(0, 3 * n - 1), min_size=1, max_size=3 * n - 1, unique=True))
    if draw(st.booleans()):
        c["bias"] = [dict(ff="ffa", weight=0.3)]
        if c["mode"] in ("sc", "scnpt"):
            c.pop("bias")
    c["steps"] = draw(st.lists(st.integers(1, 3), min_size=1, max_size=4))
    return c


def fixed(c):
    return sorted(set(c.get("fixatoms_dof", [])) | {3 * i + k for i in c.get("fixatoms", []) for k in range(3)})


def t_fix(c):
    fx = fixed(c)
    if not fx and not c["fixcom"]:
        return None
    q = np.array(c["q"])
    if fx:  # a fixed coordinate has collapsed beads: only then does it stand still as a whole
        q[:, fx] = q[0, fx]
        c = dict(c, q=q.tolist())
    s = sim.make(c)
    sy = s.syslist[0]
    m, n, P = np.array(c["m"]), len(c["m"]), len(q)
    q0 = np.array(sy.beads.q)
    npt = c["mode"] in ("npt", "nst", "scnpt")
    com = lambda x: (x.mean(0).reshape(n, 3) * m[:, None]).sum(0) / m.sum()
    frac = lambda: np.linalg.solve(np.array(sy.cell.h), com(np.array(sy.beads.q)))
    c0, f0 = com(q0), frac()
    moved = 0.0
    for k in c["steps"]:
        s.run(k)
        qn, pn = np.array(sy.beads.q), np.array(sy.beads.p)
        if not np.isfinite(qn).all():
            return None
        moved = max(moved, np.abs(qn - q0).max())
        ps = np.sqrt((pn**2).sum()) + 1e-300
        if c["fixcom"]:
            pt = np.abs(pn.reshape(P, n, 3).sum((0, 1))).max()
            require(pt <= 1e-11 * ps * n * P + 1e-14, "%s: total momentum %r with a fixed centre of mass (momenta up to %r)", c["mode"], pt, ps)
            if npt:
                d = np.abs(frac() - f0).max()
                require(d <= 1e-9, "%s: the centre of mass moves by %r relative to the cell", c["mode"], d)
            else:
                d = np.abs(com(qn) - c0).max()
                require(d <= 1e-10, "%s: the fixed centre of mass moves by %r", c["mode"], d)
        if fx:
            d = np.abs(qn[:, fx] - q0[:, fx]).max()
            require(d <= 1e-12, "%s: a fixed coordinate moves by %r", c["mode"], d)
            require(np.abs(pn[:, fx]).max() <= 1e-12 * ps, "%s: a fixed coordinate has momentum %r", c["mode"], np.abs(pn[:, fx]).max())
    if moved < 1e-6:
        return None
    return "%s %s %s" % (c["mode"], (c.get("thermostat") or {}).get("mode", "-"), "fixcom" if c["fixcom"] else "fixed")


@st.composite
def gen_heat(draw):
    c = draw(gen())
    c["fixcom"], c["mode"] = True, draw(st.sampled_from(["nve", "nvt"]))
    for k in ("fixatoms", "fixatoms_dof", "barostat", "pressure", "stress"):
        c.pop(k, None)
    if c["mode"] == "nve":
        c.pop("thermostat", None)
    else:
        t = c.get("thermostat") or {}
        if t.get("mode") not in ("langevin", "pile_l"):
            c["thermostat"] = dict(mode=draw(st.sampled_from(["langevin", "pile_l"])), tau=draw(sim.floats(50.0, 500.0)))
    c["vcom"] = draw(sim.unit_vec(3, -3e-3, 3e-3))
    return c


def t_heat(c):
    """momentum of the centre of mass is taken out without a jump of the conserved quantity, and nothing else depends on it"""
    n, P = len(c["m"]), len(c["q"])
    if n < 2 or (c.get("nm", {}).get("frequencies") is not None and c["thermostat" if "thermostat" in c else "mode"] is None):
        return None
    res = []
    for v in (np.zeros(3), np.array(c["vcom"])):
        p = np.array(c["p"]).reshape(P, n, 3)
        mm = np.array(c["m"])[None, :, None]
        p = p - mm * (p.sum((0, 1)) / (P * np.array(c["m"]).sum())) + mm * v
        s = sim.make(dict(c, p=p.reshape(P, -1).tolist()))
        sy = s.syslist[0]
        e = [float(sy.ensemble.econs)]
        for _ in range(3):
            s.run(1)
            e.append(float(sy.ensemble.econs))
        res.append((np.array(sy.beads.q), np.array(sy.beads.p), np.array(e)))
    a, b = res
    sc = max(1.0, np.abs(a[1]).max())
    require(np.abs(a[0] - b[0]).max() <= 1e-9, "%s: the positions depend on the momentum of the fixed centre of mass", c["mode"])
    require(np.abs(a[1] - b[1]).max() <= 1e-9 * sc, "%s: the momenta depend on the initial momentum of the fixed centre of mass", c["mode"])
    ke = 0.5 * P * np.sum(c["m"]) * float(np.dot(c["vcom"], c["vcom"]))
    d = np.diff(b[2]) - np.diff(a[2])
    es = max(abs(a[2]).max(), ke, 1e-3)
    require(np.abs(d).max() <= 1e-9 * es, "%s: taking out the momentum of the centre of mass (kinetic energy %r) changes the conserved quantity by %r", c["mode"], ke, np.abs(d).max())
    return c["mode"] if ke > 1e-6 else None


SUBS = [Sub("fixed", gen(), t_fix, 500, 10000, shards=6), Sub("heat", gen_heat(), t_heat, 150, 3000, shards=2)]
RULE = "a case is non-trivial when a constraint is active and something moves, or when the centre of mass has kinetic energy"

if __name__ == "__main__":
    main("C17", SUBS, rule=RULE, assumptions=[], quick_s=70, thorough_s=1200)
