"""C16: constant-pressure dynamics: conserved quantity, its conservation to second order in the step, reversibility, cell constraints."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim
from checks.c11_nmtrans import close
from checks.c15_thermo import FakeGen
import numpy as np


@st.composite
def gen(draw):
    c = draw(sim.md_case(modes=("npt", "nst", "scnpt", "npt"), max_atoms=3, max_beads=4))
    c["thermostat"] = dict(mode="langevin", tau=1e15)
    b = c["barostat"]
    b.pop("thermostat", None)
    c["fixcom"] = False  # discarding the centre-of-mass momentum of a system in an external field is neither conservative nor reversible
    c["dt"] = draw(sim.floats(2.0, 6.0))
    if b["mode"] in ("flexible", "anisotropic"):
        if draw(st.booleans()) and "offdiagonal" not in b.get("hfix", []):
            b["hfix"] = b.get("hfix", []) + ["offdiagonal"]
            c["cell"] = np.diag(np.diag(np.array(c["cell"]))).tolist()
            if "h0" in b:
                b["h0"] = np.diag(np.diag(np.array(b["h0"]))).tolist()
        b["p"] = (np.array(draw(sim.unit_vec(9, -5.0, 5.0))).reshape(3, 3) * mask(b)).tolist()
        if b.get("vol_constraint"):
            b["p"] = (np.array(b["p"]) - np.eye(3) * np.trace(b["p"]) / 3).tolist()
    else:
        b["p"] = [draw(sim.floats(-5.0, 5.0))]
    if "stress" in c:  # the elastic energy is a function of a symmetric stress
        x = np.triu(np.array(c["stress"]))
        c["stress"] = (x + np.triu(x, 1).T).tolist()
    if c.get("nm"):
        c["nm"] = dict(transform=c["nm"]["transform"])
    c["n"] = draw(st.integers(4, 8))
    return c


def mask(b):
    m = np.triu(np.ones((3, 3)))
    for x in b.get("hfix") or []:
        if x == "offdiagonal":
            m = m * np.eye(3)
        else:
            i, j = sorted("xyz".index(y) for y in x)
            m[i, j] = 0.0
    return m


def free_offdiagonal(b):
    return b["mode"] in ("flexible", "anisotropic") and bool(np.triu(mask(b), 1).any())


def run(c, f):
    d = dict(c, dt=c["dt"] / f)
    s = sim.make(d)
    sy = s.syslist[0]
    fg = FakeGen()
    sy.prng.rng = [fg] * len(sy.prng.rng)
    e = [float(sy.ensemble.econs)]
    for _ in range(c["n"] * f):
        s.run(1)
        e.append(float(sy.ensemble.econs))
    return s, sy, np.array(e)


def volume_term(c, sy):
    """enthalpy, cell kinetic energy and Jacobian terms, from the definitions"""
    b, P, N = c["barostat"], len(c["q"]), len(c["m"])
    T = c["temp"] * P
    h = np.array(c["cell"])
    V = np.linalg.det(h)
    p = np.array(sy.motion.barostat.p)
    if b["mode"] in ("isotropic", "sc-isotropic"):
        m = b["tau"] ** 2 * 3 * N * T
        return 0.5 * float(p[0]) ** 2 / m + c["pressure"] * V * P - T * np.log(V)
    m = b["tau"] ** 2 * N * T
    k = 0.5 * (np.triu(p) ** 2).sum() / m
    j = -T * sum((3 - i) * np.log(h[i, i]) for i in range(3))
    if b["mode"] == "flexible":
        return k + c["pressure"] * V * P + j
    h0 = np.array(b["h0"])
    g = h @ np.linalg.inv(h0)
    eps = 0.5 * (g.T @ g - np.eye(3))
    return k + P * np.linalg.det(h0) * np.trace(np.array(c["stress"]) @ eps) + j


def t_baro(case):
    c = case
    b = c["barostat"]
    s, sy, e1 = run(c, 1)
    lab = "%s %s%s%s%s" % (c["mode"], b["mode"], " " + "+".join(sorted(b["hfix"])) if b.get("hfix") else "", " volume" if b.get("vol_constraint") else "", " mts" if c.get("nmts") else "")
    # cell constraints
    h0, h1 = np.array(c["cell"]), np.array(sy.cell.h)
    require(np.abs(np.tril(h1, -1)).max() < 1e-12, "the cell is not upper triangular after %d steps: %r", c["n"], h1.tolist())
    if b["mode"] in ("isotropic", "sc-isotropic"):
        close(h1 / h1[0, 0], h0 / h0[0, 0], "shape of the cell under an isotropic barostat", 1e-9)
    if b.get("vol_constraint"):
        close(np.linalg.det(h1), np.linalg.det(h0), "constrained volume", 1e-8)
    # conserved quantity at the start
    s0 = sim.make(dict(c))
    y0 = s0.syslist[0]
    if c["mode"] != "scnpt":
        want = float(y0.nm.kin + y0.nm.vspring + y0.forces.pot) + volume_term(c, y0) + float(y0.ensemble.eens)
        got = float(y0.ensemble.econs)
        require(abs(got - want) <= 1e-9 * (abs(want) + abs(float(y0.forces.pot))), "conserved quantity %r, from its terms %r", got, want)
    # conservation
    if free_offdiagonal(b) and not case.get("strict"):
        return lab  # listed finding C16-offdiagonal-stress
    _, y4, e4 = run(c, 4)
    sc = abs(float(y0.nm.kin)) + abs(float(y0.forces.pot)) + c["temp"] + abs(volume_term(c, y0)) * (c["mode"] != "scnpt")
    fix = [np.zeros(2)]
    if b["mode"] in ("flexible", "anisotropic") and not case.get("strict"):
        # listed finding C16-jacobian: the weights of log h_ii ignore the fixed off-diagonal components
        L = mask(b).sum(axis=1)
        w = len(c["q"]) * c["temp"] * (np.array([3.0, 2.0, 1.0]) - L)
        fix.append(np.array([float(w @ np.log(np.diag(np.array(y.cell.h)))) - float(w @ np.log(np.diag(h0))) for y in (sy, y4)]))
    d = [max(abs(e[-1] - e[0] + f) for f in [x[i]]) for x in fix for i, e in enumerate((e1, e4))]
    d = np.array(d).reshape(-1, 2)
    full = np.abs(e1 - e1[0]).max()
    constrained = bool(b.get("hfix")) or b.get("vol_constraint") or c.get("nmts")
    r = 0.5 if constrained else 0.25
    ok = any(x[1] <= r * max(x[0], 0.1 * full) + 1e-8 * sc for x in d)
    require(ok, "%s: drift of the conserved quantity %.3g with time step %g, %.3g with a quarter of it (scale %.3g)", lab, d[0, 0], c["dt"], d[0, 1], sc)
    return lab


def t_force(case):
    """the acceleration of the cell against a finite difference of the enthalpy"""
    c = dict(case, dt=1e-3)
    b = c["barostat"]
    P, T = len(c["q"]), c["temp"] * len(c["q"])
    s = sim.make(c)
    sy = s.syslist[0]
    sy.prng.rng = [FakeGen()] * len(sy.prng.rng)
    p0, pc = np.array(sy.motion.barostat.p), np.array(sy.nm.pnm)[0].reshape(-1, 3)  # sqrt(P) times the centroid
    q0, h0 = np.array(sy.beads.q), np.array(sy.cell.h)
    f0 = np.array(sy.forces.f)
    s.run(1)
    got = (np.array(sy.motion.barostat.p) - p0) / c["dt"]
    ref = sim.make(c).syslist[0]
    qc = q0.mean(0).reshape(-1, 3)
    g = q0.reshape(P, -1, 3) - qc

    def enthalpy(e):
        F = np.eye(3) + e
        h = F @ h0
        ref.cell.h = h
        ref.beads.q = (qc @ F.T + g).reshape(P, -1)
        u = float(ref.forces.pot)
        if b["mode"] == "anisotropic":
            x = h @ np.linalg.inv(np.array(b["h0"]))
            return u + P * np.linalg.det(np.array(b["h0"])) * 0.5 * np.trace(np.array(c["stress"]) @ (x.T @ x - np.eye(3)))
        return u + P * c["pressure"] * np.linalg.det(h)

    def dH(e, d=1e-4):
        return (enthalpy(d * e) - enthalpy(-d * e)) / (2 * d)

    m = np.array(c["m"])[:, None]
    kin = pc.T @ (pc / m)
    if b["mode"] == "isotropic":
        want = [np.array([-dH(np.eye(3)) + np.trace(kin) + 3 * T])]
    else:
        M = mask(b)
        L = M.sum(axis=1)
        F = np.zeros((3, 3))
        for i in range(3):
            for j in range(i, 3):
                x = np.zeros((3, 3))
                x[i, j] = 1.0
                F[i, j] = -dH(x) + kin[i, j] + (T * L[i] if i == j else 0.0)
        # listed finding C16-offdiagonal-stress: no kinetic part, transposed internal part
        G = F.copy()
        gf = np.einsum("pai,paj->ij", f0.reshape(P, -1, 3), g)
        for i, j in ((0, 1), (0, 2), (1, 2)):
            G[i, j] += -kin[i, j] + gf[i, j] - gf[j, i]
        want = [F * M] + ([] if case.get("strict") else [G * M])
        if b.get("vol_constraint"):
            want = [x - np.eye(3) * np.trace(x) / 3 for x in want]
    sc = max(np.abs(x).max() for x in want) + np.abs(kin).max() + T
    err = min(np.abs(got - x).max() for x in want)
    require(err <= 2e-4 * sc, "force on the cell %r, from the enthalpy %r", got.tolist(), want[0].tolist())
    return "%s %s" % (b["mode"], "+".join(sorted(b.get("hfix") or [])))


@st.composite
def gen_fix(draw):
    c = draw(sim.md_case(modes=("npt", "nst", "npt", "scnpt"), max_atoms=3, max_beads=3))
    b = c["barostat"]
    b.pop("p", None)
    if "thermostat" not in b:
        b["thermostat"] = dict(mode="langevin", tau=draw(sim.floats(20.0, 200.0)))
    if b["mode"] in ("flexible", "anisotropic") and draw(st.booleans()):
        for k in ("cell",):
            c[k] = np.diag(np.diag(np.array(c[k]))).tolist()
        if "h0" in b:
            b["h0"] = np.diag(np.diag(np.array(b["h0"]))).tolist()
        b["hfix"] = sorted(set(b.get("hfix") or []) | {"offdiagonal"})
    if b.get("hfix"):
        b["hfix"] = [x[::-1] if len(x) == 2 and draw(st.booleans()) else x for x in b["hfix"]]
    c["n"] = draw(st.integers(2, 10))
    if "stress" in c:
        c["stress"] = (0.05 * np.array(c["stress"])).tolist()
    return c


def t_fix(case):
    """with the cell thermostat at work: what is held fixed stays fixed, and so does the shape that the barostat cannot change"""
    c = case
    b = c["barostat"]
    s = sim.make(c)
    sy = s.syslist[0]
    h0 = np.array(c["cell"])
    s.run(c["n"])
    h = np.array(sy.cell.h)
    if not np.abs(h).max() < 10 * np.abs(h0).max():
        raise Skip("unstable: the cell mass is too small for the step")
    require(np.abs(np.tril(h, -1)).max() < 1e-12, "the cell is not upper triangular: %r", h.tolist())
    moved = np.abs(h / np.diag(h0) - h0 / np.diag(h0)).max()
    V0, V = np.linalg.det(h0), np.linalg.det(h)
    if b["mode"] in ("isotropic", "sc-isotropic"):
        close(h / h[0, 0], h0 / h0[0, 0], "shape of the cell under an isotropic barostat", 1e-9)
    if b.get("vol_constraint"):
        require(abs(V / V0 - 1) < 1e-8, "constrained volume went from %r to %r", V0, V)
    if b["mode"] in ("flexible", "anisotropic"):
        M = mask(b)
        if "offdiagonal" in (b.get("hfix") or []) and not np.triu(h0, 1).any():
            require(np.abs(np.triu(h, 1)).max() < 1e-10, "with hfix=%r the cell becomes %r", b["hfix"], h.tolist())
        for i in range(3):
            # h' = v h with v upper triangular: a row without free components does not change
            if not M[i].any():
                require(np.abs(h[i] - h0[i]).max() < 1e-9 * abs(h0).max(), "row %d of the cell is held fixed by hfix=%r but went from %r to %r", i, b["hfix"], h0[i].tolist(), h[i].tolist())
            if M[i, i] == 0:
                require(abs(h[i, i] - h0[i, i]) < 1e-9 * h0[i, i], "component %s of the cell is held fixed but went from %r to %r", "xyz"[i] * 2, h0[i, i], h[i, i])
        # components that are not free stay zero in the deformation
        L = np.dot(h, np.linalg.inv(h0))
        zero = [M[0, 1] == 0, M[1, 2] == 0]
        for i, j, z in ((0, 1, zero[0]), (1, 2, zero[1]), (0, 2, M[0, 2] == 0 and any(zero))):
            if z:
                require(abs(L[i, j]) < 1e-9, "component %s of the cell is held fixed by hfix=%r but the deformation is %r", "xyz"[i] + "xyz"[j], b["hfix"], L.tolist())
    require(moved > 0 or (b["mode"] in ("flexible", "anisotropic") and not mask(b).any()), "the cell did not move at all")
    require(np.isfinite(h).all(), "cell %r", h.tolist())
    return "%s %s%s" % (c["splitting"], b["mode"], " +volume" if b.get("vol_constraint") else "")


def t_rev(case):
    c = case
    if free_offdiagonal(c["barostat"]):
        raise Skip("listed finding C16-offdiagonal-stress")
    s, sy, e = run(c, 1)
    b = sy.motion.barostat
    q0, p0, h0 = np.array(c["q"]), None, np.array(c["cell"])
    s0 = sim.make(c)
    p0, b0 = np.array(s0.syslist[0].beads.p), np.array(s0.syslist[0].motion.barostat.p)
    sy.beads.p = -np.array(sy.beads.p)
    b.p = -np.array(b.p)
    s.run(c["n"])
    t = " after %d steps forth and back" % c["n"]
    close(np.array(sy.cell.h), h0, "cell" + t, 1e-8)
    close(np.array(sy.beads.q), q0, "positions" + t, 1e-7)
    sc = np.abs(p0).max() + np.sqrt(c["temp"] * max(c["m"]))
    require(np.abs(np.array(sy.beads.p) + p0).max() <= 1e-7 * sc, "momenta%s: %r, started from %r", t, (-np.array(sy.beads.p)).tolist(), p0.tolist())
    sb = np.abs(b0).max() + np.sqrt(c["temp"] * len(c["q"]) * float(np.array(b.m).max()))
    require(np.abs(np.array(b.p) + b0).max() <= 1e-7 * sb, "barostat momentum%s: %r, started from %r", t, (-np.array(b.p)).tolist(), b0.tolist())
    return c["mode"] + " " + c["barostat"]["mode"]


if __name__ == "__main__":
    main("C16", [Sub("baro", gen(), t_baro, quick=320, thorough=6000, shards=4), Sub("reverse", gen(), t_rev, quick=160, thorough=3000, shards=2),
                 Sub("force", gen().filter(lambda c: c["mode"] != "scnpt"), t_force, quick=200, thorough=4000, shards=2), Sub("fixed", gen_fix(), t_fix, quick=480, thorough=6000, shards=4)],
         rule="a case is an NPT/NST/Suzuki-Chin NPT system with any barostat, cell constraints, external stress and time-step levels: run at dt and dt/4, forth and back, for one tiny step, or with the cell thermostat on",
         assumptions=["conservation, reversibility and cell forces are judged with the thermostats switched off by an infinite time constant; smooth test potential with an explicit cell term",
                      "listed findings: conservation with free off-diagonal cell components, and the weights of log h_ii when some are fixed"], quick_s=110, thorough_s=900)
