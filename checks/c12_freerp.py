"""C12: free ring polymer: spring energy, normal-mode masses, and the propagators against dense linear algebra."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim
from checks.c11_nmtrans import lap, close
import numpy as np


@st.composite
def gen(draw):
    n = draw(st.integers(1, 3))
    P = draw(st.integers(1, 9))
    prop = draw(st.sampled_from(["exact", "cayley", "bab"]))
    c = dict(n=n, P=P, prop=prop, T=draw(sim.floats(1e-4, 5e-3)), m=draw(st.lists(sim.floats(300.0, 9000.0), min_size=n, max_size=n)), seed=draw(st.integers(0, 10**6)),
             method=draw(st.sampled_from(["fft", "matrix"])), wdt=draw(sim.floats(0.05, 6.0)), open=[])
    if prop == "bab":
        c["nmts"] = draw(st.integers(1, 12))
        c["wdt"] = min(c["wdt"], 0.4 * c["nmts"])
    elif draw(st.booleans()):
        c["open"] = draw(st.lists(st.integers(0, n - 1), unique=True, min_size=1, max_size=n))
    if P > 1 and draw(st.booleans()):
        s = draw(st.sampled_from(["pa-cmd", "manual", "wmax-cmd"]))
        wn = c["T"] * P
        fr = [float("%.6g" % (wn * x)) for x in draw(sim.unit_vec(P - 1, 0.5, 3.0))]
        c["freq"] = [s, fr if s == "manual" else fr[:1] if s == "pa-cmd" else [float("%.6g" % (wn * draw(sim.floats(0.5, 4.0)))), fr[0]]]
    c["steps"] = draw(st.integers(1, 3))
    return c


def model(c):
    """per atom: T (modes), w (bare frequencies), f (mass factors)"""
    P, wn = c["P"], c["T"] * c["P"]
    res = []
    for a in range(c["n"]):
        K = lap(P, a in c["open"]) if P > 1 else np.zeros((1, 1))
        w2, U = np.linalg.eigh(K)
        w = wn * np.sqrt(np.clip(w2, 0, None))
        w[0] = 0.0
        f = np.ones(P)
        if "freq" in c:
            s, fr = c["freq"]
            # order in which the program numbers the modes: open paths by increasing frequency; closed ones k and P-k are a pair
            if s == "pa-cmd":
                f[1:] = (w[1:] / fr[0]) ** 2
            elif s == "wmax-cmd":
                f[1:] = (fr[0] ** 2 + w[1:] ** 2) / (fr[1] ** 2 * (1 + (fr[0] / w[1]) ** 2))
            elif a in c["open"]:
                f[1:] = (w[1:] / np.array(fr)) ** 2
            else:
                f = None       # manual, closed: needs the program's numbering
        if f is None or P == 1:
            j = np.arange(P)
            U = np.array([np.ones(P) if k == 0 else np.cos(2 * np.pi * j * k / P) if k <= P // 2 else np.sin(2 * np.pi * j * k / P) for k in range(P)]).T
            U /= np.linalg.norm(U, axis=0)
            w = 2 * wn * np.sin(np.pi * np.arange(P) / P)
            f = np.ones(P)
            if P > 1:
                f[1:] = (w[1:] / np.array(c["freq"][1])) ** 2
        res.append((U, w, f))
    return res


def t_free(case):
    from scipy.linalg import expm
    c = case
    P, n = c["P"], c["n"]
    rng = np.random.RandomState(c["seed"])
    wn = c["T"] * P
    m3 = np.repeat(c["m"], 3)
    q = rng.normal(size=(P, 3 * n)) * 0.3 + rng.normal(size=3 * n)
    p = rng.normal(size=(P, 3 * n)) * np.sqrt(m3 * wn)
    md = model(c)
    wmax = max([max(w / np.sqrt(f)) for _, w, f in md] + [wn])
    dt = c["wdt"] / wmax
    nm = dict(transform=c["method"], propagator=c["prop"])
    if "freq" in c:
        nm["frequencies"] = c["freq"]
    if c["open"]:
        nm["open_paths"] = c["open"]
    if "nmts" in c:
        nm["nmts"] = c["nmts"]
    s = sim.make(dict(q=q.tolist(), p=p.tolist(), m=c["m"], temp=c["T"], nm=nm, dt=dt, mode="nve", fixcom=False, ffs=[dict(name="f", par=dict(k=0.0))], forces=[dict(ff="f")]))
    sy = s.syslist[0]
    # energies
    V = sum(0.5 * m3[k] * wn**2 * (q[:, k] @ (lap(P, k // 3 in c["open"]) if P > 1 else np.zeros((1, 1))) @ q[:, k]) for k in range(3 * n))
    close(sy.nm.vspring, V, "spring energy", 1e-9)
    F = np.array([-m3[k] * wn**2 * ((lap(P, k // 3 in c["open"]) if P > 1 else np.zeros((1, 1))) @ q[:, k]) for k in range(3 * n)]).T
    close(np.array(sy.nm.fspring), F, "spring forces", 1e-9)

    def kin(p):
        return sum(0.5 * ((md[k // 3][0].T @ p[:, k]) ** 2 / md[k // 3][2]).sum() / m3[k] for k in range(3 * n))
    K0 = kin(p)
    close(sy.nm.kin, K0, "kinetic energy of the path with its normal-mode masses", 1e-9)
    e0 = float(sy.ensemble.econs)
    close(e0, K0 + V, "conserved quantity of a free path", 1e-9)
    # propagation
    s.run(c["steps"])
    Q, R = q.copy(), p.copy()
    for k in range(3 * n):
        U, w, f = md[k // 3]
        Kb = m3[k] * (U * w**2) @ U.T
        Mi = (U / f) @ U.T / m3[k]
        A = np.block([[np.zeros((P, P)), Mi], [-Kb, np.zeros((P, P))]])
        x = np.concatenate([q[:, k], p[:, k]])
        if c["prop"] == "exact" or P == 1:
            x = expm(A * dt * c["steps"]) @ x
        elif c["prop"] == "cayley":
            for _ in range(2 * c["steps"]):   # two half steps around the force kick
                x = np.linalg.solve(np.eye(2 * P) - 0.25 * dt * A, (np.eye(2 * P) + 0.25 * dt * A) @ x)
        else:
            h = 0.5 * dt / c["nmts"]
            a, b = x[:P], x[P:]
            for _ in range(2 * c["steps"] * c["nmts"]):
                b = b - 0.5 * h * (Kb @ a)
                a = a + h * (Mi @ b)
                b = b - 0.5 * h * (Kb @ a)
            x = np.concatenate([a, b])
        Q[:, k], R[:, k] = x[:P], x[P:]
    close(np.array(sy.beads.q), Q, "positions after %d steps with the %s propagator" % (c["steps"], c["prop"]), 1e-7)
    close(np.array(sy.beads.p), R, "momenta after %d steps with the %s propagator" % (c["steps"], c["prop"]), 1e-7)
    if c["prop"] != "bab":
        close(float(sy.ensemble.econs), e0, "conserved quantity after free propagation", 1e-8)
    return "%s-%s%s" % (c["prop"], (c.get("freq") or ["rpmd"])[0], "-open" if c["open"] else "") if P > 1 else "classical"


if __name__ == "__main__":
    main("C12", [Sub("free", gen(), t_free, quick=1200, thorough=20000, shards=8)],
         rule="a case is a path (beads, masses, temperature, open atoms, mode masses, propagator, step) propagated by whole simulation steps; labels give propagator and mode masses",
         assumptions=["reference: eigenvectors and matrix exponential of the spring matrix (numpy, scipy); tolerances 1e-7 to 1e-9"], quick_s=90, thorough_s=900)
