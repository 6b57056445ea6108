"""C34: nudged elastic bands."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim, vpes
from checks.c11_nmtrans import close
from checks.c26_geop import within
import numpy as np
from hypothesis import strategies as st

F = sim.floats


@st.composite
def gen(draw):
    n, P = draw(st.integers(1, 2)), draw(st.integers(3, 7))
    k, cc = draw(F(0.02, 0.2)), draw(F(0.02, 0.2))
    par = dict(k=-k, c=cc, g=draw(st.sampled_from([0.0, 0.01])))
    if n > 1:
        par.update(A=draw(st.sampled_from([0.0, 0.05])), s=1.5)
    a = np.sqrt(k / cc)
    A, B = np.full(3 * n, a), np.full(3 * n, a)
    A[0] = -a
    A += np.array(draw(sim.unit_vec(3 * n, -0.2, 0.2)))
    B += np.array(draw(sim.unit_vec(3 * n, -0.2, 0.2)))
    t = np.linspace(0, 1, P)[:, None]
    q = A + t * (B - A) + np.sin(np.pi * t) * np.array(draw(sim.unit_vec(3 * n, -0.3, 0.3)))
    c = dict(q=q.tolist(), p=np.zeros_like(q).tolist(), m=[1836.0] * n, names=["H"] * n, cell=np.diag([40.0] * 3).tolist(), temp=None)
    c["ffs"], c["forces"] = [dict(name="f0", par=par)], [dict(ff="f0")]
    if draw(st.integers(0, 2)) == 0:
        c["forces"][0]["weight"] = draw(st.sampled_from([0.7, 1.5]))
    c["fix"] = sorted(draw(st.lists(st.integers(1, 3 * n - 1), min_size=1, max_size=2, unique=True))) if draw(st.integers(0, 2)) == 0 else []
    lo = draw(st.booleans())
    c["tol"] = [draw(st.sampled_from([1e-1, 1e-3] if lo else [1e-6, 1e-5])), draw(st.sampled_from([1e-1, 1e-2] if lo else [1e-4, 1e-3])), draw(st.sampled_from([1e-1, 1e-2] if lo else [1e-3, 1e-4]))]
    c["mode"], c["tangent"], c["climb"] = draw(st.sampled_from(["fire", "damped_bfgs"])), draw(st.sampled_from(["plain", "improved"])), draw(st.booleans())
    c["kappa"] = draw(F(0.05, 1.0))
    c["steps"] = draw(st.integers(1, 40))
    c["motion"] = ("<motion mode='neb'><neb_optimizer mode='%s'><tolerances><energy>%r</energy><force>%r</force><position>%r</position></tolerances><tangent>%s</tangent><use_climb>%r</use_climb><spring><kappa>%r</kappa></spring><biggest_step>0.3</biggest_step></neb_optimizer>"
                   % ((c["mode"],) + tuple(c["tol"]) + (c["tangent"], c["climb"], c["kappa"])))
    if c["fix"]:
        c["motion"] += "<fixatoms_dof>%r</fixatoms_dof>" % c["fix"]
    c["motion"] += "</motion>"
    return c


def ref(c, q):
    v, f = np.zeros(len(q)), np.zeros_like(q)
    for d in c["forces"]:
        par = [x["par"] for x in c["ffs"] if x["name"] == d["ff"]][0]
        for i, x in enumerate(q):
            r = vpes.evaluate(par, c["cell"], x)
            v[i] += d.get("weight", 1.0) * r[0]
            f[i] += d.get("weight", 1.0) * r[1].flatten()
    return v, f


def tangent(c, q, v, i):
    a, b = q[i] - q[i - 1], q[i + 1] - q[i]
    if c["tangent"] == "plain":
        t = a / np.linalg.norm(a) + b / np.linalg.norm(b)
    elif v[i + 1] < v[i] < v[i - 1]:
        t = a
    elif v[i - 1] <= v[i] <= v[i + 1]:
        t = b
    else:
        x, y = abs(v[i + 1] - v[i]), abs(v[i - 1] - v[i])
        hi, lo = max(x, y), min(x, y)
        t = b * hi + a * lo if v[i + 1] >= v[i - 1] else b * lo + a * hi
    return t / np.linalg.norm(t)


def bandforce(c, q, v, f):
    g = np.zeros_like(q[1:-1])
    for i in range(1, len(q) - 1):
        t = tangent(c, q, v, i)
        g[i - 1] = f[i] - (f[i] @ t) * t + c["kappa"] * (np.linalg.norm(q[i + 1] - q[i]) - np.linalg.norm(q[i] - q[i - 1])) * t
    return g


def t_neb(c):
    q0 = q = np.array(c["q"])
    n = q.shape[1] // 3
    free = np.ones(3 * n, bool)
    free[c["fix"]] = False
    if not free.any():
        return None
    s = within(lambda: sim.make(c), 30, "setting up the band")
    sy = s.syslist[0]
    v, f = ref(c, q)
    if np.abs(bandforce(c, q[:, free], v, f[:, free])).max() < 1e-9:
        return None
    stage, ci, la = "neb", None, []
    for k in range(c["steps"]):
        try:
            within(lambda: s.run(1), 30, "one step of the band")
        except SystemExit:
            pass
        over = bool(sy.motion.finished)
        qn = np.array(sy.beads.q)
        t = " after step %d (%s stage)" % (k, stage)
        require(np.isfinite(qn).all(), "the positions are not finite" + t)
        require(np.array_equal(qn[[0, -1]], q0[[0, -1]]), "an end point has moved" + t)
        require(np.array_equal(qn[:, ~free], q0[:, ~free]), "a fixed coordinate has moved" + t)
        vn, fn = ref(c, qn)
        close(np.array(sy.forces.pots), vn, "potentials of the images" + t, 1e-9)
        close(np.array(sy.forces.f), fn, "forces on the images" + t, 1e-8)
        if stage == "climb":
            if ci is None:
                ci = int(np.argmax(v))
            if ci in (0, len(q) - 1):
                require(over and sy.motion.exit_status == "bad", "climbing of an end point is not refused")
                return "climb-endpoint"
            o = np.arange(len(q)) != ci
            require(np.array_equal(qn[o], q[o]), "an image other than the highest one has moved" + t)
            tg = {"tangent": "plain"}
            u = tangent(tg, qn[:, free], vn, ci)
            g = fn[ci, free] - 2 * (fn[ci, free] @ u) * u
            x = [abs(vn[ci] - v[ci]) / n, np.abs(g).max(), np.abs(qn - q).max()]
        else:
            g = bandforce(c, qn[:, free], vn, fn[:, free])
            x = [abs(vn.sum() - v.sum()) / (n * len(q)), np.abs(g).max(), np.abs(qn - q).max()]
        conv = all(y <= z * (1 - 1e-7) for y, z in zip(x, c["tol"]))
        far = any(y > z * (1 + 1e-7) for y, z in zip(x, c["tol"]))
        q, v, f = qn, vn, fn
        if not conv and not far:
            return "edge"
        if conv and stage == "neb" and c["climb"]:
            require(not over, "the simulation ended before climbing")
            stage = "climb"
            continue
        require(over == conv, "the optimisation %s%s; changes of energy, force, positions are %r, tolerances %r", "ended" if over else "did not end", t, x, c["tol"])
        if over:
            require(sy.motion.exit_status == "success", "exit status %r", sy.motion.exit_status)
            la.append("converged")
            break
    return " ".join([c["mode"], c["tangent"], stage] + la)


@st.composite
def gen_re(draw):
    from checks.c03_restart import cuts
    c = draw(gen())
    d = draw(cuts())
    d["n"] = min(d["n"], 8)
    d["cuts"] = [min(x, d["n"] - 1) for x in d["cuts"]]
    c.update(d)
    return c


def t_re(c):
    """stopped and continued from the restart file: the same as in one go"""
    from checks.c03_restart import compare, GOUT
    q = np.array(c["q"])
    free = np.ones(q.shape[1], bool)
    free[c["fix"]] = False
    v, f = ref(c, q)
    if np.abs(bandforce(c, q[:, free], v, f[:, free])).max() < 1e-4:
        return None
    xmlf = lambda total: sim.build(dict(c, total_steps=total, output=GOUT % 1))
    os.mkdir("probe")
    os.chdir("probe")
    s = sim.cli_run(xmlf(c["n"]))
    os.chdir("..")
    st_ = s.syslist[0].motion.stage
    if s.step < c["n"] or st_ == "converged" or s.syslist[0].motion.finished:
        return None
    compare(c, xmlf, tol=1e-6)
    return " ".join(["restart", c["mode"], st_])


if __name__ == "__main__":
    main("C34", [Sub("neb", gen(), t_neb, quick=200, thorough=4000, shards=6), Sub("restart", gen_re(), t_re, quick=120, thorough=2000, shards=2)],
         rule="a case is a band of 3-7 images of 1-2 atoms between generated end points of a double well, optimised for 1-40 steps (restart: cut at generated steps); labels give optimiser, tangent, stage and whether it converged",
         assumptions=["one force component (the code asserts this), any weight; smooth test potential; a comparison with a tolerance within 1e-7 of equality is not judged"], quick_s=60, thorough_s=600)
