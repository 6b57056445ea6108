"""C14: constant-energy (path integral, multiple time step, biased) dynamics against an independent reference integrator."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim, vpes
from checks.c11_nmtrans import close, lap
from checks.c12_freerp import model
from checks.c19_forces import Ref
import numpy as np


@st.composite
def gen(draw):
    c = draw(sim.matter(max_atoms=3, max_beads=5))
    P, n = len(c["q"]), len(c["m"])
    c["mode"] = "nve"
    c["dt"] = draw(sim.floats(1.0, 10.0))
    c["fixcom"] = n > 1 and draw(st.booleans())
    if n > 1 and draw(st.integers(0, 3)) == 0:
        c["fixcom"] = False
        if draw(st.booleans()):
            c["fixatoms"] = [draw(st.integers(0, n - 1))]
        else:
            c["fixatoms_dof"] = draw(st.lists(st.integers(0, 3 * n - 1), min_size=1, max_size=3, unique=True))
    L = draw(st.sampled_from([1, 1, 2, 3]))
    nf = draw(st.integers(1, 3))
    c["ffs"] = [dict(name="f%d" % i, par=draw(sim.pes_par())) for i in range(nf)]
    c["forces"] = []
    for i in range(nf):
        d = dict(ff="f%d" % i)
        if draw(st.booleans()):
            d["weight"] = draw(sim.floats(0.0, 1.5))
        if L > 1 or draw(st.integers(0, 3)) == 0:
            d["mts_weights"] = [draw(sim.floats(0.0, 1.0)) for _ in range(L)]
        if P > 1 and draw(st.integers(0, 3)) == 0:
            d["nbeads"] = draw(st.integers(1, P))
        c["forces"].append(d)
    if L > 1 or draw(st.booleans()):
        c["nmts"] = [draw(st.integers(1, 5)) for _ in range(L)]
    if draw(st.integers(0, 2)) == 0:
        c["ffs"].append(dict(name="fb", par=draw(sim.pes_par())))
        c["bias"] = [dict(ff="fb")]
        if draw(st.booleans()):
            c["bias_weights"] = [draw(sim.floats(-0.3, 1.0))]
    if draw(st.integers(0, 2)) == 0:
        c["hamiltonian_weights"] = [draw(sim.floats(0.5, 1.5)) for _ in range(nf)]
    if P > 1 and draw(st.booleans()):
        c["nm"] = dict(transform=draw(st.sampled_from(["fft", "matrix"])))
        if draw(st.integers(0, 2)) == 0:
            c["nm"]["open_paths"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))
        if draw(st.integers(0, 2)) == 0:
            fr = draw(sim.unit_vec(P - 1, 5e-3, 2e-2))
            s = draw(st.sampled_from(["pa-cmd", "manual", "wmax-cmd"]))
            c["nm"]["frequencies"] = [s, fr if s == "manual" else fr[:1] if s == "pa-cmd" else [2e-2, 1e-2]]
    c["splitting"] = draw(st.sampled_from(["obabo", "baoab"]))
    c["steps"] = draw(st.integers(1, 4))
    c["cell"] = np.diag([40.0] * 3).tolist()
    return c


class Model:
    """Total energy, level forces, mode masses, free motion, constraints: from the description alone."""

    def __init__(self, c):
        self.c, self.q, self.p = c, np.array(c["q"]), np.array(c["p"])
        self.P, n3 = self.q.shape
        self.m3 = np.repeat(c["m"], 3)
        nm = c.get("nm") or {}
        d = dict(c, n=n3 // 3, P=self.P, T=c["temp"], open=nm.get("open_paths", []))
        d.pop("freq", None)
        if nm.get("frequencies"):
            d["freq"] = nm["frequencies"]
        self.md, self.wn = model(d), c["temp"] * self.P
        self.open = d["open"]
        self.R = Ref(c)
        self.Rb = Ref(dict(c, forces=c.get("bias", [])))
        self.L = len(c["forces"][0].get("mts_weights", [1.0]))
        self.removed = 0.0
        self.fixed = sorted(set(c.get("fixatoms_dof", [])) | {3 * i + k for i in c.get("fixatoms", []) for k in range(3)})

    def terms(self, q):
        nf = len(self.c["forces"])
        co = [self.R.comp(i, q) for i in range(nf)]
        mw = np.array([self.R.w[i] * self.R.mts(i) for i in range(nf)])
        hw = np.array(self.c.get("hamiltonian_weights", [1.0] * nf)) - 1
        cb = [self.Rb.comp(i, q) for i in range(len(self.c.get("bias", [])))]
        bw = self.c.get("bias_weights", [1.0] * len(cb))
        return co, mw, hw, cb, bw

    def force(self, l, q):
        co, mw, hw, cb, bw = self.terms(q)
        f = sum(mw[i, l] * co[i]["fe"] for i in range(len(co)))
        if l == 0:
            f = f + sum(hw[i] * mw[i].sum() * co[i]["fe"] for i in range(len(co))) + sum(bw[i] * cb[i]["fe"] for i in range(len(cb)))
        return f

    def bias(self, q):
        co, mw, hw, cb, bw = self.terms(q)
        return sum(hw[i] * mw[i].sum() * co[i]["pe"].sum() for i in range(len(co))) + sum(bw[i] * cb[i]["pe"].sum() for i in range(len(cb)))

    def pot(self, q):
        co, mw, hw, cb, bw = self.terms(q)
        return sum(mw[i].sum() * co[i]["pe"].sum() for i in range(len(co)))

    def kin(self, p):
        return sum(0.5 * ((self.md[k // 3][0].T @ p[:, k]) ** 2 / self.md[k // 3][2]).sum() / self.m3[k] for k in range(p.shape[1]))

    def spring(self, q):
        if self.P == 1:
            return 0.0
        return sum(0.5 * self.m3[k] * self.wn**2 * (q[:, k] @ lap(self.P, k // 3 in self.open) @ q[:, k]) for k in range(q.shape[1]))

    def energy(self):
        return self.pot(self.q) + self.bias(self.q) + self.kin(self.p) + self.spring(self.q)

    def con(self):
        k0 = self.kin(self.p)
        if self.c.get("fixcom"):
            v = self.p.sum(0).reshape(-1, 3).sum(0) / (self.P * sum(self.c["m"]))
            self.p = self.p - self.m3 * np.tile(v, len(self.c["m"]))
        if self.fixed:
            self.p[:, self.fixed] = 0.0
        self.removed += k0 - self.kin(self.p)

    def free(self, dt):
        from scipy.linalg import expm
        for k in range(self.q.shape[1]):
            U, w, f = self.md[k // 3]
            A = np.block([[np.zeros((self.P,) * 2), (U / f) @ U.T / self.m3[k]], [-self.m3[k] * (U * w**2) @ U.T, np.zeros((self.P,) * 2)]])
            x = expm(A * dt) @ np.concatenate([self.q[:, k], self.p[:, k]])
            self.q[:, k], self.p[:, k] = x[: self.P], x[self.P:]

    def kick(self, l, dt):
        f = self.force(l, self.q)
        if self.fixed:
            f[:, self.fixed] = 0.0
        self.p = self.p + dt * f
        self.con()

    def level(self, l, dt):
        """nmts[l] sub-steps over dt; force of the level at the ends, next level (or free motion) in between"""
        n = (self.c.get("nmts") or [1])[l]
        for _ in range(n):
            self.kick(l, 0.5 * dt / n)
            if l + 1 < self.L:
                self.level(l + 1, dt / n)
            else:
                self.free(dt / n)
            self.kick(l, 0.5 * dt / n)


def t_nve(case):
    c = case
    M = Model(c)
    s = sim.make(c)
    sy = s.syslist[0]
    e0 = float(sy.ensemble.econs)
    close(e0, M.energy(), "conserved quantity at the start", 1e-9)
    close(float(sy.properties["potential"][0]), M.pot(M.q) / M.P, "potential at the start", 1e-9)
    dt = c["dt"]
    M.con()       # constraints are imposed when the simulation is set up; the energy removed is accounted for
    q0, p0 = M.q.copy(), M.p.copy()
    close(np.array(sy.beads.p), p0, "momenta at the start, with constraints imposed", 1e-9)
    for k in range(c["steps"]):
        s.run(1)
        M.level(0, dt)
        t = " after step %d" % (k + 1)
        close(np.array(sy.beads.q), M.q, "positions" + t, 1e-8)
        close(np.array(sy.beads.p), M.p, "momenta" + t, 1e-7)
        close(float(sy.ensemble.econs), M.energy() + M.removed, "conserved quantity" + t, 1e-8)
    # time reversal, with constraints already satisfied
    q1 = np.array(sy.beads.q)
    sy.beads.p = -np.array(sy.beads.p)
    s.run(c["steps"])
    if M.fixed:
        close(q1.mean(0)[M.fixed], q0.mean(0)[M.fixed], "centroid of fixed coordinates", 1e-12)
    if not M.fixed or M.P == 1:
        close(np.array(sy.beads.q), q0, "positions after %d steps forth and back" % c["steps"], 1e-8)
        close(-np.array(sy.beads.p), p0, "momenta after %d steps forth and back" % c["steps"], 1e-7)
    la = ["mts%d" % M.L] + [k for k in ("bias", "hamiltonian_weights", "fixatoms", "fixatoms_dof") if c.get(k)] + (["fixcom"] if c["fixcom"] else []) + sorted((c.get("nm") or {}).keys())
    return " ".join(la)


@st.composite
def gen_ext(draw):
    """the Hamiltonian part of the constant-temperature integrators: no thermostat, so that the motion is deterministic"""
    c = draw(gen())
    c["mode"] = mode = draw(st.sampled_from(["sc", "sc", "nvt-cc", "nvt-cc", "nvt"]))
    c.pop("nm", None)
    if mode != "nvt" or len(c["q"]) > 1:
        c.pop("fixatoms", None)
        c.pop("fixatoms_dof", None)
    if mode != "nvt":
        P = len(c["q"])
        if P == 1 or (mode == "sc" and P % 2):
            P = P + 1
            c["q"].append([x + 0.1 for x in c["q"][-1]])
            c["p"].append([-x for x in c["p"][-1]])
    if mode == "sc":
        sg = draw(st.sampled_from([-1, -1, 1]))
        c["fixcom"] = c["fixcom"] and sg < 0
        for f in c["forces"]:
            f.pop("nbeads", None)
            f["fd_epsilon"] = sg * draw(st.sampled_from([1e-3, 1e-4]))
        c["alpha"] = draw(st.sampled_from([0.0, 0.0, 0.2, 0.5, 1.0]))
    c["steps"] = draw(st.integers(1, 3))
    return c


class ModelSC(Model):
    """Suzuki-Chin: V (1 + c1) + c2 |f|^2/m on top of the springs"""

    def coef(self):
        w2 = self.wn**2
        k = np.arange(self.P)
        a = self.c["alpha"]
        return np.where(k % 2 == 0, -1 / 3, 1 / 3)[:, None], np.where(k % 2 == 0, a, 1 - a)[:, None] / (9 * w2)

    def parts(self, q):
        co, mw, hw, cb, bw = self.terms(q)
        nf = len(co)
        return sum(mw[i].sum() * co[i]["pe"] for i in range(nf)), sum(mw[i].sum() * co[i]["fe"] for i in range(nf))

    def extra(self):
        c1, c2 = self.coef()
        v, f = self.parts(self.q)
        return float((c1[:, 0] * v).sum() + (c2 * f**2 / self.m3).sum())

    def energy(self):
        return Model.energy(self) + self.extra()

    def force(self, l, q):
        co, mw, hw, cb, bw = self.terms(q)
        f = sum(mw[i, l] * co[i]["fe"] for i in range(len(co)))
        return Model.force(self, l, q) + self.coef()[0] * f

    def fsc2(self, q):
        _, c2 = self.coef()
        _, f = self.parts(q)
        u = f / self.m3
        h = 1e-3 / max(np.abs(u).max(), 1e-30)
        d = lambda x: self.parts(q + x * h * u)[1]
        return -2 * c2 * (8 * (d(1) - d(-1)) - (d(2) - d(-2))) / (12 * h)

    def step(self, dt):
        f = self.fsc2(self.q)
        self.p = self.p + 0.5 * dt * f
        self.level(0, dt)
        g = self.fsc2(self.q)
        self.p = self.p + 0.5 * dt * g
        self.con()
        return max(np.abs(f).max(), np.abs(g).max())


class ModelCC(Model):
    """centroid held in place: no centroid momentum, no work done on it"""

    def hold(self):
        self.p = self.p - self.p.mean(0)

    def kick(self, l, dt):
        self.p = self.p + dt * self.force(l, self.q)
        self.hold()

    def con(self):
        k0 = self.kin(self.p)
        self.hold()
        self.removed += k0 - self.kin(self.p)

    def step(self, dt):
        self.con()
        self.level(0, dt)
        return 0.0


class ModelVT(Model):
    def step(self, dt):
        self.level(0, dt)
        return 0.0


def t_ext(case):
    c = case
    M = {"sc": ModelSC, "nvt-cc": ModelCC, "nvt": ModelVT}[c["mode"]](c)
    s = sim.make(c)
    sy = s.syslist[0]
    if c["mode"] == "sc":
        sy.forces.alpha = c["alpha"]
    close(float(sy.ensemble.econs), M.energy(), "conserved quantity at the start", 1e-9)
    M.con()
    if c["mode"] != "nvt-cc":
        close(np.array(sy.beads.p), M.p, "momenta at the start, with constraints imposed", 1e-9)
    dt, slack = c["dt"], 0.0
    qc = M.q.mean(0)
    for k in range(c["steps"]):
        s.run(1)
        # the |f|^2 force is a finite difference in the program: 0.2% of the kick (5% where one-sided) is allowed for
        one = c["mode"] == "sc" and c["forces"][0]["fd_epsilon"] > 0
        slack = (5e-2 if one else 2e-3) * dt * M.step(dt)
        t = " after step %d" % (k + 1)
        q, p = np.array(sy.beads.q), np.array(sy.beads.p)
        for a, b, w, tol in ((q, M.q, "positions", 1e-8 * max(1, np.abs(M.q).max()) + slack * dt / M.m3), (p, M.p, "momenta", 1e-7 * max(1, np.abs(M.p).max()) + slack)):
            if not np.all(np.abs(a - b) <= tol):
                raise Violation("%s%s differ from the reference: max %.3g of %.3g" % (w, t, np.abs(a - b).max(), np.abs(b).max()))
        M.q, M.p = q, p
        if c["mode"] == "nvt-cc":
            close(q.mean(0), qc, "centroid" + t, 1e-11)
        if not slack:
            close(float(sy.ensemble.econs), M.energy() + M.removed, "conserved quantity" + t, 1e-8)
        else:
            close(float(sy.ensemble.econs), M.energy() + M.removed, "conserved quantity" + t, 1e-8 + 1e-5 * c["fixcom"])
    return " ".join([c["mode"], c["splitting"], "mts%d" % M.L] + [k for k in ("bias", "hamiltonian_weights", "fixatoms", "fixatoms_dof") if c.get(k)])


if __name__ == "__main__":
    main("C14", [Sub("nve", gen(), t_nve, quick=800, thorough=12000, shards=8),
                 Sub("hamilton", gen_ext(), t_ext, quick=500, thorough=8000, shards=8)],
         rule="a case is a system with several force components, time-step levels, constraints, mode masses, bias and Hamiltonian weights run for 1-4 steps forth and back; labels give the features",
         assumptions=["reference: nested kick/drift written from the definition with matrix exponentials for the free path; smooth test potential through ffdirect; tolerance 1e-7 to 1e-9"], quick_s=100, thorough_s=900)
