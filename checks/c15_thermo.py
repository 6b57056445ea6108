"""C15: thermostats: damping, noise (fluctuation-dissipation), heat bookkeeping, against dense linear algebra; velocity rescaling against its exact law."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim
from checks.c11_nmtrans import close
from checks.c12_freerp import model
import numpy as np


class FakeGen:
    """stands in for the numpy generator under the program's Random: scripted normal deviates"""

    def __init__(self):
        self.xi, self.k = {}, 0
        self.bit_generator = np.random.MT19937(1)

    def standard_normal(self, size=None, dtype=None, out=None):
        if out is not None:
            o = out.reshape(-1)
            for i in range(o.size):
                o[i] = self.xi.get(self.k + i, 0.0)
            self.k += o.size
            return out
        n = 1 if size is None else int(np.prod(size))
        v = np.array([self.xi.get(self.k + i, 0.0) for i in range(n)])
        self.k += n
        return float(v[0]) if size is None else v.reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)


@st.composite
def gen(draw):
    c = draw(sim.matter(max_atoms=2, max_beads=4))
    P, n = len(c["q"]), len(c["m"])
    kind = draw(st.sampled_from(["langevin", "pile_l", "gle", "nm_gle", "cl", "ffl", "multi", "pile_l", "nm_gle"]))
    c["mode"], c["fixcom"] = "nvt", False
    c["splitting"] = draw(st.sampled_from(["obabo", "baoab"]))
    c["dt"] = draw(sim.floats(1.0, 60.0))
    th = draw(sim.thermo(P, [kind], c["temp"]))
    if kind == "multi":
        th["list"] = [draw(sim.thermo(P, ["langevin", "pile_l", "gle"], c["temp"])) for _ in range(draw(st.integers(1, 3)))]
    if kind == "ffl":
        th["flip"] = draw(st.sampled_from(["soft", "hard", "rescale", "none"]))
    if kind in ("gle", "nm_gle") and "C" in th and draw(st.booleans()):
        # a covariance that is not a multiple of the identity, still stationary for some drift
        A = np.array(th["A"] if kind == "nm_gle" else [th["A"]])
        r = np.random.RandomState(draw(st.integers(0, 999)))
        Cs, As = [], []
        for a in A:
            B = np.diag(r.uniform(0.05, 0.2, len(a)))
            L = np.linalg.cholesky(np.eye(len(a)) + 0.3 * np.diag(r.uniform(-1, 1, len(a))))
            C = L @ L.T * c["temp"] * P
            X = r.normal(size=a.shape) * 0.01
            As.append((0.5 * B @ B.T * c["temp"] * P + (X - X.T) * c["temp"] * P) @ np.linalg.inv(C))     # A C + C A^T = B B^T
            Cs.append(C)
        th["A"], th["C"] = (np.array(As).tolist(), np.array(Cs).tolist()) if kind == "nm_gle" else (As[0].tolist(), Cs[0].tolist())
    if P > 1 and kind in ("pile_l", "nm_gle") and draw(st.booleans()):
        fr = draw(sim.unit_vec(P - 1, 5e-3, 2e-2))
        s = draw(st.sampled_from(["pa-cmd", "manual", "wmax-cmd"]))
        c["nm"] = dict(frequencies=[s, fr if s == "manual" else fr[:1] if s == "pa-cmd" else [2e-2, 1e-2]])
    if kind == "cl":
        th["apat"] = 0.0
        if draw(st.booleans()):
            th["intau"] = th["idtau"] = 0.0
    c["thermostat"] = th
    c["ffs"], c["forces"] = [dict(name="f", par=dict(k=0.0))], [dict(ff="f")]
    c["xi"] = draw(st.integers(0, 10**6))
    return c


def expected(c, th, tdt, md):
    """per atom: list over independent blocks (modes) of (transform U, [(D, cov)]) acting on scaled momenta; returns D, cov in bead space for one atom, unit mass"""
    from scipy.linalg import expm
    P, T = len(c["q"]), c["temp"]
    res = []
    for U, w, f in md:
        if th["mode"] in ("langevin", "ffl"):
            t = np.exp(-tdt / th["tau"])
            D, S = np.eye(P) * t, np.eye(P) * T * P * (1 - t * t)
        elif th["mode"] == "pile_l":
            wk = w / np.sqrt(f)
            t = np.exp(-tdt * 2 * th.get("pile_lambda", 1.0) * wk)
            t[0] = np.exp(-tdt / th["tau"])
            kt = np.full(P, T * P)
            if th.get("pile_centroid_t", 0.0) > 0:
                kt[0] = th["pile_centroid_t"] * P
            D = (U * t) @ U.T
            S = (U * (f * kt * (1 - t * t))) @ U.T
        res.append((D, S))
    return res


def t_linear(case):
    from scipy.linalg import expm
    c = case
    th = c["thermostat"]
    s = sim.make(c)
    sy = s.syslist[0]
    P, n = len(c["q"]), len(c["m"])
    N = 3 * n
    m3 = np.repeat(c["m"], 3)
    fr = (c.get("nm") or {}).get("frequencies")
    d = dict(n=n, P=P, T=c["temp"], open=[])
    if fr:
        d["freq"] = fr
    md = model(d)
    # labels numbering of modes for nm_gle: cos/sin basis in the program's order
    fg = FakeGen()
    sy.prng.rng = [fg] * len(sy.prng.rng)
    t = sy.motion.thermostat
    tdt = c["dt"] * (0.5 if c["splitting"] == "obabo" else 1.0)
    p0 = np.array(c["p"])
    aux = hasattr(t, "s") and np.size(t.s) > 0
    s0 = np.array(t.s) if aux else None
    subs = [x for x in getattr(t, "tlist", []) if np.size(getattr(x, "s", ())) > 0] if th["mode"] == "multi" else []
    ss0 = [np.array(x.s) for x in subs]

    def step(p, sx=None, xi=None):
        fg.xi, fg.k = xi or {}, 0
        sy.beads.p = p
        if aux:
            t.s[:] = s0 if sx is None else sx
        for x, v in zip(subs, ss0):
            x.s[:] = v
        e0 = float(sy.ensemble.econs)
        t.step()
        e1 = float(sy.ensemble.econs)
        sc = abs(e0) + abs(e1) + float(sy.nm.kin) + 1e-12
        require(abs(e1 - e0) <= 1e-9 * sc, "the thermostat step changes the conserved quantity from %r to %r", e0, e1)
        return np.array(sy.beads.p), (np.array(t.s) if aux else None)

    mode = th["mode"]
    if mode == "ffl" and th["flip"] != "none":
        # the same noise through a plain Langevin, then the documented flip
        r = np.random.RandomState(c["xi"])
        xi = {i: float(x) for i, x in enumerate(r.normal(size=P * N) * 2)}
        got, _ = step(p0, xi=xi)
        s2 = sim.make(dict(c, thermostat=dict(mode="langevin", tau=th["tau"])))
        y2 = s2.syslist[0]
        f2 = FakeGen()
        y2.prng.rng = [f2] * len(y2.prng.rng)
        f2.xi = xi
        y2.beads.p = p0
        y2.motion.thermostat.step()
        lp = np.array(y2.beads.p)
        a, b = p0.reshape(-1, 3), lp.reshape(-1, 3)
        if th["flip"] == "hard":
            want = np.abs(b) * np.sign(a)
        elif th["flip"] == "rescale":
            nn = np.linalg.norm(a, axis=1)[:, None]
            if (nn == 0).any():
                raise Skip("zero momentum")
            want = a / nn * np.linalg.norm(b, axis=1)[:, None]
        else:
            aa = (a * a).sum(1)
            if (aa == 0).any():
                raise Skip("zero momentum")
            x = (a * b).sum(1) / aa
            want = b - np.where(x < 0, 2 * x, 0.0)[:, None] * a
        close(got, want.reshape(p0.shape), "flipped momenta", 1e-9)
        return "ffl-" + th["flip"]
    # linear part
    zp, zs = step(np.zeros((P, N)), sx=None if not aux else 0 * s0)
    if mode == "multi" and subs:
        base = zp
    else:
        base = 0 * zp
        close(zp, base, "momenta appear without noise", 0)
    nxi = fg.k
    J = []
    for j in range(nxi):
        a, b = step(np.zeros((P, N)), sx=None if not aux else 0 * s0, xi={j: 1.0})
        J.append(np.concatenate([(a - zp).flatten()] + ([b.flatten()] if aux else [])))
    J = np.array(J).reshape(nxi, -1)
    pert = np.random.RandomState(c["xi"]).normal(size=p0.shape) * np.sqrt(m3)
    if not aux:
        # damping
        if mode == "multi":
            ths = th["list"]
        else:
            ths = [th]
        if any(x["mode"] == "gle" for x in ths):
            # heat bookkeeping only (checked in step); plus Langevin/PILE pieces are checked elsewhere
            step(p0, xi={j: 0.3 for j in range(nxi)})
            return "multi-gle"
        if mode == "cl":
            a, _ = step(pert)
            k = int(np.argmax(np.abs(pert)))
            tt = a.flatten()[k] / pert.flatten()[k]
            close(a, tt * pert, "damping is the same for all", 1e-10)
            require(0 < tt <= 1.0, "damping factor %r", tt)
            cov = J[:, : P * N].T @ J[:, : P * N]
            if th["intau"] == 0 and th["idtau"] == 0:
                close(cov, np.diag(np.tile(m3, P) * c["temp"] * P * (1 - tt * tt)), "noise against damping (fluctuation-dissipation)", 1e-9)
            else:
                close(cov - np.diag(np.diag(cov)), 0 * cov, "noise is uncorrelated", 1e-10)
            return "cl"
        D = [np.eye(P) for _ in range(n)]
        S = [np.zeros((P, P)) for _ in range(n)]
        for x in ths:
            for i, (d1, s1) in enumerate(expected(c, x, tdt, md)):
                D[i], S[i] = d1 @ D[i], d1 @ S[i] @ d1.T + s1
        a, _ = step(pert)
        want = np.array([D[k // 3] @ pert[:, k] for k in range(N)]).T
        close(a, want, "damped momenta", 1e-9)
        cov = (J.T @ J).reshape(P, N, P, N)
        for k in range(N):
            for l in range(N):
                w = m3[k] * S[k // 3] if k == l else np.zeros((P, P))
                sc = np.sqrt(m3[k] * m3[l]) * c["temp"] * P
                require(np.abs(cov[:, k, :, l] - w).max() <= 1e-9 * sc, "noise covariance of coordinates %d and %d: %r, expected %r", k, l, cov[:, k, :, l].tolist(), w.tolist())
        return mode + ("-" + fr[0] if fr else "") + ("-ct" if th.get("pile_centroid_t") else "")
    # generalized Langevin
    As = np.array(th["A"] if mode == "nm_gle" else [th["A"]])
    ns = As.shape[-1] - 1
    Cs = [np.array(x) for x in (th["C"] if mode == "nm_gle" else [th["C"]])] if "C" in th else [np.eye(ns + 1) * c["temp"] * P] * len(As)
    rs = np.random.RandomState(c["xi"])
    sx = rs.normal(size=s0.shape)
    a, b = step(pert, sx=sx)
    if mode == "gle":
        U, msc, x0 = np.eye(P * N), np.sqrt(np.tile(m3, P)), pert.flatten()
        sig = sx.copy()
        sig[0] = x0 / msc
        E = expm(-tdt * As[0])
        want = E @ sig
        close(a.flatten() / msc, want[0], "damped momenta", 1e-9)
        close(b[1:], want[1:], "auxiliary momenta", 1e-9)
        S = Cs[0] - E @ Cs[0] @ E.T
        Jp = J[:, : P * N] / msc
        Js = J[:, P * N:].reshape(nxi, ns + 1, P * N)
        full = np.concatenate([Jp[:, None, :], Js[:, 1:, :]], axis=1)
        cov = np.einsum("jak,jbl->akbl", full, full)
        want = np.einsum("ab,kl->akbl", S, np.eye(P * N))
        close(cov, want, "noise covariance", 1e-7)
    else:
        # modes: degenerate closed-path modes k and P-k have their own matrices, so the program's order counts: cos then sin
        j = np.arange(P)
        U = np.array([np.ones(P) if k == 0 else np.cos(2 * np.pi * j * k / P) if k <= P // 2 else np.sin(2 * np.pi * j * k / P) for k in range(P)])
        U /= np.linalg.norm(U, axis=1)[:, None]
        fk = []
        for k in range(P):
            u = U[k]
            UU, w, f = md[0]
            fk.append(float(((UU.T @ u) ** 2 * f).sum()))
        pn, an = U @ pert, U @ a
        Jp = J[:, : P * N].reshape(nxi, P, N)
        Jn = np.einsum("kp,jpn->jkn", U, Jp)
        Js = J[:, P * N:].reshape(nxi, P, ns + 1, N)
        for k in range(P):
            msc = np.sqrt(m3 * fk[k])
            sig = sx[k].copy()
            sig[0] = pn[k] / msc
            E = expm(-tdt * As[k])
            want = E @ sig
            close(an[k] / msc, want[0], "damped momenta of mode %d" % k, 1e-9)
            close(b[k][1:], want[1:], "auxiliary momenta of mode %d" % k, 1e-9)
            full = np.concatenate([(Jn[:, k] / msc)[:, None, :], Js[:, k, 1:, :]], axis=1)
            S = Cs[k] - E @ Cs[k] @ E.T
            cov = np.einsum("jak,jbl->akbl", full, full)
            close(cov, np.einsum("ab,kl->akbl", S, np.eye(N)), "noise covariance of mode %d" % k, 1e-7)
        tot = np.einsum("jkn,jln->kl", Jn, Jn)
        require(np.abs(tot - np.diag(np.diag(tot))).max() <= 1e-9 * np.abs(tot).max() + 1e-300, "noise correlated between modes")
    return mode + ("-" + fr[0] if fr else "") + ("-C" if "C" in th else "")


# ---- velocity rescaling: exact law of the kinetic energy
@st.composite
def gen_svr(draw):
    c = draw(sim.matter(max_atoms=3, max_beads=4))
    P, n = len(c["q"]), len(c["m"])
    c["mode"], c["splitting"], c["dt"] = "nvt", draw(st.sampled_from(["obabo", "baoab"])), draw(sim.floats(2.0, 60.0))
    c["fixcom"] = n > 1 and draw(st.booleans())
    if n > 1 and not c["fixcom"] and draw(st.booleans()):
        c["fixatoms_dof"] = draw(st.lists(st.integers(0, 3 * n - 1), min_size=1, max_size=3 * n - 2, unique=True))
    kind = draw(st.sampled_from(["svr", "pile_g", "nm_gle_g", "multi-svr", "multi-pile_g"]))
    tau = draw(sim.floats(0.2, 3.0)) * c["dt"]
    if kind == "nm_gle_g":      # refused by the program
        c.pop("fixatoms_dof", None)
    if kind == "nm_gle_g":
        c["thermostat"] = dict(mode="nm_gle_g", tau=tau, A=np.zeros((P, 2, 2)).tolist())
    elif kind.endswith("svr"):
        c["thermostat"] = dict(mode="svr", tau=tau)
    else:
        c["thermostat"] = dict(mode="pile_g", tau=tau, pile_lambda=draw(sim.floats(0.1, 1.0)))
        if draw(st.booleans()):
            c["thermostat"]["pile_centroid_t"] = c["temp"] * draw(sim.floats(0.3, 3.0))
    if kind.startswith("multi"):
        c["thermostat"] = dict(mode="multi", list=[c["thermostat"]])
    c["kind"] = kind
    c["ffs"], c["forces"] = [dict(name="f", par=dict(k=0.0))], [dict(ff="f")]
    c["seed"] = draw(st.integers(1, 10**6))
    return c


def t_svr(case):
    from scipy import stats
    c = case
    s = sim.make(c)
    sy = s.syslist[0]
    P, n = len(c["q"]), len(c["m"])
    m3 = np.repeat(c["m"], 3)
    th = c["thermostat"]["list"][0] if c["thermostat"]["mode"] == "multi" else c["thermostat"]
    t = sy.motion.thermostat
    tdt = c["dt"] * (0.5 if c["splitting"] == "obabo" else 1.0)
    nfix = len(c.get("fixatoms_dof", [])) + (3 if c["fixcom"] else 0)
    cen = not c["kind"].endswith("svr")
    if cen:
        df = 3 * n - nfix
        kt = (th.get("pile_centroid_t") or c["temp"]) * P
    else:
        df = 3 * n * P - len(c.get("fixatoms_dof", [])) * P - (3 if c["fixcom"] else 0)
        kt = c["temp"] * P
    p0 = np.array(sy.beads.p)      # constraints imposed

    def kin():
        p = np.array(sy.beads.p)
        return 0.5 * (p.sum(0) ** 2 / m3).sum() / P if cen else 0.5 * (p**2 / m3).sum()
    K0 = kin()
    if K0 < 1e-3 * kt or df < 1:
        raise Skip("no kinetic energy to rescale")
    e = np.exp(-tdt / th["tau"])
    M = 2500
    K = np.empty(M)
    for i in range(M):
        sy.beads.p = p0
        e0 = float(sy.ensemble.econs) if i < 5 else 0
        t.step()
        if i < 5:
            require(abs(float(sy.ensemble.econs) - e0) <= 1e-9 * (abs(e0) + float(sy.nm.kin)), "the thermostat step changes the conserved quantity")
            a, b = np.array(sy.beads.p), p0
            if cen:
                a, b = a.mean(0), b.mean(0)
            k = np.argmax(np.abs(b))
            r = a.flatten()[k] / b.flatten()[k]
            close(a, r * b, "velocity rescaling changes the direction of the momenta", 1e-9)
        K[i] = kin()
    y = K / (0.5 * kt * (1 - e))
    nc = K0 * e / (0.5 * kt * (1 - e))
    dist = stats.ncx2(df, nc)
    mu, sd = df + nc, np.sqrt(2 * (df + 2 * nc))
    z = (y.mean() - mu) / (sd / np.sqrt(M))
    require(abs(z) < 8, "mean kinetic energy after rescaling is %.1f standard errors off the exact law (%d degrees of freedom): %r, expected %r", z, df, y.mean(), mu)
    pv = stats.kstest(y, dist.cdf).pvalue
    require(pv > 1e-12, "distribution of the rescaled kinetic energy does not follow its exact law (%d degrees of freedom): p=%.2g", df, pv)
    return c["kind"] + ("-fixcom" if c["fixcom"] else "-fixdof" if nfix else "")


# ---- whole steps: the thermostat acts for one time step per step, in either splitting
@st.composite
def gen_step(draw):
    c = draw(sim.matter(max_atoms=2, max_beads=1))
    c["mode"], c["fixcom"] = "nvt", False
    c["splitting"] = draw(st.sampled_from(["obabo", "baoab"]))
    c["dt"] = draw(sim.floats(1.0, 60.0))
    c["thermostat"] = draw(sim.thermo(1, ["langevin", "pile_l", "gle", "nm_gle"], c["temp"]))
    c["ffs"], c["forces"] = [dict(name="f", par=dict(k=0.0))], [dict(ff="f")]
    c["nst"] = draw(st.integers(1, 3))
    return c


def t_step(case):
    from scipy.linalg import expm
    c = case
    s = sim.make(c)
    sy = s.syslist[0]
    fg = FakeGen()
    sy.prng.rng = [fg] * len(sy.prng.rng)
    th = c["thermostat"]
    t = sy.motion.thermostat
    p0 = np.array(sy.beads.p)
    if np.size(getattr(t, "s", ())):
        t.s[:] = 0.0
        A = np.array(th["A"]) if th["mode"] == "gle" else np.array(th["A"][0])
        D = expm(-A * c["dt"] * c["nst"])[0, 0]
    else:
        D = np.exp(-c["dt"] * c["nst"] / th["tau"])
    e0 = float(sy.ensemble.econs)
    s.run(c["nst"])
    close(np.array(sy.beads.p), D * p0, "momenta of free particles after %d steps without noise" % c["nst"], 1e-9)
    require(abs(float(sy.ensemble.econs) - e0) <= 1e-9 * abs(e0), "conserved quantity %r became %r", e0, float(sy.ensemble.econs))
    return th["mode"] + "-" + c["splitting"]


@st.composite
def gen_path(draw):
    c = draw(gen_step())
    m = draw(sim.matter(max_atoms=2, max_beads=4, min_beads=2).filter(lambda d: len(d["q"]) % 2 == 0))
    c.update({k: m[k] for k in ("q", "p", "m", "names", "temp", "cell") if k in m})
    c["mode"] = draw(st.sampled_from(["nvt", "nvt-cc", "nvt-cc", "sc"]))
    c["thermostat"] = dict(mode="langevin", tau=draw(sim.floats(20.0, 500.0)))
    return c


def t_path(case):
    """free ring polymers with a Langevin thermostat and no noise, against damping and matrix exponentials"""
    from checks.c14_nve import Model
    c = case
    s = sim.make(c)
    sy = s.syslist[0]
    sy.prng.rng = [FakeGen()] * len(sy.prng.rng)
    M, tau, dt = Model(c), c["thermostat"]["tau"], c["dt"]

    def damp(t):
        M.p = M.p * np.exp(-t / tau)
        if c["mode"] == "nvt-cc":
            M.p = M.p - M.p.mean(0)
    damp(0.0)
    e0 = float(sy.ensemble.econs)
    for _ in range(c["nst"]):
        if c["splitting"] == "obabo":
            damp(dt / 2)
            M.free(dt)
            damp(dt / 2)
        else:
            M.free(dt / 2)
            damp(dt)
            M.free(dt / 2)
    s.run(c["nst"])
    close(np.array(sy.beads.q), M.q, "positions of free ring polymers after %d steps without noise" % c["nst"], 1e-8)
    close(np.array(sy.beads.p), M.p, "momenta of free ring polymers after %d steps without noise" % c["nst"], 1e-8)
    close(float(sy.ensemble.econs), e0, "conserved quantity", 1e-9)
    return c["mode"] + "-" + c["splitting"]


if __name__ == "__main__":
    main("C15", [Sub("linear", gen(), t_linear, quick=3000, thorough=10000, shards=4), Sub("svr", gen_svr(), t_svr, quick=300, thorough=2500, shards=3), Sub("step", gen_step(), t_step, quick=300, thorough=2000, shards=1), Sub("path", gen_path(), t_path, quick=200, thorough=2000, shards=1)],
         rule="linear: a case is a thermostat whose damping matrix and noise covariance are measured column by column with scripted random deviates; svr: 2500 rescalings of one state against the exact (noncentral chi-square) law; step: whole steps of free particles",
         assumptions=["the random numbers come from the numpy generators inside the program's Random object; statistical tests use thresholds of 8 standard errors and p = 1e-12"], quick_s=100, thorough_s=900)
