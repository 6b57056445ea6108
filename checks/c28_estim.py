"""C28: every property and trajectory quantity equals its definition, in every state, and evaluating it changes nothing."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim
from checks.c11_nmtrans import close
from checks.c19_forces import Ref, W
import numpy as np

NEVER = object()


@st.composite
def gen(draw):
    mode = draw(st.sampled_from(["nve", "nvt", "nvt", "sc", "sc", "nvt-cc"]))
    c = draw(sim.matter(max_atoms=4, max_beads=6))
    sc = mode == "sc"
    P, n = len(c["q"]), len(c["m"])
    if (sc and P % 2) or (mode == "nvt-cc" and P == 1):
        c["q"], c["p"] = c["q"] + [[x + 0.1 for x in c["q"][0]]], c["p"] + [c["p"][-1]]
        P += 1
    nf = 1 if sc else draw(st.integers(1, 2))
    vol = float(np.linalg.det(c["cell"]))
    c["ffs"] = [dict(name="ff%d" % i, par=dict(draw(sim.pes_par(cellterm=vol)))) for i in range(nf + 1)]
    c["forces"] = []
    for i in range(1 if sc else draw(st.integers(1, 3))):
        d = dict(ff="ff%d" % draw(st.integers(0, nf - 1)), weight=draw(st.one_of(st.just(1.0), sim.floats(0.3, 1.5))))
        if not sc and draw(st.booleans()):
            d["nbeads"] = draw(st.integers(1, P))
        c["forces"].append(d)
    if not sc and draw(st.integers(0, 2)) == 0:
        c["bias"] = [dict(ff="ff%d" % nf)]
        c["bias_weights"] = [draw(sim.floats(0.2, 1.5))]
    c["mode"], c["dt"], c["fixcom"] = mode, 1.0, draw(st.booleans()) and n > 1
    if mode != "nve":
        c["thermostat"] = dict(mode="pile_l", tau=100.0)
    if n > 1 and not c["fixcom"] and mode in ("nve", "nvt") and draw(st.booleans()):
        c["fixatoms_dof"] = sorted(draw(st.lists(st.integers(0, 3 * n - 1), min_size=1, max_size=4, unique=True)))
    if P > 1 and draw(st.booleans()):
        c["nm"] = dict(transform=draw(st.sampled_from(["fft", "matrix"])))
        if mode in ("nve", "nvt", "nvt-cc") and draw(st.booleans()):
            s = draw(st.sampled_from(["pa-cmd", "manual"]))
            fr = draw(sim.unit_vec(P - 1, 5e-3, 2e-2))
            c["nm"]["frequencies"] = [s, fr if s == "manual" else fr[:1]]
    c["pressure"] = draw(sim.floats(-1e-4, 1e-4))
    c["hist"] = draw(st.lists(st.tuples(st.sampled_from(["q", "p", "cell", "temp", "step", "none"]), st.integers(0, 10**6)).map(list), min_size=1, max_size=3))
    c["req"] = draw(st.integers(0, 10**6))
    return c


def freqs(c, P, T):
    """dynamical masses of the normal modes, as multiples of the physical ones (default: 1)"""
    fr = (c.get("nm") or {}).get("frequencies")
    wk = 2 * P * T * np.sin(np.arange(P) * np.pi / P)
    o = np.ones(P)
    if fr and fr[0] == "pa-cmd":
        o[1:] = (wk[1:] / fr[1][0]) ** 2
    elif fr and fr[0] == "manual":
        o[1:] = (wk[1:] / np.array(fr[1])) ** 2
    return o


def nmt(P):
    j = np.arange(P)
    B = [np.ones(P)]
    for k in range(1, P):
        B.append(np.cos(2 * np.pi * j * k / P) if 2 * k <= P else np.sin(2 * np.pi * j * k / P))
    B = np.array(B)
    return B / np.linalg.norm(B, axis=1)[:, None]


class Est:
    """independent evaluation of the estimators, from positions, momenta, cell, temperature and the potential"""

    def __init__(self, c, q, p, h, T):
        self.c, self.q, self.p, self.h, self.T = c, q, p, h, T
        self.P, self.n = q.shape[0], q.shape[1] // 3
        self.m = np.array(c["m"])
        self.m3 = np.repeat(self.m, 3)
        self.names = c["names"]
        R = Ref(c)
        R.h = h
        self.R = R
        self.w = [f.get("weight", 1.0) for f in c["forces"]]
        self.pots, self.f, self.virs = self.force(q)
        self.V = self.pots.sum() / self.P
        self.vol = float(np.linalg.det(h))
        self.qc = q.mean(0)
        self.dq = q - self.qc
        self.wn2 = (self.P * T) ** 2
        d = q - np.roll(q, 1, axis=0)
        self.spr = 0.5 * self.wn2 * (self.m3 * d**2).reshape(self.P, self.n, 3).sum((0, 2))     # per atom
        self.f2 = (self.f**2 / self.m3).reshape(self.P, self.n, 3).sum(2)
        o = freqs(c, self.P, T)
        pn = nmt(self.P) @ p
        self.knm = 0.5 * (pn**2 / self.m3 / o[:, None]).reshape(self.P, self.n, 3).sum(2)
        self.kst = np.einsum("bni,bnj->ij", (pn / self.m3 / o[:, None]).reshape(self.P, self.n, 3), pn.reshape(self.P, self.n, 3))
        self.kb = 0.5 * (p**2 / self.m3).reshape(self.P, self.n, 3).sum(2)
        self.uniform = bool(np.all(o == 1.0))
        self.bias = 0.0
        if c.get("bias"):
            R2 = Ref(dict(c, forces=c["bias"]))
            R2.h = h
            self.bias = c["bias_weights"][0] * R2.comp(0, q)["pe"].sum()

    def force(self, q):
        co = [self.R.comp(i, q) for i in range(len(self.w))]
        S = lambda k: sum(w * x[k] for w, x in zip(self.w, co))
        self.co = co
        return S("pe"), S("fe"), S("ve")

    def sel(self, atom):
        if atom == "":
            return list(range(self.n))
        if atom.isdigit():
            return [int(atom)]
        return [i for i in range(self.n) if self.names[i] == atom]

    # -- centroid virial
    def ktens(self, i, j):
        A = lambda x, k: x[:, 3 * k:3 * k + 3]
        mi, mj = self.m[i], self.m[j]
        t = np.einsum("ba,bc->ac", mi * A(self.dq, i), A(self.f, j)) + np.einsum("bc,ba->ac", mj * A(self.dq, j), A(self.f, i))
        t *= -0.25 / (self.P * np.sqrt(mi * mj))
        if i == j:
            t += 0.5 * self.T * np.eye(3)
        return t

    def kcv(self, sel):
        return sum(np.trace(self.ktens(i, i)) for i in sel)

    def scaled(self, i, s):
        q = self.q.copy()
        k = slice(3 * i, 3 * i + 3)
        q[:, k] = self.qc[k] + s * self.dq[:, k]
        return q


def vec6(t):
    return np.array([t[0, 0], t[1, 1], t[2, 2], t[0, 1], t[0, 2], t[1, 2]])


def requests(c, e, rng):
    """(request string, expected) for everything the state defines"""
    P, n, T = e.P, e.n, e.T
    R = []
    add = lambda k, v, tol=1e-9, ref=0.0: R.append((k, v, tol, ref))
    atoms = ["", str(rng.randint(n)), e.names[rng.randint(n)]]

    def kw(name, **a):
        """positional or keyword arguments, in the documented order"""
        items = [(k, v) for k, v in a.items() if v != ""]
        if not items:
            return name
        if len(items) == len(a) and rng.randint(2):
            return "%s(%s)" % (name, ";".join(str(v) for k, v in items))
        rng.shuffle(items)
        return "%s(%s)" % (name, "; ".join("%s=%s" % (k, v) for k, v in items))
    b = int(rng.randint(P))
    add("volume", e.vol)
    add("density", e.m.sum() / e.vol)
    add("cell_h", vec6(e.h))
    from checks.c07_files import params
    add("cell_abcABC", params(e.h))
    add("time", None)
    add("potential", e.V)
    add("potential(bead=%d)" % b, e.pots[b])
    add("bead_potentials", e.pots)
    add("forcemod", np.sqrt((e.f**2).sum()) / P)
    add(kw("forcemod", bead=b), np.sqrt((e.f[b] ** 2).sum()))
    add("spring", e.spr.sum() / P)
    add("ensemble_temperature", T)
    add("ensemble_pressure", c["pressure"])
    add("ensemble_bias", e.bias / P)
    if c.get("bias"):
        add("bweights_component(0)", c["bias_weights"][0])
    for i in range(len(e.w)):
        x = e.co[i]
        add("hweights_component(%d)" % i, 1.0)
        b2 = int(rng.randint(x["Q"]))
        add("pot_component(%d)" % i, e.w[i] * x["pe"].mean())
        add("pot_component(%d;%d)" % (i, b), e.w[i] * x["pe"][b])
        add("pot_component_raw(%d)" % i, x["pots"].mean())
        add("pot_component_raw(%d;%d)" % (i, b2), x["pots"][b2])
        add("vir_component(%d)" % i, e.w[i] * vec6(x["ve"].mean(0)) / e.vol)
        add("vir_component(index=%d;bead=%d)" % (i, b), e.w[i] * vec6(x["ve"][b]) / e.vol)
        add("vir_component_raw(%d)" % i, vec6(x["virs"].mean(0)) / e.vol)
        add("vir_component_raw(%d;bead=%d)" % (i, b2), vec6(x["virs"][b2]) / e.vol)
    # vectors
    a = int(rng.randint(n))
    k3 = slice(3 * a, 3 * a + 3)
    for nm_, x in (("atom_x", e.q), ("atom_p", e.p), ("atom_f", e.f), ("atom_v", e.p / e.m3)):
        add(kw(nm_, atom=a, bead=""), x.mean(0)[k3])
        add(kw(nm_, atom=a, bead=b), x[b, k3])
    add("atom_x_path(%d)" % a, e.q[:, k3].flatten())
    add("atom_f_path(%d)" % a, e.f[:, k3].flatten())
    for lab in ("", e.names[a]):
        s = [i for i in range(n) if lab in ("", e.names[i])]
        for bb in ("", b):
            x = e.p.mean(0) if bb == "" else e.p[b]
            add(kw("vcom", label=lab, bead=bb), sum(x[3 * i:3 * i + 3] for i in s) / e.m[s].sum())
    # kinetic energies and temperatures
    ndof = e.n * 3
    fix = np.zeros(3 * n)
    fix[c.get("fixatoms_dof", [])] = 1
    k = int(rng.randint(P))
    for at in atoms:
        s = e.sel(at)
        cen = 3 * e.m[s].sum() / e.m.sum() if c["fixcom"] else 0.0
        if c["mode"] == "nvt-cc":
            cen = 3.0 * len(s)
        nf = fix.reshape(n, 3)[s].sum()
        T_of = lambda K, froz, dof: 2 * (K + 0.5 * P * T * froz) / (dof * P)
        add(kw("kinetic_md", atom=at, bead="", nm=""), e.knm[:, s].sum() / P)
        add(kw("temperature", atom=at, bead="", nm=""), T_of(e.knm[:, s].sum(), cen + nf * P, 3 * len(s) * P))
        add(kw("kinetic_md", atom=at, bead="", nm=k), e.knm[k, s].sum())
        add(kw("temperature", atom=at, bead="", nm=k), T_of(e.knm[k, s].sum(), (cen if k == 0 else 0.0) + nf, 3 * len(s)))
        if e.uniform:
            add(kw("kinetic_md", atom=at, bead=b, nm=""), e.kb[b, s].sum())
            add(kw("temperature", atom=at, bead=b, nm=""), T_of(e.kb[b, s].sum(), cen / P + nf, 3 * len(s)))
        elif e.P > 1:
            add(kw("kinetic_md", atom=at, bead=b, nm=""), NEVER)
        add(kw("kinetic_cv", atom=at), e.kcv(s))
        add(kw("kinetic_td", atom=at), 1.5 * P * T * len(s) - e.spr[s].sum() / P, ref=e.spr[s].sum() / P)
        t = sum(e.ktens(i, i) for i in s)
        add(kw("kinetic_tens", atom=at), vec6(t), ref=T)
        rg = np.sqrt((e.dq**2).reshape(P, n, 3).sum(2).mean(0))
        add(kw("r_gyration", atom=at), rg[s].mean())
        add(kw("ti_pot", atom=at), e.f2[:, s].sum() / (24 * e.wn2 * P))
    i, j = int(rng.randint(n)), int(rng.randint(n))
    add("kinetic_ij(%d;%d)" % (i, j), vec6(e.ktens(i, j)), ref=T)
    # stresses
    vir = e.virs.sum(0)
    add("virial_md", vec6(vir) / e.vol)
    add("kstress_md", vec6(e.kst) / e.vol)
    add("stress_md", vec6(vir + e.kst) / e.vol)
    add("pressure_md", np.trace(vir + e.kst) / e.vol / 3)
    pc = e.p.mean(0)
    kcv = -np.einsum("bni,bnj->ij", e.dq.reshape(P, n, 3), e.f.reshape(P, n, 3)) + np.diag(P * (pc**2 / e.m3).reshape(n, 3).sum(0))
    sc_ = np.abs(e.f).max() * np.abs(e.q).max() / e.vol
    add("virial_cv", vec6(vir) / e.vol / P)
    add("kstress_cv", vec6(kcv) / e.vol / P, ref=sc_)
    add("stress_cv", vec6(vir + kcv) / e.vol / P, ref=sc_)
    add("pressure_cv", np.trace(vir + kcv) / e.vol / P / 3, ref=sc_)
    add("virial_fq", 0.5 * (e.f * e.q).sum() / P, ref=np.abs(e.f * e.q).max())
    for nm_, un, sc in (("ref1", "", 1.0), ("ref2", "angstrom", 1.8897261)):
        x0 = np.loadtxt(nm_).flatten() * sc
        add(kw("virial_fq", ref=nm_, units=un), 0.5 * (e.f * (e.q - x0)).sum() / P, 1e-7, np.abs(e.f).max())
    # free-energy perturbation
    al = float("%.3g" % rng.uniform(0.5, 2.5))
    for at in atoms:
        s = e.sel(at)
        rows, td, scr = [], [], []
        for i in s:
            pots, f, _ = e.force(e.scaled(i, 1 / np.sqrt(al)))
            k3 = slice(3 * i, 3 * i + 3)
            t = -0.5 / P * (e.dq[:, k3] / np.sqrt(al) * f[:, k3]).sum() + 1.5 * T
            dU = pots.sum() - e.pots.sum()
            f2 = (f**2 / e.m3).reshape(P, n, 3).sum(2)[:, i]
            rows.append((dU / (P * T), t))
            td.append(((al - 1) * e.spr[i] / (P * T), e.kcv([i])))
            ti = (f2 / al - e.f2[:, i]).sum() / (24 * e.wn2)
            ch = (f2 / al - e.f2[:, i])[1::2].sum() / (9 * e.wn2) + (sum((-1) ** (bb + 1) * (pots[bb] - e.pots[bb]) for bb in range(P)) / 3.0)
            scr.append((dU, ti, ch))
        e.force(e.q)
        for nm_, rw in (("isotope_scfep", rows), ("isotope_tdfep", td)):
            hh, tt = np.array(rw).T
            s2 = (tt * np.exp(-hh)).sum()
            add(kw(nm_, alpha=al, atom=at), np.array([hh.mean(), (hh**2).mean(), tt.mean(), (tt**2).mean(), np.log(np.exp(-hh).sum()), np.log(abs(s2)), np.sign(s2)]), 1e-7,
                ref=1.0 if abs(s2) > 1e-3 * abs(tt * np.exp(-hh)).sum() else 1e9)
        sp = (al - 1) * e.spr[s]
        ff = al ** (1.5 * (P - 1))
        add(kw("isotope_zetatd", alpha=al, atom=at), np.array([sp.mean(), (sp**2).mean(), np.exp(-sp / (P * T)).mean() * ff]), 1e-8)
        x = np.array(scr)
        add(kw("isotope_zetasc", alpha=al, atom=at), np.array([x[:, 0].mean(), (x[:, 0] ** 2).mean(), np.exp(-x[:, 0] / (P * T)).mean()]), 1e-8)
        ti0 = (1 / al - 1) * e.f2[:, s].sum(0) / (24 * e.wn2)
        ch0 = (1 / al - 1) * e.f2[1::2][:, s].sum(0) / (9 * e.wn2)
        E_ = lambda y: np.exp(-y / (P * T)).mean()
        add(kw("isotope_zetatd_4th", alpha=al, atom=at), np.array([sp.mean(), (sp**2).mean(), E_(sp) * ff, E_(sp + ti0) * ff, E_(sp + ch0) * ff]), 1e-8)
        if P % 2 == 0:
            add(kw("isotope_zetasc_4th", alpha=al, atom=at), np.array([x[:, 0].mean(), (x[:, 0] ** 2).mean(), E_(x[:, 0]), E_(x[:, 0] + x[:, 1]), E_(x[:, 0] + x[:, 2])]), 1e-7)
        u = rng.uniform(-0.4, 0.4, 3).round(3)
        tot = 0.0
        for i in s:
            q = e.q.copy()
            q[:, 3 * i:3 * i + 3] += ((np.arange(P) + 0.5) / P - 0.5)[:, None] * u
            dU = e.force(q)[0].sum() - e.pots.sum()
            tot += np.exp(-e.m[i] * u @ u * T / 2 - dU / (P * T))
        e.force(e.q)
        add(kw("displacedpath", ux=u[0], uy=u[1], uz=u[2], atom=at), tot / len(s), 1e-7)
    # fourth order
    ti = -e.f2.sum() / (24 * e.wn2) / (P * T)
    add("ti_weight", np.array([ti, ti**2, np.exp(ti)]))
    if P % 2 == 0:
        ch = -(e.f2[1::2].sum() / (9 * e.wn2) + (e.pots[1::2].sum() - e.pots[::2].sum()) / 3) / (P * T)
        add("chin_weight", np.array([ch, ch**2, np.exp(ch)]), 1e-8)
        add("potential_opsc", e.pots[::2].mean())
    # scaled coordinates, explicit displacement
    d = float("%.2g" % rng.uniform(2e-3, 2e-2))

    def yama(V):
        vp, vm, v0 = V(np.sqrt(1 + d)), V(np.sqrt(1 - d)), V(1.0)
        return np.array([((1 + d) * vp - (1 - d) * vm) / (2 * d) + 1.5 * n * T, ((1 + d) * vp + (1 - d) * vm - 2 * v0) / d**2 * T - 1.5 * n * T**2])
    V1 = lambda s: e.force(e.qc + s * e.dq)[0].mean()
    add(kw("scaledcoords", fd_delta=d), yama(V1), 1e-7, ref=np.array([abs(e.V) / d, abs(e.V) / d**2 * T]))
    if np.abs(e.dq).max() > 1e-3:
        add("scaledcoords", np.array([e.V - 0.5 * (e.dq * e.f).mean(0).sum() + 1.5 * n * T, np.nan]), 1e-3, ref=np.array([abs(e.V) + 1e-6, 1.0]))
    if P % 2 == 0:
        f1 = e.force(np.where((np.arange(P) % 2 == 0)[:, None], e.q + d * e.dq, e.q))[1]
        v1 = (e.dq * e.f)[::2].sum() * 2 / P
        v2 = (e.dq * (f1 - e.f))[::2].sum() / d * 2 / P
        add(kw("sc_op_scaledcoords", fd_delta=d), np.array([1.5 * n * T - 0.5 * v1 + e.pots[::2].mean(), 1.5 * n * T**2 + 0.75 * T * v1 + 0.25 * T * v2]), 1e-7,
            ref=np.array([abs(e.V) + abs(v1), T * (abs(v1) + abs(v2))]))
    e.force(e.q)
    if c["mode"] == "sc":
        c2 = np.where(np.arange(P) % 2, 1.0, 0.0) / (9 * e.wn2)
        add("potential_tdsc", sum((2 / 3 * e.pots[k] if k % 2 == 0 else 4 / 3 * e.pots[k]) + 2 * c2[k] * e.f2[k].sum() for k in range(P)) / P)
        add("kinetic_prsc", 1.5 * n * P * T - e.spr.sum() / P + (c2 * e.f2.sum(1)).mean(), ref=e.spr.sum() / P)

        # force of the Suzuki-Chin potential: minus the numerical gradient of sum_b psc_b
        def Vsc(q):
            pots, f, _ = e.force(q)
            return np.where(np.arange(P) % 2, 1 / 3, -1 / 3) * pots + c2 * (f**2 / e.m3).sum(1)
        hh = 1e-4
        fs = np.zeros_like(e.q)
        for kk in range(3 * n):
            dd = np.zeros(3 * n)
            dd[kk] = hh
            fs[:, kk] = -(8 * (Vsc(e.q + dd) - Vsc(e.q - dd)) - (Vsc(e.q + 2 * dd) - Vsc(e.q - 2 * dd))) / (12 * hh)
        e.force(e.q)
        big = np.abs(e.f).max() + np.abs(fs).max()
        for at in atoms:
            s = e.sel(at)
            k3 = np.repeat([i in s for i in range(n)], 3)
            add(kw("kinetic_opsc", atom=at), 1.5 * T * len(s) - (e.dq * e.f)[::2][:, k3].sum() / P)
            add(kw("kinetic_tdsc", atom=at), 1.5 * T * len(s) - 0.5 * ((e.dq * (e.f + fs))[:, k3].sum() - 2 * (c2[:, None] * e.f2[:, s]).sum()) / P, 1e-4, ref=big * np.abs(e.dq).max() + T)
        ks = -np.einsum("bni,bnj->ij", e.dq.reshape(P, n, 3), (e.f + fs).reshape(P, n, 3)) + np.diag(P * (pc**2 / e.m3).reshape(n, 3).sum(0))
        add("kstress_tdsc", np.trace(ks) / (3 * e.vol * P), 1e-4, ref=(big * np.abs(e.q).max() + T) / e.vol)
        Vs = lambda s: (e.force(e.qc + s * e.dq)[0] + Vsc(e.qc + s * e.dq)).mean()
        add(kw("sc_scaledcoords", fd_delta=d), yama(Vs), 1e-7, ref=np.array([abs(e.V) / d, abs(e.V) / d**2 * T]))
        # strain derivative of the Suzuki-Chin potential
        h0 = e.R.h

        def Vst(x):
            e.R.h = h0 * (1 + x)
            r = (e.force(e.q * (1 + x))[0] + Vsc(e.q * (1 + x))).sum()
            e.R.h = h0
            return r
        vt = -(8 * (Vst(hh) - Vst(-hh)) - (Vst(2 * hh) - Vst(-2 * hh))) / (12 * hh)
        e.force(e.q)
        add("vir_tdsc", vt / (3 * e.vol * P), 1e-4, ref=(big * np.abs(e.q).max() + np.abs(vir).max()) / e.vol)
        add("pressure_tdsc", (vt + np.trace(ks)) / (3 * e.vol * P), 1e-4, ref=(big * np.abs(e.q).max() + np.abs(vir).max() + T) / e.vol)
        e.fs = fs
    else:
        K, S = e.knm.sum(), e.spr.sum()
        add("ensemble_lp", -(e.pots.sum() + e.bias + K + S) / (P * T), ref=(abs(e.pots).sum() + S + K) / (P * T))
    return R


def trajs(c, e, rng):
    P, n, T = e.P, e.n, e.T
    v = e.p / e.m3
    out = [("positions", e.q), ("velocities", v), ("momenta", e.p), ("forces", e.f), ("x_centroid", e.qc), ("v_centroid", v.mean(0)), ("p_centroid", e.p.mean(0)),
           ("f_centroid", e.f.mean(0)), ("r_gyration", np.sqrt((e.dq**2).mean(0))), ("kinetic_cv", 0.5 * T - 0.5 * (e.dq * e.f).mean(0))]
    m = e.m3 * e.wn2
    out.append(("forces_spring", m * (np.roll(e.q, 1, 0) + np.roll(e.q, -1, 0) - 2 * e.q)))
    od = [e.ktens(i, i) for i in range(n)]
    out.append(("kinetic_od", np.array([[t[0, 1], t[0, 2], t[1, 2]] for t in [(x + x.T) / 2 for x in od]]).flatten()))
    if P % 2 == 0:
        for nm_, k in (("even", 0), ("odd", 1)):
            out += [("x_centroid_" + nm_, e.q[k::2].mean(0)), ("v_centroid_" + nm_, v[k::2].mean(0))]
    for i, x in enumerate(e.co):
        b, b2 = int(rng.randint(P)), int(rng.randint(x["Q"]))
        out += [("forces_component(%d)" % i, e.w[i] * x["fe"].mean(0)), ("forces_component(%d;bead=%d)" % (i, b), e.w[i] * x["fe"][b]),
                ("forces_component_raw(%d)" % i, x["f"].mean(0)), ("forces_component_raw(%d;%d)" % (i, b2), x["f"][b2])]
    al = float("%.3g" % rng.uniform(0.5, 2.5))
    at = ["", str(rng.randint(n)), e.names[rng.randint(n)]][rng.randint(3)]
    s = e.sel(at)
    z = np.zeros((n, 2))
    for i in s:
        z[i, 0] = e.force(e.scaled(i, 1 / np.sqrt(al)))[0].mean() - e.pots.mean()
    e.force(e.q)
    z[:, 1] = z[:, 0] ** 2
    out.append(("isotope_zetasc(alpha=%r; atom=%s)" % (al, at) if at else "isotope_zetasc(%r)" % al, z))
    z = np.zeros((n, 2))
    z[s, 0] = (al - 1) * e.spr[s]
    z[:, 1] = z[:, 0] ** 2
    out.append(("isotope_zetatd(%r;%s)" % (al, at) if at else "isotope_zetatd(alpha=%r)" % al, z))
    if c["mode"] == "sc":
        out.append(("forces_sc", e.f + e.fs))
    return out


def t_estim(c):
    s = sim.make(c)
    try:
        return run(c, s)
    finally:
        for f in s.fflist.values():
            f.stop()


def run(c, s):
    sy = s.syslist[0]
    n = len(c["m"])
    for nm_, sd in (("ref1", 1), ("ref2", 2)):
        np.savetxt(nm_, np.random.RandomState(sd).normal(size=(n, 3)), fmt="%.12e")
    nreq = 0
    names = set()
    for it, (op, sd) in enumerate(c["hist"]):
        rng = np.random.RandomState(sd)
        if op == "q":
            sy.beads.q = np.array(sy.beads.q) + rng.normal(size=sy.beads.q.shape) * 0.05
        elif op == "p":
            sy.beads.p = np.array(sy.beads.p) * (1 + 0.3 * rng.normal(size=sy.beads.q.shape))
        elif op == "cell":
            sy.cell.h = np.array(sy.cell.h) * (1 + 0.03 * rng.normal())
        elif op == "temp":
            sy.ensemble.temp = float(sy.ensemble.temp) * (1 + 0.2 * rng.uniform(-1, 1))
        elif op == "step":
            s.run(1)
        st0 = sim.state(s)
        T = float(sy.ensemble.temp)
        e = Est(c, st0["q"], st0["p"], st0["h"], T)
        rng = np.random.RandomState(c["req"] + it)
        reqs = requests(c, e, rng)
        order = rng.permutation(len(reqs))
        for k in list(order) + list(order[:10]):
            name, want, tol, ref = reqs[k]
            where = "property %s (state %d: %s)" % (name, it, op)
            try:
                v = sy.properties[name][0]
            except Exception as x:
                if want is NEVER:
                    continue
                raise Violation("%s raises %s: %s" % (where, type(x).__name__, x))
            if want is NEVER:
                raise Violation("%s is printed although the bead kinetic energy is not defined for these masses" % where)
            nreq += 1
            names.add(name.split("(")[0])
            if want is None:
                continue
            got = np.atleast_1d(np.asarray(v, float))
            want = np.atleast_1d(np.asarray(want, float))
            require(got.shape == want.shape, "%s has shape %s, expected %s", where, got.shape, want.shape)
            ok = ~np.isnan(want) & ~((np.abs(want) > 1e300) & (np.abs(got) > 1e300))      # overflowed weights
            if name == "scaledcoords" and not got.any():      # reported as not converged
                continue
            err = np.abs(got - want)
            lim = tol * (np.abs(want) + np.abs(np.asarray(ref) * np.ones(want.shape))) + 1e-14
            require(bool(np.all(err[ok] <= lim[ok])), "%s = %r, expected %r", where, got.tolist(), want.tolist())
        for name, want in trajs(c, e, rng):
            v = np.array(sy.trajs[name][0])
            if want.ndim == 2 and want.shape == (n, 2):
                v = v.reshape(n, 3)[:, :2]
            require(v.shape == want.shape, "trajectory %s has shape %s, expected %s", name, v.shape, want.shape)
            tol = 1e-4 if name == "forces_sc" else 1e-8
            close(v, want, "trajectory %s (state %d: %s)" % (name, it, op), tol)
        st1 = sim.state(s)
        for k in ("q", "p", "h", "m", "econs", "time"):
            require(np.array_equal(st0[k], st1[k]), "evaluating the properties changed %s", k)
    if nreq == 0:
        raise Skip("nothing")
    return "%s%s%s" % (c["mode"], " contracted" if any(f.get("nbeads", 0) for f in c["forces"]) else "", " fixed" if c["fixcom"] or c.get("fixatoms_dof") else "")


if __name__ == "__main__":
    main("C28", [Sub("estim", gen(), t_estim, quick=1000, thorough=15000, shards=8)],
         rule="a case is a simulation (mode, components, masses, constraints) and a history of state changes; in every state about 100 requests with generated arguments are compared; all cases are non-trivial",
         assumptions=["forces from the check's own potential through ffdirect", "numerical derivatives only for the Suzuki-Chin force and virial (tolerance 1e-4)"], quick_s=120, thorough_s=900)
