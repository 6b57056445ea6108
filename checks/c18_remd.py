"""C18: replica exchange."""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim, vpes
from checks.c11_nmtrans import close
import numpy as np
from hypothesis import strategies as st

F = sim.floats
KB = 1.0  # atomic units


class Coin:
    """stands in for the generator of the exchanges: the uniform numbers are chosen by the case"""

    def __init__(self, us, rest):
        self.us, self.rest, self.n = list(us), rest, 0

    @property
    def u(self):
        self.n += 1
        return self.us[(self.n - 1) % len(self.us)]

    def __getattr__(self, k):
        return getattr(self.__dict__["rest"], k)


@st.composite
def gen(draw):
    N = draw(st.integers(2, 4))
    c = draw(sim.matter(max_atoms=2, max_beads=4))
    P, n3 = np.array(c["q"]).shape
    kind = draw(st.sampled_from(["nvt", "nvt", "npt", "npt", "nst"]))
    gle = draw(st.integers(0, 2)) == 0
    T = [draw(F(5e-4, 3e-3)) for _ in range(N)] if draw(st.integers(0, 3)) else [1e-3] * N
    V = abs(np.linalg.det(np.array(c["cell"])))
    c["nf"] = draw(st.integers(1, 2))
    c["ffs"] = [dict(name="f%d" % i, par=draw(sim.pes_par(cellterm=float("%.6g" % V)))) for i in range(c["nf"])]
    c["forces"] = [dict(ff="f%d" % i) for i in range(c["nf"])]
    hw = draw(st.booleans())
    nb = draw(st.integers(0, 1))
    if nb:
        c["ffs"].append(dict(name="b0", par=draw(sim.pes_par())))
        c["bias"] = [dict(ff="b0")]
    sysl = []
    for i in range(N):
        d = dict(temp=T[i], q=(np.array(c["q"]) + 0.3 * np.array(draw(sim.unit_vec(n3)))).tolist(), p=[[x * draw(st.sampled_from([1.0, -1.0, 0.5])) for x in r] for r in c["p"]], mode=kind)
        if hw:
            d["hamiltonian_weights"] = [draw(F(0.5, 1.5)) for _ in range(c["nf"])]
        if nb:
            d["bias_weights"] = [draw(F(0.0, 2.0))]
        if kind != "nvt":
            d["cell"] = (np.array(c["cell"]) * draw(F(0.98, 1.02))).tolist()
            d["pdt"] = draw(F(-2.0, 2.0))
        if kind == "npt":
            d["pressure"] = draw(F(-1e-4, 1e-4))
        if kind == "nst":
            s = np.array(draw(sim.unit_vec(9))).reshape(3, 3) * 1e-4
            d["stress"] = (s + s.T).tolist()
        sysl.append(d)
    A = draw(sim.gle_A()) if gle else None
    steps = [[draw(st.floats(0.02, 0.98).map(lambda x: float("%.4g" % x))) for _ in range(1)] for _ in range(draw(st.integers(1, 4)))]
    return dict(c, sys=sysl, kind=kind, A=np.asarray(A).tolist() if gle else None, krescale=draw(st.booleans()), stride=draw(st.sampled_from([1.0, 1.0, 1.0, 2.0, 5.0])), us=steps, md=draw(st.booleans()), rep=draw(st.booleans()) and list(draw(st.permutations(range(N)))), nstref=draw(st.booleans()), mdt=draw(st.booleans()))


def make(c):
    sysl = []
    for i, d in enumerate(c["sys"]):
        e = {k: c[k] for k in ("m", "names", "forces", "cell")}
        if "bias" in c:
            e["bias"] = c["bias"]
        e.update({k: v for k, v in d.items() if k != "pdt"}, prefix="s%d" % i, dt=0.5, fixcom=False)
        tau = 50.0
        e["thermostat"] = dict(mode="gle", A=c["A"]) if c["A"] else dict(mode="langevin", tau=tau)
        if c["kind"] == "npt":
            e["barostat"] = dict(mode="isotropic", tau=200.0, thermostat=e["thermostat"] if c["A"] and len(c["A"]) else dict(mode="langevin", tau=tau))
        elif c["kind"] == "nst":
            e["barostat"] = dict(mode="anisotropic", tau=200.0, thermostat=dict(mode="langevin", tau=tau), h0=(np.array(d["cell"]) * (1 + 0.01 * i * c["nstref"])).tolist())
        sysl.append(e)
    sm = "<smotion mode='remd'><remd><stride>%s</stride><krescale>%s</krescale>%s<swapfile>SW</swapfile></remd></smotion>" % (sim.num(c["stride"]), c["krescale"], "<repindex>[%s]</repindex>" % ", ".join(map(str, c["rep"])) if c["rep"] else "")
    return sim.make(dict(ffs=c["ffs"], systems=sysl, smotion=sm, seed=5, threading="False"))


def thermos(sy):
    out = []
    for t in (sy.motion.thermostat, sy.motion.barostat.thermostat if hasattr(sy.motion.barostat, "thermostat") else None):
        if t is not None and hasattr(t, "s"):
            out.append(t)
    return out


def ens(sy):
    e = sy.ensemble
    return [float(e.temp), float(e.pext), np.array(e.stressext), np.array(e.bweights), np.array(e.hweights)]


def same(a, b, tol=1e-12):
    return all(np.allclose(x, y, rtol=tol, atol=1e-14, equal_nan=True) for x, y in zip(a, b))


def logw(c, q, h, E, P, m3, h0, pbar_over):
    """-log of the probability of the positions and cell in an ensemble, times -1 (momenta separately)"""
    T, pext, stress, bw, hw = E
    U = 0.0
    for x in q:
        for k in range(c["nf"]):
            U += (hw[k] if len(hw) else 1.0) * vpes.evaluate(c["ffs"][k]["par"], h, x)[0]
        if "bias" in c:
            U += (bw[0] if len(bw) else 1.0) * vpes.evaluate(c["ffs"][-1]["par"], h, x)[0]
    w = P * T
    if P > 1:
        U += 0.5 * w * w * (m3 * (q - np.roll(q, 1, axis=0)) ** 2).sum()
    L = -U / (P * T)
    V = np.linalg.det(h)
    if c["kind"] == "npt":
        L -= pext * V / T
    elif c["kind"] == "nst":
        V0 = np.linalg.det(h0)
        eps = h @ np.linalg.inv(h0)
        eps = 0.5 * (eps.T @ eps - np.eye(3))
        L -= V0 * np.trace(stress @ eps) / T
    return L


def t_remd(case):
    c = case
    s = make(c)
    try:
        return run(c, s)
    finally:
        for f in s.fflist.values():
            f.stop()


def snap(sy):
    b = sy.motion.barostat
    d = dict(q=np.array(sy.beads.q), p=np.array(sy.beads.p), h=np.array(sy.cell.h), e=ens(sy), econs=float(sy.ensemble.econs), s=[np.array(t.s) for t in thermos(sy)])
    d["bp"] = np.array(b.p) if hasattr(b, "p") else None
    d["h0"] = np.array(b.h0.h) if hasattr(b, "h0") else None
    d["bkin"] = float(b.kin) if d["bp"] is not None else 0.0
    d["kin"] = float(sy.nm.kin)
    return d


def run(c, s):
    sl = s.syslist
    N = len(sl)
    P = np.array(c["q"]).shape[0]
    m3 = np.repeat(c["m"], 3)
    for sy, d in zip(sl, c["sys"]):
        if "pdt" in d:
            sy.motion.barostat.p = np.array(sy.motion.barostat.p) * 0 + d["pdt"] * (np.triu(np.ones((3, 3))) if np.shape(sy.motion.barostat.p) == (3, 3) else 1.0)
        rng = np.random.RandomState(3)
        for t in thermos(sy):
            t.s[:] = rng.normal(size=np.shape(t.s)) * np.sqrt(d["temp"])
    E0 = [ens(y) for y in sl]
    h00 = [snap(y)["h0"] for y in sl]
    idx0 = c["rep"] or list(range(N))
    where = list(range(N))
    sm = s.smotion
    nacc = nrej = 0
    lines = []
    step = 0
    for us in c["us"]:
        if c["md"]:
            for y in sl:
                y.motion.step(step)
                y.ensemble.time += 0.5
        B = [snap(y) for y in sl]
        coin = Coin(us, sm.prng)
        # what must happen, pair by pair, with the numbers drawn
        k = 0
        cur = [dict(b) for b in B]
        swapped = False

        def nxt():
            nonlocal k
            k += 1
            return us[(k - 1) % len(us)]
        close_call = False
        for i in range(N):
            for j in range(i):
                if 1.0 / c["stride"] < nxt():
                    continue
                a, b = cur[i], cur[j]
                ti, tj = a["e"][0], b["e"][0]
                if c["krescale"]:
                    la = 0.0  # momenta are rescaled: kinetic terms do not contribute
                else:
                    la = -(a["kin"] * (1 / tj - 1 / ti) + b["kin"] * (1 / ti - 1 / tj)) / P
                    if a["bp"] is not None:
                        # the mass of the barostat is proportional to the temperature
                        la += -(a["bkin"] * (ti / tj / tj - 1 / ti) + b["bkin"] * (tj / ti / ti - 1 / tj)) / P
                la += logw(c, a["q"], a["h"], b["e"], P, m3, b["h0"], None) + logw(c, b["q"], b["h"], a["e"], P, m3, a["h0"], None)
                la -= logw(c, a["q"], a["h"], a["e"], P, m3, a["h0"], None) + logw(c, b["q"], b["h"], b["e"], P, m3, b["h0"], None)
                u = nxt()
                if abs(la - np.log(u)) < 1e-7 * (1 + abs(la)):
                    close_call = True
                if la > np.log(u):
                    nacc += 1
                    swapped = True
                    a, b = dict(a), dict(b)
                    a["e"], b["e"] = b["e"], a["e"]
                    a["h0"], b["h0"] = b["h0"], a["h0"]
                    r = np.sqrt(tj / ti)
                    for x, f in ((a, r), (b, 1 / r)):
                        if c["krescale"]:
                            x["p"] = x["p"] * f
                            x["kin"] *= f * f
                            if x["bp"] is not None:
                                x["bp"] = x["bp"] * f * f
                                x["bkin"] *= f * f
                        elif x["bp"] is not None:
                            x["bkin"] /= f * f
                        x["s"] = [y * f for y in x["s"]]
                    cur[i], cur[j] = a, b
                    where[i], where[j] = where[j], where[i]
                else:
                    nrej += 1
        if close_call:
            raise Skip("acceptance on the edge")
        old = sm.prng
        sm.prng = coin
        try:
            sm.step(step)
        finally:
            sm.prng = old
        if swapped:
            lines.append([step] + [idx0[w] for w in where])
        for i, y in enumerate(sl):
            n, w = snap(y), cur[i]
            require(same(n["e"], E0[where[i]]), "after step %d system %d is in the ensemble %r instead of %r (u = %r)", step, i, n["e"], E0[where[i]], us)
            require(int(sm.repindex[i]) == idx0[where[i]], "repindex[%d] is %r, the ensemble is that of replica %r", i, sm.repindex[i], idx0[where[i]])
            close(n["q"], B[i]["q"], "positions after the exchange", 1e-13)
            close(n["h"], B[i]["h"], "cell after the exchange", 1e-13)
            close(n["p"], w["p"], "momenta after the exchange", 1e-11)
            require(abs(n["econs"] - B[i]["econs"]) < 1e-9 * (1 + abs(n["econs"])), "the conserved quantity of system %d changes from %r to %r in an exchange step", i, B[i]["econs"], n["econs"])
            for x, y_ in zip(n["s"], w["s"]):
                # the first row is the momentum itself, set again at every step
                if x.ndim == 2:
                    close(x[1:], y_[1:], "additional momenta of the GLE thermostat after the exchange", 1e-10)
                else:
                    close(x[:, 1:], y_[:, 1:], "additional momenta of the GLE thermostat after the exchange", 1e-10)
            if w["bp"] is not None:
                close(n["bp"], w["bp"], "barostat momentum after the exchange", 1e-11)
            if w["h0"] is not None:
                close(n["h0"], w["h0"], "reference cell after the exchange", 1e-12)
        step += 1
    got = [[int(x) for x in l.split()] for l in open("sim.SW")] if os.path.exists("sim.SW") else []
    require(got == lines, "the swap file has %r instead of %r", got, lines)
    return "%s%s%s: %s" % (c["kind"], " gle" if c["A"] else "", " krescale" if c["krescale"] else "", "both" if nacc and nrej else "accepted" if nacc else "rejected" if nrej else "none tried")


SUBS = [Sub("remd", gen(), t_remd, 600, 12000, shards=8)]
RULE = "a case is non-trivial when at least one exchange is tried"

if __name__ == "__main__":
    main("C18", SUBS, rule=RULE, assumptions=[], quick_s=80, thorough_s=1500)
