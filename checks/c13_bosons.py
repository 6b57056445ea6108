"""C13: bosonic exchange: energy, forces, estimators against the explicit sum over all ways of joining the rings."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim
from checks.c11_nmtrans import lap, close
import numpy as np


@st.composite
def gen(draw):
    n = draw(st.integers(1, 6))
    nb = draw(st.integers(1, n))
    b = sorted(draw(st.permutations(list(range(n))))[:nb]) if draw(st.integers(0, 3)) else draw(st.permutations(list(range(n))))[:nb]
    return dict(n=n, P=draw(st.integers(2, 6)), bosons=b, T=draw(sim.floats(1e-4, 3e-3)), mb=draw(sim.floats(500.0, 5000.0)), seed=draw(st.integers(0, 10**6)),
                spread=draw(sim.floats(0.0, 3.0)), width=draw(sim.floats(0.05, 1.5)), label=draw(st.booleans()), move=draw(st.booleans()))


def compositions(N):
    """all ways to cut 0..N-1 into consecutive blocks"""
    for mask in range(1 << (N - 1)):
        blocks, s = [], 0
        for i in range(N - 1):
            if mask >> i & 1:
                blocks.append((s, i))
                s = i + 1
        blocks.append((s, N - 1))
        yield blocks


def exact(x, pref, beta):
    """x (P, N, 3). -> V, dV/dx, list of (log weight, energy, sign) per composition"""
    P, N, _ = x.shape

    def ring(u, v):
        y = x[:, u:v + 1].transpose(1, 0, 2).reshape(-1, 3)      # u's beads, then u+1's, ... closed
        d = np.roll(y, -1, axis=0) - y
        g = np.zeros_like(y)
        g -= d
        g += np.roll(d, 1, axis=0)
        return pref * (d**2).sum(), (2 * pref * g).reshape(v - u + 1, P, 3).transpose(1, 0, 2)
    R = {(u, v): ring(u, v) for u in range(N) for v in range(u, N)}
    L, E, G, S = [], [], [], []
    for bl in compositions(N):
        e = sum(R[b][0] for b in bl)
        L.append(-beta * e - sum(np.log(v + 1) for u, v in bl))
        E.append(e)
        S.append((-1.0) ** sum(v - u for u, v in bl))
        g = np.zeros_like(x)
        for u, v in bl:
            g[:, u:v + 1] += R[u, v][1]
        G.append(g)
    L, E, S = np.array(L), np.array(E), np.array(S)
    mx = L.max()
    w = np.exp(L - mx)
    Z = w.sum()
    w /= Z
    V = -(mx + np.log(Z)) / beta
    return V, np.einsum("c,cjnk->jnk", w, np.array(G)), w, E, S


def t_bosons(case):
    c = case
    n, P, bo = c["n"], c["P"], c["bosons"]
    rng = np.random.RandomState(c["seed"])
    m = [c["mb"] if i in bo else 800.0 + 500 * i for i in range(n)]
    q = (rng.normal(size=(n, 3)) * c["spread"])[None] * 0.3 + rng.normal(size=(P, n, 3)) * c["width"] * 0.3
    wn = c["T"] * P
    nm = dict(propagator="bab", nmts=4)
    names = ["B" if i in bo else "H" for i in range(n)]
    cfg = dict(q=q.reshape(P, -1).tolist(), p=(0 * q).reshape(P, -1).tolist(), m=m, temp=c["T"], names=names, nm=dict(nm, bosons=bo), dt=1.0, mode="nve", fixcom=False,
               ffs=[dict(name="f", par=dict(k=0.0))], forces=[dict(ff="f")])
    xml = sim.build(cfg)
    if c["label"]:
        xml = xml.replace("<bosons id='index'>[%s]</bosons>" % ", ".join(map(str, bo)), "<bosons id='label'>[B]</bosons>")
        require("label" in xml, "")
        bo = sorted(bo)
    s = sim.make(xml)
    sy = s.syslist[0]
    if c["move"]:   # the same object after a change of coordinates
        float(sy.nm.vspring)
        np.array(sy.nm.fspring)
        q = q + rng.normal(size=q.shape) * 0.1
        sy.beads.q = q.reshape(P, -1)
    beta = 1.0 / (P * c["T"])
    V, dV, w, E, S = exact(q[:, bo], 0.5 * c["mb"] * wn**2, beta)
    F = np.zeros((P, n, 3))
    Vd = 0.0
    for i in range(n):
        if i not in bo:
            for k in range(3):
                F[:, i, k] = -m[i] * wn**2 * (lap(P, False) @ q[:, i, k])
                Vd += 0.5 * m[i] * wn**2 * (q[:, i, k] @ lap(P, False) @ q[:, i, k])
    F[:, bo] = -dV
    sc = max(abs(V), abs(Vd), wn)
    got = float(sy.nm.vspring)
    require(abs(got - V - Vd) <= 1e-8 * sc, "exchange spring energy %r, sum over all ring connections %r", got, V + Vd)
    close(np.array(sy.nm.fspring).reshape(P, n, 3), F, "exchange spring forces", 1e-7)
    N = len(bo)
    fs = float(S @ w)
    props = {k: sy.properties[k][0] for k in ("fermionic_sign", "exchange_distinct_prob", "exchange_all_prob", "kinetic_td")}

    def val(k):
        return float(np.ravel(props[k])[0])
    # probability that all are separate: the all-singles composition over the distribution of ring lengths, times the 1/N! already in it
    single = w[[i for i, b in enumerate(compositions(N)) if len(b) == N][0]]
    allin = w[[i for i, b in enumerate(compositions(N)) if len(b) == 1][0]]
    require(abs(val("exchange_distinct_prob") - single) <= 1e-7, "probability of no exchange %r, expected %r", val("exchange_distinct_prob"), single)
    require(abs(val("exchange_all_prob") / N - allin) <= 1e-7, "probability of one big ring %r, expected %r", val("exchange_all_prob"), N * allin)
    if beta * (V + 0.0) < 200:
        require(abs(val("fermionic_sign") - fs) <= 1e-6, "fermionic sign %r, expected %r", val("fermionic_sign"), fs)
    # thermodynamic kinetic energy: 3NP/2beta - <spring>/P for the bosons, plus the distinguishable atoms
    K = 1.5 * N / beta - (w @ E) / P + 1.5 * (n - N) / beta - Vd / P
    require(abs(val("kinetic_td") - K) <= 1e-7 * max(abs(K), sc), "kinetic_td %r, expected %r", val("kinetic_td"), K)
    return "N%d%s%s" % (N, "-mixed" if N < n else "", "-exchange" if 1 - single > 0.05 else "")


if __name__ == "__main__":
    main("C13", [Sub("bosons", gen(), t_bosons, quick=1600, thorough=20000, shards=8)],
         rule="a case is a set of paths with a subset of bosons; the label tells how many, and whether exchanged connections carry more than 5% of the weight",
         assumptions=["oracle: explicit sum over the 2^(N-1) ring connections of the recursion (N<=6)", "the sign estimator is documented as numerically unstable at large spring energies and is compared only below beta*V=200"], quick_s=90, thorough_s=900)
