"""C30: Monte Carlo exchanges of atoms."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim
from checks.c11_nmtrans import close
from checks.c03_restart import compare, OUT, cuts
import numpy as np
from hypothesis import strategies as st

F = sim.floats
MASS = dict(H=1837.4, D=3671.5, T=5497.9, O=29156.9, Si=51196.0)


@st.composite
def gen(draw, stat=False):
    n = draw(st.integers(2, 3 if stat else 5))
    nb = draw(st.integers(1, 3 if stat else 5))
    sp = draw(st.lists(st.sampled_from(sorted(MASS)), min_size=2, max_size=3, unique=True))
    names = [sp[0], sp[1]] + [draw(st.sampled_from(sp)) for _ in range(n - 2)]
    names = draw(st.permutations(names))
    m = [MASS[x] for x in names]
    q = np.array(draw(sim.unit_vec(3 * n, -3.0, 3.0))).reshape(1, n, 3) + np.array(draw(sim.unit_vec(3 * n * nb, -0.4, 0.4))).reshape(nb, n, 3)
    p = np.array(draw(sim.unit_vec(3 * n * nb, -3.0, 3.0))).reshape(nb, 3 * n)
    c = dict(q=q.reshape(nb, -1).tolist(), p=p.tolist(), m=m, names=list(names), cell=(np.eye(3) * 40.0).tolist())
    c["kind"] = draw(st.sampled_from(["atomswap", "alchemy"]))
    c["labels"] = draw(st.permutations(sp))
    if not stat and len(sp) == 3 and draw(st.booleans()):
        c["labels"] = [sp[0], sp[1]]  # the third species does not take part
    c["nxc"] = draw(st.sampled_from([0.5, 1.0, 2.0, 5.0]))
    c["temp"] = draw(F(1e-3, 5e-2))
    c["seed"] = draw(st.integers(0, 10**6))
    c["ffs"] = [dict(name="ffa", par=draw(sim.pes_par()))]
    c["forces"] = [dict(ff="ffa", weight=draw(st.sampled_from([1.0, 0.6])))]
    if draw(st.booleans()):
        c["ffs"].append(dict(name="ffb", par=draw(sim.pes_par())))
        if draw(st.booleans()):
            c["forces"].append(dict(ff="ffb", weight=draw(st.sampled_from([1.0, 0.4])), nbeads=draw(st.integers(1, nb))))
        else:
            c["bias"] = [dict(ff="ffb")]
            c["bias_weights"] = [draw(st.sampled_from([1.0, 0.5]))]
    c["steps"] = draw(st.integers(1, 12))
    c["spread"] = draw(F(0.5, 2.0))
    c["md"] = draw(st.booleans())
    return c


def mover(c):
    return "<motion mode='%s'><fixcom>False</fixcom><%s><names>[%s]</names><nxc>%r</nxc></%s></motion>" % (c["kind"], c["kind"], ", ".join(c["labels"]), c["nxc"], c["kind"])


def state(sy):
    return dict(q=np.array(sy.beads.q), p=np.array(sy.beads.p), m=np.array(sy.beads.m), names=[str(x) for x in sy.beads.names])


def blocks(s):
    """per atom, what an exchange may not tear apart"""
    nb, n = s["q"].shape[0], len(s["m"])
    return s["q"].reshape(nb, n, 3).transpose(1, 0, 2), s["p"].reshape(nb, n, 3).transpose(1, 0, 2)


def t_moves(c):
    """each step permutes what it should permute, and the conserved quantity does not change"""
    s = sim.make(dict(c, motion=mover(c)))
    sy = s.syslist[0]
    a = state(sy)
    e0, k0 = float(sy.ensemble.econs), float(sy.nm.kin)
    lab = set(c["labels"])
    moved = 0
    for it in range(c["steps"]):
        s.run(1)
        b = state(sy)
        qa, pa = blocks(a)
        qb, pb = blocks(b)
        if c["kind"] == "atomswap":
            require(b["names"] == a["names"] and (b["m"] == a["m"]).all() and (b["p"] == a["p"]).all(), "an exchange of positions changes names, masses or momenta")
            src = []
            for i in range(len(a["m"])):
                j = [k for k in range(len(a["m"])) if k not in src and np.array_equal(qb[i], qa[k])]
                require(j, "atom %d is at a position that was not occupied by an atom before", i)
                src.append(j[0])
            for i, k in enumerate(src):
                require(i == k or (a["names"][i] in lab and a["names"][k] in lab), "an atom of species %s, which does not take part in exchanges, has moved", a["names"][i])
        else:
            require((b["q"] == a["q"]).all(), "an alchemical exchange moves atoms")
            require(sorted(a["names"]) == sorted(b["names"]), "names %r become %r", a["names"], b["names"])
            for i in range(len(a["m"])):
                close(b["m"][i], MASS[b["names"][i]], "mass of an atom named %s" % b["names"][i], 1e-9)
                require(a["names"][i] == b["names"][i] or (a["names"][i] in lab and b["names"][i] in lab), "atom %d of species %s becomes %s", i, a["names"][i], b["names"][i])
                close((pb[i]**2).sum() / b["m"][i], (pa[i]**2).sum() / a["m"][i], "kinetic energy of an atom after an alchemical exchange", 1e-9)
        if not (b["names"] == a["names"] and np.array_equal(b["q"], a["q"])):
            moved += 1
        a = b
        close(float(sy.nm.kin), k0, "kinetic energy after exchanges", 1e-9)
        e = float(sy.ensemble.econs)
        require(abs(e - e0) <= 1e-9 * max(1.0, abs(e0)), "%s, %d beads: the conserved quantity goes from %r to %r in exchanges", c["kind"], len(c["q"]), e0, e)
        # forces belong to the current positions
        f1 = np.array(sy.forces.f)
        v1 = float(sy.forces.pot)
        if it == c["steps"] - 1:
            s2 = sim.make(dict(c, q=a["q"].tolist(), motion=mover(c))).syslist[0]
            close(f1, np.array(s2.forces.f), "forces after exchanges", 1e-9)
            close(v1, float(s2.forces.pot), "potential after exchanges", 1e-9)
    return "%s P=%d%s%s" % (c["kind"], len(c["q"]), " bias" if c.get("bias") else "", " %d forces" % len(c["forces"])) if moved else None


def target(c, kind):
    """all the assignments that can be reached and their energies"""
    import itertools
    P, n = len(c["q"]), len(c["m"])
    s = sim.make(dict(c, motion=mover(c)))
    sy = s.syslist[0]
    q = np.array(c["q"]).reshape(P, n, 3)
    out = {}
    for perm in itertools.permutations(range(n)):
        if kind == "atomswap":
            sy.beads.q = q[:, list(perm)].reshape(P, -1)
            out[perm] = float(sy.forces.pot) + float(sy.ensemble.bias.pot), float(sy.nm.vspring)
        else:
            nm = [c["names"][k] for k in perm]
            sy.beads.m = np.array([MASS[x] for x in nm])
            out[tuple(nm)] = 0.0, float(sy.nm.vspring)
    return out


def t_stat(c):
    """the assignments are visited with their Boltzmann weights"""
    names, n = c["names"], len(c["m"])
    E = target(c, c["kind"])
    ks = list(E)
    # choose a temperature at which all of them count (spring energies go with its square)
    best = None
    for t in np.logspace(-5, 1, 61):
        lw = np.array([-(E[k][0] + E[k][1] * (t / c["temp"])**2) / (t * len(c["q"])) for k in ks])
        x = abs(np.ptp(lw) - c["spread"])
        if best is None or x < best[0]:
            best = x, float(t), lw
    lw = best[2]
    if not 0.2 < np.ptp(lw) < 3.5:
        return None
    c = dict(c, temp=best[1])
    T = dict(zip(ks, lw))
    s = sim.make(dict(c, motion=mover(dict(c, nxc=2.0))))
    sy = s.syslist[0]
    q0 = np.array(c["q"]).reshape(len(c["q"]), n, 3)

    def key():
        if c["kind"] == "alchemy":
            return tuple(str(x) for x in sy.beads.names)
        q = np.array(sy.beads.q).reshape(q0.shape)
        return tuple(min(range(n), key=lambda k: np.abs(q0[0, k] - q[0, i]).sum()) for i in range(n))

    N, B = c.get("N", 2000), 20
    seq = []
    mt = sy.motion
    for _ in range(N):
        mt.step()
        seq.append(key())
    seen = set(seq)
    # reachability: exchanges of unlike atoms only
    reach, todo = {next(iter([key()]))}, [key()]
    sp = lambda k: [names[i] for i in range(n)] if c["kind"] == "atomswap" else list(k)
    while todo:
        k = todo.pop()
        for i in range(n):
            for j in range(i):
                if sp(k)[i] != sp(k)[j]:
                    l = list(k)
                    l[i], l[j] = l[j], l[i]
                    if tuple(l) not in reach:
                        reach.add(tuple(l))
                        todo.append(tuple(l))
    ref = {k: np.exp(T[k] - lw.max()) for k in reach}
    z = sum(ref.values())
    require(seen <= reach, "assignments %r are not reachable", seen - reach)
    for k in reach:
        x = np.array([1.0 * (y == k) for y in seq])
        pr = ref[k] / z
        b = x.reshape(B, -1).mean(1)
        err = max(b.std(ddof=1) / np.sqrt(B), np.sqrt(pr * (1 - pr) / N))
        require(abs(x.mean() - pr) <= 6 * err + 0.01, "%s, %d beads: the assignment %r is found with the frequency %r +- %r, its weight is %r", c["kind"], len(c["q"]), k, x.mean(), err, pr)
    return "%s P=%d%s %d assignments" % (c["kind"], len(c["q"]), " bias" if c.get("bias") else "", len(reach))


@st.composite
def gen_n(draw):
    c = draw(gen(stat=True))
    n = [i for i in range(len(c["m"])) if c["names"][i] == c["names"][0]][0], [i for i in range(len(c["m"])) if c["names"][i] != c["names"][0]][0]
    for k in ("m", "names"):
        c[k] = [c[k][i] for i in n]
    for k in ("q", "p"):  # one bead: no springs
        c[k] = [np.array(c[k][0]).reshape(-1, 3)[list(n)].flatten().tolist()]
    c["q"][0][3] = c["q"][0][0] + 1.0
    c["ffs"], c["forces"] = [dict(name="ffa", par=dict(k=0.0))], [dict(ff="ffa")]
    c.pop("bias", None)
    c.pop("bias_weights", None)
    c["nxc"] = draw(F(0.1, 1.5))
    return c


def t_attempts(c):
    """without any energy all attempts are accepted; their number has a Poisson distribution with the average asked for"""
    s = sim.make(dict(c, motion=mover(c)))
    sy = s.syslist[0]
    st_ = lambda: (tuple(str(x) for x in sy.beads.names), float(np.array(sy.beads.q)[0, 0]))
    N, k, a = 1500, 0, st_()
    for _ in range(N):
        sy.motion.step()
        b = st_()
        k += a != b
        a = b
    pr = 0.5 * (1 - np.exp(-2 * c["nxc"]))
    require(abs(k / N - pr) < 6 * np.sqrt(pr * (1 - pr) / N), "%s with %r attempts per step on average: atoms are exchanged in %r of the steps, should be %r", c["kind"], c["nxc"], k / N, pr)
    return c["kind"]


@st.composite
def gen_r(draw):
    c = draw(gen())
    c.update(draw(cuts()))
    return c


def t_restart(c):
    m = mover(c)
    if c["md"]:
        m = "<motion mode='multi'><motion mode='dynamics'><fixcom>False</fixcom><dynamics mode='nvt'><timestep>10.0</timestep><thermostat mode='langevin'><tau>200</tau></thermostat></dynamics></motion>%s</motion>" % m
    compare(c, lambda total: sim.build(dict(c, motion=m, total_steps=total, output=OUT % 1)))
    return "%s %s" % (c["kind"], "md" if c["md"] else "")


SUBS = [Sub("moves", gen(), t_moves, 500, 8000, shards=3), Sub("weights", gen(stat=True), t_stat, 160, 3000, shards=4), Sub("attempts", gen_n(), t_attempts, 30, 500), Sub("restart", gen_r(), t_restart, 80, 1500, shards=2)]
RULE = "a case is non-trivial when at least one exchange is accepted, or several assignments have comparable weights"

if __name__ == "__main__":
    main("C30", SUBS, rule=RULE, assumptions=[], quick_s=80, thorough_s=1200)
