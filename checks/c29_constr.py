"""C29: dynamics under holonomic constraints."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim, vpes
from checks.c11_nmtrans import close
from checks.c03_restart import compare, OUT, cuts
import numpy as np
from hypothesis import strategies as st

F = sim.floats


def geometry(n):
    """a well shaped molecule"""
    g = np.array([[0.0, 0.0, 0.0], [1.8, 0.1, 0.0], [-0.5, 1.7, 0.2], [0.3, -0.6, 1.9], [2.6, 1.5, 0.8]])
    return g[:n]


@st.composite
def gen(draw):
    n = draw(st.integers(2, 5))
    x = geometry(n) + np.array(draw(sim.unit_vec(3 * n, -0.3, 0.3))).reshape(n, 3)
    m = [draw(F(1000.0, 30000.0)) for _ in range(n)]
    vs = np.array(draw(sim.unit_vec(3 * n, -1.5e-3, 1.5e-3))).reshape(n, 3)
    c = dict(q=[x.flatten().tolist()], p=[(vs * np.array(m)[:, None]).flatten().tolist()], m=m, names=["H"] * n, cell=[[40.0, 0, 0], [0, 40.0, 0], [0, 0, 40.0]])
    k = draw(st.sampled_from(["bonds", "bonds", "single", "angle", "mixed", "eckart", "two"]))
    if n == 2 and k in ("angle", "mixed", "eckart"):
        k = "bonds"
    if n < 4 and k == "two":
        k = "single"
    perm = draw(st.permutations(range(n)))
    tree = [(perm[draw(st.integers(0, i - 1))], perm[i]) for i in range(1, n)]
    cons = []  # list of groups of (kind, atoms)
    if k == "bonds":
        cons = [[("distance", b) for b in tree[: draw(st.integers(1, n - 1))]]]
        if n > 2 and draw(st.booleans()):  # a rigid triangle
            a = sorted(perm[:3])
            cons = [[("distance", (a[0], a[1])), ("distance", (a[1], a[2])), ("distance", (a[2], a[0]))]]
    elif k == "single":
        cons = [[("distance", tree[0])]]
    elif k == "two":
        cons = [[("distance", (perm[0], perm[1]))], [("distance", (perm[2], perm[3]))]]
    elif k == "angle":
        cons = [[("angle", tuple(perm[:3]))]]
    elif k == "mixed":
        cons = [[("distance", (perm[0], perm[1])), ("distance", (perm[0], perm[2])), ("angle", tuple(perm[:3]))]]
    else:
        cons = [[("eckart", tuple(sorted(perm[: draw(st.integers(3, n))])))]]
    c["cons"], c["kind"] = cons, k
    c["given"] = draw(st.booleans())
    c["split"] = draw(st.sampled_from(["obabo", "baoab"]))
    c["tol"] = draw(st.sampled_from([1e-9, 1e-10]))
    c["norm"] = draw(st.sampled_from([1, 2, -1]))
    c["geo"], c["no"] = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    c["nmts"] = draw(st.sampled_from([[], [], [2], [3], [1, 2], [3, 2]]))
    c["fixcom"] = k not in ("eckart",) and draw(st.booleans())
    c["dt"] = draw(F(5.0, 20.0))
    c["steps"] = draw(st.integers(2, 8))
    c["ffs"] = [dict(name="ffa", par=draw(sim.pes_par()))]
    fr = dict(ff="ffa", weight=draw(st.sampled_from([1.0, 0.7])))
    lv = len(c["nmts"]) or 1
    c["mts"] = lv
    c["forces"] = [fr]
    if lv > 1:
        a = draw(F(0.0, 1.0))
        fr["mts_weights"] = [a, 1 - a]
    c["thermo"] = draw(st.sampled_from(["langevin", "svr", "gle"]))
    c["tau"] = draw(F(50.0, 500.0))
    c["temp"] = draw(F(1e-4, 2e-3))
    c["seed"] = draw(st.integers(0, 10**6))
    return c


def motion(c, mode, dt=None):
    x = np.array(c["q"][0]).reshape(-1, 3)
    s = "<motion mode='constrained_dynamics'><fixcom>%s</fixcom><constrained_dynamics mode='%s' splitting='%s'><timestep>%r</timestep>" % (c["fixcom"], mode, c["split"], dt or c["dt"])
    if c["nmts"]:
        s += "<nmts>%r</nmts>" % c["nmts"]
    s += "<nsteps_o>%d</nsteps_o><nsteps_geo>%d</nsteps_geo><csolver><tolerance>%r</tolerance><maxit>500</maxit><norm_order>%d</norm_order></csolver>" % (c["no"], c["geo"], c["tol"], c["norm"])
    if mode == "nvt":
        if c["thermo"] == "gle":
            s += "<thermostat mode='gle'><A shape='(2,2)'>[0.01, 0.004, -0.004, 0.006]</A></thermostat>"
        else:
            s += "<thermostat mode='%s'><tau>%r</tau></thermostat>" % (c["thermo"], c["tau"])

    def one(kind, lst):
        at = [a for z in lst for a in z]
        r = "<constraint mode='%s'><atoms>%r</atoms>" % (kind, list(at))
        if c["given"]:
            if kind == "eckart":
                v = x[at].flatten()
            else:
                v = [val(kind, x, a) for a in lst]
            r += "<values>%r</values>" % [float(y) for y in v]
        return r + "</constraint>"

    for g in c["cons"]:
        kinds = []
        for k, a in g:
            if k not in kinds:
                kinds.append(k)
        parts = [one(k, [a for kk, a in g if kk == k]) for k in kinds]
        s += parts[0] if len(parts) == 1 else "<constraint mode='multi'>" + "".join(parts) + "</constraint>"
    return s + "</constrained_dynamics></motion>"


def val(kind, x, a):
    if kind == "distance":
        return np.linalg.norm(x[a[0]] - x[a[1]])
    u, v = x[a[1]] - x[a[0]], x[a[2]] - x[a[0]]
    return np.arccos(np.dot(u, v) / np.linalg.norm(u) / np.linalg.norm(v))


def g_of(c, x, ref):
    """values of the constraints, as defined in the documentation"""
    m = np.array(c["m"])
    out = []
    for grp in c["cons"]:
        r = []
        for k, a in grp:
            if k == "distance":
                r.append(np.sum((x[a[0]] - x[a[1]])**2) - np.sum((ref[a[0]] - ref[a[1]])**2))
            elif k == "angle":
                r.append(np.cos(val(k, x, a)) - np.cos(val(k, ref, a)))
            else:
                a = list(a)
                w = m[a][:, None]
                d = x[a] - ref[a]
                rel = ref[a] - (w * ref[a]).sum(0) / w.sum()
                r += list((w * d).sum(0) / w.sum()) + list(np.cross(w * rel, d).sum(0) / w.sum())
        out.append(np.array(r))
    return out


def norm(c, g):
    return np.linalg.norm(g, ord=np.inf if c["norm"] == -1 else c["norm"])


def on_manifold(c, sy, ref, what):
    m = np.array(c["m"])
    x = np.array(sy.beads.q[0]).reshape(-1, 3)
    v = np.array(sy.beads.p[0]).reshape(-1, 3) / m[:, None]
    for g in g_of(c, x, ref):
        require(norm(c, g) <= c["tol"] * 1.001 + 1e-13, "%s: a constraint is violated by %r, the tolerance is %r", what, norm(c, g), c["tol"])
    e = 1e-5
    for a, b in zip(g_of(c, x + e * v / max(np.abs(v).max(), 1e-30), ref), g_of(c, x - e * v / max(np.abs(v).max(), 1e-30), ref)):
        d = (a - b) / (2 * e)
        require(np.abs(d).max() <= 1e-7, "%s: a velocity has the component %r along a constraint", what, np.abs(d).max())
    if c["fixcom"]:
        pt = np.abs(np.array(sy.beads.p[0]).reshape(-1, 3).sum(0)).max()
        require(pt <= 1e-9 * max(1.0, np.abs(np.array(sy.beads.p)).max()), "%s: total momentum %r with a fixed centre of mass", what, pt)


def ncons(c):
    return sum(6 if k == "eckart" else 1 for g in c["cons"] for k, _ in g)


def t_nve(c):
    ref = np.array(c["q"][0]).reshape(-1, 3)

    def run(dt, n, p=None, q=None):
        d = dict(c, motion=motion(c if q is None else dict(c, given=True), "nve", dt))
        if q is not None:
            d.update(q=[q.tolist()], p=[p.tolist()])
        s = sim.make(d)
        sy = s.syslist[0]
        e = []
        for k in range(n):
            s.run(1)
            require(np.isfinite(np.array(sy.beads.q)).all(), "the positions are not finite")
            on_manifold(c, sy, ref, "nve %s step %d" % (c["kind"], k))
            e.append(float(sy.ensemble.econs))
        return sy, np.array(e)

    sy, _ = run(c["dt"], c["steps"])
    q1, p1 = np.array(sy.beads.q[0]), np.array(sy.beads.p[0])
    # temperature accounts for the degrees of freedom that are not there
    nfix = ncons(c) + (3 if c["fixcom"] else 0)
    ke = 0.5 * float(np.sum(p1**2 / np.repeat(c["m"], 3)))
    close(float(sy.properties.get_temp()), (2 * ke + c["temp"] * nfix) / (3 * len(c["m"])), "temperature with %d constraints" % nfix, 1e-8)
    # time reversal, from the state after one step (where the constraints hold exactly)
    s1, _ = run(c["dt"], 1)
    qa, pa = np.array(s1.beads.q[0]), np.array(s1.beads.p[0])
    c2 = dict(c, cons=c["cons"])
    sb, e1 = run_from(c2, ref, qa, pa, c["steps"])
    # the energy error is of second order
    _, e2 = run_from(c2, ref, qa, pa, 4 * c["steps"], c["dt"] / 4)
    e2 = e2[::4]
    a, b = np.ptp(e1[:, 0]), np.ptp(e2[:, 0])
    require(b <= a / 4 + 2e-3 * np.ptp(e2[:, 1]) + 1e-9, "nve %s: the conserved quantity varies by %r with the time step %r and by %r with a quarter of it, the kinetic energy varies by %r", c["kind"], a, c["dt"], b, np.ptp(e2[:, 1]))
    sc, _ = run_from(c2, ref, np.array(sb.beads.q[0]), -np.array(sb.beads.p[0]), c["steps"])
    require(np.abs(np.array(sc.beads.q[0]) - qa).max() <= 1e-6, "nve %s: going back in time ends %r away from the start", c["kind"], np.abs(np.array(sc.beads.q[0]) - qa).max())
    return "%s geo=%d nmts=%r%s" % (c["kind"], c["geo"], c["nmts"], " fixcom" if c["fixcom"] else "") if np.abs(q1 - ref.flatten()).max() > 1e-3 else None


def run_from(c, ref, q, p, n, dt=None):
    d = dict(c, given=True)
    m = motion(d, "nve", dt)  # target values are those of the reference geometry
    s = sim.make(dict(d, q=[q.tolist()], p=[p.tolist()], motion=m))
    sy = s.syslist[0]
    e = [[float(sy.ensemble.econs), float(sy.nm.kin)]]
    for _ in range(n):
        s.run(1)
        e.append([float(sy.ensemble.econs), float(sy.nm.kin)])
    return sy, np.array(e)


def t_nvt(c):
    ref = np.array(c["q"][0]).reshape(-1, 3)
    par = dict(k=0.0, c=0.0, g=0.0, A=0.0, s=1.0)
    d = dict(c, geo=8, ffs=[dict(name="ffa", par=par)])
    d["motion"] = motion(d, "nvt")
    s = sim.make(d)
    sy = s.syslist[0]
    s.run(1)
    e0 = float(sy.ensemble.econs)
    heat, ev = 0.0, []
    k0 = float(sy.nm.kin)
    for k in range(c["steps"]):
        s.run(1)
        on_manifold(d, sy, ref, "nvt %s %s step %d" % (c["thermo"], c["kind"], k))
        heat += abs(float(sy.nm.kin) - k0)
        k0 = float(sy.nm.kin)
        ev.append(float(sy.ensemble.econs))
    de = np.abs(np.array(ev) - e0).max()
    require(de <= 0.02 * max(heat, k0) + 1e-9, "nvt %s %s: the conserved quantity changes by %r while %r of heat is exchanged", c["thermo"], c["kind"], de, heat)
    return "%s %s %s" % (c["thermo"], c["kind"], c["split"]) if heat > 1e-6 else None


@st.composite
def gen_r(draw):
    c = draw(gen())
    c.update(draw(cuts()))
    c["mode_"] = draw(st.sampled_from(["nve", "nvt"]))
    return c


def t_restart(c):
    m = motion(c, c["mode_"])
    compare(c, lambda total: sim.build(dict(c, motion=m, total_steps=total, output=OUT % 1)))
    return "%s %s" % (c["mode_"], c["kind"])


SUBS = [Sub("nve", gen(), t_nve, 300, 6000, shards=4), Sub("nvt", gen(), t_nvt, 200, 4000, shards=2), Sub("restart", gen_r(), t_restart, 80, 1500, shards=2)]
RULE = "a case is non-trivial when atoms move by more than 1e-3 bohr or heat is exchanged, with at least one constraint"

if __name__ == "__main__":
    main("C29", SUBS, rule=RULE, assumptions=[], quick_s=80, thorough_s=1200)
