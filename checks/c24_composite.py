"""C24: forcefields built from others (committees, rotational averages, cavity) and the internal ones."""
import os, sys, json, time, tempfile, threading, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim, vpes
from checks.c11_nmtrans import close
from checks.c23_transport import driver_module, limited
import numpy as np
from hypothesis import strategies as st

F = sim.floats
num, tag = sim.num, sim.tag


class Slow(float):
    """An offset whose subtraction takes a while: widens the window in which a half-made result could be seen."""

    def __rsub__(self, o):
        time.sleep(0.02)
        return o - float(self)


# ------------------------------------------------------------------ reference values of simple forcefields
def lj(par, q):
    U, f = 0.0, np.zeros_like(q)
    for i in range(len(q)):
        for j in range(i):
            d = q[i] - q[j]
            r = np.linalg.norm(d)
            x = (par["sigma"] / r) ** 6
            U += 4 * par["eps"] * (x * x - x)
            g = 4 * par["eps"] * (12 * x * x - 6 * x) / r**2 * d
            f[i] += g
            f[j] -= g
    return U, f, np.zeros((3, 3))


def debye(par, q):
    H, x0 = np.array(par["H"]), np.array(par["x"])
    d = q.flatten() - x0
    return par["v"] + 0.5 * d @ H @ d, -(H @ d).reshape(-1, 3), np.zeros((3, 3))


def evaluate(ff, h, q):
    """-> list of (U, f, vir) of the members of one forcefield, before its weight"""
    o = ff.get("offset", 0.0)
    if ff["kind"] == "lj":
        r = [lj(ff["par"], q)]
    elif ff["kind"] == "debye":
        r = [debye(ff["par"], q)]
    elif ff["par"].get("com"):
        m = [vpes.evaluate(vpes.member(ff["par"], i), h, q) for i in range(ff["par"]["com"])]
        if ff.get("parse"):
            return [(a, b, np.triu(v)) for a, b, v in m]  # what the client calls its members
        r = [tuple(np.mean([x[j] for x in m], axis=0) for j in range(3))]
    else:
        r = [vpes.evaluate(ff["par"], h, q)]
    return [(a - o, b, np.triu(v)) for a, b, v in r]


def ffone(f):
    off = "<offset>%s</offset>" % num(f["offset"]) if f.get("offset") else ""
    at = "name='%s' pbc='%s'" % (f["name"], f.get("pbc", "False"))
    if f["kind"] == "lj":
        return "<fflj %s threaded='%s'><parameters>{eps:%s, sigma:%s}</parameters>%s</fflj>" % (at, f.get("threaded", "True"), num(f["par"]["eps"]), num(f["par"]["sigma"]), off)
    if f["kind"] == "debye":
        return "<ffdebye %s>%s%s<v_reference>%s</v_reference>%s</ffdebye>" % (at, tag("hessian", np.array(f["par"]["H"])), tag("x_reference", np.array(f["par"]["x"])), num(f["par"]["v"]), off)
    return "<ffdirect %s threaded='%s'><pes>custom</pes><pes_path>%s</pes_path><parameters>%s</parameters>%s</ffdirect>" % (at, f.get("threaded", "True"), sim.VPES, sim.par_text(f["par"]), off)


@st.composite
def gen_ff(draw, name, n, kinds=("vpes", "vpes", "lj", "debye")):
    kind = draw(st.sampled_from(kinds))
    f = dict(name=name, kind=kind)
    if kind == "lj":
        f["par"] = dict(eps=draw(F(0.001, 0.02)), sigma=draw(F(0.8, 1.4)))
    elif kind == "debye":
        a = np.array(draw(sim.unit_vec(9 * n * n))).reshape(3 * n, 3 * n)
        f["par"] = dict(H=((a + a.T) * 0.02).tolist(), x=draw(sim.unit_vec(3 * n)), v=draw(F(-0.5, 0.5)))
    else:
        f["par"] = draw(sim.pes_par(cellterm=True))
    if draw(st.integers(0, 2)) == 0:
        f["offset"] = draw(F(-1.0, 1.0))
    return f


@st.composite
def mat(draw, max_beads=3):
    """atoms on a distorted lattice (not too close for a Lennard-Jones term)"""
    m = draw(sim.matter(max_atoms=3, max_beads=max_beads))
    n = len(m["m"])
    q = np.array(m["q"]).reshape(-1, n, 3) * 0.35
    q += 1.6 * np.array([[i % 2, (i // 2) % 2, (i + 1) // 2 % 2] for i in range(n)])
    m["q"] = q.reshape(len(q), -1).tolist()
    return m


# ------------------------------------------------------------------ committee
@st.composite
def gen_com(draw):
    c = draw(mat())
    n = len(c["m"])
    base = draw(st.integers(0, 2)) == 0
    k = draw(st.integers(2, 4))
    js = draw(st.booleans())
    mem = [draw(gen_ff("m%d" % i, n)) for i in range(k)]
    ext = draw(st.booleans())
    for f in mem:
        if f["kind"] == "vpes":
            if ext:
                f["par"]["ext"] = 1
            if draw(st.integers(0, 2)) == 0:
                f["par"]["com"] = draw(st.integers(2, 3))
                f["parse"] = js
    bi = draw(st.integers(0, k)) if base else None
    if base:
        b = draw(gen_ff("base", n))
        b.pop("parse", None)
        mem.insert(bi, b)
    w = [draw(F(0.2, 2.0)) for _ in range(k)] if draw(st.booleans()) else None
    ops = draw(st.lists(st.tuples(st.sampled_from(["q", "q", "h"]), st.integers(0, 10**6)), min_size=0, max_size=2))
    return dict(c, mem=mem, base=bi, unc=draw(F(0.002, 0.2)), w=w, alpha=draw(st.sampled_from([None, 0.5, 2.0, 1.3])), json=js, thresh=draw(st.sampled_from([0.0, 0.0, 0.005, 0.05])), offset=draw(st.sampled_from([0.0, 0.3])), ops=ops, slow=draw(st.integers(0, 9)) == 0)


def com_ref(c, h, q):
    w = c["w"] or [1.0] * (len(c["mem"]) - (c["base"] is not None))
    al = 1.0 if c["alpha"] is None else c["alpha"]
    rows, b, j = [], None, 0
    for i, f in enumerate(c["mem"]):
        e = evaluate(f, h, q)
        if i == c["base"]:
            b = e[0]
        else:
            rows += [[w[j] * x for x in r] for r in e]
            j += 1
    P, Fo, V = [np.array([r[k] for r in rows]) for k in range(3)]
    mp, mf, mv = P.mean(), Fo.mean(0), V.mean(0)
    N = len(P)
    var = al**2 * ((P - mp) ** 2).sum() / (N - 1)
    out = dict(members=mp + al * (P - mp), mf=mf + al * (Fo - mf), mv=mv + al * (V - mv), std=np.sqrt(var), mix=1.0)
    if b is not None:
        s2 = c["unc"] ** 2
        x = s2 / (s2 + var)
        df = al**2 * 2 / (N - 1) * np.tensordot(P - mp, Fo - mf, axes=(0, 0))
        dv = al**2 * 2 / (N - 1) * np.tensordot(P - mp, V - mv, axes=(0, 0))
        U, f, v = b[0] + x * mp, b[1] + x * mf - mp * s2 / (s2 + var) ** 2 * df, b[2] + x * mv - mp * s2 / (s2 + var) ** 2 * dv
        out["mix"] = x
    else:
        U, f, v = mp, mf, mv
    out.update(U=U - c["offset"], f=f, v=v)
    return out


def com_xml(c):
    s = "<ffcommittee name='com' pbc='False'>" + "".join(ffone(f) for f in c["mem"])
    if c["w"]:
        s += tag("weights", np.array(c["w"]))
    if c["alpha"] is not None:
        s += "<alpha>%s</alpha>" % num(c["alpha"])
    if c["base"] is not None:
        s += "<baseline_name>base</baseline_name><baseline_uncertainty>%s</baseline_uncertainty>" % num(c["unc"])
    if c["thresh"]:
        s += "<active_thresh>%s</active_thresh><active_output>act</active_output>" % num(c["thresh"])
    if c["json"]:
        s += "<parse_json>True</parse_json>"
    if c["offset"]:
        s += "<offset>%s</offset>" % num(c["offset"])
    return s + "</ffcommittee>"


def setup(c, ffs, name, **kw):
    s = sim.make(dict({k: c[k] for k in ("q", "p", "m", "cell", "names", "temp")}, ffs=ffs, forces=[dict(ff=name)], mode="nve", dt=0.5, **kw))
    return s


def moved(sy, op, seed):
    rng = np.random.RandomState(seed)
    if op == "q":
        q = np.array(sy.beads.q)
        sy.beads.q = q + 0.1 * rng.uniform(-1, 1, q.shape)
    else:
        sy.cell.h = np.array(sy.cell.h) * (1 + 0.02 * rng.uniform(-1, 1))


def t_com(case):
    c = case
    s = setup(c, com_xml(c), "com")
    try:
        if c["slow"]:
            ff = [f for f in s.fflist.values() if f.name == "com"][0]
            for x in ff.fflist:
                x.offset = Slow(x.offset)
        sy = s.syslist[0]
        act = []
        nref = 0
        for op, sd in [["", 0]] + list(c["ops"]):
            if op:
                moved(sy, op, sd)
            h, Q = np.array(sy.cell.h), np.array(sy.beads.q)
            R = [com_ref(c, h, q.reshape(-1, 3)) for q in Q]
            if any(abs(r["std"] - c["thresh"]) < 1e-8 for r in R):
                raise Skip("on the threshold")
            close(np.array(sy.forces.pots), np.array([r["U"] for r in R]), "committee potential", 1e-9)
            close(np.array(sy.forces.f), np.array([r["f"].flatten() for r in R]), "committee force", 1e-9)
            close(np.array(sy.forces.virs), np.array([r["v"] for r in R]), "committee virial", 1e-9)
            x = sy.forces.extras
            nref = len(R[0]["members"])
            close(np.array([np.ravel(y) for y in x["committee_uncertainty"]]).ravel(), np.array([r["std"] for r in R]), "committee uncertainty", 1e-8)
            close(np.array([np.ravel(y) for y in x["committee_pot"]]), np.array([r["members"] for r in R]), "energies of the members", 1e-9)
            close(np.array([np.ravel(y) for y in x["committee_force"]]), np.array([r["mf"].ravel() for r in R]), "forces of the members", 1e-9)
            V = np.array([np.reshape(y, (-1, 3, 3)) for y in x["committee_virial"]])
            close(np.triu(V), np.array([r["mv"] for r in R]), "virials of the members", 1e-9)
            if c["base"] is not None:
                close(np.array([np.ravel(y) for y in x["wb_mixing"]]).ravel(), np.array([r["mix"] for r in R]), "mixing of the baseline", 1e-9)
            if "committee_dipole" in x:
                mem = [f for i, f in enumerate(c["mem"]) if i != c["base"]]
                for b, q in enumerate(Q):
                    L = x["committee_dipole"][b]
                    require(len(L) == len(mem), "committee_dipole has %d entries for %d members", len(L), len(mem))
                    for y, f in zip(L, mem):
                        want = vpes.extras({}, h, q)["dipole"] if f["par"].get("ext") else None
                        require((y is None) == (want is None) and (y is None or np.allclose(y, want, atol=1e-10)), "dipole %r of member %s instead of %r", y, f["name"], want)
            act += [(q, h, r["std"]) for q, r in zip(Q, R) if c["thresh"] and r["std"] > c["thresh"]]
        if c["thresh"]:
            [f for f in s.fflist.values() if f.name == "com"][0].active_file.force_flush()
            t = open("sim.act").read()
            dec, i, got = json.JSONDecoder(), 0, []
            while i < len(t):
                if t[i].isspace():
                    i += 1
                    continue
                d, i = dec.raw_decode(t, i)
                got.append(d)
            require(len(got) == len(act), "%d structures above the threshold, %d written", len(act), len(got))
            left = list(range(len(got)))
            for q, h, u in act:
                m = [i for i in left if np.allclose(got[i]["position"], q, atol=1e-10) and np.allclose(got[i]["cell"], h.flatten(), atol=1e-10) and abs(got[i]["uncertainty"] - u) < 1e-8]
                require(m, "a structure of uncertainty %r is not in the active learning file", u)
                left.remove(m[0])
        require(not s.fflist[list(s.fflist)[0]].requests if isinstance(s.fflist, dict) else True, "requests left in the queue")
    finally:
        for f in s.fflist.values():
            f.stop()
    return "%d members%s%s%s" % (nref, " baseline" if c["base"] is not None else "", " weights" if c["w"] else "", " json" if any(f.get("parse") for f in c["mem"]) else "")


# ------------------------------------------------------------------ rotations
@st.composite
def gen_rot(draw):
    c = draw(mat(2))
    mode = draw(st.sampled_from(["legendre", "lebedev"]))
    par = draw(sim.pes_par(cellterm=True))
    order = draw(st.sampled_from([1, 2, 3, 4] if mode == "legendre" else [3, 5, 7]))
    lmax = 2 * order - 2 if mode == "legendre" else order - 1
    if lmax < 4:
        par["c"] = 0.0
    if lmax < 3:
        par["g"] = 0.0
    return dict(c, grid=mode, order=order, par=par, inv=draw(st.booleans()), rnd=draw(st.booleans()), offset=draw(st.sampled_from([0.0, 0.4])), ioff=draw(st.sampled_from([0.0, -0.7])), ext=draw(st.booleans()), tag=draw(st.booleans()), ops=draw(st.lists(st.tuples(st.sampled_from(["q", "h"]), st.integers(0, 10**6)), min_size=1, max_size=2)), seed=draw(st.integers(1, 10**6)))


def avg(par, h, q):
    """exact average over all rotations of the test potential"""
    n = len(q)
    p = dict(par, g=0.0, c=0.0, gc=0.0)
    kk = p["k"] * (1.0 + 0.3 * np.arange(n) + 0.2)
    U, f, v = vpes.evaluate(dict(p, k=0.0), h, q)
    r2 = (q**2).sum(1)
    g = -kk[:, None] * q - 0.25 * par["c"] * 0.6 * 4 * r2[:, None] * q
    U += 0.5 * (kk * r2).sum() + 0.25 * par["c"] * 0.6 * (r2**2).sum()
    c1, c2 = h[:, 1], h[:, 2]
    U += 0.5 * par["gc"] * (c1 @ c1 + 2 * c2 @ c2) / 3
    v = v + g.T @ q - par["gc"] * (np.outer(c1, c1) + 2 * np.outer(c2, c2)) / 3
    return U, f + g, v


def t_rot(case):
    c = case
    par = dict(c["par"])
    if c["ext"]:
        par["ext"] = 1
    x = "<ffrotations name='rot' pbc='False'>%s<random>%s</random><inversion>%s</inversion><grid_order>%d</grid_order><grid_mode>%s</grid_mode>%s</ffrotations>" % (
        ffone(dict(kind="vpes", name="in", par=par, offset=c["ioff"])), c["rnd"], c["inv"], c["order"], c["grid"], "<offset>%s</offset>" % num(c["offset"]) if c["offset"] else "")
    s = setup(c, x, "rot", seed=c["seed"])
    try:
        sy = s.syslist[0]
        low = c["order"] == 1  # no average at all: the potential in one orientation
        ng = None
        for op, sd in [["", 0]] + list(c["ops"]):
            if op:
                moved(sy, op, sd)
            h, Q = np.array(sy.cell.h), np.array(sy.beads.q)
            pots, fs, vs = np.array(sy.forces.pots), np.array(sy.forces.f), np.array(sy.forces.virs)
            o = c["offset"] + c["ioff"]
            grid = [np.ravel(y) for y in sy.forces.extras["o3grid_pots"]]
            ng = len(grid[0])
            if low:
                require(ng == 1 + c["inv"], "%d evaluations in the grid of order 1", ng)
                if c["rnd"]:
                    require(all(np.isfinite(pots)), "potential %r", pots)
                    continue
                p2 = [vpes.evaluate(c["par"], h, q.reshape(-1, 3)) for q in Q]
                if c["inv"]:
                    m2 = [vpes.evaluate(c["par"], -h, -q.reshape(-1, 3)) for q in Q]
                    p2 = [tuple(0.5 * (a + s_ * b) for a, b, s_ in zip(x_, y_, (1, -1, 1))) for x_, y_ in zip(p2, m2)]
            else:
                p2 = [avg(c["par"], h, q.reshape(-1, 3)) for q in Q]
            tol = 1e-8
            close(pots, np.array([y[0] for y in p2]) - o, "rotationally averaged potential (%s %d)" % (c["grid"], c["order"]), tol)
            close(fs, np.array([y[1].ravel() for y in p2]), "rotationally averaged force", tol)
            close(vs, np.array([np.triu(y[2]) for y in p2]), "rotationally averaged virial", tol)
            for g, U in zip(grid, pots):
                require(g.min() - 1e-9 <= U + c["offset"] <= g.max() + 1e-9, "the average %r is not within the energies of the grid", U)
                if ng > 1 and not low:
                    require(np.ptp(g) > 1e-9, "all rotations give the same energy for an anisotropic potential")
        if c["rnd"] and low:
            # every evaluation draws a new orientation; each is a rotation of the structure
            U = []
            for i in range(6):
                sy.beads.q = np.array(sy.beads.q)
                U.append(float(np.array(sy.forces.pots)[0]))
            require(len(set("%.12g" % u for u in U)) > 1, "random rotations give the same energy %r six times", U[0])
    finally:
        for f in s.fflist.values():
            f.stop()
    return "%s %d%s%s" % (c["grid"], c["order"], " inv" if c["inv"] else "", " random" if c["rnd"] else "")


# ------------------------------------------------------------------ internal forcefields and the driven potential
@st.composite
def gen_int(draw):
    c = draw(mat())
    n = len(c["m"])
    f = [draw(gen_ff("a%d" % i, n, ("lj", "debye", "vpes"))) for i in range(draw(st.integers(1, 3)))]
    for x in f:
        x["threaded"] = draw(st.sampled_from(["True", "False"]))
    d = None
    if n > 1 and draw(st.booleans()):
        d = dict(c=[draw(F(-0.05, 0.05)) for _ in range(n * (n - 1) // 2)], freq=draw(F(0.001, 0.2)), dt=draw(F(0.5, 20.0)), step=draw(st.integers(0, 5)), file=draw(st.booleans()))
    return dict(c, fl=f, dmd=d, nsys=draw(st.integers(1, 2)), steps=draw(st.integers(1, 3)), wt=[draw(F(-1.0, 2.0)) for _ in f], slow=draw(st.integers(0, 3)) == 0, pbcdmd=draw(st.booleans()))


def dmd_ref(d, h, q, step):
    s = np.sin(step * d["freq"] * d["dt"])
    U, f, v, k = 0.0, np.zeros_like(q), np.zeros((3, 3)), 0
    for i in range(len(q)):
        for j in range(i):
            e = np.linalg.solve(h, q[i] - q[j])
            e = h @ (e - np.round(e))
            r = np.linalg.norm(e)
            U += d["c"][k] * r * s
            g = -d["c"][k] * s * e / r
            f[i] += g
            f[j] -= g
            v += np.outer(g, e)
            k += 1
    return U, f, v


def t_int(case):
    c = case
    x = "".join(ffone(f) for f in c["fl"])
    kw = {}
    d = c["dmd"]
    if d:
        if d["file"]:
            np.savetxt("coup.dat", np.array(d["c"]), fmt="%.17g")
        x += "<ffdmd name='dmd' pbc='False' threaded='False'><dmd_coupling mode='%s'>%s</dmd_coupling><dmd_freq>%s</dmd_freq><dmd_dt>%s</dmd_dt><dmd_step>%d</dmd_step></ffdmd>" % (
            "file" if d["file"] else "manual", "coup.dat" if d["file"] else "[%s]" % ", ".join(num(y) for y in d["c"]), num(d["freq"]), num(d["dt"]), d["step"])
        kw["smotion"] = "<smotion mode='dmd'><dmd><dmdff>[dmd]</dmdff></dmd></smotion>"
    e = {k: c[k] for k in ("q", "p", "m", "cell", "names", "temp")}
    e.update(ffs=x, mode="nve", dt=0.1, forces=[dict(ff=f["name"], weight=w) for f, w in zip(c["fl"], c["wt"])])
    if d:
        e["bias"] = [dict(ff="dmd")]
    if c["nsys"] > 1:
        e["systems"] = [dict(e, prefix="s%d" % i, q=(np.array(e["q"]) * (1 + 0.02 * i)).tolist()) for i in range(c["nsys"])]
    s = sim.make(dict(e, threading="False", **kw))
    try:
        if c["slow"]:
            for ff in s.fflist.values():
                ff.offset = Slow(ff.offset)
        k = d["step"] if d else 0
        for n in range(c["steps"] + 1):
            for sy in s.syslist:
                h, Q = np.array(sy.cell.h), np.array(sy.beads.q)
                R = [[evaluate(f, h, q.reshape(-1, 3))[0] for q in Q] for f in c["fl"]]
                T = [[sum(w * r[b][i] for w, r in zip(c["wt"], R)) for b in range(len(Q))] for i in range(3)]
                close(np.array(sy.forces.pots), np.array(T[0]), "potential of %s" % [f["kind"] for f in c["fl"]], 1e-9)
                close(np.array(sy.forces.f), np.array(T[1]).reshape(Q.shape), "force of %s" % [f["kind"] for f in c["fl"]], 1e-9)
                close(np.array(sy.forces.virs), np.array(T[2]), "virial of %s" % [f["kind"] for f in c["fl"]], 1e-9)
                if d:
                    # after k updates; energies of a completed step are those at the time of the step
                    kk = k if n == 0 else k - 1
                    D = [dmd_ref(d, h, q.reshape(-1, 3), kk) for q in Q]
                    B = sy.ensemble.bias
                    close(np.array(B.pots), np.array([y[0] for y in D]), "driven potential at step %d" % kk, 1e-9)
                    close(np.array(B.f), np.array([y[1].ravel() for y in D]), "driven force at step %d" % kk, 1e-9)
                    close(np.array(B.virs), np.array([np.triu(y[2]) for y in D]), "driven virial at step %d" % kk, 1e-9)
            if n < c["steps"]:
                s.run(1)
                k += 1
    finally:
        for f in s.fflist.values():
            f.stop()
    return "+".join(sorted(f["kind"] for f in c["fl"])) + (" dmd" if d else "") + (" 2 systems" if c["nsys"] > 1 else "")


# ------------------------------------------------------------------ cavity photons
@st.composite
def gen_cav(draw):
    c = draw(mat())
    n = len(c["m"])
    rep = draw(st.sampled_from(["loose", "dense"]))
    ap = draw(st.integers(0, 4)) > 0
    k = {"loose": 2, "dense": 1}[rep] if ap else 0
    P = len(c["q"])
    if k:
        c["q"] = [r + draw(sim.unit_vec(3 * k, -3.0, 3.0)) for r in c["q"]]
        c["p"] = [r + draw(sim.unit_vec(3 * k)) for r in c["p"]]
        c["m"] = c["m"] + [1.0] * k
        c["names"] = c["names"] + ["L"] * k
    return dict(c, na=n, rep=rep, ap=ap, k=k, ev=draw(st.integers(0, 3)) > 0, surf=draw(st.booleans()), E0=draw(F(0.0, 0.02)), om=draw(F(0.005, 0.05)), z=draw(sim.unit_vec(n)), off=draw(st.sampled_from([0.0, 0.25])), par=draw(sim.pes_par(cellterm=True)),
                clients=draw(st.integers(1, 2)), nsys=draw(st.integers(1, 2)), steps=draw(st.integers(0, 2)), seed=draw(st.integers(0, 10**6)))


def dip(z, q):
    """a non-linear dipole and its derivative, as [atom][component][coordinate]"""
    z = np.array(z)
    mu = (z[:, None] * q).sum(0) + 0.1 * (q**2 * np.roll(q, 1, axis=1)).sum(0)
    J = np.zeros((len(q), 3, 3))
    for i in range(len(q)):
        for a in range(3):
            b = (a - 1) % 3
            J[i, a, a] += z[i] + 0.2 * q[i, a] * q[i, b]
            J[i, a, b] += 0.1 * q[i, a] ** 2
    return mu, J


class Dipoles(vpes.VPES):
    def __init__(self, z, **kw):
        super().__init__(**kw)
        self.z = z

    def compute_structure(self, cell, pos):
        u, f, v, x = super().compute_structure(cell, pos)
        mu, J = dip(self.z, np.asarray(pos).reshape(-1, 3))
        return u, f, v, json.dumps(dict(dipole=mu.tolist(), dipole_derivative=J.flatten().tolist()))


def cav_ref(c, h, q):
    n = c["na"]
    at, ph = q[:n], q[n:]
    U, f, v = vpes.evaluate(c["par"], h, at)
    U -= c["off"]
    F_ = np.zeros_like(q)
    F_[:n] = f
    if c["ap"] and c["ev"]:
        mu, J = dip(c["z"], at) if c["surf"] else ((np.array(c["z"])[:, None] * at).sum(0), np.array([z * np.eye(3) for z in c["z"]]))
        qx, qy = ph[0, 0], ph[-1, 1]
        w2 = c["om"] ** 2
        U += 0.5 * w2 * (ph**2).sum() + c["E0"] * (qx * mu[0] + qy * mu[1]) + 0.5 * c["E0"] ** 2 / w2 * (mu[0] ** 2 + mu[1] ** 2)
        F_[n:] = -w2 * ph
        F_[n, 0] -= c["E0"] * mu[0]
        F_[-1, 1] -= c["E0"] * mu[1]
        e = [c["E0"] * (x + c["E0"] / w2 * m) for x, m in ((qx, mu[0]), (qy, mu[1]))]
        F_[:n] -= e[0] * J[:, 0, :] + e[1] * J[:, 1, :]
    return U, F_, np.triu(v)


def t_cav(case):
    c = case
    import ipi.interfaces.sockets as S
    if hasattr(S, "SERVERTIMEOUT"):
        S.SERVERTIMEOUT = 0.1
    D = driver_module()
    d = tempfile.mkdtemp(prefix="c24")
    x = "<ffcavphsocket name='cav' mode='unix' pbc='False'><address>cav</address><latency>1e-3</latency>%s<charge_array>[%s]</charge_array><apply_photon>%s</apply_photon><evaluate_photon>%s</evaluate_photon><dipole_surface>%s</dipole_surface><E0>%s</E0><omega_c>%s</omega_c><ph_rep>%s</ph_rep></ffcavphsocket>" % (
        "<offset>%s</offset>" % num(c["off"]) if c["off"] else "", ", ".join(num(z) for z in c["z"]), c["ap"], c["ev"], c["surf"], num(c["E0"]), num(c["om"]), c["rep"])
    e = {k: c[k] for k in ("q", "p", "m", "cell", "names", "temp")}
    e.update(ffs=x, mode="nve", dt=0.1, forces=[dict(ff="cav")], fixcom="False")
    if c["nsys"] > 1:
        e["systems"] = [dict(e, prefix="s%d" % i, q=(np.array(e["q"]) * (1 - 0.1 * i)).tolist()) for i in range(c["nsys"])]
    s, stop = None, []

    def client():
        for _ in range(1000):
            if stop:
                return
            try:
                D.run_driver(unix=True, address="cav", driver=Dipoles(c["z"], **c["par"]), sockets_prefix=d + "/s_")
                return
            except (ConnectionRefusedError, FileNotFoundError):
                time.sleep(0.01)
            except Exception:
                return
    try:
        for _ in range(c["clients"]):
            threading.Thread(target=client, daemon=True).start()
        s = sim.make(dict(e, sockets_prefix=d + "/s_"))
        for n in range(c["steps"] + 1):
            if n:
                s.run(1)
            if n == 0 and c["nsys"] > 1:  # both systems ask at the same time
                ts = [threading.Thread(target=lambda y=y: y.forces.pots) for y in s.syslist]
                [t.start() for t in ts]
                [t.join() for t in ts]
            for sy in s.syslist:
                h, Q = np.array(sy.cell.h), np.array(sy.beads.q)
                R = [cav_ref(c, h, q.reshape(-1, 3)) for q in Q]
                close(np.array(sy.forces.pots), np.array([r[0] for r in R]), "energy with the cavity", 1e-9)
                close(np.array(sy.forces.f), np.array([r[1].ravel() for r in R]), "force with the cavity", 1e-9)
                close(np.array(sy.forces.virs), np.array([r[2] for r in R]), "virial with the cavity", 1e-9)
                mu = np.array([dip(c["z"], q.reshape(-1, 3)[:c["na"]])[0] for q in Q])
                close(np.array([np.ravel(y) for y in sy.forces.extras["dipole"]]), mu, "dipole in the extras", 1e-9)
    finally:
        stop.append(1)
        if s is not None:
            for f in s.fflist.values():
                f.stop()
        shutil.rmtree(d, ignore_errors=True)
    return "%s%s%s%s%s" % (c["rep"] if c["ap"] else "no photon", " surface" if c["surf"] else "", "" if c["ev"] else " not evaluated", " 2 systems" if c["nsys"] > 1 else "", " offset" if c["off"] else "")


def bounded(fn):
    """a crash in a polling thread would leave the simulation waiting for ever"""
    def run(case):
        out, err = [], []
        hook = threading.excepthook
        threading.excepthook = lambda a: err.append(repr(a.exc_value))
        try:
            late = limited(lambda: out.append(fn(case)))
        finally:
            threading.excepthook = hook
        require(not late, "the forces are never returned: %s", "; ".join(err) or "no error")
        return out[0]
    return run


SUBS = [Sub("committee", gen_com(), bounded(t_com), 400, 8000, shards=4), Sub("rotations", gen_rot(), bounded(t_rot), 120, 2400, shards=2), Sub("internal", gen_int(), bounded(t_int), 300, 6000, shards=2), Sub("cavity", gen_cav(), bounded(t_cav), 160, 3000, shards=4, deterministic=False)]
RULE = "all cases"

if __name__ == "__main__":
    main("C24", SUBS, rule=RULE, assumptions=[], quick_s=100, thorough_s=1500)
