"""C19: the total force, potential, virial and extras are the weighted, contracted sums of their components."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim, vpes
from checks.c11_nmtrans import close
import numpy as np

W = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5]), sim.floats(-2.0, 2.0))


@st.composite
def gen(draw):
    c = draw(sim.matter(max_atoms=3, max_beads=8))
    P, n = len(c["q"]), len(c["m"])
    nf = draw(st.integers(1, 3))
    c["ffs"] = []
    for i in range(nf):
        f = dict(name="ff%d" % i, par=dict(draw(sim.pes_par(cellterm=float(np.linalg.det(c["cell"]))))))
        f["par"]["ext"] = draw(st.integers(0, 1))
        if draw(st.booleans()):
            f["offset"] = draw(sim.floats(-1.0, 1.0))
        f["threaded"] = draw(st.booleans())
        if f["threaded"] and draw(st.booleans()):     # batches wait for the poll loop, so they need a thread
            f["batch_size"] = draw(st.integers(1, 4))
        c["ffs"].append(f)
    L = draw(st.integers(1, 3))
    c["forces"] = []
    for i in range(draw(st.integers(1, 4))):
        k = draw(st.integers(0, nf - 1))
        d = dict(ff="ff%d" % k, weight=draw(W))
        if draw(st.booleans()):
            d["nbeads"] = draw(st.integers(1, P + 2))
        if L > 1 or draw(st.booleans()):
            d["mts_weights"] = draw(st.lists(W, min_size=L, max_size=L))
        if c["ffs"][k]["par"]["ext"]:
            ie = draw(st.lists(st.sampled_from(["dipole", "scalar", "polar"]), unique=True, max_size=3))
            if ie:
                d["interpolate_extras"] = ie
        c["forces"].append(d)
    if P > 1 and draw(st.integers(0, 3)) == 0:
        c["nm"] = dict(open_paths=draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)))
        for d in c["forces"]:      # contracting a plain vector with open paths is not defined by the code
            if "dipole" in d.get("interpolate_extras", []):
                d["interpolate_extras"] = ["scalar", "polar"]
    c["mode"], c["dt"], c["fixcom"] = "nve", 1.0, False
    if L > 1:
        c["nmts"] = [1] * L
    c["ops"] = draw(st.lists(st.tuples(st.sampled_from(["q", "q1", "cell", "weight", "clone", "transfer", "state", "read"]), st.integers(0, 10**6)).map(list), max_size=5))
    return c


def cmat(P, Q, opened):
    """contraction from P to Q beads: keep the common low-frequency Fourier components (adjoint expansion for P < Q)"""
    if P < Q:
        return cmat(Q, P, opened).T * (Q / P)

    def basis(N):
        j = np.arange(N)
        if opened:
            B = [np.cos(np.pi * (j + 0.5) * k / N) for k in range(Q)]
        else:
            B = [np.ones(N)]
            for k in range(1, (Q - 1) // 2 + 1):
                B += [np.cos(2 * np.pi * j * k / N), np.sin(2 * np.pi * j * k / N)]
            if Q % 2 == 0:
                B.append(np.cos(2 * np.pi * j * (Q // 2) / N))
        B = np.array(B)
        return B / np.linalg.norm(B, axis=1)[:, None]
    if P == Q:
        return np.eye(P)
    return basis(Q).T @ basis(P) * np.sqrt(Q / P)


class Ref:
    def __init__(self, c):
        self.c, self.q, self.h = c, np.array(c["q"]), np.array(c["cell"])
        self.w = [f.get("weight", 1.0) for f in c["forces"]]
        self.open = (c.get("nm") or {}).get("open_paths", [])

    def comp(self, i, q=None):
        """component i: unweighted per-contracted-bead pots, forces, virials, extras, and the expansions"""
        c = self.c
        q = self.q if q is None else q
        f = c["forces"][i]
        ff = [x for x in c["ffs"] if x["name"] == f["ff"]][0]
        P = len(q)
        Q = min(f.get("nbeads", 0) or P, P)     # documented: never more beads than the system
        n3 = q.shape[1]
        C = [cmat(P, Q, k // 3 in self.open) for k in range(n3)]
        qc = np.array([C[k] @ q[:, k] for k in range(n3)]).T
        r = [vpes.evaluate(ff["par"], self.h, x) for x in qc]
        pots = np.array([x[0] for x in r]) - ff.get("offset", 0.0)
        fo = np.array([x[1].flatten() for x in r])
        vi = np.array([np.triu(x[2]) for x in r])
        s = P / Q
        fe = np.array([s * C[k].T @ fo[:, k] for k in range(n3)]).T
        C0 = cmat(P, Q, len(self.open) > 0) if P != Q else np.eye(P)     # per-bead numbers
        ex = vpes_extras(ff["par"], self.h, qc)
        return dict(P=P, Q=Q, pots=pots, f=fo, virs=vi, fe=fe, pe=s * C0.T @ pots, ve=np.einsum("qp,qab->pab", s * C0, vi), ex=ex, C0=s * C0)

    def mts(self, i):
        return np.array(self.c["forces"][i].get("mts_weights", [1.0]))


def vpes_extras(par, h, qc):
    if not par.get("ext"):
        return {}
    r = [vpes.extras(par, h, x) for x in qc]
    return {k: np.array([x[k] for x in r]) for k in r[0]}


def compare(sy, R, tag):
    c = R.c
    nf = len(c["forces"])
    co = [R.comp(i) for i in range(nf)]
    w = [R.w[i] * R.mts(i).sum() for i in range(nf)]
    F = sy.forces
    T = lambda key: sum(w[i] * co[i][key] for i in range(nf))
    tol = 1e-9
    close(np.array(F.f), T("fe"), tag + "total force", tol)
    close(np.array(F.pots), T("pe"), tag + "potential per bead", tol)
    close(float(F.pot), T("pe").sum(), tag + "total potential", tol)
    close(np.array(F.virs), T("ve"), tag + "virial per bead", tol)
    close(np.array(F.vir), T("ve").sum(0), tag + "total virial", tol)
    L = len(R.mts(0))
    for l in range(L):
        wl = [R.w[i] * R.mts(i)[l] for i in range(nf)]
        close(np.array(F.mts_forces[l].f), sum(wl[i] * co[i]["fe"] for i in range(nf)), tag + "force of MTS level %d" % l, tol)
        close(np.array(F.mts_forces[l].vir), sum(wl[i] * co[i]["ve"] for i in range(nf)).sum(0), tag + "virial of MTS level %d" % l, tol)
    for i in range(nf):
        for wt in (True, False):
            s = R.w[i] if wt else 1.0
            close(np.array(F.pots_component(i, wt)), s * co[i]["pe"], tag + "potential of component %d, weighted=%s" % (i, wt), tol)
            close(np.array(F.forces_component(i, wt)), s * co[i]["fe"], tag + "force of component %d, weighted=%s" % (i, wt), tol)
            close(np.array(F.virs_component(i, wt)), s * co[i]["ve"], tag + "virial of component %d, weighted=%s" % (i, wt), tol)
            close(np.array(F.pots_component(i, wt, False)), s * co[i]["pots"], tag + "contracted potential of component %d, weighted=%s" % (i, wt), tol)
            close(np.array(F.forces_component(i, wt, False)), s * co[i]["f"], tag + "contracted force of component %d, weighted=%s" % (i, wt), tol)
    # extras
    ex = F.extras
    for k in ("dipole", "scalar", "polar"):
        who = [i for i in range(nf) if R.w[i] != 0 and k in co[i]["ex"]]
        ip = [i for i in who if k in c["forces"][i].get("interpolate_extras", [])]
        if ip and ip == who:
            close(np.asarray(ex[k]), sum(w[i] * np.tensordot(co[i]["C0"].T, co[i]["ex"][k], axes=(1, 0)) for i in ip), tag + "interpolated extra " + k, tol)
        elif who and not ip and all(co[i]["P"] == co[i]["Q"] for i in who):
            close(np.asarray(ex[k], float), co[who[-1]]["ex"][k], tag + "extra " + k, tol)
    for i in range(nf):
        xc = F.extras_component(i)
        for k, v in co[i]["ex"].items():
            close(np.asarray(xc[k], float), v, tag + "extra %s of component %d" % (k, i), tol)
        if co[i]["ex"]:
            for b, raw in enumerate(xc["raw"]):
                d = json.loads(raw)
                close(np.asarray(d["dipole"]), co[i]["ex"]["dipole"][b], tag + "raw extra string of component %d" % i, tol)


def t_forces(case):
    s = sim.make(case)
    try:
        return run(case, s)
    finally:
        for f in s.fflist.values():
            f.stop()


def run(c, s):
    sy = s.syslist[0]
    R = Ref(c)
    saved = None
    P, n3 = R.q.shape
    lab = set()
    first = True
    for op, sd in [["read", 0]] + c["ops"]:
        rng = np.random.RandomState(sd)
        if op == "q":
            R.q = R.q + rng.normal(size=R.q.shape) * 0.1
            sy.beads.q = R.q
        elif op == "q1":
            b = rng.randint(P)
            R.q = R.q.copy()
            R.q[b] += rng.normal(size=n3) * 0.1
            sy.beads.q[b] = R.q[b]
        elif op == "cell":
            R.h = R.h * (1 + 0.02 * rng.normal())
            sy.cell.h = R.h
        elif op == "weight":
            i = rng.randint(len(R.w))
            R.w[i] = float(np.round(rng.normal(), 2)) if rng.randint(3) else 0.0
            sy.forces.mforces[i].weight = R.w[i]
        elif op in ("clone", "transfer"):
            db, dc = sy.beads.clone(), sy.cell.clone()
            df = sy.forces.clone(db, dc)
            for i, w in enumerate(R.w):
                df.mforces[i].weight = w
            q2 = R.q + rng.normal(size=R.q.shape) * 0.1
            db.q = q2
            R2 = Ref(c)
            R2.q, R2.h, R2.w = q2, R.h, R.w
            close(np.array(df.f), sum(R.w[i] * R.mts(i).sum() * R2.comp(i)["fe"] for i in range(len(R.w))), "force of a clone at other positions", 1e-9)
            close(float(df.pot), sum(R.w[i] * R.mts(i).sum() * R2.comp(i)["pe"].sum() for i in range(len(R.w))), "potential of a clone at other positions", 1e-9)
            if op == "transfer" and all(R.w):
                sy.beads.q = q2
                sy.forces.transfer_forces(df)
                R.q = q2
        elif op == "state" and all(R.w):
            st0 = sy.forces.dump_state()
            q0 = R.q
            sy.beads.q = R.q + rng.normal(size=R.q.shape) * 0.1
            np.array(sy.forces.f)
            sy.beads.q = q0
            sy.forces.load_state(st0)
        lab.add(op)
        compare(sy, R, "" if first else "after %s: " % op)
        first = False
    rp = any((f.get("nbeads", 0) or P) != P for f in c["forces"])
    return "%s%s%s" % ("contracted " if rp else "", "open " if R.open else "", "mts" if len(R.mts(0)) > 1 else "") + " ".join(sorted(lab))


if __name__ == "__main__":
    main("C19", [Sub("forces", gen(), t_forces, quick=3000, thorough=30000, shards=8)],
         rule="a case is a set of forcefields and weighted, contracted, multiple-time-step components plus a history of changes; all cases are non-trivial, labels give the features and operations",
         assumptions=["forcefields are the check's own potential through ffdirect; contraction oracle is Fourier truncation; relative tolerance 1e-9"], quick_s=100, thorough_s=900)
