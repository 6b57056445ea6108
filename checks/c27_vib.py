"""C27: dynamical matrices, Hessians and their modes."""
import io, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim, vpes, env
from checks.c11_nmtrans import close
import numpy as np
from hypothesis import strategies as st

F = sim.floats


def hessian(par, cell, q, w=1.0):
    """fourth-order differences of the exact forces"""
    n = len(q)
    H, d = np.zeros((n, n)), 2e-3
    f = lambda x: vpes.evaluate(par, cell, x)[1].flatten()
    for i in range(n):
        e = np.zeros(n)
        e[i] = d
        H[i] = -(8 * (f(q + e) - f(q - e)) - (f(q + 2 * e) - f(q - 2 * e))) / (12 * d)
    return 0.5 * w * (H + H.T)


def external(q, m, rot):
    """projector on translations (and rotations) in mass-weighted coordinates"""
    n = len(m)
    x = q.reshape(n, 3) - (m[:, None] * q.reshape(n, 3)).sum(0) / m.sum()
    V = [np.tile(e, n) for e in np.eye(3)]
    if rot:
        V += [np.cross(e, x).flatten() for e in np.eye(3)]
    B = (np.array(V) * np.sqrt(np.repeat(m, 3))).T
    u, s, _ = np.linalg.svd(B, full_matrices=False)
    u = u[:, s > 1e-7 * s[0]]
    return u @ u.T


@st.composite
def gen(draw):
    mode = draw(st.sampled_from(["fd", "fd", "nmfd", "enmfd"]))
    c = draw(sim.matter(max_atoms=4, max_beads=1, spread=1.5))
    n = len(c["m"])
    par = draw(sim.pes_par())
    c["ffs"] = [dict(name="ffa", par=par)]
    c["forces"] = [dict(ff="ffa", weight=draw(st.sampled_from([1.0, 1.0, 0.6])))]
    c["asr"] = draw(st.sampled_from(["none", "none", "poly", "crystal", "lin"]))
    if c["asr"] == "lin":
        a = np.array(draw(sim.unit_vec(3)))
        t = [draw(F(-2.0, 2.0)) for _ in range(n)]
        if n > 1 and (np.linalg.norm(a) < 0.1 or max(t) - min(t) < 0.3):
            a, t = np.array([0.3, 0.5, -0.4]), list(np.arange(n) * 0.8)
        c["q"] = [np.outer(t, a / max(np.linalg.norm(a), 1e-3)).flatten().tolist()]
    fix, dof = [], []
    if mode == "fd" and c["asr"] == "none":
        k = draw(st.integers(0, 2))
        if k == 1 and n > 1:
            fix = [draw(st.integers(0, n - 1))]
        elif k == 2:
            dof = sorted(draw(st.lists(st.integers(0, 3 * n - 1), min_size=1, max_size=3 * n - 1, unique=True)))
    c.update(vmode=mode, fix=fix, dof=dof, dx=draw(st.sampled_from([1e-3, 5e-4, 4e-3])), shift=draw(st.sampled_from([0.0, 0.0, 1e-6])))
    c["eshift"] = draw(st.sampled_from([1e-6, 1e-5]))
    c["pert"] = draw(sim.unit_vec(9 * n * n))
    c["cut"] = draw(st.integers(0, 3 * n)) if draw(st.booleans()) else None
    c["temp"] = None
    return c


OUT = "<output prefix='sim'><checkpoint filename='chk' stride='1' overwrite='False'/></output>"


def t_phon(c):
    par, w = c["ffs"][0]["par"], c["forces"][0]["weight"]
    q, m = np.array(c["q"][0]), np.array(c["m"])
    n, n3 = len(m), len(q)
    m3 = np.repeat(m, 3)
    H = hessian(par, c["cell"], q, w)
    ism = 1 / np.sqrt(m3)
    D = H * np.outer(ism, ism)
    fixed = sorted(set(c["dof"]) | {3 * i + k for i in c["fix"] for k in range(3)})
    act = [i for i in range(n3) if i not in fixed]
    mo = "<motion mode='vibrations'>%s%s<vibrations mode='%s'><pos_shift>%r</pos_shift><energy_shift>%r</energy_shift><output_shift>%r</output_shift><asr>%s</asr><prefix>vib</prefix>" % (
        "<fixatoms>%r</fixatoms>" % c["fix"] if c["fix"] else "", "<fixatoms_dof>%r</fixatoms_dof>" % c["dof"] if c["dof"] else "", c["vmode"], c["dx"], c["eshift"], c["shift"], c["asr"])
    if c["vmode"] != "fd":
        E = np.array(c["pert"]).reshape(n3, n3)
        E = 0.02 * np.abs(D).max() * (E + E.T)
        mo += sim.tag("dynmat", D + E)
    d = dict(c, motion=mo + "</vibrations></motion>", total_steps=n3 + 10, output=OUT)
    if c["cut"] is None or c["cut"] == 0 or c["vmode"] != "fd":
        s = sim.cli_run(sim.build(d))
    else:  # continued from the checkpoint of some step
        os.mkdir("a")
        os.chdir("a")
        sim.cli_run(sim.build(d))
        fn = "sim.chk_%d" % (c["cut"] - 1)
        require(os.path.exists(fn), "no checkpoint %s", fn)
        xml = open(fn).read()
        os.chdir("..")
        os.mkdir("b")
        os.chdir("b")
        s = sim.cli_run(xml)
    require(s.exit_status == "success", "the calculation ends with status %r", s.exit_status)
    get = lambda x: np.loadtxt("sim.vib" + x, ndmin=1)
    A = lambda M: M[np.ix_(act, act)]
    # size of the error of central differences: third derivatives times the square of the displacement
    ex = c["dx"] if c["vmode"] != "enmfd" else 100 * c["dx"]
    err = 2e-7 * np.abs(H).max() + w * (6 * par["c"] + abs(par["g"]) + 20 * n * par.get("A", 0.0) / par.get("s", 1.0)**4) * (ex**2 if c["vmode"] != "enmfd" else 0.0)
    if c["vmode"] == "enmfd":
        lam = np.abs(np.linalg.eigvalsh(D + E))
        dm = min(ex, np.sqrt(2 * c["eshift"] / max(lam.min(), 1e-12)) / np.sqrt(m.min()))
        err += w * (6 * par["c"] + abs(par["g"]) + 20 * n * par.get("A", 0.0) / par.get("s", 1.0)**4) * dm**2
    mr = m3.max() / m3.min() if c["vmode"] != "fd" or c["asr"] != "none" else 1.0
    if err * mr * n3 > 0.2 * np.abs(H).max():
        return None
    if c["asr"] != "none":
        P = np.eye(n3) - external(q, m, c["asr"] != "crystal")
        D = P @ D @ P
    D = D + np.eye(n3) * c["shift"]
    H = D / np.outer(ism, ism)
    etol = err * mr * (n3 if mr != 1.0 else 1.0)
    h = get(".hess").reshape(len(act), len(act))
    require(np.abs(h - A(H)).max() <= etol, "%s asr=%s: Hessian is wrong by %r, differences should give %r", c["vmode"], c["asr"], np.abs(h - A(H)).max(), etol)
    dy = get(".dynmat").reshape(len(act), len(act))
    ia = ism[act]
    close(dy / np.outer(ia, ia), h, "dynamical matrix against Hessian", 1e-9)
    ev, vec, mod = get(".eigval"), get(".eigvec").reshape(len(act), -1), get(".mode").reshape(len(act), -1)
    sc = np.abs(dy).max() + 1e-300
    require(len(ev) == len(act), "%d eigenvalues for %d coordinates", len(ev), len(act))
    close(vec.T @ vec, np.eye(len(act)), "orthonormality of the eigenvectors", 1e-9)
    require(np.abs(dy @ vec - vec * ev).max() <= 1e-9 * sc, "eigenvectors and eigenvalues do not belong to the dynamical matrix")
    x = vec * ia[:, None]
    close(mod, x / np.linalg.norm(x, axis=0), "modes in cartesian space", 1e-9)
    full = get("_full.hess").reshape(n3, n3)
    close(full[np.ix_(act, act)], h, "active block of the full Hessian", 1e-9)
    if fixed:
        if not c.get("strict"):  # known finding C27-full-hess: half of the true value between fixed and active coordinates
            x = full[np.ix_(fixed, act)]
            require(not x.any() or np.abs(x - 0.5 * H[np.ix_(fixed, act)]).max() <= etol, "the full Hessian has wrong entries between fixed and active coordinates")
            y = full[np.ix_(act, fixed)].T
            require(np.abs(x - y).max() <= 1e-9 * np.abs(full).max(), "the full Hessian is not symmetric")
            full[np.ix_(fixed, act)] = full[np.ix_(act, fixed)] = 0.0
        d = full - np.diag(np.diag(full) * (np.isin(np.arange(n3), fixed)))
        require(not d[fixed].any() and not d[:, fixed].any(), "the full Hessian has entries for fixed coordinates: %r", np.abs(full[fixed]).max())
    require(np.array_equal(np.array(s.syslist[0].beads.q[0]), q), "the structure has moved")
    return "%s %s%s%s%s" % (c["vmode"], c["asr"], " fixed" if fixed else "", " shift" if c["shift"] else "", " continued" if c["cut"] and c["vmode"] == "fd" else "")


# ---- Hessian of the instanton code: resumed after a crash ---------------------------------------
@st.composite
def gen_h(draw):
    c = draw(sim.matter(max_atoms=2, max_beads=3))
    c["par"] = draw(sim.pes_par())
    n3 = len(c["q"][0])
    c["fixd"] = sorted(draw(st.lists(st.integers(0, n3 - 1), max_size=n3 - 1, unique=True))) if draw(st.booleans()) else []
    c["stop"] = draw(st.integers(0, 2 * n3))
    c["torn"] = draw(st.sampled_from([None, 0.0, 0.1, 0.5, 0.9, 0.99, 1, 2, 3, 30]))
    return c


class Crash(Exception):
    pass


def t_resume(c):
    from ipi.utils.hesstools import get_hessian
    q = np.array(c["q"])
    P, n3 = q.shape

    def mapper(stop):
        k = [0]

        def gm(x, new_disc=True):
            k[0] += 1
            if k[0] == stop:
                raise Crash()
            r = [vpes.evaluate(c["par"], c["cell"], y) for y in x]
            return sum(y[0] for y in r), -np.array([y[1].flatten() for y in r])

        gm.k = k
        return gm

    os.mkdir("ref")
    os.chdir("ref")
    want = np.array(get_hessian(mapper(0), q, n3 // 3, P, c["fixd"]))
    require(not [f for f in os.listdir(".") if ".tmp" in f], "temporary files are left behind")
    H = np.hstack([hessian(c["par"], c["cell"], x) for x in q])
    H[c["fixd"]] = 0.0
    close(want, H, "Hessian from finite differences", 1e-4)
    os.chdir("..")
    crashed, torn, save = True, False, np.savetxt

    def half(f, X, *a, **k):  # the program is killed while it writes one of its temporary files
        nonlocal torn
        half.n += 1
        if half.n <= c["stop"] // 2:
            return save(f, X, *a, **k)
        b = io.StringIO()
        save(b, X, *a, **k)
        b = b.getvalue()
        b = b[: len(b) - c["torn"]] if c["torn"] >= 1 else b[: int(len(b) * c["torn"])]
        torn = True
        if hasattr(f, "write"):
            f.write(b)
            f.flush()
        else:
            open(f, "w").write(b)
        raise Crash()

    half.n = 0
    try:
        if c["torn"] is not None:
            np.savetxt = half
        get_hessian(mapper(0 if c["torn"] is not None else c["stop"] + 1), q, n3 // 3, P, c["fixd"])
        crashed = False
    except Crash:
        pass
    finally:
        np.savetxt = save
    tmp = sorted([f for f in os.listdir(".") if f.endswith(".tmp")], key=lambda f: int(f.split("_")[1][:-4]))
    g = mapper(0)
    got = np.array(get_hessian(g, q, n3 // 3, P, c["fixd"]))
    close(got, want, "Hessian after a crash at evaluation %d%s" % (c["stop"] + 1, " with a torn file" if torn else ""), 1e-10)
    require(not [f for f in os.listdir(".") if ".tmp" in f], "temporary files are left behind")
    if len(tmp) > 1:
        require(g.k[0] < 2 * (n3 - len(c["fixd"])) + 1, "nothing of the earlier work is used")
    return "%s%s" % ("torn" if torn else "crash" if tmp else "start", " fixed" if c["fixd"] else "") if crashed else None


# ---- removal of external modes --------------------------------------------------------------------
@st.composite
def gen_c(draw):
    c = draw(sim.matter(max_atoms=4, max_beads=3, min_atoms=2))
    N = np.array(c["q"]).size
    c["h"] = draw(sim.unit_vec(N * N)) if N <= 12 else None
    c["hs"] = draw(st.integers(0, 10**6))
    c["asr"] = draw(st.sampled_from(["none", "poly", "crystal"]))
    return c


def t_clean(c):
    from ipi.utils.hesstools import clean_hessian, get_dynmat
    q, m = np.array(c["q"]), np.array(c["m"])
    P, n3 = q.shape
    N = q.size
    h = np.random.RandomState(c["hs"]).randn(N, N) if c["h"] is None else np.array(c["h"]).reshape(N, N)
    h = 0.1 * (h + h.T)
    m3 = np.tile(np.repeat(m, 3), (P, 1))
    mm = np.tile(m, P)
    x = q.reshape(-1, 3) - (mm[:, None] * q.reshape(-1, 3)).sum(0) / mm.sum()
    moi = (mm[:, None, None] * ((x**2).sum(1)[:, None, None] * np.eye(3) - x[:, :, None] * x[:, None, :])).sum(0)
    iv = np.linalg.eigvalsh(moi)
    if c["asr"] == "poly" and (iv[0] < 1e-2 * iv[2] or np.diff(iv).min() < 1e-3 * iv[2]):
        return None  # (nearly) linear or symmetric tops: see DESIGN.md
    ism = m3.flatten()**-0.5
    D = h * np.outer(ism, ism)
    if c["asr"] != "none":
        Pr = np.eye(N) - external(q.flatten(), mm, c["asr"] == "poly")
        D = Pr @ D @ Pr
    lam = np.linalg.eigvalsh(D)
    cm = np.sign(lam) * np.sqrt(np.abs(lam)) / (2 * np.pi * 3e10 * 2.4188843e-17)
    keep = np.abs(cm) >= 0.01
    if ((np.abs(cm) > 1e-3) & (np.abs(cm) < 8.0)).any():
        return None
    d, w, I = clean_hessian(h, q, n3 // 3, P, m, m3, c["asr"], mofi=True)
    require(len(d) == keep.sum(), "asr=%s: %d eigenvalues are left, %d modes are not external", c["asr"], len(d), keep.sum())
    if not len(d):
        return None
    close(d / np.abs(lam).max(), lam[keep] / np.abs(lam).max(), "eigenvalues without external modes", 1e-9)
    require(w.shape == (N, len(d)), "shape of the eigenvectors")
    close(w.T @ w, np.eye(len(d)), "orthonormality", 1e-9)
    require(np.abs(D @ w - w * d).max() <= 1e-9 * np.abs(D).max(), "eigenvectors do not belong to the eigenvalues")
    if c["asr"] == "poly":
        require(abs(I / np.linalg.det(moi) - 1) < 1e-8, "product of the moments of inertia")
    if P:
        dm = get_dynmat(h[:n3], m3, P)
        close(dm / np.abs(dm).max(), (h * np.outer(ism, ism))[:n3] / np.abs(dm).max(), "mass weighting", 1e-12)
    return "%s P=%d" % (c["asr"], P)


SUBS = [Sub("phonons", gen(), t_phon, 300, 6000, shards=6), Sub("resume", gen_h(), t_resume, 250, 5000, shards=1), Sub("clean", gen_c(), t_clean, 400, 8000, shards=1)]
RULE = "a case is non-trivial when a Hessian is built and compared; for resumed calculations, when the crash falls into the calculation"

if __name__ == "__main__":
    main("C27", SUBS, rule=RULE, assumptions=[], quick_s=70, thorough_s=1200)
