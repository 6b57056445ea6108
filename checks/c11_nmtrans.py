"""C11: normal-mode transforms and ring polymer contraction are exact linear maps."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np


def lap(P, opened):
    """spring matrix of a ring (or chain) of P beads"""
    K = np.zeros((P, P))
    for j in range(P if not opened else P - 1):
        k = (j + 1) % P
        K[j, j] += 1
        K[k, k] += 1
        K[j, k] -= 1
        K[k, j] -= 1
    return K


@st.composite
def gen_modes(draw):
    n = draw(st.integers(1, 4))
    return dict(P=draw(st.one_of(st.integers(1, 12), st.integers(13, 40))), n=n, method=draw(st.sampled_from(["fft", "matrix"])),
                open=draw(st.lists(st.integers(0, n - 1), unique=True, max_size=n)) if draw(st.booleans()) else [], seed=draw(st.integers(0, 10**6)))


def mk(case, method):
    from ipi.utils import nmtransform as nt
    if case["P"] == 1:
        return nt.nm_noop(nbeads=1)
    if method == "fft":
        return nt.nm_fft(nbeads=case["P"], natoms=case["n"], open_paths=case["open"])
    return nt.nm_trans(nbeads=case["P"], open_paths=case["open"])


def close(a, b, what, tol=1e-11):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, "%s: shape %r against %r", what, a.shape, b.shape)
    s = max(1.0, np.abs(b).max() if b.size else 1.0)
    d = np.abs(a - b).max() / s if b.size else 0.0
    require(d <= tol, "%s: differs by %.3g (relative)", what, d)


def t_modes(case):
    from ipi.utils import nmtransform as nt
    P, n, op = case["P"], case["n"], case["open"]
    if P == 2 and op and case["method"] == "fft":
        pass
    rng = np.random.RandomState(case["seed"])
    t = mk(case, case["method"])
    o = mk(case, "matrix" if case["method"] == "fft" else "fft")
    q = rng.normal(size=(P, 3 * n))
    q2 = rng.normal(size=(P, 3 * n)) * 3
    q0 = q.copy()
    x = t.b2nm(q)
    xc = np.array(x)
    y = t.b2nm(q2)
    close(q, q0, "b2nm changed its argument", 0)
    close(x, xc, "result of b2nm changed by a later call", 0)
    back = t.nm2b(x)
    bc = np.array(back)
    close(back, q, "nm2b(b2nm(q)) against q")
    close(x, xc, "nm2b changed its argument", 0)
    back2 = t.nm2b(np.array(y))
    close(back, bc, "result of nm2b changed by a later call", 0)
    close(back2, q2, "nm2b(b2nm(q)) against q, second")
    close(t.b2nm(q * 2.5 - q2 * 0.5), 2.5 * x - 0.5 * np.array(y), "linearity")
    close(np.array(x), o.b2nm(q), "%s against the other transform" % case["method"])
    close((x**2).sum(0), (q**2).sum(0), "norm per coordinate")
    close(x[0], q.sum(0) / np.sqrt(P), "first mode is the scaled centroid")
    # energies of the springs
    w2c, w2o = np.asarray(nt.nm_eva(P)) ** 2, np.asarray(nt.o_nm_eva(P)) ** 2
    for a in range(n):
        isop = a in op
        K = lap(P, isop)
        w2 = w2o if isop else w2c
        for k in range(3 * a, 3 * a + 3):
            close(w2 @ (np.array(x)[:, k] ** 2), q[:, k] @ K @ q[:, k] if P > 1 else 0.0, "spring energy of %s path, atom %d" % ("open" if isop else "closed", a), 1e-10)
            close(t.nm2b(w2[:, None] * x)[:, k], K @ q[:, k] if P > 1 else 0 * q[:, k], "spring force of %s path" % ("open" if isop else "closed"), 1e-10)
    return "%s%s%s" % (case["method"], "-open" if op else "", "-1" if P == 1 else "-2" if P == 2 else "-even" if P % 2 == 0 else "-odd")


@st.composite
def gen_rs(draw):
    n = draw(st.integers(1, 3))
    return dict(P=draw(st.integers(1, 24)), Q=draw(st.integers(1, 24)), n=n, open=draw(st.lists(st.integers(0, n - 1), unique=True, max_size=n)) if draw(st.booleans()) else [], seed=draw(st.integers(0, 10**6)))


def wave(P, k, ph, opened):
    j = np.arange(P)
    return np.cos(np.pi * (j + 0.5) * k / P) if opened else np.cos(2 * np.pi * j * k / P + ph)


def t_rs(case):
    from ipi.utils import nmtransform as nt
    P, Q, n, op = case["P"], case["Q"], case["n"], case["open"]
    rng = np.random.RandomState(case["seed"])
    r = nt.nm_rescale(P, Q, np.array(op, int)) if op else nt.nm_rescale(P, Q)
    q, f = rng.normal(size=(P, 3 * n)), rng.normal(size=(Q, 3 * n))
    q0, f0 = q.copy(), f.copy()
    c, e = np.array(r.b1tob2(q)), np.array(r.b2tob1(f))
    close(q, q0, "b1tob2 changed its argument", 0)
    close(f, f0, "b2tob1 changed its argument", 0)
    require(c.shape == (Q, 3 * n) and e.shape == (P, 3 * n), "shapes %r %r", c.shape, e.shape)
    z = r.b1tob2(q)
    z += 1.0
    close(q, q0, "the contracted path shares memory with the path", 0)
    close(c.mean(0), q.mean(0), "centroid in contraction")
    close(e.mean(0), f.mean(0), "centroid in expansion")
    # the two directions are adjoint, per coordinate: sum_j f_j c_j / Q = sum_i e_i q_i / P
    close((f * c).sum(0) / Q, (e * q).sum(0) / P, "expansion of forces against contraction of positions (gradient of the contracted potential)")
    if P >= Q:
        close(r.b1tob2(e), f, "contract(expand(f))")
    else:
        close(r.b2tob1(c), q, "contract(expand(q))")
    # smooth paths are sampled, not distorted
    L = min(P, Q)
    lab = "same" if P == Q else "down" if P > Q else "up"
    for a in range(n):
        isop = a in op
        kmax = L - 1 if isop else (L - 1) // 2
        k = int(rng.randint(0, kmax + 1))
        ph = 0.0 if isop else rng.uniform(0, 6)
        wq, wf = np.zeros((P, 3 * n)), np.zeros((Q, 3 * n))
        wq[:, 3 * a] = wave(P, k, ph, isop)
        wf[:, 3 * a] = wave(Q, k, ph, isop)
        # the bead grid of a closed path starts at bead 0; of an open path it is centred
        close(r.b1tob2(wq)[:, 3 * a], wf[:, 3 * a], "harmonic %d of %d beads taken to %d beads, %s path" % (k, P, Q, "open" if isop else "closed"))
        close(r.b2tob1(wf)[:, 3 * a], wq[:, 3 * a], "harmonic %d of %d beads taken back to %d beads, %s path" % (k, Q, P, "open" if isop else "closed"))
    # per-bead numbers (potentials) and tensors (virials): the mean is conserved
    v = rng.normal(size=Q)
    close(np.asarray(r.b2tob1(v)).mean(), v.mean(), "mean potential in expansion")
    w = rng.normal(size=P)
    close(np.asarray(r.b1tob2(w)).mean(), w.mean(), "mean scalar in contraction")
    w3 = rng.normal(size=(Q, 3, 3))
    close(np.asarray(r.b2tob1(w3)).mean(0), w3.mean(0), "mean virial in expansion")
    return lab + ("-open" if op else "")


if __name__ == "__main__":
    main("C11", [Sub("modes", gen_modes(), t_modes, quick=4000, thorough=60000, shards=4), Sub("rescale", gen_rs(), t_rs, quick=4000, thorough=60000, shards=4)],
         rule="every case (a bead count, set of open paths, transform and random coordinates) is non-trivial; labels give parity, direction and open/closed",
         assumptions=["double precision transforms; the single precision FFT option is not covered here"], quick_s=60, thorough_s=600)
