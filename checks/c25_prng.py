"""C25: random numbers: reproducible from seed or state, every element drawn, right distributions, independent streams."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim
import numpy as np

OPS = ["u", "g", "gamma", "poisson", "uniform", "integers", "shuffle", "gvec", "gfill"]


@st.composite
def op(draw):
    k = draw(st.sampled_from(OPS))
    if k == "gamma":
        return [k, draw(sim.floats(0.1, 20.0)), draw(sim.floats(0.1, 5.0))]
    if k == "poisson":
        return [k, draw(sim.floats(0.1, 20.0))]
    if k == "uniform":
        a = draw(sim.floats(-5, 5))
        return [k, a, a + draw(sim.floats(0.1, 5.0)), draw(st.integers(1, 4))]
    if k == "integers":
        a = draw(st.integers(-5, 5))
        return [k, a, a + draw(st.integers(1, 20)), draw(st.integers(1, 6))]
    if k == "shuffle":
        return [k, draw(st.integers(0, 12))]
    if k in ("gvec", "gfill"):
        sh = draw(st.one_of(st.integers(1, 1200).map(lambda n: [n]), st.lists(st.integers(1, 14), min_size=2, max_size=3)))
        return [k, sh]
    return [k]


def do(r, o):
    k = o[0]
    if k in ("u", "g"):
        return np.array(getattr(r, k))
    if k == "gamma":
        return np.array(r.gamma(o[1], o[2]))
    if k == "poisson":
        return np.array(r.poisson(o[1]))
    if k == "uniform":
        v = np.array(r.uniform(o[1], o[2], o[3]))
        require(v.shape == (o[3],) and (v >= o[1]).all() and (v < o[2]).all(), "uniform(%r, %r) gave %r", o[1], o[2], v)
        return v
    if k == "integers":
        v = np.array(r.integers(o[1], o[2], o[3]))
        require(v.shape == (o[3],) and (v >= o[1]).all() and (v < o[2]).all(), "integers(%r, %r) gave %r", o[1], o[2], v)
        return v
    if k == "shuffle":
        x = np.arange(o[1])
        r.shuffle(x)
        require(sorted(x.tolist()) == list(range(o[1])), "shuffle gave %r", x)
        return x
    shape = tuple(o[1]) if len(o[1]) > 1 else o[1][0]
    if k == "gvec":
        junk = np.full(shape, 1e30)      # dirty memory, so that elements that were never written show
        del junk
        v = np.array(r.gvec(shape))
    else:
        v = np.full(shape, 1e30)
        r.gfill(v)
    require(v.shape == tuple(o[1]), "shape %r for %r", v.shape, o[1])
    require(np.isfinite(v).all() and np.abs(v).max() < 12, "Gaussian deviates out of range in %s of %r: largest %r", k, o[1], float(np.abs(v).max()))
    require(len(np.unique(v)) == v.size, "repeated values among the Gaussian deviates of one %s(%r): %d of %d differ", k, o[1], len(np.unique(v)), v.size)
    return v


@st.composite
def gen(draw):
    return dict(seed=draw(st.integers(0, 2**31)), nt=draw(st.sampled_from([1, 1, 2, 3, 4])), pre=draw(st.lists(op(), max_size=5)), post=draw(st.lists(op(), min_size=1, max_size=6)),
                other=draw(st.integers(0, 2**31)))


def t_state(case):
    from ipi.utils.prng import Random
    from ipi.inputs.prng import InputRandom
    from ipi.utils.io.inputs.io_xml import xml_parse_string
    c = case
    a, b = Random(seed=c["seed"], n_threads=c["nt"]), Random(seed=c["seed"], n_threads=c["nt"])
    for o in c["pre"]:
        x, y = do(a, o), do(b, o)
        require(np.array_equal(x, y), "two generators with the same seed differ in %r", o)
    st0 = a.state
    # through memory, a fresh object, and the input file
    d = Random(seed=c["other"], n_threads=c["nt"])
    for o in c["pre"][::-1]:
        do(d, o)
    d.state = st0
    e = Random(seed=c["other"], state=st0, n_threads=c["nt"])
    inp = InputRandom()
    inp.store(a)
    i2 = InputRandom()
    i2.parse(xml_parse_string(inp.write("prng")).fields[0][1])
    f = i2.fetch()
    ref = [do(b, o) for o in c["post"]]
    for nm, g in (("the generator itself", a), ("a generator given the saved state", d), ("a generator constructed with the state", e), ("a generator written to and read from the input file", f)):
        for o, r in zip(c["post"], ref):
            x = do(g, o)
            require(np.array_equal(x, r), "%s continues differently in %r: %r, expected %r", nm, o, x.flatten()[:4], r.flatten()[:4])
    # reading the state did not advance it, and setting it does rewind
    a.state = st0
    x = do(a, c["post"][0])
    require(np.array_equal(x, ref[0]), "setting the state back does not rewind the generator (%r)", c["post"][0])
    if c["other"] != c["seed"]:
        g = Random(seed=c["other"], n_threads=c["nt"])
        require(not np.array_equal(do(g, ["gvec", [7]]), do(Random(seed=c["seed"], n_threads=c["nt"]), ["gvec", [7]])), "seeds %d and %d give the same numbers", c["seed"], c["other"])
    return "threads%d" % c["nt"] + (" used-before" if c["pre"] else "")


@st.composite
def gen_dist(draw):
    return dict(seed=draw(st.integers(0, 2**31)), nt=draw(st.sampled_from([1, 2, 3, 4])), kind=draw(st.sampled_from(["gvec", "gfill", "g", "u", "uniform", "gamma", "poisson", "integers", "shuffle"])),
                a=draw(sim.floats(0.2, 8.0)), b=draw(sim.floats(0.2, 4.0)), sh=draw(st.sampled_from([[4000], [40, 100], [10, 20, 20], [1237, 3]])))


def t_dist(case):
    from scipy import stats
    from ipi.utils.prng import Random
    c = case
    r = Random(seed=c["seed"], n_threads=c["nt"])
    N = 3000
    k, a, b = c["kind"], c["a"], c["b"]
    if k in ("gvec", "gfill", "g"):
        x = np.array([r.g for _ in range(N)]) if k == "g" else do(r, [k, c["sh"]]).flatten()
        law = stats.norm()
        # independence between neighbours and between the parts filled by different threads
        h = len(x) // c["nt"]
        for lag in {1, h} - {0}:
            if lag < len(x) // 2 + 1:
                rho = np.corrcoef(x[:-lag], x[lag:])[0, 1] * np.sqrt(len(x) - lag)
                require(abs(rho) < 8, "deviates %d apart are correlated (%.1f standard errors)", lag, rho)
    elif k == "u":
        x, law = np.array([r.u for _ in range(N)]), stats.uniform()
    elif k == "uniform":
        x, law = np.array(r.uniform(-a, b, N)), stats.uniform(-a, a + b)
    elif k == "gamma":
        x, law = np.array([r.gamma(a, b) for _ in range(N)]), stats.gamma(a, scale=b)
    elif k == "poisson":
        x = np.array([r.poisson(a) for _ in range(N)])
        z = (x.mean() - a) / np.sqrt(a / N)
        require(abs(z) < 8, "poisson mean %r for rate %r", x.mean(), a)
        return k
    elif k == "integers":
        n = 2 + int(a * 3)
        x = np.array(r.integers(0, n, N))
        ch = stats.chisquare(np.bincount(x, minlength=n)).pvalue
        require(ch > 1e-13, "integers are not uniform")
        return k
    else:
        n = 6
        cnt = np.zeros((n, n))
        for _ in range(1000):
            x = np.arange(n)
            r.shuffle(x)
            for i, v in enumerate(x):
                cnt[i, v] += 1
        require(np.abs(cnt - 1000 / n).max() < 8 * np.sqrt(1000 / n), "shuffle is not uniform: %r", cnt.tolist())
        return k
    pv = stats.kstest(x, law.cdf).pvalue
    require(pv > 1e-13, "%s with %d threads does not follow its distribution (p=%.2g)", k, c["nt"], pv)
    return "%s threads%d" % (k, c["nt"])


if __name__ == "__main__":
    main("C25", [Sub("state", gen(), t_state, quick=1500, thorough=25000, shards=4), Sub("dist", gen_dist(), t_dist, quick=600, thorough=10000, shards=4)],
         rule="state: a history of draws, then save/restore in four ways and a continuation; dist: 3000-4000 draws against the law (threshold p=1e-13 or 8 standard errors)",
         assumptions=["scipy distributions are the reference"], quick_s=80, thorough_s=900)
