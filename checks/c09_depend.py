"""C09: quantities read through the dependency machinery are never stale, and are recomputed only when needed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np
import threading
from vlib import sim

VAL = st.integers(-20, 20).map(lambda i: i / 4.0)


@st.composite
def graph(draw):
    nodes = []
    n = draw(st.integers(2, 9))
    for i in range(n):
        kinds = ["leafv", "leafa", "sync"] if i < 2 else ["leafv", "leafa", "sync", "comp", "comp", "comp", "pipe"]
        k = draw(st.sampled_from(kinds))
        d = dict(kind=k)
        if k == "leafa":
            d["shape"] = draw(st.sampled_from([[3], [2, 3], [4, 2]]))
        elif k == "sync":
            d["shape"] = draw(st.sampled_from([[3], [2, 3], [4, 2]]))
            d["n"] = draw(st.integers(2, 3))
            d["views"] = draw(st.booleans())
        elif k == "comp":
            d["deps"] = draw(st.lists(st.integers(0, i - 1), min_size=1, max_size=3, unique=True))
            d["shape"] = draw(st.sampled_from([None, None, [3], [2, 2]]))
        elif k == "pipe":
            d["from"] = draw(st.integers(0, i - 1))
            if nodes[d["from"]]["kind"] == "sync":
                k = d["kind"] = "comp"
                d["deps"], d["shape"] = [d.pop("from")], None
        nodes.append(d)
    ops = []
    for _ in range(draw(st.integers(1, 25))):
        i = draw(st.integers(0, n - 1))
        k = draw(st.sampled_from(["read", "read", "set", "set", "item", "iadd", "view", "setcomp", "twice", "imulitem"]))
        ops.append([k, i, draw(st.integers(0, 2)), draw(VAL), draw(st.integers(0, 5))])
    return dict(nodes=nodes, ops=ops, threads=draw(st.integers(0, 7)) == 7)


def mats(k, m):
    """invertible matrices relating peer k to peer 0 (along the first axis)"""
    if k == 0:
        return np.eye(m)
    r = np.random.RandomState(10 * k + m)
    a = r.randint(-1, 2, (m, m)) * 0.5
    return np.eye(m) * 2 + np.tril(a, -1)


class Model:
    def __init__(self, nodes):
        self.nodes = nodes
        self.base = {}
        for i, d in enumerate(nodes):
            if d["kind"] == "leafv":
                self.base[i] = 1.0 + i
            elif d["kind"] in ("leafa", "sync"):
                self.base[i] = np.arange(np.prod(d["shape"])).reshape(d["shape"]) * 0.5 + i

    def get(self, i, peer=0):
        d = self.nodes[i]
        if d["kind"] == "leafv":
            return self.base[i]
        if d["kind"] == "leafa":
            return self.base[i].copy()
        if d["kind"] == "sync":
            return mats(peer % d["n"], d["shape"][0]) @ self.base[i]
        if d["kind"] == "pipe":
            return self.get(d["from"])
        return comp(i, d, [self.get(j, i) for j in d["deps"]])

    def put(self, i, peer, v):
        d = self.nodes[i]
        if d["kind"] == "sync":
            self.base[i] = np.linalg.solve(mats(peer % d["n"], d["shape"][0]), v)
        else:
            self.base[i] = v


def comp(i, d, vals):
    s = 0.0
    for k, v in enumerate(vals):
        v = np.asarray(v, float)
        s += (k + 1) * float((v * (1 + np.arange(v.size).reshape(v.shape))).sum())
    s = np.tanh(s / 100.0) * 10 + 0.01 * s
    if d["shape"] is None:
        return s
    return s * (1 + np.arange(np.prod(d["shape"])).reshape(d["shape"])) + i


class Real:
    """The same graph built with the machinery of the code under test."""

    def __init__(self, nodes):
        from ipi.utils.depend import depend_value, depend_array, synchronizer, dpipe, dproperties

        class Box:
            pass
        self.nodes, self.box, self.calls = nodes, Box(), {}
        names = []
        m = Model(nodes)
        b = self.box
        for i, d in enumerate(nodes):
            nm = "x%d" % i
            if d["kind"] == "leafv":
                setattr(b, "_" + nm, depend_value(name=nm, value=m.base[i]))
                names.append(nm)
            elif d["kind"] == "leafa":
                setattr(b, "_" + nm, depend_array(name=nm, value=m.base[i].copy()))
                names.append(nm)
            elif d["kind"] == "sync":
                sy = synchronizer()
                for k in reversed(range(d["n"])):
                    pn = nm + "_%d" % k
                    f = {}
                    for l in range(d["n"]):
                        if l != k:
                            T = mats(k, d["shape"][0]) @ np.linalg.inv(mats(l, d["shape"][0]))
                            f[nm + "_%d" % l] = (lambda T=T, l=l, nm=nm: T @ np.asarray(getattr(b, nm + "_%d" % l)))
                    setattr(b, "_" + pn, depend_array(name=pn, value=mats(k, d["shape"][0]) @ m.base[i], func=f, synchro=sy))
                    names.append(pn)
                dproperties(Box, [nm + "_%d" % k for k in range(d["n"])])
                setattr(b, nm + "_0", m.base[i])
                if d["views"]:  # the way single beads look at the arrays of all beads
                    for k in range(d["n"]):
                        for row in range(d["shape"][0]):
                            if len(d["shape"]) == 2:
                                vn = nm + "_%d_r%d" % (k, row)
                                setattr(b, "_" + vn, getattr(b, "_" + nm + "_%d" % k)[row])
                                names.append(vn)
            elif d["kind"] == "pipe":
                src = getattr(b, "_x%d" % d["from"])
                v = m.get(i)
                if np.ndim(v) == 0:
                    setattr(b, "_" + nm, depend_value(name=nm, value=0.0))
                else:
                    setattr(b, "_" + nm, depend_array(name=nm, value=np.zeros(np.shape(v))))
                dpipe(src, getattr(b, "_" + nm))
                names.append(nm)
            else:
                deps = [getattr(b, "_x%d" % j + ("_0" if nodes[j]["kind"] == "sync" else "")) for j in d["deps"]]
                # dependants of synchronised quantities may hang on any of the peers
                deps = [getattr(b, "_x%d_%d" % (j, i % nodes[j]["n"])) if nodes[j]["kind"] == "sync" else dd for j, dd in zip(d["deps"], deps)]
                self.calls[i] = 0

                def f(i=i, d=d):
                    self.calls[i] += 1
                    return comp(i, d, [np.array(self.read(j, i)) for j in d["deps"]])
                if d["shape"] is None:
                    setattr(b, "_" + nm, depend_value(name=nm, func=f, dependencies=deps))
                else:
                    setattr(b, "_" + nm, depend_array(name=nm, value=np.zeros(d["shape"]), func=f, dependencies=deps))
                names.append(nm)
            dproperties(Box, [x for x in names])

    def name(self, i, peer=0):
        d = self.nodes[i]
        return "x%d" % i + ("_%d" % (peer % d["n"]) if d["kind"] == "sync" else "")

    def read(self, i, peer=0):
        return getattr(self.box, self.name(i, peer))


def chk(real, model, i, peer, what):
    got, want = np.array(real.read(i, peer)), np.array(model.get(i, peer))
    require(got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-9),
            "%s: reading quantity %d (peer %d) gave %r, but the values last set imply %r", what, i, peer, got, want)
    if got.ndim:
        got += 1e3      # a copy taken by the user is the user's own: a later read shows if it was not


def t_graph(case):
    nodes = case["nodes"]
    model, real = Model(nodes), Real(nodes)
    writes = reads_after = 0
    for s, (k, i, peer, v, idx) in enumerate(case["ops"]):
        d = nodes[i]
        what = "after step %d (%s on %d)" % (s, k, i)
        computed = d["kind"] in ("comp", "pipe")
        nm = real.name(i, peer)
        cur = model.get(i, peer)
        if k == "read":
            if case["threads"] and writes:
                out = []
                ts = [threading.Thread(target=lambda: out.append(np.array(real.read(i, peer)))) for _ in range(4)]
                [t.start() for t in ts]
                [t.join() for t in ts]
                for o in out:
                    require(np.allclose(o, model.get(i, peer), rtol=1e-9, atol=1e-9), "%s: one of several threads read %r instead of %r", what, o, model.get(i, peer))
            chk(real, model, i, peer, what)
            reads_after += writes > 0
        elif k == "twice":
            chk(real, model, i, peer, what)
            c0 = dict(real.calls)
            chk(real, model, i, peer, what)
            require(c0 == real.calls, "%s: a second reading without any change recomputed %r", what, [j for j in c0 if c0[j] != real.calls[j]])
        elif k == "setcomp":
            if computed:
                try:
                    setattr(real.box, nm, 3.0)
                except NameError:
                    pass
                else:
                    raise Violation("%s: assigning to a computed quantity was accepted" % what)
                return None if not writes else "refused"
        elif computed:
            chk(real, model, i, peer, what)
        elif d["kind"] == "leafv":
            setattr(real.box, nm, v)
            model.put(i, 0, v)
            writes += 1
        else:
            new = np.array(cur)
            if k == "set":
                new = new * 0 + v + np.arange(new.size).reshape(new.shape)
                setattr(real.box, nm, new.copy())
            elif k == "iadd":
                x = getattr(real.box, nm)
                x = x + v
                setattr(real.box, nm, x)
                new = new + v
            elif k == "item":
                if new.ndim == 1:
                    ix = [idx % 3, slice(1, None), slice(None, 2)][idx % 3]
                else:
                    ix = [(idx % 2, 1), 1, (slice(None), 1), slice(0, 1), (0, slice(1, None)), (slice(None), slice(0, 1))][idx]
                getattr(real.box, nm)[ix] = v
                new[ix] = v
            elif k == "imulitem":
                a = getattr(real.box, nm)
                if new.ndim == 1:
                    a[1:] *= 1.5
                    new[1:] *= 1.5
                elif idx % 2:
                    a[:, 1:] *= 1.5
                    new[:, 1:] *= 1.5
                else:
                    a[1] += v
                    new[1] += v
            elif k == "view":
                row = idx % new.shape[0]
                if d["kind"] == "sync" and d["views"] and new.ndim == 2:
                    vn = nm + "_r%d" % row
                    if idx % 2:
                        setattr(real.box, vn, np.full(new.shape[1], v))
                        new[row] = v
                    else:
                        getattr(real.box, vn)[1:] = v
                        new[row, 1:] = v
                elif new.ndim == 2:
                    w = getattr(real.box, nm).reshape(-1)
                    w[row] = v
                    new.reshape(-1)[row] = v
                else:
                    w = getattr(real.box, nm)[1:]
                    w[0] = v
                    new[1] = v
            model.put(i, peer, new)
            writes += 1
    for i, d in enumerate(nodes):
        for peer in range(d.get("n", 1)):
            chk(real, model, i, peer, "at the end")
    if not writes:
        return None
    return "+".join(sorted(set(d["kind"] for d in nodes)))


# ---- whole simulations: every derived quantity of every component ---------------------------
MUT = ["q", "q", "p", "qnm", "pnm", "bead_q", "bead_p", "q_item", "qnm_item", "cell", "temp", "pext", "dt", "m", "weight", "bweight", "hweight", "bp", "read", "read", "step"]


@st.composite
def live_case(draw):
    c = draw(sim.md_case(thermos=["langevin", "svr", "pile_l", "pile_g", "gle", "nm_gle", "nm_gle_g", "cl", "ffl", "multi"], max_atoms=3, max_beads=4))
    if (c.get("thermostat") or {}).get("mode") == "cl":
        c["thermostat"]["apat"] = 0.0  # the damping does not adapt: it would be internal state
    c["fixcom"] = False  # building the second simulation would apply the constraints to the momenta set by hand
    if c["mode"] == "nvt-cc":
        c["mode"] = "nvt"  # likewise: it removes the centroid momenta when it is set up
    c.pop("fixatoms", None)
    if draw(st.booleans()) and c["mode"] in ("nve", "nvt") and not c.get("nmts"):
        c["ffs"].append(dict(name="ffr", par=draw(sim.pes_par(cellterm=500.0))))
        c["forces"].append(dict(ff="ffr", weight=draw(sim.floats(-0.5, 1.0)), nbeads=draw(st.integers(1, len(c["q"])))))
    if c["mode"] in ("nve", "nvt", "npt") and draw(st.booleans()):
        c["ffs"].append(dict(name="ffz", par=draw(sim.pes_par(cellterm=False))))
        c["bias"] = [dict(ff="ffz")]
        c["bias_weights"] = [draw(sim.floats(0.2, 1.5))]
    if c["mode"] in ("nve", "nvt", "npt") and not c.get("nmts") and draw(st.booleans()):
        c["hamiltonian_weights"] = [draw(sim.floats(0.3, 1.7)) for _ in c["forces"]]
    if len(c["q"]) > 1 and c["mode"] in ("nve", "nvt") and draw(st.integers(0, 3)) == 0:
        nm = c.setdefault("nm", dict(transform="matrix", propagator="exact"))
        if not nm.get("frequencies"):
            nm.update(open_paths=[0], transform="matrix", propagator="exact")
            nm.pop("nmts", None)
    ops = draw(st.lists(st.tuples(st.sampled_from(MUT), st.integers(0, 10**6)), min_size=1, max_size=10))
    return dict(c=c, ops=[list(o) for o in ops], order=draw(st.integers(0, 10**6)))


def derived(root):
    """{path: reader} for every quantity of every component that is computed from others."""
    from ipi.utils.depend import depend_base
    seen, out = set(), {}

    def walk(o, path):
        if id(o) in seen or len(path) > 200:
            return
        seen.add(id(o))
        if isinstance(o, (list, tuple)):
            for i, x in enumerate(o):
                walk(x, "%s[%d]" % (path, i))
            return
        mod = type(o).__module__ or ""
        if not mod.startswith("ipi.engine") or mod.startswith("ipi.engine.forcefields") or mod.startswith("ipi.engine.outputs") or mod.startswith("ipi.engine.properties"):
            return
        for k, v in sorted(getattr(o, "__dict__", {}).items()):
            if isinstance(v, depend_base):
                if v._func is None:
                    continue
                pub = k[1:] if k.startswith("_") and isinstance(getattr(type(o), k[1:], None), property) else None
                out.setdefault("%s.%s" % (path, k.lstrip("_")), (lambda o=o, pub=pub, v=v: getattr(o, pub) if pub else v.get()))
            else:
                walk(v, path + "." + k)
    walk(root, "system")
    return out


def value(f):
    try:
        v = f()
    except (Exception, SystemExit) as e:  # quantities that cannot be evaluated in this set-up (in neither of the two)
        return ("raises", type(e).__name__)
    try:
        return np.array(v, dtype=float)
    except Exception:
        return None


def t_live(case):
    c = case["c"]
    s = sim.make(c)
    sy = s.syslist[0]
    b, nm = sy.beads, sy.nm
    P, n3 = np.shape(b.q)
    temp, pext, dt, mass, w = c["temp"], c.get("pressure"), c["dt"], list(c["m"]), [f.get("weight", 1.0) for f in c["forces"]]
    bw, hw = list(c.get("bias_weights") or []), list(c.get("hamiltonian_weights") or [])
    touched, stepped, bped = set(), False, False
    if case["order"] % 3 == 0:
        for f in derived(sy).values():
            value(f)
    for k, seed in case["ops"]:
        r = np.random.RandomState(seed)
        i = seed % P
        if k == "q":
            b.q = np.array(b.q) + 0.1 * r.uniform(-1, 1, (P, n3))
        elif k == "p":
            b.p = np.array(b.p) * r.uniform(0.5, 1.5)
        elif k == "qnm":
            nm.qnm = np.array(nm.qnm) + 0.1 * r.uniform(-1, 1, (P, n3))
        elif k == "pnm":
            nm.pnm = np.array(nm.pnm) * r.uniform(0.5, 1.5, (P, 1))
        elif k == "bead_q":
            b[i].q = 0.5 * r.uniform(-1, 1, n3)
        elif k == "bead_p":
            b[i].p = r.uniform(-1, 1, n3)
        elif k == "q_item":
            b.q[i, seed % n3] += 0.1
        elif k == "qnm_item":
            nm.qnm[i, seed % n3] += 0.1
        elif k == "cell":
            sy.cell.h = np.array(sy.cell.h) * r.uniform(0.97, 1.03)
        elif k == "temp":
            temp = temp * r.uniform(0.5, 2.0)
            sy.ensemble.temp = temp
        elif k == "pext":
            if pext is None or sy.ensemble.pext is None:
                continue
            pext = pext + r.uniform(-1, 1) * 1e-4
            sy.ensemble.pext = pext
        elif k == "dt":
            dt = dt * r.uniform(0.5, 1.5)
            sy.motion.dt = dt
        elif k == "m":
            mass = [x * r.uniform(0.5, 1.5) for x in mass]
            b.m = np.array(mass)
        elif k == "weight":
            j = seed % len(w)
            w[j] = w[j] * r.uniform(0.5, 1.5)
            sy.forces.mforces[j].weight = w[j]
        elif k == "bp":
            if not c.get("barostat"):
                continue
            sy.motion.barostat.p = np.array(sy.motion.barostat.p) * r.uniform(0.5, 1.5) + (r.uniform(0.5, 1.5) * 0.1 if np.size(sy.motion.barostat.p) == 1 else np.triu(r.uniform(-1, 1, (3, 3))) * 0.1)
            bped = True
        elif k == "bweight":
            if not c.get("bias"):
                continue
            bw = [x * r.uniform(0.5, 1.5) for x in bw]
            sy.ensemble.bweights = np.array(bw)
        elif k == "hweight":
            if not c.get("hamiltonian_weights"):
                continue
            hw = [x * r.uniform(0.5, 1.5) for x in hw]
            sy.ensemble.hweights = np.array(hw)
        elif k == "step":
            s.run(1)
            stepped = True
            continue
        else:
            d = derived(sy)
            for x in sorted(d)[seed % 7:: 7] if seed % 2 else sorted(d):
                value(d[x])
            continue
        touched.add(k)
    d = derived(sy)
    names = sorted(d)
    np.random.RandomState(case["order"]).shuffle(names)
    live = {x: value(d[x]) for x in names}
    # a second simulation, which never knew anything but the final values
    c2 = dict(c)
    c2.update(q=np.array(b.q).tolist(), p=np.array(b.p).tolist(), cell=np.array(sy.cell.h).tolist(), temp=temp, dt=dt, m=mass,
              forces=[dict(f, weight=x) for f, x in zip(c["forces"], w)])
    if pext is not None:
        c2["pressure"] = pext
    if bw:
        c2["bias_weights"] = bw
    if hw:
        c2["hamiltonian_weights"] = hw
    c2["nobeads"] = False
    s2 = sim.make(c2)
    sy2 = s2.syslist[0]
    sy2.ensemble.eens = float(sy.ensemble.eens)
    for a, a2 in zip(*[thermostats(x) for x in (sy, sy2)]):
        a2.ethermo = float(a.ethermo)
    if hasattr(sy.motion, "barostat") and (stepped or bped):
        try:
            sy2.motion.barostat.p = np.array(sy.motion.barostat.p)
        except (AttributeError, NameError, TypeError):
            pass
    d2 = derived(sy2)
    cnt = 0
    for x in names:
        if ".bias.mts_forces" in x:
            continue  # never used: the bias acts as a whole
        if x not in d2 or x.split("barostat.")[-1] in ("kstress", "stress", "kstress_sc", "stress_sc"):
            continue  # helper objects made on first use; four that the code marks as not to be used
        v, v2 = live[x], value(d2[x])
        if isinstance(v, tuple) or isinstance(v2, tuple) or v is None or v2 is None:
            continue
        if case["c"].get("barostat") and stepped and "barostat" in x or stepped and ("ethermo" in x or x.endswith(".econs")):
            continue  # contains accumulated or internal state that the second simulation does not have
        sc = max(1e-12, float(np.max(np.abs(v2))) if v2.size else 1.0)
        require(v.shape == v2.shape and np.allclose(v, v2, rtol=1e-6, atol=1e-8 * sc + 1e-11, equal_nan=True),
                "after %s, %s reads %s, but from the present positions, momenta, cell and parameters it is %s", [o[0] for o in case["ops"]], x, np.array2string(v, threshold=12), np.array2string(v2, threshold=12))
        cnt += 1
    if cnt < 20:
        raise HarnessError("only %d derived quantities found" % cnt)
    return c["mode"] + ":" + "+".join(sorted(touched)) if touched else None


def thermostats(sy):
    t = getattr(sy.motion, "thermostat", None)
    out = [t] if t is not None else []
    for x in out:
        out += [y for y in getattr(x, "_thermos", []) or [] if y is not None] if isinstance(getattr(x, "_thermos", None), list) else []
    return [x for x in out if isinstance(getattr(x, "ethermo", None), float) and type(x).__dict__.get("ethermo") is None and getattr(getattr(x, "_ethermo", None), "_func", 1) is None]


if __name__ == "__main__":
    main("C09", [Sub("graph", graph(), t_graph, quick=8000, thorough=200000, shards=4, tshards=4, cost=0.1),
                 Sub("live", live_case(), t_live, quick=1000, thorough=20000, shards=8, tshards=8)],
         rule="graph: the history contains at least one write before the final readings (distinct by graph+history). live: at least one primitive quantity of a running simulation was changed before all derived quantities were compared.",
         assumptions=["a computed quantity reads only the quantities it declares (random graphs); whole simulations check the declarations themselves",
                      "quantities are read through their owner (property access), not through array handles kept from before a change"],
         quick_s=200)
