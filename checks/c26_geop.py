"""C26: geometry optimisation."""
import os, sys, signal
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim, vpes
from checks.c11_nmtrans import close
import numpy as np
from hypothesis import strategies as st

F = sim.floats
MODES = ["bfgs", "bfgstrm", "lbfgs", "sd", "cg", "damped_bfgs"]


class Late(BaseException):
    pass


def within(fn, sec, what):
    def ring(*a):
        raise Late()

    signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, sec, 1.0)
    try:
        return fn()
    except Late:
        require(False, "%s does not come to an end", what)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


@st.composite
def gen(draw):
    mode = draw(st.sampled_from(MODES))
    shape = draw(st.sampled_from(["convex", "convex", "pair", "wells", "start"]))
    c = draw(sim.matter(max_atoms=3, max_beads=3))
    n = len(c["m"])
    if shape == "wells":
        par = dict(k=-draw(F(0.01, 0.1)), c=draw(F(0.02, 0.1)), g=0.0)
    elif shape == "pair":
        par = draw(sim.pes_par())
        par["c"] += 2 * abs(par["g"])  # bounded below, with curved valleys
    else:
        par = dict(k=draw(F(0.02, 1.0)), c=draw(st.sampled_from([0.0, 0.0, 0.02])), g=0.0)
    if shape == "start":  # at a stationary point
        c["q"] = np.zeros_like(c["q"]).tolist()
        if draw(st.booleans()):
            par = dict(k=-draw(F(0.01, 0.1)), c=draw(F(0.02, 0.1)), g=0.0)
    c.update(mode=mode, shape=shape)
    c["ffs"] = [dict(name="ffa", par=par)]
    c["forces"] = [dict(ff="ffa", weight=draw(st.sampled_from([1.0, 1.0, 1.7])))]
    fix, dof = [], []
    k = draw(st.integers(0, 3))
    if k == 1 and n > 1:
        fix = [draw(st.integers(0, n - 1))]
    elif k == 2:
        dof = draw(st.lists(st.integers(0, 3 * n - 1), min_size=1, max_size=3 * n - 1, unique=True))
    c["fix"], c["dof"] = fix, sorted(dof)
    c["tol"] = dict(energy=draw(st.sampled_from([1e-9, 1e-7])), force=draw(st.sampled_from([1e-6, 1e-4])), position=draw(st.sampled_from([1e-6, 1e-3])))
    c["big"] = draw(st.sampled_from([0.1, 0.5, 2.0])) if mode in ("bfgstrm", "damped_bfgs") else draw(st.sampled_from([0.1, 1.0, 100.0]))
    m = "<motion mode='minimize'><optimizer mode='%s' ><exit_on_convergence>False</exit_on_convergence><tolerances><energy>%r</energy><force>%r</force><position>%r</position></tolerances>" % (mode, c["tol"]["energy"], c["tol"]["force"], c["tol"]["position"])
    if mode not in ("sd", "cg"):
        m += "<biggest_step>%r</biggest_step>" % c["big"]
    if mode == "lbfgs":
        c["corr"] = draw(st.integers(1, 6))
        m += "<corrections_lbfgs>%d</corrections_lbfgs><scale_lbfgs>%d</scale_lbfgs>" % (c["corr"], draw(st.sampled_from([0, 1, 2])))
    if mode in ("sd", "cg"):
        m += "<ls_options><tolerance>%r</tolerance><iter>100</iter><step>%r</step><adaptive>%r</adaptive></ls_options>" % (draw(st.sampled_from([1e-4, 1e-1])), draw(st.sampled_from([1e-3, 1e-2])), draw(st.sampled_from([0.0, 0.5, 1.0])))
    m += "</optimizer>"
    if fix:
        m += "<fixatoms>%r</fixatoms>" % fix
    if dof:
        m += "<fixatoms_dof>%r</fixatoms_dof>" % c["dof"]
    c["motion"] = m + "</motion>"
    c["temp"] = None
    c["seed"] = draw(st.integers(1, 10**6))
    return c


BUDGET = dict(bfgs=120, bfgstrm=120, lbfgs=200, sd=150, cg=150, damped_bfgs=250)


def t_opt(c):
    par, w = c["ffs"][0]["par"], c["forces"][0]["weight"]
    n = len(c["m"])
    free = np.ones(3 * n, bool)
    for i in c["fix"]:
        free[3 * i:3 * i + 3] = False
    free[c["dof"]] = False
    if not free.any():
        return None

    def ref(q):
        r = [vpes.evaluate(par, c["cell"], x) for x in q]
        return w * sum(x[0] for x in r), w * np.array([x[1].flatten() for x in r])

    s = within(lambda: sim.make(c), 30, "setting up the optimisation")
    sy = s.syslist[0]
    q0 = q = np.array(sy.beads.q)
    u, f = ref(q)
    tol, opt = c["tol"], sy.motion.optimizer
    conv, moved, us = None, 0, []
    fstart = np.abs(f[:, free]).max()
    for k in range(BUDGET[c["mode"]] + 4):
        within(lambda: s.run(1), 30, "one optimisation step of %s" % c["mode"])
        qn = np.array(sy.beads.q)
        require(np.isfinite(qn).all(), "%s: the positions are not finite after step %d", c["mode"], k)
        require(np.array_equal(qn[:, ~free], q0[:, ~free]), "%s: a fixed coordinate has moved in step %d", c["mode"], k)
        un, fn = ref(qn)
        close(float(sy.forces.pot), un, "%s: the potential after step %d" % (c["mode"], k), 1e-10)
        close(np.array(sy.forces.f), fn, "%s: the forces after step %d" % (c["mode"], k), 1e-8)
        dx = np.abs(qn - q).max()
        if conv is not None:
            require(dx == 0.0, "%s: positions change by %r after convergence was declared", c["mode"], dx)
            if k > conv + 2:
                break
            continue
        moved += dx > 1e-3
        ln = np.linalg.norm(qn - q)
        if c["mode"] != "damped_bfgs":
            slack = 1e-10 * max(1.0, abs(u)) + (10.0 * ln**3 if c["mode"] == "bfgstrm" and ln < 0.0501 else 0.0)
            require(un <= u + slack, "%s: the energy rises from %r to %r in step %d", c["mode"], u, un, k)
        if c["mode"] == "damped_bfgs":
            require(np.linalg.norm((qn - q).reshape(-1, 3), axis=1).max() <= c["big"] * (1 + 1e-9), "damped_bfgs: an atom moves by more than the biggest step")
        fmax = np.abs(fn[:, free]).max()
        crit = [(abs(un - u) / n, tol["energy"]), (fmax, tol["force"]), (dx, tol["position"])]
        if opt.converged:
            for (a, b), nm in zip(crit, ("energy change per atom", "largest force", "displacement")):
                require(a <= b * (1 + 1e-6) + 1e-13, "%s: converged at step %d with %s %r above the tolerance %r", c["mode"], k, nm, a, b)
            conv = k
        else:
            require(any(a > b * (1 - 1e-6) - 1e-13 for a, b in crit), "%s: all criteria are met at step %d (%r) but convergence is not declared", c["mode"], k, crit)
        q, u, f = qn, un, fn
        us.append(u)
        if len(us) > 40 and np.abs(f[:, free]).max() > 1e-3 and c["mode"] != "damped_bfgs" and not (c["mode"] == "bfgstrm" and c["shape"] in ("wells", "start")):
            require(us[-41] - u > 1e-9, "%s: the energy stays at %r for 40 steps although there are forces up to %r", c["mode"], u, np.abs(f[:, free]).max())
    if c["shape"] == "convex" and c.get("corr", 6) >= 4:
        require(conv is not None, "%s does not converge on a convex potential in %d steps: largest force %r (initially %r)", c["mode"], BUDGET[c["mode"]], np.abs(f[:, free]).max(), fstart)
    if not moved:
        return "%s %s at rest" % (c["mode"], c["shape"])
    return "%s %s P=%s %s%s" % (c["mode"], c["shape"], "1" if len(q0) == 1 else ">1", "fixed " if not free.all() else "", "converged" if conv is not None else "improving")


OUT = """<output prefix='sim'>
<properties filename='out' stride='1'>[step, potential{atomic_unit}]</properties>
<checkpoint filename='chk' stride='1000' overwrite='True'/>
</output>
"""


def t_exit(c):
    """the program ends by itself when it has converged, and leaves the converged structure behind"""
    if c["shape"] != "convex" or c.get("corr", 6) < 4:
        return None
    par, w = c["ffs"][0]["par"], c["forces"][0]["weight"]
    n = len(c["m"])
    free = np.ones(3 * n, bool)
    for i in c["fix"]:
        free[3 * i:3 * i + 3] = False
    free[c["dof"]] = False
    if not free.any():
        return None
    total = 400
    d = dict(c, motion=c["motion"].replace("<exit_on_convergence>False", "<exit_on_convergence>True"), total_steps=total, output=OUT)
    s = within(lambda: sim.cli_run(sim.build(d)), 120, "the optimisation")
    require(s.exit_status == "success", "the run ends with status %r", s.exit_status)
    require(s.step < total, "the run goes on to the last step")
    for src in ("memory", "RESTART"):
        q = np.array(s.syslist[0].beads.q) if src == "memory" else np.array(sim.load(open("RESTART").read()).syslist[0].beads.q)
        f = w * np.array([vpes.evaluate(par, c["cell"], x)[1].flatten() for x in q])
        require(np.abs(f[:, free]).max() <= c["tol"]["force"] * (1 + 1e-6), "%s: the final structure (%s) has forces up to %r, the tolerance is %r", c["mode"], src, np.abs(f[:, free]).max(), c["tol"]["force"])
    n = len([l for l in open("sim.out") if not l.startswith("#")])
    return "%s exits after %s steps" % (c["mode"], "few" if n < 10 else "many")


SUBS = [Sub("exit", gen(), t_exit, 120, 2000, shards=4), Sub("optimise", gen(), t_opt, 500, 12000, shards=8)]
RULE = "a case is non-trivial when the optimiser moves an atom by more than 1e-3 bohr or is started at a stationary point"

if __name__ == "__main__":
    main("C26", SUBS, rule=RULE, assumptions=[], quick_s=80, thorough_s=1500)
