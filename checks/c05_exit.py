"""C05: a run that is interrupted anywhere can be continued as if nothing had happened."""
import os, re, sys, tempfile, io, json, time, signal, threading, types, importlib.machinery, importlib.util, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim, env
import numpy as np
from hypothesis import strategies as st

LIMIT = 40.0


def program():
    ld = importlib.machinery.SourceFileLoader("ipi_main_program", "/repo/bin/i-pi")
    m = types.ModuleType("ipi_main_program")
    m.__file__ = "/repo/bin/i-pi"
    exec(compile(ld.get_data("/repo/bin/i-pi"), "/repo/bin/i-pi", "exec"), m.__dict__)
    return m


class Opt:
    do_yappi, verbosity, sockets_prefix, yappi_clock, yappi_prefix = False, "quiet", None, "cpu", "p"


def child(fn, at, kind):
    """runs the program in a forked process; at the at-th line executed by the main loop the event of the given kind happens"""
    pid = os.fork()
    if pid:
        t0 = time.time()
        while time.time() - t0 < LIMIT:
            r, stat = os.waitpid(pid, os.WNOHANG)
            if r:
                return os.waitstatus_to_exitcode(stat)
            time.sleep(0.005)
        os.kill(pid, signal.SIGUSR2)
        time.sleep(0.2)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return "hang"
    code = 9
    try:
        log = open("log.%s" % fn, "w")
        os.dup2(log.fileno(), 1)
        os.dup2(log.fileno(), 2)
        sys.stdout, sys.stderr = open(1, "w", closefd=False), open(2, "w", closefd=False)
        import faulthandler
        faulthandler.register(signal.SIGUSR2, file=log, all_threads=True)
        from ipi.engine.simulation import Simulation
        run0 = Simulation.run
        count = [0]

        def local(frame, ev, arg):
            if ev == "line":
                count[0] += 1
                if count[0] == at:
                    sys.settrace(None)
                    print("EVENT", kind, frame.f_code.co_filename, frame.f_lineno, flush=True)
                    if kind == "EXIT":
                        open("EXIT", "w").close()
                        time.sleep(0.08)
                    else:
                        signal.raise_signal(dict(SIGTERM=signal.SIGTERM, SIGINT=signal.SIGINT)[kind])
            return local

        def glob(frame, ev, arg):
            return local if "/ipi/" in frame.f_code.co_filename and count[0] < (at or 1 << 60) else None

        def run(self, *a, **k):
            if at is None:
                return run0(self, *a, **k)
            sys.settrace(glob)
            try:
                return run0(self, *a, **k)
            finally:
                sys.settrace(None)

        Simulation.run = run
        m = program()
        try:
            m.main(fn, Opt)
            code = 0
        except SystemExit:
            code = 0
        open("count", "w").write(str(count[0]))
        sys.stdout.flush()
        threading._shutdown()  # what the interpreter does at its end: waits for the threads
    except BaseException:
        code = 7
        traceback.print_exc()
    finally:
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        except Exception:
            pass
        os._exit(code)


OUT = """<output prefix='sim'>
<properties filename='out' stride='%d' flush='1'>[step, time{atomic_unit}, potential{atomic_unit}, kinetic_md{atomic_unit}, conserved{atomic_unit}]</properties>
<trajectory filename='pos' stride='%d' format='xyz' flush='1'>x_centroid{atomic_unit}</trajectory>
</output>
"""


@st.composite
def gen(draw):
    c = draw(sim.md_case(modes=("nve", "nvt", "nvt", "npt"), thermos=["langevin", "pile_g", "gle", "svr"], max_atoms=2, max_beads=2))
    c["threading"] = draw(st.booleans())
    c["total_steps"] = draw(st.integers(1, 5))
    c["kind"] = draw(st.sampled_from(["SIGTERM", "SIGINT", "EXIT"]))
    c["at"] = [draw(sim.floats(0.0, 1.0)) for _ in range(draw(st.integers(1, 3)))]
    if draw(st.booleans()):
        c["safe_stride"] = draw(st.integers(1, 3))
    c["stride"] = [draw(st.integers(1, 2)), draw(st.integers(1, 2))]
    return c


def table(fn):
    return [l for l in open(fn).read().split("\n") if l.strip() and not l.startswith("#")]


def frames(fn):
    L = open(fn).read().split("\n")
    out, i = [], 0
    while i < len(L) and L[i].strip():
        n = int(L[i])
        out.append(L[i + 1:i + 2 + n])
        i += 2 + n
    return out


def final(fn):
    """the state in a restart file, looked at in a directory of its own"""
    xml = re.sub("<total_steps>[^<]*</total_steps>", "<total_steps>100000</total_steps>", open(fn).read())
    here = os.getcwd()
    d = tempfile.mkdtemp(dir=here, prefix="view")
    os.chdir(d)
    try:
        s = sim.load(xml)
        y = s.syslist[0]
        return int(s.step), np.array(y.beads.q), np.array(y.beads.p), np.array(y.cell.h), float(y.ensemble.time)
    finally:
        env.reset()
        os.chdir(here)


def t_exit(c):
    d = dict(c, output=OUT % tuple(c["stride"]))
    xml = sim.build(d)
    for w in ("ref", "run"):
        os.mkdir(w)
        open(w + "/input.xml", "w").write(xml)
    os.chdir("ref")
    r = child("input.xml", 1 << 60, None)
    require(r == 0, "the uninterrupted run ends with %r: %s", r, open("log.input.xml").read()[-800:])
    total = int(open("count").read())
    ref = table("sim.out")
    rpos = frames("sim.pos.xyz")
    rstate = final("RESTART")
    os.chdir("../run")
    fn, where, rows = "input.xml", [], 0
    for i, a in enumerate(c["at"] + [None]):
        at = None if a is None else 1 + int(a * total * 1.02)
        r = child(fn, at, c["kind"])
        log = open("log.%s" % fn).read()
        ev = [l for l in log.split("\n") if l.startswith("EVENT")]
        w = " ".join(ev[0].split()[1:]).replace("/repo/", "") if ev else "no event"
        require(r != "hang", "the run does not end after %s: %s", w, log[-1500:])
        if r == 7 and c["kind"] == "EXIT" and "I/O operation on closed file" in log[-200:]:
            r = 0  # the output was closed by the other thread just before the write: noisy, but nothing is lost
        require(r == 0, "run %d ends with %r (%s): %s", i, r, w, log[-1500:])
        require(os.path.exists("RESTART"), "no RESTART file after %s", w)
        try:
            s = final("RESTART")
        except Exception as e:
            require(False, "the RESTART file after %s cannot be loaded: %r", w, e)
        where.append(w)
        if os.path.exists("EXIT"):
            os.unlink("EXIT")
        os.replace("RESTART", "restart%d.xml" % i)
        fn = "restart%d.xml" % i
        if s[0] >= c["total_steps"]:
            break
    tol = 1e-9
    require(s[0] == rstate[0], "the run ends at step %d instead of %d (%r)", s[0], rstate[0], where)
    for x, y, nm in zip(s[1:], rstate[1:], ("positions", "momenta", "cell", "time")):
        require(np.abs(x - y).max() <= tol * max(1.0, np.abs(y).max()), "the final %s differ from those of the uninterrupted run by %r (%r)", nm, np.abs(x - y).max(), where)
    # every row that has been printed is that of the uninterrupted run, and none is missing
    num = lambda l: np.array([float(x) for x in l.split()])
    want = {num(l)[0]: num(l) for l in ref}
    seen = []
    for l in table("sim.out"):
        v = num(l)
        require(v[0] in want and v.shape == want[v[0]].shape, "the output has a row %r (%r)", l, where)
        require(np.abs(v - want[v[0]]).max() <= 1e-9 * max(1.0, np.abs(v).max()), "row of step %d is %r, without interruption %r (%r)", v[0], v.tolist(), want[v[0]].tolist(), where)
        if v[0] not in seen:
            seen.append(v[0])
    require(seen == sorted(want), "the output has steps %r, without interruption %r (%r)", seen, sorted(want), where)
    pos = frames("sim.pos.xyz")
    wp = {f[0].split("Step:")[1].split()[0]: f for f in rpos}
    seen = []
    for f in pos:
        k = f[0].split("Step:")[1].split()[0]
        require(k in wp and len(f) == len(wp[k]), "the trajectory has a frame of step %s (%r)", k, where)
        x, y = [np.array([[float(z) for z in l.split()[1:]] for l in g[1:]]) for g in (f, wp[k])]
        require(np.all(np.abs(x - y) <= 2e-5 * np.abs(y) + 1e-9), "frame of step %s differs (%r)", k, where)
        if k not in seen:
            seen.append(k)
    require(seen == list(wp), "the trajectory has steps %r, without interruption %r (%r)", seen, list(wp), where)
    n = sum("no event" not in w for w in where)
    return "%s %s x%d %s" % (c["kind"], "threads" if c["threading"] else "plain", n, where[0].split()[1].split("/")[-1] if n and "no event" not in where[0] else "") if n else None


SUBS = [Sub("interrupt", gen(), t_exit, 400, 8000, shards=8)]
RULE = "a case is non-trivial when at least one interruption falls into the run"

if __name__ == "__main__":
    main("C05", SUBS, rule=RULE, assumptions=["a soft exit is asked for once per run; killing the process with SIGKILL is outside"], quick_s=80, thorough_s=1500)
