"""C23: the way forces are obtained (in process, batched, unix/inet socket, shared memory, any number of drivers) does not change a simulation; the Python driver follows the protocol."""
import os, sys, signal, socket, struct, threading, time, tempfile, importlib.util, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim, vpes
import numpy as np

LIMIT = 60.0


class Late(BaseException):
    pass


def limited(fn):
    """runs fn in the main thread; True if it had to be interrupted"""
    def ring(*a):
        raise Late()

    signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, LIMIT, 1.0)
    try:
        fn()
    except Late:
        return True
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return False


def driver_module():
    spec = importlib.util.spec_from_file_location("ipi_py_driver", "/repo/drivers/py/driver.py")
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    m.print = lambda *a, **k: None
    return m


class Odd(vpes.VPES):
    """extras and array layouts that a PES may return"""

    def __init__(self, ext="none", layout="C", **kw):
        self.ext, self.layout = ext, layout
        super().__init__(**kw)

    def compute_structure(self, cell, pos):
        u, f, v = vpes.evaluate(self.par, cell, pos)
        if self.layout == "F":
            f, v = np.asfortranarray(f), np.asfortranarray(v)
        elif self.layout == "strided":
            f = np.repeat(f, 2, axis=0)[::2]
        elif self.layout == "flat":
            f, v = f.reshape(-1), v.reshape(-1)
        return u, f, v, extra(self.ext, pos)


def extra(kind, pos):
    x = "%.6f" % float(np.asarray(pos).reshape(-1)[0])
    return {"none": "", "json": '{"x": %s}' % x, "utf8": "\u00e5\u6c34 " + x, "long": x + "y" * 3000}[kind]


def msg(s):
    return s.ljust(12).encode()


@st.composite
def gen_driver(draw):
    batch = draw(st.sampled_from([1, 1, 2, 4]))
    c = dict(mode=draw(st.sampled_from(["unix", "inet", "shm"])), batch=batch, nat=draw(st.integers(1, 12)), ext=draw(st.sampled_from(["none", "json", "utf8", "long"])),
             layout=draw(st.sampled_from(["C", "F", "strided", "flat"])), frag=draw(st.sampled_from([0, 1, 3, 50])), par=draw(sim.pes_par()), seed=draw(st.integers(0, 10**6)),
             pars=draw(st.sampled_from(["", " eps : 1.5 , ", " name : caf\u00e9 , "])), end=draw(st.sampled_from(["exit", "close"])))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        ops += ["status"] * draw(st.integers(0, 2)) + draw(st.sampled_from([["pos+force"], ["pos", "status", "force"], ["pos", "force"], ["init", "pos+force"]]))
    c["ops"] = ops + ["status"] * draw(st.integers(0, 2))
    return c


def t_driver(case):
    c = case
    D = driver_module()
    d = tempfile.mkdtemp(prefix="c23")
    segs = {}
    try:
        if c["mode"] == "inet":
            srv = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            srv.bind(("127.0.0.1", 0))
            kw = dict(unix=False, address="127.0.0.1", port=srv.getsockname()[1])
        else:
            srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            srv.bind(d + "/s_x")
            kw = dict(unix=c["mode"] == "unix", shm=c["mode"] == "shm", address="x", sockets_prefix=d + "/s_")
        srv.listen(1)
        err = []

        def go():
            try:
                D.run_driver(driver=Odd(ext=c["ext"], layout=c["layout"], **c["par"]), **kw)
            except BaseException as e:
                err.append(repr(e))

        th = threading.Thread(target=go, daemon=True)
        th.start()
        srv.settimeout(LIMIT)
        k, _ = srv.accept()
        k.settimeout(LIMIT)
        if c["mode"] == "inet":
            k.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        rng = np.random.RandomState(c["seed"])

        def recv(n):
            b = b""
            while len(b) < n:
                try:
                    x = k.recv(n - len(b))
                except socket.timeout:
                    raise Violation("the driver does not answer within %g s (%d of %d bytes received)" % (LIMIT, len(b), n))
                require(x, "the driver closed the connection: %r", err)
                b += x
            return b

        def send(b):
            if not c["frag"]:
                return k.sendall(b)
            i = 0
            while i < len(b):
                n = int(rng.randint(1, c["frag"] + 1))
                k.sendall(b[i : i + n])
                i += n
                if rng.rand() < min(0.5, 20.0 * n / len(b)):
                    time.sleep(0.001)

        def status(want):
            send(msg("STATUS"))
            got = recv(12)
            require(got == msg(want), "status %r where %s is due", got, want)

        def init():
            p = c["pars"] + ("%s batch_size:%d" % ("," if c["pars"].strip() else "", c["batch"]) if c["batch"] > 1 else "")
            p = p.encode()
            send(msg("INIT") + struct.pack("ii", 3, len(p)) + p)

        def pos():
            nb, n = c["batch"], c["nat"]
            hs = np.array([np.triu(rng.normal(size=(3, 3))) * 0.3 + 6 * np.eye(3) for _ in range(nb)])
            qs = rng.normal(size=(nb, 3 * n))
            if c["mode"] == "shm":
                b = msg("POSDATA") + struct.pack("i", n)
                if not segs:
                    from multiprocessing import shared_memory
                    for nm, sz in (("pos", 3 * n), ("h", 9), ("ih", 9), ("pot", 1), ("force", 3 * n), ("vir", 9)):
                        segs[nm] = shared_memory.SharedMemory(create=True, size=8 * sz * nb, name="vc23_%d_%s_%s" % (os.getpid(), os.path.basename(d), nm))
                        x = segs[nm].name.encode()
                        b += struct.pack("i", len(x)) + x
                np.frombuffer(segs["pos"].buf, float, nb * 3 * n)[:] = qs.reshape(-1)
                np.frombuffer(segs["h"].buf, float, nb * 9)[:] = hs.reshape(-1)
            elif nb > 1:
                b = msg("POSDATA") + struct.pack("i", n) + b"".join(h.tobytes() + np.linalg.inv(h).tobytes() for h in hs) + qs.tobytes()
            else:
                b = msg("POSDATA") + hs[0].tobytes() + np.linalg.inv(hs[0]).tobytes() + struct.pack("i", n) + qs.tobytes()
            return b, hs, qs

        def force(hs, qs):
            nb, n = c["batch"], c["nat"]
            require(recv(12) == msg("FORCEREADY"), "FORCEREADY is missing")
            if c["mode"] == "shm":
                u, f, v = (np.frombuffer(segs[x].buf, float, nb * z).copy() for x, z in (("pot", 1), ("force", 3 * n), ("vir", 9)))
            else:
                u = np.frombuffer(recv(8 * nb), float)
                m = struct.unpack("i", recv(4))[0]
                require(m == n, "%d atoms announced instead of %d", m, n)
                f, v = np.frombuffer(recv(24 * n * nb), float), np.frombuffer(recv(72 * nb), float)
            for i in range(nb):
                U, F, W = vpes.evaluate(c["par"], hs[i], qs[i])
                ok = abs(u[i] - U) < 1e-12 * (1 + abs(U)) and np.allclose(f.reshape(nb, -1)[i], F.reshape(-1), rtol=1e-12, atol=1e-14) and np.allclose(v.reshape(nb, 3, 3)[i], W, rtol=1e-12, atol=1e-14)
                require(ok, "structure %d of %d: result %r instead of %r", i, nb, (u[i], f.reshape(nb, -1)[i].tolist(), v.reshape(nb, 9)[i].tolist()), (U, F.tolist(), W.tolist()))
                m = struct.unpack("i", recv(4))[0]
                x, want = recv(m), extra(c["ext"], qs[i]).encode()
                require(x == want, "extra string %r instead of %r", x[:60], want[:60])

        status("NEEDINIT")
        init()
        status("READY")
        data = None
        for o in c["ops"]:
            if o == "status":
                status("HAVEDATA" if data else "READY")
            elif o == "init":
                init()
            elif o == "pos":
                b, hs, qs = pos()
                send(b)
                data = (hs, qs)
            elif o == "pos+force":
                b, hs, qs = pos()
                send(b + msg("GETFORCE"))
                force(hs, qs)
            else:
                send(msg("GETFORCE"))
                force(*data)
                data = None
        if c["end"] == "exit":
            send(msg("EXIT"))
        else:
            k.shutdown(socket.SHUT_RDWR)
        th.join(10.0)
        alive = th.is_alive()
        k.close()
        srv.close()
        require(not alive, "the driver does not end after %s", "EXIT" if c["end"] == "exit" else "the connection is closed")
        return "%s%s frag%d %s" % (c["mode"], " batch" if c["batch"] > 1 else "", c["frag"], c["end"])
    finally:
        import shutil, gc
        for s in segs.values():
            try:
                s.unlink()
            except Exception:
                pass
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def gen_sim(draw):
    c = draw(sim.md_case(modes=("nve", "nvt", "npt"), max_atoms=3, max_beads=5))
    c["n"] = draw(st.integers(1, 4))
    c["ext"] = draw(st.booleans())
    nsys = draw(st.sampled_from([1, 1, 2]))
    tr = []
    for f in c["ffs"]:
        f.pop("pbc", None), f.pop("threaded", None)
        f["par"]["ext"] = 1 if c["ext"] else 0
        t = dict(kind=draw(st.sampled_from(["direct", "direct-threaded", "unix", "inet", "shm", "unix", "shm"])), offset=draw(st.sampled_from([0.0, 0.0, 1.5])), pbc=draw(st.booleans()))
        if t["kind"] != "direct":
            t["batch"] = draw(st.sampled_from([1, 2, 3, 7]))
        if t["kind"] in ("unix", "inet", "shm"):
            t["clients"] = draw(st.integers(1, 3))
            t["cons"] = t["batch"] > 1 or draw(st.booleans())
            t["matching"] = draw(st.sampled_from(["auto", "any"]))
        tr.append(t)
    c["transport"] = tr
    c["nsys"] = nsys
    if nsys > 1 and c["mode"] != "nve":  # systems that step concurrently draw from one random stream in any order
        c["threading"] = "False"
    return c


def ffxml(c, tr, d):
    s = ""
    for f, t in zip(c["ffs"], tr):
        com = "<offset>%s</offset><parameters>%s</parameters>" % (sim.num(t["offset"]), sim.par_text(f["par"]))
        if t["kind"].startswith("direct"):
            s += "<ffdirect name='%s' pbc='%s' threaded='%s'><pes>custom</pes><pes_path>%s</pes_path>%s<batch_size>%d</batch_size></ffdirect>" % (f["name"], t["pbc"], t["kind"] != "direct", sim.VPES, com, t.get("batch", 1))
        else:
            t["addr"] = f["name"]
            s += "<ffsocket name='%s' mode='%s' pbc='%s' matching='%s'><address>%s</address>" % (f["name"], t["kind"], t["pbc"], t["matching"], "127.0.0.1" if t["kind"] == "inet" else f["name"])
            if t["kind"] == "inet":
                p = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
                p.bind(("127.0.0.1", 0))
                t["port"] = p.getsockname()[1]
                p.close()
                s += "<port>%d</port>" % t["port"]
            s += "%s<latency>1e-3</latency><consolidate_messages>%s</consolidate_messages><batch_size>%d</batch_size></ffsocket>" % (com, t["cons"], t["batch"])
    return s


def t_sim(case):
    import ipi.interfaces.sockets as S
    if hasattr(S, "SERVERTIMEOUT"):
        S.SERVERTIMEOUT = 0.1
    c = json.loads(json.dumps(case))
    tr = c.pop("transport")
    D = driver_module()
    d = tempfile.mkdtemp(prefix="c23")

    def once(tr):
        e = dict(c, ffs=ffxml(c, tr, d), sockets_prefix=d + "/s_")
        e.pop("motion", None)
        if c["nsys"] > 1:
            e["systems"] = [dict(e, prefix="s%d" % i, q=(np.array(e["q"]) * (1.0 - 0.1 * i)).tolist()) for i in range(c["nsys"])]
        out, stop = {}, []

        def go():
            try:
                s = sim.make(e)
                out["s"] = s
                r = []
                for _ in range(c["n"]):
                    s.run(1)
                    for y in s.syslist:
                        x = y.forces.extras if c["ext"] else {}
                        r.append([np.array(y.beads.q), np.array(y.beads.p), np.array(y.cell.h), np.array(y.forces.pots), np.array(y.forces.virs), np.array([float(y.ensemble.econs)]),
                                  np.array([np.array(z, float).reshape(-1) for z in x.get("dipole", [])]).reshape(-1)])
                out["r"] = r
            except Exception as ex:
                out["e"] = ex

        def client(f, t):
            par = dict(f["par"])
            for _ in range(1000):
                if stop:
                    return
                try:
                    D.run_driver(unix=t["kind"] == "unix", shm=t["kind"] == "shm", address=t["addr"] if t["kind"] != "inet" else "127.0.0.1", port=t.get("port", 0), driver=vpes.VPES(**par), sockets_prefix=d + "/s_")
                    return
                except (ConnectionRefusedError, FileNotFoundError):
                    time.sleep(0.01)
                except Exception as ex:
                    if not stop and "r" not in out:
                        out.setdefault("client", repr(ex))
                    return

        cl = []
        for f, t in zip(c["ffs"], tr):
            for _ in range(t.get("clients", 0)):
                cl.append(threading.Thread(target=client, args=(f, t), daemon=True))
                cl[-1].start()
        late = limited(go)
        stop.append(1)
        require(not late, "the simulation does not finish within %g s (%r); driver: %r", LIMIT, tr, out.get("client"))
        for ff in (out["s"].fflist.values() if "s" in out else []):
            k = threading.Thread(target=ff.stop, daemon=True)
            k.start()
            k.join(20)
            require(not k.is_alive(), "forcefield %s does not stop", ff.name)
        if "e" in out:
            raise out["e"]
        t0 = time.time()
        for x in cl:
            x.join(max(0.0, 5.0 - (time.time() - t0)))
        left = sum(x.is_alive() for x in cl)
        return out["r"], left

    try:
        plain = [dict(kind="direct", offset=t["offset"], pbc=t["pbc"]) for t in tr]
        a, _ = once(plain)
        if not all(np.isfinite(u).all() and np.abs(u).max(initial=0.0) < 1e8 for x in a for u in x):
            raise Skip("the trajectory is unstable")
        b, left = once(tr)
        nm = ["positions", "momenta", "cell", "potentials", "virials", "conserved quantity", "dipoles"]
        for i, (x, y) in enumerate(zip(a, b)):
            for n, u, v in zip(nm, x, y):
                require(u.shape == v.shape, "%s: shape %r in process and %r with %r", n, u.shape, v.shape, tr)
                require(np.abs(u - v).max(initial=0.0) <= 1e-9 * (1e-3 + np.abs(u).max(initial=0.0)), "step %d: %s differ by %.3g between in-process evaluation and %r", i // c["nsys"] + 1, n, np.abs(u - v).max(initial=0.0), tr)
        require(left == 0, "%d drivers were not told to exit", left)
        return " ".join("%s%s" % (t["kind"], " batch" if t.get("batch", 1) > 1 else "") for t in tr)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main("C23", [Sub("sim", gen_sim(), t_sim, quick=600, thorough=4000, shards=8), Sub("driver", gen_driver(), t_driver, quick=1000, thorough=12000, shards=4)],
         rule="a case is a simulation run once with in-process forces and once over a generated transport (threads, batches, sockets, shared memory, several drivers), or a session of the Python driver with a scripted, fragmenting server",
         assumptions=["drivers run as threads of the checking process; Fortran and MPI drivers are not exercised"], quick_s=100, thorough_s=900)
