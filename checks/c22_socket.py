"""C22: the socket interface: every force request is answered once, with the result for its own structure, whatever the clients do."""
import os, sys, socket, struct, threading, time, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim, vpes
import numpy as np

LIMIT = 25.0  # seconds without progress before a request counts as lost; normal exchanges take milliseconds
PAR = dict(k=0.3, c=0.02, g=0.01, A=0.5, s=1.3, bc=0.2, v0=50.0)
HDR = 12


def msg(s):
    return s.ljust(HDR).encode()


def answer(h, pos, ext):
    u, f, v = vpes.evaluate(PAR, h, pos)
    return u, f.reshape(-1), v, ext_text(ext, pos)


def ext_text(kind, pos):
    x = float(np.asarray(pos).reshape(-1)[0])
    return {"none": "", "text": "friction %r \u00e5ngstr\u00f6m" % x, "json": '{"dip": [%r, 1.0], "n": 3}' % x, "number": repr(x), "list": "[%r, 2.0]" % x, "space": "   ", "long": "x" * 5000 + repr(x)}[kind]


class Die(Exception):
    pass


class Client(threading.Thread):
    """an independent implementation of the client side of the protocol, with a script of faults"""

    def __init__(self, spec, addr, mode, batch, seed):
        super().__init__(daemon=True)
        self.spec, self.addr, self.mode, self.batch = spec, addr, mode, batch
        self.rng = np.random.RandomState(seed)
        self.inits, self.served, self.error, self.over = [], 0, None, False
        self.sock = None
        self.quit = threading.Event()

    def recv(self, n):
        b = b""
        while len(b) < n:
            x = self.sock.recv(n - len(b))
            if not x:
                raise Die("server closed")
            b += x
        return b

    def send(self, b, header=0):
        """sends b, in pieces if the script says so; the first `header` bytes are not split"""
        if not self.spec.get("frag"):
            self.sock.sendall(b)
            return
        i = 0
        while i < len(b):
            n = max(1, int(self.rng.randint(1, self.spec["frag"] + 1)))
            if i < header:
                n = max(n, header - i)
            self.sock.sendall(b[i : i + n])
            i += n
            if self.rng.rand() < min(1.0, 40.0 * n / len(b)) * 0.5:
                time.sleep(0.001)

    def fault(self, where):
        f = self.spec.get("fault")
        if f and f["at"] == where and self.served >= f["n"]:
            if f["how"] == "hang":
                self.quit.wait(60.0)
                raise Die()
            if f["how"] == "rst" and self.mode == "inet":
                self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            raise Die()

    def run(self):
        try:
            self.serve()
        except (Die, OSError):
            pass
        except Exception as e:
            import traceback
            self.error = traceback.format_exc()
        finally:
            self.over = True
            try:
                self.sock.close()
            except Exception:
                pass

    def serve(self):
        if self.spec.get("wait"):
            time.sleep(self.spec["wait"])
        for _ in range(200):
            try:
                if self.mode == "inet":
                    self.sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
                    self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                else:
                    self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
                self.sock.connect(self.addr)
                break
            except OSError:
                self.sock.close()
                time.sleep(0.02)
        init = data = False
        nb, seg, res = 1, None, None
        self.fault("connect")
        while True:
            h = self.recv(HDR)
            if h == msg("STATUS"):
                self.fault("status")
                if data:
                    if self.spec.get("slow"):
                        time.sleep(self.spec["slow"])
                    self.fault("havedata")
                self.sock.sendall(msg("NEEDINIT" if not init else "HAVEDATA" if data else "READY"))
            elif h == msg("INIT"):
                rid, n = struct.unpack("ii", self.recv(8))
                self.inits.append((rid, self.recv(n).decode()))
                nb = self.batch
                init = True
                self.fault("init")
            elif h == msg("POSDATA"):
                if not init:
                    raise RuntimeError("POSDATA before INIT")
                if self.mode == "shm":
                    n = struct.unpack("i", self.recv(4))[0]
                    if seg is None:
                        from multiprocessing import shared_memory
                        seg = {}
                        for k in ("pos", "h", "ih", "pot", "force", "vir"):
                            m = struct.unpack("i", self.recv(4))[0]
                            seg[k] = shared_memory.SharedMemory(name=self.recv(m).decode())
                    hs = np.frombuffer(seg["h"].buf, float, nb * 9).reshape(nb, 3, 3).copy()
                    qs = np.frombuffer(seg["pos"].buf, float, nb * 3 * n).reshape(nb, -1).copy()
                elif nb > 1:
                    n = struct.unpack("i", self.recv(4))[0]
                    hs = np.frombuffer(self.recv(nb * 144), float).reshape(nb, 2, 3, 3)[:, 0]
                    qs = np.frombuffer(self.recv(nb * 24 * n), float).reshape(nb, -1)
                else:
                    hs = np.frombuffer(self.recv(144), float).reshape(2, 3, 3)[:1]
                    n = struct.unpack("i", self.recv(4))[0]
                    qs = np.frombuffer(self.recv(24 * n), float).reshape(1, -1)
                self.fault("posdata")
                res = [answer(a, b, self.spec["ext"]) for a, b in zip(hs, qs)]
                data = True
                if self.spec.get("slow"):
                    time.sleep(self.spec["slow"])
            elif h == msg("GETFORCE"):
                self.fault("getforce")
                out = b""
                if self.mode == "shm":
                    for i, r in enumerate(res):
                        np.frombuffer(seg["pot"].buf, float, nb)[i] = r[0]
                        np.frombuffer(seg["force"].buf, float, nb * 3 * n).reshape(nb, -1)[i] = r[1]
                        np.frombuffer(seg["vir"].buf, float, nb * 9).reshape(nb, 3, 3)[i] = r[2]
                elif nb > 1:
                    out += np.array([r[0] for r in res]).tobytes() + struct.pack("i", n)
                    out += np.array([r[1] for r in res]).tobytes() + np.array([r[2] for r in res]).tobytes()
                else:
                    r = res[0]
                    out += struct.pack("d", r[0]) + struct.pack("i", n) + r[1].tobytes() + r[2].tobytes()
                for r in res:
                    x = r[3].encode("utf-8")
                    out += struct.pack("i", len(x)) + x
                f = self.spec.get("fault")
                if f and f["at"] == "payload" and self.served >= f["n"]:
                    self.send((msg("FORCEREADY") + out)[: HDR + int(f["frac"] * len(out))], HDR)
                    self.fault("payload")
                if f and f["at"] == "header" and self.served >= f["n"]:
                    self.sock.sendall(msg("FORCEREADY")[: 1 + int(f["frac"] * 10)])
                    self.fault("header")
                self.send(msg("FORCEREADY") + out, HDR)
                data = False
                self.served += 1
                if self.spec.get("reinit"):
                    init = False
                self.fault("done")
            elif h == msg("EXIT"):
                self.exited = True
                return
            else:
                raise RuntimeError("unknown message %r" % h)


@st.composite
def gen(draw):
    mode = draw(st.sampled_from(["unix", "inet", "shm"]))
    cons = draw(st.booleans())
    batch = draw(st.sampled_from([1, 1, 2, 3, 5])) if cons else 1
    c = dict(mode=mode, cons=cons, batch=batch, matching=draw(st.sampled_from(["auto", "any"])), pbc=draw(st.booleans()),
             offset=draw(st.sampled_from([0.0, 2.5])), natoms=[draw(st.integers(1, 30))], rounds=draw(st.integers(1, 4)), nreq=draw(st.integers(1, 9)), seed=draw(st.integers(0, 10**6)),
             pars=draw(st.sampled_from([{}, {"eps": "1.5"}, {"model": "m1", "name": "caf\u00e9"}])))
    if batch == 1 and mode != "shm" and draw(st.integers(0, 4)) == 0:
        c["natoms"].append(draw(st.integers(1, 30)))
    elif draw(st.integers(0, 3)) == 0:
        c["active"] = sorted(draw(st.sets(st.integers(0, c["natoms"][0] - 1), min_size=1, max_size=c["natoms"][0])))
    cl = []
    for _ in range(draw(st.integers(1, 4))):
        s = dict(ext=draw(st.sampled_from(["none", "json", "text", "number", "list", "space", "long"])))
        if draw(st.integers(0, 2)) == 0:
            s["frag"] = draw(st.sampled_from([1, 7, 100]))
        if draw(st.integers(0, 3)) == 0:
            s["slow"] = draw(st.sampled_from([0.005, 0.05, 0.25]))
        if draw(st.integers(0, 3)) == 0:
            s["reinit"] = True
        if draw(st.integers(0, 3)) == 0:
            s["wait"] = draw(st.sampled_from([0.02, 0.1, 0.4]))
        if draw(st.booleans()):
            s["fault"] = dict(at=draw(st.sampled_from(["connect", "status", "init", "posdata", "havedata", "getforce", "header", "payload", "done"])), n=draw(st.integers(0, 3)),
                              how=draw(st.sampled_from(["close", "rst", "close", "rst", "close", "hang"])), frac=draw(sim.floats(0.0, 0.99)))
        cl.append(s)
    for s in cl[:]:
        if "fault" in s and s["fault"]["at"] in ("connect", "status", "init", "done") and s["fault"]["how"] == "hang":
            s["fault"]["how"] = "close"  # no time limit applies before a request is assigned
    if any(s.get("fault", {}).get("how") == "hang" for s in cl):
        # longer than the 2 s during which one hung client can keep the polling thread busy
        c["timeout"] = 3.0
        for s in [s for s in cl if s.get("fault", {}).get("how") == "hang"][1:]:
            s["fault"]["how"] = "close"
    if all("fault" in s for s in cl):
        cl.append(dict(ext="none"))
    c["clients"] = cl
    return c


def t_socket(case):
    import ipi.interfaces.sockets as S
    from ipi.engine.forcefields import FFSocket
    from ipi.engine.atoms import Atoms
    from ipi.engine.cell import Cell
    c = case
    if hasattr(S, "SERVERTIMEOUT"):
        S.SERVERTIMEOUT = 0.1
    if hasattr(S, "SELECTTIMEOUT"):
        S.SELECTTIMEOUT = 5
    S.TIMEOUT = 0.1
    if hasattr(S, "NTIMEOUT"):  # an overloaded machine must not look like a dead client
        S.NTIMEOUT = 20 if any(s.get("fault", {}).get("how") == "hang" for s in c["clients"]) else 150
    rng = np.random.RandomState(c["seed"])
    d = tempfile.mkdtemp(prefix="c22")
    try:
        port = 0
        if c["mode"] == "inet":
            p = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            p.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            p.bind(("127.0.0.1", 0))
            port = p.getsockname()[1]
            p.close()
            address, addr = "127.0.0.1", ("127.0.0.1", port)
        else:
            address, addr = "sock", d + "/s_sock"
        itf = S.InterfaceSocket(address=address, port=port, slots=5, mode=c["mode"], timeout=c.get("timeout", 0.0), match_mode=c["matching"], sockets_prefix=d + "/s_", consolidate_messages=c["cons"], batch_size=c["batch"])
        ff = FFSocket(latency=1e-3, offset=c["offset"], name="ff", pars=dict(c["pars"]), dopbc=c["pbc"], active=np.array(c.get("active", [-1])), interface=itf)
        ff.bind(None)
        ff.start()
        clients = [Client(s, addr, c["mode"], c["batch"], c["seed"] + i) for i, s in enumerate(c["clients"])]
        for x in clients:
            x.start()
        try:
            for rnd in range(c["rounds"]):
                reqs = []
                for i in range(c["nreq"]):
                    n = c["natoms"][i % len(c["natoms"])]
                    a, cell = Atoms(n), Cell(np.triu(rng.normal(size=(3, 3))) * 0.5 + np.eye(3) * 5.0)
                    a.q[:] = rng.normal(size=3 * n) * 4.0
                    q, h = np.array(a.q), np.array(cell.h)
                    reqs.append((ff.queue(a, cell, reqid=i), q, h))
                    a.q[:] = 0.0  # the request must not follow later changes
                    cell.h *= 2.0
                t0, ndone = time.time(), -1
                while True:
                    k = sum(r["status"] == "Done" for r, _, _ in reqs)
                    if k == len(reqs):
                        break
                    if k > ndone:
                        t0, ndone = time.time(), k
                    bad = [x.error for x in clients if x.error]
                    require(not bad, "a client that follows the protocol could not: %s", bad[:1])
                    require(time.time() - t0 < LIMIT, "round %d: %d of %d requests are not answered within %g s although a good client is connected (statuses %r)", rnd, len(reqs) - k, len(reqs), LIMIT, [r["status"] for r, _, _ in reqs])
                    time.sleep(0.001)
                for i, (r, q, h) in enumerate(reqs):
                    if c["pbc"]:
                        s = np.linalg.solve(h, q.reshape(-1, 3).T)
                        q = (h @ (s - np.round(s))).T.reshape(-1)
                    act = np.arange(len(q)) if "active" not in c else np.array([3 * j + k for j in c["active"] for k in range(3)])
                    u, f, v = vpes.evaluate(PAR, h, q[act])
                    F = np.zeros(len(q))
                    F[act] = f.reshape(-1)
                    g = r["result"]
                    t = "round %d request %d: " % (rnd, i)
                    require(abs(g[0] - (u - c["offset"])) <= 1e-9 * (1 + abs(u)), t + "energy %r instead of %r", g[0], u - c["offset"])
                    require(np.shape(g[1]) == F.shape and np.abs(g[1] - F).max() <= 1e-9 * (1 + np.abs(F).max()), t + "forces %r instead of %r", np.asarray(g[1]).tolist(), F.tolist())
                    require(np.abs(g[2] - v).max() <= 1e-9 * (1 + np.abs(v).max()), t + "virial %r instead of %r", np.asarray(g[2]).tolist(), v.tolist())
                    raw = g[3].get("raw", "")
                    ok = [ext_text(x["ext"], q[act]) for x in c["clients"]]
                    import re as _re
                    num = lambda s: [float(z) for z in _re.findall(r"-?\d+\.?\d*(?:e[-+]?\d+)?", s)]
                    require(any(_re.sub(r"[-\d.e+]+", "#", raw.strip()) == _re.sub(r"[-\d.e+]+", "#", o.strip()) and np.allclose(num(raw), num(o), rtol=1e-9, atol=1e-9) for o in ok if num(raw) is not None and len(num(raw)) == len(num(o))), t + "extra string %r, expected one of %r", raw[:80], [o[:80] for o in ok])
                    if raw.startswith("{"):
                        require(abs(g[3]["dip"][0] - q[act][0]) < 1e-9 and g[3]["n"] == 3, t + "JSON extras %r", g[3])
                    ff.release(r)
                require(len(ff.requests) == 0, "released requests are still queued")
            bad = [x.error for x in clients if x.error]
            require(not bad, "a client that follows the protocol could not: %s", bad[:1])
            for x in clients:
                for rid, s in x.inits:
                    for k, v in c["pars"].items():
                        require("%s : %s" % (k, v) in s, "parameters %r were sent as %r", c["pars"], s)
            if c["matching"] == "auto" and c["batch"] == 1 and len(c["clients"]) == 1:
                require(len(clients[0].inits) == (sum([c["rounds"] * c["nreq"]]) if clients[0].spec.get("reinit") else 1), "the client was initialised %d times", len(clients[0].inits))
            alive = [x for x in clients if not x.over and not (x.spec.get("fault") or x.spec.get("wait"))]
            th = threading.Thread(target=ff.stop, daemon=True)
            th.start()
            th.join(20.0)
            require(not th.is_alive(), "the forcefield does not stop within 20 s")
            t0 = time.time()
            while time.time() - t0 < 5 and any(not x.over for x in alive):
                time.sleep(0.002)
            require(all(x.over for x in alive), "a client was not told to exit")
            require(c["mode"] == "inet" or not os.path.exists(addr), "the socket file is left behind")
        finally:
            for x in clients:
                x.quit.set()
            th = threading.Thread(target=ff.stop, daemon=True)
            th.start()
            th.join(3.0)
            for x in clients:
                try:
                    x.sock.close()
                except Exception:
                    pass
        nf = [s["fault"]["at"] + "/" + s["fault"]["how"] for s in c["clients"] if "fault" in s]
        return "%s%s%s %s" % (c["mode"], " threads" if not c["cons"] else "", " batch" if c["batch"] > 1 else "", nf[0] if nf else "no fault")
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main("C22", [Sub("socket", gen(), t_socket, quick=500, thorough=12000, shards=8)],
         rule="a case is a set of force requests in several rounds served by 1 to 5 clients with scripted delays, fragmentation, re-initialisation and crashes at every point of the protocol, over unix, inet or shared memory, batched or not",
         assumptions=["at least one client without a fault is connected", "the 12-byte status replies arrive in one piece", "a request counts as lost after %g s without progress" % LIMIT], quick_s=120, thorough_s=900)
