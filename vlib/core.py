"""Shared runner: Hypothesis-driven search, sharding, shrinking, replay, evidence.

A check module declares a property id and a list of `Sub`s.  Each Sub couples a
Hypothesis strategy that builds a JSON-able *case* with a function `fn(case)` that
runs the real code and the oracle.  `fn` returns a label (a string, or None for a
trivial case) and raises `Violation` when the property is broken.

All random choices come from the strategies; the whole run is a function of the
code under test and VERIF_SEED.
"""

import sys, os, json, time, hashlib, traceback, argparse, tempfile, shutil, signal, io
import multiprocessing as mp

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)  # only hypothesis and its dependencies are taken from here

import hypothesis
from hypothesis import settings, HealthCheck, Phase, Verbosity
from hypothesis import strategies as st

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


class Violation(Exception):
    """The code under test broke the property on this case."""


class HarnessError(Exception):
    """The check itself is wrong or cannot run; never reported as a violation."""


class Skip(Exception):
    """Case outside the domain, or inconclusive: counted, not judged."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Sub:
    def __init__(self, name, strategy, fn, quick=200, thorough=2000, shards=1,
                 budget=None, shrink_s=40, isolate=False, tshards=None, cost=1.0,
                 deterministic=True):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough
        self.shards = shards            # independent processes (own derived seed each)
        self.tshards = tshards or max(shards, 2)
        self.budget = budget            # seconds per shard after which no more cases are generated
        self.shrink_s = shrink_s
        self.deterministic = deterministic
        self.cost = cost


def jdump(x):
    return json.dumps(x, sort_keys=True, default=_jdef)


def _jdef(o):
    import numpy as np

    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        return o.item()
    if isinstance(o, (set, tuple)):
        return list(o)
    raise TypeError(repr(o))


def derive(seed, *parts):
    h = hashlib.sha256(("|".join([str(seed)] + [str(p) for p in parts])).encode())
    return int.from_bytes(h.digest()[:6], "big")


def classify(exc):
    """'violation' | 'harness': who is to blame for an exception out of fn(case)."""
    if isinstance(exc, Violation):
        return "violation"
    if isinstance(exc, HarnessError):
        return "harness"
    if isinstance(exc, (MemoryError, KeyboardInterrupt)):
        return "harness"
    tb = exc.__traceback__
    files = []
    while tb is not None:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    seen_verif_last = True
    in_repo = any(f.startswith(REPO + "/") for f in files)
    if isinstance(exc, OSError) and exc.errno in (28, 23, 24, 12):  # disk, fds, memory
        return "harness"
    if in_repo:
        return "violation"          # the code under test raised on an input it must accept
    if isinstance(exc, (ImportError, AttributeError, NameError, OSError, SyntaxError)):
        return "harness"
    # TypeError/ValueError/KeyError/... while the oracle consumed a result: the result is malformed
    return "violation"


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    return "%s: %s\n%s" % (type(exc).__name__, exc,
                           "".join(traceback.format_exception(exc)[-6:]))


_scratch_root = None


def scratch_root():
    global _scratch_root
    if _scratch_root is None:
        _scratch_root = tempfile.mkdtemp(prefix="verif_")
    return _scratch_root


def _run_case(sub, case):
    """Runs one case in a fresh scratch directory, stdout swallowed."""
    from vlib import env

    d = tempfile.mkdtemp(dir=scratch_root())
    cwd = os.getcwd()
    os.chdir(d)
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        return sub.fn(case)
    finally:
        sys.stdout = old
        os.chdir(cwd)
        env.reset()
        shutil.rmtree(d, ignore_errors=True)


def _shard(pid, sub, shard, n, seed, budget, conn):
    """Body of a worker process."""
    import warnings

    warnings.simplefilter("ignore")
    import faulthandler

    faulthandler.register(signal.SIGUSR2, all_threads=True)
    global _scratch_root
    _scratch_root = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    t0 = time.time()
    stt = dict(sub=sub.name, shard=shard, evaluations=0, skipped=0, unrun=0, labels={},
               nontrivial=set(), samples=[], fail=None, harness=None, fails=0)
    first_fail = [None]
    own = sum(1 for _ in ())  # noqa

    def body(case):
        now = time.time()
        if first_fail[0] is None and now - t0 > budget:
            stt["unrun"] += 1
            return
        if stt["harness"] is not None:
            return
        if first_fail[0] is not None and now - first_fail[0] > sub.shrink_s:
            # stop shrinking: let hypothesis wind down
            if stt["fail"] is not None and jdump(case) == stt["fail"]["_key"]:
                raise Violation("shrunk")
            return
        stt["evaluations"] += 1
        try:
            label = _run_case(sub, case)
        except Skip:
            stt["skipped"] += 1
            return
        except hypothesis.errors.HypothesisException:
            raise
        except BaseException as e:  # SystemExit from softexit counts too
            kind = classify(e)
            if kind == "harness":
                stt["harness"] = dict(case=case, error=describe(e))
                return
            key = jdump(case)
            if first_fail[0] is None:
                first_fail[0] = time.time()
            stt["fails"] += 1
            if stt["fail"] is None or len(key) <= len(stt["fail"]["_key"]):
                stt["fail"] = dict(_key=key, case=case, message=describe(e),
                                   kind=type(e).__name__)
            raise Violation("failing case")
        if label is not None:
            lab = str(label)
            stt["labels"][lab] = stt["labels"].get(lab, 0) + 1
            k = hashlib.sha1(jdump(case).encode()).hexdigest()
            if k not in stt["nontrivial"]:
                stt["nontrivial"].add(k)
                if len(stt["samples"]) < 2 and stt["evaluations"] > 3:
                    stt["samples"].append(dict(sub=sub.name, label=lab, case=case))

    test = settings(
        max_examples=n, deadline=None, database=None, derandomize=False,
        suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
        verbosity=Verbosity.quiet, print_blob=False, report_multiple_bugs=False,
    )(hypothesis.seed(derive(seed, pid, sub.name, shard))(hypothesis.given(sub.strategy)(body)))
    try:
        test()
    except BaseException as e:
        if stt["fail"] is None and stt["harness"] is None:
            stt["harness"] = dict(case=None, error="runner: " + describe(e))
    shutil.rmtree(_scratch_root, ignore_errors=True)
    stt["nontrivial"] = list(stt["nontrivial"])
    stt["wall"] = time.time() - t0
    if stt["fail"]:
        stt["fail"].pop("_key")
    conn.send(jdump(stt))
    conn.close()
    sys.stdout.flush()
    os._exit(0)


def _replay_worker(sub, case, conn):
    import warnings

    warnings.simplefilter("ignore")
    global _scratch_root
    _scratch_root = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        _run_case(sub, case)
        out = ["pass", ""]
    except Skip:
        out = ["skip", ""]
    except BaseException as e:
        out = [classify(e), describe(e)]
    shutil.rmtree(_scratch_root, ignore_errors=True)
    conn.send(jdump(out))
    conn.close()
    os._exit(0)


def _spawn(target, args, timeout):
    """Runs target in a forked child; returns its result or None (died/timeout)."""
    r, w = mp.Pipe(False)
    p = mp.get_context("fork").Process(target=target, args=tuple(args) + (w,))
    p.start()
    w.close()
    out = None
    try:
        if r.poll(timeout):
            out = json.loads(r.recv())
    except (EOFError, ConnectionError):
        out = None
    if p.is_alive():
        p.join(2)
        if p.is_alive():
            p.kill()
    p.join()
    return out


def replay_case(sub, case, timeout=600):
    return _spawn(_replay_worker, (sub, case), timeout) or ["died", "worker died or hung"]


def known_findings(pid):
    f = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def main(pid, subs, level="exploration", rule="", assumptions=(), quick_s=240, thorough_s=3000,
         exhaustive=False, known_matchers=None, extra=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    from vlib import env

    try:
        env.preload()
    except BaseException as e:
        print("ERROR: cannot load the code under test:", describe(e))
        sys.exit(2)
    byname = {s.name: s for s in subs}

    if a.replay:
        d = json.load(open(a.replay))
        kind, msg = replay_case(byname[d["sub"]], d["case"])
        print(kind, msg)
        if kind == "violation":
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            sys.exit(1)
        sys.exit(0 if kind in ("pass", "skip") else 2)

    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    total_budget = quick_s if tier == "quick" else thorough_s
    jobs = []
    for s in subs:
        if a.only and a.only not in s.name:
            continue
        n = int(max(1, (s.quick if tier == "quick" else s.thorough) * a.scale))
        k = s.shards if tier == "quick" else s.tshards
        for i in range(k):
            jobs.append((s, i, max(1, n // k)))
    jobs.sort(key=lambda j: -j[0].cost * j[2])
    ncpu = min(8, os.cpu_count() or 1)
    running, results, deaths = [], [], []
    fast = bool(os.environ.get("VERIF_FAST"))
    for s in subs:
        if fast:
            s.shrink_s = 0

    def start(job, attempt=0):
        s, i, n = job
        r, w = mp.Pipe(False)
        b = s.budget if (s.budget and tier == "quick") else total_budget
        left = max(5.0, total_budget - (time.time() - t0))
        b = min(b, left)
        p = mp.get_context("fork").Process(target=_shard, args=(pid, s, i, n, a.seed, b, w))
        p.start()
        w.close()
        # hard stop only for a genuine hang: budget + shrink + slack
        return [p, r, job, time.time() + b + s.shrink_s + 150, attempt]

    queue = list(jobs)
    while queue or running:
        while queue and len(running) < ncpu:
            running.append(start(queue.pop(0)))
        done = []
        for rec in running:
            p, r, job, dl, att = rec
            got = None
            if r.poll(0):
                try:
                    got = json.loads(r.recv())
                except EOFError:
                    got = None
                p.join(5)
                if p.is_alive():
                    p.kill()
                    p.join()
                done.append((rec, got))
            elif time.time() > dl:
                p.kill()
                p.join()
                done.append((rec, "hang"))
        for rec, got in done:
            running.remove(rec)
            if isinstance(got, dict):
                results.append(got)
                if fast and got["fail"]:      # development only (meta/mutate.py): stop at the first failure
                    for x in running:
                        x[0].kill()
                    print("FAST", got["sub"], got["fail"]["message"][:200])
                    sys.stdout.flush()
                    os._exit(1)
            else:
                deaths.append("%s shard %d: %s" % (rec[2][0].name, rec[2][1], got or "worker died"))
        if not done:
            time.sleep(0.02)

    # ---- judge -------------------------------------------------------------
    findings = known_findings(pid)
    known_matchers = known_matchers or {}
    harness = [r["harness"] for r in results if r["harness"]]
    violations, known_hit, unrepro = [], {}, []
    for r in results:
        f = r["fail"]
        if not f:
            continue
        s = byname[r["sub"]]
        # confirm from the saved input alone, in a fresh process
        kind, msg = replay_case(s, f["case"])
        confirmed = kind == "violation"
        if not confirmed and s.deterministic:
            # state carried over between cases? the same shard must fail the same way again
            jb = [j for j in jobs if j[0].name == r["sub"] and j[1] == r["shard"]][0]
            again = _spawn(_shard, (pid, s, r["shard"], jb[2], a.seed, total_budget),
                           total_budget + 200)
            if again and again.get("fail"):
                confirmed, msg = True, again["fail"]["message"]
        elif not confirmed:
            for _ in range(4):
                kind, msg = replay_case(s, f["case"])
                if kind == "violation":
                    confirmed = True
                    break
        if not confirmed:
            unrepro.append(dict(sub=r["sub"], case=f["case"], first=f["message"], second=msg))
            continue
        violations.append(dict(property=pid, sub=r["sub"], case=f["case"],
                               message=msg or f["message"], seed=a.seed, tier=tier))
    for kf in findings:
        if "case" in kf:  # the exact input that fails, run again
            st_ = replay_case(byname[kf["sub"]], kf["case"])[0] == "violation"
        else:
            m = known_matchers.get(kf["id"])
            if m is None:
                continue
            st_ = m()  # True if the listed finding still fails
        if st_:
            print("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))

    ev = sum(r["evaluations"] for r in results)
    nt = set()
    labels, samples = {}, []
    persub = {}
    for r in results:
        for k in r["nontrivial"]:
            nt.add((r["sub"], k))
        for k, v in r["labels"].items():
            labels[r["sub"] + ":" + k] = labels.get(r["sub"] + ":" + k, 0) + v
        d = persub.setdefault(r["sub"], dict(evaluations=0, skipped=0, unrun=0, nontrivial=0, wall=0.0))
        d["evaluations"] += r["evaluations"]
        d["skipped"] += r["skipped"]
        d["unrun"] += r["unrun"]
        d["nontrivial"] += len(r["nontrivial"])
        d["wall"] = max(d["wall"], round(r["wall"], 1))
        if r["shard"] == 0:
            samples += r["samples"][:1]
    cov = dict(evaluations=ev, distinct_nontrivial=len(nt), rule=rule, samples=samples[:12],
               per_sub=persub, labels=labels)
    if exhaustive:
        cov["exhaustive"] = False
    if unrepro:
        cov["not_reproduced"] = unrepro[:5]
    if extra:
        cov.update(extra(results))
    evd = dict(property=pid, tier=tier, seed=a.seed, level=level, coverage=cov,
               assumptions=list(assumptions), wall_s=round(time.time() - t0, 2),
               violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.only:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fo:
            json.dump(json.loads(jdump(evd)), fo, indent=1)
    rc = 0
    for i, v in enumerate(violations):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        fn = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (pid, v["sub"], i))
        with open(fn, "w") as fo:
            json.dump(json.loads(jdump(v)), fo, indent=1)
        print("--- %s/%s: %s" % (pid, v["sub"], v["message"]))
        print("    case: %s" % jdump(v["case"])[:2000])
        print("VIOLATION property=%s replay=%s" % (pid, fn))
        rc = 1
    for h in harness[:3]:
        print("HARNESS ERROR:", h["error"])
        print("    case: %s" % (jdump(h["case"]) or "")[:1500])
    for d in deaths:
        print("HARNESS ERROR:", d)
    if unrepro:
        for u in unrepro[:3]:
            print("NOT REPRODUCED:", u["sub"], u["first"][:600], "| case", jdump(u["case"])[:800])
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1f s" % (
        pid, tier, a.seed, ev, len(nt), len(violations), time.time() - t0))
    if a.v:
        print(json.dumps(persub, indent=1))
        print(json.dumps(labels, indent=1))
    if rc == 0 and (harness or deaths):
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
