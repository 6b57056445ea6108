"""Development tool: random small mutations of the code a property is anchored to, against its quick check.

  python3 meta/mutate.py N SEED PROP [PROP...]     (works on copies under /tmp, mounted over /repo in a private namespace)
Prints the surviving mutants; they are read by hand: equivalent, outside the property, or a gap in the check."""
import ast, os, random, shutil, subprocess, sys, time

T = {  # property -> check, [(file, regexp of qualified function names)]
    "C01": ("c01_units", [("ipi/utils/units.py", ".*")]),
    "C06": ("c06_output", [("ipi/engine/outputs.py", "PropertyOutput|TrajectoryOutput|CheckpointOutput.(active|write)|BaseOutput.active"), ("ipi/engine/simulation.py", "Simulation.(run$|bind)"), ("ipi/engine/properties.py", "getall|getkey|Properties.__getitem__|Trajectories.__getitem__")]),
    "C07": ("c07_files", [("ipi/utils/io/backends/io_xyz.py", ".*"), ("ipi/utils/io/backends/io_pdb.py", ".*"), ("ipi/utils/io/io_units.py", ".*"), ("ipi/utils/io/__init__.py", ".*")]),
    "C08": ("c08_init", [("ipi/engine/initializer.py", ".*")]),
    "C09": ("c09_depend", [("ipi/utils/depend.py", ".*")]),
    "C10": ("c10_cell", [("ipi/engine/cell.py", ".*"), ("ipi/utils/mathtools.py", "h2abc|abc2h|invert_ut3x3|det_ut3x3")]),
    "C11": ("c11_nmtrans", [("ipi/utils/nmtransform.py", ".*")]),
    "C12": ("c12_freerp", [("ipi/engine/normalmodes.py", ".*(qcstep|qstep|free_|get_o_|get_omega|get_nm_factor|get_dynwk|prop_pq|vspring|get_.*prop|exec).*")]),
    "C13": ("c13_bosons", [("ipi/utils/exchange.py", ".*"), ("ipi/engine/normalmodes.py", ".*exchange.*")]),
    "C14": ("c14_nve", [("ipi/engine/motion/dynamics.py", "(Dummy|NVE|Dynamics).*"), ("ipi/engine/ensembles.py", ".*")]),
    "C15": ("c15_thermo", [("ipi/engine/thermostats.py", ".*"), ("ipi/utils/mathtools.py", "matrix_exp|stab_cholesky|root_herm")]),
    "C16": ("c16_baro", [("ipi/engine/barostats.py", ".*")]),
    "C18": ("c18_remd", [("ipi/engine/smotion/remd.py", ".*"), ("ipi/engine/ensembles.py", ".*")]),
    "C21": ("c21_pes", [("ipi/pes/" + x, ".*") for x in ("morse.py", "doublewell.py", "doublewell_with_bath.py", "doublewell_with_friction.py", "doubledoublewell.py", "harmonic.py", "spline.py", "_ase.py", "bath.py", "spherical_LJ.py")]),
    "C24": ("c24_composite", [("ipi/engine/forcefields.py", "(FFCommittee|FFRotations|PhotonDriver|FFCavPhSocket|FFEval|FFLennardJones|FFDebye|FFdmd).*"), ("ipi/utils/mathtools.py", "get_rotation|euler|roots_leg|random_rot|quat2rot")]),
    "C19": ("c19_forces", [("ipi/engine/forces.py", ".*")]),
    "C22": ("c22_socket", [("ipi/interfaces/sockets.py", ".*")]),
    "C25": ("c25_prng", [("ipi/utils/prng.py", ".*")]),
    "C03": ("c03_restart", [("ipi/inputs/motion/dynamics.py", ".*"), ("ipi/inputs/thermostats.py", ".*"), ("ipi/inputs/barostats.py", ".*"), ("ipi/inputs/beads.py", ".*"), ("ipi/inputs/normalmodes.py", ".*"), ("ipi/inputs/ensembles.py", ".*"), ("ipi/inputs/simulation.py", ".*"), ("ipi/inputs/prng.py", ".*"), ("ipi/inputs/cell.py", ".*")]),
    "C04": ("c04_store", [("ipi/inputs/" + x, ".*") for x in ("forces.py", "forcefields.py", "outputs.py", "system.py", "initializer.py", "smotion/remd.py", "motion/motion.py", "motion/geop.py", "motion/phonons.py")]),
    "C05": ("c05_exit", [("ipi/utils/softexit.py", ".*"), ("ipi/engine/simulation.py", "Simulation.(run|step|rollback|softexit).*")]),
    "C17": ("c17_fix", [("ipi/engine/motion/dynamics.py", ".*(pconstraints|fix).*"), ("ipi/engine/thermostats.py", ".*bind.*"), ("ipi/engine/barostats.py", ".*(bind|qcstep|pstep).*")]),
    "C26": ("c26_geop", [("ipi/engine/motion/geop.py", ".*"), ("ipi/utils/mintools.py", ".*")]),
    "C27": ("c27_vib", [("ipi/engine/motion/phonons.py", ".*"), ("ipi/utils/hesstools.py", ".*")]),
    "C29": ("c29_constr", [("ipi/engine/motion/constrained_dynamics.py", ".*"), ("ipi/utils/constrtools.py", ".*"), ("ipi/inputs/motion/constrained_dynamics.py", ".*")]),
    "C30": ("c30_mc", [("ipi/engine/motion/atomswap.py", ".*"), ("ipi/engine/motion/alchemy.py", ".*"), ("ipi/engine/motion/multi.py", ".*")]),
    "C31": ("c31_schedule", [("ipi/engine/motion/ramp.py", ".*"), ("ipi/engine/motion/driven_dynamics.py", ".*"), ("ipi/engine/motion/replay.py", ".*")]),
    "C32": ("c32_script", [("ipi/scripting/interactive.py", ".*"), ("ipi/scripting/parsing.py", ".*"), ("ipi/scripting/templates.py", ".*")]),
    "C33": ("c33_tools", [("tools/py/%s.py" % x, ".*") for x in ("contract-trajectory", "mux-positions", "posforce2kinetic", "kinetic2tag", "mergebeadspdb", "committee-reweight", "getproperty", "trimsim", "remdsort")]),
    "C28": ("c28_estim", [("ipi/engine/properties.py", "(Properties|Trajectories).(get_|kst|opening|_kin|tensor|_atom).*")]),
}
R, V = "/tmp/mut_repo", "/tmp/mut_verif"
SKIP = {"help", "longhelp", "default_help"}


def sites(path, pat):
    import re
    src = open(path).read()
    tree = ast.parse(src)
    out = []

    def visit(node, qual):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                q = (qual + "." if qual else "") + ch.name
                if isinstance(ch, ast.FunctionDef):
                    if re.match("(" + pat + ")", q):
                        collect(ch, q)
                else:
                    visit(ch, q)

    def inside_msg(n, bad):
        return any(b.lineno <= n.lineno <= b.end_lineno for b in bad)

    def collect(fn, q):
        bad = [n for n in ast.walk(fn) if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") in ("info", "warning", "print"))]
        for n in ast.walk(fn):
            if not hasattr(n, "lineno") or inside_msg(n, bad):
                continue
            if isinstance(n, ast.BinOp):
                sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}.get(type(n.op))
                if sw:
                    out.append((q, "op", n, sw))
            elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                sw = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}.get(type(n.ops[0]))
                if sw:
                    out.append((q, "cmp", n, sw))
            elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
                out.append((q, "const", n, repr(n.value + 1) if isinstance(n.value, int) else repr(n.value * 1.5 + (0.1 if n.value == 0 else 0))))
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                out.append((q, "const", n, repr(not n.value)))
            elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
                if n.lineno == n.end_lineno or True:
                    out.append((q, "del", n, "pass"))
            elif isinstance(n, ast.If):
                out.append((q, "if", n.test, "True" if random.random() < 0.5 else "False"))
    visit(tree, "")
    return src, out


def apply(src, kind, n, new):
    L = src.split("\n")

    def off(l, c):
        return sum(len(x) + 1 for x in L[:l - 1]) + len(L[l - 1].encode()[:c].decode())
    if kind in ("const", "if", "del"):
        a, b = off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
        return src[:a] + new + src[b:], src[a:b]
    if kind == "op":
        a, b = off(n.left.end_lineno, n.left.end_col_offset), off(n.right.lineno, n.right.col_offset)
    else:
        a, b = off(n.left.end_lineno, n.left.end_col_offset), off(n.comparators[0].lineno, n.comparators[0].col_offset)
    mid = src[a:b]
    old = {"op": {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}.get(type(getattr(n, "op", None)))}.get(kind)
    if kind == "cmp":
        old = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}[type(n.ops[0])]
    if mid.count(old) != 1:
        return None, mid
    return src[:a] + mid.replace(old, new) + src[b:], ast.get_source_segment(src, n)


def main():
    N, seed, props = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    random.seed(seed)
    for d, s in ((R, "/repo"), (V, "/verif")):
        shutil.rmtree(d, ignore_errors=True)
        subprocess.check_call(["cp", "-a", s, d])
    for p in props:
        check, files = T[p]
        pool = []
        for f, pat in files:
            src, out = sites(os.path.join(R, f), pat)
            pool += [(f, src) + o for o in out]
        random.shuffle(pool)
        killed = tried = 0
        surv = []
        for f, src, q, kind, n, new in pool:
            if tried >= N:
                break
            try:
                m, old = apply(src, kind, n, new)
                if m is None or m == src:
                    continue
                compile(m, f, "exec")
            except Exception:
                continue
            tried += 1
            open(os.path.join(R, f), "w").write(m)
            t0 = time.time()
            try:
                r = subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo; cd %s; VERIF_FAST=1 VERIF_SEED=%d timeout -k 5 400 bash run.sh %s --tier quick" % (R, V, seed, check)],
                                   capture_output=True, text=True)
                rc = r.returncode
            finally:
                open(os.path.join(R, f), "w").write(src)
            if rc == 0:
                surv.append((f, q, n.lineno, kind, " ".join((old or "").split())[:100], new))
                print("SURVIVED %s %s:%d %s [%s] -> %s" % (p, f, n.lineno, q, " ".join((old or "").split())[:100], new), flush=True)
            else:
                killed += 1
                if rc != 1:
                    print("  rc %d: %s:%d [%s] -> %s  %s" % (rc, f, n.lineno, " ".join((old or "").split())[:60], new, (r.stdout + r.stderr)[-150:].replace("\n", " ")), flush=True)
        print("%s: %d mutants, %d killed, %d survived" % (p, tried, killed, len(surv)), flush=True)
    for d in (R, V):
        shutil.rmtree(d, ignore_errors=True)


main()
